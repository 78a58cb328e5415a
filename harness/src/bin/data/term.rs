//! Values of supported types as terms of the specification Data.tla, and back.
//!
//! A term is {n, c}: a number (index of a leaf value, variant, identity of a shared object, label of an
//! open file) and the terms of the parts. Types are listed in a table that refers to itself by index,
//! so that recursive types are possible.
use cmh::json::J;
use crossmist::{Delayed, Deserializer, NonTrivialObject, Object, Serializer};
use std::any::{Any, TypeId};
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::hash::{BuildHasher, Hash};
use std::io::Result;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, OwnedFd};
use std::os::raw::c_void;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

/// Table of types.
#[derive(Default)]
pub struct Reg {
    seen: HashMap<TypeId, usize>,
    pub types: Vec<J>,
}

impl Reg {
    pub fn of<T: Term>(&mut self) -> usize {
        if let Some(i) = self.seen.get(&TypeId::of::<T>()) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.seen.insert(TypeId::of::<T>(), i);
        let d = T::ty(self).with("name", std::any::type_name::<T>());
        self.types[i] = d;
        i
    }
}

pub fn kind(k: &str, n: usize, a: Vec<Vec<usize>>) -> J {
    // Indices are 1-based for TLA+.
    let a: Vec<J> = a.into_iter().map(|v| J::Arr(v.into_iter().map(|x| J::from(x + 1)).collect())).collect();
    J::obj().with("k", k).with("n", n).with("a", a)
}

/// Shared objects while building: identity in the term -> pointer.
#[derive(Default)]
pub struct Cx {
    shared: HashMap<i64, Box<dyn Any>>,
}

/// Shared objects while looking at a value, numbered in the order of the first visit.
#[derive(Default)]
pub struct Ox {
    seen: HashMap<*const c_void, i64>,
}

impl Ox {
    pub fn id(&mut self, p: *const c_void) -> i64 {
        let n = self.seen.len() as i64 + 1;
        *self.seen.entry(p).or_insert(n)
    }
}

pub fn t(n: i64, c: Vec<J>) -> J {
    J::obj().with("n", n).with("c", c)
}

pub trait Term: Object + Sized + 'static {
    fn ty(r: &mut Reg) -> J;
    fn build(v: &J, cx: &mut Cx) -> Self;
    fn obs(&self, ox: &mut Ox) -> J;
    fn undelay(self) -> Result<Dyn> {
        panic!("not a delayed value")
    }
    fn split(self) -> Vec<Dyn> {
        panic!("not to be taken apart")
    }
    fn call(&mut self, _mode: &str, _args: &[i64]) -> Vec<i64> {
        panic!("not a function")
    }
    fn call_once(self, _args: &[i64]) -> Vec<i64> {
        panic!("not a function")
    }
}

// ---------------------------------------------------------------- leaves

pub trait Leaf: Object + Sized + 'static {
    fn palette() -> Vec<Self>;
    fn same(&self, o: &Self) -> bool;
    fn show(&self) -> String;
}

#[macro_export]
macro_rules! leaf_term {
    ($([$($g:tt)*])? $T:ty) => {
        impl $(<$($g)*>)? Term for $T {
            fn ty(_: &mut Reg) -> J {
                kind("leaf", <Self as Leaf>::palette().len(), vec![])
            }
            fn build(v: &J, _: &mut Cx) -> Self {
                <Self as Leaf>::palette().into_iter().nth(v.n("n") as usize).unwrap()
            }
            fn obs(&self, _: &mut Ox) -> J {
                match <Self as Leaf>::palette().iter().position(|x| self.same(x)) {
                    Some(i) => t(i as i64, vec![]),
                    None => t(-1, vec![]).with("is", self.show()),
                }
            }
        }
    };
}

#[macro_export]
macro_rules! leaf_eq {
    ($($T:ty: [$($v:expr),* $(,)?];)*) => {
        $(
            impl Leaf for $T {
                fn palette() -> Vec<Self> { $crate::term::distinct(vec![$($v),*]) }
                fn same(&self, o: &Self) -> bool { self == o }
                fn show(&self) -> String { let s = format!("{self:?}"); s.chars().take(100).collect() }
            }
            leaf_term!($T);
        )*
    };
}

pub fn distinct<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut r: Vec<T> = Vec::new();
    for x in v {
        if !r.contains(&x) {
            r.push(x);
        }
    }
    r
}

macro_rules! ints {
    ($($T:ident $N:ident)*) => { $(
        leaf_eq! {
            $T: [0, 1, 2, <$T>::MAX, <$T>::MIN, <$T>::MAX - 1, <$T>::MAX / 2 + 1, <$T>::MAX / 3];
            std::num::$N: [std::num::$N::new(1).unwrap(), std::num::$N::new(<$T>::MAX).unwrap(), std::num::$N::new(<$T>::MAX / 3).unwrap()];
        }
    )* };
}
ints!(u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64 u128 NonZeroU128 usize NonZeroUsize
      i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize);

fn long(n: usize, with: &str) -> String {
    let mut s = String::new();
    let mut i = 0u32;
    while s.len() < n {
        s.push_str(with);
        s.push_str(&i.to_string());
        i += 1;
    }
    s
}

fn zero_instant() -> std::time::Instant {
    // Instants cannot be made of numbers; this one is the same in all processes.
    unsafe { std::mem::zeroed() }
}

leaf_eq! {
    bool: [false, true];
    char: ['\0', 'a', '\u{d7ff}', '\u{e000}', '\u{10ffff}', 'é'];
    (): [()];
    std::marker::PhantomData<String>: [std::marker::PhantomData];
    std::time::Duration: [std::time::Duration::ZERO, std::time::Duration::MAX, std::time::Duration::from_nanos(1),
        std::time::Duration::new(1 << 40, 999_999_999)];
    std::time::Instant: [zero_instant(), zero_instant() + std::time::Duration::new(5, 999_999_999),
        zero_instant() + std::time::Duration::new(1 << 50, 1)];
    std::time::SystemTime: [std::time::UNIX_EPOCH, std::time::UNIX_EPOCH + std::time::Duration::new(1 << 40, 7),
        std::time::UNIX_EPOCH - std::time::Duration::new(3, 999)];
    String: ["".into(), "a".into(), "\0".into(), "héllo \u{10ffff}".into(), long(300, "é"), long(70_000, "x\n"),
        "zzzzzzz".into(), "0".repeat(8)];
    CString: [CString::default(), CString::new("a").unwrap(), CString::new(vec![0xff, 1, 0x80]).unwrap(),
        CString::new(long(5000, "q")).unwrap()];
    OsString: ["".into(), "x".into(), std::os::unix::ffi::OsStringExt::from_vec(vec![0xff, 0, 0xc3]),
        long(3000, "ö").into()];
    PathBuf: ["".into(), "/".into(), "a/../b//".into(),
        OsString::from(<OsString as std::os::unix::ffi::OsStringExt>::from_vec(vec![b'/', 0xff, 0xfe])).into(),
        long(2000, "/dir").into()];
}

macro_rules! floats {
    ($($T:ident)*) => { $(
        impl Leaf for $T {
            fn palette() -> Vec<Self> {
                vec![0.0, -0.0, 1.5, <$T>::INFINITY, <$T>::NEG_INFINITY, <$T>::MIN_POSITIVE, <$T>::NAN,
                     <$T>::from_bits(<$T>::NAN.to_bits() ^ 0x155), <$T>::MAX]
            }
            fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
            fn show(&self) -> String { format!("{:x}", self.to_bits()) }
        }
        leaf_term!($T);
    )* };
}
floats!(f32 f64);

impl Leaf for std::convert::Infallible {
    fn palette() -> Vec<Self> {
        vec![]
    }
    fn same(&self, _: &Self) -> bool {
        false
    }
    fn show(&self) -> String {
        "impossible".into()
    }
}
leaf_term!(std::convert::Infallible);

// ---------------------------------------------------------------- composed types

pub fn c(v: &J, i: usize) -> &J {
    &v.arr("c")[i]
}

/// The parts of a sequence; n tells how many times they are repeated.
fn items<T: Term, R: FromIterator<T>>(v: &J, cx: &mut Cx) -> R {
    let mut r = Vec::new();
    for _ in 0..v.n("n").max(1) {
        for x in v.arr("c") {
            r.push(T::build(x, cx));
        }
    }
    r.into_iter().collect()
}

fn seen<'a, T: Term>(it: impl Iterator<Item = &'a T>, ox: &mut Ox) -> J {
    t(0, it.map(|x| x.obs(ox)).collect())
}

macro_rules! sequences {
    (@ "seq" $s:ident) => { Vec::from_iter($s).into_iter().map(Dyn::new).collect() };
    (@ $k:tt $s:ident) => { panic!("not to be taken apart") };
    ($($k:tt [$($g:tt)*] $T:ty;)*) => { $(
        impl<$($g)*> Term for $T {
            fn ty(r: &mut Reg) -> J { let x = r.of::<T>(); kind($k, 0, vec![vec![x]]).with("sp", $k == "seq") }
            fn split(self) -> Vec<Dyn> { sequences!(@ $k self) }
            fn build(v: &J, cx: &mut Cx) -> Self { items::<T, Self>(v, cx) }
            fn obs(&self, ox: &mut Ox) -> J { seen(self.iter(), ox) }
        }
    )* };
}
sequences! {
    "seq" [T: Term] Vec<T>;
    "seq" [T: Term] VecDeque<T>;
    "seq" [T: Term] LinkedList<T>;
    "set" [T: Term + Ord] BTreeSet<T>;
    "set" [T: Term + Eq + Hash, S: BuildHasher + Default + 'static] HashSet<T, S>;
    "bag" [T: Term + Ord] BinaryHeap<T>;
}

impl<T: Term> Term for Box<[T]> {
    fn ty(r: &mut Reg) -> J {
        let x = r.of::<T>();
        kind("seq", 0, vec![vec![x]])
    }
    fn build(v: &J, cx: &mut Cx) -> Self {
        items::<T, Self>(v, cx)
    }
    fn obs(&self, ox: &mut Ox) -> J {
        seen(self.iter(), ox)
    }
}

macro_rules! maps {
    ($([$($g:tt)*] $T:ty;)*) => { $(
        impl<$($g)*> Term for $T {
            fn ty(r: &mut Reg) -> J { let k = r.of::<K>(); let v = r.of::<V>(); kind("map", 0, vec![vec![k, v]]) }
            fn build(v: &J, cx: &mut Cx) -> Self {
                v.arr("c").iter().map(|e| (K::build(c(e, 0), cx), V::build(c(e, 1), cx))).collect()
            }
            fn obs(&self, ox: &mut Ox) -> J {
                // In the order of the keys, so that the numbers of shared objects do not depend on hashes.
                let mut es: Vec<(J, &V)> = self.iter().map(|(k, v)| (k.obs(ox), v)).collect();
                es.sort_by_key(|e| e.0.dump());
                t(0, es.into_iter().map(|(k, v)| { let v = v.obs(ox); t(0, vec![k, v]) }).collect())
            }
        }
    )* };
}
maps! {
    [K: Term + Ord, V: Term] BTreeMap<K, V>;
    [K: Term + Eq + Hash, V: Term, S: BuildHasher + Default + 'static] HashMap<K, V, S>;
}

impl<T: Term, const N: usize> Term for [T; N] {
    fn ty(r: &mut Reg) -> J {
        let x = r.of::<T>();
        kind("tuple", 0, vec![vec![x; N]])
    }
    fn build(v: &J, cx: &mut Cx) -> Self {
        let x: Vec<T> = v.arr("c").iter().map(|x| T::build(x, cx)).collect();
        x.try_into().ok().unwrap()
    }
    fn obs(&self, ox: &mut Ox) -> J {
        seen(self.iter(), ox)
    }
}

macro_rules! tuples {
    ($(($($T:ident $i:tt)+))*) => { $(
        impl<$($T: Term),+> Term for ($($T,)+) {
            fn ty(r: &mut Reg) -> J { let v = vec![$(r.of::<$T>()),+]; kind("tuple", 0, vec![v]).with("sp", true) }
            fn split(self) -> Vec<Dyn> { vec![$(Dyn::new(self.$i)),+] }
            fn build(v: &J, cx: &mut Cx) -> Self { ($($T::build(c(v, $i), cx),)+) }
            fn obs(&self, ox: &mut Ox) -> J { t(0, vec![$(self.$i.obs(ox)),+]) }
        }
    )* };
}
tuples! {
    (A 0) (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4) (A 0 B 1 C 2 D 3 E 4 F 5)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J1 9 K 10 L 11)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J1 9 K 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17 S 18)
}

impl<T: Term> Term for Option<T> {
    fn ty(r: &mut Reg) -> J {
        let x = r.of::<T>();
        kind("sum", 0, vec![vec![], vec![x]])
    }
    fn build(v: &J, cx: &mut Cx) -> Self {
        match v.n("n") {
            0 => None,
            _ => Some(T::build(c(v, 0), cx)),
        }
    }
    fn obs(&self, ox: &mut Ox) -> J {
        match self {
            None => t(0, vec![]),
            Some(x) => t(1, vec![x.obs(ox)]),
        }
    }
}

impl<T: Term, E: Term> Term for std::result::Result<T, E> {
    fn ty(r: &mut Reg) -> J {
        let x = r.of::<T>();
        let y = r.of::<E>();
        kind("sum", 0, vec![vec![x], vec![y]])
    }
    fn build(v: &J, cx: &mut Cx) -> Self {
        match v.n("n") {
            0 => Ok(T::build(c(v, 0), cx)),
            _ => Err(E::build(c(v, 0), cx)),
        }
    }
    fn obs(&self, ox: &mut Ox) -> J {
        match self {
            Ok(x) => t(0, vec![x.obs(ox)]),
            Err(x) => t(1, vec![x.obs(ox)]),
        }
    }
}

impl<T: Term> Term for Box<T> {
    fn ty(r: &mut Reg) -> J {
        let x = r.of::<T>();
        kind("tuple", 0, vec![vec![x]])
    }
    fn build(v: &J, cx: &mut Cx) -> Self {
        Box::new(T::build(c(v, 0), cx))
    }
    fn obs(&self, ox: &mut Ox) -> J {
        t(0, vec![(**self).obs(ox)])
    }
}

macro_rules! shared {
    ($($n:literal $P:ident $new:expr, $ptr:expr;)*) => { $(
        impl<T: Term> Term for $P<T> {
            fn ty(r: &mut Reg) -> J { let x = r.of::<T>(); kind("rc", $n, vec![vec![x]]) }
            fn build(v: &J, cx: &mut Cx) -> Self {
                if let Some(p) = cx.shared.get(&v.n("n")) {
                    return p.downcast_ref::<Self>().expect("HARNESS: two types for a shared object").clone();
                }
                let p: Self = $new(T::build(c(v, 0), cx));
                cx.shared.insert(v.n("n"), Box::new(p.clone()));
                p
            }
            fn obs(&self, ox: &mut Ox) -> J {
                let id = ox.id($ptr(self) as *const c_void);
                t(id, vec![(**self).obs(ox)])
            }
        }
    )* };
}
shared! {
    0 Rc Rc::new, Rc::as_ptr;
    1 Arc Arc::new, Arc::as_ptr;
    2 CustomRc |x| CustomRc(Rc::new(x)), |x: &CustomRc<T>| Rc::as_ptr(&x.0);
}

/// The example in the documentation of NonTrivialObject.
pub struct CustomRc<T: 'static>(pub Rc<T>);

impl<T> Clone for CustomRc<T> {
    fn clone(&self) -> Self {
        CustomRc(self.0.clone())
    }
}
impl<T> std::ops::Deref for CustomRc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

unsafe impl<T: 'static + Object> NonTrivialObject for CustomRc<T> {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match s.learn_cyclic(Rc::as_ptr(&self.0) as *const c_void) {
            None => {
                s.serialize_temporary(0usize);
                s.serialize(&*self.0);
            }
            Some(id) => {
                s.serialize_temporary(id);
            }
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Result<Self> {
        let id = d.deserialize::<usize>()?;
        match std::num::NonZeroUsize::new(id) {
            None => {
                let rc = Rc::<T>::new(d.deserialize()?);
                d.learn_cyclic(rc.clone());
                Ok(Self(rc))
            }
            Some(id) => Ok(Self(d.get_cyclic::<Rc<T>>(id).clone())),
        }
    }
}

/// A pair serialized by hand, in the order opposite to the declaration.
pub struct ByHand<A, B> {
    pub a: A,
    pub b: B,
}
unsafe impl<A: Object, B: Object> NonTrivialObject for ByHand<A, B> {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.b);
        s.serialize(&self.a);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Result<Self> {
        let b = d.deserialize()?;
        let a = d.deserialize()?;
        Ok(Self { a, b })
    }
}
impl<A: Term, B: Term> Term for ByHand<A, B> {
    fn ty(r: &mut Reg) -> J {
        let v = vec![r.of::<B>(), r.of::<A>()];
        kind("tuple", 0, vec![v])
    }
    fn build(v: &J, cx: &mut Cx) -> Self {
        let b = B::build(c(v, 0), cx);
        let a = A::build(c(v, 1), cx);
        ByHand { a, b }
    }
    fn obs(&self, ox: &mut Ox) -> J {
        let b = self.b.obs(ox);
        let a = self.a.obs(ox);
        t(0, vec![b, a])
    }
}

// ---------------------------------------------------------------- handles

/// A new descriptor of the open file with this label. The file's contents tell the label.
fn labelled(n: i64) -> OwnedFd {
    use std::io::Write;
    let dir = std::env::var("CMH_DIR").unwrap();
    let path = format!("{dir}/file{n}");
    if !std::path::Path::new(&path).exists() {
        let tmp = format!("{path}.{}", std::process::id());
        File::create(&tmp).unwrap().write_all(n.to_string().as_bytes()).unwrap();
        std::fs::rename(&tmp, &path).unwrap();
    }
    File::open(&path).unwrap().into()
}

pub fn label(fd: i32) -> i64 {
    let mut b = [0u8; 20];
    let n = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut c_void, b.len(), 0) };
    if n <= 0 {
        return -1;
    }
    std::str::from_utf8(&b[..n as usize]).ok().and_then(|s| s.parse().ok()).unwrap_or(-2)
}

/// Number of descriptors of labelled files in this process.
pub fn count_handles() -> i64 {
    let dir = std::env::var("CMH_DIR").unwrap();
    let names: Vec<_> = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    let mine = |p: &std::path::Path| {
        std::fs::read_link(p).is_ok_and(|l| l.to_string_lossy().starts_with(&format!("{dir}/file")))
    };
    names.iter().filter(|p| mine(p)).count() as i64
}

macro_rules! handles {
    ($($T:ty: |$fd:ident| $new:expr, |$h:ident| $raw:expr;)*) => { $(
        impl Term for $T {
            fn ty(_: &mut Reg) -> J { kind("handle", 0, vec![]) }
            fn build(v: &J, _: &mut Cx) -> Self { let $fd = labelled(v.n("n")); $new }
            fn obs(&self, _: &mut Ox) -> J { let $h = self; t(label($raw), vec![]) }
        }
    )* };
}
handles! {
    File: |fd| fd.into(), |h| h.as_raw_fd();
    crossmist::handles::OwnedHandle: |fd| fd.into(), |h| h.as_raw_fd();
    tokio::fs::File: |fd| File::from(fd).into(), |h| h.as_raw_fd();
    smol::fs::File: |fd| File::from(fd).into(), |h| h.as_raw_fd();
    CustomFile: |fd| CustomFile(fd.into()), |h| h.0.as_raw_fd();
}

/// The example in the documentation of NonTrivialObject.
pub struct CustomFile(pub File);
unsafe impl NonTrivialObject for CustomFile {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        use crossmist::handles::AsHandle;
        s.serialize_handle(self.0.as_handle());
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Result<Self> {
        Ok(Self(d.deserialize::<crossmist::handles::OwnedHandle>()?.into()))
    }
}

pub fn dup(fd: i32) -> crossmist::handles::OwnedHandle {
    let n = unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 3) };
    assert!(n >= 0, "HARNESS: dup");
    let f = unsafe { OwnedFd::from_raw_fd(n) };
    unsafe { crossmist::handles::OwnedHandle::from_raw_fd(f.into_raw_fd()) }
}

// ---------------------------------------------------------------- delayed values

thread_local! {
    /// Whether delayed values can be looked at: only before they are sent.
    pub static SEALED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl<T: Term> Term for Delayed<T> {
    fn ty(r: &mut Reg) -> J {
        let x = r.of::<T>();
        kind("delayed", 0, vec![vec![x]])
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        // What is inside is a value on its own.
        Delayed::new(T::build(c(v, 0), &mut Cx::default()))
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn undelay(self) -> Result<Dyn> {
        Ok(Dyn::new(self.deserialize()?))
    }
}

// ---------------------------------------------------------------- any value

pub trait Item {
    fn ser<'a>(&'a self, s: &mut Serializer<'a>);
    fn obs(&self, ox: &mut Ox) -> J;
    fn undelay(self: Box<Self>) -> Result<Dyn>;
    fn split(self: Box<Self>) -> Vec<Dyn>;
    fn call(&mut self, mode: &str, args: &[i64]) -> Vec<i64>;
    fn call_once(self: Box<Self>, args: &[i64]) -> Vec<i64>;
    fn any(self: Box<Self>) -> Box<dyn Any>;
}

impl<T: Term> Item for T {
    fn ser<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(self);
    }
    fn obs(&self, ox: &mut Ox) -> J {
        Term::obs(self, ox)
    }
    fn undelay(self: Box<Self>) -> Result<Dyn> {
        Term::undelay(*self)
    }
    fn split(self: Box<Self>) -> Vec<Dyn> {
        Term::split(*self)
    }
    fn call(&mut self, mode: &str, args: &[i64]) -> Vec<i64> {
        Term::call(self, mode, args)
    }
    fn call_once(self: Box<Self>, args: &[i64]) -> Vec<i64> {
        Term::call_once(*self, args)
    }
    fn any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

pub struct Dyn {
    pub ty: usize,
    pub v: Box<dyn Item>,
}

impl Dyn {
    pub fn new<T: Term>(v: T) -> Dyn {
        Dyn { ty: crate::index_of(TypeId::of::<T>()), v: Box::new(v) }
    }
}

unsafe impl NonTrivialObject for Dyn {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize_temporary(self.ty);
        self.v.ser(s);
        s.serialize_temporary(0x5eu8);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> Result<Self> {
        let ty: usize = d.deserialize()?;
        let v = (crate::entry(ty).de)(d)?;
        let mark: u8 = d.deserialize()?;
        assert_eq!(mark, 0x5e, "the mark after a value of type {} is gone", crate::entry(ty).name);
        Ok(Dyn { ty, v })
    }
}

pub struct Entry {
    pub name: &'static str,
    pub id: TypeId,
    pub reg: fn(&mut Reg) -> usize,
    pub build: fn(&J, &mut Cx) -> Dyn,
    pub de: unsafe fn(&mut Deserializer) -> Result<Box<dyn Item>>,
}

pub const fn entry<T: Term>(name: &'static str) -> fn() -> Entry {
    unsafe fn de<T: Term>(d: &mut Deserializer) -> Result<Box<dyn Item>> {
        Ok(Box::new(d.deserialize::<T>()?))
    }
    // The name is the type's own.
    let _ = name;
    || Entry {
        name: std::any::type_name::<T>(),
        id: TypeId::of::<T>(),
        reg: |r| r.of::<T>(),
        build: |v, cx| Dyn::new(T::build(v, cx)),
        de: de::<T>,
    }
}
