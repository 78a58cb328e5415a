//! Derived types, trait objects, static references.
use crate::term::*;
use crate::leaf_term;
use cmh::json::J;
use crossmist::{static_ref, Object, StaticRef};
use std::collections::*;
use std::fs::File;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

macro_rules! term_struct {
    ($([$($g:tt)*])? impl $N:ty { $($f:tt: $T:ty),* $(,)? }) => {
        impl $(<$($g)*>)? Term for $N {
            #[allow(unused_variables)]
            fn ty(r: &mut Reg) -> J { let v = vec![$(r.of::<$T>()),*]; kind("tuple", 0, vec![v]) }
            #[allow(unused_variables, unused_mut)]
            fn build(v: &J, cx: &mut Cx) -> Self {
                let mut it = v.arr("c").iter();
                Self { $($f: <$T>::build(it.next().unwrap(), cx)),* }
            }
            #[allow(unused_variables)]
            fn obs(&self, ox: &mut Ox) -> J { t(0, vec![$(Term::obs(&self.$f, ox)),*]) }
        }
    };
}

macro_rules! term_enum {
    ($([$($g:tt)*])? impl $N:ty { $($V:ident { $($f:tt $b:ident: $T:ty),* $(,)? })* }) => {
        impl $(<$($g)*>)? Term for $N {
            #[allow(unused_variables)]
            fn ty(r: &mut Reg) -> J { let v = vec![$(vec![$(r.of::<$T>()),*]),*]; kind("sum", 0, v) }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn build(v: &J, cx: &mut Cx) -> Self {
                let mut it = v.arr("c").iter();
                let mut n = v.n("n");
                $(
                    if n == 0 {
                        return Self::$V { $($f: <$T>::build(it.next().unwrap(), cx)),* };
                    }
                    n -= 1;
                )*
                panic!("HARNESS: no such variant")
            }
            #[allow(unused_variables, unused_assignments, irrefutable_let_patterns)]
            fn obs(&self, ox: &mut Ox) -> J {
                let mut n = -1;
                $(
                    n += 1;
                    if let Self::$V { $($f: $b),* } = self {
                        return t(n, vec![$(Term::obs($b, ox)),*]);
                    }
                )*
                t(-1, vec![])
            }
        }
    };
}
pub(crate) use term_enum;

// ---------------------------------------------------------------- plain structs

#[derive(Object, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Padded { pub a: u8, pub b: u64, pub c: u8, pub d: u16 }
term_struct! { impl Padded { a: u8, b: u64, c: u8, d: u16 } }

#[derive(Object, Clone, Copy)]
pub struct Unit;
term_struct! { impl Unit {} }

#[derive(Object)]
pub struct Braces {}
term_struct! { impl Braces {} }

#[derive(Object, Clone, Copy)]
pub struct NewType(pub u32);
term_struct! { impl NewType { 0: u32 } }

#[derive(Object)]
pub struct Triple(pub String, pub u8, pub Vec<u16>);
term_struct! { impl Triple { 0: String, 1: u8, 2: Vec<u16> } }

#[derive(Object)]
pub struct Named { pub first: String, pub second: (u8, u64), pub third: Option<Box<i128>>, pub last: bool }
term_struct! { impl Named { first: String, second: (u8, u64), third: Option<Box<i128>>, last: bool } }

#[derive(Object)]
pub struct Gen<T: Object, U: Object> { pub x: T, pub y: U }
term_struct! { [T: Term, U: Term] impl Gen<T, U> { x: T, y: U } }

#[derive(Object)]
pub struct Bounded<T>(pub Vec<T>, pub T) where T: Object;
term_struct! { [T: Term] impl Bounded<T> { 0: Vec<T>, 1: T } }

#[derive(Object)]
pub struct Sized3<T: Object, const N: usize> { pub x: [T; N], pub y: u8 }
term_struct! { [T: Term, const N: usize] impl Sized3<T, N> { x: [T; N], y: u8 } }

#[derive(Object)]
pub struct Phantom<T> { pub x: u16, pub p: PhantomData<T> }
impl<T: 'static> Term for Phantom<T> {
    fn ty(r: &mut Reg) -> J { let x = r.of::<u16>(); kind("tuple", 0, vec![vec![x]]) }
    fn build(v: &J, cx: &mut Cx) -> Self { Phantom { x: u16::build(c(v, 0), cx), p: PhantomData } }
    fn obs(&self, ox: &mut Ox) -> J { t(0, vec![Term::obs(&self.x, ox)]) }
}

#[derive(Object)]
pub struct WithFiles { pub before: u8, pub f: File, pub more: Vec<File>, pub after: String, pub opt: Option<File> }
term_struct! { impl WithFiles { before: u8, f: File, more: Vec<File>, after: String, opt: Option<File> } }

// ---------------------------------------------------------------- enums

#[derive(Object, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Plain { A, B(u8), C { x: u32, y: bool }, D(u64, u16) }
term_enum! { impl Plain { A {} B { 0 a: u8 } C { x a: u32, y b: bool } D { 0 a: u64, 1 b: u16 } } }

#[derive(Object)]
pub enum Mixed { A(u32), B(String), C { v: Vec<Mixed>, f: u8 }, D(Box<Mixed>, char), E, F(Option<File>, i16), G { r: Rc<u64>, q: Arc<String> } }
term_enum! { impl Mixed {
    A { 0 a: u32 } B { 0 a: String } C { v a: Vec<Mixed>, f b: u8 } D { 0 a: Box<Mixed>, 1 b: char } E {}
    F { 0 a: Option<File>, 1 b: i16 } G { r a: Rc<u64>, q b: Arc<String> }
} }

#[derive(Object)]
pub enum GenE<T: Object, U: Object> { None, Left(T), Right { u: U, n: u8 } }
term_enum! { [T: Term, U: Term] impl GenE<T, U> { None {} Left { 0 a: T } Right { u a: U, n b: u8 } } }

#[derive(Object)]
pub enum One { Only(u16, String) }
term_enum! { impl One { Only { 0 a: u16, 1 b: String } } }

#[derive(Object, Clone, Copy)]
#[repr(u8)]
pub enum Repr { X = 200, Y = 3, Z = 77 }
term_enum! { impl Repr { X {} Y {} Z {} } }

#[derive(Object)]
pub enum Tree { Leaf(u8), Node(Box<Tree>, Box<Tree>), Many(Vec<Tree>) }
term_enum! { impl Tree { Leaf { 0 a: u8 } Node { 0 a: Box<Tree>, 1 b: Box<Tree> } Many { 0 a: Vec<Tree> } } }

#[derive(Object)]
pub struct List { pub head: u32, pub tail: Option<Box<List>> }
term_struct! { impl List { head: u32, tail: Option<Box<List>> } }

// ---------------------------------------------------------------- shared objects

/// A node of an acyclic graph: its links are of several kinds, and may lead to objects of several types.
#[derive(Object)]
pub struct Node { pub tag: u8, pub links: Vec<Link> }
term_struct! { impl Node { tag: u8, links: Vec<Link> } }

#[derive(Object)]
pub enum Link { R(Rc<Node>), A(Arc<Node>), N(Rc<u32>), S(Arc<String>), O(Option<Rc<Other>>), B(Box<Node>) }
term_enum! { impl Link {
    R { 0 a: Rc<Node> } A { 0 a: Arc<Node> } N { 0 a: Rc<u32> } S { 0 a: Arc<String> } O { 0 a: Option<Rc<Other>> }
    B { 0 a: Box<Node> }
} }

#[derive(Object)]
pub enum Other { End, Pair(Rc<Node>, Arc<Other>), File(Rc<File>, Rc<()>), Custom(CustomRc<u16>, CustomRc<u16>) }
term_enum! { impl Other { End {} Pair { 0 a: Rc<Node>, 1 b: Arc<Other> } File { 0 a: Rc<File>, 1 b: Rc<()> } Custom { 0 a: CustomRc<u16>, 1 b: CustomRc<u16> } } }

/// The smallest such type, for the enumeration of all graphs.
#[derive(Object)]
pub struct Dag { pub kids: Vec<Edge> }
term_struct! { impl Dag { kids: Vec<Edge> } }
#[derive(Object)]
pub enum Edge { R(Rc<Dag>), A(Arc<Dag>) }
term_enum! { impl Edge { R { 0 a: Rc<Dag> } A { 0 a: Arc<Dag> } } }

/// As above, with the custom pointer of the documentation in place of Arc.
#[derive(Object)]
pub struct CDag { pub kids: Vec<CEdge> }
term_struct! { impl CDag { kids: Vec<CEdge> } }
#[derive(Object)]
pub enum CEdge { R(Rc<CDag>), C(CustomRc<CDag>) }
term_enum! { impl CEdge { R { 0 a: Rc<CDag> } C { 0 a: CustomRc<CDag> } } }

// ---------------------------------------------------------------- trait objects

macro_rules! objects {
    ($Tr:ident { $($i:literal $C:ty;)* }) => {
        impl Term for Box<dyn $Tr> {
            #[allow(unused_variables)]
            fn ty(r: &mut Reg) -> J { let v = vec![$(vec![r.of::<$C>()]),*]; kind("sum", 0, v) }
            fn build(v: &J, cx: &mut Cx) -> Self {
                match v.n("n") {
                    $($i => Box::new(<$C>::build(c(v, 0), cx)),)*
                    _ => panic!("HARNESS: no such type"),
                }
            }
            fn obs(&self, ox: &mut Ox) -> J { let (n, x) = self.as_ref().look(ox); t(n, vec![x]) }
        }
        $(impl $Tr for $C {
            fn look(&self, ox: &mut Ox) -> (i64, J) { ($i, Term::obs(self, ox)) }
        })*
    };
}

pub trait Shape: Object {
    fn look(&self, ox: &mut Ox) -> (i64, J);
}
pub trait Animal: Object {
    fn look(&self, ox: &mut Ox) -> (i64, J);
}
objects! { Shape { 0 Unit; 1 Padded; 2 String; 3 WithFiles; 4 Mixed; 5 Rc<u64>; 6 Vec<Box<dyn Shape>>; 7 Gen<Box<dyn Animal>, Box<dyn Shape>>; 8 u128; } }
objects! { Animal { 0 u8; 1 Padded; 2 Option<Box<dyn Shape>>; 3 Arc<u8>; 4 (); 5 File; } }

// ---------------------------------------------------------------- static references

macro_rules! leaf_static {
    ($($T:ty, |$x:ident, $y:ident| $same:expr, $pal:expr;)*) => { $(
        impl Leaf for StaticRef<$T> {
            fn palette() -> Vec<Self> { Vec::from($pal) }
            fn same(&self, o: &Self) -> bool { let ($x, $y) = (*self, *o); $same }
            fn show(&self) -> String { format!("{:p}", self.get()) }
        }
        leaf_term!(StaticRef<$T>);
    )* };
}

static S1: u32 = 11;
static S2: u32 = 22;
static mut S3: u32 = 33;
static ARRAY: [u32; 1000] = [5; 1000];
static BIG: [u8; 100_000] = [7; 100_000];
static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static TEXT2: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
const NUM: u16 = 1234;
const WORD: &str = "a word";

pub trait Speak: Sync {
    fn speak(&self) -> String;
}
pub struct Cat;
pub struct Dog(u64);
impl Speak for Cat { fn speak(&self) -> String { "meow".into() } }
impl Speak for Dog { fn speak(&self) -> String { format!("woof {}", self.0) } }
static DOG: Dog = Dog(5);

leaf_static! {
    u32, |x, y| std::ptr::eq(x.get(), y.get()),
        unsafe { [StaticRef::new_unchecked(&S1), StaticRef::new_unchecked(&S2), StaticRef::new_unchecked(&*std::ptr::addr_of!(S3)),
                  StaticRef::new_unchecked(&ARRAY[999])] };
    [u8; 100_000], |x, y| std::ptr::eq(x.get(), y.get()), unsafe { [StaticRef::new_unchecked(&BIG)] };
    std::sync::Mutex<String>, |x, y| std::ptr::eq(x.get(), y.get()),
        unsafe { [StaticRef::new_unchecked(&TEXT), StaticRef::new_unchecked(&TEXT2)] };
    u16, |x, y| *x == *y, [static_ref!(u16, NUM), static_ref!(u16, 4321)];
    &'static str, |x, y| *x == *y, [static_ref!(&'static str, WORD), static_ref!(&'static str, "")];
    &'static dyn Speak, |x, y| x.speak() == y.speak(),
        [static_ref!(&'static dyn Speak, &Cat), static_ref!(&'static dyn Speak, &Dog(7)), unsafe { StaticRef::new_unchecked(DOGS) }];
    (), |x, y| x.get() == y.get(), [static_ref!((), ())];
}
static DOG_REF: &'static dyn Speak = &DOG;
static DOGS: &'static &'static dyn Speak = &DOG_REF;

// ---------------------------------------------------------------- hashers

#[derive(Default, Clone)]
pub struct OddHasher(u64);
impl std::hash::Hasher for OddHasher {
    fn finish(&self) -> u64 { self.0 & 3 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64); } }
}
pub type OddBuild = std::hash::BuildHasherDefault<OddHasher>;
pub type OddMap<K, V> = HashMap<K, V, OddBuild>;
pub type OddSet<K> = HashSet<K, OddBuild>;
