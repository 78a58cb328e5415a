//! The universal message type: an id, generated contents, and any handles.
use crate::ends::{DynEnd, EndObj};
use crate::json::J;
use crate::util;
use crossmist::{Delayed, Deserializer, NonTrivialObject, Object, Serializer};
use std::collections::HashMap;
use std::fs::File;
use std::os::fd::{AsRawFd, OwnedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::sync::Arc;

pub const BIG: usize = 40000;

#[derive(Object)]
pub struct Msg {
    pub id: u64,
    pub body: Vec<u8>,
    pub items: Vec<Item>,
}

/// Serializes its first handle twice; decodes to two handles.
pub struct Twice(pub File, pub Option<File>);
unsafe impl NonTrivialObject for Twice {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        self.0.serialize_self(s);
        self.0.serialize_self(s);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        Ok(Twice(d.deserialize()?, Some(d.deserialize()?)))
    }
}

/// Serializes its handles round-robin up to the given number; decodes to as many handles.
pub struct Crowd(pub Vec<File>, pub usize);
unsafe impl NonTrivialObject for Crowd {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize_temporary(self.1);
        for f in self.0.iter().cycle().take(self.1) {
            s.serialize(f);
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let n: usize = d.deserialize()?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(d.deserialize()?);
        }
        Ok(Crowd(v, n))
    }
}

#[derive(Object)]
pub enum Item {
    File(File),
    Owned(OwnedFd),
    Unix(UnixStream),
    TFile(tokio::fs::File),
    SFile(smol::fs::File),
    TUnix(tokio::net::UnixStream),
    SUnix(smol::Async<UnixStream>),
    M(EndObj<Msg>),
    P(EndObj<[u8; 16384]>),
    W(EndObj<u64>),
    Nothing,
    Pad(u64, String),
    Opt(Option<Box<Item>>),
    Many(Vec<Item>),
    Share(Arc<Item>, Arc<Item>),
    Two(Twice),
    Crowd(Crowd),
    Later(Delayed<Box<Item>>),
}

pub enum Obj {
    End(Box<dyn DynEnd>),
    Item(Item),
    Child(Box<dyn crate::ends::DynChild>),
    Kh(crossmist::KillHandle),
    Dup(OwnedFd),
}

impl Item {
    pub fn raw(&self) -> Option<RawFd> {
        Some(match self {
            Item::File(f) => f.as_raw_fd(),
            Item::Owned(f) => f.as_raw_fd(),
            Item::Unix(f) => f.as_raw_fd(),
            Item::TFile(f) => f.as_raw_fd(),
            Item::SFile(f) => f.as_raw_fd(),
            Item::TUnix(f) => f.as_raw_fd(),
            Item::SUnix(f) => f.as_raw_fd(),
            Item::M(e) => e.raw(),
            Item::P(e) => e.raw(),
            Item::W(e) => e.raw(),
            _ => return None,
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Item::File(_) => "file",
            Item::Owned(_) => "owned",
            Item::Unix(_) => "unix",
            Item::TFile(_) => "tfile",
            Item::SFile(_) => "sfile",
            Item::TUnix(_) => "tunix",
            Item::SUnix(_) => "sunix",
            Item::M(e) => e.kind(),
            Item::P(e) => e.kind(),
            Item::W(e) => e.kind(),
            _ => "?",
        }
    }
    pub fn into_obj(self) -> Obj {
        match self {
            Item::M(e) => Obj::End(Box::new(e)),
            Item::P(e) => Obj::End(Box::new(e)),
            Item::W(e) => Obj::End(Box::new(e)),
            i => Obj::Item(i),
        }
    }
}

pub type Table = HashMap<String, Obj>;

/// Take an item out of the table according to a specification (an id, or a wrapper object).
pub fn build_item(spec: &J, t: &mut Table) -> Result<Item, String> {
    match spec {
        J::Str(id) => match t.remove(id) {
            Some(Obj::Item(i)) => Ok(i),
            Some(Obj::End(e)) => e.into_item(),
            Some(o) => {
                t.insert(id.clone(), o);
                Err(format!("{id} cannot be sent"))
            }
            None => Err(format!("no object {id}")),
        },
        _ => {
            let mut of = spec.arr("of").iter();
            let mut next = |t: &mut Table| build_item(of.next().ok_or("missing item")?, t);
            Ok(match spec.s("w") {
                "none" => Item::Opt(None),
                "nothing" => Item::Nothing,
                "pad" => {
                    let mut b = vec![0; spec.n("len") as usize];
                    util::fill(spec.n("id") as u64, &mut b);
                    Item::Pad(spec.n("id") as u64, b.iter().map(|x| (b'a' + x % 26) as char).collect())
                }
                "opt" => Item::Opt(Some(Box::new(next(t)?))),
                "share" => {
                    let a = Arc::new(next(t)?);
                    Item::Share(a.clone(), a)
                }
                "two" => match next(t)? {
                    Item::File(f) => Item::Two(Twice(f, None)),
                    _ => return Err("two needs a file".into()),
                },
                "crowd" => {
                    let mut v = Vec::new();
                    for s in spec.arr("of") {
                        match build_item(s, t)? {
                            Item::File(f) => v.push(f),
                            _ => return Err("crowd needs files".into()),
                        }
                    }
                    Item::Crowd(Crowd(v, spec.n("n") as usize))
                }
                "later" => Item::Later(Delayed::new(Box::new(next(t)?))),
                "many" => {
                    let mut v = Vec::new();
                    for s in spec.arr("of") {
                        v.push(build_item(s, t)?);
                    }
                    Item::Many(v)
                }
                w => return Err(format!("unknown wrapper {w}")),
            })
        }
    }
}

/// Names of the objects an item specification takes, in order.
pub fn spec_ids(spec: &J, out: &mut Vec<String>) {
    match spec {
        J::Str(s) => out.push(s.clone()),
        _ => spec.arr("of").iter().for_each(|s| spec_ids(s, out)),
    }
}

/// Flatten a received item into (shape for the description, leaf objects).
pub fn flatten(i: Item, leaves: &mut Vec<Item>) -> J {
    match i {
        Item::Nothing => J::from("nothing"),
        Item::Pad(id, s) => {
            let mut b = vec![0; s.len()];
            util::fill(id, &mut b);
            let ok = b.iter().map(|x| (b'a' + x % 26) as char).eq(s.chars());
            J::obj().with("pad", id).with("len", s.len()).with("ok", ok)
        }
        Item::Opt(None) => J::from("none"),
        Item::Opt(Some(b)) => J::obj().with("opt", flatten(*b, leaves)),
        Item::Many(v) => J::obj().with("many", v.into_iter().map(|x| flatten(x, leaves)).collect::<Vec<_>>()),
        Item::Share(a, b) => {
            if !Arc::ptr_eq(&a, &b) {
                return J::from("unshared");
            }
            drop(b);
            match Arc::try_unwrap(a) {
                Ok(x) => J::obj().with("share", flatten(x, leaves)),
                Err(_) => J::from("overshared"),
            }
        }
        Item::Two(Twice(a, b)) => {
            let a = flatten(Item::File(a), leaves);
            let b = match b {
                Some(b) => flatten(Item::File(b), leaves),
                None => J::Null,
            };
            J::obj().with("two", vec![a, b])
        }
        Item::Crowd(Crowd(v, n)) => {
            if v.len() != n {
                return J::from("badcrowd");
            }
            J::obj().with("crowd", v.into_iter().map(|f| flatten(Item::File(f), leaves)).collect::<Vec<_>>())
        }
        Item::Later(d) => match d.deserialize() {
            Ok(b) => J::obj().with("later", flatten(*b, leaves)),
            Err(e) => J::from(format!("later failed: {e}")),
        },
        leaf => {
            let d = util::fd_desc(leaf.raw().unwrap()).with("k", leaf.kind());
            leaves.push(leaf);
            d
        }
    }
}

/// What a received value looks like: description and the objects it carried.
pub trait Elem: Object + Send + Sized + 'static {
    fn build(spec: &J, t: &mut Table) -> Result<Self, String>;
    fn describe(self) -> (J, Vec<Item>);
    /// Return unsent objects to the table.
    fn restore(self, _spec: &J, _t: &mut Table) {}
    const NAME: &'static str;
}

impl Elem for Msg {
    const NAME: &'static str = "M";
    fn build(spec: &J, t: &mut Table) -> Result<Self, String> {
        let id = spec.n("id") as u64;
        let mut body = vec![0; spec.n("len") as usize];
        util::fill(id, &mut body);
        let mut ids = Vec::new();
        spec.arr("items").iter().for_each(|s| spec_ids(s, &mut ids));
        if let Some(m) = ids.iter().find(|i| !t.contains_key(*i)) {
            return Err(format!("no object {m}"));
        }
        let mut items = Vec::new();
        for s in spec.arr("items") {
            items.push(build_item(s, t)?);
        }
        Ok(Msg { id, body, items })
    }
    fn describe(self) -> (J, Vec<Item>) {
        let ok = util::check(self.id, &self.body);
        let mut leaves = Vec::new();
        let items: Vec<J> = self.items.into_iter().map(|i| flatten(i, &mut leaves)).collect();
        (J::obj().with("id", self.id).with("len", self.body.len()).with("ok", ok).with("items", items), leaves)
    }
    fn restore(self, spec: &J, t: &mut Table) {
        // Only plain (unwrapped) items are ever kept by the scenarios.
        let specs = spec.arr("items").to_vec();
        for (s, i) in specs.iter().zip(self.items) {
            match (s, i) {
                (J::Str(id), i) => {
                    t.insert(id.clone(), i.into_obj());
                }
                (s, Item::Two(Twice(f, _))) => {
                    let mut v = Vec::new();
                    spec_ids(s, &mut v);
                    t.insert(v[0].clone(), Obj::Item(Item::File(f)));
                }
                (s, Item::Crowd(Crowd(fs, _))) => {
                    let mut v = Vec::new();
                    spec_ids(s, &mut v);
                    for (id, f) in v.into_iter().zip(fs) {
                        t.insert(id, Obj::Item(Item::File(f)));
                    }
                }
                (s, Item::Share(a, b)) => {
                    drop(b);
                    let mut v = Vec::new();
                    spec_ids(s, &mut v);
                    if let Ok(i) = Arc::try_unwrap(a) {
                        t.insert(v[0].clone(), i.into_obj());
                    }
                }
                (s, Item::Opt(Some(i))) => {
                    let mut v = Vec::new();
                    spec_ids(s, &mut v);
                    t.insert(v[0].clone(), i.into_obj());
                }
                (s, Item::Many(is)) => {
                    let mut v = Vec::new();
                    spec_ids(s, &mut v);
                    for (id, i) in v.into_iter().zip(is) {
                        t.insert(id, i.into_obj());
                    }
                }
                _ => {}
            }
        }
    }
}

impl<const N: usize> Elem for [u8; N] {
    const NAME: &'static str = match N {
        1 => "B1",
        16384 => "P",
        _ => "B",
    };
    fn build(spec: &J, _: &mut Table) -> Result<Self, String> {
        let id = spec.n("id") as u64;
        let mut a = [0u8; N];
        util::fill(id, &mut a);
        let h = id.to_le_bytes();
        let n = N.min(8);
        a[..n].copy_from_slice(&h[..n]);
        Ok(a)
    }
    fn describe(self) -> (J, Vec<Item>) {
        let mut h = [0u8; 8];
        let n = N.min(8);
        h[..n].copy_from_slice(&self[..n]);
        let id = u64::from_le_bytes(h);
        let want = Self::build(&J::obj().with("id", id), &mut Table::new()).unwrap();
        (J::obj().with("id", id).with("len", N).with("ok", want == self), Vec::new())
    }
}

impl Elem for u64 {
    const NAME: &'static str = "W";
    fn build(spec: &J, _: &mut Table) -> Result<Self, String> {
        Ok(spec.n("id") as u64 | 0x5A5A_0000_0000_0000)
    }
    fn describe(self) -> (J, Vec<Item>) {
        let id = self & 0xFFFF_FFFF_FFFF;
        (J::obj().with("id", id).with("len", 8).with("ok", self >> 48 == 0x5A5A), Vec::new())
    }
}

impl Elem for () {
    const NAME: &'static str = "U";
    fn build(_: &J, _: &mut Table) -> Result<Self, String> {
        Ok(())
    }
    fn describe(self) -> (J, Vec<Item>) {
        (J::obj().with("id", 0).with("len", 0).with("ok", true), Vec::new())
    }
}

/// A plain-data structure with padding and enums, larger than one packet.
#[derive(Clone, Copy, Object, PartialEq)]
pub enum Tag {
    A,
    B(u32),
    C { x: u8, y: u64 },
}
#[derive(Clone, Copy, Object, PartialEq)]
pub struct Rec {
    pub id: u64,
    pub small: u8,
    pub tag: Tag,
    pub opt: Option<u16>,
    pub data: [u32; 5000],
}
impl Elem for Rec {
    const NAME: &'static str = "R";
    fn build(spec: &J, _: &mut Table) -> Result<Self, String> {
        let id = spec.n("id") as u64;
        let mut b = [0u8; 20000];
        util::fill(id, &mut b);
        let mut data = [0u32; 5000];
        for (d, c) in data.iter_mut().zip(b.chunks(4)) {
            *d = u32::from_le_bytes(c.try_into().unwrap());
        }
        let tag = match id % 3 {
            0 => Tag::A,
            1 => Tag::B(id as u32 ^ 77),
            _ => Tag::C { x: id as u8, y: !id },
        };
        Ok(Rec { id, small: id as u8 ^ 5, tag, opt: (id % 2 == 0).then_some(id as u16), data })
    }
    fn describe(self) -> (J, Vec<Item>) {
        let want = Self::build(&J::obj().with("id", self.id), &mut Table::new()).unwrap();
        (J::obj().with("id", self.id).with("len", 20000).with("ok", want == self), Vec::new())
    }
}

/// A string of the given length.
impl Elem for String {
    const NAME: &'static str = "S";
    fn build(spec: &J, _: &mut Table) -> Result<Self, String> {
        let id = spec.n("id") as u64;
        let mut b = vec![0; spec.n("len") as usize];
        util::fill(id, &mut b);
        let mut s = format!("{id}:");
        s.extend(b.iter().map(|x| (b'a' + x % 26) as char));
        Ok(s)
    }
    fn describe(self) -> (J, Vec<Item>) {
        let (id, rest) = self.split_once(':').unwrap_or(("0", ""));
        let id: u64 = id.parse().unwrap_or(0);
        let want = Self::build(&J::obj().with("id", id).with("len", rest.len()), &mut Table::new()).unwrap();
        (J::obj().with("id", id).with("len", rest.len()).with("ok", want == self), Vec::new())
    }
}

impl Elem for Result<Msg, String> {
    const NAME: &'static str = "E";
    fn build(spec: &J, t: &mut Table) -> Result<Self, String> {
        if spec.b("err") {
            Ok(Err(String::build(spec, t)?))
        } else {
            Ok(Ok(Msg::build(spec, t)?))
        }
    }
    fn describe(self) -> (J, Vec<Item>) {
        match self {
            Ok(m) => m.describe(),
            Err(s) => {
                let (d, l) = s.describe();
                (d.with("err", true), l)
            }
        }
    }
}
