//! Generated by tools/mkdata.py: functions with parameters of various types.
#![allow(unused_imports)]
use crate::catalog::*;
use crate::term::*;
use crate::types::*;
use crate::Bundle;
use crossmist::handles::OwnedHandle;
use crossmist::{func, Delayed, StaticRef};
use std::any::{Any, TypeId};
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::marker::PhantomData;
use std::num::*;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

fn get<T: 'static>(it: &mut std::vec::IntoIter<Dyn>) -> T { *it.next().unwrap().v.any().downcast().ok().unwrap() }

#[func]
fn g0(a0: ()) -> () { a0 }
#[func(smol)]
async fn g1(a0: u8) -> u8 { a0 }
#[func(tokio(flavor = "current_thread"))]
async fn g2(a0: String) -> String { a0 }
#[func]
fn g3(a0: File) -> File { a0 }
#[func(smol)]
async fn g4(a0: Padded) -> Padded { a0 }
#[func(tokio(flavor = "current_thread"))]
async fn g5(a0: Unit) -> Unit { a0 }
#[func]
fn g6(a0: Rc<Node>) -> Rc<Node> { a0 }
#[func(smol)]
async fn g7(a0: Vec<Rc<u32>>) -> Vec<Rc<u32>> { a0 }
#[func(tokio(flavor = "current_thread"))]
async fn g8(a0: Box<dyn Shape>) -> Box<dyn Shape> { a0 }
#[func]
fn g9(a0: Many300) -> Many300 { a0 }
#[func(smol)]
async fn g10(a0: Option<Rc<Node>>) -> Option<Rc<Node>> { a0 }
#[func(tokio(flavor = "current_thread"))]
async fn g11(a0: f64) -> f64 { a0 }
#[func]
fn g12(a0: WithFiles) -> WithFiles { a0 }
#[func(smol)]
async fn g13(a0: StaticRef<u32>) -> StaticRef<u32> { a0 }
#[func(tokio(flavor = "current_thread"))]
async fn g14(a0: Mixed) -> Mixed { a0 }
#[func]
fn g15(a0: Vec<File>) -> Vec<File> { a0 }
#[func(smol)]
async fn g16() -> Bundle { Bundle(vec![]) }
#[func(tokio(flavor = "current_thread"))]
async fn g17(a0: Vec<File>) -> Bundle { Bundle(vec![Dyn::new(a0)]) }
#[func]
fn g18(a0: NonZeroI32, a1: CustomFile) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1)]) }
#[func(smol)]
async fn g19(a0: NonZeroU16, a1: NonZeroI8, a2: NonZeroU8) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2)]) }
#[func(tokio(flavor = "current_thread"))]
async fn g20(a0: StaticRef<u32>, a1: f32, a2: File, a3: GenE<u8,u64>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3)]) }
#[func]
fn g21(a0: Arc<Vec<u8>>, a1: Rc<Rc<u32>>, a2: NonZeroI8, a3: Instant, a4: Arc<Vec<u8>>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4)]) }
#[func(smol)]
async fn g22(a0: Vec<Rc<Vec<Rc<u32>>>>, a1: (Rc<Node>,Arc<Node>), a2: Repr, a3: bool, a4: Arc<u32>, a5: NonZeroIsize) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5)]) }
#[func(tokio(flavor = "current_thread"))]
async fn g23(a0: u16, a1: StaticRef<&'static dyn Speak>, a2: One, a3: OsString, a4: Delayed<Vec<File>>, a5: Box<dyn Animal>, a6: NonZeroU8) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4.deserialize().unwrap()), Dyn::new(a5), Dyn::new(a6)]) }
#[func]
fn g24(a0: Repr, a1: StaticRef<&'static dyn Speak>, a2: Gen<Option<u64>,Padded>, a3: PathBuf, a4: Padded, a5: CustomFile, a6: f64, a7: i64) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7)]) }
#[func(smol)]
async fn g25(a0: Rc<String>, a1: Delayed<File>, a2: NonZeroI64, a3: Rc<u32>, a4: GenE<u8,u64>, a5: NonZeroU32, a6: NonZeroU128, a7: NonZeroU8, a8: i16) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1.deserialize().unwrap()), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8)]) }
#[func(tokio(flavor = "current_thread"))]
async fn g26(a0: i32, a1: Arc<u32>, a2: NonZeroU16, a3: Vec<CustomRc<String>>, a4: Arc<Vec<u8>>, a5: Phantom<Vec<u8>>, a6: Vec<Rc<u32>>, a7: (CustomRc<u16>,Rc<u16>,CustomRc<u16>,Rc<u16>), a8: Rc<u32>, a9: i16) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8), Dyn::new(a9)]) }
#[func]
fn g27(a0: i128, a1: Rc<u32>, a2: Vec<File>, a3: (CustomRc<u16>,Rc<u16>,CustomRc<u16>,Rc<u16>), a4: HashMap<String,Arc<Node>>, a5: NonZeroU64, a6: Box<Rc<u32>>, a7: Padded, a8: Arc<u32>, a9: i64, a10: i128) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8), Dyn::new(a9), Dyn::new(a10)]) }
#[func(smol)]
async fn g28(a0: Arc<()>, a1: Mixed, a2: StaticRef<u32>, a3: i32, a4: Delayed<String>, a5: Delayed<String>, a6: Rc<u32>, a7: isize, a8: NonZeroI128, a9: Phantom<Vec<u8>>, a10: Vec<Rc<Vec<Rc<u32>>>>, a11: Delayed<File>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4.deserialize().unwrap()), Dyn::new(a5.deserialize().unwrap()), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8), Dyn::new(a9), Dyn::new(a10), Dyn::new(a11.deserialize().unwrap())]) }
#[func(tokio(flavor = "current_thread"))]
async fn g29(a0: Rc<String>, a1: f64, a2: Braces, a3: Many300, a4: usize, a5: StaticRef<&'static dyn Speak>, a6: Rc<u32>, a7: Arc<Mutable>, a8: Bounded<u16>, a9: Result<Rc<u32>,Arc<u32>>, a10: (Rc<u32>,Rc<u32>), a11: [Rc<String>;3], a12: Many300, a13: NonZeroI16, a14: NonZeroU128, a15: Arc<()>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8), Dyn::new(a9), Dyn::new(a10), Dyn::new(a11), Dyn::new(a12), Dyn::new(a13), Dyn::new(a14), Dyn::new(a15)]) }
#[func]
fn g30(a0: GenE<u8,u64>, a1: Bounded<u16>, a2: HashMap<String,Arc<Node>>, a3: Duration, a4: Arc<Mutable>, a5: Vec<File>, a6: Gen<Option<u64>,Padded>, a7: char, a8: u32, a9: u128, a10: One, a11: Vec<Rc<Vec<Rc<u32>>>>, a12: u64, a13: Box<Rc<u32>>, a14: NewType, a15: Rc<Box<dyn Shape>>, a16: Sized3<String,2>, a17: f64, a18: NonZeroI32, a19: Repr) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8), Dyn::new(a9), Dyn::new(a10), Dyn::new(a11), Dyn::new(a12), Dyn::new(a13), Dyn::new(a14), Dyn::new(a15), Dyn::new(a16), Dyn::new(a17), Dyn::new(a18), Dyn::new(a19)]) }
#[func(smol)]
async fn g31(a0: Rc<()>, a1: CustomRc<u16>, a2: GenE<Plain,Padded>, a3: usize, a4: Vec<Rc<Node>>, a5: GenE<u8,u64>, a6: StaticRef<u32>, a7: CustomRc<u16>, a8: Vec<Rc<Node>>, a9: i128, a10: Instant, a11: OwnedHandle, a12: Many300, a13: i64, a14: u8, a15: Rc<u32>, a16: GenE<Plain,Padded>, a17: NewType, a18: Box<dyn Animal>, a19: Result<Rc<u32>,Arc<u32>>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3), Dyn::new(a4), Dyn::new(a5), Dyn::new(a6), Dyn::new(a7), Dyn::new(a8), Dyn::new(a9), Dyn::new(a10), Dyn::new(a11), Dyn::new(a12), Dyn::new(a13), Dyn::new(a14), Dyn::new(a15), Dyn::new(a16), Dyn::new(a17), Dyn::new(a18), Dyn::new(a19)]) }
#[func(tokio(flavor = "current_thread"))]
async fn g32(a0: Rc<u32>, a1: Rc<u32>, a2: u8, a3: Rc<u32>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3)]) }
#[func]
fn g33(a0: Rc<Node>, a1: Arc<Node>, a2: Rc<Node>, a3: Arc<Node>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3)]) }
#[func(smol)]
async fn g34(a0: File, a1: Delayed<File>, a2: Vec<File>, a3: Delayed<Vec<File>>, a4: File) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1.deserialize().unwrap()), Dyn::new(a2), Dyn::new(a3.deserialize().unwrap()), Dyn::new(a4)]) }
#[func(tokio(flavor = "current_thread"))]
async fn g35(a0: Delayed<File>, a1: Delayed<File>, a2: u8) -> Bundle { Bundle(vec![Dyn::new(a0.deserialize().unwrap()), Dyn::new(a1.deserialize().unwrap()), Dyn::new(a2)]) }
#[func]
fn g36(a0: Box<dyn Shape>, a1: Rc<u64>, a2: Box<dyn Animal>, a3: Arc<u8>) -> Bundle { Bundle(vec![Dyn::new(a0), Dyn::new(a1), Dyn::new(a2), Dyn::new(a3)]) }

pub fn sigs() -> Vec<Vec<TypeId>> {
    vec![
        vec![TypeId::of::<()>()],
        vec![TypeId::of::<u8>()],
        vec![TypeId::of::<String>()],
        vec![TypeId::of::<File>()],
        vec![TypeId::of::<Padded>()],
        vec![TypeId::of::<Unit>()],
        vec![TypeId::of::<Rc<Node>>()],
        vec![TypeId::of::<Vec<Rc<u32>>>()],
        vec![TypeId::of::<Box<dyn Shape>>()],
        vec![TypeId::of::<Many300>()],
        vec![TypeId::of::<Option<Rc<Node>>>()],
        vec![TypeId::of::<f64>()],
        vec![TypeId::of::<WithFiles>()],
        vec![TypeId::of::<StaticRef<u32>>()],
        vec![TypeId::of::<Mixed>()],
        vec![TypeId::of::<Vec<File>>()],
        vec![],
        vec![TypeId::of::<Vec<File>>()],
        vec![TypeId::of::<NonZeroI32>(), TypeId::of::<CustomFile>()],
        vec![TypeId::of::<NonZeroU16>(), TypeId::of::<NonZeroI8>(), TypeId::of::<NonZeroU8>()],
        vec![TypeId::of::<StaticRef<u32>>(), TypeId::of::<f32>(), TypeId::of::<File>(), TypeId::of::<GenE<u8,u64>>()],
        vec![TypeId::of::<Arc<Vec<u8>>>(), TypeId::of::<Rc<Rc<u32>>>(), TypeId::of::<NonZeroI8>(), TypeId::of::<Instant>(), TypeId::of::<Arc<Vec<u8>>>()],
        vec![TypeId::of::<Vec<Rc<Vec<Rc<u32>>>>>(), TypeId::of::<(Rc<Node>,Arc<Node>)>(), TypeId::of::<Repr>(), TypeId::of::<bool>(), TypeId::of::<Arc<u32>>(), TypeId::of::<NonZeroIsize>()],
        vec![TypeId::of::<u16>(), TypeId::of::<StaticRef<&'static dyn Speak>>(), TypeId::of::<One>(), TypeId::of::<OsString>(), TypeId::of::<Delayed<Vec<File>>>(), TypeId::of::<Box<dyn Animal>>(), TypeId::of::<NonZeroU8>()],
        vec![TypeId::of::<Repr>(), TypeId::of::<StaticRef<&'static dyn Speak>>(), TypeId::of::<Gen<Option<u64>,Padded>>(), TypeId::of::<PathBuf>(), TypeId::of::<Padded>(), TypeId::of::<CustomFile>(), TypeId::of::<f64>(), TypeId::of::<i64>()],
        vec![TypeId::of::<Rc<String>>(), TypeId::of::<Delayed<File>>(), TypeId::of::<NonZeroI64>(), TypeId::of::<Rc<u32>>(), TypeId::of::<GenE<u8,u64>>(), TypeId::of::<NonZeroU32>(), TypeId::of::<NonZeroU128>(), TypeId::of::<NonZeroU8>(), TypeId::of::<i16>()],
        vec![TypeId::of::<i32>(), TypeId::of::<Arc<u32>>(), TypeId::of::<NonZeroU16>(), TypeId::of::<Vec<CustomRc<String>>>(), TypeId::of::<Arc<Vec<u8>>>(), TypeId::of::<Phantom<Vec<u8>>>(), TypeId::of::<Vec<Rc<u32>>>(), TypeId::of::<(CustomRc<u16>,Rc<u16>,CustomRc<u16>,Rc<u16>)>(), TypeId::of::<Rc<u32>>(), TypeId::of::<i16>()],
        vec![TypeId::of::<i128>(), TypeId::of::<Rc<u32>>(), TypeId::of::<Vec<File>>(), TypeId::of::<(CustomRc<u16>,Rc<u16>,CustomRc<u16>,Rc<u16>)>(), TypeId::of::<HashMap<String,Arc<Node>>>(), TypeId::of::<NonZeroU64>(), TypeId::of::<Box<Rc<u32>>>(), TypeId::of::<Padded>(), TypeId::of::<Arc<u32>>(), TypeId::of::<i64>(), TypeId::of::<i128>()],
        vec![TypeId::of::<Arc<()>>(), TypeId::of::<Mixed>(), TypeId::of::<StaticRef<u32>>(), TypeId::of::<i32>(), TypeId::of::<Delayed<String>>(), TypeId::of::<Delayed<String>>(), TypeId::of::<Rc<u32>>(), TypeId::of::<isize>(), TypeId::of::<NonZeroI128>(), TypeId::of::<Phantom<Vec<u8>>>(), TypeId::of::<Vec<Rc<Vec<Rc<u32>>>>>(), TypeId::of::<Delayed<File>>()],
        vec![TypeId::of::<Rc<String>>(), TypeId::of::<f64>(), TypeId::of::<Braces>(), TypeId::of::<Many300>(), TypeId::of::<usize>(), TypeId::of::<StaticRef<&'static dyn Speak>>(), TypeId::of::<Rc<u32>>(), TypeId::of::<Arc<Mutable>>(), TypeId::of::<Bounded<u16>>(), TypeId::of::<Result<Rc<u32>,Arc<u32>>>(), TypeId::of::<(Rc<u32>,Rc<u32>)>(), TypeId::of::<[Rc<String>;3]>(), TypeId::of::<Many300>(), TypeId::of::<NonZeroI16>(), TypeId::of::<NonZeroU128>(), TypeId::of::<Arc<()>>()],
        vec![TypeId::of::<GenE<u8,u64>>(), TypeId::of::<Bounded<u16>>(), TypeId::of::<HashMap<String,Arc<Node>>>(), TypeId::of::<Duration>(), TypeId::of::<Arc<Mutable>>(), TypeId::of::<Vec<File>>(), TypeId::of::<Gen<Option<u64>,Padded>>(), TypeId::of::<char>(), TypeId::of::<u32>(), TypeId::of::<u128>(), TypeId::of::<One>(), TypeId::of::<Vec<Rc<Vec<Rc<u32>>>>>(), TypeId::of::<u64>(), TypeId::of::<Box<Rc<u32>>>(), TypeId::of::<NewType>(), TypeId::of::<Rc<Box<dyn Shape>>>(), TypeId::of::<Sized3<String,2>>(), TypeId::of::<f64>(), TypeId::of::<NonZeroI32>(), TypeId::of::<Repr>()],
        vec![TypeId::of::<Rc<()>>(), TypeId::of::<CustomRc<u16>>(), TypeId::of::<GenE<Plain,Padded>>(), TypeId::of::<usize>(), TypeId::of::<Vec<Rc<Node>>>(), TypeId::of::<GenE<u8,u64>>(), TypeId::of::<StaticRef<u32>>(), TypeId::of::<CustomRc<u16>>(), TypeId::of::<Vec<Rc<Node>>>(), TypeId::of::<i128>(), TypeId::of::<Instant>(), TypeId::of::<OwnedHandle>(), TypeId::of::<Many300>(), TypeId::of::<i64>(), TypeId::of::<u8>(), TypeId::of::<Rc<u32>>(), TypeId::of::<GenE<Plain,Padded>>(), TypeId::of::<NewType>(), TypeId::of::<Box<dyn Animal>>(), TypeId::of::<Result<Rc<u32>,Arc<u32>>>()],
        vec![TypeId::of::<Rc<u32>>(), TypeId::of::<Rc<u32>>(), TypeId::of::<u8>(), TypeId::of::<Rc<u32>>()],
        vec![TypeId::of::<Rc<Node>>(), TypeId::of::<Arc<Node>>(), TypeId::of::<Rc<Node>>(), TypeId::of::<Arc<Node>>()],
        vec![TypeId::of::<File>(), TypeId::of::<Delayed<File>>(), TypeId::of::<Vec<File>>(), TypeId::of::<Delayed<Vec<File>>>(), TypeId::of::<File>()],
        vec![TypeId::of::<Delayed<File>>(), TypeId::of::<Delayed<File>>(), TypeId::of::<u8>()],
        vec![TypeId::of::<Box<dyn Shape>>(), TypeId::of::<Rc<u64>>(), TypeId::of::<Box<dyn Animal>>(), TypeId::of::<Arc<u8>>()],
    ]
}

#[allow(unused_mut, unused_variables)]
pub fn apply(i: usize, rt: &str, args: Vec<Dyn>) -> std::io::Result<Vec<Dyn>> {
    let mut it = args.into_iter();
    match i {
        0 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g0.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g0.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        1 => match rt {
            "smol" => smol::block_on(async { g1.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g1.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
        },
        2 => match rt {
            "b" => g2.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
            _ => crate::tokio_rt().block_on(async { g2.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
        },
        3 => match rt {
            "smol" => smol::block_on(async { g3.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g3.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        4 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g4.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g4.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        5 => match rt {
            "smol" => smol::block_on(async { g5.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g5.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
        },
        6 => match rt {
            "b" => g6.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
            _ => crate::tokio_rt().block_on(async { g6.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
        },
        7 => match rt {
            "smol" => smol::block_on(async { g7.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g7.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        8 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g8.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g8.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        9 => match rt {
            "smol" => smol::block_on(async { g9.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g9.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
        },
        10 => match rt {
            "b" => g10.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
            _ => crate::tokio_rt().block_on(async { g10.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
        },
        11 => match rt {
            "smol" => smol::block_on(async { g11.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g11.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        12 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g12.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g12.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        13 => match rt {
            "smol" => smol::block_on(async { g13.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g13.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
        },
        14 => match rt {
            "b" => g14.spawn(get(&mut it)).and_then(|c| c.join()).map(|x| vec![Dyn::new(x)]),
            _ => crate::tokio_rt().block_on(async { g14.spawn_tokio(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
        },
        15 => match rt {
            "smol" => smol::block_on(async { g15.spawn_smol(get(&mut it)).await?.join().await }).map(|x| vec![Dyn::new(x)]),
            _ => g15.run(get(&mut it)).map(|x| vec![Dyn::new(x)]),
        },
        16 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g16.spawn_tokio().await?.join().await }).map(|x: Bundle| x.0),
            _ => g16.run().map(|x: Bundle| x.0),
        },
        17 => match rt {
            "smol" => smol::block_on(async { g17.spawn_smol(get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g17.spawn(get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
        },
        18 => match rt {
            "b" => g18.spawn(get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
            _ => crate::tokio_rt().block_on(async { g18.spawn_tokio(get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
        },
        19 => match rt {
            "smol" => smol::block_on(async { g19.spawn_smol(get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g19.run(get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        20 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g20.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g20.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        21 => match rt {
            "smol" => smol::block_on(async { g21.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g21.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
        },
        22 => match rt {
            "b" => g22.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
            _ => crate::tokio_rt().block_on(async { g22.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
        },
        23 => match rt {
            "smol" => smol::block_on(async { g23.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g23.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        24 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g24.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g24.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        25 => match rt {
            "smol" => smol::block_on(async { g25.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g25.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
        },
        26 => match rt {
            "b" => g26.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
            _ => crate::tokio_rt().block_on(async { g26.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
        },
        27 => match rt {
            "smol" => smol::block_on(async { g27.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g27.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        28 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g28.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g28.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        29 => match rt {
            "smol" => smol::block_on(async { g29.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g29.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
        },
        30 => match rt {
            "b" => g30.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
            _ => crate::tokio_rt().block_on(async { g30.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
        },
        31 => match rt {
            "smol" => smol::block_on(async { g31.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g31.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        32 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g32.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g32.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        33 => match rt {
            "smol" => smol::block_on(async { g33.spawn_smol(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g33.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
        },
        34 => match rt {
            "b" => g34.spawn(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).and_then(|c| c.join()).map(|x: Bundle| x.0),
            _ => crate::tokio_rt().block_on(async { g34.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
        },
        35 => match rt {
            "smol" => smol::block_on(async { g35.spawn_smol(get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g35.run(get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        36 => match rt {
            "tokio" => crate::tokio_rt().block_on(async { g36.spawn_tokio(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).await?.join().await }).map(|x: Bundle| x.0),
            _ => g36.run(get(&mut it), get(&mut it), get(&mut it), get(&mut it)).map(|x: Bundle| x.0),
        },
        _ => panic!("HARNESS: no such function"),
    }
}
