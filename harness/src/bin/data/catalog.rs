//! Generated by tools/mkdata.py: the types whose values are exchanged.
#![allow(unused_imports)]
use crate::term::*;
use crate::types::*;
use crossmist::handles::OwnedHandle;
use crossmist::{Delayed, FnMutObject, FnObject, FnOnceObject, Object, StaticFn, StaticRef};
use cmh::json::J;
use std::collections::*;
use std::convert::Infallible;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::marker::PhantomData;
use std::num::*;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

#[derive(Object)]
pub enum Many300 { V0, V1, V2, V3, V4, V5, V6, V7(u8, String), V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57(u8, String), V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107(u8, String), V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157(u8, String), V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207(u8, String), V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257(u8, String), V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
term_enum! { impl Many300 { V0 {} V1 {} V2 {} V3 {} V4 {} V5 {} V6 {} V7 { 0 a: u8, 1 b: String } V8 {} V9 {} V10 {} V11 {} V12 {} V13 {} V14 {} V15 {} V16 {} V17 {} V18 {} V19 {} V20 {} V21 {} V22 {} V23 {} V24 {} V25 {} V26 {} V27 {} V28 {} V29 {} V30 {} V31 {} V32 {} V33 {} V34 {} V35 {} V36 {} V37 {} V38 {} V39 {} V40 {} V41 {} V42 {} V43 {} V44 {} V45 {} V46 {} V47 {} V48 {} V49 {} V50 {} V51 {} V52 {} V53 {} V54 {} V55 {} V56 {} V57 { 0 a: u8, 1 b: String } V58 {} V59 {} V60 {} V61 {} V62 {} V63 {} V64 {} V65 {} V66 {} V67 {} V68 {} V69 {} V70 {} V71 {} V72 {} V73 {} V74 {} V75 {} V76 {} V77 {} V78 {} V79 {} V80 {} V81 {} V82 {} V83 {} V84 {} V85 {} V86 {} V87 {} V88 {} V89 {} V90 {} V91 {} V92 {} V93 {} V94 {} V95 {} V96 {} V97 {} V98 {} V99 {} V100 {} V101 {} V102 {} V103 {} V104 {} V105 {} V106 {} V107 { 0 a: u8, 1 b: String } V108 {} V109 {} V110 {} V111 {} V112 {} V113 {} V114 {} V115 {} V116 {} V117 {} V118 {} V119 {} V120 {} V121 {} V122 {} V123 {} V124 {} V125 {} V126 {} V127 {} V128 {} V129 {} V130 {} V131 {} V132 {} V133 {} V134 {} V135 {} V136 {} V137 {} V138 {} V139 {} V140 {} V141 {} V142 {} V143 {} V144 {} V145 {} V146 {} V147 {} V148 {} V149 {} V150 {} V151 {} V152 {} V153 {} V154 {} V155 {} V156 {} V157 { 0 a: u8, 1 b: String } V158 {} V159 {} V160 {} V161 {} V162 {} V163 {} V164 {} V165 {} V166 {} V167 {} V168 {} V169 {} V170 {} V171 {} V172 {} V173 {} V174 {} V175 {} V176 {} V177 {} V178 {} V179 {} V180 {} V181 {} V182 {} V183 {} V184 {} V185 {} V186 {} V187 {} V188 {} V189 {} V190 {} V191 {} V192 {} V193 {} V194 {} V195 {} V196 {} V197 {} V198 {} V199 {} V200 {} V201 {} V202 {} V203 {} V204 {} V205 {} V206 {} V207 { 0 a: u8, 1 b: String } V208 {} V209 {} V210 {} V211 {} V212 {} V213 {} V214 {} V215 {} V216 {} V217 {} V218 {} V219 {} V220 {} V221 {} V222 {} V223 {} V224 {} V225 {} V226 {} V227 {} V228 {} V229 {} V230 {} V231 {} V232 {} V233 {} V234 {} V235 {} V236 {} V237 {} V238 {} V239 {} V240 {} V241 {} V242 {} V243 {} V244 {} V245 {} V246 {} V247 {} V248 {} V249 {} V250 {} V251 {} V252 {} V253 {} V254 {} V255 {} V256 {} V257 { 0 a: u8, 1 b: String } V258 {} V259 {} V260 {} V261 {} V262 {} V263 {} V264 {} V265 {} V266 {} V267 {} V268 {} V269 {} V270 {} V271 {} V272 {} V273 {} V274 {} V275 {} V276 {} V277 {} V278 {} V279 {} V280 {} V281 {} V282 {} V283 {} V284 {} V285 {} V286 {} V287 {} V288 {} V289 {} V290 {} V291 {} V292 {} V293 {} V294 {} V295 {} V296 {} V297 {} V298 {} V299 {} } }

/// For objects that are looked at through several pointers.
#[derive(Object)]
pub struct Mutable { pub a: u8, pub r: Rc<String> }
impl Term for Mutable {
    fn ty(r: &mut Reg) -> J { let v = vec![r.of::<u8>(), r.of::<Rc<String>>()]; kind("tuple", 0, vec![v]) }
    fn build(v: &J, cx: &mut Cx) -> Self { Mutable { a: u8::build(c(v, 0), cx), r: Term::build(c(v, 1), cx) } }
    fn obs(&self, ox: &mut Ox) -> J { t(0, vec![Term::obs(&self.a, ox), Term::obs(&self.r, ox)]) }
}

pub const TYPES: [(&str, fn() -> Entry); 394] = [
    ("leaf", entry::<bool>("")),
    ("leaf", entry::<char>("")),
    ("leaf", entry::<u8>("")),
    ("leaf", entry::<u16>("")),
    ("leaf", entry::<u32>("")),
    ("leaf", entry::<u64>("")),
    ("leaf", entry::<u128>("")),
    ("leaf", entry::<usize>("")),
    ("leaf", entry::<i8>("")),
    ("leaf", entry::<i16>("")),
    ("leaf", entry::<i32>("")),
    ("leaf", entry::<i64>("")),
    ("leaf", entry::<i128>("")),
    ("leaf", entry::<isize>("")),
    ("leaf", entry::<f32>("")),
    ("leaf", entry::<f64>("")),
    ("leaf", entry::<()>("")),
    ("leaf", entry::<Duration>("")),
    ("leaf", entry::<Instant>("")),
    ("leaf", entry::<SystemTime>("")),
    ("leaf", entry::<String>("")),
    ("leaf", entry::<CString>("")),
    ("leaf", entry::<OsString>("")),
    ("leaf", entry::<PathBuf>("")),
    ("leaf", entry::<Infallible>("")),
    ("leaf", entry::<NonZeroU8>("")),
    ("leaf", entry::<NonZeroU16>("")),
    ("leaf", entry::<NonZeroU32>("")),
    ("leaf", entry::<NonZeroU64>("")),
    ("leaf", entry::<NonZeroU128>("")),
    ("leaf", entry::<NonZeroUsize>("")),
    ("leaf", entry::<NonZeroI8>("")),
    ("leaf", entry::<NonZeroI16>("")),
    ("leaf", entry::<NonZeroI32>("")),
    ("leaf", entry::<NonZeroI64>("")),
    ("leaf", entry::<NonZeroI128>("")),
    ("leaf", entry::<NonZeroIsize>("")),
    ("leaf", entry::<PhantomData<String>>("")),
    ("file", entry::<File>("")),
    ("file", entry::<OwnedHandle>("")),
    ("file", entry::<::tokio::fs::File>("")),
    ("file", entry::<::smol::fs::File>("")),
    ("file", entry::<CustomFile>("")),
    ("derived", entry::<Padded>("")),
    ("derived", entry::<Unit>("")),
    ("derived", entry::<Braces>("")),
    ("derived", entry::<NewType>("")),
    ("derived", entry::<Triple>("")),
    ("derived", entry::<Named>("")),
    ("derived", entry::<Gen<u8,String>>("")),
    ("derived", entry::<Gen<Option<u64>,Padded>>("")),
    ("derived", entry::<Gen<Vec<String>,Gen<u8,u64>>>("")),
    ("derived", entry::<Bounded<u16>>("")),
    ("derived", entry::<Bounded<String>>("")),
    ("derived", entry::<Sized3<u32,0>>("")),
    ("derived", entry::<Sized3<u32,4>>("")),
    ("derived", entry::<Sized3<String,2>>("")),
    ("derived", entry::<Phantom<Vec<u8>>>("")),
    ("derived", entry::<WithFiles>("")),
    ("derived", entry::<Plain>("")),
    ("derived", entry::<Mixed>("")),
    ("derived", entry::<GenE<u8,u64>>("")),
    ("derived", entry::<GenE<String,Vec<u32>>>("")),
    ("derived", entry::<GenE<Plain,Padded>>("")),
    ("derived", entry::<One>("")),
    ("derived", entry::<Repr>("")),
    ("derived", entry::<Tree>("")),
    ("derived", entry::<List>("")),
    ("derived", entry::<Many300>("")),
    ("composed", entry::<Option<String>>("")),
    ("composed", entry::<Option<Plain>>("")),
    ("composed", entry::<Option<()>>("")),
    ("composed", entry::<Vec<u32>>("")),
    ("composed", entry::<Vec<()>>("")),
    ("composed", entry::<Vec<Plain>>("")),
    ("composed", entry::<VecDeque<String>>("")),
    ("composed", entry::<VecDeque<u8>>("")),
    ("composed", entry::<VecDeque<Padded>>("")),
    ("composed", entry::<LinkedList<bool>>("")),
    ("composed", entry::<LinkedList<u32>>("")),
    ("composed", entry::<LinkedList<u8>>("")),
    ("composed", entry::<Box<String>>("")),
    ("composed", entry::<Box<()>>("")),
    ("composed", entry::<Box<Padded>>("")),
    ("composed", entry::<Box<[f64]>>("")),
    ("composed", entry::<Box<[bool]>>("")),
    ("composed", entry::<Box<[u32]>>("")),
    ("composed", entry::<[Padded;0]>("")),
    ("composed", entry::<[();0]>("")),
    ("composed", entry::<[f64;0]>("")),
    ("composed", entry::<[();1]>("")),
    ("composed", entry::<[Named;1]>("")),
    ("composed", entry::<[Padded;1]>("")),
    ("composed", entry::<[u32;3]>("")),
    ("composed", entry::<[f64;3]>("")),
    ("composed", entry::<[Padded;3]>("")),
    ("composed", entry::<Rc<u32>>("")),
    ("composed", entry::<Rc<Padded>>("")),
    ("composed", entry::<Rc<Plain>>("")),
    ("composed", entry::<Arc<Padded>>("")),
    ("composed", entry::<Arc<u8>>("")),
    ("composed", entry::<Arc<u32>>("")),
    ("composed", entry::<(u32,)>("")),
    ("composed", entry::<(Named,)>("")),
    ("composed", entry::<(f64,)>("")),
    ("composed", entry::<BTreeSet<i64>>("")),
    ("composed", entry::<BTreeSet<Padded>>("")),
    ("composed", entry::<BTreeSet<Plain>>("")),
    ("composed", entry::<HashSet<i64>>("")),
    ("composed", entry::<HashSet<Padded>>("")),
    ("composed", entry::<HashSet<Plain>>("")),
    ("composed", entry::<OddSet<u8>>("")),
    ("composed", entry::<OddSet<Duration>>("")),
    ("composed", entry::<OddSet<char>>("")),
    ("composed", entry::<BinaryHeap<bool>>("")),
    ("composed", entry::<BinaryHeap<i64>>("")),
    ("composed", entry::<BinaryHeap<u16>>("")),
    ("composed", entry::<BTreeMap<u16,Padded>>("")),
    ("composed", entry::<BTreeMap<bool,u8>>("")),
    ("composed", entry::<BTreeMap<Plain,Plain>>("")),
    ("composed", entry::<HashMap<i64,String>>("")),
    ("composed", entry::<HashMap<Padded,()>>("")),
    ("composed", entry::<HashMap<Duration,f64>>("")),
    ("composed", entry::<OddMap<u8,Plain>>("")),
    ("composed", entry::<OddMap<PathBuf,bool>>("")),
    ("composed", entry::<OddMap<u8,String>>("")),
    ("composed", entry::<Result<u8,u64>>("")),
    ("composed", entry::<Result<String,()>>("")),
    ("composed", entry::<Result<u16,Infallible>>("")),
    ("composed", entry::<Result<Infallible,String>>("")),
    ("composed", entry::<Result<(),Box<u8>>>("")),
    ("composed", entry::<Option<Infallible>>("")),
    ("composed", entry::<Vec<Infallible>>("")),
    ("composed", entry::<Option<Option<u8>>>("")),
    ("composed", entry::<Option<bool>>("")),
    ("composed", entry::<Option<NonZeroU8>>("")),
    ("composed", entry::<Option<char>>("")),
    ("composed", entry::<Option<Box<u8>>>("")),
    ("composed", entry::<Option<Option<bool>>>("")),
    ("composed", entry::<Option<Result<u8,bool>>>("")),
    ("composed", entry::<[[u8;3];2]>("")),
    ("composed", entry::<[(u8,u32);3]>("")),
    ("composed", entry::<[Option<u16>;4]>("")),
    ("composed", entry::<Vec<(u8,u64)>>("")),
    ("composed", entry::<Vec<Option<char>>>("")),
    ("composed", entry::<Vec<[String;2]>>("")),
    ("composed", entry::<Vec<Padded>>("")),
    ("composed", entry::<Vec<Repr>>("")),
    ("composed", entry::<Vec<Vec<Vec<u8>>>>("")),
    ("composed", entry::<Option<Duration>>("")),
    ("composed", entry::<Option<Instant>>("")),
    ("composed", entry::<Result<SystemTime,Duration>>("")),
    ("composed", entry::<[bool;3]>("")),
    ("composed", entry::<[f32;3]>("")),
    ("composed", entry::<(u8,u16,u32)>("")),
    ("composed", entry::<(String,u8,String)>("")),
    ("composed", entry::<(u8,String)>("")),
    ("composed", entry::<(u64,u8,u64,u8)>("")),
    ("composed", entry::<(u8,u16,u32,u64,u128)>("")),
    ("composed", entry::<(bool,String,Option<u8>,Vec<u16>,char,i8)>("")),
    ("composed", entry::<(u8,(u16,(u32,(u64,))))>("")),
    ("composed", entry::<(u8,u8,u8,u8,u8,u8,u8)>("")),
    ("composed", entry::<(u8,u16,u32,u64,i8,i16,i32,i64,bool,char,f32,String)>("")),
    ("composed", entry::<(u8,u16,String,u64,i8,i16,i32,i64,bool,char,f32,f64,u128,Vec<u8>,Option<u8>,Box<u16>,i128,usize,Plain)>("")),
    ("composed", entry::<ByHand<u8,String>>("")),
    ("composed", entry::<ByHand<Vec<u16>,u64>>("")),
    ("composed", entry::<Vec<ByHand<u8,u16>>>("")),
    ("composed", entry::<Box<Box<u8>>>("")),
    ("composed", entry::<Option<File>>("")),
    ("composed", entry::<Vec<File>>("")),
    ("composed", entry::<[File;2]>("")),
    ("composed", entry::<(File,u8,File)>("")),
    ("composed", entry::<Result<File,OwnedHandle>>("")),
    ("composed", entry::<Box<File>>("")),
    ("composed", entry::<VecDeque<::tokio::fs::File>>("")),
    ("composed", entry::<BTreeMap<u8,File>>("")),
    ("composed", entry::<Box<[OwnedHandle]>>("")),
    ("composed", entry::<(::smol::fs::File,String,CustomFile)>("")),
    ("composed", entry::<Gen<File,u8>>("")),
    ("composed", entry::<GenE<File,Vec<File>>>("")),
    ("composed", entry::<ByHand<File,OwnedHandle>>("")),
    ("composed", entry::<Option<List>>("")),
    ("composed", entry::<LinkedList<Tree>>("")),
    ("composed", entry::<Vec<GenE<u8,u64>>>("")),
    ("composed", entry::<Result<Plain,Padded>>("")),
    ("composed", entry::<[Plain;3]>("")),
    ("composed", entry::<VecDeque<Option<Named>>>("")),
    ("composed", entry::<OddMap<char,Rc<NonZeroU64>>>("")),
    ("composed", entry::<(Vec<Padded>,NonZeroI64)>("")),
    ("composed", entry::<[VecDeque<u64>;0]>("")),
    ("composed", entry::<Box<Arc<String>>>("")),
    ("composed", entry::<HashMap<PathBuf,Arc<i32>>>("")),
    ("composed", entry::<[GenE<bool,PhantomData<String>>;1]>("")),
    ("composed", entry::<Vec<((),SystemTime)>>("")),
    ("composed", entry::<Option<LinkedList<NonZeroI32>>>("")),
    ("composed", entry::<Gen<Option<NonZeroI64>,SystemTime>>("")),
    ("composed", entry::<[Vec<NonZeroU8>;0]>("")),
    ("composed", entry::<LinkedList<LinkedList<f32>>>("")),
    ("composed", entry::<Box<[NonZeroU8;3]>>("")),
    ("composed", entry::<Arc<[NonZeroI16;1]>>("")),
    ("composed", entry::<VecDeque<Arc<SystemTime>>>("")),
    ("composed", entry::<BTreeMap<i64,Box<[Named]>>>("")),
    ("composed", entry::<VecDeque<Option<Duration>>>("")),
    ("composed", entry::<[(Instant,NonZeroUsize);0]>("")),
    ("composed", entry::<Vec<Result<isize,NonZeroI64>>>("")),
    ("composed", entry::<[(bool,Duration);3]>("")),
    ("composed", entry::<Rc<Option<u8>>>("")),
    ("composed", entry::<(Rc<NonZeroU16>,)>("")),
    ("composed", entry::<Rc<(Instant,u16)>>("")),
    ("composed", entry::<Rc<OddMap<String,NonZeroU16>>>("")),
    ("composed", entry::<Option<Result<u64,String>>>("")),
    ("composed", entry::<LinkedList<[CString;1]>>("")),
    ("composed", entry::<BTreeMap<Duration,Box<[i8]>>>("")),
    ("composed", entry::<((char,NonZeroI8),)>("")),
    ("composed", entry::<[Box<bool>;3]>("")),
    ("composed", entry::<Arc<(OsString,char)>>("")),
    ("composed", entry::<[GenE<f64,NonZeroU8>;0]>("")),
    ("composed", entry::<GenE<GenE<Named,NonZeroI16>,(i8,f64)>>("")),
    ("composed", entry::<Result<Box<[String]>,NonZeroI128>>("")),
    ("composed", entry::<(Arc<u8>,)>("")),
    ("composed", entry::<Gen<(NonZeroU16,NonZeroI128),Result<i64,i8>>>("")),
    ("composed", entry::<Option<VecDeque<CString>>>("")),
    ("composed", entry::<LinkedList<(u64,())>>("")),
    ("composed", entry::<Vec<Box<[u8;1]>>>("")),
    ("composed", entry::<Gen<Result<Result<NonZeroU16,i8>,GenE<i32,NonZeroU128>>,GenE<VecDeque<i128>,Instant>>>("")),
    ("composed", entry::<LinkedList<Result<HashMap<char,SystemTime>,isize>>>("")),
    ("composed", entry::<(LinkedList<GenE<NonZeroU64,u128>>,)>("")),
    ("composed", entry::<(Gen<[PhantomData<String>;3],VecDeque<bool>>,BTreeMap<i64,NonZeroI32>)>("")),
    ("composed", entry::<[VecDeque<Gen<usize,NonZeroU32>>;3]>("")),
    ("composed", entry::<[Rc<Result<NonZeroU128,u8>>;3]>("")),
    ("composed", entry::<VecDeque<[VecDeque<f64>;1]>>("")),
    ("composed", entry::<LinkedList<Vec<GenE<NonZeroU64,f64>>>>("")),
    ("composed", entry::<Gen<Gen<Result<u64,Instant>,()>,Box<NonZeroI128>>>("")),
    ("composed", entry::<OddMap<NonZeroU32,Arc<(bool,PhantomData<String>)>>>("")),
    ("composed", entry::<VecDeque<Arc<(NonZeroU128,)>>>("")),
    ("composed", entry::<BTreeMap<bool,[GenE<u64,NonZeroUsize>;0]>>("")),
    ("composed", entry::<GenE<([i128;1],Named),(Box<[i64]>,)>>("")),
    ("composed", entry::<VecDeque<Box<Vec<u16>>>>("")),
    ("composed", entry::<[GenE<Rc<CString>,String>;0]>("")),
    ("composed", entry::<Option<[GenE<i64,isize>;3]>>("")),
    ("composed", entry::<GenE<VecDeque<Vec<i32>>,[Vec<usize>;1]>>("")),
    ("composed", entry::<Option<[(SystemTime,char);3]>>("")),
    ("composed", entry::<([Box<[Instant]>;1],)>("")),
    ("composed", entry::<Result<Result<Option<char>,u64>,NonZeroI32>>("")),
    ("composed", entry::<[[Vec<NonZeroU64>;1];0]>("")),
    ("composed", entry::<Option<BTreeMap<i64,Arc<NonZeroI64>>>>("")),
    ("composed", entry::<Arc<Box<[[NonZeroU64;1]]>>>("")),
    ("shared", entry::<Rc<String>>("")),
    ("shared", entry::<Arc<Vec<u8>>>("")),
    ("shared", entry::<Rc<()>>("")),
    ("shared", entry::<Arc<()>>("")),
    ("shared", entry::<(Rc<u32>,Rc<u32>)>("")),
    ("shared", entry::<(Arc<u8>,Rc<u8>,Arc<u8>,Rc<u8>)>("")),
    ("shared", entry::<Vec<Rc<u32>>>("")),
    ("shared", entry::<[Rc<String>;3]>("")),
    ("shared", entry::<Rc<Rc<u32>>>("")),
    ("shared", entry::<Arc<Rc<Arc<u16>>>>("")),
    ("shared", entry::<Vec<Rc<Vec<Rc<u32>>>>>("")),
    ("shared", entry::<(Rc<Rc<u8>>,Rc<u8>)>("")),
    ("shared", entry::<Option<Rc<Node>>>("")),
    ("shared", entry::<Vec<Rc<Node>>>("")),
    ("shared", entry::<(Rc<Node>,Arc<Node>)>("")),
    ("shared", entry::<Vec<Arc<Other>>>("")),
    ("shared", entry::<Node>("")),
    ("shared", entry::<Vec<Other>>("")),
    ("shared", entry::<CustomRc<u16>>("")),
    ("shared", entry::<Vec<CustomRc<String>>>("")),
    ("shared", entry::<(CustomRc<u16>,Rc<u16>,CustomRc<u16>,Rc<u16>)>("")),
    ("shared", entry::<Rc<File>>("")),
    ("shared", entry::<Vec<Rc<File>>>("")),
    ("shared", entry::<BTreeMap<u8,Rc<u32>>>("")),
    ("shared", entry::<HashMap<String,Arc<Node>>>("")),
    ("shared", entry::<Box<Rc<u32>>>("")),
    ("shared", entry::<Result<Rc<u32>,Arc<u32>>>("")),
    ("shared", entry::<Rc<Box<dyn Shape>>>("")),
    ("shared", entry::<Arc<Mutable>>("")),
    ("shared", entry::<Dag>("")),
    ("shared", entry::<CDag>("")),
    ("shared", entry::<Rc<Dag>>("")),
    ("delayed", entry::<Delayed<u32>>("")),
    ("delayed", entry::<Delayed<String>>("")),
    ("delayed", entry::<Delayed<File>>("")),
    ("delayed", entry::<Delayed<Vec<File>>>("")),
    ("delayed", entry::<Delayed<(File,Rc<u32>,Rc<u32>,File)>>("")),
    ("delayed", entry::<Delayed<Node>>("")),
    ("delayed", entry::<Delayed<WithFiles>>("")),
    ("delayed", entry::<Delayed<Box<dyn Shape>>>("")),
    ("delayed", entry::<Delayed<()>>("")),
    ("delayed", entry::<Delayed<Option<OwnedHandle>>>("")),
    ("delayed", entry::<(u8,Delayed<File>,u16)>("")),
    ("delayed", entry::<(File,Delayed<Vec<File>>,File,Delayed<File>,String)>("")),
    ("delayed", entry::<Vec<Delayed<Vec<File>>>>("")),
    ("delayed", entry::<Delayed<Rc<Rc<String>>>>("")),
    ("delayed", entry::<(Rc<u32>,Delayed<Rc<u32>>,Rc<u32>)>("")),
    ("delayed", entry::<Delayed<Delayed<File>>>("")),
    ("delayed", entry::<Delayed<(File,Delayed<String>,Delayed<File>,u8)>>("")),
    ("part", entry::<(File,Rc<u32>,Rc<u32>,File)>("")),
    ("part", entry::<Option<OwnedHandle>>("")),
    ("part", entry::<Rc<Rc<String>>>("")),
    ("part", entry::<(File,Delayed<String>,Delayed<File>,u8)>("")),
    ("part", entry::<Delayed<Rc<u32>>>("")),
    ("part", entry::<Rc<Vec<Rc<u32>>>>("")),
    ("part", entry::<Rc<u8>>("")),
    ("part", entry::<Arc<Node>>("")),
    ("part", entry::<Option<u8>>("")),
    ("object", entry::<Box<dyn Shape>>("")),
    ("object", entry::<Box<dyn Animal>>("")),
    ("object", entry::<Vec<Box<dyn Shape>>>("")),
    ("object", entry::<(Box<dyn Animal>,u8,Box<dyn Shape>)>("")),
    ("object", entry::<Rc<Box<dyn Animal>>>("")),
    ("object", entry::<Option<Box<dyn Shape>>>("")),
    ("object", entry::<Box<Box<dyn Animal>>>("")),
    ("object", entry::<[Box<dyn Animal>;3]>("")),
    ("object", entry::<Box<[Box<dyn Shape>]>>("")),
    ("object", entry::<HashMap<u8,Box<dyn Shape>>>("")),
    ("sig", entry::<Rc<Node>>("")),
    ("sig", entry::<Rc<u64>>("")),
    ("sig", entry::<StaticRef<&'static dyn Speak>>("")),
    ("sig", entry::<StaticRef<u32>>("")),
    ("static", entry::<StaticRef<[u8;100_000]>>("")),
    ("static", entry::<StaticRef<std::sync::Mutex<String>>>("")),
    ("static", entry::<StaticRef<u16>>("")),
    ("static", entry::<StaticRef<&'static str>>("")),
    ("static", entry::<StaticRef<()>>("")),
    ("static", entry::<Vec<StaticRef<u32>>>("")),
    ("static", entry::<Option<StaticRef<u32>>>("")),
    ("static", entry::<(u8,StaticRef<u16>,StaticRef<u32>)>("")),
    ("static", entry::<Box<StaticRef<&'static dyn Speak>>>("")),
    ("static", entry::<Gen<StaticRef<u32>,StaticRef<&'static str>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>>>("")),
    ("call", entry::<StaticFn<fn() -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<unsafe fn() -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<unsafe fn(i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<unsafe fn(i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
    ("call", entry::<StaticFn<unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>>("")),
];
