//! Executes scripts of Data.tla: builds values, hands them around between processes and shows what arrives.
mod applied;
mod catalog;
mod clos;
mod term;
mod types;

use cmh::json::J;
use crossmist::{func, Deserializer, Object, Serializer};
use std::any::TypeId;
use std::collections::HashMap;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
use term::{Cx, Dyn, Entry, Ox, Reg};

struct Catalog {
    entries: Vec<(&'static str, Entry)>,
    by_id: HashMap<TypeId, usize>,
}

fn catalog() -> &'static Catalog {
    static C: OnceLock<Catalog> = OnceLock::new();
    C.get_or_init(|| {
        let mut by_id = HashMap::new();
        let mut entries = Vec::new();
        for (g, f) in catalog::TYPES {
            let e = f();
            by_id.insert(e.id, entries.len());
            entries.push((g, e));
        }
        Catalog { entries, by_id }
    })
}

pub fn index_of(id: TypeId) -> usize {
    *catalog().by_id.get(&id).expect("HARNESS: type is not in the list")
}
pub fn entry(i: usize) -> &'static Entry {
    &catalog().entries[i].1
}

pub fn clo_kind(w: usize, rest: usize, shapes: &[&str], ids: &[usize]) -> J {
    let s: Vec<J> = shapes
        .iter()
        .map(|s| J::Arr(s.chars().map(|c| J::from(c.to_lowercase().to_string())).collect()))
        .collect();
    term::kind("clo", w, vec![]).with("r", rest).with("s", s).with("ids", ids.iter().map(|i| J::from(*i)).collect::<Vec<_>>())
}
pub fn fn_kind(tag: usize, rest: usize) -> J {
    term::kind("fn", 3, vec![]).with("r", rest).with("u", tag)
}

/// What functions do with state bound by mutable reference.
pub fn step(x: &mut i64, args: &[i64]) {
    *x = (*x * 2 + 1 + args.iter().sum::<i64>()) % 1009;
}

// ---------------------------------------------------------------- processes

#[derive(Object)]
pub struct Bundle(Vec<Dyn>);

type Up = crossmist::Duplex<Bundle, Bundle>;
type Down = crossmist::Duplex<Bundle, Bundle>;

struct Proc {
    me: i64,
    script: J,
    slots: HashMap<i64, Dyn>,
    up: Option<Up>,
    down: HashMap<i64, (Down, Child)>,
    log: std::fs::File,
}

enum Child {
    Blocking(crossmist::Child<Bundle>),
    Tokio(crossmist::tokio::Child<Bundle>),
    Smol(crossmist::smol::Child<Bundle>),
}

fn tokio_rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap())
}

impl Proc {
    fn new(me: i64, path: &str, up: Option<Up>) -> Proc {
        cmh::inter::init();
        let text = std::fs::read_to_string(path).expect("HARNESS: script");
        let script = J::parse(&text).expect("HARNESS: script");
        let dir = std::env::var("CMH_DIR").unwrap();
        let log = std::fs::File::create(format!("{dir}/out{me}")).expect("HARNESS: output");
        Proc { me, script, slots: HashMap::new(), up, down: HashMap::new(), log }
    }

    fn say(&mut self, j: J) {
        let _ = writeln!(self.log, "{}", j.dump());
    }

    fn take(&mut self, v: &[J]) -> Vec<Dyn> {
        v.iter().map(|s| self.slots.remove(&s.as_num()).expect("HARNESS: no such slot")).collect()
    }

    /// Everything this process does until it is to return.
    fn run(&mut self) -> Bundle {
        let steps = self.script.get("steps").as_arr().to_vec();
        for (i, s) in steps.iter().enumerate() {
            if s.n("p") != self.me {
                continue;
            }
            let mut r = catch_unwind(AssertUnwindSafe(|| self.step(s)));
            if let Ok(Ok(j)) = &mut r {
                if j.has("ret") {
                    let b = self.take(s.arr("src"));
                    j.set("i", i + 1);
                    self.say(j.clone());
                    return Bundle(b);
                }
            }
            let j = match r {
                Ok(Ok(j)) => j,
                Ok(Err(e)) => J::obj().with("err", e.to_string()),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    J::obj().with("panic", m.unwrap_or_default())
                }
            };
            let bad = j.has("err") || j.has("panic");
            self.say(j.with("i", i + 1).with("fds", term::count_handles()));
            if bad {
                std::process::exit(3);
            }
        }
        Bundle(Vec::new())
    }

    /// Puts values into slots and tells what they are.
    fn put(&mut self, dst: &[J], vs: Vec<Dyn>) -> J {
        if dst.len() != vs.len() {
            return J::obj().with("err", format!("{} values instead of {}", vs.len(), dst.len()));
        }
        let mut ox = Ox::default();
        let obs: Vec<J> = vs.iter().map(|d| d.v.obs(&mut ox).with("ty", entry(d.ty).name)).collect();
        for (s, d) in dst.iter().zip(vs) {
            self.slots.insert(s.as_num(), d);
        }
        J::obj().with("obs", obs)
    }

    fn step(&mut self, s: &J) -> std::io::Result<J> {
        Ok(match s.s("op") {
            "build" => {
                let mut cx = Cx::default();
                let vs = s.arr("v").iter().zip(s.arr("ty")).map(|(v, t)| (entry(t.as_num() as usize).build)(v, &mut cx)).collect();
                self.put(s.arr("dst"), vs)
            }
            "apply" => {
                let mut cx = Cx::default();
                let vs = s.arr("v").iter().zip(s.arr("ty")).map(|(v, t)| (entry(t.as_num() as usize).build)(v, &mut cx)).collect();
                drop(cx);
                let vs = applied::apply(s.n("f") as usize, s.s("rt"), vs)?;
                self.put(s.arr("dst"), vs)
            }
            "direct" => {
                let src = s.arr("src").iter().map(|k| &self.slots[&k.as_num()]).collect::<Vec<_>>();
                let mut ser = Serializer::new();
                for d in &src {
                    d.v.ser(&mut ser);
                    ser.serialize_temporary(0x5eu8);
                }
                let handles = ser.drain_handles().iter().map(|h| term::dup(h.as_raw_fd())).collect();
                let data = ser.into_vec();
                let len = data.len();
                let mut de = Deserializer::new(data, handles);
                let mut vs = Vec::new();
                for d in &src {
                    let v = unsafe { (entry(d.ty).de)(&mut de)? };
                    vs.push(Dyn { ty: d.ty, v });
                    let mark: u8 = unsafe { de.deserialize()? };
                    assert_eq!(mark, 0x5e, "the mark after a value of type {} is gone", entry(d.ty).name);
                }
                let end = format!("{de:?}");
                drop(src);
                let j = self.put(s.arr("dst"), vs);
                j.with("all", end.contains(&format!("pos: {len} ")))
            }
            "send" => {
                let src = s.arr("src").to_vec();
                let b = Bundle(self.take(&src));
                let r = match s.n("q") {
                    0 => self.up.as_mut().unwrap().send(&b),
                    q => self.down.get_mut(&q).unwrap().0.send(&b),
                };
                // The sender keeps its values.
                for (k, d) in src.iter().zip(b.0) {
                    self.slots.insert(k.as_num(), d);
                }
                r?;
                J::obj()
            }
            "recv" => {
                let b = match s.n("q") {
                    0 => self.up.as_mut().unwrap().recv()?,
                    q => self.down.get_mut(&q).unwrap().0.recv()?,
                };
                match b {
                    Some(b) => self.put(s.arr("dst"), b.0),
                    None => J::obj().with("err", "end of stream"),
                }
            }
            "spawn" => {
                let b = Bundle(self.take(s.arr("src")));
                let q = s.n("q");
                let path = self.script.s("path").to_string();
                let (ours, theirs) = crossmist::duplex::<Bundle, Bundle>()?;
                macro_rules! with {
                    ($f:ident) => {
                        match s.s("rt") {
                            "tokio" => Child::Tokio(tokio_rt().block_on($f.spawn_tokio(q, path, b, theirs))?),
                            "smol" => Child::Smol(smol::block_on($f.spawn_smol(q, path, b, theirs))?),
                            _ => Child::Blocking($f.spawn(q, path, b, theirs)?),
                        }
                    };
                }
                let ch = match s.s("fn") {
                    "tokio" => with!(node_tokio),
                    "smol" => with!(node_smol),
                    _ => with!(node),
                };
                self.down.insert(q, (ours, ch));
                J::obj()
            }
            "args" => {
                let b = self.slots.remove(&-1).map(|_| ()).is_some();
                assert!(!b);
                J::obj()
            }
            "ret" => J::obj().with("ret", true),
            "join" => {
                let (d, ch) = self.down.remove(&s.n("q")).unwrap();
                drop(d);
                let b = match ch {
                    Child::Blocking(c) => c.join()?,
                    Child::Tokio(c) => tokio_rt().block_on(c.join())?,
                    Child::Smol(c) => smol::block_on(c.join())?,
                };
                self.put(s.arr("dst"), b.0)
            }
            "undelay" => {
                let d = self.slots.remove(&s.n("slot")).unwrap();
                let v = d.v.undelay()?;
                self.put(&[s.get("to").clone()], vec![v])
            }
            "split" => {
                let d = self.slots.remove(&s.n("slot")).unwrap();
                let vs = d.v.split();
                self.put(s.arr("dst"), vs)
            }
            "call" => {
                let args: Vec<i64> = s.arr("args").iter().map(|x| x.as_num()).collect();
                let k = s.n("slot");
                let r = if s.s("mode") == "once" {
                    self.slots.remove(&k).unwrap().v.call_once(&args)
                } else {
                    self.slots.get_mut(&k).unwrap().v.call(s.s("mode"), &args)
                };
                J::obj().with("res", r.into_iter().map(J::from).collect::<Vec<_>>())
            }
            "drop" => {
                for k in s.arr("src") {
                    self.slots.remove(&k.as_num());
                }
                J::obj()
            }
            "look" => {
                let mut ox = Ox::default();
                let obs: Vec<J> = s
                    .arr("src")
                    .iter()
                    .map(|k| {
                        let d = &self.slots[&k.as_num()];
                        d.v.obs(&mut ox).with("ty", entry(d.ty).name)
                    })
                    .collect();
                J::obj().with("obs", obs)
            }
            o => panic!("HARNESS: operation {o}"),
        })
    }
}

fn child(me: i64, path: String, args: Bundle, up: Up) -> Bundle {
    let mut p = Proc::new(me, &path, Some(up));
    let steps = p.script.get("steps").as_arr().to_vec();
    let (i, s) = steps.iter().enumerate().find(|(_, s)| s.n("p") == me && s.s("op") == "args").unwrap();
    let j = p.put(s.arr("dst"), args.0);
    p.say(j.with("i", i + 1).with("fds", term::count_handles()));
    p.script = strip(p.script.clone(), i);
    p.run()
}

/// Leaves the step out that was done already.
fn strip(script: J, i: usize) -> J {
    let mut steps = script.get("steps").as_arr().to_vec();
    steps[i] = J::obj().with("p", -1);
    script.with("steps", steps)
}

#[func]
fn node(me: i64, path: String, args: Bundle, up: Up) -> Bundle {
    child(me, path, args, up)
}
#[func(tokio(flavor = "current_thread"))]
async fn node_tokio(me: i64, path: String, args: Bundle, up: Up) -> Bundle {
    // Its runtime is busy, and we are going to need one.
    struct Force<T>(T);
    unsafe impl<T> Send for Force<T> {}
    let all = Force((args, up));
    let t = std::thread::spawn(move || {
        let all = all;
        let Force((args, up)) = all;
        Force(child(me, path, args, up))
    });
    t.join().unwrap().0
}
#[func(smol)]
async fn node_smol(me: i64, path: String, args: Bundle, up: Up) -> Bundle {
    child(me, path, args, up)
}

fn types() -> J {
    let mut r = Reg::default();
    let mut top = Vec::new();
    for (g, e) in &catalog().entries {
        let k = (e.reg)(&mut r);
        top.push(J::obj().with("g", *g).with("t", k + 1).with("name", e.name));
    }
    J::obj().with("types", r.types.clone()).with("top", top).with(
        "fns",
        applied::sigs().iter().map(|v| J::Arr(v.iter().map(|t| J::from(index_of(*t) + 1)).collect())).collect::<Vec<_>>(),
    )
}

#[crossmist::main]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "--types" => println!("{}", types().dump()),
        path => {
            let me = 1;
            let mut p = Proc::new(me, path, None);
            p.run();
            // Descriptors of values that are still there do not matter any more.
            unsafe { libc::_exit(0) }
        }
    }
}
