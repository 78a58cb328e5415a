//! One process of a scenario, driven by the Python controller over a Unix socket.
use cmh::ends::{make_pair, DynChild, DynEnd, Got};
use cmh::inter;
use cmh::json::J;
use cmh::msg::{build_item, Elem, Item, Msg, Obj, Rec, Table};
use cmh::util;
use crossmist::{func, Object};
use std::collections::HashMap;
use std::fs::File;
use std::future::Future;
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::sync::{Mutex, OnceLock};
use std::task::Poll;
use std::time::Duration;

static TABLE: Mutex<Option<Table>> = Mutex::new(None);
static HANDLE: OnceLock<tokio::runtime::Handle> = OnceLock::new();
static LANES: Mutex<Option<HashMap<String, smol::channel::Sender<J>>>> = Mutex::new(None);
/// Lanes to be started as tasks of the one thread of the process, if that is how it works.
static TASKS: OnceLock<smol::channel::Sender<(String, smol::channel::Receiver<J>)>> = OnceLock::new();
static CANCELS: Mutex<Option<HashMap<String, (bool, Option<std::task::Waker>)>>> = Mutex::new(None);

fn with_table<R>(f: impl FnOnce(&mut Table) -> R) -> R {
    let mut g = TABLE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(HashMap::new))
}
fn put(id: &str, o: Obj) {
    // The previous object, if any, is dropped outside the lock.
    let _old = with_table(|t| t.insert(id.to_string(), o));
}
fn take(id: &str) -> Result<Obj, String> {
    with_table(|t| t.remove(id)).ok_or(format!("HARNESS: no object {id}"))
}
fn take_end(id: &str) -> Result<Box<dyn DynEnd>, String> {
    match take(id)? {
        Obj::End(e) => Ok(e),
        o => {
            put(id, o);
            Err(format!("HARNESS: {id} is not a channel end"))
        }
    }
}

#[derive(Object)]
pub struct Args {
    name: String,
    msg: Msg,
}

// ---------------------------------------------------------------- functions that become children

macro_rules! funcs {
    ($($b:ident $t:ident $s:ident $T:ty;)*) => {
        $(
            #[func]
            fn $b(a: Args) -> $T { child_sync(stringify!($b), a) }
            #[func(tokio(flavor = "current_thread"))]
            async fn $t(a: Args) -> $T { child_async(stringify!($t), a).await }
            #[func(smol)]
            async fn $s(a: Args) -> $T { child_async(stringify!($s), a).await }
        )*
        async fn do_spawn(name: &str, flav: &str, run: bool, a: Args) -> Result<Spawned, String> {
            match name {
                $(
                    stringify!($b) => funcs!(@call $b, flav, run, a),
                    stringify!($t) => funcs!(@call $t, flav, run, a),
                    stringify!($s) => funcs!(@call $s, flav, run, a),
                )*
                x => Err(format!("HARNESS: no function {x}")),
            }
        }
    };
    (@call $f:ident, $flav:ident, $run:ident, $a:ident) => {
        match ($flav, $run) {
            ("b", false) => Ok(sp($f.spawn($a))),
            ("t", false) => Ok(sp($f.spawn_tokio($a).await)),
            ("s", false) => Ok(sp($f.spawn_smol($a).await)),
            ("b", true) => Ok(rn($f.run($a))),
            ("t", true) => Ok(rn($f.run_tokio($a).await)),
            ("s", true) => Ok(rn($f.run_smol($a).await)),
            _ => Err(format!("HARNESS: flavour")),
        }
    };
}

enum Spawned {
    Child(Box<dyn DynChild>),
    Ran(Got),
    Err(std::io::Error),
}
fn sp<C: DynChild + 'static>(r: std::io::Result<C>) -> Spawned {
    match r {
        Ok(c) => Spawned::Child(Box::new(c)),
        Err(e) => Spawned::Err(e),
    }
}
fn rn<T: Elem>(r: std::io::Result<T>) -> Spawned {
    match r {
        Ok(v) => {
            let (d, l) = v.describe();
            Spawned::Ran(Got::Value(d, l))
        }
        Err(e) => Spawned::Ran(Got::Err(e)),
    }
}

funcs! {
    b_m t_m s_m Msg;
    b_u t_u s_u ();
    b_w t_w s_w u64;
    b_s t_s s_s String;
    b_r t_r s_r Rec;
    b_e t_e s_e Result<Msg, String>;
    b_z t_z s_z [u8; 0];
    b_g t_g s_g [u8; 40000];
}

fn child_sync<T: Elem>(fname: &str, a: Args) -> T {
    let main = child_start(fname, a);
    loop {
        let op = main.recv_blocking().expect("controller gone");
        if let Some(spec) = final_op(&op) {
            return build_return(&spec);
        }
        run_op_emit(&op);
    }
}

async fn child_async<T: Elem>(fname: &str, a: Args) -> T {
    let main = child_start(fname, a);
    with_lanes(fname.starts_with('t'), async {
        loop {
            let op = main.recv().await.expect("controller gone");
            if let Some(spec) = final_op(&op) {
                return build_return(&spec);
            }
            run_op_async(&op).await;
        }
    })
    .await
}

fn as_tasks() -> bool {
    std::env::var("CM_TASKS").is_ok_and(|v| !v.is_empty())
}

/// Run `main` and, if that is wanted, all other lanes as tasks of this thread.
async fn with_lanes<R>(tokio: bool, main: impl Future<Output = R>) -> R {
    if !as_tasks() {
        return main.await;
    }
    let (tx, rx) = smol::channel::unbounded::<(String, smol::channel::Receiver<J>)>();
    TASKS.set(tx).ok().unwrap();
    let lane = |q: smol::channel::Receiver<J>| async move {
        while let Ok(op) = q.recv().await {
            run_op_async(&op).await;
        }
    };
    if tokio {
        let set = tokio::task::LocalSet::new();
        set.spawn_local(async move {
            while let Ok((_, q)) = rx.recv().await {
                tokio::task::spawn_local(lane(q));
            }
        });
        set.run_until(main).await
    } else {
        let ex = std::rc::Rc::new(smol::LocalExecutor::new());
        let ex2 = ex.clone();
        ex.spawn(async move {
            while let Ok((_, q)) = rx.recv().await {
                ex2.spawn(lane(q)).detach();
            }
        })
        .detach();
        ex.run(main).await
    }
}

/// Run an operation among other tasks of the same thread.
async fn run_op_async(op: &J) {
    let mut plan = inter::make_plan(op.arr("plan"));
    let mut fut = Box::pin(do_op(op));
    let r = std::future::poll_fn(|cx| {
        // A function that does not run inside tokio can still use tokio objects.
        let _g = tokio::runtime::Handle::try_current().is_err().then(|| HANDLE.get().unwrap().enter());
        inter::swap_plan(&mut plan, op.s("lane"));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(cx)));
        inter::swap_plan(&mut plan, op.s("lane"));
        r.unwrap_or_else(|e| Poll::Ready(Ok(panicked(e))))
    })
    .await;
    drop(fut);
    inter::swap_plan(&mut plan, op.s("lane"));
    finish(op, r);
}

fn build_return<T: Elem>(spec: &J) -> T {
    let _g = HANDLE.get().unwrap().enter();
    let spec = spec.clone();
    let r = with_table(|t| T::build(&spec, t));
    r.expect("HARNESS: cannot build the return value")
}

extern "C" fn exit_three() {
    unsafe { libc::_exit(3) }
}
extern "C" fn linger() {
    std::thread::sleep(Duration::from_millis(300));
}

/// Operations that end the main lane.
fn final_op(op: &J) -> Option<J> {
    match op.s("op") {
        "return" => {
            match op.s("atexit") {
                "exit3" => unsafe {
                    libc::atexit(exit_three);
                },
                "linger" => unsafe {
                    libc::atexit(linger);
                },
                _ => {}
            }
            inter::emit(&J::obj().with("ev", "returning").with("lane", op.s("lane")).with("seq", op.n("seq")));
            inter::set_plan(op.arr("plan"));
            Some(op.get("msg").clone())
        }
        "panic" => {
            inter::emit(&J::obj().with("ev", "returning").with("lane", op.s("lane")).with("seq", op.n("seq")));
            panic!("requested panic")
        }
        _ => None,
    }
}

fn connect() -> UnixStream {
    UnixStream::connect(std::env::var("CM_CTL").expect("CM_CTL")).expect("connect to controller")
}

/// Connect to the controller and start the reader thread; returns the main lane's queue.
fn start(hello: J) -> smol::channel::Receiver<J> {
    inter::init();
    let s = connect();
    let r = s.try_clone().unwrap();
    inter::CTL.set(Mutex::new(s)).ok().expect("started twice");
    inter::set_lane("main");
    let (tx, rx) = smol::channel::unbounded();
    LANES.lock().unwrap().get_or_insert_with(HashMap::new).insert("main".into(), tx);
    // Make the smol reactor thread and its descriptors exist from the beginning.
    smol::block_on(async {
        smol::Timer::after(Duration::from_millis(1)).await;
    });
    std::thread::Builder::new().name("ctl".into()).spawn(move || reader(r)).unwrap();
    inter::emit(&hello);
    rx
}

fn make_runtime() {
    if let Ok(h) = tokio::runtime::Handle::try_current() {
        HANDLE.set(h).unwrap();
        return;
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    HANDLE.set(rt.handle().clone()).unwrap();
    std::thread::Builder::new()
        .name("rt".into())
        .spawn(move || rt.block_on(std::future::pending::<()>()))
        .unwrap();
}

fn child_start(fname: &str, a: Args) -> smol::channel::Receiver<J> {
    make_runtime();
    let desc = {
        let _g = HANDLE.get().unwrap().enter();
        let (d, leaves) = a.msg.describe();
        for (i, l) in leaves.into_iter().take(8).enumerate() {
            put(&format!("a.{i}"), l.into_obj());
        }
        d
    };
    start(
        J::obj()
            .with("ev", "hello")
            .with("role", "child")
            .with("fn", fname)
            .with("name", a.name)
            .with("pid", std::process::id())
            .with("ppid", unsafe { libc::getppid() })
            .with("base", base())
            .with("args", desc),
    )
}

/// Where this process's program is loaded.
fn base() -> i64 {
    (base as usize >> 12) as i64
}

fn reader(r: UnixStream) {
    for line in BufReader::new(r).lines() {
        let Ok(line) = line else { break };
        let j = J::parse(&line).expect("bad command");
        match j.s("op") {
            "release" => inter::release(j.s("name")),
            "cancel" => {
                let mut g = CANCELS.lock().unwrap();
                let e = g.get_or_insert_with(HashMap::new).entry(j.s("token").to_string()).or_default();
                e.0 = true;
                if let Some(w) = e.1.take() {
                    w.wake();
                }
            }
            "die" => unsafe {
                libc::syscall(libc::SYS_kill, libc::getpid(), libc::SIGKILL);
            },
            "sync" => inter::emit(&J::obj().with("ev", "sync").with("seq", j.n("seq"))),
            _ => {
                let lane = j.s("lane").to_string();
                let mut g = LANES.lock().unwrap();
                let tx = g.get_or_insert_with(HashMap::new).entry(lane.clone()).or_insert_with(|| {
                    let (tx, rx) = smol::channel::unbounded::<J>();
                    if let Some(t) = TASKS.get() {
                        t.try_send((lane.clone(), rx)).unwrap();
                        return tx;
                    }
                    std::thread::Builder::new()
                        .name(lane.clone())
                        .stack_size(64 << 20)
                        .spawn(move || {
                            inter::set_lane(&lane);
                            while let Ok(op) = rx.recv_blocking() {
                                run_op_emit(&op);
                            }
                        })
                        .unwrap();
                    tx
                });
                tx.try_send(j).unwrap();
            }
        }
    }
    // The controller is gone: so are we.
    unsafe { libc::_exit(78) }
}

fn finish(op: &J, r: Result<J, String>) {
    let (unfired, counts) = inter::take_plan();
    let mut j = match r {
        Ok(j) => j,
        Err(e) => J::obj().with("r", "harness").with("msg", e),
    };
    j.set("lane", op.s("lane"));
    j.set("seq", op.n("seq"));
    j.set("ev", "done");
    if op.has("plan") {
        j.set("unfired", unfired);
        j.set("counts", counts.iter().map(|c| J::from(*c)).collect::<Vec<_>>());
    }
    inter::emit(&j);
}

fn run_op_emit(op: &J) {
    inter::set_plan(op.arr("plan"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_op(op)));
    let r = r.unwrap_or_else(|e| Ok(panicked(e)));
    finish(op, r);
}

fn panicked(e: Box<dyn std::any::Any + Send>) -> J {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    J::obj().with("r", "panic").with("msg", m)
}

fn op_rt(op: &J) -> &'static str {
    if op.has("rt") {
        return match op.s("rt") {
            "t" => "t",
            "s" => "s",
            _ => "b",
        };
    }
    with_table(|t| {
        let of_kind = |k: &str| match k.as_bytes().first() {
            Some(b'T' | b't') => "t",
            Some(b'S' | b's') => "s",
            _ => "b",
        };
        for key in ["end", "child", "tx", "rx"] {
            match t.get(op.s(key)) {
                Some(Obj::End(e)) => return of_kind(e.kind()),
                Some(Obj::Child(c)) => return of_kind(c.rt()),
                _ => {}
            }
        }
        "b"
    })
}

fn run_op(op: &J) -> Result<J, String> {
    let h = HANDLE.get().unwrap();
    let _g = h.enter();
    match op_rt(op) {
        "t" => h.block_on(do_op(op)),
        _ => smol::block_on(do_op(op)),
    }
}

/// Poll `fut`, giving up (and dropping it) according to the operation's cancellation request.
async fn cancellable<T>(op: &J, fut: impl Future<Output = T>) -> Result<T, ()> {
    let mut fut = Box::pin(fut);
    let limit = op.n_or("cancel_pending", i64::MAX);
    let token = op.s("cancel_token").to_string();
    let mut pendings = 0;
    std::future::poll_fn(move |cx| match fut.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Ok(v)),
        Poll::Pending => {
            pendings += 1;
            if pendings >= limit {
                return Poll::Ready(Err(()));
            }
            if !token.is_empty() {
                let mut g = CANCELS.lock().unwrap();
                let e = g.get_or_insert_with(HashMap::new).entry(token.clone()).or_default();
                if e.0 {
                    return Poll::Ready(Err(()));
                }
                e.1 = Some(cx.waker().clone());
            }
            Poll::Pending
        }
    })
    .await
}

fn ok() -> J {
    J::obj().with("r", "ok")
}
fn err(e: &std::io::Error) -> J {
    let m = e.to_string();
    if m.starts_with("HARNESS") {
        return J::obj().with("r", "harness").with("msg", m);
    }
    J::obj()
        .with("r", "err")
        .with("kind", format!("{:?}", e.kind()))
        .with("os", e.raw_os_error().unwrap_or(0))
        .with("msg", m)
}
fn report(g: Got, store: &str) -> J {
    match g {
        Got::Value(d, leaves) => {
            for (i, l) in leaves.into_iter().enumerate() {
                if store.is_empty() || i >= 8 {
                    drop(l);
                } else {
                    put(&format!("{store}.{i}"), l.into_obj());
                }
            }
            J::obj().with("r", "val").with("v", d)
        }
        Got::None => J::obj().with("r", "none"),
        Got::Err(e) => err(&e),
    }
}

fn obj_fd(o: &Obj) -> i32 {
    match o {
        Obj::End(e) => e.raw(),
        Obj::Item(i) => i.raw().unwrap_or(-1),
        Obj::Dup(f) => f.as_raw_fd(),
        _ => -1,
    }
}
fn obj_desc(id: &str) -> Result<J, String> {
    with_table(|t| match t.get(id) {
        Some(o) => Ok(util::fd_desc(obj_fd(o)).with("k", match o {
            Obj::End(e) => e.kind(),
            Obj::Item(i) => i.kind(),
            _ => "?",
        })),
        None => Err(format!("HARNESS: no object {id}")),
    })
}

async fn do_op(op: &J) -> Result<J, String> {
    match op.s("op") {
        "nop" => Ok(ok()),
        "setenv" => {
            std::env::set_var(op.s("k"), op.s("v"));
            Ok(ok())
        }
        "sleep" => {
            std::thread::sleep(Duration::from_millis(op.n("ms") as u64));
            Ok(ok())
        }
        // ------------------------------------------------------------ channels
        "channel" | "duplex" => match make_pair(op.s("el"), op.s("rt"), op.s("op") == "duplex") {
            Ok((a, b)) => {
                let (da, db) = (util::fd_desc(a.raw()), util::fd_desc(b.raw()));
                put(op.s("a"), Obj::End(a));
                put(op.s("b"), Obj::End(b));
                Ok(ok().with("a", da).with("b", db))
            }
            Err(e) => Ok(err(&e)),
        },
        "send" => {
            let mut end = take_end(op.s("end"))?;
            let spec = op.get("msg").clone();
            let v = with_table(|t| end.prepare(&spec, t));
            let v = match v {
                Ok(v) => v,
                Err(e) => {
                    put(op.s("end"), Obj::End(end));
                    return Err(e);
                }
            };
            let r = cancellable(op, end.send(&*v)).await;
            util::rearm(op, end.raw());
            put(op.s("end"), Obj::End(end));
            if spec.b("keep") {
                with_table(|t| v.restore(&spec, t));
            } else {
                drop(v);
            }
            Ok(match r {
                Err(()) => J::obj().with("r", "cancelled"),
                Ok(Ok(())) => ok(),
                Ok(Err(e)) => err(&e),
            })
        }
        "recv" => {
            let mut end = take_end(op.s("end"))?;
            let r = cancellable(op, end.recv()).await;
            util::rearm(op, end.raw());
            put(op.s("end"), Obj::End(end));
            Ok(match r {
                Err(()) => J::obj().with("r", "cancelled"),
                Ok(g) => report(g, op.s("store")),
            })
        }
        "request" => {
            let mut end = take_end(op.s("end"))?;
            let spec = op.get("msg").clone();
            let v = with_table(|t| end.prepare(&spec, t))?;
            let r = cancellable(op, end.request(&*v)).await;
            util::rearm(op, end.raw());
            put(op.s("end"), Obj::End(end));
            drop(v);
            Ok(match r {
                Err(()) => J::obj().with("r", "cancelled"),
                Ok(g) => report(g, op.s("store")),
            })
        }
        "sendmany" => {
            // ids from..from+count, lengths cycling through lens
            let mut end = take_end(op.s("end"))?;
            let lens: Vec<i64> = op.arr("lens").iter().map(|x| x.as_num()).collect();
            let mut done = 0;
            let mut res = ok();
            for k in 0..op.n("count") {
                let spec = J::obj()
                    .with("id", op.n("from") + k)
                    .with("len", lens[(k as usize) % lens.len()]);
                let v = with_table(|t| end.prepare(&spec, t))?;
                match end.send(&*v).await {
                    Ok(()) => done += 1,
                    Err(e) => {
                        res = err(&e);
                        break;
                    }
                }
            }
            put(op.s("end"), Obj::End(end));
            Ok(res.with("done", done))
        }
        "recvmany" => {
            let mut end = take_end(op.s("end"))?;
            let mut v = Vec::new();
            let mut last = ok();
            for _ in 0..op.n("count") {
                match end.recv().await {
                    Got::Value(d, _) => {
                        v.push(J::Arr(vec![d.get("id").clone(), d.get("len").clone(), d.get("ok").clone()]))
                    }
                    g => {
                        last = report(g, "");
                        break;
                    }
                }
                if op.n("slow") > 0 {
                    std::thread::sleep(Duration::from_micros(op.n("slow") as u64));
                }
            }
            put(op.s("end"), Obj::End(end));
            Ok(last.with("got", v))
        }
        "drop" => {
            drop(take(op.s("id"))?);
            Ok(ok())
        }
        "convert" => {
            let end = take_end(op.s("end"))?;
            match end.convert(op.s("to")) {
                Ok(e) => {
                    put(op.s("end"), Obj::End(e));
                    Ok(ok())
                }
                Err(e) if e.starts_with("HARNESS") => Err(e),
                Err(e) => Ok(J::obj().with("r", "err").with("msg", e)),
            }
        }
        "rename" => {
            let o = take(op.s("id"))?;
            put(op.s("to"), o);
            Ok(ok())
        }
        // ------------------------------------------------------------ other handles
        "mkfile" => {
            let mut f = File::options()
                .read(true)
                .write(true)
                .create(true)
                .open(op.s("path"))
                .map_err(|e| format!("HARNESS: {e}"))?;
            if f.metadata().map_err(|e| e.to_string())?.len() == 0 {
                f.write_all(&vec![b'.'; 4096]).unwrap();
            }
            f.seek(SeekFrom::Start(op.n("off") as u64)).unwrap();
            let d = util::fd_desc(f.as_raw_fd());
            put(op.s("id"), Obj::Item(as_kind(f, op.s("k"))));
            Ok(ok().with("d", d))
        }
        "mkunix" => {
            let (a, b) = UnixStream::pair().map_err(|e| format!("HARNESS: {e}"))?;
            let (da, db) = (util::fd_desc(a.as_raw_fd()), util::fd_desc(b.as_raw_fd()));
            put(op.s("a"), Obj::Item(sock_kind(a, op.s("k"))));
            put(op.s("b"), Obj::Item(sock_kind(b, op.s("k"))));
            Ok(ok().with("a", da).with("b", db))
        }
        "mkpipe" => {
            let mut p = [0; 2];
            if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
                return Err("HARNESS: pipe".into());
            }
            let (a, b) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
            let (da, db) = (util::fd_desc(p[0]), util::fd_desc(p[1]));
            put(op.s("a"), Obj::Item(Item::Owned(a)));
            put(op.s("b"), Obj::Item(Item::Owned(b)));
            Ok(ok().with("a", da).with("b", db))
        }
        "dup" => {
            let f = with_table(|t| match t.get(op.s("id")) {
                Some(Obj::Item(Item::File(f))) => f.try_clone().map_err(|e| format!("HARNESS: {e}")),
                _ => Err("HARNESS: dup needs a file".into()),
            })?;
            put(op.s("to"), Obj::Item(Item::File(f)));
            Ok(ok())
        }
        "desc" => Ok(ok().with("d", obj_desc(op.s("id"))?)),
        "seek" => {
            let fd = with_table(|t| t.get(op.s("id")).map(obj_fd)).ok_or("HARNESS: no object")?;
            unsafe { libc::lseek(fd, op.n("off"), libc::SEEK_SET) };
            Ok(ok())
        }
        "use" => {
            // Exercise the object through its own interface.
            let o = take(op.s("id"))?;
            let (o, r) = use_obj(o, op).await;
            put(op.s("id"), o);
            r
        }
        "fds" => Ok(ok().with("fds", util::list_fds())),
        "execls" => {
            // An unrelated program: report the descriptors it was given.
            let out = std::process::Command::new("/proc/self/exe")
                .env("CM_LISTFD", "1")
                .output()
                .map_err(|e| format!("HARNESS: {e}"))?;
            let s = String::from_utf8_lossy(&out.stdout).to_string();
            Ok(ok().with("fds", J::parse(s.trim()).map_err(|e| format!("HARNESS: {e} in {s:?}"))?))
        }
        "rlimit_free" => {
            // Allow exactly k more descriptors.
            let mut limit = 0;
            let mut free = op.n("k");
            loop {
                let used = unsafe { libc::fcntl(limit, libc::F_GETFD) } >= 0;
                if !used {
                    if free == 0 {
                        break;
                    }
                    free -= 1;
                }
                limit += 1;
            }
            set_limit(limit as u64);
            Ok(ok())
        }
        "rlimit_reset" => {
            set_limit(20000);
            Ok(ok())
        }
        // ------------------------------------------------------------ processes
        "spawn" | "run" => {
            let spec = op.get("msg").clone();
            let msg = with_table(|t| Msg::build(&spec, t))?;
            let a = Args { name: op.s("name").to_string(), msg };
            let fut = do_spawn(op.s("fn"), op.s("rt"), op.s("op") == "run", a);
            match cancellable(op, fut).await {
                Err(()) => Ok(J::obj().with("r", "cancelled")),
                Ok(r) => match r? {
                    Spawned::Child(c) => {
                        let pid = c.id();
                        for l in op.arr("khs") {
                            put(&format!("{}.{}", op.s("child"), l.as_str()), Obj::Kh(c.kill_handle()));
                        }
                        put(op.s("child"), Obj::Child(c));
                        Ok(ok().with("pid", pid))
                    }
                    Spawned::Ran(g) => Ok(report(g, op.s("store"))),
                    Spawned::Err(e) => Ok(err(&e)),
                },
            }
        }
        "join" => match take(op.s("child"))? {
            Obj::Child(c) => {
                let pid = c.id();
                match cancellable(op, c.join()).await {
                    Err(()) => Ok(J::obj().with("r", "cancelled")),
                    Ok(g) => {
                        let st = inter::child_state(pid);
                        Ok(report(g, op.s("store")).with("state", st))
                    }
                }
            }
            _ => Err("HARNESS: not a child".into()),
        },
        "kill" => {
            let k = with_table(|t| match t.remove(op.s("kh")) {
                Some(Obj::Kh(k)) => Some(k),
                _ => None,
            })
            .ok_or("HARNESS: no kill handle")?;
            // Several lanes may use handles at once: each has its own.
            let r = k.kill();
            put(op.s("kh"), Obj::Kh(k));
            Ok(match r {
                Ok(()) => ok(),
                Err(e) => err(&e),
            })
        }
        "getkh" => {
            let k = with_table(|t| match t.get(op.s("child")) {
                Some(Obj::Child(c)) => Some(c.kill_handle()),
                _ => None,
            })
            .ok_or("HARNESS: no child")?;
            put(op.s("to"), Obj::Kh(k));
            Ok(ok())
        }
        "state" => Ok(ok().with("state", inter::child_state(op.n("pid") as i32))),
        "children" => {
            // Every child (running or zombie) of any of our threads.
            let mut v = Vec::new();
            for t in std::fs::read_dir("/proc/self/task").map_err(|e| e.to_string())? {
                let p = t.map_err(|e| e.to_string())?.path().join("children");
                let s = std::fs::read_to_string(p).unwrap_or_default();
                v.extend(s.split_whitespace().map(|x| J::from(x.parse::<i64>().unwrap())));
            }
            Ok(ok().with("pids", v))
        }
        "exit" => std::process::exit(op.n("code") as i32),
        "sigself" => unsafe {
            libc::signal(op.n("sig") as i32, libc::SIG_DFL);
            libc::syscall(libc::SYS_kill, libc::getpid(), op.n("sig"));
            std::thread::sleep(Duration::from_secs(1));
            Ok(ok())
        },
        "abort" => std::process::abort(),
        x => Err(format!("HARNESS: unknown op {x}")),
    }
}

fn set_limit(n: u64) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = n.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
}

fn as_kind(f: File, k: &str) -> Item {
    match k {
        "owned" => Item::Owned(f.into()),
        "tfile" => Item::TFile(tokio::fs::File::from_std(f)),
        "sfile" => Item::SFile(f.into()),
        _ => Item::File(f),
    }
}
fn sock_kind(s: UnixStream, k: &str) -> Item {
    match k {
        "owned" => Item::Owned(s.into()),
        "tunix" => {
            s.set_nonblocking(true).unwrap();
            Item::TUnix(tokio::net::UnixStream::from_std(s).unwrap())
        }
        "sunix" => Item::SUnix(smol::Async::new(s).unwrap()),
        _ => Item::Unix(s),
    }
}

/// Write or read a few bytes through the object itself.
async fn use_obj(o: Obj, op: &J) -> (Obj, Result<J, String>) {
    use smol::io::{AsyncReadExt as SR, AsyncWriteExt as SW};
    use tokio::io::{AsyncReadExt as TR, AsyncWriteExt as TW};
    let Obj::Item(mut i) = o else { return (o, Err("HARNESS: cannot use".into())) };
    let write = op.b("write");
    let data = op.s("data").as_bytes().to_vec();
    let mut buf = vec![0; op.n_or("n", 4) as usize];
    let r: std::io::Result<usize> = match (&mut i, write) {
        (Item::File(f), true) => f.write_all(&data).map(|_| data.len()),
        (Item::File(f), false) => f.read(&mut buf),
        (Item::Unix(f), true) => f.write_all(&data).map(|_| data.len()),
        (Item::Unix(f), false) => f.read(&mut buf),
        (Item::TFile(f), true) => match TW::write_all(f, &data).await {
            Ok(()) => f.flush().await.map(|_| data.len()),
            Err(e) => Err(e),
        },
        (Item::TFile(f), false) => TR::read(f, &mut buf).await,
        (Item::SFile(f), true) => match SW::write_all(f, &data).await {
            Ok(()) => SW::flush(f).await.map(|_| data.len()),
            Err(e) => Err(e),
        },
        (Item::SFile(f), false) => SR::read(f, &mut buf).await,
        (Item::TUnix(f), true) => TW::write_all(f, &data).await.map(|_| data.len()),
        (Item::TUnix(f), false) => TR::read(f, &mut buf).await,
        (Item::SUnix(f), true) => SW::write_all(f, &data).await.map(|_| data.len()),
        (Item::SUnix(f), false) => SR::read(f, &mut buf).await,
        (Item::Owned(f), w) => unsafe {
            let n = if w {
                libc::write(f.as_raw_fd(), data.as_ptr() as _, data.len())
            } else {
                libc::read(f.as_raw_fd(), buf.as_mut_ptr() as _, buf.len())
            };
            if n < 0 {
                Err(std::io::Error::last_os_error())
            } else {
                Ok(n as usize)
            }
        },
        _ => return (Obj::Item(i), Err("HARNESS: cannot use".into())),
    };
    let typ = util::fd_desc(i.raw().unwrap()).get("typ").clone();
    let j = match r {
        Ok(n) if write => ok().with("n", n),
        Ok(n) => ok().with("n", n).with("data", String::from_utf8_lossy(&buf[..n]).to_string()).with("typ", typ),
        Err(e) => err(&e),
    };
    (Obj::Item(i), Ok(j))
}

fn main() {
    if std::env::var("CM_LISTFD").is_ok() {
        println!("{}", J::from(util::list_fds()).dump());
        return;
    }
    // A child that has not reached the library yet.
    if std::env::args().next().as_deref() == Some("_crossmist_") && std::env::var("CM_PRE").is_ok_and(|v| !v.is_empty()) {
        let mut s = connect();
        let h = J::obj().with("ev", "pre").with("pid", std::process::id());
        s.write_all(format!("{}\n", h.dump()).as_bytes()).unwrap();
        let mut line = String::new();
        BufReader::new(s).read_line(&mut line).unwrap();
        let j = J::parse(&line).unwrap();
        if j.s("op") == "exit" {
            std::process::exit(j.n("code") as i32);
        }
    }
    crossmist::init();
    let tokio_tasks = std::env::var("CM_TASKS").is_ok_and(|v| v == "t");
    let rt = tokio_tasks.then(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    match &rt {
        Some(rt) => HANDLE.set(rt.handle().clone()).unwrap(),
        None => make_runtime(),
    }
    let main = start(
        J::obj()
            .with("ev", "hello")
            .with("role", "root")
            .with("name", "root")
            .with("pid", std::process::id())
            .with("ppid", unsafe { libc::getppid() })
            .with("base", base()),
    );
    if as_tasks() {
        let all = with_lanes(tokio_tasks, async {
            while let Ok(op) = main.recv().await {
                run_op_async(&op).await;
            }
        });
        match rt {
            Some(rt) => rt.block_on(all),
            None => smol::block_on(all),
        }
        return;
    }
    while let Ok(op) = main.recv_blocking() {
        run_op_emit(&op);
    }
    let _ = build_item;
}
