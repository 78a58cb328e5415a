//! libc interposers: record, delay, pause and fail the system calls the library makes.
//!
//! The harness is compiled with `--cfg rustix_use_libc`, so everything the library does goes
//! through these symbols. A *plan* is attached to one operation of one lane (thread).
use crate::json::J;
use libc::{c_char, c_int, c_void, msghdr, pid_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, OnceLock};

pub static CTL: OnceLock<Mutex<UnixStream>> = OnceLock::new();
static RELEASED: Mutex<Option<HashSet<String>>> = Mutex::new(None);
static RELEASED_CV: Condvar = Condvar::new();

/// Send one line to the controller.
pub fn emit(j: &J) {
    if let Some(c) = CTL.get() {
        let mut g = c.lock().unwrap_or_else(|e| e.into_inner());
        // The same clock for all processes: what happened before has a smaller time.
        let mut s = j.clone().with("ts", now()).dump();
        s.push('\n');
        if g.write_all(s.as_bytes()).is_err() {
            unsafe { libc::_exit(77) }
        }
    }
}

pub fn now() -> i64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec * 1_000_000_000 + t.tv_nsec
    }
}

pub fn release(name: &str) {
    RELEASED.lock().unwrap().get_or_insert_with(HashSet::new).insert(name.to_string());
    if name == "execv" || name.starts_with("execv:") {
        EXEC_MODE.store(0, Ordering::SeqCst);
    }
    RELEASED_CV.notify_all();
}

fn wait_released(name: &str) {
    let mut g = RELEASED.lock().unwrap();
    loop {
        if g.as_mut().is_some_and(|s| s.remove(name)) {
            return;
        }
        g = RELEASED_CV.wait(g).unwrap();
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sys {
    Sendmsg,
    Recvmsg,
    Waitpid,
    Kill,
    Clone,
    Socketpair,
    Execv,
}
const NSYS: usize = 7;

#[derive(Clone, Debug)]
struct Entry {
    sys: Sys,
    nth: u32,
    act: String,
    arg: i64,
    name: String,
    fired: bool,
}

#[derive(Default)]
pub struct Plan {
    entries: Vec<Entry>,
    counts: [u32; NSYS],
}

thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static LANE: RefCell<String> = const { RefCell::new(String::new()) };
    // 0: exec normally, 1: pause before exec, 2: fail
    static EXEC_ACT: Cell<u32> = const { Cell::new(0) };
}
static EXEC_MODE: AtomicU32 = AtomicU32::new(0);
static EXEC_REACHED: AtomicU32 = AtomicU32::new(0);
static EXEC_COUNT: AtomicU32 = AtomicU32::new(0);

pub fn set_lane(name: &str) {
    LANE.with(|l| *l.borrow_mut() = name.to_string());
}
fn lane() -> String {
    LANE.with(|l| l.borrow().clone())
}

/// Plans of tasks are in place while the task runs.
pub fn swap_plan(p: &mut Option<Plan>, lane: &str) {
    PLAN.with(|x| std::mem::swap(&mut *x.borrow_mut(), p));
    set_lane(lane);
}

pub fn set_plan(j: &[J]) {
    let p = make_plan(j);
    PLAN.with(|x| *x.borrow_mut() = p);
}

pub fn make_plan(j: &[J]) -> Option<Plan> {
    let mut p = Plan::default();
    EXEC_ACT.with(|c| c.set(0));
    for e in j {
        let sys = match e.s("sys") {
            "sendmsg" => Sys::Sendmsg,
            "recvmsg" => Sys::Recvmsg,
            "waitpid" => Sys::Waitpid,
            "kill" => Sys::Kill,
            "clone" => Sys::Clone,
            "socketpair" => Sys::Socketpair,
            "execv" => Sys::Execv,
            x => panic!("unknown sys {x}"),
        };
        if sys == Sys::Execv {
            let act = if e.s("act") == "pause" { 1 } else { 2 };
            EXEC_ACT.with(|c| c.set(act));
            EXEC_REACHED.store(0, Ordering::SeqCst);
            if act == 1 {
                EXEC_MODE.store(1, Ordering::SeqCst);
                // The paused child cannot talk; a helper thread reports for it.
                let lane = lane();
                std::thread::spawn(move || loop {
                    if EXEC_REACHED.load(Ordering::SeqCst) != 0 {
                        emit(&J::obj().with("ev", "paused").with("name", "execv").with("lane", lane));
                        return;
                    }
                    if EXEC_MODE.load(Ordering::SeqCst) == 0 {
                        return;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(2));
                });
            }
        }
        p.entries.push(Entry {
            sys,
            nth: e.n_or("nth", 1) as u32,
            act: e.s("act").to_string(),
            arg: e.n("arg"),
            name: e.s("name").to_string(),
            fired: sys == Sys::Execv,
        });
    }
    Some(p)
}

/// Remove the plan; returns (how many entries never fired, system call counts).
pub fn take_plan() -> (usize, [u32; NSYS]) {
    EXEC_ACT.with(|c| c.set(0));
    PLAN.with(|x| match x.borrow_mut().take() {
        None => (0, [0; NSYS]),
        Some(p) => (p.entries.iter().filter(|e| !e.fired).count(), p.counts),
    })
}

enum Before {
    Go,
    Fail(c_int),
}

fn matching(sys: Sys) -> Vec<Entry> {
    PLAN.try_with(|x| {
        let Ok(mut g) = x.try_borrow_mut() else { return Vec::new() };
        let Some(p) = g.as_mut() else { return Vec::new() };
        p.counts[sys as usize] += 1;
        let n = p.counts[sys as usize];
        let mut v = Vec::new();
        for e in p.entries.iter_mut() {
            if e.sys == sys && (e.nth == n || (e.nth == 0 && !e.fired)) {
                e.fired = true;
                v.push(e.clone());
            }
        }
        v
    })
    .unwrap_or_default()
}

fn die() -> ! {
    unsafe {
        libc::syscall(libc::SYS_kill, libc::getpid(), libc::SIGKILL);
        loop {
            libc::pause();
        }
    }
}

fn pause_at(name: &str) {
    emit(&J::obj().with("ev", "paused").with("name", name).with("lane", lane()));
    wait_released(name);
}

fn before(es: &[Entry]) -> Before {
    for e in es {
        match e.act.as_str() {
            "eintr" => return Before::Fail(libc::EINTR),
            "block" => return Before::Fail(libc::EAGAIN),
            "errno" => return Before::Fail(e.arg as c_int),
            "kill_before" => die(),
            "delay" => std::thread::sleep(std::time::Duration::from_millis(e.arg as u64)),
            "pause" => pause_at(&e.name),
            _ => {}
        }
    }
    Before::Go
}

fn after(es: &[Entry]) {
    for e in es {
        match e.act.as_str() {
            "kill_after" => die(),
            "pause_after" => pause_at(&e.name),
            "delay_after" => std::thread::sleep(std::time::Duration::from_millis(e.arg as u64)),
            _ => {}
        }
    }
}

fn fail(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn errno() -> c_int {
    unsafe { *libc::__errno_location() }
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, msg: *const msghdr, flags: c_int) -> ssize_t {
    let es = matching(Sys::Sendmsg);
    if let Before::Fail(e) = before(&es) {
        fail(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_sendmsg, fd as i64, msg, flags as i64) as ssize_t;
    let e = errno();
    after(&es);
    fail(e);
    r
}

#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, msg: *mut msghdr, flags: c_int) -> ssize_t {
    let es = matching(Sys::Recvmsg);
    if let Before::Fail(e) = before(&es) {
        fail(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_recvmsg, fd as i64, msg, flags as i64) as ssize_t;
    let e = errno();
    after(&es);
    fail(e);
    r
}

#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int {
    let es = matching(Sys::Socketpair);
    if let Before::Fail(e) = before(&es) {
        fail(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_socketpair, d as i64, t as i64, p as i64, sv) as c_int;
    let e = errno();
    after(&es);
    fail(e);
    r
}

/// 0: not our unreaped child, 1: running, 2: zombie
pub fn child_state(pid: pid_t) -> i32 {
    unsafe {
        let mut si: libc::siginfo_t = std::mem::zeroed();
        let r = libc::waitid(
            libc::P_PID,
            pid as libc::id_t,
            &mut si,
            libc::WEXITED | libc::WNOHANG | libc::WNOWAIT,
        );
        if r != 0 {
            0
        } else if si.si_pid() == 0 {
            1
        } else {
            2
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, status: *mut c_int, options: c_int) -> pid_t {
    let es = matching(Sys::Waitpid);
    if let Before::Fail(e) = before(&es) {
        fail(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_wait4, pid as i64, status, options as i64, 0usize) as pid_t;
    let e = errno();
    after(&es);
    fail(e);
    r
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    let es = matching(Sys::Kill);
    if let Before::Fail(e) = before(&es) {
        fail(e);
        return -1;
    }
    // A stand-in: a signal to anything that is not an unreaped child of ours is only recorded.
    let st = if pid > 0 { child_state(pid) } else { 0 };
    emit(&J::obj().with("ev", "kill_sys").with("pid", pid).with("sig", sig).with("state", st).with("lane", lane()));
    if st == 0 {
        fail(libc::ESRCH);
        return -1;
    }
    let r = libc::syscall(libc::SYS_kill, pid as i64, sig as i64) as c_int;
    let e = errno();
    after(&es);
    fail(e);
    r
}

type CloneFn = unsafe extern "C" fn(
    extern "C" fn(*mut c_void) -> c_int,
    *mut c_void,
    c_int,
    *mut c_void,
    usize,
    usize,
    usize,
) -> c_int;
static REAL_CLONE: AtomicUsize = AtomicUsize::new(0);

pub fn init() {
    unsafe {
        let p = libc::dlsym(libc::RTLD_NEXT, c"clone".as_ptr());
        assert!(!p.is_null());
        REAL_CLONE.store(p as usize, Ordering::SeqCst);
    }
}

#[no_mangle]
pub unsafe extern "C" fn clone(
    cb: extern "C" fn(*mut c_void) -> c_int,
    stack: *mut c_void,
    flags: c_int,
    arg: *mut c_void,
    a5: usize,
    a6: usize,
    a7: usize,
) -> c_int {
    let es = matching(Sys::Clone);
    if let Before::Fail(e) = before(&es) {
        fail(e);
        return -1;
    }
    let real: CloneFn = std::mem::transmute(REAL_CLONE.load(Ordering::SeqCst));
    let r = real(cb, stack, flags, arg, a5, a6, a7);
    let e = errno();
    after(&es);
    fail(e);
    r
}

/// Runs in the cloned child, which shares our memory: tiny and without allocation.
#[no_mangle]
pub unsafe extern "C" fn execv(path: *const c_char, argv: *const *const c_char) -> c_int {
    extern "C" {
        static environ: *const *const c_char;
    }
    EXEC_COUNT.fetch_add(1, Ordering::SeqCst);
    let act = EXEC_ACT.with(|c| c.get());
    if act == 2 {
        fail(libc::ENOEXEC);
        return -1;
    }
    if act == 1 {
        EXEC_REACHED.store(1, Ordering::SeqCst);
        while EXEC_MODE.load(Ordering::SeqCst) == 1 {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: 1_000_000 };
            libc::syscall(libc::SYS_nanosleep, &ts, 0usize);
        }
    }
    libc::syscall(libc::SYS_execve, path, argv, environ) as c_int
}
