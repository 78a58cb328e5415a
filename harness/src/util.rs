//! Small helpers: content generator, descriptor identity.
use crate::json::J;
use std::os::fd::RawFd;

/// Deterministic contents for message `id`.
pub fn fill(id: u64, buf: &mut [u8]) {
    let mut x = id.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    for c in buf.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes()[..c.len()]);
    }
}

pub fn check(id: u64, buf: &[u8]) -> bool {
    let mut v = vec![0u8; buf.len()];
    fill(id, &mut v);
    v == buf
}

pub fn fd_desc(fd: RawFd) -> J {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            return J::obj().with("bad", true).with("fd", fd);
        }
        let typ = match st.st_mode & libc::S_IFMT {
            libc::S_IFREG => "reg",
            libc::S_IFSOCK => {
                let mut t: libc::c_int = 0;
                let mut l = 4;
                libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut t as *mut _ as _, &mut l);
                if t == libc::SOCK_SEQPACKET { "seq" } else { "sock" }
            }
            libc::S_IFIFO => "pipe",
            libc::S_IFCHR => "chr",
            libc::S_IFDIR => "dir",
            _ => "other",
        };
        let fdfl = libc::fcntl(fd, libc::F_GETFD);
        let fl = libc::fcntl(fd, libc::F_GETFL);
        let off = if typ == "reg" { libc::lseek(fd, 0, libc::SEEK_CUR) } else { -1 };
        J::obj()
            .with("fd", fd)
            .with("dev", st.st_dev as i64)
            .with("ino", st.st_ino as i64)
            .with("typ", typ)
            .with("cloexec", fdfl & libc::FD_CLOEXEC != 0)
            .with("acc", fl & libc::O_ACCMODE)
            .with("off", off)
    }
}

pub fn list_fds() -> Vec<J> {
    // Read the directory completely before looking at descriptors, so that its own is gone.
    let names: Vec<RawFd> = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect())
        .unwrap_or_default();
    names
        .into_iter()
        .filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0)
        .map(fd_desc)
        .collect()
}

/// An injected EAGAIN makes an edge-triggered reactor forget that the descriptor is ready: have the
/// kernel report it again.
pub fn rearm(op: &J, fd: RawFd) {
    if !op.arr("plan").iter().any(|e| e.s("act") == "block") {
        return;
    }
    for d in list_fds() {
        let ep = d.n("fd") as RawFd;
        let Ok(info) = std::fs::read_to_string(format!("/proc/self/fdinfo/{ep}")) else { continue };
        for l in info.lines().filter(|l| l.starts_with("tfd:")) {
            let f: Vec<&str> = l.split_whitespace().collect();
            // tfd: N events: HEX data: HEX ...
            if f.len() < 6 || f[1].parse() != Ok(fd) {
                continue;
            }
            let mut ev = libc::epoll_event {
                events: u32::from_str_radix(f[3], 16).unwrap(),
                u64: u64::from_str_radix(f[5], 16).unwrap(),
            };
            unsafe { libc::epoll_ctl(ep, libc::EPOLL_CTL_MOD, fd, &mut ev) };
        }
    }
}
