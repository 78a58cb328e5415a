"""Controller side of the harness: runs scenarios against actor processes and records traces."""
import json, os, select, signal, socket, subprocess, tempfile, time, shutil, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target", "harness")
ACTOR = os.path.join(TARGET, "debug", "actor")


class HarnessError(Exception):
    """The machinery, not the code under test, went wrong."""


class Refused(HarnessError):
    """The actor cannot do what it is told, e.g. because it does not have the object."""
    def __init__(self, proc, j):
        super().__init__(f"{proc}: {j}")
        self.proc, self.seq = proc, j["seq"]


class Stuck(Exception):
    pass


def proc_gone(pid):
    """True if the process has ended (its descriptors are closed), reaped or not."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
    except OSError:
        return True
    return s[s.rindex(")") + 2] in "ZX"


class Proc:
    def __init__(self, name, sock, hello):
        self.name, self.sock, self.hello = name, sock, hello
        self.pid = hello["pid"]
        self.buf = b""
        self.eof = False


class Sim:
    """One root process and all its descendants, on one machine-readable control channel each."""

    def __init__(self, env=None, timeout=20.0, keep_stderr=True):
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="s", dir=WORK)
        self.timeout = timeout
        self.events = []          # raw events in observation order
        self.procs = {}
        self.pre = []             # children waiting before library start: (sock, pid)
        self.results = {}         # (proc, seq) -> reply
        self.seq = 0
        self.paused = {}          # (process, lane) -> name of the point it is held at
        self.handlers = []
        self.ls = socket.socket(socket.AF_UNIX)
        self.ls.bind(os.path.join(self.dir, "ctl"))
        self.ls.listen(64)
        self.ls.setblocking(False)
        self.fresh = []           # connections without a hello yet
        e = dict(os.environ)
        e.pop("CM_PRE", None)
        e["CM_CTL"] = os.path.join(self.dir, "ctl")
        e["RUST_BACKTRACE"] = "0"
        if env:
            e.update(env)
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.root = subprocess.Popen([ACTOR], env=e, stdin=subprocess.DEVNULL, stdout=self.err,
                                     stderr=self.err, start_new_session=True, cwd=self.dir)
        self.wait_proc("root")

    # ------------------------------------------------------------------ plumbing
    def pump(self, timeout):
        """Handle input for at most `timeout` seconds; returns whether anything happened."""
        socks = [self.ls] + [f[0] for f in self.fresh] + [p.sock for p in self.procs.values() if not p.eof]
        r, _, _ = select.select(socks, [], [], max(0, timeout))
        for s in r:
            if s is self.ls:
                try:
                    c, _ = self.ls.accept()
                except BlockingIOError:
                    continue
                self.fresh.append([c, b""])
                continue
            f = next((f for f in self.fresh if f[0] is s), None)
            if f:
                d = self._read(s)
                if not d:
                    self.fresh.remove(f)
                    s.close()
                    continue
                f[1] += d
                if b"\n" in f[1]:
                    self.fresh.remove(f)
                    line, rest = f[1].split(b"\n", 1)
                    j = json.loads(line)
                    if j["ev"] == "pre":
                        self.pre.append((s, j["pid"]))
                        self._event(None, j)
                    else:
                        n = j["name"]
                        if n in self.procs:
                            self._event(n, dict(j, ev="duphello"))
                            n = n + "#" + str(j["pid"])
                        p = Proc(n, s, j)
                        p.buf = rest
                        self.procs[n] = p
                        self._event(n, j)
                        self._lines(p)
                continue
            p = next((p for p in self.procs.values() if p.sock is s), None)
            if p is None:
                continue
            d = self._read(s)
            if not d:
                p.eof = True
                s.close()
                self._event(p.name, {"ev": "eof"})
                continue
            p.buf += d
            self._lines(p)
        return bool(r)

    @staticmethod
    def _read(s):
        try:
            return s.recv(1 << 20)
        except (ConnectionResetError, BrokenPipeError):
            return b""

    def _lines(self, p):
        while b"\n" in p.buf:
            line, p.buf = p.buf.split(b"\n", 1)
            self._event(p.name, json.loads(line))

    def _event(self, proc, j):
        self.events.append((proc, j))
        if j["ev"] == "done":
            if j.get("r") == "harness":
                raise Refused(proc, j)
            self.results[(proc, j["seq"])] = j
        for h in self.handlers:
            h(proc, j)

    def until(self, cond, timeout=None):
        """Pump until cond() is true; returns whether it became true in time."""
        end = time.monotonic() + (self.timeout if timeout is None else timeout)
        while not cond():
            t = end - time.monotonic()
            if t <= 0:
                return False
            self.pump(min(t, 0.25))
        return True

    def activity(self):
        """What every thread of every process is doing, or None if some thread is running."""
        v = []
        for p in self.procs.values():
            if p.eof:
                continue
            base = f"/proc/{p.pid}/task"
            try:
                for t in os.listdir(base):
                    with open(f"{base}/{t}/status") as f:
                        s = f.read()
                    st = s[s.index("State:") + 7]
                    # A thread whose new process is held before exec does not run either.
                    if st not in ("SZXD" if self.paused else "SZX"):
                        return None
                    v.append((p.pid, t, s[s.index("voluntary_ctxt"):]))
            except (OSError, ValueError):
                return None
        return v

    def settle(self, cond, timeout=10.0):
        """Wait until cond() is true or nothing goes on any more; returns cond()."""
        end = time.monotonic() + timeout
        if self.until(cond, 0.012):
            return True
        prev, same = None, 0
        while same < 2 and time.monotonic() < end:
            cur = self.activity()
            same = same + 1 if cur is not None and cur == prev else 0
            prev = cur
            n = len(self.events)
            if self.until(cond, 0.012):
                return True
            if len(self.events) != n:
                same = 0
        return cond()

    # ------------------------------------------------------------------ operations
    def wait_proc(self, name, timeout=None):
        if not self.until(lambda: name in self.procs, timeout):
            raise Stuck(f"process {name} did not start: {self.stderr()}")
        return self.procs[name]

    def issue(self, proc, op, lane="main"):
        """Send a command; returns its sequence number."""
        self.seq += 1
        op = dict(op, lane=lane, seq=self.seq)
        p = self.procs[proc]
        try:
            p.sock.sendall(json.dumps(op).encode() + b"\n")
        except OSError:
            pass
        return self.seq

    def tell(self, proc, op):
        p = self.procs[proc]
        try:
            p.sock.sendall(json.dumps(op).encode() + b"\n")
        except OSError:
            pass

    def done(self, proc, seq):
        return self.results.get((proc, seq))

    def wait(self, proc, seq, timeout=None):
        """Reply of a command, or None if the process ended or nothing came in time."""
        k = (proc, seq)
        self.until(lambda: k in self.results or self.procs[proc].eof, timeout)
        return self.results.get(k)

    def call(self, proc, op, lane="main", timeout=None):
        r = self.wait(proc, self.issue(proc, op, lane), timeout)
        if r is None:
            raise Stuck(f"{proc}: no answer to {op}; stderr: {self.stderr()[-500:]}")
        return r

    def wait_paused(self, name, timeout=None):
        return self.until(lambda: any(j["ev"] == "paused" and j["name"] == name for _, j in self.events), timeout)

    def wait_dead(self, proc, timeout=None):
        p = self.procs[proc]
        end = time.monotonic() + (self.timeout if timeout is None else timeout)
        while not (p.eof and proc_gone(p.pid)):
            if time.monotonic() > end:
                return False
            if not p.eof:
                self.pump(0.05)
            else:
                time.sleep(0.001)
        return True

    def pre_go(self, k=0, action=None):
        s, pid = self.pre.pop(k)
        try:
            s.sendall(json.dumps(action or {"op": "go"}).encode() + b"\n")
        except OSError:
            pass
        s.close()
        return pid

    def stderr(self):
        try:
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def close(self):
        try:
            os.killpg(self.root.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.root.wait()
        for p in self.procs.values():
            if not p.eof:
                p.sock.close()
        for f in self.fresh:
            f[0].close()
        for s, _ in self.pre:
            s.close()
        self.ls.close()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
