"""Replays Lifecycle scenarios on the real code and turns what happens into Lifecycle traces."""
import os, random, signal, time
from cm import Sim, HarnessError, Refused, proc_gone

NAMES = {"recv": ("recvmsg", "pause"), "wait": ("waitpid", "pause"), "waited": ("waitpid", "pause_after"),
         "kill": ("kill", "pause"), "killed": ("kill", "pause_after"), "execv": ("execv", "pause"),
         "clone": ("clone", "pause"), "clone_after": ("clone", "pause_after"), "send": ("sendmsg", "pause")}
ORDER = ["recv", "wait", "waited", "kill", "killed"]


class Replay:
    def __init__(self, hist, eintr=0.0, seed=0, timeout=20.0):
        self.hist, self.eintr, self.rng, self.timeout = hist, eintr, random.Random(seed), timeout
        self.trace, self.notes = [], []
        self.pending = {}    # lane -> (seq, op)
        self.points = {}     # lane -> names of points not released yet
        self.pids = {}       # pid -> child
        self.pid = {}        # child -> pid
        self.held = {}       # children the program can join -> spawn operation
        self.handles = set() # children with kill handles
        self.told = {}       # children told to end -> how
        self.failed = set()
        self.dead = set()
        self.hot = False
        self.said = set()

    def add(self, ev, ts=None):
        self.trace.append((time.monotonic_ns() if ts is None else ts, len(self.trace), ev))

    # -------------------------------------------------------- what the program reports
    def learn(self, pid, c):
        self.pids[pid] = c
        self.pid[c] = pid

    def value(self, d):
        if not d.get("ok"):
            return {"id": -1, "len": -1}
        return {"id": d["id"], "len": d["len"]}

    def result(self, op, j):
        o, r = op["op"], j["r"]
        st = j.get("state", 0)
        if r == "val":
            return dict(self.value(j["v"]), r="val", st=st)
        if r == "err":
            return {"r": "err", "st": st}
        if r in ("cancelled", "none"):
            return {"r": r}
        if r == "panic":
            return {"r": "panic", "msg": j.get("msg", "")}
        if o == "children":
            return {"r": "set", "cs": sorted(self.pids.get(p, f"?{p}") for p in j["pids"])}
        if o == "fds":
            cc = sum(d["typ"] == "seq" for d in j["fds"])
            extra = [d for d in j["fds"] if d["typ"] != "seq" and (d["fd"], d.get("ino")) not in self.base]
            if extra:
                self.notes.append(f"extra {extra}")
            return {"r": "fds", "cc": cc, "extra": len(extra)}
        return {"r": "ok"}

    def on_event(self, p, j):
        ev = j["ev"]
        if p == "root":
            if ev == "done":
                for l, (seq, op) in list(self.pending.items()):
                    if seq == j["seq"]:
                        del self.pending[l]
                        self.points.pop(l, None)
                        if op["op"] == "spawn" and j["r"] == "ok":
                            self.learn(j["pid"], op["c"])
                            self.held[op["c"]] = op
                            self.handles.add(op["c"])
                        self.raw.append(("ret", j["ts"], l, op, j))
            elif ev == "kill_sys":
                self.raw.append(("kill", j["ts"], j["lane"], dict(self.pending.get(j["lane"], (0, {}))[1]), j))
            elif ev == "eof":
                self.crashed = True
        elif ev == "hello" and j.get("role") == "child" and p not in self.said:
            self.learn(j["pid"], p)
            self.said.add(p)
            self.add({"ev": "hello", "c": p, "fn": j["fn"], **self.value(j["args"])}, j["ts"])
        elif ev == "duphello":
            self.add({"ev": "hello", "c": p, "fn": "second start", "id": 0, "len": 0}, j["ts"])

    def flush(self):
        """Events that name processes, once all names are known."""
        for kind, ts, l, op, j in self.raw:
            if kind == "ret":
                self.add({"ev": "ret", "l": l, "res": self.result(op, j)}, ts)
            else:
                c = self.pids.get(j["pid"])
                if c is None and op.get("op") in ("spawn", "run") and op["c"] not in self.pid:
                    c = op["c"]
                self.add({"ev": "killsys", "c": c or "?", "state": j["state"], "sig": j["sig"]}, ts)
        self.raw = []

    # -------------------------------------------------------- operations
    def busy(self, c):
        return [op for _, op in self.pending.values() if op.get("c") == c]

    def possible(self, l, op):
        o = op["op"]
        if l in self.pending or self.crashed:
            return False
        if o in ("children", "fds"):
            return not self.pending
        if o == "join" or o == "forget":
            return op["c"] in self.held
        if o == "kill":
            return op["c"] in self.handles
        if o in ("spawn", "run"):
            if self.hot and (any(x["op"] in ("spawn", "run") for _, x in self.pending.values()) or self.sim.pre):
                return False
            return op["bad"] != "limit" or not self.pending
        return True

    def call(self, l, op):
        sim, o = self.sim, op["op"]
        a = {"op": o}
        plan = []
        if o in ("spawn", "run"):
            a.update(fn=op["fn"], rt=op["rt"], name=op["c"], child=op["c"], msg={"id": op["id"], "len": op["len"], "items": []},
                     khs=self.lanes)
            bad = op["bad"]
            if bad in ("clone", "socketpair", "send"):
                err = {"clone": [11, 12], "socketpair": [24, 23], "send": [105, 32, 104]}[bad]
                plan.append({"sys": "sendmsg" if bad == "send" else bad, "nth": op["nth"], "act": "errno",
                             "arg": self.rng.choice(err)})
            elif bad == "execv":
                plan.append({"sys": "execv", "act": "errno"})
            elif bad == "cut":
                plan.append({"sys": "sendmsg", "nth": op["nth"], "act": "block"})
                a["cancel_pending"] = 1
            elif bad == "limit":
                k = self.rng.choice([0, 1])
                sim.call("root", {"op": "rlimit_free", "k": k})
            hold = [op["at"]] if op["at"] else []
        elif o in ("join", "forget"):
            a.update(child=op["c"], id=op["c"])
            if o == "forget":
                a["op"] = "drop"
            elif op["canc"]:
                a["cancel_token"] = f"{l}.{sim.seq + 1}"
            hold = [x for x in ORDER if x in op.get("hold", [])]
        elif o == "kill":
            a["kh"] = f"{op['c']}.{op['h']}"
            hold = [x for x in ORDER if x in op["hold"]]
        else:
            hold = []
        self.points[l] = []
        for h in hold:
            sys_, act = NAMES[h]
            name = "execv" if h == "execv" else f"{h}:{l}.{sim.seq + 1}"
            plan.append({"sys": sys_, "nth": 1, "act": act, "name": name})
            self.points[l].append(name)
        if not plan and o in ("spawn", "run", "join") and self.rng.random() < self.eintr:
            plan = [{"sys": x, "nth": self.rng.randrange(1, 4), "act": "eintr"}
                    for x in ("sendmsg", "recvmsg", "waitpid") for _ in range(self.rng.randrange(3))]
        if plan:
            a["plan"] = plan
        self.add({"ev": "call", "l": l, "op": {k: v for k, v in op.items() if k != "hold"}})
        if op.get("bad") == "cut":
            self.add({"ev": "cancel", "l": l})
        if o in ("join", "forget"):
            del self.held[op["c"]]
        seq = sim.issue("root", a, l)
        self.pending[l] = (seq, op)
        if o in ("children", "fds"):
            sim.until(lambda: l not in self.pending, 10)
        if op.get("bad") == "limit":
            if not sim.until(lambda: l not in self.pending, 10):
                raise HarnessError("spawn without descriptors does not return")
            sim.call("root", {"op": "rlimit_reset"})

    def release(self, l):
        names = self.points.get(l)
        if not names:
            return
        name = names.pop(0)
        at = lambda: any(j["ev"] == "paused" and j["name"] == name and j["lane"] == l for _, j in self.sim.events)
        self.sim.paused[("root", l)] = name
        self.sim.settle(lambda: at() or l not in self.pending)
        if name == "execv":
            self.sim.events = [(q, j) for q, j in self.sim.events if j["ev"] != "paused"]
        del self.sim.paused[("root", l)]
        if any(self.points.values()):
            pass
        self.sim.tell("root", {"op": "release", "name": name})

    def child_op(self, c, op, lane="main"):
        if c in self.sim.procs:
            self.sim.issue(c, op, lane)

    def wait_gone(self, c, timeout):
        pid = self.pid[c]
        end = time.monotonic() + timeout
        while not proc_gone(pid):
            if time.monotonic() > end:
                return False
            self.sim.pump(0.003)
        return True

    def note_dead(self, c, timeout=4.0):
        if c in self.dead or c not in self.pid:
            return
        if self.wait_gone(c, timeout):
            # Everything it said has to come first.
            self.sim.until(lambda: c not in self.sim.procs or self.sim.procs[c].eof, 1.0)
            self.dead.add(c)
            self.add({"ev": "dead", "c": c})

    def step(self, e):
        sim, ev, l, c = self.sim, e["ev"], e.get("l"), e.get("c")
        if ev == "call":
            if self.possible(l, e["op"]):
                self.call(l, e["op"])
            else:
                self.notes.append("skipped a call")
        elif ev == "ret":
            if l in self.pending:
                sim.settle(lambda: l not in self.pending or self.crashed)
        elif ev == "release":
            self.release(l)
        elif ev == "cancel":
            if l in self.pending and self.pending[l][1]["op"] == "join":
                seq, _ = self.pending[l]
                self.add({"ev": "cancel", "l": l})
                sim.tell("root", {"op": "cancel", "token": f"{l}.{seq}"})
        elif ev == "hot":
            if not self.pending and not sim.pre:
                self.hot = e["on"]
                sim.call("root", {"op": "setenv", "k": "CM_PRE", "v": "1" if self.hot else ""})
        elif ev == "pre":
            if not self.started(c) or c in self.pid and c in self.said:
                return
            def mine():
                """Its position among the processes that are held before they reach the library"""
                for i, (_, pid) in enumerate(sim.pre):
                    if self.pids.get(pid, None if c in self.pid else c) == c:
                        return i
            if sim.until(lambda: mine() is not None or c in self.failed or c in self.pid and proc_gone(self.pid[c]), 5.0) \
                    and mine() is not None:
                i = mine()
                s, pid = sim.pre[i]
                self.learn(pid, c)
                if e["what"] == "go":
                    sim.pre_go(i)
                elif e["what"] == "exit":
                    self.add({"ev": "preexit", "c": c, "code": e["code"]})
                    self.told[c] = "exit"
                    sim.pre_go(i, {"op": "exit", "code": e["code"]})
                else:
                    self.add({"ev": "die", "c": c})
                    self.told[c] = "die"
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    sim.pre.pop(i)
        elif ev == "hello":
            if self.started(c) and c not in self.told:
                sim.until(lambda: c in self.said or c in self.dead or not self.started(c)
                          or (c in self.pid and proc_gone(self.pid[c])), 6.0)
        elif ev == "end":
            h = e["how"]
            if c not in self.said or c in self.told:
                return
            self.told[c] = h["k"]
            self.add({"ev": "end", "c": c, "how": h})
            if h["k"] == "return":
                op = {"op": "return", "msg": {"id": h["raw"], "len": h["len"], "items": [], "err": h["raw"] % 2 == 1}, "atexit": h["at"]}
                if h["cut"]:
                    op["plan"] = [{"sys": "sendmsg", "nth": h["nth"], "act": self.rng.choice(["kill_before", "kill_after"])}]
            elif h["k"] == "exit":
                op = {"op": "exit", "code": h["code"]}
            elif h["k"] == "signal":
                op = {"op": "sigself", "sig": h["sig"]}
            else:
                op = {"op": "panic"}
            self.child_op(c, op)
        elif ev == "die":
            if c in self.said:
                self.told[c] = self.told.get(c, "die")
                self.add({"ev": "die", "c": c})
                sim.tell(c, {"op": "die"})
        elif ev == "dead":
            self.note_dead(c, 4.0 if c in self.told or self.killed(c) else 0.3)

    def killed(self, c):
        return any(k == "ret" and op["op"] == "kill" and op["c"] == c and j["r"] == "ok" for k, _, _, op, j in self.raw)

    def started(self, c):
        """The operation that starts it has been called and has not failed."""
        return c in self.held or c in self.pid or bool(self.busy(c)) and c not in self.failed

    def run(self):
        self.raw, self.crashed, self.broken = [], False, False
        self.lanes = sorted({e["l"] for e in self.hist if e["ev"] == "call"} | {"main"})
        with Sim(timeout=self.timeout, env={"CM_PRE": ""}) as sim:
            self.sim = sim
            for l in self.lanes:
                sim.call("root", {"op": "nop"}, l)
            b = sim.call("root", {"op": "fds"})["fds"]
            self.base = {(d["fd"], d.get("ino")) for d in b}
            self.base0 = sum(d["typ"] == "seq" for d in b)
            sim.handlers.append(self.on_event)
            try:
                for e in self.hist:
                    if self.crashed:
                        break
                    self.step(e)
                while any(self.points.values()):
                    for l in list(self.points):
                        self.release(l)
                if self.pending and not self.crashed:
                    sim.settle(lambda: not self.pending)
                if self.crashed:
                    self.add({"ev": "crash", "err": sim.stderr()[-500:]})
                else:
                    self.finish()
            except HarnessError as e:
                # What happened up to here is still evidence.
                self.broken = True
                self.notes.append(str(e))
                if isinstance(e, Refused):
                    for l, (seq, op) in self.pending.items():
                        if seq == e.seq:
                            k = max(i for i, x in enumerate(self.trace) if x[2]["ev"] == "call" and x[2]["l"] == l)
                            del self.trace[k]
            self.flush()
        self.trace = [e for _, _, e in sorted(self.trace, key=lambda x: x[:2])]
        return self

    def finish(self):
        sim = self.sim
        end = time.monotonic() + 3.0
        for c in list(self.pid):
            if c not in self.dead and (c in self.told or self.killed(c)):
                self.note_dead(c, max(0.3, end - time.monotonic()))
        if self.pending:
            sim.settle(lambda: not self.pending)
        for c in self.held:
            if c not in self.said and c not in self.told and c not in self.dead and not self.killed(c) and not (self.hot and sim.pre):
                # Its function should have started.
                if not sim.until(lambda: c in self.said or proc_gone(self.pid[c]) or self.hot and sim.pre, 5.0):
                    self.add({"ev": "no start", "c": c, "err": sim.stderr()[-500:]})
        for c, pid in list(self.pid.items()):
            if c not in self.dead:
                if proc_gone(pid):
                    self.note_dead(c)
                else:
                    self.add({"ev": "alive", "c": c})
        for l in list(self.pending):
            self.add({"ev": "stuck", "l": l})


def run_one(args):
    i, hist, opts = args
    try:
        r = Replay(hist, seed=i, **opts).run()
        return i, r.trace, r.broken, r.notes
    except HarnessError as e:
        return i, [], True, [str(e)]
