"""Replays World scenarios on the real code and turns what happens into World traces."""
import json, os, sys, time, random
from cm import Sim, HarnessError, Refused, proc_gone

ITEMS = {"file", "owned", "unix", "tfile", "sfile", "tunix", "sunix"}
CONVERT = {"BS": {"t": "TS", "s": "SS", "raw": "BS"}, "BR": {"t": "TR", "s": "SR", "raw": "BR"},
           "BD": {"t": "TD", "s": "SD", "raw": "BD", "tx": "BS", "rx": "BR"},
           "TD": {"tx": "TS", "rx": "TR"}, "SD": {"tx": "SS", "rx": "SR"}}
UNKNOWN = {"t": "?", "n": "?", "s": 0}


class Replay:
    def __init__(self, hist, timeout=20.0, eintr=0.0, tasks="", seed=0):
        self.tasks, self.eintr, self.rng = tasks, eintr, random.Random(seed)
        self.hist, self.timeout = hist, timeout
        self.trace = []
        self.objs = {}        # (dev, ino) -> object
        self.pending = {}     # (p, l) -> (seq, op)
        self.has = {"root": {}}    # process -> handle -> kind
        self.dying = set()
        self.noted = set()
        self.limited = set()
        self.notes = []

    def add(self, ev, ts=None):
        self.trace.append((time.monotonic_ns() if ts is None else ts, len(self.trace), ev))

    # -------------------------------------------------------- results
    def obj(self, d):
        return self.objs.get((d.get("dev"), d.get("ino")), UNKNOWN)

    def flat(self, x, lv):
        if isinstance(x, str):
            return x
        if "ino" in x or "bad" in x:
            lv.append({"o": self.obj(x), "k": x["k"]})
            return "*"
        for w in ("opt", "share", "later"):
            if w in x:
                return w + "(" + self.flat(x[w], lv) + ")"
        for w in ("many", "two"):
            if w in x:
                return w + "(" + "".join(self.flat(y, lv) for y in x[w] if y is not None) + ")"
        if "crowd" in x:
            for y in x["crowd"]:
                self.flat(y, lv)
            return "crowd"
        if "pad" in x:
            return "pad" if x["ok"] else "badpad"
        raise HarnessError(f"cannot flatten {x}")

    def value(self, d):
        lv = []
        sh = "".join(self.flat(x, lv) for x in d.get("items", []))
        if not d["ok"]:
            sh += "!corrupt"
        return {"r": "val", "id": d["id"], "len": d["len"], "sh": sh, "lv": lv}

    def fds(self, fds, exec_):
        cnt, cc = {}, 0
        for d in fds:
            o = self.objs.get((d.get("dev"), d.get("ino")))
            if o is None:
                if d["typ"] == "seq":
                    cc += 1
                    continue
                if exec_ and d["fd"] > 2:
                    o = UNKNOWN
                elif d["typ"] == "reg" and d["ino"] != self.err_ino:
                    o = UNKNOWN
                else:
                    continue
            k = (o["t"], o["n"], o["s"])
            cnt[k] = cnt.get(k, 0) + 1
        return {"r": "fds", "fds": [{"o": {"t": t, "n": n, "s": s}, "n": c} for (t, n, s), c in sorted(cnt.items())],
                "cc": cc}

    def result(self, p, op, j):
        """Model result of a reply, and bookkeeping."""
        r = j["r"]
        o = op["op"]
        mine = self.has[p]
        if r == "err":
            return {"r": "err"}
        if r in ("none", "cancelled"):
            return {"r": r}
        if r == "panic":
            return {"r": "panic", "msg": j.get("msg", "")}
        if r == "val":
            v = self.value(j["v"])
            if op.get("store"):
                mine.update((f"{op['store']}.{i}", x["k"]) for i, x in enumerate(v["lv"][:8]))
            return v
        if o in ("channel", "duplex"):
            for s, k in ((0, "a"), (1, "b")):
                self.objs[(j[k]["dev"], j[k]["ino"])] = {"t": "e", "n": op["c"], "s": s}
                mine[op[k]] = op["rt"].upper() + ("D" if o == "duplex" else "SR"[s])
        elif o == "mkunix":
            for s, k in ((0, "a"), (1, "b")):
                self.objs[(j[k]["dev"], j[k]["ino"])] = {"t": "u", "n": op["u"], "s": s}
                mine[op[k]] = op["k"]
        elif o == "mkfile":
            self.objs[(j["d"]["dev"], j["d"]["ino"])] = {"t": "f", "n": op["f"], "s": 0}
            mine[op["h"]] = op["k"]
        elif o == "desc":
            d = j["d"]
            return {"r": "desc", "o": self.obj(d), "k": d["k"], "off": d["off"]}
        elif o == "use":
            return {"r": "use", "n": j["n"], "data": "" if op["write"] or j.get("typ") == "reg" else j.get("data", "")}
        elif o in ("fds", "execls"):
            return self.fds(j["fds"], o == "execls")
        return {"r": "ok"}

    # -------------------------------------------------------- operations
    def spec(self, m):
        items = []
        for it in m["items"]:
            w, h = it["w"], it["h"]
            if w == "plain":
                items.append(h)
            elif w == "pad":
                items.append({"w": "pad", "id": m["id"], "len": m["len"] % 1000})
            elif w == "crowd":
                items.append({"w": "crowd", "of": it["of"], "n": it["n"]})
            elif w == "none":
                items.append({"w": "none"})
            else:
                items.append({"w": w, "of": [h]})
        return {"id": m["id"], "len": m["len"], "items": items}

    def uses(self, op):
        u = []
        if op["op"] in ("send", "recv", "request", "drop", "convert", "seek", "desc", "use"):
            u.append(op["h"])
        if "m" in op:
            u += op["m"]["own"]
        return u

    def possible(self, p, op):
        if p not in self.has or p in self.noted or self.sim.procs.get(p) is None or self.sim.procs[p].eof:
            return False
        mine, o = self.has[p], op["op"]
        if not set(self.uses(op)) <= set(mine):
            return False
        if o in ("rlimit_free", "fds") and any(q == p for q, _ in self.pending) or o == "execls" and any(
                q == p and (q, m) not in self.sim.paused for q, m in self.pending):
            return False
        # A process that may not open descriptors does nothing but receive.
        if p in self.limited and o not in ("recv", "rlimit_reset"):
            return False
        # A race may have given a name to something else than in the generated behaviour.
        k = mine.get(op["h"], "")
        if o in ("send", "request") and k[1:] not in ("S", "D") or o in ("recv", "request") and k[1:] not in ("R", "D"):
            return False
        if o in ("use", "seek") and k not in ITEMS or o == "convert" and op["to"] not in CONVERT.get(k, {}):
            return False
        if "m" in op and any(mine[h] != "file" for it in op["m"]["items"]
                             for h in (it["of"] if it["w"] == "crowd" else [it["h"]] if it["w"] == "two" else [])):
            return False
        if any(q == p and h in self.uses(o2) for (q, _), (_, o2) in self.pending.items() for h in self.uses(op)):
            return False
        if o == "spawn" and op["fn"] != "t" and any(mine[h] in ("TS", "TR", "TD", "tfile", "tunix") for h in op["m"]["own"]):
            return False
        if op["op"] in ("join", "dropchild") and ("C" + op["child"]) not in mine:
            return False
        return True

    def actor_op(self, p, l, op):
        o = op["op"]
        a = {"op": o}
        if o in ("channel", "duplex"):
            a.update(el=op["el"], rt=op["rt"], a=op["a"], b=op["b"])
        elif o in ("send", "recv", "request"):
            a["end"] = op["h"]
            if o != "recv":
                a["msg"] = dict(self.spec(op["m"]), keep=op["keep"])
            if o != "send":
                a["store"] = op["store"]
            if op["canc"] == "tok":
                a["cancel_token"] = f"{p}.{l}.{self.sim.seq + 1}"
            sys_ = "recvmsg" if o == "recv" else "sendmsg"
            if op["canc"] == "cut":
                a["plan"] = [{"sys": sys_, "nth": op["cut"], "act": "block"}]
                a["cancel_pending"] = 1
            if op["mortal"]:
                a["plan"] = [{"sys": sys_, "nth": op["cut"], "act": "kill_before" if op["m"]["id"] % 2 else "kill_after"}
                             if o != "recv" else {"sys": sys_, "nth": op["cut"], "act": "kill_after"}]
        elif o == "drop":
            a["id"] = op["h"]
        elif o == "convert":
            a.update(end=op["h"], to=op["to"])
        elif o == "mkfile":
            a.update(path=os.path.join(self.sim.dir, op["f"]), off=op["off"], id=op["h"], k=op["k"])
        elif o == "mkunix":
            a.update(a=op["a"], b=op["b"], k=op["k"])
        elif o == "seek":
            a.update(id=op["h"], off=op["off"])
        elif o == "desc":
            a["id"] = op["h"]
        elif o == "use":
            a.update(id=op["h"], write=op["write"], data=op["data"], n=4)
        elif o == "rlimit_free":
            a["k"] = op["free"]
        elif o == "spawn":
            a.update(fn=op["fn"] + "_m", rt=op["rt"], name=op["child"], child="C" + op["child"], msg=self.spec(op["m"]))
            if op["canc"] == "pause":
                name = "execv" if op["at"] == "execv" else f"clone:{p}.{l}.{self.sim.seq + 1}"
                a["plan"] = [{"sys": op["at"], "nth": 1, "act": "pause", "name": name}]
                self.sim.paused[(p, l)] = name
        elif o == "join":
            a.update(child="C" + op["child"], store=op["store"])
        elif o == "dropchild":
            a.update(op="drop", id="C" + op["child"])
        elif o == "return":
            a["msg"] = self.spec(op["m"])
        elif o == "exit":
            a["code"] = op["code"]
        if "plan" not in a and op["canc"] == "no" and o in ("send", "recv", "request", "spawn", "join") \
                and self.rng.random() < self.eintr:
            # Signals are invisible to the caller.
            a["plan"] = [{"sys": x, "nth": self.rng.randrange(1, 4), "act": "eintr"}
                         for x in ("sendmsg", "recvmsg", "waitpid") for _ in range(self.rng.randrange(3))]
        return a

    def on_event(self, p, j):
        if j["ev"] == "done":
            for (q, l), (seq, op) in list(self.pending.items()):
                if q == p and seq == j["seq"]:
                    del self.pending[(q, l)]
                    if op["op"] == "spawn" and j["r"] == "ok":
                        self.has[p]["C" + op["child"]] = "child"
                        self.has.setdefault(op["child"], {})
                    self.add({"ev": "ret", "p": p, "l": l, "res": self.result(p, op, j)}, j["ts"])
        elif j["ev"] == "hello" and j["role"] == "child":
            v = self.value(j["args"])
            self.has.setdefault(p, {}).update((f"a.{i}", x["k"]) for i, x in enumerate(v["lv"][:8]))
            self.add({"ev": "hello", "p": p, "res": v}, j["ts"])
        elif j["ev"] == "duphello":
            self.add({"ev": "second start", "p": p})

    def release(self, p, l):
        name = self.sim.paused.get((p, l))
        if name is None:
            return
        at = lambda: any(q == p and j["ev"] == "paused" and j["name"] == name and j["lane"] == l
                         for q, j in self.sim.events)
        self.sim.settle(lambda: at() or (p, l) not in self.pending)
        del self.sim.paused[(p, l)]
        # The name may be used again.
        self.sim.events = [(q, j) for q, j in self.sim.events if j["ev"] != "paused"]
        self.sim.tell(p, {"op": "release", "name": name})

    def note_dead(self, p):
        if p in self.noted:
            return True
        sim = self.sim
        if p not in sim.procs:
            return False
        if p in self.mortal and not sim.procs[p].eof:
            # The plan may not have fired.
            if not sim.until(lambda: sim.procs[p].eof, 0.15):
                self.add({"ev": "die", "p": p})
                sim.tell(p, {"op": "die"})
        if not sim.wait_dead(p, self.timeout):
            return False
        self.noted.add(p)
        for k in [k for k in self.pending if k[0] == p]:
            del self.pending[k]
        self.add({"ev": "dead", "p": p})
        return True

    def run(self):
        self.mortal, self.broken = set(), False
        with Sim(timeout=self.timeout, env={"CM_TASKS": self.tasks}) as sim:
            self.sim = sim
            self.err_ino = os.fstat(sim.err.fileno()).st_ino
            sim.handlers.append(self.on_event)
            try:
                self.replay()
            except HarnessError as e:
                # What happened up to here is still evidence.
                self.broken = True
                self.notes.append(str(e))
                if isinstance(e, Refused):
                    for (p, l), (seq, op) in self.pending.items():
                        if p == e.proc and seq == e.seq:
                            k = max(i for i, x in enumerate(self.trace) if x[2]["ev"] == "call" and (x[2]["p"], x[2]["l"]) == (p, l))
                            del self.trace[k]
        self.trace = [e for _, _, e in sorted(self.trace, key=lambda x: x[:2])]
        return self

    def replay(self):
        sim = self.sim
        for e in self.hist:
            if not self.step(e):
                self.notes.append(f"stopped at {e['ev']} {e.get('p')} {sim.stderr()[-300:]}")
                break
        else:
            for k in list(sim.paused):
                self.release(*k)
            if self.pending:
                sim.settle(lambda: not self.pending)
        for p in list(sim.procs):
            # A process that ended without being asked to
            if sim.procs[p].eof and p not in self.noted and p not in self.dying:
                self.add({"ev": "crash", "p": p, "err": sim.stderr()[-500:]})
        for (p, l), (seq, op) in list(self.pending.items()):
            if p in self.noted or p in self.dying or sim.procs[p].eof:
                continue
            self.add({"ev": "stuck", "p": p, "l": l})

    def step(self, e):
        sim = self.sim
        ev, p, l = e["ev"], e["p"], e.get("l")
        if ev == "call":
            op = e["op"]
            if (p, l) in self.pending or not self.possible(p, op):
                self.notes.append("skipped a call")
                return True
            if self.has[p].get(op["h"], "")[:1] == "B" and op["canc"] != "no":
                op = dict(op, canc="no")
            self.add({"ev": "call", "p": p, "l": l, "op": op})
            if op["mortal"]:
                self.mortal.add(p)
                self.dying.add(p)
            if op["op"] in ("return", "exit"):
                self.dying.add(p)
            if op["op"] == "rlimit_free":
                self.limited.add(p)
            if op["op"] == "rlimit_reset":
                self.limited.discard(p)
            mine = self.has[p]
            for h in op["m"]["own"] if "m" in op and not op["keep"] else []:
                mine.pop(h, None)
            if op["op"] == "drop":
                del mine[op["h"]]
            if op["op"] == "convert":
                mine[op["h"]] = CONVERT[mine[op["h"]]][op["to"]]
            if op["op"] in ("join", "dropchild"):
                del mine["C" + op["child"]]
            a = self.actor_op(p, l, op)
            seq = sim.issue(p, a, l)
            self.pending[(p, l)] = (seq, op)
        elif ev == "ret":
            if (p, l) not in self.pending:
                return True
            sim.settle(lambda: (p, l) not in self.pending or sim.procs[p].eof)
            if (p, l) in self.pending:
                if sim.procs[p].eof:
                    return p in self.dying and self.note_dead(p)
                # It takes longer than in the generated behaviour, or for ever: whether it may do
                # that is for the specification to decide.
                seq, op = self.pending[(p, l)]
                self.notes.append(f"did not wait for {op['op']}")
        elif ev == "hello":
            if p not in self.has and not any(o["op"] == "spawn" and o["child"] == p for _, o in self.pending.values()):
                return True
            if not sim.until(lambda: p in sim.procs):
                self.add({"ev": "no start", "p": p, "err": sim.stderr()[-500:]})
                return False
        elif ev == "cancel":
            if (p, l) in self.pending:
                seq, op = self.pending[(p, l)]
                if op["canc"] == "tok":
                    self.add({"ev": "cancel", "p": p, "l": l})
                    sim.tell(p, {"op": "cancel", "token": f"{p}.{l}.{seq}"})
        elif ev == "release":
            self.release(p, l)
        elif ev == "die":
            if p in sim.procs and p not in self.noted:
                self.dying.add(p)
                self.add({"ev": "die", "p": p})
                sim.tell(p, {"op": "die"})
        elif ev == "dead":
            if p in sim.procs and p in self.dying:
                return self.note_dead(p)
        return True


def run_one(args):
    """(index, generated behaviour, options) -> (index, trace, whether
    it could not be replayed to its end, notes)"""
    i, hist, opts = args
    try:
        r = Replay(hist, seed=i, **opts).run()
        return i, r.trace, r.broken, r.notes
    except HarnessError as e:
        return i, [], True, [str(e)]
