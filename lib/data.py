"""Values: prepares the table of types, runs scripts of DataGen and compares what is seen with what must be."""
import json, os, shutil, subprocess, tempfile
from cm import WORK, TARGET, HarnessError

DATA = os.path.join(TARGET, "debug", "data")
SMALL = {"bool", "char", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "()"}
INF = 99


def table(binary=DATA):
    """The types of the harness, with what the generator needs to know about them."""
    p = subprocess.run([binary, "--types"], stdout=subprocess.PIPE, timeout=60)
    if p.returncode != 0:
        raise HarnessError("the data harness does not list its types")
    j = json.loads(p.stdout)
    ts = j["types"]
    n = len(ts)
    # Height of the smallest value
    h = [INF] * n
    alt = [None] * n
    for _ in range(n):
        changed = False
        for i, t in enumerate(ts):
            k = t["k"]
            if k == "leaf":
                v = 0 if t["n"] else INF
            elif k in ("seq", "set", "bag", "map", "handle", "fn", "clo"):
                v = 0
            else:
                hs = [max([h[x - 1] for x in a], default=0) for a in t["a"]]
                v = min(INF, min(hs) + 1)
                if k == "sum" and v < INF:
                    alt[i] = hs.index(min(hs))
            if v < h[i]:
                h[i] = v
                changed = True
        if not changed:
            break
    flat = [t["k"] not in ("handle", "rc", "delayed") for t in ts]
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(ts):
            if flat[i] and not all(flat[x - 1] for a in t["a"] for x in a):
                flat[i] = False
                changed = True
    small = [t["k"] == "leaf" and t["name"] in SMALL for t in ts]
    for _ in range(3):
        small = [s or (t["k"] == "tuple" and all(small[x - 1] for a in t["a"] for x in a)) for s, t in zip(small, ts)]
    for i, t in enumerate(ts):
        t.update(h=h[i], f=flat[i], sm=small[i], b=alt[i] or 0, sp=t.get("sp", False),
                 ok=[m for m, a in enumerate(t["a"]) if all(h[x - 1] < INF for x in a)] if t["k"] == "sum" else [])
        t.setdefault("r", 0)
        t.setdefault("w", t["n"])
    of = [0] * n
    for i, e in enumerate(j["top"]):
        of[e["t"] - 1] = i + 1
    j["of"] = of
    return j


class Canon:
    """Values in a form in which equal ones are the same."""

    def __init__(self, types):
        self.types = types

    def key(self, t, v):
        # Elements of sets and keys of maps contain nothing that is shared.
        return json.dumps(self.one(t, v, {}))

    def all(self, ts, vs):
        ids = {}
        return [self.one(t, v, ids) for t, v in zip(ts, vs)]

    def one(self, t, v, ids):
        ty = self.types[t - 1]
        k, n, c = ty["k"], v["n"], v["c"]
        if k == "leaf" and n < 0:
            return ["?", v.get("is", "")]
        if k in ("leaf", "fn", "handle"):
            return n
        if k == "clo":
            return 0
        if k == "delayed":
            return "delayed"
        if k in ("seq", "set", "bag"):
            e = ty["a"][0][0]
            if k == "seq":
                n = max(1, n)
                r = [self.one(e, x, ids) for x in c]
                return r * n
            return sorted((self.one(e, x, ids) for x in c), key=json.dumps)
        if k == "map":
            kt, vt = ty["a"][0]
            ps = sorted(((self.one(kt, x["c"][0], ids), x["c"][1]) for x in c), key=lambda p: json.dumps(p[0]))
            return [[a, self.one(vt, b, ids)] for a, b in ps]
        if k == "rc":
            if n in ids:
                return ["rc", ids[n]]
            ids[n] = len(ids)
            return ["rc", ids[n], self.one(ty["a"][0][0], c[0], ids)]
        parts = ty["a"][0] if k == "tuple" else ty["a"][n] if 0 <= n < len(ty["a"]) else []
        if len(parts) != len(c):
            return ["?", n, len(c)]
        return [n] + [self.one(p, x, ids) for p, x in zip(parts, c)]


def kind_runs(hist, canon, tab, timeout=60):
    """Runs a history; returns None or a description of what is wrong."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="d", dir=WORK)
    try:
        path = os.path.join(d, "script.json")
        steps = []
        for e in hist:
            s = {k: v for k, v in e.items() if k not in ("x", "r", "fds")}
            if "ty" in s:
                s["ty"] = [y - 1 for y in s["ty"]]
            steps.append(s)
        with open(path, "w") as f:
            json.dump({"path": path, "steps": steps}, f)
        err = os.path.join(d, "stderr")
        with open(err, "w") as ef:
            p = subprocess.Popen([DATA, path], stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
                                 env=dict(os.environ, CMH_DIR=d, RUST_BACKTRACE="0"), cwd=d, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        msg = open(err, errors="replace").read()
        if "HARNESS:" in msg:
            raise HarnessError("data harness: " + msg[-2000:])
        seen = {}
        for n in os.listdir(d):
            if n.startswith("out"):
                for line in open(os.path.join(d, n), errors="replace"):
                    try:
                        j = json.loads(line)
                    except ValueError:
                        continue
                    seen[j["i"]] = j
        for i, e in enumerate(hist, 1):
            s = seen.get(i)
            what = f"step {i} ({e['op']} in process {e['p']})"
            if s is None:
                tail = msg.strip()[-300:]
                return f"{what} {'did not end' if rc is None else 'was not done'}: {tail}", brief(e)
            if s.get("err") or "panic" in s:
                return f"{what} failed: {s.get('err') or s.get('panic')}", brief(e)
            if e["op"] == "ret":
                continue
            if "x" in e:
                exp = canon.all([x["t"] for x in e["x"]], [x["v"] for x in e["x"]])
                got = canon.all([x["t"] for x in e["x"]], s["obs"]) if len(s.get("obs", [])) == len(e["x"]) else None
                names = [canon.types[x["t"] - 1]["name"] for x in e["x"]]
                if got is None or exp != got:
                    k = next((k for k in range(len(exp)) if got is None or exp[k] != got[k]), 0)
                    return (f"{what}: a value of type {names[k]} is {json.dumps(got[k] if got else got)[:200]} "
                            f"instead of {json.dumps(exp[k])[:200]}"), brief(e)
            if "r" in e and e["r"] != s.get("res"):
                return f"{what}: returned {s.get('res')} instead of {e['r']}", brief(e)
            if e["op"] == "direct" and not s.get("all"):
                return f"{what}: not everything written was read", brief(e)
            if s["fds"] != e["fds"]:
                return f"{what}: {s['fds']} descriptors instead of {e['fds']}", brief(e)
        if rc != 0:
            return f"the program ended with {rc}: {msg.strip()[-300:]}", {}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def brief(e):
    return {k: v for k, v in e.items() if k not in ("x", "v")}


TAB = CANON = None


def init(path):
    global TAB, CANON
    with open(path) as f:
        TAB = json.load(f)
    CANON = Canon(TAB["types"])


def run_one(a):
    i, hist = a
    bad = kind_runs(hist, CANON, TAB)
    if bad and "did not end" in bad[0]:
        # Once more with a lot of time: the machine may be busy.
        bad = kind_runs(hist, CANON, TAB, 180)
    return i, bad
