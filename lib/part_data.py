"""Part: random histories of values (DataGen), replayed in the data harness."""
import json, os, tempfile
import data, profiles
from cm import WORK, HarnessError
from runner import pool_map


def prepared(ctx):
    if not hasattr(ctx, "data_table"):
        os.makedirs(WORK, exist_ok=True)
        ctx.data_table = data.table()
        fd, ctx.data_file = tempfile.mkstemp(prefix="types", dir=WORK)
        with os.fdopen(fd, "w") as f:
            f.write(json.dumps(ctx.data_table))
    return ctx.data_table, ctx.data_file


def tops(tab, groups=None, kinds=None, but=("CDag",)):
    """Types to pass around, by group or by kinds that occur in them."""
    r = []
    for i, e in enumerate(tab["top"], 1):
        ty = tab["types"][e["t"] - 1]
        if ty["h"] < data.INF and (groups is None or e["g"] in groups) and not any(b in e["name"] for b in but):
            r.append(i)
    return r


def run(ctx, name, n, key=""):
    part = "data:" + name
    tab, path = prepared(ctx)
    w, opts = getattr(profiles, name)(ctx.rng("profile", name, key))
    prof = dict(dict(steps=26, procs=4, slots=12, fuel=16), **opts, w=w, tops=tops(tab, opts.pop("groups", None)))
    scen = ctx.generate(part, "DataGen", "DataGen.cfg", n, prof, key=key, env={"TYPES": path})
    execute(ctx, part, scen)


def execute(ctx, part, scen, key=None):
    tab, path = prepared(ctx)
    res = pool_map(data.run_one, list(enumerate(scen)), init=data.init, args=(path,))
    ops, types = {}, set(ctx.parts.get(part, {}).get("_types", ()))
    for h in scen:
        for e in h:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            for x in e.get("x", ()):
                types.add(x["t"])
    d = ctx.parts.setdefault(part, {})
    for k, v in ops.items():
        d.setdefault("steps", {})
        d["steps"][k] = d["steps"].get(k, 0) + v
    d["_types"] = types
    d["types"] = len(types)
    ctx.count(part, None, traces=len(res), checked_steps=sum(ops.values()))
    bad = [(i, b) for i, b in res if b]
    ctx.log(f"{part}: {len(scen)} histories, {sum(ops.values())} steps, {len(types)} types, {len(bad)} rejected")
    for i, b in res:
        if not b:
            ctx.sample({"part": part, "history": [data.brief(e) for e in scen[i][:8]]}, 2)
    for i, (what, e) in bad:
        ctx.violation(part, what, {"history": scen[i], "step": e, "key": key(scen[i]) if key else ""})


def top_index(tab, name):
    return next(i for i, e in enumerate(tab["top"], 1) if e["name"].endswith(name))


def graphs(ctx):
    """Every arrangement of a few shared objects, read back by the real code."""
    import part_models
    from tlc import tlc, check_ok
    part = "data:graphs"
    tab, _ = prepared(ctx)
    dag = top_index(tab, "::Dag")
    t = tab["top"][dag - 1]["t"]
    r = check_ok(tlc("CodecMC", None, {"PRINT": "1"}, cfg_text=part_models.codec_cfg("graphs", 3, 2) if ctx.quick else
                     part_models.codec_cfg("graphs", 4, 1), timeout=600, heap="12g"), "CodecMC")
    ctx.count(part, r)
    cases = r.printed("SCENARIO")
    hists = []
    per = 60
    for lo in range(0, len(cases), per):
        h = []
        for k, c in enumerate(cases[lo:lo + per]):
            # Through the serializer, and some of them through a process.
            x = [{"t": t, "v": v} for v in c["x"]]
            h.append({"p": 1, "op": "build", "fds": 0, "ty": [dag], "v": c["v"], "dst": [2 * k], "x": [{"t": t, "v": v} for v in c["v"]]})
            h.append({"p": 1, "op": "direct", "fds": 0, "src": [2 * k], "dst": [2 * k + 1], "x": x})
        ks = [2 * k for k in range(len(h) // 2)]
        xs = [{"t": t, "v": c["x"][0]} for c in cases[lo:lo + per]]
        # Different values share nothing, but are written in one session.
        for k, x in enumerate(xs):
            xs[k] = {"t": t, "v": shift(tab["types"], t, x["v"], 1000 * (k + 1))}
        for k, e in enumerate(h):
            if e["op"] == "build":
                e["v"] = [shift(tab["types"], t, v, 1000 * (k + 1)) for v in e["v"]]
                e["x"] = [{"t": t, "v": v} for v in e["v"]]
        h.append({"p": 1, "op": "spawn", "fds": 0, "q": 2, "src": ks, "rt": ["b", "tokio", "smol"][lo // per % 3], "fn": "b"})
        h.append({"p": 2, "op": "args", "fds": 0, "dst": [5000 + k for k in ks], "x": xs})
        h.append({"p": 2, "op": "ret", "src": [5000 + k for k in ks]})
        h.append({"p": 1, "op": "join", "fds": 0, "q": 2, "dst": [6000 + k for k in ks], "x": xs})
        hists.append(h)
    execute(ctx, part, hists)


def shift(types, t, v, by):
    ty = types[t - 1]
    n = v["n"] + by if ty["k"] == "rc" else v["n"]
    if ty["k"] == "seq":
        ps = [ty["a"][0][0]] * len(v["c"])
    elif ty["k"] == "sum":
        ps = ty["a"][v["n"]]
    else:
        ps = ty["a"][0] if ty["a"] else []
    return {"n": n, "c": [shift(types, p, x, by) for p, x in zip(ps, v["c"])]}


def custom(ctx):
    """The pointer in the documentation of NonTrivialObject, one within another."""
    part = "data:custom"
    tab, _ = prepared(ctx)
    top = top_index(tab, "::CDag")
    t = tab["top"][top - 1]["t"]

    def node(*kids):
        return {"n": 0, "c": [{"n": 1, "c": list(kids)}]}

    def r(i, x):
        return {"n": 0, "c": [{"n": i, "c": [x]}]}

    def c(i, x):
        return {"n": 1, "c": [{"n": i, "c": [x]}]}
    e = node()
    inner = node(r(2, e))
    cases = {"customrc-flat": node(c(1, e), r(2, e), c(1, e), r(2, e), c(3, e), c(3, e)),
             "customrc-nested": node(c(1, inner), r(2, e), c(1, inner))}
    for k, v in cases.items():
        x = [{"t": t, "v": v}]
        execute(ctx, part, [[{"p": 1, "op": "build", "fds": 0, "ty": [top], "v": [v], "dst": [1], "x": x},
                             {"p": 1, "op": "direct", "fds": 0, "src": [1], "dst": [2], "x": x}]], key=lambda h: k)
