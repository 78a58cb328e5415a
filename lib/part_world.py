"""Part: random multi-process scenarios of World, replayed and validated."""
import profiles, world
from cm import HarnessError
from runner import pool_map


def run(ctx, name, n, key=""):
    part = "world:" + name
    prof = getattr(profiles, name)(ctx.rng("profile", name, key))
    scen = ctx.generate(part, "WorldGen", "WorldGen.cfg", n, prof, key=key)
    return replay_all(ctx, part, world.run_one, scen, {"eintr": prof["eintr"], "tasks": prof["tasks"]}, "WorldTrace")


def replay_all(ctx, part, run_one, scen, opts, spec):
    res = pool_map(run_one, [(i, h, opts) for i, h in enumerate(scen)])
    late, broken, traces, ids = len(scen) - len(res), 0, [], []
    for i, tr, cut, notes in res:
        if cut:
            broken += 1
            ctx.log(f"{part}: scenario {i} could not be replayed to its end: {notes[-1:]}")
        if tr:
            traces.append(tr)
            ids.append(i)
    ctx.count(part, None, scenarios_not_replayed=broken, scenarios_out_of_time=late)
    judge(ctx, part, traces, [scen[i] for i in ids], spec)
    if not ctx.violations:
        if late > 0.5 * len(scen):
            raise HarnessError(f"{part}: only {len(res)} of {len(scen)} scenarios ended in time")
        if broken > 0.1 * len(res):
            raise HarnessError(f"{part}: {broken} of {len(res)} scenarios could not be replayed to their end")
    return traces


def judge(ctx, part, traces, scen, spec):
    bad = ctx.validate(part, spec, spec + ".cfg", traces)
    ops = {}
    for t in traces:
        for e in t:
            k = e["ev"] + (":" + e["op"]["op"] if e["ev"] == "call" else ":" + e["res"]["r"] if e["ev"] == "ret" else "")
            ops[k] = ops.get(k, 0) + 1
    old = ctx.parts.setdefault(part, {}).setdefault("events", {})
    for k, v in ops.items():
        old[k] = old.get(k, 0) + v
    ctx.log(f"{part}: {len(traces)} executions, {sum(ops.values())} events, {len(bad)} rejected")
    for k, t in enumerate(traces):
        if k not in bad:
            ctx.sample({"part": part, "trace": t[:12], "events": len(t)}, 2)
    for k, why in bad.items():
        ctx.violation(part, why, {"trace": traces[k], "scenario": scen[k]})
