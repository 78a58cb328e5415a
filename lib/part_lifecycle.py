"""Part: random lives of processes (Lifecycle), replayed and validated."""
import profiles, lifecycle
from part_world import replay_all


def run(ctx, name, n, key=""):
    part = "lifecycle:" + name
    prof = getattr(profiles, name)(ctx.rng("profile", name, key))
    scen = ctx.generate(part, "LifecycleGen", "LifecycleGen.cfg", n, prof, key=key)
    return replay_all(ctx, part, lifecycle.run_one, scen, {"eintr": prof["eintr"]}, "LifecycleTrace")
