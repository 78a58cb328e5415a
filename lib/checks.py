"""Which parts decide which property."""
import part_data, part_lifecycle, part_models, part_world


def check(*parts):
    """parts: ("model", function) | ("world" | "lifecycle", profile, number of scenarios)"""
    RUN = {"world": part_world.run, "lifecycle": part_lifecycle.run, "data": part_data.run}
    REPEAT = {"world": 800, "lifecycle": 400, "data": 400}

    def f(ctx):
        random = []
        for p in parts:
            # One violation is enough.
            if ctx.violations:
                return
            if p[0] == "model":
                p[1](ctx)
            else:
                RUN[p[0]](ctx, p[1], p[2])
                random.append(p)
        k = 0
        while not ctx.quick and random and ctx.elapsed() < 600 and not ctx.violations:
            k += 1
            kind, name, _ = random[k % len(random)]
            RUN[kind](ctx, name, REPEAT[kind], key=k)
    return f


CHECKS = {
    "C01": check(("model", part_models.delivery), ("world", "delivery", 400)),
    "C02": check(("model", part_models.endofstream), ("world", "endofstream", 400)),
    "C03": check(("model", part_models.interrupted), ("world", "interrupted", 400), ("world", "shortage", 240)),
    "C04": check(("model", part_models.moves), ("world", "handles", 480), ("world", "shortage", 160)),
    "C05": check(("world", "leaks", 480), ("world", "shortage", 240)),
    "C06": check(("model", part_models.outcomes), ("lifecycle", "outcomes", 480)),
    "C07": check(("model", part_models.reaping), ("lifecycle", "reaping", 320)),
    "C08": check(("model", part_models.killing), ("lifecycle", "killing", 200)),
    "C09": check(("model", part_models.starting), ("lifecycle", "starting", 320)),
    "C10": check(("model", part_models.codec), ("data", "values", 480)),
    "C11": check(("model", part_models.codec_sharing), ("model", part_data.graphs), ("model", part_data.custom), ("data", "sharing", 320)),
    "C12": check(("model", part_models.failures), ("lifecycle", "failures", 280)),
    "C13": check(("data", "functions", 640)),
    "C14": check(("data", "static", 400)),
    "C15": check(("model", part_models.codec_delayed), ("data", "delayed", 320)),
    "C16": check(("world", "tasks", 480)),
    "C17": check(("world", "children", 400), ("lifecycle", "lmixed", 160)),
    "C18": check(("model", part_models.moves), ("world", "ends", 480)),
}

TECHNIQUE = {}
NOTES = {}
