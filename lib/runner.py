"""What every check shares: budget, statistics, verdicts and evidence."""
import json, os, random, re, shutil, signal, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool, TimeoutError as MultiTimeout
import cm
from cm import VERIF, WORK, HarnessError
from tlc import tlc, check_ok, Timeout
import known

JOBS = os.cpu_count() or 4


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.monotonic()
        self.states = self.transitions = self.traces = 0
        self.parts = {}        # statistics per part
        self.samples = []
        self.violations = []   # (part, description, path)
        self.findings = []     # known findings that occurred
        self.assumptions = []

    def rng(self, *key):
        return random.Random(f"{self.seed}/{self.prop}/{'/'.join(map(str, key))}")

    def elapsed(self):
        return time.monotonic() - self.t0

    def log(self, msg):
        print(f"[{self.elapsed():6.1f}s] {msg}", flush=True)

    def count(self, part, r=None, **kw):
        d = self.parts.setdefault(part, {})
        if r is not None:
            self.states += r.distinct
            self.transitions += r.generated
            kw = dict(kw, states=r.distinct, transitions=r.generated)
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v if isinstance(v, (int, float)) else v
        self.traces += kw.get("traces", 0)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, part, what, data):
        """A behaviour of the real code that the specification does not have."""
        k = known.match(self.prop, part, data)
        if k:
            if k not in self.findings:
                self.findings.append(k)
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "part": part, "what": what, "data": data}, f, indent=1)
        self.violations.append((part, what, path))
        self.log(f"{part}: {what}")

    # ------------------------------------------------------------ parts
    def model(self, part, module, cfg=None, env=None, args=(), **kw):
        """Exhaustive check of a specification: it must hold, whatever the code does."""
        r = check_ok(tlc(module, cfg, env, args, **kw), f"{module} with {cfg}")
        self.count(part, r, depth=r.depth)
        self.log(f"{part}: {r.distinct} states, {r.generated} transitions")
        return r

    def model_fails(self, part, module, cfg=None, env=None, args=(), expect="violated", **kw):
        """The specification without a protection: the invariants must notice."""
        r = tlc(module, cfg, env, args, **kw)
        if expect not in r.out:
            raise HarnessError(f"{module} with {cfg}: expected '{expect}':\n" + r.out[-3000:])
        self.count(part, None, weakened_models_rejected=1)
        return r

    def validate(self, part, module, cfg, traces, env=None, **kw):
        """Check recorded traces against a specification; returns the indices of rejected ones and
        how far each got."""
        if not traces:
            return {}
        d = tempfile.mkdtemp(prefix="val", dir=WORK)
        try:
            f = os.path.join(d, "traces.ndjson")
            with open(f, "w") as fh:
                for t in traces:
                    fh.write(json.dumps(t) + "\n")
            try:
                r = tlc(module, cfg, dict(env or {}, TRACES=f), **dict(dict(timeout=240), **kw))
            except Timeout:
                # Some behaviour has too many explanations: leave it out.
                if len(traces) == 1:
                    self.log(f"{part}: a trace could not be decided in time")
                    self.count(part, None, traces_undecided=1)
                    return {}
                bad, step = {}, (len(traces) + 7) // 8
                for lo in range(0, len(traces), step):
                    for k, v in self.validate(part, module, cfg, traces[lo:lo + step], env, **dict(kw, timeout=30)).items():
                        bad[lo + k] = v
                return bad
            acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', r.out)}
            if "Error:" in r.out or r.rc != 0:
                # Evaluation errors come from malformed traces: find the culprits one by one.
                if len(traces) == 1:
                    return {0: "the specification cannot make sense of it: " + r.out[-1500:]}
                bad = {}
                half = len(traces) // 2
                for lo, part_ in ((0, traces[:half]), (half, traces[half:])):
                    for k, v in self.validate(part, module, cfg, part_, env, **kw).items():
                        bad[lo + k] = v
                return bad
            self.count(part, r, traces=len(traces))
            bad = {}
            rej = [k for k in range(len(traces)) if k + 1 not in acc]
            for k in rej[:4]:
                with open(f, "w") as fh:
                    fh.write(json.dumps(traces[k]) + "\n")
                v = tlc(module, cfg, dict(env or {}, TRACES=f, VERBOSE=1), **kw)
                at = max([int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', v.out)] or [0])
                bad[k] = f"stops at event {at + 1} of {len(traces[k])}: " + json.dumps(
                    traces[k][at] if at < len(traces[k]) else None)[:600]
            for k in rej[4:]:
                bad[k] = "rejected"
            return bad
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def generate(self, part, module, cfg, n, profile, jobs=JOBS, depth=600, key="", timeout=300, env=None):
        """Random behaviours of a generator specification."""
        d = tempfile.mkdtemp(prefix="gen", dir=WORK)
        try:
            f = os.path.join(d, "profile.json")
            with open(f, "w") as fh:
                json.dump(profile, fh)
            rng = self.rng("gen", part, key)
            seeds = [rng.randrange(1 << 40) for _ in range(jobs)]

            def one(s):
                return check_ok(tlc(module, cfg, dict(env or {}, PROFILE=f),
                                    ["-simulate", f"num={max(1, n // jobs)}", "-depth", str(depth), "-seed", str(s)],
                                    workers=1, heap="2g", timeout=timeout), module)
            with ThreadPoolExecutor(jobs) as ex:
                rs = list(ex.map(one, seeds))
            seen = {}
            for r in rs:
                self.count(part, None, generator_states=r.generated)
                for s in r.printed("SCENARIO"):
                    seen.setdefault(json.dumps(s, sort_keys=True), s)
            return list(seen.values())
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def finish(self, level="model_checking"):
        for d in self.parts.values():
            for k in [k for k in d if k.startswith("_")]:
                del d[k]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                         "parts": self.parts},
            "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for part, what, path in self.violations[:10]:
            print(f"VIOLATION property={self.prop} replay={path}  ({part}: {what[:300]})")
        return 1 if self.violations else 0


def _worker(init, args):
    # Leave through "finally" when stopped.
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(1))
    if init:
        init(*args)


def pool_map(f, items, jobs=JOBS, limit=150, init=None, args=()):
    """Results of f, by their first element; only those available in time if something hangs."""
    if not items:
        return []
    res, end = [], time.monotonic() + limit
    with Pool(min(jobs, len(items)), _worker, (init, args)) as p:
        it = p.imap_unordered(f, items)
        try:
            for _ in items:
                res.append(it.next(timeout=max(1, end - time.monotonic())))
        except MultiTimeout:
            pass
    return sorted(res, key=lambda x: x[0])
