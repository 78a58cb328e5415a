"""Part: exhaustive model checking of the specifications themselves."""

WORLD = """SPECIFICATION Spec
CONSTANTS Budget = {b}
 Ops = {{{ops}}}
 Big = {{{big}}}
 Carry = {{{carry}}}
 {extra}
INVARIANTS Delivery EndOfStream Unique Types Progress
CHECK_DEADLOCK FALSE
"""


def world(b, ops, big, carry, extra=""):
    return WORLD.format(b=b, ops=", ".join(f'"{o}"' for o in ops.split()), big=big, carry=carry, extra=extra)


TRANSPORT = """SPECIFICATION Spec
CONSTANTS Size <- Sizes
 Cap = {cap}
 Faults = {{{faults}}}
 MaxFaults = {n}
 Markers = {m}
 ShutWrite = {w}
 ShutRead = {r}
 Retry = {t}
 Checked = {c}
INVARIANTS Whole Ordered NoneIsLast Complete OnlySignals Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def transport(faults, n, cap=2, m="TRUE", w="TRUE", r="TRUE", t="TRUE", c="TRUE"):
    return TRANSPORT.format(faults=", ".join(f'"{f}"' for f in faults.split()), n=n, cap=cap, m=m, w=w, r=r, t=t, c=c)


ALL = "signal stopS stopR killS killR limit"


def delivery(ctx):
    deep = 0 if ctx.quick else 1
    ctx.model("model:World", "WorldMC", None, cfg_text=world(4 + deep, "send recv request", "2", "1"))
    ctx.model_fails("model:World", "WorldMC", None, cfg_text=world(4, "send recv", "", "", "Head <- AnyHead"))
    ctx.model("model:Transport", "Transport", None, cfg_text=transport("", 0))


def endofstream(ctx):
    deep = 0 if ctx.quick else 2
    ctx.model("model:World", "WorldMC", None, cfg_text=world(4 + deep, "send recv drop", "", "1"))
    for k in ("AtEnd <- EarlyEnd", "AtEnd <- NeverEnd", "SendBad <- NeverBad"):
        ctx.model_fails("model:World", "WorldMC", None, cfg_text=world(3, "send recv drop", "", "", k))


def interrupted(ctx):
    deep = 0 if ctx.quick else 1
    ctx.model("model:World", "WorldMC", None, cfg_text=world(3 + deep, "send recv cancel kill", "1, 2", ""))
    ctx.model("model:Transport", "Transport", None, cfg_text=transport(ALL, 2 + deep))
    ctx.model("model:Transport", "Transport", None, cfg_text=transport("signal", 3))
    ctx.model_fails("model:Transport", "Transport", None, cfg_text=transport(ALL, 2, m="FALSE"))
    ctx.model_fails("model:Transport", "Transport", None, cfg_text=transport("signal", 1, t="FALSE"))
    ctx.model_fails("model:Transport", "Transport", None, cfg_text=transport("limit", 1, c="FALSE"))


def moves(ctx):
    deep = 0 if ctx.quick else 1
    ctx.model("model:World", "WorldMC", None, cfg_text=world(3 + deep, "send recv request drop", "2", "1, 2, 3"))


LIFE = """SPECIFICATION {sp}
CONSTANTS Budget = {b}
 Fns = {{{f}}}
 Ends = {{{e}}}
 Faults = {{{x}}}
 {extra}
INVARIANT Inv
{pr}
CHECK_DEADLOCK FALSE
"""


def life(b, fns, ends, faults, extra="", fair=False):
    q = lambda s: ", ".join(f'"{i}"' for i in s.split())
    return LIFE.format(b=b, f=q(fns), e=q(ends), x=q(faults), extra=extra,
                       sp="Fair" if fair else "Spec", pr="PROPERTY Answered" if fair else "")


KILL = """SPECIFICATION Spec
CONSTANTS Killers = {{{ks}}}
 Locked = {l}
 Mark = "{m}"
 Guarded = {g}
INVARIANTS Innocent Aimed Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def kill(ks="k1, k2", l="TRUE", m="before", g="TRUE"):
    return KILL.format(ks=ks, l=l, m=m, g=g)


def outcomes(ctx):
    ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return huge exit0 panic", "send"))
    if not ctx.quick:
        ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m b_u", "return huge atexit cut exit0 exit7 panic", "send cut"))
    for k in ("Outcome <- Trusting", "Outcome <- Hopeful"):
        ctx.model_fails("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return exit0 atexit", "", k))


def reaping(ctx):
    ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return huge", "", fair=True))
    if not ctx.quick:
        ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(3, "b_m", "return", "", fair=False))
    ctx.model_fails("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return", "", "Reaped <- Unreaped"))


def killing(ctx):
    ctx.model("model:KillRace", "KillRace", None, cfg_text=kill())
    ctx.model("model:KillRace", "KillRace", None, cfg_text=kill(m="after"))
    ctx.model("model:KillRace", "KillRace", None, cfg_text=kill(ks="k1, k2, k3" if ctx.quick else "k1, k2, k3, k4"))
    for k in (dict(l="FALSE"), dict(m="never"), dict(m="after", g="FALSE")):
        ctx.model_fails("model:KillRace", "KillRace", None, cfg_text=kill(**k))
    ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return exit0", ""))


def starting(ctx):
    ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m b_u", "return panic", "send" if ctx.quick else "send cut"))


def failures(ctx):
    ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return exit0", "send cut"))
    if not ctx.quick:
        ctx.model("model:Lifecycle", "LifecycleMC", None, cfg_text=life(3, "b_m", "return", "send"))
    ctx.model_fails("model:Lifecycle", "LifecycleMC", None, cfg_text=life(2, "b_m", "return", "send", "Reaped <- Unreaped"))


CODEC = """INIT Init
NEXT Next
CONSTANTS N = {n}
 Roots = {r}
 What = "{w}"
 PostOrder = {p}
 Types <- MCTypes
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
"""


def codec_cfg(w, n=2, r=2, p="FALSE"):
    return CODEC.format(w=w, n=n, r=r, p=p)


def codec(ctx):
    ctx.model("model:Codec", "CodecMC", None, cfg_text=codec_cfg("values"))
    ctx.model("model:Codec", "CodecMC", None, cfg_text=codec_cfg("graphs", 3, 2))


def codec_sharing(ctx):
    ctx.model("model:Codec", "CodecMC", None, cfg_text=codec_cfg("graphs", 3, 2))
    ctx.model("model:Codec", "CodecMC", None, cfg_text=codec_cfg("boundary", 2, 2))
    ctx.model_fails("model:Codec", "CodecMC", None, cfg_text=codec_cfg("graphs", 3, 2, "TRUE"))


def codec_delayed(ctx):
    ctx.model("model:Codec", "CodecMC", None, cfg_text=codec_cfg("values"))
    ctx.model("model:Codec", "CodecMC", None, cfg_text=codec_cfg("boundary", 2, 2 if ctx.quick else 3))
