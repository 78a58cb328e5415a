"""What kinds of World scenarios to generate for each property."""
import random

B_ELS = ["B0", "B1", "B16375", "B16382", "B16383", "B16385", "B32766", "B32767", "B32768", "B40000",
         "B49149", "B49150", "P", "W", "U", "S", "R"]
BASE = dict(pace=10, rare=4, procs=4, chans=4, items=3, files=3, unixes=2, rts=["b", "t", "s"], lanes=["main", "l1"], fns=["b", "t", "s"], els=["M"], crowds=[3], tasks="",
            lens=[0, 1, 100, 16359, 16360, 33000, 50000, 300000], steps=60, eintr=0.1)
ALL = dict(channel=2, send=6, recv=5, request=1, cancel=2, drop=1, convert=1, file=1, seek=1, unix=1, desc=1, use=1, fds=1,
           spawn=1, kill=1, exit=1, join=1, dropchild=1, keep=1, limit=1, killin=1)
ALL["return"] = 1


def prof(w, **kw):
    return dict(BASE, w=w, **kw)


def boundary_lens(rng):
    """Sizes around packet boundaries, whatever the exact overhead is."""
    v = [0, 1, 7, 100, rng.randrange(2, 16000)]
    v += [rng.randrange(16330, 16390) for _ in range(3)] + [rng.randrange(32640, 32790) for _ in range(2)]
    v += [rng.choice([49100, 65536, 70000, 150000, 300000, 1000000])]
    return v


def mixed(rng):
    return prof(dict(ALL))


def delivery(rng):
    return prof(dict(channel=2, send=8, recv=7, request=2, file=1, keep=1, spawn=1, convert=1, drop=0, crowd=1),
                els=["M", "M"] + rng.sample(B_ELS, 4), lens=boundary_lens(rng), chans=3, procs=3,
                crowds=[rng.randrange(4, 250), 253, rng.randrange(250, 258), rng.choice([300, 506, 507, 600])], steps=50)


def endofstream(rng):
    return prof(dict(channel=3, send=5, recv=6, request=2, drop=4, spawn=1, kill=1, exit=1, join=1, convert=1, keep=1,
                     **{"return": 1}),
                lens=[0, 10, 16360, 40000, 300000], chans=5, procs=5)


def interrupted(rng):
    return prof(dict(channel=3, send=8, recv=7, cancel=4, killin=1, spawn=2, kill=1, limit=3, file=1, crowd=1, keep=1,
                     drop=1, request=1),
                lens=[10, 16400, 33000, 50000, 100000, 300000], chans=4, procs=5,
                rts=rng.choice([["b", "t", "s"], ["t", "s"]]), crowds=[5, 300, 550], eintr=0.4)


def shortage(rng):
    """Values with handles received by processes that have no room for them"""
    return prof(dict(channel=2, send=9, recv=4, file=2, unix=1, limit=12, crowd=1, spawn=1, fds=1, keep=2, desc=1),
                lens=[0, 10, 100], crowds=[2, 3, 5, 17, 252, 254, 300], files=4, chans=4, steps=50, lanes=["main"])


def handles(rng):
    return prof(dict(channel=1, send=6, recv=6, request=1, file=2, seek=2, unix=2, desc=3, use=6, spawn=1, join=1, keep=1,
                     drop=1, crowd=1, **{"return": 1}), els=["M", "M", "M", "P", "W"], crowds=[4, 17, 252, 254, 300],
                files=4, unixes=3)


def leaks(rng):
    return prof(dict(channel=2, send=4, recv=4, file=2, unix=1, fds=6, spawn=3, pause=1, join=3, drop=2, kill=1, exit=1, dropchild=1,
                     cancel=1, limit=3, keep=1, **{"return": 2}), procs=6, chans=3, lens=[0, 10, 40000])


def ends(rng):
    return prof(dict(channel=2, send=7, recv=7, convert=6, request=2, spawn=1, join=1, keep=1, desc=1, cancel=1,
                     **{"return": 1}), els=["M", "M", "P", "W"], lens=boundary_lens(rng), chans=3)


def children(rng):
    return prof(dict(spawn=6, join=5, kill=1, exit=1, channel=1, send=3, recv=3, file=1, fds=1, **{"return": 4}),
                procs=9, chans=2, lanes=["main", "l1", "l2", "l3"], lens=[0, 10, 16360, 40000], steps=60)


def tasks(rng):
    """All lanes of a process are tasks of one thread."""
    rts = rng.choice([["t", "s"], ["t", "s"], ["t"], ["s"]])
    return prof(dict(channel=3, send=8, recv=8, request=4, cancel=1, drop=1, convert=1, file=1, spawn=3, join=2, wait=1, keep=1, kill=1,
                     **{"return": 2}),
                rts=rts, fns=["b"] + rts, tasks=rng.choice(rts), lens=[0, 10, 16360, 40000, 150000, 300000, 1000000],
                lanes=["main", "l1", "l2", "l3"], procs=4, chans=4, steps=60, eintr=0.2)


# ---------------------------------------------------------------- Lifecycle
def result_lens(rng):
    """Either certain to fit into the socket or certain not to"""
    return [x for x in boundary_lens(rng) if x < 80000] + [300000, 1000000]


LBASE = dict(pace=4, kids=6, lanes=["main", "l1", "l2"], types=["m", "m", "u", "w", "s", "r", "e", "z", "g"], steps=40,
             arglens=[0, 10, 16300, 40000], lens=[0, 10, 16300, 40000, 300000], eintr=0.2)
LALL = dict(spawn=5, run=1, join=3, kill=2, forget=1, look=2, hot=1, end=6, die=1, fault=1, hold=1, canceljoin=1)


def lprof(w, **kw):
    return dict(LBASE, w=w, **kw)


def lmixed(rng):
    return lprof(dict(LALL))


def outcomes(rng):
    """Every way to end, for every type of result"""
    return lprof(dict(spawn=5, run=2, join=4, end=10, die=1, hot=1, kill=1, canceljoin=1),
                 lens=result_lens(rng), types=["m", "u", "w", "s", "r", "e", "z", "g"], steps=36, arglens=[0, 10])


def reaping(rng):
    return lprof(dict(spawn=4, run=1, join=4, end=6, die=2, look=5, hot=1, kill=1, hold=1, canceljoin=1), eintr=0.5,
                 arglens=[0, 10], kids=7)


def killing(rng):
    return lprof(dict(spawn=4, join=6, end=4, kill=12, hold=1, look=1, die=1, forget=1, hot=1),
                 lanes=["main", "l1", "l2", "l3"], arglens=[0, 10], lens=[0, 300000], kids=4, steps=44)


def starting(rng):
    return lprof(dict(spawn=8, run=3, join=4, end=6, fault=1, hot=1, hold=1, look=1), kids=9, arglens=boundary_lens(rng),
                 lens=[0, 10], lanes=["main", "l1", "l2", "l3"], eintr=0.4)


def failures(rng):
    return lprof(dict(spawn=2, run=1, join=2, end=2, fault=8, hot=2, look=8, kill=1, die=1), kids=12,
                 arglens=[0, 10, 16384, 40000, 300000], lens=[0, 10], steps=50)


# ---------------------------------------------------------------- Data
def values(rng):
    """Values of any type"""
    return dict(build=4, direct=3, spawn=2, send=3, apply=1, undelay=1, split=1, call=1, look=1, drop=2), dict()


def sharing(rng):
    return (dict(build=4, direct=4, spawn=2, send=3, apply=1, undelay=1, split=2, look=1, drop=2),
            dict(groups=("shared", "derived", "object"), fuel=rng.choice([14, 24, 34])))


def functions(rng):
    return dict(build=4, direct=3, spawn=3, send=4, call=9, look=1, drop=2), dict(groups=("call",), steps=40)


def static(rng):
    return (dict(build=4, direct=2, spawn=4, send=5, apply=1, call=3, split=1, look=2, drop=2),
            dict(groups=("static", "object", "call"), procs=6, steps=36))


def delayed(rng):
    return (dict(build=3, direct=2, spawn=4, send=4, apply=1, undelay=8, split=4, look=1, drop=3),
            dict(groups=("delayed", "file"), steps=34))
