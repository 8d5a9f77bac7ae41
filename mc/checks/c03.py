"""C03: interleavings of threads sharing objects under a controlled scheduler, against single-threaded fresh objects."""
import itertools
import threading

import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
from jax_cosmo import redshift as rs
from mc import sched
from mc.checks import c02
from mc.checks.c02 import KW, World, leaves
from mc.lib import Bad

BOUNDS = dict(
    quick="two threads: all interleavings (up to commutation) of the accesses to the shared object for all pairs of 10 operations on cosmologies (ODE growth), 5 (growth index) and 5 to 6 on distributions (4 kinds); one preemption at the first and last execution of every library line for 10 ordered pairs (ODE), 6 (growth index), and at every line execution for 3 kinds x 25 (distributions); three threads: all interleavings of accesses of 3 triples",
    thorough="the same at every line execution (every bytecode for distributions) for all ordered pairs, two preemptions at first and last line executions for 4 pairs, three threads on all triples of 4 operations",
)
ASSUMPTIONS = [
    "threads switch only where the library executes Python code (lines, or accesses to the shared object); the JAX runtime below is trusted",
    "a schedule in which a thread waits for a lock of JAX held by a paused thread runs on uncontrolled and is counted as such",
]
OPS = {k: c02.CORE[k] for k in ("chi", "chi_lo", "chi_few", "inv", "growth", "rate", "trans", "other", "jit_chi")}
OPS["angular"] = c02.MORE["angular"]
NZ = {k: c02.NZ[k] for k in ("call", "scalar", "vmap", "child", "other", "kernel")}
NZ["density"] = lambda w: (w.z.gals_per_steradian, w.z.zmax)
LINES = [("chi", "chi"), ("chi", "inv"), ("inv", "chi"), ("chi", "chi_few"), ("growth", "growth"), ("growth", "rate"), ("rate", "growth"), ("chi", "growth"), ("growth", "chi"), ("trans", "other")]
GLINES = [("growth", "growth"), ("growth", "rate"), ("growth", "chi"), ("chi", "growth"), ("growth", "other"), ("rate", "growth")]


class Shared(World):
    """A world whose cosmology or distribution yields at every access."""

    def __init__(self, written=(), hook=True, **k):
        self._written, self._hook = written, hook
        super().__init__(**k)

    def _make_c(self):
        if not self._hook:
            return super()._make_c()
        c = sched.hooked(jc.Cosmology, self._written)(gamma=self.gamma, **KW)
        return c

    def _make_z(self):
        if not self._hook:
            return super()._make_z()
        H = lambda cls: sched.hooked(cls, self._written)
        k = self.kind
        if k == "smail":
            return H(rs.smail_nz)(1.2, 2.0, 0.8, zmax=5.0)
        if k == "kde":
            return H(rs.kde_nz)(jnp.array([0.3, 0.8, 1.4]), jnp.array([1.0, 0.5, 0.25]), bw=0.2, zmax=4.0)
        if k == "shift":
            return H(rs.systematic_shift)(self.p, 0.15, zmax=6.0)
        return H(rs.delta_nz)(0.8)


def shards(tier):
    out = []
    if tier == "thorough":
        out += ["line2:ode:%d" % i for i in range(4)]
    out += ["line:ode:%d" % i for i in range(8)] + ["line:gamma:%d" % i for i in range(4)] + ["line:nz:%s" % k for k in ("smail", "kde", "shift")]
    out += ["access:ode:%d" % i for i in range(6)] + ["access:gamma:%d" % i for i in range(2)]
    out += ["access:%s:0" % k for k in ("smail", "kde", "shift", "plane")]
    out += ["three:ode:0"]
    return out


_fresh = {}


def fresh(ops, o, **k):
    q = (id(ops), o, str(k))
    if q not in _fresh:
        _fresh[q] = leaves(ops[o](World(**k)))
    return _fresh[q]


def judge(ctx, key, workers, names, ops, k, w):
    """Results in every thread, and of the same calls afterwards, equal those of fresh objects."""
    ok = True
    for x, o in zip(workers, names):
        if x.error is not None:
            ctx.violation(key, "thread %d (%s) raised %s: %s" % (x.n, o, type(x.error).__name__, str(x.error)[:300]))
            return False
        for g, e in zip(x.value, fresh(ops, o, **k)):
            ok &= ctx.close(key, g, e, rtol=1e-9, atol=1e-12, what="%s in thread %d" % (o, x.n))
    for o in dict.fromkeys(names):
        r = ctx.call(key, lambda: leaves(ops[o](w)))
        if isinstance(r, Bad):
            return False
        for g, e in zip(r, fresh(ops, o, **k)):
            ok &= ctx.close(key, g, e, rtol=1e-9, atol=1e-12, what="%s after both threads" % o)
    return ok


def explore(ctx, name, names, ops, k):
    """All interleavings of the accesses to the shared object; each class of equivalent ones is one state."""
    written = set()
    while True:
        before = set(written)
        world = {}

        def once(choose, box):
            w = world["w"] = Shared(written, **k)
            box["s"] = sched.Sched([(lambda o=o: leaves(ops[o](w))) for o in names])
            ctx.step(len(names))
            return box["s"].run(choose)

        again = False
        for trace, workers, status in sched.interleavings(once):
            if written != before:
                again = True  # more shared attributes than known: start over with all of them as yield points
                break
            if status == "redundant":
                ctx.add("redundant_schedules")
                continue
            key = "%s: %s" % (name, pack(trace))
            if not ctx.case(key):
                continue
            ctx.add("uncontrolled_schedules" if status == "free" else "schedules")
            if not judge(ctx, key, workers, names, ops, k, world["w"]):
                return
        if not again:
            return


def positions(places, every):
    """Positions of a run at which to preempt: all, or the first and last execution of each line."""
    if every:
        return list(range(len(places)))
    first, last = {}, {}
    for i, p in enumerate(places):
        first.setdefault(p, i)
        last[p] = i
    return sorted(set(first.values()) | set(last.values()))


def preempt(ctx, name, names, ops, k, mode="line", every=False, twice=False):
    """One preemption of the first thread at each position, the second running to its end (or to each of its positions)."""

    def go(stops, order):
        w = Shared(set(), hook=False, **k)
        s = sched.Sched([(lambda o=o: leaves(ops[o](w))) for o in names], mode, stops)
        it = iter(order)
        ctx.step(len(names))

        def choose(live):
            n = next(it, live[0])
            return n if n in live else live[0]

        ws = s.run(choose)
        return w, s, ws

    spots = []
    for t in range(2 if twice else 1):
        _, s, ws = go({t: [-1]}, [t])
        spots.append(positions(ws[t].places, every))
    for i in spots[0]:
        for j in spots[1] if twice else [None]:
            key = "%s: %d%s" % (name, i, "" if j is None else ",%d" % j)
            if not ctx.case(key):
                continue
            stops = {0: [i]} if j is None else {0: [i], 1: [j]}
            w, s, ws = go(stops, [0, 1] if j is None else [0, 1, 0, 1])
            ctx.add("uncontrolled_schedules" if s.free else "schedules")
            if not judge(ctx, key, ws, names, ops, k, w):
                return


def pack(trace):
    """Run-length form of a schedule: 0x12.1x40.0x3"""
    return ".".join("%dx%d" % (n, len(list(g))) for n, g in itertools.groupby(trace))


def run(ctx, shard):
    kind, a, b = shard.split(":")
    T = ctx.thorough
    gam = dict(gamma=0.5) if a == "gamma" else {}
    if kind == "line" and a == "nz":
        warm(NZ, dict(kind=b))
        o = ("call", "scalar", "vmap", "child", "kernel")
        for x, y in itertools.product(o, repeat=2):
            preempt(ctx, "nz %s lines %s|%s" % (b, x, y), (x, y), NZ, dict(kind=b), "opcode" if T else "line", True)
    elif kind == "line":
        al = LINES if a == "ode" else GLINES
        if T:
            al = list(dict.fromkeys(al + list(itertools.product([o for o in OPS if o != "jit_chi"], repeat=2))))
        for x, y in al[int(b) :: 8 if a == "ode" else 4]:
            preempt(ctx, "%s lines %s|%s" % (a, x, y), (x, y), OPS, gam, "line", T)
    elif kind == "line2":
        x, y = (("chi", "chi"), ("growth", "rate"), ("chi", "inv"), ("growth", "growth"))[int(b)]
        preempt(ctx, "%s lines2 %s|%s" % (a, x, y), (x, y), OPS, gam, "line", False, True)
    elif kind == "three":
        al = [("chi", "inv", "chi"), ("growth", "rate", "growth"), ("chi", "growth", "chi_few")]
        if T:
            al += list(itertools.combinations_with_replacement(("chi", "inv", "rate", "growth"), 3))
        for names in al:
            explore(ctx, "ode three %s" % "|".join(names), names, OPS, gam)
    elif a in ("ode", "gamma"):
        o = list(OPS) if a == "ode" or T else ["chi", "growth", "rate", "other", "trans"]
        pairs = list(itertools.combinations_with_replacement(o, 2))
        for x, y in pairs[int(b) :: 6 if a == "ode" else 2]:
            explore(ctx, "%s accesses %s|%s" % (a, x, y), (x, y), OPS, gam)
    else:
        o = [x for x in NZ if x not in ("kernel", "child")] + (["child"] if a != "plane" else [])
        for x, y in itertools.combinations_with_replacement(o, 2):
            explore(ctx, "nz %s accesses %s|%s" % (a, x, y), (x, y), NZ, dict(kind=a))


def warm(ops, k):
    for o in ops:
        ops[o](World(**k))
