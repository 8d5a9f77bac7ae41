"""C08: all short sequences of points, and arrays as long as the internal tables, against evaluation point by point."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from mc import cat
from mc.lib import Bad

TREE = jax.tree_util.tree_map
AXES = [e for e in cat.LIST if e.axes and "(ell)" not in e.name]
LONG = (128, 255, 256, 257, 512)
BOUNDS = dict(
    quick="%d functions of points, 1 to 3 parameter letters: all sequences up to length 3 over 4 points (orders and repetitions), with ends of the domain and knots of tables among the points; sorted, reversed and repeated arrays of 7, 128, 255, 256, 257 and 512 points; one scale factor or a matching array for power spectra; heavy functions up to length 2; compiled, and uncompiled up to length 2 for functions without heavy tables" % len(AXES),
    thorough="sequences up to length 4 over 5 points, all parameter letters, uncompiled up to length 3",
)
ASSUMPTIONS = ["the value at a point alone is the reference; other checks compare it to independent models"]
GROUPS = dict(clnl=1, broadcast=2, gamma=4, cosmo=14, cl=6, kernel=5, spline=4, nz=2, bias=1)


def shards(tier):
    return ["%s:%d" % (g, i) for g, n in GROUPS.items() for i in range(n)]


def run(ctx, shard):
    g, i = shard.split(":")
    if g == "broadcast":
        return broadcast(ctx, int(i))
    es = [e for e in AXES if e.group == g]
    es.sort(key=lambda e: -e.cost)
    for e in es[int(i) :: GROUPS[g]]:
        entry(ctx, e)


def num(t):
    return TREE(lambda v: float(v) if onp.ndim(v) == 0 else jnp.asarray(v), t)


ATAB = onp.logspace(-3, 0, 256)


def letters(e, n):
    """Points: the ends of the domain, a knot of a table, and generic ones."""
    if isinstance(e.x, tuple):
        k, a = [0.02, 3.0, 0.02, 50.0, 0.3], [0.3, 1.0, 0.9, 0.3, 0.55]
        return [(onp.float64(p), onp.float64(q)) for p, q in zip(k, a)][:n]
    if e.x is cat.A:
        v = [0.37, 1.0, ATAB[200], 0.012, 0.9]
    elif e.x is cat.KS:
        v = [0.1, 1e-4, 7.0, 100.0, 0.02]
    elif e.x is cat.Z:
        v = [0.45, 0.0, 1.7, 3.0, 0.8]
        if "ell" in e.name or e.group == "kernel":
            v = [0.45, 0.01, 1.7, 3.0, 0.8]
    elif e.x is cat.XQ:
        v = [0.47, 2.0, 4.4, -0.2, 1.31]
    else:
        v = list(onp.asarray(e.x, float))
        v = [v[0], v[-1], v[1]] + v[2:-1]
    return [onp.float64(q) for q in v[:n]]


def join(ps):
    return TREE(lambda *v: onp.array(v), *ps)


def entry(ctx, e):
    T = ctx.thorough
    pts = letters(e, 5 if T else 4)
    f = jax.jit(e.fn)
    heavy = e.cost >= 2
    ns = range(len(e.thetas)) if T or e.cost == 0 else [0, 2] if not heavy else [1]
    for n in ns:
        build = lambda: e.build(num(e.thetas[n]))
        o = build()
        name = "%s at %d" % (e.name, n)
        alone = []
        for i, p in enumerate(pts):
            r = ctx.call("%s: scalar %d" % (name, i), lambda: onp.asarray(f(o, p)))
            if isinstance(r, Bad):
                return
            alone.append(r)
        scale = max(onp.abs(r).max() for r in alone)
        tol = dict(rtol=1e-10, atol=1e-12 * scale)

        def want(seq):
            """Stack of the values alone, whether these have a singleton axis or not."""
            return [alone[s] for s in seq]

        def check(key, r, seq, eager=False):
            if isinstance(r, Bad):
                return
            ok = ctx.true(key, r.shape[:1] == (len(seq),) or len(seq) == 1 and r.size == alone[0].size, "shape %s for %d points" % (r.shape, len(seq)))
            if ok:
                ctx.close(key, r.reshape(len(seq), -1), onp.stack([w.ravel() for w in want(seq)]), what="array against single points", labels=lambda i: "point %d of %s" % (i[0], list(seq)[:12]), **tol)

        depth = (4 if T else 3) if not heavy else 2 if not T else 3
        for m in range(1, depth + 1):
            for seq in itertools.product(range(len(pts)), repeat=m):
                key = "%s: %s" % (name, list(seq))
                if not ctx.case(key):
                    continue
                x = join([pts[s] for s in seq])
                check(key, ctx.call(key, lambda: onp.asarray(f(o, x))), seq)
        if e.cost < 2 and (T or not e.name.startswith("linear_matter_power(")):
            for m in range(0, (3 if T else 2) + 1):
                for seq in itertools.product(range(len(pts)), repeat=max(m, 1)) if m < 2 or T else [(0, 1), (1, 0), (2, 2), (3, 0)]:
                    key = "%s: uncompiled %s%s" % (name, list(seq), "" if m else " scalar")
                    if not ctx.case(key):
                        continue
                    x = TREE(jnp.asarray, join([pts[s] for s in seq])) if m else TREE(float, pts[seq[0]])
                    check(key, ctx.call(key, lambda: onp.asarray(e.fn(build(), x))), seq)
        if heavy and e.group.startswith("cl") and not T:
            longs = (7,)
        else:
            longs = (7,) + (LONG if not heavy or T else LONG[2:3])
        for m in longs:
            for what, order in (("ascending", 1), ("descending", -1), ("cycled", 0)):
                key = "%s: %d points %s" % (name, m, what)
                if not ctx.case(key):
                    continue
                seq = [i % len(pts) for i in range(m)]
                if order:
                    lead = [jax.tree_util.tree_leaves(p)[0] for p in pts]
                    seq = sorted(seq, key=lambda s: order * lead[s])
                x = join([pts[s] for s in seq])
                check(key, ctx.call(key, lambda: onp.asarray(f(o, x))), seq)


def broadcast(ctx, part):
    """Power spectra with one scale factor for all wavenumbers, given as a number or an array of one."""
    from jax_cosmo import power

    fs = [
        ("linear", lambda c, k, a: power.linear_matter_power(c, k, a)),
        ("nonlinear", lambda c, k, a: power.nonlinear_matter_power(c, k, a)),
    ]
    name, fn = fs[part]
    f = jax.jit(fn)
    ks = [0.02, 3.0, 50.0, 1e-3]
    for n, t in enumerate((cat.THETA[2], cat.GTHETA[1])):
        c = cat.cosmology(num(t))
        one = {}
        for a in (0.3, 1.0):
            for k in ks:
                r = ctx.call("%s at %d: k=%g a=%g" % (name, n, k, a), lambda: onp.asarray(f(c, onp.array([k]), onp.array([a]))))
                if isinstance(r, Bad):
                    return
                one[a, k] = r.ravel()[0]
        for a in (0.3, 1.0):
            for m in (1, 2, 3, 256) if ctx.thorough or part == 0 else (1, 2, 256):
                for i, seq in enumerate(itertools.product(ks, repeat=m) if m < 4 else [[ks[j % 4] for j in range(m)]]):
                    for kind, av in (("number", a), ("array of one", onp.array([a])), ("matching array", onp.full(m, a))):
                        key = "%s at %d: %d wavenumbers (%d), a=%g as %s" % (name, n, m, i, a, kind)
                        if not ctx.case(key):
                            continue
                        r = ctx.call(key, lambda: onp.asarray(f(c, onp.array(seq), av)))
                        if isinstance(r, Bad):
                            continue
                        ctx.true(key, r.shape == ((m,) if m > 1 else ()), "shape %s for %d wavenumbers" % (r.shape, m))
                        ctx.close(key, r.ravel(), onp.array([one[a, k] for k in seq]), rtol=1e-10, what="one scale factor")
        # one wavenumber, many scale factors
        for seq in itertools.product((0.3, 1.0), repeat=3):
            key = "%s at %d: one wavenumber, a=%s" % (name, n, list(seq))
            if not ctx.case(key):
                continue
            r = ctx.call(key, lambda: onp.asarray(f(c, 3.0, onp.array(seq))))
            if not isinstance(r, Bad):
                ctx.close(key, r, onp.array([one[a, 3.0] for a in seq]), rtol=1e-10, what="one wavenumber")
