"""C30: spline evaluation against the reference library, over all small abscissa sets and basis data."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from scipy.interpolate import CubicSpline, PPoly, UnivariateSpline
from scipy.interpolate import InterpolatedUnivariateSpline as Ref

from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spl

BOUNDS = dict(
    quick="all strictly increasing abscissa sets of length k+1..6 over 7 points (3 spacings), k=1,2,3, both end conditions, basis and generic data, "
    "queries: knots, 6 fractions of every interval, 4 extrapolated points",
    thorough="all strictly increasing abscissa sets of length k+1..8 over 9 points (3 spacings), same orders, 10 fractions of every interval",
)
ASSUMPTIONS = ["scipy's interpolating splines are the oracle", "a spline is linear in its data, so the basis data decide all data of the same abscissae"]
CONFIGS = ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural"))
REJ = (AssertionError, ValueError, TypeError, NotImplementedError)


def pieces(x, y, k, end):
    """The reference as piecewise polynomials with the end pieces extrapolated."""
    if end == "natural":
        return CubicSpline(x, y, bc_type="natural")
    if k == 1:
        c = onp.array([onp.diff(y) / onp.diff(x), y[:-1]])
        return PPoly(c, x)
    return PPoly.from_spline(Ref(x, y, k=k)._eval_args)


def sets(ctx, n):
    m = 9 if ctx.thorough else 7
    i = onp.arange(m, dtype=float)
    for X in (i, 3.0 * i - 8.0, 10.0 ** (-0.25 * (m - 1 - i))):
        for c in itertools.combinations(range(m), n):
            yield X[list(c)]


def queries(x, ctx):
    fr = (0.0, 0.1, 0.3, 0.5, 0.7, 0.95) + ((0.01, 0.25, 0.6, 0.85) if ctx.thorough else ())
    h0, h1 = x[1] - x[0], x[-1] - x[-2]
    q = [x[0] - h0 * 1.3, x[0] - 0.2 * h0, x[-1], x[-1] + 0.2 * h1, x[-1] + 1.3 * h1]
    for lo, hi in zip(x, x[1:]):
        q += [lo + (hi - lo) * f for f in fr]
    return onp.array(q)


def data(n):
    return onp.array([onp.eye(n)[i] for i in range(n)] + [[((i * 5 + 2) % 7) - 3.0 for i in range(n)]])


def shards(tier):
    return ["%d:%s:%d" % (k, e, n) for k, e in CONFIGS for n in range(k + 1, 7 if tier == "quick" else 9)] + ["reject", "poly"]


def batch(ctx, k, end, n):
    xs = list(sets(ctx, n))
    Y = data(n)
    Q = onp.array([queries(x, ctx) for x in xs])
    refs = [[pieces(x, y, k, end) for y in Y] for x in xs]
    want = onp.array([[r(q) for r in rs] for rs, q in zip(refs, Q)])
    key = "values"
    fn = jax.jit(jax.vmap(lambda x, q: jax.vmap(lambda y: (Spl(x, y, k=k, endpoints=end)(q), Spl(x, y, k=k, endpoints=end)(x)))(jnp.asarray(Y))))
    if ctx.case(key):
        got = ctx.call(key, lambda: [onp.asarray(v) for v in fn(jnp.asarray(onp.array(xs)), jnp.asarray(Q))])
        if isinstance(got, list):
            ctx.points(got[0].size)
            scale = onp.abs(want).max(axis=2, keepdims=True)
            lab = lambda i: dict(x=xs[i[0]].tolist(), y=Y[i[1]].tolist(), query=Q[i[0], i[2]])
            ctx.close(key, got[0], want, rtol=1e-8, atol=1e-9 * scale, what="spline value", labels=lab)
            ctx.close("at data", got[1], onp.broadcast_to(Y, got[1].shape), rtol=1e-8, atol=1e-9, what="value at a data point",
                      labels=lambda i: dict(x=xs[i[0]].tolist(), y=Y[i[1]].tolist()))
    for j, (x, q, rs) in enumerate(zip(xs, Q, refs)):
        if j % (2 if ctx.thorough else 6):
            continue
        key = "set %s" % x.tolist()
        if not ctx.case(key):
            continue
        s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray(Y[-1]), k=k, endpoints=end))
        w = rs[-1](q)
        sc = onp.abs(w).max()
        if not isinstance(s, Spl):
            continue
        ctx.close(key, ctx.call(key, s, jnp.asarray(q[::-1])), w[::-1], rtol=1e-8, atol=1e-9 * sc, what="queries in decreasing order")
        for i in (0, 1, 2, len(q) - 1):
            ctx.close(key, ctx.call(key, s, float(q[i])), w[i], rtol=1e-8, atol=1e-9 * sc, what="scalar query %g" % q[i])
        if j % 3 == 0:
            s = ctx.call(key, lambda: Spl(x, Y[-1], k=k) if end == "not-a-knot" else Spl(x, Y[-1], endpoints=end))
            if isinstance(s, Spl):
                ctx.close(key, ctx.call(key, s, q), w, rtol=1e-8, atol=1e-9 * sc, what="numpy input, default options")


def poly(ctx):
    """Polynomials up to the order are reproduced, everywhere; longer, uneven tables."""
    for k, end in CONFIGS[:3]:
        for n in (k + 1, k + 2, 9, 17):
            x = onp.cumsum(onp.array([1.0 + 0.7 * ((i * 3) % 5) for i in range(n)]))
            q = queries(x, ctx)
            for d in range(k + 1):
                key = "degree %d with order %d on %d points" % (d, k, n)
                if ctx.case(key):
                    f = lambda t: (t - 3.0) ** d
                    s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray(f(x)), k=k, endpoints=end)(jnp.asarray(q)))
                    ctx.close(key, s, f(q), rtol=1e-8, atol=1e-7 * onp.abs(f(q)).max(), what="polynomial")
    # natural splines reproduce straight lines
    for n in (4, 5, 9):
        x = onp.cumsum(onp.array([1.0 + 0.7 * ((i * 3) % 5) for i in range(n)]))
        q = queries(x, ctx)
        for d in (0, 1):
            key = "degree %d with natural ends on %d points" % (d, n)
            if ctx.case(key):
                s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray((2 * x - 5) ** d), endpoints="natural")(jnp.asarray(q)))
                ctx.close(key, s, (2 * q - 5) ** d, rtol=1e-8, atol=1e-8, what="straight line")
    # continuity class: jumps of derivatives by one-sided differences of the evaluated function
    for k, end in CONFIGS:
        for n in range(k + 1, 8):
            x = onp.cumsum(onp.array([1.0 + 0.7 * ((i * 3) % 5) for i in range(n)]))
            y = onp.array([((i * 5 + 2) % 7) - 3.0 for i in range(n)])
            key = "smoothness order %d %s on %d points" % (k, end, n)
            if not ctx.case(key):
                continue
            s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray(y), k=k, endpoints=end))
            r = pieces(x, y, k, end)
            for nu in range(k):
                for side in (-1e-7, 1e-7):
                    got = ctx.call(key, lambda: s.derivative(jnp.asarray(x + side), nu))
                    ctx.close(key, got, r(x + side, nu), rtol=1e-6, atol=1e-6 * (1 + onp.abs(r(x, nu)).max()), what="derivative %d beside the data points" % nu)
    for n in range(4, 9):
        x = onp.cumsum(onp.array([1.0 + 0.7 * ((i * 3) % 5) for i in range(n)]))
        y = onp.array([((i * 5 + 2) % 7) - 3.0 for i in range(n)])
        key = "end conditions on %d points" % n
        if not ctx.case(key):
            continue
        s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray(y), endpoints="natural"))
        d2 = ctx.call(key, lambda: s.derivative(jnp.asarray(x[[0, -1]]), 2))
        ctx.close(key, d2, onp.zeros(2), rtol=0, atol=1e-9, what="second derivative at the natural ends")
        s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray(y)))
        for c in (x[1], x[-2]):
            d3 = ctx.call(key, lambda: onp.asarray(s.derivative(jnp.asarray([c - 1e-6, c + 1e-6]), 3)))
            if hasattr(d3, "shape"):
                ctx.close(key, d3[0], d3[1], rtol=1e-8, atol=1e-9, what="third derivative across a not-a-knot point")


def reject(ctx):
    x = onp.arange(6.0)
    for k in (-1, 0, 4, 5):
        key = "order %d" % k
        if ctx.case(key):
            ctx.rejects(key, REJ, lambda: Spl(x, x**2, k=k), "order accepted")
    for k in (1, 2, 3):
        for n in range(0, k + 1):
            key = "order %d with %d points" % (k, n)
            if ctx.case(key):
                ctx.rejects(key, REJ + (IndexError,), lambda: Spl(x[:n], x[:n], k=k), "too few points accepted")
        for n, m in itertools.permutations((4, 5, 6), 2):
            key = "order %d with %d abscissae and %d values" % (k, n, m)
            if ctx.case(key):
                ctx.rejects(key, REJ, lambda: Spl(x[:n], x[:m], k=k), "unequal lengths accepted")
        for shape in ((2, 3), (6, 1), (1, 6)):
            key = "order %d with data of shape %s" % (k, shape)
            if ctx.case(key):
                ctx.rejects(key, REJ, lambda: Spl(x.reshape(shape), x.reshape(shape), k=k), "two-dimensional data accepted")


def run(ctx, shard):
    if shard == "reject":
        reject(ctx)
    elif shard == "poly":
        poly(ctx)
    else:
        k, end, n = shard.split(":")
        batch(ctx, int(k), end, int(n))
