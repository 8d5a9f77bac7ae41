"""C31: spline derivatives, antiderivatives and integrals against those of the reference spline."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spl
from mc.checks.c30 import CONFIGS, REJ, data, pieces, queries, sets

BOUNDS = dict(
    quick="all abscissa sets of length k+1..6 over 7 points (3 spacings), all orders and end conditions, all derivative orders, basis and generic data; "
    "all ordered pairs of 8 limits for integrals on 20 sets per configuration",
    thorough="all abscissa sets of length k+1..8 over 9 points; all ordered pairs of 12 limits on 80 sets per configuration",
)
ASSUMPTIONS = ["scipy's piecewise polynomials are the oracle", "at a knot either one-sided value of a discontinuous derivative is accepted"]


def shards(tier):
    return ["%d:%s:%d" % (k, e, n) for k, e in CONFIGS for n in range(k + 1, 7 if tier == "quick" else 9)] + ["reject"]


def run(ctx, shard):
    if shard == "reject":
        return reject(ctx)
    k, end, n = shard.split(":")
    k, n = int(k), int(n)
    xs = list(sets(ctx, n))
    Y = data(n)
    Q = onp.array([queries(x, ctx) for x in xs])
    refs = [[pieces(x, y, k, end) for y in Y] for x in xs]

    def fn(x, q):
        def one(y):
            s = Spl(x, y, k=k, endpoints=end)
            return [s.derivative(q, i) for i in range(k + 1)] + [s.derivative(q), s.antiderivative(q) - s.antiderivative(x[:1])]

        return jax.vmap(one)(jnp.asarray(Y))

    lab = lambda i: dict(x=xs[i[0]].tolist(), y=Y[i[1]].tolist(), query=Q[i[0], i[2]])
    key = "calculus"
    if ctx.case(key):
        got = ctx.call(key, lambda: [onp.asarray(v) for v in jax.jit(jax.vmap(fn))(jnp.asarray(onp.array(xs)), jnp.asarray(Q))])
        if isinstance(got, list):
            for i in list(range(k + 1)) + ["default", "anti"]:
                if i == "anti":
                    want = onp.array([[r.antiderivative()(q) - r.antiderivative()(x[0]) for r in rs] for rs, q, x in zip(refs, Q, xs)])
                    alt, g = want, got[-1]
                else:
                    nu = 1 if i == "default" else i
                    g = got[-2] if i == "default" else got[i]
                    eps = 1e-9
                    want = onp.array([[r(q, nu) for r in rs] for rs, q in zip(refs, Q)])
                    lo = onp.array([[r(q - eps, nu) for r in rs] for rs, q in zip(refs, Q)])
                    hi = onp.array([[r(q + eps, nu) for r in rs] for rs, q in zip(refs, Q)])
                    alt = onp.where(onp.abs(g - lo) < onp.abs(g - hi), lo, hi)
                    want = onp.where(onp.abs(g - want) < onp.abs(g - alt), want, alt)
                scale = onp.abs(want).max(axis=2, keepdims=True) + 1e-9
                ctx.points(g.size)
                ctx.close("derivative %s" % i, g, want, rtol=1e-6, atol=1e-7 * scale, what="derivative %s" % i, labels=lab)
    # the public methods directly, with all ordered pairs of limits
    step = max(1, len(xs) // (80 if ctx.thorough else 20))
    for j in range(0, len(xs), step):
        x, r = xs[j], refs[j][-1]
        key = "integrals on %s" % x.tolist()
        if not ctx.case(key):
            continue
        s = ctx.call(key, lambda: Spl(jnp.asarray(x), jnp.asarray(Y[-1]), k=k, endpoints=end))
        if not isinstance(s, Spl):
            continue
        A = r.antiderivative()
        h = x[1] - x[0]
        lim = [x[0], x[-1], x[0] - 0.4 * h, x[-1] + 0.4 * h, 0.5 * (x[0] + x[1]), x[len(x) // 2], 0.3 * x[-1] + 0.7 * x[-2], 0.4 * x[0] + 0.6 * x[1]]
        if ctx.thorough:
            lim += [x[1], x[-2], 0.5 * (x[-1] + x[-2]), x[0] - 2 * h]
        anti = ctx.call(key, lambda: onp.asarray(s.antiderivative(jnp.asarray(lim))))
        if hasattr(anti, "shape"):
            ctx.close(key, anti - anti[0], A(lim) - A(lim[0]), rtol=1e-7, atol=1e-7, what="antiderivative")
        got = {}
        for a, b in itertools.product(lim, lim):
            got[a, b] = g = ctx.call(key, lambda: onp.asarray(s.integral(float(a), float(b))))
            if not ctx.close(key, g, A(b) - A(a), rtol=1e-7, atol=1e-7, shape=False, what="integral from %g to %g" % (a, b)):
                break
        dq = ctx.call(key, lambda: s.derivative(float(Q[j][7]), 1))
        ctx.close(key, dq, r(Q[j][7], 1), rtol=1e-6, atol=1e-6, what="derivative at a scalar point")


def reject(ctx):
    x = onp.arange(6.0)
    for k, end in CONFIGS:
        s = ctx.call("build", lambda: Spl(x, x**2, k=k, endpoints=end))
        for n in (-2, -1, k + 1, k + 2, 7):
            key = "derivative %d of order %d" % (n, k)
            if ctx.case(key):
                ctx.rejects(key, REJ, lambda: s.derivative(x, n), "derivative order accepted")
