"""C29: table interpolation against the straight line between neighbouring knots, on all small tables."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from jax_cosmo.scipy.interpolate import interp

BOUNDS = dict(
    quick="all strictly monotonic tables of length 3..6 over 7 abscissae (4 spacings), both directions, basis and 3 generic value vectors, "
    "queries: knots, 9 fractions of every interval, both sides of every knot and midpoint",
    thorough="all strictly monotonic tables of length 3..8 over 9 abscissae (4 spacings), both directions, 17 fractions of every interval",
)
ASSUMPTIONS = ["numpy.interp is the oracle", "queries inside the table only"]


def spacings(n):
    i = onp.arange(n, dtype=float)
    return dict(integer=i, shifted=2.5 * i - 7.0, log=10.0 ** (-0.5 * (n - 1 - i)), negative=-(1.7 ** i)[::-1])


def fractions(ctx):
    f = [0.0, 1e-9, 0.01, 0.25, 0.4999, 0.5, 0.5001, 0.75, 0.99, 1 - 1e-9, 1.0]
    if ctx.thorough:
        f += [1e-6, 0.1, 0.125, 0.3, 0.45, 0.55, 0.7, 0.9]
    return onp.array(sorted(f))


def shards(tier):
    return ["%s:%d" % (s, n) for s in ("integer", "shifted", "log", "negative") for n in range(3, 7 if tier == "quick" else 9)]


def run(ctx, shard):
    name, n = shard.split(":")
    n = int(n)
    X = spacings(9 if ctx.thorough else 7)[name]
    fr = fractions(ctx)
    fn = jax.jit(jax.vmap(lambda x, q, F: jax.vmap(lambda f: interp(q, x, f))(F)))
    tabs = [X[list(c)] for c in itertools.combinations(range(len(X)), n)]
    tabs = [t for t in tabs] + [t[::-1] for t in tabs]
    vals = [onp.eye(n)[i] for i in range(n)] + [onp.arange(n) * 1.0, onp.array([((i * 5 + 2) % 7) - 3.0 for i in range(n)]), onp.array([(-1.0) ** i * (i + 1) for i in range(n)])]
    F = onp.array(vals)
    Q = onp.array([onp.concatenate([t[0] + 0 * fr[:0]] + [lo + (hi - lo) * fr for lo, hi in zip(t, t[1:])]) for t in tabs])
    for t, q in zip(tabs, Q):
        onp.clip(q, min(t[0], t[-1]), max(t[0], t[-1]), out=q)
    want = onp.array([[onp.interp(q, t, f) if t[0] < t[-1] else onp.interp(q, t[::-1], f[::-1]) for f in F] for t, q in zip(tabs, Q)])
    key = "all"
    if ctx.case(key):
        got = ctx.call(key, lambda: onp.asarray(fn(jnp.asarray(onp.array(tabs)), jnp.asarray(Q), jnp.broadcast_to(F, (len(tabs),) + F.shape))))
        ctx.points(len(tabs) * len(F) * Q.shape[1] - 1)
        ctx.close(key, got, want, rtol=1e-9, atol=2e-9 * n, what="interpolated value",
                  labels=lambda i: dict(x=tabs[i[0]].tolist(), f=F[i[1]].tolist(), query=Q[i[0], i[2]]))
    # the function as it is called by users: eagerly, single queries, any order of queries
    for j, (t, q, w) in enumerate(zip(tabs, Q, want)):
        if j % (1 if ctx.thorough else 5):
            continue
        key = "table %s" % t.tolist()
        if not ctx.case(key):
            continue
        got = ctx.call(key, interp, jnp.asarray(q[::-1]), jnp.asarray(t), jnp.asarray(F[-2]))
        ctx.close(key, got, w[-2][::-1], rtol=1e-9, atol=1e-7, what="reversed queries")
        got = ctx.call(key, interp, jnp.asarray(q[3:4]), jnp.asarray(t), jnp.asarray(F[-1]))
        ctx.close(key, got, w[-1][3:4], rtol=1e-9, atol=1e-7, what="single query")
        got = ctx.call(key, interp, q, t, F[-2])
        ctx.close(key, got, w[-2], rtol=1e-9, atol=1e-7, what="numpy tables and queries")
