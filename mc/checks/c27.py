"""C27: exactness, linearity and convergence of the two quadrature rules on all small cases."""
import itertools

import jax.numpy as jnp
import numpy as onp

from jax_cosmo.scipy.integrate import romb, simps

BOUNDS = dict(
    quick="Simpson: N 1..13 and 128,256, degrees 0..6, 30 ordered limit pairs; Romberg: levels 1..7, degrees 0..2m+1, 30 limit pairs",
    thorough="Simpson: N 1..40 and 64..512, degrees 0..8, 56 ordered limit pairs; Romberg: levels 1..9, 56 limit pairs",
)
ASSUMPTIONS = ["polynomial integrals in closed form", "Simpson's classical error bound (b-a)^5 max|f''''| / (180 N^4)"]
LIM = (0.0, 1.0, -1.0, 2.5, -0.75, 10.0, 0.125, -3.0)


def limits(ctx):
    L = LIM if ctx.thorough else LIM[:6]
    return [(a, b) for a in L for b in L if a != b] + [(1.0, 1.0)]


def shards(tier):
    return ["simps:%d" % i for i in range(4)] + ["simps-odd", "simps-shapes"] + ["romb:%d" % m for m in range(1, 8 if tier == "quick" else 10)] + ["romb-args"]


def mono(d):
    return lambda x: x**d if d else jnp.ones_like(x)


def prim(d, a, b):
    return (b ** (d + 1) - a ** (d + 1)) / (d + 1)


def scale(d, a, b):
    return max(abs(a), abs(b), 1e-3) ** (d + 1)


def simpson(ctx, part):
    ns = [n for n in (range(2, 41, 2) if ctx.thorough else range(2, 14, 2))] + ([64, 128, 256, 512] if ctx.thorough else [128, 256])
    for i, (N, d) in enumerate(itertools.product(ns, range(9 if ctx.thorough else 7))):
        if i % 4 != part:
            continue
        for a, b in limits(ctx):
            key = "simps N=%d degree %d [%g,%g]" % (N, d, a, b)
            if not ctx.case(key):
                continue
            r = ctx.call(key, simps, mono(d), a, b, N)
            tol = 1e-12 * scale(d, a, b)
            if d > 3:
                m4 = d * (d - 1) * (d - 2) * (d - 3) * max(abs(a), abs(b)) ** (d - 4)
                tol += abs(b - a) ** 5 / (180.0 * N**4) * m4 * 1.0001
            ctx.close(key, r, prim(d, a, b), rtol=0, atol=tol, what="Simpson integral")
            if d == 0:
                ctx.close(key, ctx.call(key, simps, lambda x: 2 * x**3 - 5 * x + 1, a, b, N), 2 * prim(3, a, b) - 5 * prim(1, a, b) + prim(0, a, b),
                          rtol=0, atol=1e-11 * scale(3, a, b), what="Simpson of a polynomial")
            if d == 1:
                f = lambda x: jnp.exp(0.5 * x)
                w = 2 * (onp.exp(b / 2) - onp.exp(a / 2))
                e = abs(b - a) ** 5 / (180.0 * N**4) * onp.exp(max(a, b) / 2) / 16 * 1.0001 + 1e-12 * onp.exp(max(a, b, 0))
                ctx.close(key, ctx.call(key, simps, f, a, b, N), w, rtol=0, atol=e, what="Simpson of exp(x/2)")


def shapes(ctx):
    # default N, limits as arrays, vector-valued integrands
    for a, b in limits(ctx):
        key = "simps default N [%g,%g]" % (a, b)
        if ctx.case(key):
            ctx.close(key, ctx.call(key, simps, lambda x: x**3, a, b), prim(3, a, b), rtol=0, atol=1e-12 * scale(3, a, b), what="Simpson, default N")
            f = lambda x: jnp.stack([x**d for d in (1, 2, 3)], -1)
            ctx.close(key, ctx.call(key, simps, f, a, b, 8), onp.array([prim(d, a, b) for d in (1, 2, 3)]), rtol=0, atol=1e-12 * scale(3, a, b), what="vector-valued integrand")
            g = lambda x: x[:, None, None] ** 2 * jnp.arange(1.0, 7.0).reshape(2, 3)
            ctx.close(key, ctx.call(key, simps, g, a, b, 6), prim(2, a, b) * onp.arange(1.0, 7.0).reshape(2, 3), rtol=0, atol=1e-11 * scale(3, a, b), what="matrix-valued integrand")
    vals = onp.array(LIM)
    for n in (1, 2, 3):
        for t in itertools.permutations(vals[:5], n):
            key = "simps limits %s" % (t,)
            if not ctx.case(key):
                continue
            lo = jnp.asarray(t)
            for d in range(4):
                tol = 1e-12 * 2.5 ** (d + 1)
                ctx.close(key, ctx.call(key, simps, mono(d), lo, 2.0, 4), [prim(d, x, 2.0) for x in t], rtol=0, atol=tol, what="array of lower limits, degree %d" % d)
                ctx.close(key, ctx.call(key, simps, mono(d), -1.5, lo, 4), [prim(d, -1.5, x) for x in t], rtol=0, atol=tol, what="array of upper limits, degree %d" % d)
                ctx.close(key, ctx.call(key, simps, mono(d), lo, lo + 1.0, 4), [prim(d, x, x + 1.0) for x in t], rtol=0, atol=tol * 8, what="arrays of limits, degree %d" % d)


def odd(ctx):
    for N in range(1, 60 if ctx.thorough else 26, 2):
        for a, b in limits(ctx)[:6]:
            key = "odd N=%d [%g,%g]" % (N, a, b)
            if ctx.case(key):
                ctx.rejects(key, (ValueError, AssertionError), lambda: simps(lambda x: x, a, b, N), "odd N accepted")


def romberg_ref(f, a, b, m):
    T = []
    for i in range(m + 1):
        x = onp.linspace(a, b, 2**i + 1)
        T.append((b - a) / 2**i * (f(x).sum() - 0.5 * (f(x[0]) + f(x[-1]))))
    for k in range(1, m + 1):
        T = [(4.0**k * T[i + 1] - T[i]) / (4.0**k - 1) for i in range(len(T) - 1)]
    return T[0]


def romberg(ctx, m):
    lims = limits(ctx)
    if not ctx.thorough:
        lims = lims[::2] + [(1.0, 0.0), (1.0, 1.0)]
    # coefficients are traced so that one compilation serves all degrees and limits
    import jax

    deg = 2 * m + 1

    @jax.jit
    def run(c, a, b):
        return romb(lambda x: sum(c[i] * x**i for i in range(deg + 1)) + c[deg + 1] * jnp.exp(0.5 * x), a, b, divmax=m)

    C = jnp.eye(deg + 2)
    batch = jax.jit(jax.vmap(run, (0, None, None)))
    for a, b in lims:
        key = "romb level %d [%g,%g]" % (m, a, b)
        if not ctx.case(key):
            continue
        r = ctx.call(key, lambda: onp.asarray(batch(C, a, b)).reshape(-1))
        ctx.points(deg + 1)
        want = onp.array([prim(d, a, b) for d in range(deg + 1)])
        if hasattr(r, "shape") and ctx.true(key, r.shape == (deg + 2,), "shape %s" % (r.shape,)):
            # cancellation inside the alternating extrapolation, relative to the largest sample
            atol = onp.array([3e-12 * max(abs(a), abs(b), 1.0) ** (d + 1) for d in range(deg + 1)])
            ctx.close(key, r[:-1], want, rtol=0, atol=atol, what="Romberg of monomials")
            w = 2 * (onp.exp(b / 2) - onp.exp(a / 2))
            e = abs(romberg_ref(lambda x: onp.exp(x / 2), a, b, m) - w)
            ctx.close(key, r[-1], w, rtol=0, atol=1.5 * e + 1e-11 * onp.exp(max(a, b, 0) / 2) * max(1, abs(b - a)), what="Romberg of exp(x/2)")
        if (a, b) in lims[:3]:
            ctx.close(key, ctx.call(key, romb, lambda x: 3 * x**3 - x + 2, a, b, (), m), 3 * prim(3, a, b) - prim(1, a, b) + 2 * (b - a),
                      rtol=0, atol=1e-9 * scale(3, a, b), shape=False, what="Romberg, positional level")


def args(ctx):
    for m in (None, 2, 5):
        for a, b in limits(ctx)[:8]:
            for ar in ((), (2.0,), (2.0, -1.0), (0.5, 3.0, 1.0)):
                key = "romb args %s level %s [%g,%g]" % (ar, m, a, b)
                if not ctx.case(key):
                    continue
                kw = {} if m is None else dict(divmax=m)
                f = lambda x, *p: x**2 + sum(q * x**i for i, q in enumerate(p))
                want = prim(2, a, b) + sum(q * prim(i, a, b) for i, q in enumerate(ar))
                r = ctx.call(key, lambda: romb(f, a, b, args=ar, **kw))
                ctx.close(key, r, want, rtol=0, atol=1e-11 * scale(3, a, b), shape=False, what="extra arguments")
                r = ctx.call(key, lambda: romb(f, a, b, args=ar, return_error=True, **kw))
                if ctx.true(key, isinstance(r, tuple) and len(r) == 2, "return_error does not give (value, error)"):
                    ctx.close(key, r[0], want, rtol=0, atol=1e-11 * scale(3, a, b), shape=False, what="value returned with the error")
                    ctx.close(key, r[1], 0.0, rtol=0, atol=1e-9 * scale(3, a, b), shape=False, what="error estimate of an exactly integrated polynomial")


def run(ctx, shard):
    if shard.startswith("simps:"):
        simpson(ctx, int(shard[6:]))
    elif shard == "simps-odd":
        odd(ctx)
    elif shard == "simps-shapes":
        shapes(ctx)
    elif shard == "romb-args":
        args(ctx)
    else:
        romberg(ctx, int(shard[5:]))
