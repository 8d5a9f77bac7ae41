"""C12: growth factor and rate against an independent solution of the growth equation, over a parameter lattice."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo.background as bg
from mc import jx, ref
from mc.lib import lattice, product, split

BOUNDS = dict(
    quick="full product of Omega_c(3) Omega_b(2) Omega_k(7) w0(3) wa(3) x ~330 scale factors in [0.005,1]; eager on <=1 deviations of 8 parameters",
    thorough="full product of Omega_c(5) Omega_b(3) Omega_k(9) w0(5) wa(5) x ~700 scale factors; eager on <=2 deviations",
)
ASSUMPTIONS = ["reference: Runge-Kutta in ln a from a=1e-6 with 6000 steps, growing mode initial conditions", "sampled scale factors include all table knots and midpoints"]


def scale_factors(ctx):
    k = onp.logspace(-3, 0, 128)
    a = onp.concatenate([k, onp.sqrt(k[1:] * k[:-1]), onp.linspace(0.005, 1, 400 if ctx.thorough else 80), 1 - onp.logspace(-6, -1, 12)])
    return onp.unique(a[(a >= 0.005) & (a <= 1.0)])


from mc.checks.c10 import lat  # noqa: E402


def shards(tier):
    n = 4 if tier == "quick" else 12
    return ["grid:%d/%d" % (i, n) for i in range(n)] + ["eager:%d" % i for i in range(4)]


def run(ctx, shard):
    a = scale_factors(ctx)
    if shard.startswith("grid"):
        i, n = map(int, shard[5:].split("/"))
        ps = list(split(lat(ctx), i, n))
        lab = lambda j: dict(cosmology=jx.short(ps[j[0]]), a=a[j[1]])
        if not ctx.case("growth"):
            return
        r = jx.run_over(ctx, "growth", lambda c, a: (bg.growth_factor(c, a), bg.growth_rate(c, a)), ps, (a,), 128)
        if not isinstance(r, tuple):
            return
        D, f = r
        ctx.points(2 * D.size)
        wD, wf = ref.growth(jx.stack(ps), a)
        ctx.close("factor", D, wD, rtol=2e-3, what="growth factor", labels=lab)
        ctx.close("rate", f, wf, rtol=5e-3, what="growth rate", labels=lab)
        ctx.close("today", D[:, -1], onp.ones(len(ps)), rtol=1e-9, what="growth factor today", labels=lab)
        ctx.true("range", bool((D >= 0).all() and (D <= 1).all()), "growth factor outside [0,1]")
        inc = onp.diff(D, axis=1) > 0
        j = onp.argwhere(~inc)
        ctx.true("monotonic", inc.all(), "growth factor does not increase: %s" % (lab(j[0]) if len(j) else ""))
        # consistency of the two results: rate from finite differences of the factor across knots
        k = onp.logspace(-3, 0, 128)
        lo, hi = onp.searchsorted(a, k[40:-1] * (1 - 1e-12)), onp.searchsorted(a, k[41:] * (1 - 1e-12))
        dln = (onp.log(D[:, hi]) - onp.log(D[:, lo])) / (onp.log(a[hi]) - onp.log(a[lo]))
        mid = 0.5 * (f[:, hi] + f[:, lo])
        ctx.close("consistency", mid, dln, rtol=5e-3, what="growth rate against differences of the factor", labels=lambda j: dict(cosmology=jx.short(ps[j[0]]), a=a[lo[j[1]]]))
    else:
        part = int(shard[6:])
        for p in split([p for p in lattice(dict(jx.ALPHA), 2 if ctx.thorough else 1) if jx.physical(p)], part, 4):
            p = dict(p)
            key = jx.short(p)
            if not ctx.case(key, p):
                continue
            x = onp.array([0.31, 1.0, 0.0066, 0.77, 0.31])
            q = {k: onp.array([p[k]]) for k in jx.NAMES}
            wD, wf = ref.growth(q, x)
            # factor first, rate first, scalars
            c = jx.cosmo(p)
            ctx.close(key, ctx.call(key, bg.growth_factor, c, x), wD[0], rtol=2e-3, what="growth factor")
            ctx.close(key, ctx.call(key, bg.growth_rate, c, x), wf[0], rtol=5e-3, what="growth rate after the factor")
            c = jx.cosmo(p)
            ctx.close(key, ctx.call(key, bg.growth_rate, c, x), wf[0], rtol=5e-3, what="growth rate first")
            ctx.close(key, ctx.call(key, bg.growth_factor, c, 0.31), wD[0, 0], rtol=2e-3, shape=False, what="growth factor at a scalar")
            ctx.close(key, ctx.call(key, bg.growth_rate, c, 0.77), wf[0, 3], rtol=5e-3, shape=False, what="growth rate at a scalar")
