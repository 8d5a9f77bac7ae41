"""C10: radial comoving distance and its inverse against Gauss-Legendre integration, over a parameter lattice."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo.background as bg
from mc import jx, ref
from mc.lib import lattice, product, split

BOUNDS = dict(
    quick="full product of Omega_c(3) Omega_b(2) Omega_k(7) w0(3) wa(3) x ~900 scale factors (all knots, interval midpoints, ends); 7 table options; eager on <=1 deviations",
    thorough="full product of Omega_c(5) Omega_b(3) Omega_k(9) w0(5) wa(5) x ~1500 scale factors; 14 table options on the whole product; eager on <=2 deviations",
)
ASSUMPTIONS = ["Gauss-Legendre quadrature of order 160 in ln a as the integral"]
ATOL, RTOL = 1.5, 5e-4


def scale_factors(ctx):
    n = 400 if ctx.thorough else 150
    k = onp.logspace(-3, 0, 256)
    return onp.unique(onp.clip(onp.concatenate([k, onp.sqrt(k[1:] * k[:-1]), onp.linspace(1e-3, 1, n), onp.logspace(-3, 0, n), 1 - onp.logspace(-7, -1, 25)]), 1e-3, 1.0))


def lat(ctx):
    al = {k: jx.ALPHA[k] for k in ("Omega_c", "Omega_b", "Omega_k", "w0", "wa")}
    if ctx.thorough:
        al = dict(Omega_c=(0.25, 0.15, 0.45, 0.08, 0.7), Omega_b=(0.05, 0.02, 0.1), Omega_k=(0.0, 0.1, -0.1, 1e-3, -1e-3, 0.3, -0.2, 1e-8, -1e-8),
                  w0=(-1.0, -0.8, -1.2, -0.5, -1.5), wa=(0.0, 0.3, -0.4, 0.6, -0.8))
    return [p for p in (jx.full(**p) for p in product(al)) if jx.physical(p)]


def options(ctx):
    o = [(-3, 256), (-3, 512), (-2, 128), (-1, 64), (-4, 1024), (-2.5, 300), (-3, 2048)]
    return o + ([(-1, 32), (-2, 512), (-1.5, 100), (-4, 400), (-3.5, 700), (-5, 1500), (-0.5, 16)] if ctx.thorough else [])


def shards(tier):
    n = 4 if tier == "quick" else 12
    return ["grid:%d/%d" % (i, n) for i in range(n)] + ["options:%d" % i for i in range(7 if tier == "quick" else 14)] + ["eager:%d" % i for i in range(3)]


def run(ctx, shard):
    a = scale_factors(ctx)
    if shard.startswith("grid"):
        i, n = map(int, shard[5:].split("/"))
        ps = list(split(lat(ctx), i, n))
        lab = lambda j: dict(cosmology=jx.short(ps[j[0]]), a=a[j[1]])
        if not ctx.case("distance"):
            return
        q = jx.stack(ps)

        def f(c, a):
            chi = bg.radial_comoving_distance(c, a)
            return chi, bg.a_of_chi(c, chi)

        r = jx.run_over(ctx, "distance", f, ps, (a,), 128)
        if not isinstance(r, tuple):
            return
        chi, inv = r
        ctx.points(chi.size)
        want = onp.concatenate([ref.chi({k: v[s : s + 16, None] for k, v in q.items()}, a[None]) for s in range(0, len(ps), 16)])
        ctx.close("distance", chi, want, rtol=RTOL, atol=ATOL, what="comoving distance", labels=lab)
        ctx.close("today", chi[:, -1], onp.zeros(len(ps)), rtol=0, atol=1e-6, what="distance today")
        dec = onp.diff(chi, axis=1) < 0
        j = onp.argwhere(~dec)
        ctx.true("monotonic", dec.all(), "distance does not decrease with the scale factor: %s" % (lab(j[0]) if len(j) else ""))
        ctx.close("inverse", inv, onp.broadcast_to(a, inv.shape), rtol=1e-3, what="scale factor of the distance", labels=lab)
        # inverse evaluated at reference distances: a consistent with the table's accuracy
        x = onp.linspace(0.02, 0.98, 25)

        def g(c, x):
            chi = x * bg.radial_comoving_distance(c, 1e-3)[0]
            return chi, bg.a_of_chi(c, chi)

        r = jx.run_over(ctx, "inverse", g, ps, (x,), 128)
        if isinstance(r, tuple):
            back = ref.chi(jx.cols(q), onp.clip(r[1], 1e-3, 1))
            ctx.close("inverse", back, r[0], rtol=2e-3, atol=ATOL, what="reference distance of the returned scale factor", labels=lambda j: dict(cosmology=jx.short(ps[j[0]]), fraction=x[j[1]]))
    elif shard.startswith("options"):
        lo, steps = options(ctx)[int(shard[8:])]
        key = "log10_amin=%g steps=%d" % (lo, steps)
        if not ctx.case(key):
            return
        ps = lat(ctx) if ctx.thorough else lat(ctx)[::9]
        aa = onp.unique(onp.clip(onp.concatenate([onp.logspace(lo, 0, 300), 10 ** (onp.linspace(lo, 0, steps))[:-1] * 10 ** (-lo / (steps - 1) / 2)]), 10.0**lo, 1.0))
        aa = aa[:: max(1, len(aa) // 900)]
        got = jx.run_over(ctx, key, lambda c, a: bg.radial_comoving_distance(c, a, lo, steps), ps, (aa,), 128)
        got2 = jx.run_over(ctx, key, lambda c, a: bg.radial_comoving_distance(c, a, log10_amin=lo, steps=steps), ps[:5], (aa,), 128)
        q = jx.stack(ps)
        want = onp.concatenate([ref.chi({k: v[s : s + 16, None] for k, v in q.items()}, aa[None]) for s in range(0, len(ps), 16)])
        ctx.points(want.size)
        # the interpolation error scales with the square of the table spacing
        x = (-lo * onp.log(10) / (steps - 1)) / 0.0271
        ctx.close(key, got, want, rtol=RTOL * max(1, x * x), atol=ATOL * max(0.02, x * x), what="comoving distance", labels=lambda j: dict(cosmology=jx.short(ps[j[0]]), a=aa[j[1]]))
        ctx.close(key, got2, want[:5], rtol=RTOL * max(1, x * x), atol=ATOL * max(0.02, x * x), what="comoving distance, keyword options")
    else:
        part = int(shard[6:])
        al = {k: jx.ALPHA[k] for k in jx.ALPHA}
        for p in split([p for p in lattice(al, 2 if ctx.thorough else 1) if jx.physical(p)], part, 3):
            p = dict(p)
            for gamma in (None, 0.5):
                p["gamma"] = gamma
                key = jx.short(p)
                if not ctx.case(key, p):
                    continue
                c = jx.cosmo(p)
                x = onp.array([0.31, 1.0, 0.0017, 0.77, 0.31])
                want = ref.chi({k: v for k, v in p.items() if k != "gamma"}, x)
                got = ctx.call(key, bg.radial_comoving_distance, c, x)
                ctx.close(key, got, want, rtol=RTOL, atol=ATOL, what="comoving distance")
                ctx.close(key, ctx.call(key, bg.radial_comoving_distance, c, 0.31), want[0], rtol=RTOL, atol=ATOL, shape=False, what="comoving distance at a scalar")
                c2 = jx.cosmo(p)
                # inverse first, on an object without tables
                ctx.close(key, ctx.call(key, lambda: bg.a_of_chi(c2, bg.radial_comoving_distance(c, x))), x, rtol=1e-3, what="a_of_chi on a new object")
                ctx.close(key, ctx.call(key, lambda: bg.a_of_chi(c2, float(onp.asarray(got)[0]))), x[0], rtol=1e-3, shape=False, what="a_of_chi of a scalar")
