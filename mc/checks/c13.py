"""C13: the growth index model and its consumers against the defining integral, over a parameter lattice."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
import jax_cosmo.background as bg
import jax_cosmo.bias as bias
import jax_cosmo.power as power
from jax_cosmo import probes, redshift
from mc import jx, ref
from mc.lib import lattice, product, split

BOUNDS = dict(
    quick="gamma(8) x Omega_c(3) Omega_k(5) w0(3) wa(3) x ~300 scale factors in [1e-3,1]; consumers (power, halofit, bias, alignment) on gamma(7) x 3 backgrounds",
    thorough="gamma(12) x Omega_c(5) Omega_b(2) Omega_k(7) w0(4) wa(4) x ~600 scale factors; consumers on gamma(12) x 6 backgrounds",
)
ASSUMPTIONS = ["Gauss-Legendre integration of Omega_m^gamma in ln a", "consumers are compared through ratios to their value at a=1, or to the reference growth"]
GAMMAS = (0.55, 0.0, 0.4, 0.7, 1.0, -0.2, 0.6545, 1e-3)


def gammas(ctx):
    return GAMMAS + ((2.0, -0.5, 0.25, 1e-9) if ctx.thorough else ())


def lat(ctx):
    al = dict(gamma=gammas(ctx), Omega_c=(0.25, 0.15, 0.45), Omega_k=(0.0, 0.1, -0.1, 0.3, -1e-3), w0=(-1.0, -0.8, -1.2), wa=(0.0, 0.3, -0.4))
    if ctx.thorough:
        al.update(Omega_c=(0.25, 0.15, 0.45, 0.08, 0.7), Omega_b=(0.05, 0.02), Omega_k=(0.0, 0.1, -0.1, 0.3, -1e-3, 1e-8, -0.2), w0=(-1.0, -0.8, -1.2, -0.5), wa=(0.0, 0.3, -0.4, 0.6))
    return [p for p in (jx.full(**p) for p in product(al)) if jx.physical(p)]


def shards(tier):
    n = 3 if tier == "quick" else 12
    return ["grid:%d/%d" % (i, n) for i in range(n)] + ["use:%d" % i for i in range(6)] + ["eager:0", "eager:1"]


def run(ctx, shard):
    if shard.startswith("grid"):
        i, n = map(int, shard[5:].split("/"))
        k = onp.logspace(-3, 0, 128)
        a = onp.unique(onp.concatenate([k, onp.sqrt(k[1:] * k[:-1]), onp.linspace(0.002, 1, 350 if ctx.thorough else 60)]))
        ps = list(split(lat(ctx), i, n))
        lab = lambda j: dict(cosmology=jx.short(ps[j[0]]), a=a[j[1]])
        if not ctx.case("growth"):
            return
        r = jx.run_over(ctx, "growth", lambda c, a: (bg.growth_factor(c, a), bg.growth_rate(c, a)), ps, (a,), 128)
        if isinstance(r, tuple):
            D, f = r
            ctx.points(2 * D.size)
            q = jx.cols(jx.stack(ps))
            ctx.close("rate", f, ref.om_a(q, a[None]) ** q["gamma"], rtol=1e-9, what="growth rate", labels=lab)
            w = onp.concatenate([ref.growth_gamma({k: v[s : s + 32] for k, v in q.items()}, a[None]) for s in range(0, len(ps), 32)])
            ctx.close("factor", D, w, rtol=3e-3, what="growth factor", labels=lab)
            ctx.close("today", D[:, -1], onp.ones(len(ps)), rtol=1e-9, what="growth factor today", labels=lab)
        # the background never depends on gamma
        bgf = lambda c, a: (bg.H(c, a), bg.Omega_m_a(c, a), bg.Omega_de_a(c, a), bg.radial_comoving_distance(c, a), bg.transverse_comoving_distance(c, a))
        r1 = jx.run_over(ctx, "background", bgf, ps, (a[::6],), 128)
        r0 = jx.run_over(ctx, "background", bgf, [dict(p, gamma=None) for p in ps], (a[::6],), 128)
        if isinstance(r1, tuple) and isinstance(r0, tuple):
            for name, x, y in zip(("H", "Omega_m_a", "Omega_de_a", "distance", "transverse distance"), r1, r0):
                ctx.close("background", x, y, rtol=1e-12, what="%s with and without growth index" % name, labels=lab)
    elif shard.startswith("use"):
        part = int(shard[4:])
        backs = [dict(), dict(w0=-0.8, wa=0.3, Omega_k=0.1), dict(Omega_c=0.45, Omega_k=-0.1)]
        if ctx.thorough:
            backs += [dict(Omega_c=0.15), dict(wa=-0.4, h=0.9), dict(w0=-1.2, Omega_k=0.3)]
        todo = [(b, g) for b in backs for g in gammas(ctx)[: None if ctx.thorough else 7]]
        k = onp.logspace(-3, 1, 9)
        a = onp.array([0.2, 0.5, 0.8, 1.0])
        z = 1 / a - 1

        def all_(c):
            lin = jax.vmap(lambda x: power.linear_matter_power(c, k, x))(jnp.asarray(a))
            nl = jax.vmap(lambda x: power.nonlinear_matter_power(c, k, x))(jnp.asarray(a))
            b = bias.inverse_growth_linear_bias(1.7)(c, jnp.asarray(z))
            nz = [redshift.smail_nz(1.0, 2.0, 1.0)]
            ia = bias.constant_linear_bias(1.0)
            zz = jnp.asarray(z[:3])
            with_ = probes.WeakLensing(nz, ia).kernel(c, zz, 100.0)
            without = probes.WeakLensing(nz).kernel(c, zz, 100.0)
            return lin, nl, b, with_ - without

        f = jax.jit(lambda q: all_(jc.Cosmology(**q)))
        for b, g in split(todo, part, 6):
            p = jx.full(gamma=g, **b)
            key = jx.short(p)
            if not ctx.case(key, p):
                continue
            q = {n: v for n, v in p.items()}
            r = ctx.call(key, lambda: [onp.asarray(v) for v in f({n: float(v) for n, v in q.items()})])
            if not isinstance(r, list):
                continue
            D = ref.growth_gamma(p, a)
            lin, nl, bb, ia = r
            pl = onp.array([ref.plin(p, k, D=d) for d in D])
            ctx.close(key, lin, pl, rtol=1.5e-2, what="linear power")
            ctx.close(key, lin / lin[-1], onp.broadcast_to((D**2)[:, None], lin.shape), rtol=5e-3, what="growth of linear power")
            wnl = onp.array([ref.halofit(p, k, x, D=d) for x, d in zip(a, D)])
            ctx.close(key, nl, wnl, rtol=3e-2, what="non-linear power")
            ctx.close(key, bb, 1.7 / D, rtol=4e-3, what="inverse-growth bias")
            spec = ("smail", 1.0, 2.0, 1.0, 10.0)
            zz = z[:3]
            w = -(5e-14 * ref.RHOCRIT) * ref.om(p) / D[:3] * ref.nz(spec, zz) * ref.H(p, a[:3]) * ref.ell_factor(100.0)
            ctx.close(key, ia[0], w, rtol=6e-3, what="intrinsic alignment term")
    else:
        part = int(shard[6:])
        x = onp.array([0.31, 1.0, 0.0017, 0.77])
        todo = [(g, b) for g in gammas(ctx) for b in (dict(), dict(Omega_k=0.1, w0=-0.8), dict(h=0.5, sigma8=1.2))]
        for g, b in split(todo, part, 2):
            for form in ("float", "array", "numpy"):
                p = jx.full(gamma=g, **b)
                key = jx.short(p) + " gamma as " + form
                if not ctx.case(key, p):
                    continue
                gv = dict(float=float(g), array=jnp.asarray(g), numpy=onp.float64(g))[form]
                mk = lambda: jx.cosmo(dict(p, gamma=gv))
                w = ref.growth_gamma(p, x)
                c = ctx.call(key, mk)
                ctx.close(key, ctx.call(key, lambda: bg.growth_factor(c, x)), w, rtol=3e-3, what="growth factor")
                ctx.close(key, ctx.call(key, lambda: bg.growth_rate(c, x)), ref.om_a(p, x) ** g, rtol=1e-9, what="growth rate")
                c = ctx.call(key, mk)
                ctx.close(key, ctx.call(key, lambda: bg.growth_rate(c, 0.31)), ref.om_a(p, 0.31) ** g, rtol=1e-9, shape=False, what="growth rate at a scalar, first call")
                ctx.close(key, ctx.call(key, lambda: bg.growth_factor(c, 0.31)), w[0], rtol=3e-3, shape=False, what="growth factor at a scalar")
                ctx.close(key, ctx.call(key, lambda: c.gamma), g, rtol=0, shape=False, what="reported gamma")
