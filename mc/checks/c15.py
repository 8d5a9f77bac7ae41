"""C15: linear power: exact shape and growth, amplitude by an independent variance integral; the variance function."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as onp
from scipy.integrate import simpson

import jax_cosmo.background as bg
import jax_cosmo.power as power
import jax_cosmo.transfer as tk
from mc import jx, ref
from mc.lib import lattice, product, split

BOUNDS = dict(
    quick="all <=2 deviations of 8 parameters plus full product n_s(3) sigma8(4) Omega_c(3) h(3), with and without gamma, x 5 transfer functions x 6 scale factors x 25 wavenumbers; variance at 6 radii",
    thorough="all <=3 deviations of 8 parameters and the product, same transfer functions, 12 scale factors, 60 wavenumbers; variance at 14 radii",
)
ASSUMPTIONS = ["variance by Simpson's rule with 4096 log-spaced intervals over the documented range [1e-4, 1e3]", "growth from the library (C12, C13 decide it)", "user transfer functions decay like physical ones"]
KK = onp.exp(onp.linspace(onp.log(1e-4), onp.log(1e3), 8193))


def bbks(c, k, scale=1.0):
    """A user supplied transfer function with an option; works on both kinds of cosmology."""
    om = (c["Omega_c"] + c["Omega_b"]) if isinstance(c, dict) else c.Omega_m
    h = c["h"] if isinstance(c, dict) else c.h
    xp = jnp if isinstance(k, jax.Array) or isinstance(om, jax.Array) else onp
    q = scale * k / (om * h)
    return xp.log(1 + 2.34 * q) / (2.34 * q) * (1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25


# name -> (library transfer function, keyword arguments, reference transfer function)
TF = {
    "default": (None, {}, ref.eh),
    "osc": (tk.Eisenstein_Hu, dict(type="eisenhu_osc"), ref.eh),
    "nowiggle": (tk.Eisenstein_Hu, dict(type="eisenhu"), lambda p, k: ref.eh(p, k, "eisenhu")),
    "user": (bbks, {}, bbks),
    "user option": (bbks, dict(scale=1.7), lambda p, k: bbks(p, k, 1.7)),
}


def lin(c, k, a, name):
    f, kw, _ = TF[name]
    return power.linear_matter_power(c, k, a, **kw) if f is None else power.linear_matter_power(c, k, a, f, **kw)


def lat(ctx):
    ps = list(lattice(dict(jx.ALPHA), 3 if ctx.thorough else 2))
    ps += [jx.full(**p) for p in product(dict(n_s=(0.96, 0.85, 1.1), sigma8=(0.8, 0.5, 1.2, 0.01), Omega_c=(0.25, 0.15, 0.45), h=(0.7, 0.5, 0.9)))]
    seen, out = set(), []
    for p in ps:
        p = jx.full(**p)
        if jx.short(p) not in seen and jx.physical(p):
            seen.add(jx.short(p))
            out.append(p)
    return out


def shards(tier):
    n = 2 if tier == "quick" else 6
    return ["grid:%s:%d/%d" % (t, i, n) for t in TF for i in range(n)] + ["gamma:%s" % t for t in TF] + ["sigma:%s" % t for t in TF if t != "osc"] + ["eager:0", "eager:1"]


def run(ctx, shard):
    kind, _, rest = shard.partition(":")
    nk = 60 if ctx.thorough else 25
    k = onp.logspace(-4, 2, nk)
    a = onp.array([1.0, 0.02, 0.1, 0.35, 0.6, 0.9] + ([0.05, 0.2, 0.25, 0.5, 0.75, 0.99] if ctx.thorough else []))
    if kind in ("grid", "gamma"):
        name, _, part = rest.partition(":")
        ps = lat(ctx)
        if kind == "grid":
            i, n = map(int, part.split("/"))
            ps = list(split(ps, i, n))
        else:
            ps = [dict(p, gamma=g) for p in ps[:: 12 if not ctx.thorough else 6] for g in (0.55, 0.0, 0.7)]
        if not ctx.case(name):
            return

        def f(c, k, a, kk):
            return jax.vmap(lambda x: lin(c, k, x, name))(a), bg.growth_factor(c, a), lin(c, kk, 1.0, name)

        r = jx.run_over(ctx, name, f, ps, (k, a, KK), 32)
        if not isinstance(r, tuple):
            return
        P, D, P0 = r
        ctx.points(P.size)
        tf = TF[name][2]
        lab = lambda i: dict(cosmology=jx.short(ps[i[0]]), a=a[i[1]], k=k[i[2]])
        shape = onp.array([k ** p["n_s"] * tf(p, k) ** 2 for p in ps])
        # amplitude-free comparison of shape and growth
        ref_i = nk // 2
        ctx.close("shape", P / P[:, :, ref_i : ref_i + 1], onp.broadcast_to((shape / shape[:, ref_i : ref_i + 1])[:, None], P.shape), rtol=1e-7, what="shape of the spectrum", labels=lab)
        ctx.close("growth", P / P[:, :1], onp.broadcast_to(((D / D[:, :1]) ** 2)[:, :, None], P.shape), rtol=1e-9, what="growth of the spectrum", labels=lab)
        y = KK**3 * P0 * ref.tophat(8 * KK) ** 2 / (2 * onp.pi**2)
        s2 = simpson(y, x=onp.log(KK), axis=1)
        ctx.close("sigma8", s2, onp.array([p["sigma8"] ** 2 for p in ps]), rtol=1e-2, what="top-hat variance at 8 Mpc/h", labels=lambda i: jx.short(ps[i[0]]))
        prim = jx.run_over(ctx, "primordial", lambda c, k: power.primordial_matter_power(c, k), ps, (k,), 128)
        ctx.close("primordial", prim, onp.array([k ** p["n_s"] for p in ps]), rtol=1e-10, what="primordial spectrum", labels=lambda i: dict(cosmology=jx.short(ps[i[0]]), k=k[i[1]]))
    elif kind == "sigma":
        name = rest
        f, kw, tf = TF[name]
        f = f or tk.Eisenstein_Hu
        ps = lat(ctx)[:: 1 if ctx.thorough else 3]
        radii = (8.0, 2.0, 4.0, 12.0, 16.0, 30.0) + ((2.5, 3.0, 5.0, 6.0, 10.0, 14.0, 20.0, 25.0) if ctx.thorough else ())
        for R in radii:
            key = "%s R=%g" % (name, R)
            if not ctx.case(key):
                continue
            got = jx.run_over(ctx, key, lambda c: jnp.reshape(power.sigmasqr(c, R, f, **kw), ()), ps, (), 512)
            ctx.points(len(ps) - 1)
            ctx.close(key, got, onp.array([ref.sigma2_unnorm(p, R, tf) for p in ps]), rtol=2e-2, what="variance", labels=lambda i: jx.short(ps[i[0]]))
        for lo, hi in ((1e-3, 10.0), (1e-4, 100.0), (1e-2, 1.0), (1e-5, 10.0)):
            key = "%s range [%g,%g]" % (name, lo, hi)
            if not ctx.case(key):
                continue
            got = jx.run_over(ctx, key, lambda c: jnp.reshape(power.sigmasqr(c, 8.0, f, kmin=lo, kmax=hi, **kw), ()), ps[:40], (), 512)
            ctx.close(key, got, onp.array([ref.sigma2_unnorm(p, 8.0, tf, lo, hi) for p in ps[:40]]), rtol=2e-2, what="variance over a range", labels=lambda i: jx.short(ps[i[0]]))
    else:
        part = int(rest)
        todo = [jx.full(), jx.full(Omega_k=0.1, w0=-0.8, wa=0.3), jx.full(gamma=0.4, Omega_c=0.45), jx.full(n_s=1.1, sigma8=1.2, h=0.5)]
        for p in split(todo, part, 2):
            for name in TF:
                key = "%s %s" % (name, jx.short(p))
                if not ctx.case(key, p):
                    continue
                c = jx.cosmo(p)
                x = onp.array([0.2, 0.01, 3.0, 0.2])
                w = ref.plin(p, x, D=1.0, tf=TF[name][2])
                D = ref.D_of(p, 0.4)[0]
                f, kw, _ = TF[name]
                kw = dict(kw) if f is None else dict(kw, transfer_fn=f)
                ctx.close(key, ctx.call(key, lambda: power.linear_matter_power(c, x, **kw)), w, rtol=1.2e-2, what="power today by default")
                ctx.close(key, ctx.call(key, lambda: power.linear_matter_power(c, x, a=0.4, **kw)), w * D**2, rtol=1.7e-2, what="power at a=0.4")
                ctx.close(key, ctx.call(key, lambda: lin(c, 0.2, 0.4, name)), w[0] * D**2, rtol=1.7e-2, shape=False, what="power at scalars")
                if not TF[name][1]:
                    ctx.close(key, ctx.call(key, lambda: power.linear(c, x, 0.4, f or tk.Eisenstein_Hu)), w * D**2, rtol=1.7e-2, what="power.linear")
