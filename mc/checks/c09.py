"""C09: parameters, derived densities and closed-form background functions over a parameter lattice."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import parameters, utils
from mc import jx, ref
from mc.lib import key_of, lattice, product, split

BOUNDS = dict(
    quick="full product of Omega_c(3) Omega_b(2) Omega_k(7) w0(3) wa(3) x 36 scale factors; eager calls on all <=2-deviations of 9 parameters; all preset overrides",
    thorough="full product of Omega_c(5) Omega_b(3) Omega_k(11) w0(6) wa(5) x 120 scale factors; eager calls on all <=3-deviations",
)
ASSUMPTIONS = ["closed-form CPL/Friedmann expressions in numpy"]
A = onp.concatenate([onp.logspace(-4, 0, 25), [1.1, 1.5, 3.0, 0.3, 0.7, 0.999999, 1.0, 0.05, 0.123, 0.5, 0.9]])
FN = dict(w=ref.w, f_de=ref.fde, Esqr=ref.esqr, H=ref.H, Omega_m_a=ref.om_a, Omega_de_a=ref.ode_a, dchioverda=ref.dchida)
PROPS = dict(Omega_c=lambda p: p["Omega_c"], Omega_b=lambda p: p["Omega_b"], h=lambda p: p["h"], n_s=lambda p: p["n_s"], sigma8=lambda p: p["sigma8"],
             Omega_k=lambda p: p["Omega_k"], w0=lambda p: p["w0"], wa=lambda p: p["wa"], Omega=lambda p: 1 - p["Omega_k"], Omega_m=ref.om, Omega_de=ref.ode_)


def alpha(ctx):
    if not ctx.thorough:
        return {k: jx.ALPHA[k] for k in ("Omega_c", "Omega_b", "Omega_k", "w0", "wa")}
    return dict(Omega_c=(0.25, 0.15, 0.45, 0.05, 0.9), Omega_b=(0.05, 0.02, 0.1), Omega_k=(0.0, 0.1, -0.1, 1e-3, -1e-3, 0.3, -0.2, 1e-8, -1e-8, 0.7, -0.5),
                w0=(-1.0, -0.8, -1.2, 0.0, -2.0, -1 / 3), wa=(0.0, 0.3, -0.4, 0.9, -1.0))


def shards(tier):
    return ["grid", "eager:0", "eager:1", "eager:2", "preset"]


def run(ctx, shard):
    if shard == "grid":
        a = onp.unique(onp.concatenate([A, onp.logspace(-4, 0.3, 84)])) if ctx.thorough else A
        ps = [jx.full(**p) for p in product(alpha(ctx))]
        q = jx.cols(jx.stack(ps))
        lab = lambda i: dict(jx_=jx.short(ps[i[0]]), a=a[i[1]])
        for name, f in FN.items():
            if ctx.case(name):
                got = jx.run_over(ctx, name, getattr(bg, name), ps, (a,), 4096)
                ctx.points(len(ps) * len(a) - 1)
                with onp.errstate(all="ignore"):
                    want = f(q, a[None, :]) + onp.zeros((len(ps), len(a)))
                    ok = onp.isfinite(want) & (ref.esqr(q, a[None]) > 1e-6)
                want = onp.where(ok, want, 0.0)
                if hasattr(got, "shape") and got.shape == want.shape:
                    got = onp.where(ok, got, 0.0)
                ctx.close(name, got, want, rtol=1e-9, atol=1e-11 if name in ("w", "f_de") else 0, what=name, labels=lab)
        if ctx.case("sum"):
            def total(c, a):
                return bg.Omega_m_a(c, a) + bg.Omega_de_a(c, a) + c.Omega_k * a**-2.0 / bg.Esqr(c, a)

            got = jx.run_over(ctx, "sum", total, ps, (a,), 4096)
            if hasattr(got, "shape"):
                got = onp.where(ref.esqr(q, a[None]) > 1e-6, got, 1.0)
            ctx.close("sum", got, onp.ones((len(ps), len(a))), rtol=1e-8, what="sum of the density fractions", labels=lab)
            e1 = jx.run_over(ctx, "sum", lambda c: bg.Esqr(c, 1.0), ps, (), 4096)
            ctx.close("sum", e1, onp.ones(len(ps)), rtol=1e-12, what="E^2 today", labels=lab and (lambda i: jx.short(ps[i[0]])))
    elif shard.startswith("eager"):
        part = int(shard[6:])
        al = dict(jx.ALPHA, gamma=(None, 0.55, 0.0, 1, -0.1))
        for p in split(lattice(al, 3 if ctx.thorough else 2), part, 3):
            key = jx.short(p)
            if not ctx.case(key, dict(p)):
                continue
            c = ctx.call(key, jx.cosmo, p)
            if not isinstance(c, jc.Cosmology):
                continue
            for n, f in PROPS.items():
                ctx.close(key, ctx.call(key, lambda: getattr(c, n)), f(p), rtol=1e-14, atol=1e-15, what=n)
            ctx.true(key, (c.gamma is None) == (p["gamma"] is None) and (c.gamma is None or c.gamma == p["gamma"]), "gamma is %r, expected %r" % (c.gamma, p["gamma"]))
            text = ctx.call(key, lambda: str(c) + repr(c))
            for name in ("h", "Omega_b", "Omega_c", "Omega_k", "w0", "wa", "sigma8"):
                ctx.true(key, isinstance(text, str) and str(p[name]) in text, "the text form does not report %s=%s: %r" % (name, p[name], text))
            for i, a in enumerate((0.37, onp.array([1.0, 0.002, 0.6, 0.6]), jnp.array(0.8))):
                for n, f in FN.items():
                    with onp.errstate(all="ignore"):
                        want = onp.asarray(f(p, onp.asarray(a)))
                    ctx.close(key, ctx.call(key, getattr(bg, n), c, a), want, rtol=1e-9, atol=1e-12, shape=i < 2 or None, what="%s at %s" % (n, a))
    else:
        base = dict(Omega_c=0.2589, Omega_b=0.04860, Omega_k=0.0, h=0.6774, n_s=0.9667, sigma8=0.8159, w0=-1.0, wa=0.0)
        names = list(base) + ["gamma"]
        over = dict(Omega_c=0.31, Omega_b=0.04, Omega_k=-0.05, h=0.72, n_s=0.91, sigma8=0.75, w0=-0.9, wa=0.2, gamma=0.6)
        import itertools

        for d in range(0, 10 if ctx.thorough else 4):
            for which in itertools.combinations(names, d):
                key = "preset with %s" % (which,)
                if not ctx.case(key):
                    continue
                kw = {n: over[n] for n in which}
                want = dict(base, gamma=None)
                want.update(kw)
                for src in (parameters.Planck15, jc.Planck15):
                    c = ctx.call(key, lambda: src(**kw))
                    for n in names:
                        v = ctx.call(key, lambda: getattr(c, n))
                        ctx.true(key, v == want[n], "%s is %r, expected %r" % (n, v, want[n]))
        # positional construction follows the documented order
        if ctx.case("positional"):
            v = [0.31, 0.04, 0.72, 0.91, 0.75, -0.05, -0.9, 0.2, 0.6]
            for n in (8, 9):
                c = ctx.call("positional", lambda: jc.Cosmology(*v[:n]))
                for name, x in zip(list(jx.NAMES) + ["gamma"], v[:n]):
                    ctx.true("positional", getattr(c, name) == x, "%s is %r, expected %r" % (name, getattr(c, name), x))
        zs = onp.concatenate([[0.0, 0.5, 1.0, 3.0, 9.0, 999.0], onp.linspace(0, 5, 11)])
        for z in list(zs) + [zs]:
            key = "z=%s" % onp.asarray(z).tolist()
            if ctx.case(key):
                a = ctx.call(key, utils.z2a, z)
                ctx.close(key, a, 1 / (1 + onp.asarray(z)), rtol=1e-14, what="z2a")
                ctx.close(key, ctx.call(key, utils.a2z, a), z, rtol=1e-12, atol=1e-12, what="a2z")
                ctx.close(key, ctx.call(key, utils.z2a, jnp.asarray(z)), 1 / (1 + onp.asarray(z)), rtol=1e-14, what="z2a of a jax array")
