"""C14: the transfer function against a transcription of Eisenstein & Hu (1998), over a parameter lattice."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo.transfer as tk
from mc import jx, ref
from mc.lib import lattice, product, split

BOUNDS = dict(
    quick="full product Omega_c(6) Omega_b(5) h(4) x both types x 110 wavenumbers in [1e-5,1e2]; the other parameters on <=2 deviations; 12 rejected types",
    thorough="full product Omega_c(10) Omega_b(8) h(7) x both types x 420 wavenumbers in [1e-6,1e3]",
)
ASSUMPTIONS = ["the reference formula was written from the paper's equation numbers; T_CMB = 2.726 K"]
KINDS = ("eisenhu_osc", "eisenhu")


def lat(ctx):
    al = dict(Omega_c=(0.25, 0.1, 0.15, 0.35, 0.45, 0.7), Omega_b=(0.05, 0.005, 0.02, 0.1, 0.15), h=(0.7, 0.5, 0.9, 1.0))
    if ctx.thorough:
        al = dict(Omega_c=(0.25, 0.02, 0.06, 0.1, 0.15, 0.2, 0.35, 0.45, 0.7, 0.9), Omega_b=(0.05, 1e-3, 0.005, 0.02, 0.035, 0.1, 0.15, 0.3), h=(0.7, 0.4, 0.5, 0.6, 0.8, 0.9, 1.0))
    return [jx.full(**p) for p in product(al)]


def shards(tier):
    return ["grid:eisenhu_osc", "grid:eisenhu", "eager:0", "eager:1", "other"]


def run(ctx, shard):
    k = onp.logspace(-6, 3, 420) if ctx.thorough else onp.logspace(-5, 2, 110)
    if shard.startswith("grid"):
        kind = shard[5:]
        ps = lat(ctx)
        if not ctx.case(kind):
            return
        got = jx.run_over(ctx, kind, lambda c, k: tk.Eisenstein_Hu(c, k, type=kind), ps, (k,), 512)
        want = onp.array([ref.eh(p, k, kind) for p in ps])
        ctx.points(want.size)
        lab = lambda i: dict(Omega_c=ps[i[0]]["Omega_c"], Omega_b=ps[i[0]]["Omega_b"], h=ps[i[0]]["h"], k=k[i[1]])
        ctx.close(kind, got, want, rtol=1e-8, atol=1e-14, what="transfer function (%s)" % kind, labels=lab)
        if kind == "eisenhu_osc":
            d = jx.run_over(ctx, "default", lambda c, k: tk.Eisenstein_Hu(c, k), ps[::5], (k,), 512)
            ctx.close("default", d, want[::5], rtol=1e-8, atol=1e-14, what="default transfer function", labels=lambda i: lab((i[0] * 5, i[1])))
        small = jx.run_over(ctx, "large scales", lambda c, k: tk.Eisenstein_Hu(c, k, type=kind), ps, (onp.array([1e-6, 1e-5]),), 512)
        ctx.close("large scales", small, onp.ones((len(ps), 2)), rtol=0, atol=0.02, what="large-scale limit", labels=lambda i: jx.short(ps[i[0]]))
    elif shard.startswith("eager"):
        part = int(shard[6:])
        x = onp.array([0.2, 1e-3, 3.0, 0.2, 0.05])
        for p in split(lattice(dict(jx.ALPHA, gamma=(None, 0.55)), 2), part, 2):
            key = jx.short(p)
            if not ctx.case(key, p):
                continue
            c = jx.cosmo(p)
            for kind in KINDS:
                w = ref.eh(p, x, kind)
                ctx.close(key, ctx.call(key, lambda: tk.Eisenstein_Hu(c, x, kind)), w, rtol=1e-8, what="transfer function (%s)" % kind)
                if len([n for n in jx.NAMES if p[n] != jx.full()[n]]) < 2:
                    ctx.close(key, ctx.call(key, lambda: tk.Eisenstein_Hu(c, 0.05, type=kind)), w[4], rtol=1e-8, shape=False, what="transfer function at a scalar")
                    ctx.close(key, ctx.call(key, lambda: tk.Eisenstein_Hu(c, jnp.asarray(x).reshape(5, 1), type=kind)), w.reshape(5, 1), rtol=1e-8, what="transfer function on a 2-d array")
    else:
        c = jx.cosmo(jx.full())
        for t in ("", "EISENHU", "eisenhu_nowiggle", "bbks", "eisenhu_", "osc", None, 0, 1, True, False, "eisenhu "):
            key = "type %r" % (t,)
            if ctx.case(key):
                ctx.rejects(key, (NotImplementedError, ValueError, TypeError), lambda: tk.Eisenstein_Hu(c, jnp.array([0.1]), type=t), "type accepted")
        # independence of everything but Omega_c, Omega_b, h and k: bitwise equal results
        base = {kd: onp.asarray(tk.Eisenstein_Hu(c, k, type=kd)) for kd in KINDS}
        for n in ("Omega_k", "w0", "wa", "n_s", "sigma8"):
            for v in jx.ALPHA[n][1:]:
                key = "independent of %s=%g" % (n, v)
                if ctx.case(key):
                    for kd in KINDS:
                        ctx.close(key, ctx.call(key, lambda: tk.Eisenstein_Hu(jx.cosmo(jx.full(**{n: v})), k, type=kd)), base[kd], rtol=1e-12, what=kd)
