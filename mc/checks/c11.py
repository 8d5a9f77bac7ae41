"""C11: transverse and angular diameter distances against the closed forms, curvature letters of all sizes."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo.background as bg
from mc import jx, ref
from mc.lib import lattice, product, split

BOUNDS = dict(
    quick="Omega_k: 0 and +-{1e-12..0.4} (25 letters) x Omega_c(3) x w0(3) x wa(3) x 40 scale factors; eager on all Omega_k x 3 backgrounds",
    thorough="Omega_k: 41 letters x Omega_c(5) x Omega_b(2) x w0(4) x wa(4) x 120 scale factors; eager on all Omega_k x 9 backgrounds",
)
ASSUMPTIONS = ["closed forms evaluated on the library's own radial distance of the same cosmology (C10 decides that one), and on the reference distance"]


def oks(ctx):
    m = [1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.4]
    if ctx.thorough:
        m += [1e-11, 1e-10, 1e-8, 3e-4, 3e-3, 0.03, 0.3, 0.6]
    return [0.0] + [s * x for x in m for s in (1, -1)]


def lat(ctx):
    al = dict(Omega_k=tuple(oks(ctx)), Omega_c=(0.25, 0.15, 0.45), w0=(-1.0, -0.8, -1.2), wa=(0.0, 0.3, -0.4))
    if ctx.thorough:
        al.update(Omega_c=(0.25, 0.15, 0.45, 0.08, 0.7), Omega_b=(0.05, 0.02), w0=(-1.0, -0.8, -1.2, -0.5), wa=(0.0, 0.3, -0.4, 0.6))
    return [p for p in (jx.full(**p) for p in product(al)) if jx.physical(p)]


def shards(tier):
    n = 3 if tier == "quick" else 8
    return ["grid:%d/%d" % (i, n) for i in range(n)] + ["eager:%d" % i for i in range(5)]


def wanted(ok, chi):
    return ref.fk(dict(Omega_k=ok), chi)


def run(ctx, shard):
    n = 120 if ctx.thorough else 40
    a = onp.unique(onp.concatenate([onp.logspace(-3, 0, n), [0.5, 0.25, 0.1, 0.999]]))
    if shard.startswith("grid"):
        i, n = map(int, shard[5:].split("/"))
        ps = list(split(lat(ctx), i, n))
        lab = lambda j: dict(cosmology=jx.short(ps[j[0]]), a=a[j[1]])
        if not ctx.case("distances"):
            return
        r = jx.run_over(ctx, "distances", lambda c, a: (bg.radial_comoving_distance(c, a), bg.transverse_comoving_distance(c, a), bg.angular_diameter_distance(c, a)), ps, (a,), 128)
        if not isinstance(r, tuple):
            return
        chi, t, d = r
        ctx.points(2 * chi.size)
        q = jx.cols(jx.stack(ps))
        w = wanted(q["Omega_k"], chi)
        ctx.close("transverse", t, w, rtol=1e-9, atol=1e-9, what="transverse distance", labels=lab)
        ctx.close("angular", d, a * w, rtol=1e-9, atol=1e-9, what="angular diameter distance", labels=lab)
        full = ref.fk(dict(Omega_k=q["Omega_k"]), ref.chi(q, a[None]))
        ctx.close("reference", t, full, rtol=1e-3, atol=2.0, what="transverse distance from the reference integral", labels=lab)
        # ordering and continuity in curvature at the same radial distance
        ok = q["Omega_k"]
        ctx.true("sign", bool(onp.all((t - chi) * onp.sign(ok) >= -1e-9 * chi)), "curvature of one sign bends the distance the other way")
    else:
        part = int(shard[6:])
        backs = [dict(), dict(w0=-0.8, wa=0.3), dict(Omega_c=0.15, h=0.9)]
        if ctx.thorough:
            backs += [dict(w0=-1.2), dict(wa=-0.4), dict(Omega_c=0.45), dict(Omega_b=0.02, w0=-0.5), dict(gamma=0.55), dict(gamma=0.0, wa=0.3)]
        for j, ok in enumerate(oks(ctx)):
            if j % 5 != part:
                continue
            for b in backs:
                p = jx.full(Omega_k=ok, **b)
                key = jx.short(p)
                if not ctx.case(key, p) or not jx.physical(p):
                    continue
                c = jx.cosmo(p)
                x = onp.array([0.4, 1.0, 0.002, 0.85, 0.4, 0.1])
                chi = ctx.call(key, lambda: onp.asarray(bg.radial_comoving_distance(jx.cosmo(p), x)))
                if not hasattr(chi, "shape"):
                    continue
                w = wanted(onp.float64(ok), chi)
                ctx.close(key, ctx.call(key, bg.transverse_comoving_distance, c, x), w, rtol=1e-9, atol=1e-9, what="transverse distance")
                ctx.close(key, ctx.call(key, bg.angular_diameter_distance, c, x), x * w, rtol=1e-9, atol=1e-9, what="angular diameter distance")
                for i in (0, 2):
                    ctx.close(key, ctx.call(key, bg.angular_diameter_distance, jx.cosmo(p), float(x[i])), x[i] * w[i], rtol=1e-9, shape=False, what="angular diameter distance at a scalar")
                    ctx.close(key, ctx.call(key, bg.transverse_comoving_distance, c, float(x[i])), w[i], rtol=1e-9, shape=False, what="transverse distance at a scalar")
                ctx.close(key, ctx.call(key, lambda: onp.asarray(c.k)), -onp.sign(ok), rtol=0, shape=False, what="sign of curvature")
                ctx.close(key, ctx.call(key, lambda: onp.asarray(c.sqrtk)), onp.sqrt(abs(ok)), rtol=1e-12, shape=False, what="sqrt of |Omega_k|")
