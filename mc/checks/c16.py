"""C16: halofit against the published fits applied to the same linear spectrum, over a parameter lattice."""
from functools import partial

import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo.background as bg
import jax_cosmo.power as power
import jax_cosmo.transfer as tk
from mc import jx, ref
from mc.checks.c15 import bbks
from mc.lib import lattice, split

BOUNDS = dict(
    quick="all <=2 deviations of 8 parameters and 3 gammas x 2 prescriptions x 3 transfer functions (one on <=1 deviations) x 8 scale factors x 25 wavenumbers; 8 choices of the non-linear function",
    thorough="all <=3 deviations of 8 parameters, 14 scale factors, 50 wavenumbers, all transfer functions on <=2 deviations",
)
ASSUMPTIONS = ["the linear spectrum and growth are the library's (C12, C15 decide them); spectral integrals by Simpson's rule with 4096 intervals, root by bisection",
               "points whose non-linear scale lies outside the library's documented search range (below 1e-3 Mpc/h) are compared only in the early-time limit"]
KK = onp.exp(ref.HALOFIT_LK)
TF = dict(osc=tk.Eisenstein_Hu, nowiggle=partial(tk.Eisenstein_Hu, type="eisenhu"), user=bbks)
PRE = ("takahashi2012", "smith2003")


def lat(ctx, tf):
    d = 2 if tf == "osc" else 1
    if ctx.thorough:
        d += 1
    ps = [jx.full(**p) for p in lattice(dict(jx.ALPHA), d)]
    if d == 1:
        ps += [jx.full(**p) for p in (dict(Omega_k=0.1, w0=-0.8, wa=0.3), dict(Omega_k=-0.1, w0=-1.2, wa=-0.4), dict(sigma8=1.2, Omega_c=0.15))]
    return [p for p in ps if jx.physical(p)]


def shards(tier):
    n = 3 if tier == "quick" else 16
    s = ["grid:osc:%s:%d/%d" % (p, i, n) for p in PRE for i in range(n)]
    s += ["grid:%s:%s:%d/%d" % (t, p, i, max(1, n // 4)) for t in ("nowiggle", "user") for p in PRE for i in range(max(1, n // 4))]
    return s + ["gamma:%s" % p for p in PRE] + ["choice:%d" % i for i in range(4)] + ["reject"]


def grid(ctx, tf, pre, ps):
    k = onp.logspace(-3, 1.5, 50 if ctx.thorough else 25)
    a = onp.array([0.02, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 1.0] + ([0.15, 0.25, 0.4, 0.6, 0.8, 0.97] if ctx.thorough else []))
    fn = TF[tf]

    def f(c, k, a):
        # the default prescription is requested by leaving it out
        kw = {} if pre == "takahashi2012" else dict(prescription=pre)
        return (jax.vmap(lambda x: power.halofit(c, k, x, fn, **kw))(a), jax.vmap(lambda x: power.linear_matter_power(c, k, x, fn))(a), power.linear_matter_power(c, KK, 1.0, fn), bg.growth_factor(c, a))

    r = jx.run_over(ctx, "grid", f, ps, (k, a), 32)
    if not isinstance(r, tuple):
        return
    g, l, L, D = r
    ctx.points(g.size)
    want, skip = onp.zeros(g.shape), 0
    for i, p in enumerate(ps):
        for j, x in enumerate(a):
            v, _, ks, _, _ = ref.halofit(p, k, x, prescription=pre, plib=(L[i] * D[i, j] ** 2, l[i, j]), details=True)
            if ks < 1e3:
                want[i, j] = v
            else:
                want[i, j] = g[i, j]
                skip += 1
    ctx.add("points_outside_search_range", skip)
    lab = lambda i: dict(cosmology=jx.short(ps[i[0]]), a=a[i[1]], k=k[i[2]])
    ctx.close("formula", g, want, rtol=1e-2, what="halofit (%s)" % pre, labels=lab)
    ctx.true("positive", bool(onp.isfinite(g).all() and (g > 0).all()), "non-linear power is not positive and finite everywhere")
    m = k <= 0.004
    ctx.close("large scales", g[:, :, m], l[:, :, m], rtol=1e-2, what="large-scale limit", labels=lab)
    m = k <= 0.05
    ctx.close("early times", g[:, 0, m], l[:, 0, m], rtol=1e-2, what="early-time limit", labels=lambda i: dict(cosmology=jx.short(ps[i[0]]), k=k[i[1]]))


def run(ctx, shard):
    kind, _, rest = shard.partition(":")
    if kind == "grid":
        tf, pre, part = rest.split(":")
        i, n = map(int, part.split("/"))
        if ctx.case("%s %s" % (tf, pre)):
            grid(ctx, tf, pre, list(split(lat(ctx, tf), i, n)))
    elif kind == "gamma":
        ps = [jx.full(gamma=g, **b) for g in (0.55, 0.4, 0.7) for b in (dict(), dict(Omega_k=0.1, w0=-0.8, wa=0.3), dict(Omega_k=-0.1, w0=-1.2), dict(Omega_c=0.45, sigma8=1.2))]
        if ctx.case("gamma %s" % rest):
            grid(ctx, "osc", rest, ps)
    elif kind == "choice":
        choices(ctx, int(rest))
    else:
        c = jx.cosmo(jx.full())
        for pre in ("", "Takahashi2012", "smith", "hmcode", None, 0, "takahashi2012 "):
            key = "prescription %r" % (pre,)
            if ctx.case(key):
                ctx.rejects(key, (NotImplementedError, ValueError, TypeError), lambda: power.halofit(c, jnp.array([0.1]), 1.0, tk.Eisenstein_Hu, prescription=pre), "prescription accepted")


def choices(ctx, part):
    """nonlinear_matter_power honours the requested transfer and non-linear functions, eagerly."""
    todo = [(p, t) for p in (jx.full(), jx.full(Omega_k=0.1, w0=-0.8, wa=0.3, h=0.6)) for t in TF]
    k = onp.array([0.01, 0.3, 5.0, 0.3])
    for p, t in split(todo, part, 4):
        c = jx.cosmo(p)
        fn = TF[t]
        rtf = dict(osc=ref.eh, nowiggle=lambda q, x: ref.eh(q, x, "eisenhu"), user=bbks)[t]
        for a in (1.0, 0.4):
            D = float(ref.D_of(p, a)[0])
            pl = ref.plin(p, k, D=D, tf=rtf)
            w = {pre: ref.halofit(p, k, a, tf=rtf, prescription=pre, D=D) for pre in PRE}
            forms = {
                "default": (lambda: power.nonlinear_matter_power(c, k, a, fn), w[PRE[0]]),
                "keyword": (lambda: power.nonlinear_matter_power(c, k, a=a, transfer_fn=fn, nonlinear_fn=power.halofit), w[PRE[0]]),
                "smith": (lambda: power.nonlinear_matter_power(c, k, a, fn, partial(power.halofit, prescription="smith2003")), w[PRE[1]]),
                "linear": (lambda: power.nonlinear_matter_power(c, k, a, fn, power.linear), pl),
                "user": (lambda: power.nonlinear_matter_power(c, k, a, fn, lambda cc, kk, aa, transfer_fn: 3.0 * transfer_fn(cc, kk) * aa), 3.0 * rtf(p, k) * a),
            }
            if a == 1.0:
                forms["today by default"] = (lambda: power.nonlinear_matter_power(c, k, transfer_fn=fn), w[PRE[0]])
            if t == "osc":
                forms["transfer by default"] = (lambda: power.nonlinear_matter_power(c, k, a), w[PRE[0]])
            for name, (f, want) in forms.items():
                key = "%s %s a=%g %s" % (name, t, a, jx.short(p))
                if ctx.case(key):
                    ctx.close(key, ctx.call(key, f), want, rtol=2e-2, what="non-linear power")
