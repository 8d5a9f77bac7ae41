"""C22: noise spectra against shot noise on auto pairs and zero elsewhere, over probe lists x densities x ellipticities."""
import itertools

import jax.numpy as jnp
import numpy as onp

from jax_cosmo import probes
from jax_cosmo.angular_cl import noise_cl
from mc import kern, ref

BOUNDS = dict(
    quick="all ordered lists of 1..3 probes with at most 5 tracers over lensing (1-3 bins, ellipticity default, common, per bin) and clustering (1-3 bins); every bin its own density; extended and single planes; 1, 2 and 4 multipoles",
    thorough="at most 8 tracers, probes of up to 4 bins",
)
ASSUMPTIONS = []
DENS = (1.0, 26.0, 0.37, 5.5, 3e-3, 110.0, 2, 17.0, 0.9, 40.0, 7.0, 3.0)
SIG = (0.3, 0.21, 0.5, 0.26, 1.0, 0.4, 0.33, 0.11, 0.6, 0.7, 0.15, 0.45)
N = 6


def kinds(ctx):
    top = 4 if ctx.thorough else 3
    out = [("W", n, s) for n in range(1, top + 1) for s in ("default", "common", "list")]
    return out + [("N", n, "") for n in range(1, top + 1)]


def shards(tier):
    return ["lists:%d/%d" % (i, N) for i in range(N)] + ["values"]


def run(ctx, shard):
    if shard == "values":
        return values(ctx)
    i, n = map(int, shard[6:].split("/"))
    most = 8 if ctx.thorough else 5
    al = [t for m in (1, 2, 3) for t in itertools.product(kinds(ctx), repeat=m) if sum(x[1] for x in t) <= most]
    al.sort(key=lambda t: sum(x[1] for x in t))
    for t in al[i::n]:
        key = "+".join("%s%d%s" % x for x in t)
        if not ctx.case(key):
            continue
        pr, want, used = [], [], 0
        for kind, m, s in t:
            d = DENS[used : used + m]
            sg = SIG[used : used + m]
            # planes and extended bins alternate in lensing probes
            letters = [("SP" if kind == "W" else "ST")[(used + j) % 2] for j in range(m)]
            bins = [kern.nz(b, g) for b, g in zip(letters, d)]
            st = onp.array(d) * ref.STERADIAN_ARCMIN2
            if kind == "N":
                pr.append(probes.NumberCounts(bins, kern.bias_of("one")))
                want += list(1.0 / st)
            else:
                kw = dict(default={}, common=dict(sigma_e=sg[0]), list=dict(sigma_e=list(sg)))[s]
                pr.append(probes.WeakLensing(bins, **kw))
                e = dict(default=onp.full(m, 0.26), common=onp.full(m, sg[0]), list=onp.array(sg))[s]
                want += list(e**2 / st)
            used += m
        off = 0
        for p_, (kind, m, s) in zip(pr, t):
            ctx.close(key, ctx.call(key, p_.noise), want[off : off + m], rtol=1e-9, what="noise of one probe")
            off += m
        pairs = [(a, b) for a in range(used) for b in range(a, used)]
        for ell in (onp.array([10.0]), onp.array([2.0, 700.0]), onp.array([2, 30, 400, 5000])):
            ctx.points(len(pairs))
            w = onp.array([[want[a] * (a == b)] * len(ell) for a, b in pairs])
            got = ctx.call(key, lambda: noise_cl(jnp.asarray(ell), pr))
            ctx.close(key, got, w, rtol=1e-9, atol=0, what="noise spectra", labels=lambda j: dict(pair=pairs[j[0]], ell=ell[j[1]]))


def values(ctx):
    """Extreme values of density and ellipticity."""
    for d, s in itertools.product((1e-6, 1e-2, 1.0, 1e3, 10), (0.0, 1e-3, 0.26, 1.0, 3.0)):
        key = "n=%g sigma=%g" % (d, s)
        if not ctx.case(key):
            continue
        st = d * ref.STERADIAN_ARCMIN2
        pr = [probes.WeakLensing([kern.nz("S", d)], sigma_e=s), probes.NumberCounts([kern.nz("S", d)], kern.bias_of("one"))]
        w = onp.array([[s * s / st], [0.0], [1 / st]]) * onp.ones(3)
        ctx.close(key, ctx.call(key, lambda: noise_cl(jnp.array([2.0, 5.0, 9.0]), pr)), w, rtol=1e-9, what="noise spectra")
