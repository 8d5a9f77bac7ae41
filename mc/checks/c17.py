"""C17: redshift distributions against their defining densities, over a grammar of distributions."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from scipy.integrate import simpson

from jax_cosmo import redshift as rs
from mc import ref
from mc.lib import product, split

BOUNDS = dict(
    quick="Smail a(5) b(4) z0(4) zmax(4); kernel estimates: 5 catalogues x 4 weightings x 3 bandwidths x 2 zmax; shifts of both: 5 offsets x zmax(2), shifts of shifts; 2 densities; 61 redshifts",
    thorough="Smail a(8) b(6) z0(7) zmax(6); kernel estimates: 9 catalogues x 5 weightings x 5 bandwidths x 4 zmax; shifts: 9 offsets; 241 redshifts",
)
ASSUMPTIONS = ["normalisation by Simpson's rule with 20000 intervals", "distributions narrower than the sampling of the normalisation integral are outside the claim"]


def build(spec, gals=None):
    kw = {} if gals is None else dict(gals_per_arcmin2=gals)
    if spec[0] == "smail":
        return rs.smail_nz(*spec[1:4], zmax=spec[4], **kw)
    if spec[0] == "kde":
        return rs.kde_nz(jnp.asarray(spec[1]), jnp.asarray(spec[2]), bw=spec[3], zmax=spec[4], **kw)
    return rs.systematic_shift(build(spec[1]), spec[2], zmax=spec[3], **kw)


def smails(ctx):
    if ctx.thorough:
        for a, b, z0, zm in itertools.product((1.0, 0.7, 1.5, 2.0, 2.5, 3.0, 4.0, 1.2), (1.5, 1.0, 0.8, 2.0, 2.5, 3.0), (0.5, 0.25, 0.3, 0.7, 1.0, 1.5, 2.5), (10.0, 1.5, 2.0, 4.0, 6.0, 8.0)):
            yield ("smail", a, b, z0, zm)
    else:
        for a, b, z0, zm in itertools.product((1.0, 0.7, 2.0, 3.0, 1.5), (1.5, 1.0, 2.0, 3.0), (0.5, 0.3, 1.0, 2.0), (10.0, 2.0, 4.0, 1.5)):
            yield ("smail", a, b, z0, zm)


def kdes(ctx):
    cats = [(0.5,), (0.3, 0.8, 1.2), (0.3, 0.8, 0.8, 2.0, 0.1), (1.0, 1.0, 1.0), (2.5, 0.2, 0.9, 1.4)]
    if ctx.thorough:
        cats += [tuple(0.1 + 0.13 * i for i in range(16)), (0.0, 0.5), (3.0, 3.1), (0.7, 0.2)]
    for zc in cats:
        n = len(zc)
        for wt in [onp.ones(n), onp.linspace(0.1, 1, n), onp.array([1.0] + [0.25] * (n - 1)), onp.array([(1.0, 0.0)[i % 2] for i in range(n)])] + ([onp.linspace(1, 0.2, n)] if ctx.thorough else []):
            for bw in (0.1, 0.2, 0.4) + ((0.15, 0.08) if ctx.thorough else ()):
                for zm in (10.0, 4.0) + ((3.0, 6.0) if ctx.thorough else ()):
                    yield ("kde", zc, tuple(wt), bw, zm)


def shifts(ctx):
    parents = [("smail", 1.0, 1.5, 0.5, 10.0), ("smail", 2.0, 2.0, 1.0, 4.0), ("kde", (0.3, 0.8, 1.2), (1.0, 0.5, 0.2), 0.15, 10.0)]
    off = (0.05, -0.05, 0.2, -0.2, 0.0) + ((0.01, -0.01, 0.5, -0.3) if ctx.thorough else ())
    for p, b, zm in itertools.product(parents, off, (10.0, 3.0)):
        yield ("shift", p, b, zm)
    for p, b1, b2 in itertools.product(parents, off[:3], off[:4]):
        yield ("shift", ("shift", p, b1, 5.0), b2, 10.0)


def shards(tier):
    n = 3 if tier == "quick" else 8
    return ["smail:%d/%d" % (i, n) for i in range(n)] + ["kde:%d/%d" % (i, n) for i in range(n)] + ["shift:%d/%d" % (i, n) for i in range(n)] + ["delta", "density"]


def run(ctx, shard):
    kind, _, rest = shard.partition(":")
    if kind == "delta":
        return delta(ctx)
    if kind == "density":
        return density(ctx)
    i, n = map(int, rest.split("/"))
    specs = list(split(dict(smail=smails, kde=kdes, shift=shifts)[kind](ctx), i, n))
    fine = None
    compiled = {}
    for spec in specs:
        key = str(spec)
        if not ctx.case(key):
            continue
        zm = ref.nz_zmax(spec)
        z = onp.unique(onp.concatenate([onp.linspace(0, zm, 241 if ctx.thorough else 41), onp.linspace(0, min(zm, 2.0), 20), [zm]]))
        # wide enough for the claim: half-maximum width against zmax
        zz = onp.linspace(0, zm, 4001)
        r = ref.nz_raw(spec, zz)
        if not r.max() > 0 or (r > 0.5 * r.max()).sum() < 4000 / 80:
            ctx.add("too_narrow")
            continue
        want = ref.nz(spec, z)
        ctx.points(len(z) - 1)
        nz = ctx.call(key, build, spec)
        got = ctx.call(key, lambda: onp.asarray(nz(jnp.asarray(z))))
        ctx.close(key, got, want, rtol=1e-2, atol=1e-12, what="n(z)", labels=lambda i: z[i[0]])
        if hasattr(got, "shape") and got.shape == want.shape:
            ctx.true(key, bool((got >= 0).all()), "n(z) is negative")
            j = int(onp.argmax(want))
            ctx.close(key, got / got[j], want / want[j], rtol=1e-7, atol=1e-12, what="shape of n(z)", labels=lambda i: z[i[0]])
        g2 = ctx.call(key, lambda: onp.asarray(nz(z[7])))
        ctx.close(key, g2, want[7], rtol=1e-2, atol=1e-12, shape=False, what="n(z) at a scalar, second call")
        ctx.true(key, nz.zmax == zm, "zmax is %r" % nz.zmax)
        # normalisation on the library's own values
        total = ctx.call(key, lambda: simpson(onp.asarray(nz(jnp.asarray(zz))), x=zz))
        ctx.close(key, total, 1.0, rtol=1e-2, what="integral of n(z)")


def delta(ctx):
    for z0 in (0.5, 0.0, 1.0, 2.7, 9.5):
        for gals in (None, 3.0):
            for zm in (None, 4.0):
                key = "plane %g %s %s" % (z0, gals, zm)
                if not ctx.case(key):
                    continue
                kw = {k: v for k, v in dict(gals_per_arcmin2=gals, zmax=zm).items() if v is not None}
                nz = ctx.call(key, lambda: rs.delta_nz(z0, **kw))
                z = onp.array([0.0, 0.5, 1.0, 2.7, 9.5, 0.5 + 1e-9, 0.4999, 3.0])
                ctx.close(key, ctx.call(key, lambda: nz(z)), (z == z0) * 1.0, rtol=0, what="single plane")
                ctx.close(key, ctx.call(key, lambda: nz(jnp.asarray(z[::-1]))), (z[::-1] == z0) * 1.0, rtol=0, what="single plane, second call")
                ctx.close(key, ctx.call(key, lambda: nz(z0)), 1.0, rtol=0, shape=False, what="single plane at its plane")
                ctx.close(key, nz.gals_per_arcmin2, 1.0 if gals is None else gals, rtol=0, what="density")
                ctx.close(key, nz.gals_per_steradian, (1.0 if gals is None else gals) * ref.STERADIAN_ARCMIN2, rtol=1e-9, what="density per steradian")
                ctx.true(key, nz.zmax == (10.0 if zm is None else zm), "zmax is %r" % nz.zmax)


def density(ctx):
    specs = [("smail", 1.0, 2.0, 1.0, 10.0), ("kde", (0.3, 0.8), (1.0, 0.5), 0.2, 4.0), ("shift", ("smail", 1.0, 2.0, 1.0, 4.0), 0.1, 3.0)]
    for spec, g in itertools.product(specs, (None, 1.0, 0.5, 30.0, 26, 1e-3)):
        key = "density %s %s" % (spec, g)
        if not ctx.case(key):
            continue
        nz = ctx.call(key, lambda: build(spec, g))
        w = 1.0 if g is None else g
        for i in range(2):
            ctx.close(key, nz.gals_per_arcmin2, w, rtol=0, what="density")
            ctx.close(key, nz.gals_per_steradian, w * ref.STERADIAN_ARCMIN2, rtol=1e-9, what="density per steradian")
            z = onp.array([0.2, 0.9])
            ctx.close(key, ctx.call(key, lambda: nz(z)), ref.nz(spec, z), rtol=1e-2, what="n(z) does not depend on the density")
    # default zmax and no shared state between instances
    for a in (1.0, 2.0):
        key = "default zmax a=%g" % a
        if ctx.case(key):
            n1, n2 = rs.smail_nz(a, 1.5, 0.6), rs.smail_nz(a, 1.5, 0.6, zmax=2.0)
            z = onp.linspace(0.1, 1.9, 10)
            for _ in range(2):
                ctx.close(key, ctx.call(key, lambda: n1(z)), ref.nz(("smail", a, 1.5, 0.6, 10.0), z), rtol=1e-2, what="default zmax")
                ctx.close(key, ctx.call(key, lambda: n2(z)), ref.nz(("smail", a, 1.5, 0.6, 2.0), z), rtol=1e-2, what="zmax=2")
