"""C23: Gaussian covariance against Wick's theorem: a basis of signals and noises, identifying spectra, all options."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from jax_cosmo import probes
from jax_cosmo.angular_cl import angular_cl, gaussian_cl_covariance, gaussian_cl_covariance_and_mean, noise_cl
from jax_cosmo.sparse import to_dense
from mc import jx, kern
from mc.checks.c21 import user_power

BOUNDS = dict(
    quick="1..4 tracers grouped in every way into probes; all pairs of unit spectra (the covariance is a quadratic form, so they determine it) x signal/noise placement; prime spectra x 5 multipole sets of 2..6 x 4 sky fractions x dense/sparse; positive semi-definiteness on all correlation patterns over 3 letters; combined mean and covariance on 6 probe lists",
    thorough="the same with 5 tracers, more multipole sets and probe lists",
)
ASSUMPTIONS = ["the bandwidth is the central difference of the multipoles (one-sided at the ends)"]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293]
ELLS = ([10.0, 11.0], [2.0, 12.0, 22.0], [2.0, 5.0, 20.0, 100.0], [10, 20, 30], [3.0, 4.5, 7.0, 8.0, 30.0, 31.0])


def shards(tier):
    return ["basis:%d" % n for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ())] + ["primes:%d" % n for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ())] + ["psd", "mean:0", "mean:1", "mean:2"]


def index(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def bandwidth(ell):
    e = onp.asarray(ell, float)
    d = onp.empty_like(e)
    d[1:-1] = (e[2:] - e[:-2]) / 2
    d[0], d[-1] = e[1] - e[0], e[-1] - e[-2]
    return d


def wick(n, ell, obs, f_sky):
    """(ncls, ncls, nell) blocks."""
    ix = index(n)
    full = onp.zeros((n, n, len(ell)))
    for s, (i, j) in zip(obs, ix):
        full[i, j] = full[j, i] = s
    e = onp.asarray(ell, float)
    norm = (2 * e + 1) * bandwidth(e) * f_sky
    return onp.array([[(full[i, m] * full[j, k] + full[i, k] * full[j, m]) / norm for m, k in ix] for i, j in ix])


def dense(b):
    n, _, d = b.shape
    out = onp.zeros((n * d, n * d))
    for i in range(n):
        for j in range(n):
            for k in range(d):
                out[i * d + k, j * d + k] = b[i, j, k]
    return out


def groupings(n):
    """All compositions of n tracers into probes, kinds alternating."""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        sizes, s = [], 1
        for c in cuts:
            if c:
                sizes.append(s)
                s = 1
            else:
                s += 1
        yield sizes + [s]


def build(sizes, flip=0):
    out = []
    for q, m in enumerate(sizes):
        b = [kern.nz("ST"[j % 2]) for j in range(m)]
        out.append(probes.NumberCounts(b, kern.bias_of("one")) if (q + flip) % 2 else probes.WeakLensing(b))
    return out


def run(ctx, shard):
    kind, _, rest = shard.partition(":")
    if kind == "basis":
        basis(ctx, int(rest))
    elif kind == "primes":
        primes(ctx, int(rest))
    elif kind == "psd":
        psd(ctx)
    else:
        mean(ctx, int(rest))


def basis(ctx, n):
    ell = [2.0, 5.0, 20.0]
    nc = len(index(n))
    pr = build([n])
    for p, q in itertools.combinations_with_replacement(range(nc), 2):
        for place in ("signal", "noise", "split"):
            key = "n=%d units %d,%d %s" % (n, p, q, place)
            if not ctx.case(key):
                continue
            e = onp.zeros((2, nc, 3))
            scale = onp.array([1.0, 2.0, 3.0])
            e[1 if place == "noise" else 0, p] += scale
            e[0 if place == "signal" else 1, q] += scale
            w = wick(n, ell, e[0] + e[1], 0.25)
            g = ctx.call(key, lambda: gaussian_cl_covariance(jnp.asarray(ell), pr, jnp.asarray(e[0]), jnp.asarray(e[1])))
            ctx.close(key, g, w, rtol=1e-12, what="default covariance (sparse, f_sky=0.25)")
            g = ctx.call(key, lambda: gaussian_cl_covariance(jnp.asarray(ell), pr, jnp.asarray(e[0]), jnp.asarray(e[1]), sparse=False))
            ctx.close(key, g, dense(w), rtol=1e-12, what="dense covariance")


def primes(ctx, n):
    nc = len(index(n))
    fs = (0.25, 1.0, 0.1, 0.36)
    for gi, sizes in enumerate(groupings(n)):
        for li, ell in enumerate(ELLS):
            if gi and li > 1 and not ctx.thorough:
                continue
            ne = len(ell)
            sig = onp.array([[PRIMES[(i * ne + l) % 60] for l in range(ne)] for i in range(nc)], float)
            noi = onp.array([[PRIMES[(i * 3 + l * 7 + 1) % 60] / 4.0 for l in range(ne)] for i in range(nc)])
            for f in fs:
                key = "n=%d sizes=%s ell=%s f=%g" % (n, sizes, ell, f)
                if not ctx.case(key):
                    continue
                ctx.points(2)
                pr = build(sizes, li % 2)
                w = wick(n, ell, sig + noi, f)
                s = ctx.call(key, lambda: gaussian_cl_covariance(jnp.asarray(ell), pr, jnp.asarray(sig), jnp.asarray(noi), f_sky=f, sparse=True))
                d = ctx.call(key, lambda: gaussian_cl_covariance(jnp.asarray(ell), pr, jnp.asarray(sig), jnp.asarray(noi), f, False))
                ctx.close(key, s, w, rtol=1e-12, what="sparse covariance")
                ctx.close(key, d, dense(w), rtol=1e-12, what="dense covariance")
                ctx.close(key, ctx.call(key, lambda: to_dense(s)), dense(w), rtol=1e-12, what="dense form of the sparse covariance")
                if hasattr(d, "shape"):
                    ctx.close(key, d, onp.asarray(d).T, rtol=1e-14, what="transpose")


def psd(ctx):
    """Realisable spectra (positive definite at each multipole) give a positive semi-definite covariance."""
    ell = [2.0, 5.0, 20.0]
    for n in (2, 3):
        pr = build([n])
        for cor in itertools.product((0.0, 0.9, -0.9), repeat=len(index(n)) - n):
            M = onp.eye(n)
            for (i, j), r in zip([t for t in index(n) if t[0] != t[1]], cor):
                M[i, j] = M[j, i] = r
            if onp.linalg.eigvalsh(M)[0] < -1e-12:
                continue
            key = "n=%d correlations %s" % (n, cor)
            if not ctx.case(key):
                continue
            amp = onp.arange(1, n + 1)
            sig = onp.array([M[i, j] * amp[i] * amp[j] * onp.array([1.0, 0.1, 3.0]) for i, j in index(n)])
            d = ctx.call(key, lambda: onp.asarray(gaussian_cl_covariance(jnp.asarray(ell), pr, jnp.asarray(sig), jnp.zeros_like(sig), sparse=False)))
            ctx.close(key, d, dense(wick(n, ell, sig, 0.25)), rtol=1e-12, what="dense covariance")
            if hasattr(d, "shape"):
                ev = onp.linalg.eigvalsh(d)
                ctx.true(key, bool(ev[0] > -1e-12 * ev[-1]), "covariance is not positive semi-definite: smallest eigenvalue %g" % ev[0])


def mean(ctx, part):
    c = jx.cosmo(kern.COSMOS["open"])
    lists = [[1], [2], [1, 1], [2, 1], [1, 2], [1, 1, 1]]
    if ctx.thorough:
        lists += [[3], [2, 2], [1, 1, 2], [1, 2, 1]]
    ell = jnp.asarray([5.0, 30.0, 50.0, 400.0])
    for i, sizes in enumerate(lists):
        if i % 3 != part:
            continue
        pr = build(sizes, i % 2)
        n = sum(sizes)
        cl = None
        for f, sp in ((None, None), (0.25, True), (0.7, False), (0.7, True)):
            key = "mean sizes=%s f=%s sparse=%s" % (sizes, f, sp)
            if not ctx.case(key):
                continue
            if cl is None:
                cl = ctx.call(key, lambda: onp.asarray(jax.jit(lambda c, q: angular_cl(c, ell, q, nonlinear_fn=user_power))(c, pr)))
                no = ctx.call(key, lambda: onp.asarray(noise_cl(ell, pr)))
            if not hasattr(cl, "shape"):
                return
            kw = {} if f is None else dict(f_sky=f, sparse=sp)
            r = ctx.call(key, lambda: jax.jit(lambda c, q: gaussian_cl_covariance_and_mean(c, ell, q, nonlinear_fn=user_power, **kw))(c, pr))
            if not isinstance(r, tuple):
                continue
            ctx.points(1)
            ctx.close(key, r[0], cl.ravel(), rtol=1e-9, what="flattened mean")
            w = wick(n, ell, cl + no, 0.25 if f is None else f)
            sc = onp.sqrt(onp.einsum("iik->ik", w))
            if sp:
                ctx.close(key, r[1], w, rtol=1e-7, atol=1e-10 * sc[:, None] * sc[None], what="sparse covariance")
            else:
                s = sc.ravel()
                ctx.close(key, r[1], dense(w), rtol=1e-7, atol=1e-10 * onp.outer(s, s), what="dense covariance")
