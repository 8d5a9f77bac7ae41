"""C24: the Gaussian log likelihood against the log density, over all small integer covariances and residuals."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from scipy.stats import multivariate_normal

from jax_cosmo.likelihood import gaussian_log_likelihood
from mc.lib import batches

BOUNDS = dict(
    quick="all symmetric positive-definite integer matrices: size 1 (entries 1..6), 2 (diagonal 1..4, off-diagonal -3..3), 3 (diagonal 1..3, off-diagonal -2..2) x all residuals over {-1,0,2} x determinant option x both methods; all block-diagonal sparse matrices of those blocks (1..3 blocks of size 1..3, bounded); scales 1e-30..1e12; data/mean split",
    thorough="diagonals up to 5 and off-diagonals up to 4 for size 2 and 3; all pairs of blocks in sparse form",
)
ASSUMPTIONS = []


def spd(n, hi, off):
    """All SPD integer matrices of size n."""
    tri = [(i, j) for i in range(n) for j in range(i)]
    for d in itertools.product(range(1, hi + 1), repeat=n):
        for o in itertools.product(range(-off, off + 1), repeat=len(tri)):
            M = onp.diag(onp.array(d, float))
            for (i, j), v in zip(tri, o):
                M[i, j] = M[j, i] = v
            if all(round(onp.linalg.det(M[:k, :k])) > 0 for k in range(1, n + 1)):
                yield M


def mats(ctx, n):
    if n == 1:
        return list(spd(1, 6, 0))
    if n == 2:
        return list(spd(2, 5 if ctx.thorough else 4, 4 if ctx.thorough else 3))
    return list(spd(3, 4 if ctx.thorough else 3, 2))


def resid(n):
    return onp.array(list(itertools.product((-1.0, 0.0, 2.0), repeat=n)))


def density(C, r, logdet):
    chi = onp.einsum("mri,mri->mr", r[None] + 0 * C[:, :1, :1], onp.linalg.solve(C[:, None], (r[None] + 0 * C[:, :1, :1])[..., None])[..., 0])
    return -0.5 * (chi + (onp.linalg.slogdet(C)[1][:, None] if logdet else 0.0))


def shards(tier):
    return ["dense:1", "dense:2", "dense:3", "sparse:1", "sparse:2", "sparse:3", "scales", "eager"]


def many(opts):
    """Log likelihoods of all covariances x residuals; data and mean are split differently for every residual."""

    def one(C, r, mu):
        return gaussian_log_likelihood(mu - r, mu, C, **opts)

    return jax.jit(jax.vmap(jax.vmap(one, (None, 0, 0)), (0, None, None)))


DENSE = [dict(), dict(include_logdet=False), dict(inverse_method="cholesky"), dict(include_logdet=False, inverse_method="cholesky"), dict(include_logdet=True, inverse_method="inverse")]


def run(ctx, shard):
    kind, _, rest = shard.partition(":")
    if kind == "dense":
        n = int(rest)
        C = onp.array(mats(ctx, n))
        r = resid(n)
        mu = onp.outer(onp.arange(len(r)) % 3, onp.arange(1, n + 1)) * 1.0
        for o in DENSE:
            key = "dense n=%d %s" % (n, o)
            if not ctx.case(key):
                continue
            ctx.points(len(C) * len(r))
            w = density(C, r, o.get("include_logdet", True))
            got = ctx.call(key, lambda: onp.asarray(many(o)(C, r, mu)))
            ctx.close(key, got, w, rtol=1e-9, atol=1e-9, what="log likelihood", labels=lambda i: dict(C=C[i[0]].tolist(), r=r[i[1]].tolist()))
    elif kind == "sparse":
        sparse(ctx, int(rest))
    elif kind == "scales":
        scales(ctx)
    else:
        eager(ctx)


def sparse(ctx, n):
    """Covariances with d diagonal entries per block: at each of the d positions an SPD matrix of size n."""
    al = mats(ctx, n)
    for d in (1, 2, 3, 4):
        cap = 40000 if ctx.thorough else 4000
        picks = list(itertools.product(range(len(al)), repeat=d)) if len(al) ** d <= cap else None
        if picks is None:
            # cover every matrix at every position, next to every neighbour at bounded offsets
            offs = range(1, max(2, cap // len(al)))
            picks = [tuple((i + k * o) % len(al) for k in range(d)) for i in range(len(al)) for o in offs]
        B = onp.array([onp.stack([al[i] for i in p], axis=-1) for p in picks])
        r1 = resid(n)
        sel = onp.arange(len(r1))
        r = onp.array([onp.stack([r1[(s * (k + 1) + k) % len(r1)] for k in range(d)], axis=-1).ravel() for s in sel])
        D = onp.zeros((len(B), n * d, n * d))
        for k in range(d):
            D[:, k::d, k::d] = B[..., k]
        mu = onp.outer(onp.arange(len(r)) % 3, onp.arange(1, n * d + 1)) * 1.0
        for o in (dict(), dict(include_logdet=False), dict(inverse_method="cholesky")):
            key = "sparse n=%d d=%d %s" % (n, d, o)
            if not ctx.case(key):
                continue
            f = many(o)
            for q, part in enumerate(batches(range(len(B)), 2000)):
                sl = slice(part[0], part[-1] + 1)
                ctx.points(len(part) * len(r))
                w = density(D[sl], r, o.get("include_logdet", True))
                got = ctx.call(key, lambda: onp.asarray(f(B[sl], r, mu)))
                if not ctx.close(key, got, w, rtol=1e-9, atol=1e-9, what="log likelihood of a sparse covariance", labels=lambda i: dict(C=B[sl][i[0]].tolist(), r=r[i[1]].tolist())):
                    break


def scales(ctx):
    """Covariances of any scale, mixed scales and larger sizes (no overflow of the determinant)."""
    for n, base, ratio in itertools.product((2, 5, 40, 150), (1e-30, 1e-12, 1.0, 1e12), (1.0, 0.5, 1.3)):
        key = "scale n=%d base=%g ratio=%g" % (n, base, ratio)
        if not ctx.case(key):
            continue
        s = base * ratio ** onp.arange(n)
        if s.min() < 1e-45 or s.max() > 1e30:
            continue
        L = onp.eye(n) + 0.3 * onp.eye(n, k=-1)
        C = (L * s) @ L.T
        r = onp.sqrt(s) * onp.where(onp.arange(n) % 3, 1.0, -2.0)
        y = onp.linalg.solve(L, r)
        chi, ld = onp.sum(y * y / s), onp.sum(onp.log(s))
        for o in DENSE:
            w = -0.5 * (chi + (ld if o.get("include_logdet", True) else 0))
            ctx.close(key, ctx.call(key, lambda: gaussian_log_likelihood(jnp.zeros(n), jnp.asarray(r), jnp.asarray(C), **o)), w, rtol=1e-6, atol=1e-6 * abs(chi), what="log likelihood %s" % o)
        if n <= 40:
            # the same as sparse: two independent copies interleaved
            B = onp.stack([C, C * 4], axis=-1)
            rr = onp.stack([r, r], axis=-1).ravel()
            w = -0.5 * (chi * 1.25 + 2 * ld + n * onp.log(4.0))
            ctx.close(key, ctx.call(key, lambda: gaussian_log_likelihood(jnp.zeros(2 * n), jnp.asarray(rr), jnp.asarray(B))), w, rtol=1e-6, atol=1e-6 * abs(chi), what="log likelihood of the sparse form")


def eager(ctx):
    """Eager calls on arrays, against scipy's density; unknown methods."""
    for C in list(spd(2, 3, 2))[::2] + list(spd(3, 2, 1))[::6]:
        n = len(C)
        for data, mu in ((onp.zeros(n), onp.arange(1.0, n + 1)), (onp.arange(1.0, n + 1), onp.zeros(n)), (onp.full(n, 1e3), onp.full(n, 1e3) + onp.arange(n))):
            key = "eager %s %s" % (C.tolist(), data.tolist())
            if not ctx.case(key):
                continue
            w = multivariate_normal(mu, C).logpdf(data) + 0.5 * n * onp.log(2 * onp.pi)
            for o in DENSE:
                if not o.get("include_logdet", True):
                    continue
                ctx.close(key, ctx.call(key, lambda: gaussian_log_likelihood(jnp.asarray(data), jnp.asarray(mu), jnp.asarray(C), **o)), w, rtol=1e-9, atol=1e-9, what="log likelihood %s" % o)
    for m in ("", "svd", "Inverse", "chol", None):
        key = "method %s" % m
        if ctx.case(key):
            ctx.rejects(key, (NotImplementedError, ValueError, TypeError), lambda: gaussian_log_likelihood(jnp.ones(2), jnp.zeros(2), jnp.eye(2), inverse_method=m), "unknown inversion method accepted")
