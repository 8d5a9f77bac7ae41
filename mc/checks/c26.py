"""C26: sparse inverse, sign and log determinant against exact integer arithmetic on the dense form."""
import itertools
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as onp

from jax_cosmo import sparse as S
from mc.checks.c25 import dense

BOUNDS = dict(
    quick="all matrices: 1 block size<=3 over -2..2; 2x2 blocks, size 1 over -2..2 and size 2 over -1..1; 3x3 blocks, size 1 over -1..1; "
    "4x4 permutation/triangular patterns, sizes 1..2",
    thorough="adds 2x2 blocks of size 2 over -2..2 (every matrix), 3x3 size 1 over {-2..1}, 2x2 size 3 over {-1,0,1}, 5x5 patterns",
)
ASSUMPTIONS = ["determinants by exact rational elimination", "sampled conditioning: entries are small integers, so float64 rounding is far below the tolerance"]


def exact_det(M):
    M = [[Fraction(int(v)) for v in row] for row in M]
    n, d = len(M), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            for c in range(i, n):
                M[r][c] -= f * M[i][c]
    return d


def shards(tier):
    s = ["1x1", "2x1:0", "2x1:1", "2x2:0", "2x2:1", "2x2:2", "3x1:0", "3x1:1", "patterns", "reject"]
    if tier == "thorough":
        s += ["big2x2:%d" % i for i in range(16)] + ["big3x1:%d" % i for i in range(8)] + ["big2x3:%d" % i for i in range(16)]
    return s


_det_cache = {}


def det_of(A):
    """Exact determinant of the dense form, as the product over the diagonal positions."""
    d = 1
    for k in range(A.shape[2]):
        key = (A.shape[0], A[:, :, k].tobytes())
        if key not in _det_cache:
            _det_cache[key] = int(exact_det(A[:, :, k]))
        d *= _det_cache[key]
    return d


def batch(ctx, key, mats):
    """All matrices (B, m, m, n) of one shape."""
    if not ctx.case(key):
        return
    mats = onp.asarray(mats, float)
    ctx.points(len(mats))
    dets = onp.array([det_of(A) for A in mats], float)
    # the decomposition used by det_of is itself checked against elimination on the dense form
    for A in mats[:: max(1, len(mats) // 40)]:
        assert int(exact_det(dense(A))) == det_of(A)
    lab = lambda i: mats[i[0]].tolist()
    X = jnp.asarray(mats)
    r = ctx.call(key, lambda: [onp.asarray(v) for v in jax.jit(jax.vmap(S.slogdet))(X)])
    d = ctx.call(key, lambda: onp.asarray(jax.jit(jax.vmap(S.det))(X)))
    ctx.close(key, d, dets, rtol=1e-9, atol=1e-9, what="det", labels=lab)
    good = dets != 0
    if isinstance(r, list):
        sign, ld = r
        ctx.close(key, sign[good], onp.sign(dets[good]), rtol=0, what="sign of determinant", labels=lambda i: mats[good][i[0]].tolist())
        ctx.close(key, ld[good], onp.log(onp.abs(dets[good])), rtol=1e-9, atol=1e-9, what="log determinant", labels=lambda i: mats[good][i[0]].tolist())
    if good.any():
        inv = ctx.call(key, lambda: onp.asarray(jax.jit(jax.vmap(S.inv))(X[good])))
        if hasattr(inv, "shape") and ctx.true(key, inv.shape == mats[good].shape, "inverse has shape %s" % (inv.shape,)):
            m, n = mats.shape[1], mats.shape[3]
            eye = onp.broadcast_to(onp.eye(m)[:, :, None], inv.shape)
            ctx.close(key, onp.einsum("bikd,bkjd->bijd", inv, mats[good]), eye, rtol=0, atol=1e-9, what="inverse times matrix", labels=lambda i: mats[good][i[0]].tolist())


def direct(ctx, key, A):
    """One matrix through the public functions without vmap, compared on the dense form."""
    if not ctx.case(key):
        return
    D = dense(A)
    e = det_of(A)
    sl = ctx.call(key, lambda: tuple(onp.asarray(v) for v in S.slogdet(jnp.asarray(A))))
    ctx.close(key, ctx.call(key, S.det, jnp.asarray(A)), float(e), rtol=1e-9, atol=1e-9, what="det of %s" % A.tolist())
    if e != 0:
        if isinstance(sl, tuple):
            ctx.close(key, sl[0], onp.sign(float(e)), rtol=0, what="sign of %s" % A.tolist())
            ctx.close(key, sl[1], onp.log(abs(float(e))), rtol=1e-9, atol=1e-9, what="logdet of %s" % A.tolist())
        I = ctx.call(key, S.inv, jnp.asarray(A))
        if hasattr(I, "shape"):
            ctx.close(key, dense(onp.asarray(I)) @ D, onp.eye(len(D)), rtol=0, atol=1e-9, what="inverse of %s" % A.tolist())
            ctx.close(key, D @ dense(onp.asarray(I)), onp.eye(len(D)), rtol=0, atol=1e-9, what="matrix times inverse of %s" % A.tolist())


def enum(m, n, letters, part=None, parts=1):
    N = m * m * n
    its = itertools.product(letters, repeat=N)
    buf = []
    for i, v in enumerate(its):
        if part is None or i % parts == part:
            buf.append(onp.array(v, float).reshape(m, m, n))
            if len(buf) == 4096:
                yield buf
                buf = []
    if buf:
        yield buf


def patterns(sizes, n):
    """Signed permutations, triangular and singular-corner matrices of each size, a different one per diagonal position."""
    for m in sizes:
        mats = []
        for k, perm in enumerate(itertools.permutations(range(m))):
            P = onp.zeros((m, m))
            for i, j in enumerate(perm):
                P[i, j] = (-1) ** (i + k) * (1 + (i + k) % 3)
            mats.append(P)
            mats.append(P + onp.triu(onp.ones((m, m)), 1) * (k % 2))
            Q = onp.ones((m, m))
            for i in range(m):
                Q[i, perm[i]] = 0
            mats.append(Q)
            mats.append(onp.diag(onp.arange(1, m + 1)) @ P)
            # trailing or leading principal sub-blocks vanish
            Z = P.copy()
            Z[m // 2 :, m // 2 :] = 0
            mats.append(Z + onp.fliplr(onp.eye(m)))
        for d in range(1, n + 1):
            yield m, d, [onp.stack([mats[(i * (k + 1) + k) % len(mats)] for k in range(d)], -1) for i in range(len(mats))]


def run(ctx, shard):
    L5, L3 = (-2, -1, 0, 1, 2), (-1, 0, 1)
    if shard == "1x1":
        for n in (1, 2, 3):
            for i, b in enumerate(enum(1, n, L5)):
                batch(ctx, "1x1 size %d batch %d" % (n, i), b)
                if n < 3:
                    for A in b:
                        direct(ctx, "1x1 %s" % A.ravel().tolist(), A)
    elif shard.startswith("2x1"):
        p = int(shard[-1])
        for i, b in enumerate(enum(2, 1, L5, p, 2)):
            batch(ctx, "2x2 size 1 batch %d" % i, b)
            for A in b:
                direct(ctx, "2x2 %s" % A.ravel().tolist(), A)
    elif shard.startswith("2x2"):
        p = int(shard[-1])
        for i, b in enumerate(enum(2, 2, L3, p, 3)):
            batch(ctx, "2x2 size 2 batch %d" % i, b)
    elif shard.startswith("3x1"):
        p = int(shard[-1])
        for i, b in enumerate(enum(3, 1, L3, p, 2)):
            batch(ctx, "3x3 size 1 batch %d" % i, b)
    elif shard == "patterns":
        for m, d, ms in patterns((3, 4, 5) if ctx.thorough else (3, 4), 3):
            batch(ctx, "%dx%d size %d patterns" % (m, m, d), ms)
            for i, A in enumerate(ms[:40]):
                direct(ctx, "%dx%d size %d pattern %d" % (m, m, d, i), A)
    elif shard == "reject":
        for s in itertools.product((1, 2, 3), repeat=3):
            if s[0] != s[1]:
                for f in ("inv", "slogdet", "det"):
                    key = "%s of %s" % (f, s)
                    if ctx.case(key):
                        ctx.rejects(key, ValueError, lambda: getattr(S, f)(onp.ones(s)), "%s accepts shape %s" % (f, s))
        for s in ((2,), (2, 2), (1, 1), (2, 2, 2, 2)):
            for f in ("inv", "slogdet", "det"):
                key = "%s of %s" % (f, s)
                if ctx.case(key):
                    ctx.rejects(key, ValueError, lambda: getattr(S, f)(onp.ones(s)), "%s accepts shape %s" % (f, s))
    elif shard.startswith("big2x2"):
        for i, b in enumerate(enum(2, 2, L5, int(shard.split(":")[1]), 16)):
            batch(ctx, "2x2 size 2 over 5 letters batch %d" % i, b)
    elif shard.startswith("big3x1"):
        for i, b in enumerate(enum(3, 1, (-2, -1, 0, 1), int(shard.split(":")[1]), 8)):
            batch(ctx, "3x3 size 1 over 4 letters batch %d" % i, b)
    elif shard.startswith("big2x3"):
        for i, b in enumerate(enum(2, 3, L3, int(shard.split(":")[1]), 16)):
            batch(ctx, "2x2 size 3 batch %d" % i, b)
