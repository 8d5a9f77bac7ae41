"""C25: every product of the sparse module against numpy on the dense forms, over all small shapes.

A product is bilinear, so it is enumerated on all pairs of basis elements of both operands (this decides
it for every operand of the shape up to bilinearity, which the direct calls on full operands check)."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from jax_cosmo import sparse as S

BOUNDS = dict(
    quick="sparse blocks a,b,n in 1..3, dense sides 1..3; all basis pairs; all shape pairs for rejection with a,b,n in 1..2 and sides 1..4",
    thorough="sparse blocks a,b,n in 1..4, dense sides 1..4; all basis pairs; all shape pairs for rejection with a,b,n in 1..3 and sides 1..9",
)
ASSUMPTIONS = ["numpy's dense product is the oracle", "dense forms built entry by entry from the definition (i,j,d) -> (i*n+d, j*n+d)"]


def dense(A):
    a, b, n = A.shape
    D = onp.zeros((a * n, b * n), A.dtype)
    for i, j, d in itertools.product(range(a), range(b), range(n)):
        D[i * n + d, j * n + d] = A[i, j, d]
    return D


def fill(shape, salt=0, dtype=float):
    n = int(onp.prod(shape))
    return onp.array([((i * 37 + salt * 11 + i * i) % 53) - 20 + (i % 3) for i in range(n)], dtype).reshape(shape)


def basis(shape):
    n = int(onp.prod(shape))
    return onp.eye(n).reshape((n,) + tuple(shape))


def asd(A):
    return dense(A) if A.ndim == 3 else A


def shards(tier):
    n = 3 if tier == "quick" else 4
    return ["form", "mismatch"] + ["n%d/%d" % (n, i) for i in range(6)] + ["dsd%d/%d" % (n, i) for i in range(4)]


LOW = dict(sv="sparse_dot_vec", sd="sparse_dot_dense", vs="vec_dot_sparse", ds="dense_dot_sparse", ss="sparse_dot_sparse")


def pairs(n):
    r = range(1, n + 1)
    for a, b, d in itertools.product(r, r, r):
        yield "sv", (a, b, d), (b * d,)
        yield "vs", (a * d,), (a, b, d)
        for c in r:
            yield "sd", (a, b, d), (b * d, c)
            yield "ds", (c, a * d), (a, b, d)
            yield "ss", (a, b, d), (b, c, d)


def product(ctx, kind, sa, sb):
    key = "%s %s %s" % (kind, sa, sb)
    if not ctx.case(key):
        return
    A, B = fill(sa, 1), fill(sb, 2)
    want = asd(A) @ asd(B)
    for name, f in (("dot", S.dot), (LOW[kind], getattr(S, LOW[kind]))):
        got = ctx.call(key, f, jnp.asarray(A), jnp.asarray(B))
        if kind == "ss" and hasattr(got, "shape"):
            if not ctx.true(key, got.shape == (sa[0], sb[1], sa[2]), "%s: shape %s" % (name, got.shape)):
                return
            got = dense(onp.asarray(got))
        ctx.close(key, got, want, rtol=1e-12, atol=1e-9, what=name)
    # numpy and integer operands
    Ai, Bi = fill(sa, 1, onp.int64), fill(sb, 2, onp.int64)
    got = ctx.call(key, S.dot, Ai, Bi)
    if kind == "ss" and hasattr(got, "shape"):
        got = dense(onp.asarray(got))
    ctx.close(key, got, want, rtol=1e-12, atol=1e-9, what="dot of integers")
    # all pairs of basis elements
    EA, EB = basis(sa), basis(sb)
    got = ctx.call(key, lambda: onp.asarray(jax.vmap(jax.vmap(S.dot, (None, 0)), (0, None))(jnp.asarray(EA), jnp.asarray(EB))))
    DA, DB = onp.array([asd(x) for x in EA]), onp.array([asd(x) for x in EB])
    l, r = ("x" if len(sa) != 1 else ""), ("z" if len(sb) != 1 else "")
    want = onp.einsum("p%sy,qy%s->pq%s%s" % (l, r, l, r), DA, DB)
    if kind == "ss" and hasattr(got, "shape"):
        got = onp.array([[dense(g) for g in row] for row in got])
    ctx.points(len(EA) * len(EB))
    ctx.close(key, got, want, rtol=1e-12, atol=1e-12, what="basis pairs")


def bilinear(ctx, x, s, z):
    a, b, n = s
    key = "dsd %d %s %d" % (x, s, z)
    if not ctx.case(key):
        return
    X, Y, Z = fill((x, a * n), 3), fill(s, 1), fill((b * n, z), 5)
    want = X @ dense(Y) @ Z
    for name, f in (("dot", S.dot), ("dense_dot_sparse_dot_dense", S.dense_dot_sparse_dot_dense)):
        ctx.close(key, ctx.call(key, f, jnp.asarray(X), jnp.asarray(Y), jnp.asarray(Z)), want, rtol=1e-12, atol=1e-9, what=name)
    EY = basis(s)
    got = ctx.call(key, lambda: onp.asarray(jax.vmap(lambda y: S.dot(jnp.asarray(X), y, jnp.asarray(Z)))(jnp.asarray(EY))))
    ctx.points(len(EY))
    ctx.close(key, got, onp.array([X @ dense(y) @ Z for y in EY]), rtol=1e-12, atol=1e-9, what="basis of the middle operand")


def form(ctx):
    m = 4 if ctx.thorough else 3
    for s in itertools.product(range(1, m + 1), repeat=3):
        for dt in (onp.float64, onp.float32, onp.int32):
            key = "dense %s %s" % (s, onp.dtype(dt).name)
            if not ctx.case(key):
                continue
            A = fill(s, 4).astype(dt)
            got = ctx.call(key, S.to_dense, jnp.asarray(A))
            ctx.close(key, got, dense(A), rtol=0, what="to_dense")
            if hasattr(got, "dtype"):
                ctx.true(key, got.dtype == dt, "to_dense changed dtype to %s" % got.dtype)
        EA = basis(s)
        ctx.close(key, ctx.call(key, lambda: onp.asarray(jax.vmap(S.to_dense)(jnp.asarray(EA)))), onp.array([dense(e) for e in EA]), rtol=0, what="to_dense of basis")
        ctx.points(len(EA))
    for shape in itertools.chain(*[itertools.product((1, 2, 3), repeat=d) for d in range(0, 5)]):
        key = "kind %s" % (shape,)
        if not ctx.case(key):
            continue
        x = onp.ones(shape)
        ctx.true(key, bool(S.is_sparse(x)) == (len(shape) == 3), "is_sparse of shape %s" % (shape,))
        if len(shape) != 3:
            ctx.rejects(key, ValueError, lambda: S.check_sparse(x), "check_sparse accepts %s" % (shape,))
            ctx.rejects(key, ValueError, lambda: S.to_dense(x), "to_dense accepts %s" % (shape,))
        else:
            ctx.close(key, ctx.call(key, S.check_sparse, x), x, rtol=0, what="check_sparse")
            if shape[0] != shape[1]:
                ctx.rejects(key, ValueError, lambda: S.check_sparse(x, square=True), "check_sparse(square) accepts %s" % (shape,))
            else:
                ctx.close(key, ctx.call(key, lambda: S.check_sparse(x, square=True)), x, rtol=0, what="check_sparse(square)")


def mismatch(ctx):
    m, side = (3, 9) if ctx.thorough else (2, 4)
    sp = list(itertools.product(range(1, m + 1), repeat=3))
    vec = [(i,) for i in range(1, side + 1)]
    den = list(itertools.product(range(1, side + 1), range(1, 3)))
    denl = list(itertools.product(range(1, 3), range(1, side + 1)))

    def ncols(s):
        return s[1] * s[2] if len(s) == 3 else s[-1]

    def nrows(s):
        return s[0] * s[2] if len(s) == 3 else s[0]

    todo = [(l, r) for l in sp for r in sp + vec + den] + [(l, r) for l in vec + denl for r in sp]
    for l, r in todo:
        if ncols(l) == nrows(r) and not (len(l) == len(r) == 3 and l[2] != r[2]):
            continue
        key = "reject %s %s" % (l, r)
        if ctx.case(key):
            ctx.rejects(key, ValueError, lambda: S.dot(onp.ones(l), onp.ones(r)), "dot accepts shapes %s and %s" % (l, r))
    for bad in ((), (2, 2, 2, 2), (1, 1, 1, 1)):
        for s in sp:
            for args in ((bad, s), (s, bad)):
                key = "reject %s %s" % args
                if ctx.case(key):
                    ctx.rejects(key, ValueError, lambda: S.dot(onp.ones(args[0]), onp.ones(args[1])), "dot accepts shapes %s and %s" % args)
    shapes = [(1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 4), (4, 2), (1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 2, 2)]
    for x, y, z in itertools.product(shapes, repeat=3):
        if len(x) == 2 and len(y) == 3 and len(z) == 2 and x[1] == nrows(y) and ncols(y) == z[0]:
            continue
        key = "reject %s %s %s" % (x, y, z)
        if ctx.case(key):
            ctx.rejects(key, ValueError, lambda: S.dot(onp.ones(x), onp.ones(y), onp.ones(z)), "dot accepts shapes %s, %s and %s" % (x, y, z))
    for n in (0, 1, 4):
        key = "reject %d operands" % n
        if ctx.case(key):
            ctx.rejects(key, ValueError, lambda: S.dot(*[onp.ones((1, 1, 1))] * n), "dot accepts %d operands" % n)


def run(ctx, shard):
    if shard == "form":
        return form(ctx)
    if shard == "mismatch":
        return mismatch(ctx)
    name, i = shard.split("/")
    if name.startswith("dsd"):
        n = int(name[3:])
        r = range(1, n + 1)
        for j, (x, a, b, d, z) in enumerate(itertools.product((1, 2, 3)[: n - 1], r, r, r, (1, 2, 3)[: n - 1])):
            if j % 4 == int(i):
                bilinear(ctx, x, (a, b, d), z)
    else:
        for j, p in enumerate(pairs(int(name[1:]))):
            if j % 6 == int(i):
                product(ctx, *p)
