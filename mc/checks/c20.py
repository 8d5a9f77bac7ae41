"""C20: intrinsic alignments and multiplicative bias of lensing kernels, over all presence, single and list forms."""
import itertools

import jax.numpy as jnp
import numpy as onp

import jax_cosmo.background as bg
from jax_cosmo import probes
from mc import jx, kern, ref

BOUNDS = dict(
    quick="all bin lists of length 1..2 over 2 bins and two of length 3 x alignment (absent, 3 single forms, all per-bin assignments of 3 letters) x multiplicative bias (absent, 3 single values, 3 per-bin lists) x 2 cosmologies x 2 multipoles x 6 redshifts; calibration on mixed lists with single planes",
    thorough="bin lists of length 1..3 over 3 bins, 4 cosmologies, 3 multipoles",
)
ASSUMPTIONS = ["the shear part is the kernel of the same bins without systematics (its value is C19's claim)", "n(z), H, D of the alignment term: library's public functions to 1e-6, reference model to 1.5%"]
Z = onp.array([0.1, 0.7, 0.3, 1.2, 2.0, 0.55])
N = 8
MS = ((None, 0.1, -0.03, 0.0), (0.1, -0.05, 0.02), (-0.02, 0.3, 0.07), (0.0, 0.0, 0.5))


def shards(tier):
    return ["lists:%d/%d" % (i, N) for i in range(N)] + ["planes"]


def ias(n):
    yield None
    yield from ("one", "grow", "des")
    yield from itertools.product(("one", "grow", "des2"), repeat=n)


def ms(n):
    yield from MS[0]
    for l in MS[1:]:
        yield l[:n]


def build(bins, ia, m):
    kw = {}
    if m is not None:
        kw["multiplicative_bias"] = list(m) if isinstance(m, tuple) else m
    b = [kern.nz(x) for x in bins]
    if ia is None:
        return probes.WeakLensing(b, **kw)
    return probes.WeakLensing(b, kern.bias_of(ia) if isinstance(ia, str) else [kern.bias_of(x) for x in ia], **kw)


def factors(m, n):
    if m is None:
        return onp.ones((n, 1))
    return 1 + (onp.array(m)[:, None] if isinstance(m, tuple) else onp.full((n, 1), m))


def run(ctx, shard):
    zj = jnp.asarray(Z)
    letters = "STK" if ctx.thorough else "SK"
    known = "STK"
    cs = list(kern.COSMOS) if ctx.thorough else ["closed", "gamma"]
    objs = {cn: jx.cosmo(kern.COSMOS[cn]) for cn in cs}
    ells = (2, 200.0) + ((1e4,) if ctx.thorough else ())
    if shard == "planes":
        return planes(ctx, objs, zj)
    i, n = map(int, shard[6:].split("/"))
    ia_part = {}
    for cn in cs:
        p, c = kern.COSMOS[cn], objs[cn]
        a = 1 / (1 + Z)
        Dr, Hr = ref.D_of(p, a), ref.H(p, a)
        Dl, Hl = onp.asarray(bg.growth_factor(c, jnp.asarray(a))), onp.asarray(bg.H(c, jnp.asarray(a)))
        for b in known:
            nr, nl = ref.nz(kern.BINS[b], Z), onp.asarray(kern.nz(b)(zj))
            for f in ("one", "grow", "des", "des2"):
                pre = -5e-14 * ref.RHOCRIT * ref.om(p)
                ia_part[cn, b, f] = (pre / Dr * nr * kern.bias_ref(f, Z, Dr) * Hr, pre / Dl * nl * kern.bias_ref(f, Z, Dl) * Hl)
    base = {}
    triples = list(itertools.product(letters, repeat=3)) if ctx.thorough else [tuple("SKT"), tuple("KSS")]
    todo = [(bins, ia) for bins in [b for m in (1, 2) for b in itertools.product(letters, repeat=m)] + triples for ia in ias(len(bins))]
    for bins, ia in [t for j, t in enumerate(todo) if j % n == i]:
        for m in ms(len(bins)):
            key = "%s ia=%s m=%s" % ("".join(bins), ia, m)
            if not ctx.case(key):
                continue
            pr = ctx.call(key, build, bins, ia, m)
            fs = [ia] * len(bins) if isinstance(ia, str) else ia
            for cn in cs:
                for l in ells:
                    ctx.points(1)
                    q = (bins, cn, l)
                    if q not in base:
                        base[q] = ctx.call(key, lambda: onp.asarray(build(bins, None, None).kernel(objs[cn], zj, l)))
                    got = ctx.call(key, lambda: onp.asarray(pr.kernel(objs[cn], zj, l)))
                    if not hasattr(base[q], "shape"):
                        continue
                    for j in (1, 0):
                        add = 0.0 if ia is None else onp.array([ia_part[cn, b, f][j] for b, f in zip(bins, fs)]) * ref.ell_factor(float(l))
                        w = (base[q] + add) * factors(m, len(bins))
                        sc = (onp.abs(base[q]) + onp.abs(add)) * onp.abs(factors(m, len(bins)))
                        ctx.close(key, got, w, rtol=0, atol=sc * (1e-6 if j else 1.5e-2), what="kernel in cosmology %s, multipole %g%s" % (cn, l, "" if j else " (reference)"))


def planes(ctx, objs, zj):
    c = next(iter(objs.values()))
    for n in (1, 2, 3):
        for bins in itertools.product("SPQ", repeat=n):
            if not set(bins) & set("PQ"):
                continue
            b = ctx.call("base", lambda: onp.asarray(build(bins, None, None).kernel(c, zj, 50.0)))
            for m in ms(n):
                key = "planes %s m=%s" % ("".join(bins), m)
                if not ctx.case(key) or not hasattr(b, "shape"):
                    continue
                got = ctx.call(key, lambda: build(bins, None, m).kernel(c, zj, 50.0))
                ctx.close(key, got, b * factors(m, n), rtol=1e-6, atol=1e-12, what="calibrated kernel of a mixed list")
