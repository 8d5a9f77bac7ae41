"""C18: bias models and clustering kernels against their definitions, over bias forms x bin lists x cosmologies."""
import itertools

import jax.numpy as jnp
import numpy as onp

import jax_cosmo.background as bg
from jax_cosmo import bias, probes
from mc import jx, kern, ref
from mc.lib import product, split

BOUNDS = dict(
    quick="3 bias classes x parameter products x 4 cosmologies x 24 redshifts; kernels: all bin lists up to length 3 over 3 bins x (4 single forms + all per-bin bias assignments over 3 letters) x 2 cosmologies x 3 multipoles; single planes at every position",
    thorough="the same with bin lists over 4 bins, per-bin assignments over 4 letters, 4 cosmologies",
)
ASSUMPTIONS = ["n(z), H(z) and D(z) inside a kernel are compared both with the library's own public functions (1e-6) and with the reference model (1.5%)"]
Z = onp.array([0.0, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.31, 0.45, 0.5, 0.7, 0.9, 1.0, 1.2, 1.5, 2.0, 2.6, 3.0, 4.0, 5.0, 6.5, 8.0, 9.0, 0.62, 0.3])
ZK = onp.array([0.05, 0.7, 0.3, 1.2, 2.0, 0.55])


def shards(tier):
    return ["bias"] + ["kernel:%d/%d" % (i, 7) for i in range(7)] + ["planes"]


def run(ctx, shard):
    if shard == "bias":
        return biases(ctx)
    if shard == "planes":
        return planes(ctx)
    i, n = map(int, shard[7:].split("/"))
    kernels(ctx, i, n)


def biases(ctx):
    specs = [("constant", b) for b in (1.0, 1.5, 0.0, -0.7, 2)]
    specs += [("growth", b) for b in (1.0, 1.5, 0.0, -0.7, 2)]
    specs += [("des",) + t for t in itertools.product((1.0, 0.5, -1.2), (0.0, 1.0, -2.0, 0.5, 3.3), (0.62, 0.0, 1.5))]
    for cn, p in kern.COSMOS.items():
        D = ref.D_of(p, 1 / (1 + Z))
        c = jx.cosmo(p)
        Dl = ctx.call("growth", lambda: onp.asarray(bg.growth_factor(c, jnp.asarray(1 / (1 + Z)))))
        for s in specs:
            key = "%s %s" % (cn, s)
            if not ctx.case(key):
                continue
            ctx.points(len(Z) - 1)
            b = ctx.call(key, kern.bias_of, s)
            got = ctx.call(key, lambda: b(c, jnp.asarray(Z)))
            ctx.close(key, got, kern.bias_ref(s, Z, D), rtol=4e-3 if s[0] == "growth" else 1e-12, what="bias", labels=lambda i: Z[i[0]])
            if hasattr(Dl, "shape"):
                ctx.close(key, got, kern.bias_ref(s, Z, Dl), rtol=1e-6, what="bias with the library's growth", labels=lambda i: Z[i[0]])
            for j in (0, 8, 15):
                ctx.close(key, ctx.call(key, lambda: b(c, float(Z[j]))), kern.bias_ref(s, Z, D)[j], rtol=4e-3, shape=False, what="bias at a scalar redshift")


def forms(ctx, n):
    letters = ("one", "grow", "des") + (("two",) if ctx.thorough else ())
    for s in ("one", "grow", "des", "two"):
        yield s
    for ls in itertools.product(letters, repeat=n):
        yield ls


def lists(letters, n):
    for m in range(1, n + 1):
        yield from itertools.product(letters, repeat=m)


def kernels(ctx, i, n):
    letters = "STK" + ("U" if ctx.thorough else "")
    cs = list(kern.COSMOS) if ctx.thorough else ["open", "gamma"]
    objs, per = {}, {}
    zj = jnp.asarray(ZK)
    for cn in cs:
        p = kern.COSMOS[cn]
        c = objs[cn] = jx.cosmo(p)
        D = ref.D_of(p, 1 / (1 + ZK))
        H = ref.H(p, 1 / (1 + ZK))
        Dl = onp.asarray(bg.growth_factor(c, 1 / (1 + zj)))
        Hl = onp.asarray(bg.H(c, 1 / (1 + zj)))
        for b in letters:
            spec = kern.BINS[b]
            nl = onp.asarray(kern.nz(b)(zj))
            for f in ("one", "grow", "des", "two"):
                per[cn, b, f] = ref.nz(spec, ZK) * kern.bias_ref(f, ZK, D) * H, nl * kern.bias_ref(f, ZK, Dl) * Hl
    # group by structure so that each process compiles few kernels
    todo = [(bins, f) for bins in lists(letters, 3) for f in forms(ctx, len(bins))]
    struct = lambda t: str(([kern.BINS[b][0] for b in t[0]], t[1] if isinstance(t[1], str) else ["c" if x in ("one", "two") else x for x in t[1]]))
    groups = sorted({struct(t) for t in todo})
    for bins, f in todo:
        if groups.index(struct((bins, f))) % n != i:
            continue
        key = "%s %s" % ("".join(bins), f)
        if not ctx.case(key):
            continue
        single = isinstance(f, str)
        pr = ctx.call(key, lambda: probes.NumberCounts([kern.nz(b) for b in bins], kern.bias_of(f) if single else [kern.bias_of(x) for x in f]))
        ctx.true(key, pr.n_tracers == len(bins), "n_tracers is %r" % (pr.n_tracers,))
        ctx.true(key, pr.zmax == max(ref.nz_zmax(kern.BINS[b]) for b in bins), "zmax is %r" % (pr.zmax,))
        fs = [f] * len(bins) if single else f
        for cn in cs:
            w = [onp.array([per[cn, b, x][j] for b, x in zip(bins, fs)]) for j in (0, 1)]
            first = None
            for l in (2, 100.0, 1e4):
                ctx.points(1)
                got = ctx.call(key, lambda: onp.asarray(pr.kernel(objs[cn], zj, l)))
                ctx.close(key, got, w[1], rtol=1e-6, what="kernel in cosmology %s, multipole %g" % (cn, l))
                ctx.close(key, got, w[0], rtol=1.5e-2, what="kernel (reference) in cosmology %s" % cn)
                if first is not None:
                    ctx.close(key, got, first, rtol=1e-12, what="kernel at another multipole")
                if hasattr(got, "shape"):
                    first = got
    # scalar redshift
    if i == 0 and ctx.case("scalar"):
        pr = probes.NumberCounts([kern.nz("S"), kern.nz("T")], kern.bias_of("grow"))
        got = ctx.call("scalar", lambda: pr.kernel(objs[cs[0]], float(ZK[1]), 10.0))
        ctx.close("scalar", got, [[per[cs[0], b, "grow"][1][1]] for b in "ST"], rtol=1e-6, what="kernel at a scalar redshift")


def planes(ctx):
    c = jx.cosmo(jx.full())
    for m in (1, 2, 3):
        for bins in itertools.product("SPQ", repeat=m):
            if not set(bins) & set("PQ"):
                continue
            for f in ("one", ("one",) * m):
                key = "plane %s %s" % ("".join(bins), f)
                if not ctx.case(key):
                    continue
                pr = probes.NumberCounts([kern.nz(b) for b in bins], kern.bias_of(f) if isinstance(f, str) else [kern.bias_of(x) for x in f])
                ctx.rejects(key, (NotImplementedError, ValueError), lambda: pr.kernel(c, jnp.asarray(ZK), 10.0), "clustering of a single plane accepted")
