"""C19: lensing kernels against the lensing efficiency, over all lists of mixed extended and single-plane bins."""
import itertools

import jax.numpy as jnp
import numpy as onp

from jax_cosmo import probes
from mc import jx, kern, ref

BOUNDS = dict(
    quick="all bin lists of length 1..4 over 2 extended and 2 single-plane bins, of length 1..2 over 8 bins (kernel estimates, shifts, other zmax); 4 cosmologies x 3 multipoles x 14 redshifts; 9 multipoles on one list; scalar redshifts",
    thorough="length 1..5 over 4 bins, 1..3 over 8 bins; the same points",
)
ASSUMPTIONS = ["redshift distributions whose tail beyond zmax is negligible", "agreement is measured against 1% of the value plus 0.3% of the largest value of the kernel"]
Z = onp.array([0.0, 0.02, 0.1, 0.3, 0.499, 0.501, 0.7, 1.0, 1.1999, 1.3, 2.0, 0.25, 3.0, 0.05])
ELLS = (2, 30.0, 1500.0)
N = 8


def shards(tier):
    return ["lists:%d/%d" % (i, N) for i in range(N)] + ["points"]


def todo(ctx):
    for m in range(1, 6 if ctx.thorough else 5):
        yield from itertools.product("SPTQ", repeat=m)
    for m in range(1, 4 if ctx.thorough else 3):
        for t in itertools.product("SPTQKXUR", repeat=m):
            if set(t) & set("KXUR"):
                yield t


def struct(t):
    return str([(kern.BINS[b][0], ref.nz_zmax(kern.BINS[b])) for b in t])


def run(ctx, shard):
    cs = {n: jx.cosmo(p) for n, p in kern.COSMOS.items()}
    if shard == "points":
        return points(ctx, cs)
    i, n = map(int, shard[6:].split("/"))
    al = list(todo(ctx))
    groups = {g: j for j, g in enumerate(sorted({struct(t) for t in al}))}
    want = {}
    single = {}
    zj = jnp.asarray(Z)
    for t in al:
        if groups[struct(t)] % n != i:
            continue
        key = "".join(t)
        if not ctx.case(key):
            continue
        pr = ctx.call(key, lambda: probes.WeakLensing([kern.nz(b) for b in t]))
        ctx.true(key, pr.n_tracers == len(t), "n_tracers is %r" % (pr.n_tracers,))
        ctx.true(key, pr.zmax == max(ref.nz_zmax(kern.BINS[b]) for b in t), "zmax is %r" % (pr.zmax,))
        for cn, c in cs.items():
            for b in t:
                if (cn, b) not in want:
                    want[cn, b] = kern.lensing_ref(kern.COSMOS[cn], kern.BINS[b], Z)
            for l in ELLS if len(t) < 4 else ELLS[1:2]:
                ctx.points(len(Z))
                w = onp.array([want[cn, b] for b in t]) * ref.ell_factor(float(l))
                got = ctx.call(key, lambda: onp.asarray(pr.kernel(c, zj, l)))
                ctx.close(key, got, w, rtol=1e-2, atol=3e-3 * onp.abs(w).max(axis=1, keepdims=True), what="kernel in cosmology %s, multipole %g" % (cn, l), labels=lambda j: (t[j[0]], Z[j[1]]))
                if hasattr(got, "shape") and got.shape == w.shape:
                    for j, b in enumerate(t):
                        if kern.BINS[b][0] == "plane":
                            ctx.true(key, bool((got[j][Z > kern.BINS[b][1]] == 0).all()), "kernel does not vanish behind the plane %d" % j)
                        # the same bin in another place has the same kernel
                        q = (cn, l, b, pr.zmax)
                        if q in single:
                            ctx.close(key, got[j], single[q], rtol=1e-9, what="bin %d of %s against the same bin elsewhere" % (j, key))
                        else:
                            single[q] = got[j]


def points(ctx, cs):
    t = "SPK"
    pr = probes.WeakLensing([kern.nz(b) for b in t])
    zs = onp.concatenate([onp.linspace(0.0, 3.0, 41), [4.0, 6.0, 9.0]])
    for cn, c in cs.items():
        w0 = onp.array([kern.lensing_ref(kern.COSMOS[cn], kern.BINS[b], zs) for b in t])
        for l in (1, 2, 3, 10, 31.6, 100, 999.5, 1e4, 1e5):
            key = "%s l=%g" % (cn, l)
            if not ctx.case(key):
                continue
            ctx.points(len(zs))
            w = w0 * ref.ell_factor(float(l))
            got = ctx.call(key, lambda: pr.kernel(c, jnp.asarray(zs), float(l)))
            ctx.close(key, got, w, rtol=1e-2, atol=3e-3 * onp.abs(w).max(axis=1, keepdims=True), what="kernel", labels=lambda j: (t[j[0]], zs[j[1]]))
            g1 = ctx.call(key, lambda: pr.kernel(c, float(zs[7]), float(l)))
            ctx.close(key, g1, w[:, 7:8], rtol=1e-2, atol=3e-3 * onp.abs(w).max(axis=1, keepdims=True), what="kernel at a scalar redshift")
        key = "behind " + cn
        if ctx.case(key):
            # sources end at zmax: nothing is lensed behind
            s = probes.WeakLensing([kern.nz("U")])
            got = ctx.call(key, lambda: s.kernel(c, jnp.asarray([6.0, 6.5, 9.0]), 100.0))
            ctx.close(key, got, onp.zeros((1, 3)), rtol=0, atol=1e-9, what="kernel behind zmax")
