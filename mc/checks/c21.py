"""C21: angular spectra against a Limber integration of single-tracer kernels, over all orders and groupings of probes."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from scipy.integrate import simpson

import jax_cosmo.background as bg
from jax_cosmo import bias, power, probes, transfer
from jax_cosmo.angular_cl import angular_cl
from mc import jx, kern, ref

BOUNDS = dict(
    quick="all ordered probe lists of length 1..3 over 4 probes (1-2 bins, lensing, aligned and calibrated lensing, clustering, single plane; at most 5 tracers) with a user supplied power spectrum, 3 multipoles; linear, halofit, default and user supplied power and transfer functions on two lists; 3 cosmologies; multipoles 2..5000",
    thorough="length 1..3 over 6 probes (at most 6 tracers), the same options on four lists and four cosmologies",
)
ASSUMPTIONS = ["reference: Simpson's rule with 4096 intervals in the scale factor over kernels of single-bin probes", "1% of the value plus 0.2% of the geometric mean of the auto spectra"]
# probe letter -> list of tracers (kind, bin, ia, m, b)
PROBES = dict(
    L=[("W", "S", None, None), ("W", "T", None, None)],
    A=[("W", "S", "grow", 0.1)],
    N=[("N", "T", "one")],
    M=[("N", "K", "grow"), ("N", "S", "two")],
    P=[("W", "P", None, None), ("W", "S", None, None)],
    V=[("N", "U", "one")],
)
ELL = (5.0, 60.0, 900.0)
N = 8


def make(tracers):
    bins = [kern.nz(t[1]) for t in tracers]
    if tracers[0][0] == "N":
        bs = [kern.bias_of(t[2]) for t in tracers]
        return probes.NumberCounts(bins, bs if len(bs) > 1 else bs[0])
    ia, m = tracers[0][2], tracers[0][3]
    kw = {} if m is None else dict(multiplicative_bias=m)
    return probes.WeakLensing(bins, None if ia is None else kern.bias_of(ia), **kw)


def user_power(cosmo, k, a, transfer_fn):
    """A cheap power spectrum that depends on everything it is given."""
    return 2e4 * cosmo.sigma8**2 * a**1.5 * k / (1 + (k / 0.02) ** 2) ** 1.2


def user_power_np(p, k, a):
    return 2e4 * p["sigma8"] ** 2 * a**1.5 * k / (1 + (k / 0.02) ** 2) ** 1.2


def user_transfer(cosmo, k, type="x"):
    return 1 / (1 + 30 * k * cosmo.Omega_m)


class Limber:
    """Reference spectra of tracer pairs for one cosmology."""

    def __init__(self, p, n=4096):
        self.p, self.c, self.n = p, jx.cosmo(p), n
        self.kern = {}
        self.pks = {}
        self.grid = {}

    def setup(self, zmax):
        if zmax not in self.grid:
            a = onp.linspace(1 / (1 + zmax), 1.0, self.n + 1)
            chi = onp.asarray(bg.radial_comoving_distance(self.c, jnp.asarray(a)))
            self.grid[zmax] = a, chi
        return self.grid[zmax]

    def kernel(self, t, ell, zmax):
        q = (t, ell, zmax)
        if q not in self.kern:
            a, _ = self.setup(zmax)
            self.kern[q] = onp.asarray(make([t]).kernel(self.c, jnp.asarray(1 / a - 1), ell))[0]
        return self.kern[q]

    def cl(self, t1, t2, ell, pk, zmax=10.0):
        a, chi = self.setup(zmax)
        k1, k2 = self.kernel(t1, ell, zmax), self.kernel(t2, ell, zmax)
        k = (ell + 0.5) / onp.clip(chi, 1.0, None)
        with onp.errstate(all="ignore"):
            if (pk, ell, zmax) not in self.pks:
                self.pks[pk, ell, zmax] = pk(k, a)
            y = self.pks[pk, ell, zmax] * k1 * k2 * ref.dchida(self.p, a) / onp.clip(chi, 1.0, None) ** 2
        return simpson(y, x=a) / ref.C_KMS**2


def shards(tier):
    return ["power:%d" % i for i in range(6)] + ["lists:%d/%d" % (i, N) for i in range(N)] + ["sym"]


def todo(ctx):
    letters = "LANMPV" if ctx.thorough else "LANM"
    most = 6 if ctx.thorough else 5
    for m in (1, 2, 3):
        for t in itertools.product(letters, repeat=m):
            if sum(len(PROBES[x]) for x in t) <= most:
                yield t
    if not ctx.thorough:
        yield from (("P",), ("N", "P"), ("P", "V"), ("V", "A"), ("V",))


def pairs(tr):
    return [(i, j) for i in range(len(tr)) for j in range(i, len(tr))]


def compare(ctx, key, got, lim, tr, ells, pk, rtol=1e-2, zmax=10.0, floor=2e-3):
    auto = {}
    for t in set(tr):
        auto[t] = onp.array([lim.cl(t, t, l, pk, zmax) for l in ells])
    w = onp.array([[lim.cl(tr[i], tr[j], l, pk, zmax) for l in ells] for i, j in pairs(tr)])
    at = floor * onp.array([onp.sqrt(auto[tr[i]] * auto[tr[j]]) for i, j in pairs(tr)])
    ctx.points(w.size)
    ctx.close(key, got, w, rtol=rtol, atol=at, what="spectra", labels=lambda i: dict(pair=pairs(tr)[i[0]], tracers=tr, ell=ells[i[1]]))
    if hasattr(got, "shape") and got.shape == w.shape:
        for n, (i, j) in enumerate(pairs(tr)):
            if i == j:
                ctx.true(key, bool((got[n] >= 0).all()), "auto spectrum %d is negative" % i)


def run(ctx, shard):
    kind, _, rest = shard.partition(":")
    if kind == "lists":
        i, n = map(int, rest.split("/"))
        p = kern.COSMOS["open"]
        lim = Limber(p)
        pk = lambda k, a: user_power_np(p, k, a)
        ell = jnp.asarray(ELL)
        for t in [x for j, x in enumerate(todo(ctx)) if j % n == i]:
            key = "".join(t)
            if not ctx.case(key):
                continue
            pr = [make(PROBES[x]) for x in t]
            tr = [y for x in t for y in PROBES[x]]
            got = ctx.call(key, lambda: onp.asarray(jax.jit(lambda c, q: angular_cl(c, ell, q, nonlinear_fn=user_power))(lim.c, pr)))
            compare(ctx, key, got, lim, tr, ELL, pk, zmax=max(ref.nz_zmax(kern.BINS[y[1]]) for y in tr))
    elif kind == "power":
        powers(ctx, int(rest))
    else:
        symmetry(ctx)


def powers(ctx, part):
    lists = [("A", "N"), ("L",)] + ([("N", "L"), ("M",)] if ctx.thorough else [])
    cs = ["fid", "closed", "gamma"] + (["open"] if ctx.thorough else [])
    ell = (2.0, 40.0, 700.0, 5000.0)
    opts = dict(
        default={},
        linear=dict(nonlinear_fn=power.linear),
        halofit=dict(nonlinear_fn=power.halofit),
        user=dict(nonlinear_fn=user_power),
        transfer=dict(nonlinear_fn=power.linear, transfer_fn=user_transfer),
        both=dict(transfer_fn=user_transfer),
    )
    todo = [(t, o) for t in lists for o in opts]
    for t, o in [x for j, x in enumerate(todo) if j % 6 == part]:
        pr = [make(PROBES[x]) for x in t]
        tr = [y for x in t for y in PROBES[x]]
        run_ = jax.jit(lambda c, q: angular_cl(c, jnp.asarray(ell), q, **opts[o]))
        tf = user_transfer if o in ("transfer", "both") else transfer.Eisenstein_Hu
        nl = power.linear if o in ("linear", "transfer") else power.halofit
        # one scale factor and wavenumber at a time would be too slow: matched arrays (C08)
        pk_ = jax.jit(lambda c, k, a: nl(c, k, a, tf))
        for cn in cs:
            key = "%s %s %s" % ("".join(t), o, cn)
            if not ctx.case(key):
                continue
            p = kern.COSMOS[cn]
            lim = Limber(p, 1024)
            if o == "user":
                pk = lambda k, a: user_power_np(p, k, a)
            else:
                pk = lambda k, a: onp.asarray(pk_(lim.c, jnp.asarray(k), jnp.asarray(a)))
            got = ctx.call(key, lambda: onp.asarray(run_(lim.c, pr)))
            compare(ctx, key, got, lim, tr, ell, pk)


def symmetry(ctx):
    """The same tracers in every order and grouping give the same spectra."""
    p = kern.COSMOS["gamma"]
    c = jx.cosmo(p)
    ell = jnp.asarray(ELL)
    trs = [("W", "S", None, None), ("W", "T", None, None), ("N", "T", "one")]
    base = {}
    for perm in itertools.permutations(range(3)):
        for grouped in (False, True):
            key = "order %s grouped=%s" % (perm, grouped)
            if not ctx.case(key):
                continue
            groups = []
            for x in perm:
                t = trs[x]
                if grouped and groups and groups[-1][-1][0] == t[0] == "W":
                    groups[-1].append(t)
                else:
                    groups.append([t])
            pr = [make(g) for g in groups]
            got = ctx.call(key, lambda: onp.asarray(jax.jit(lambda c, q: angular_cl(c, ell, q, nonlinear_fn=user_power))(c, pr)))
            if not hasattr(got, "shape"):
                continue
            for n, (i, j) in enumerate(pairs(perm)):
                q = tuple(sorted((perm[i], perm[j])))
                ctx.points(1)
                if q in base:
                    ctx.close(key, got[n], base[q], rtol=1e-9, atol=1e-30, what="spectrum of tracers %s" % (q,))
                else:
                    base[q] = got[n]
    # alone or among others
    for x in range(3):
        key = "alone %d" % x
        if not ctx.case(key) or (x, x) not in base:
            continue
        got = ctx.call(key, lambda: onp.asarray(jax.jit(lambda c, q: angular_cl(c, ell, q, nonlinear_fn=user_power))(c, [make([trs[x]])])))
        ctx.close(key, got, base[x, x][None], rtol=1e-9, what="auto spectrum alone and among others")
    # integer and scalar-like multipoles, eager
    key = "eager"
    if ctx.case(key):
        got = ctx.call(key, lambda: onp.asarray(angular_cl(c, jnp.array([5, 60, 900]), [make([trs[0]])], nonlinear_fn=user_power)))
        ctx.close(key, got, base[0, 0][None], rtol=1e-6, what="integer multipoles, eagerly")
