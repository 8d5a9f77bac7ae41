"""Calls that differ in exactly one thing, for C02: each must give what it gives alone in a fresh process.

A group is one function and a list of variants (label, make) where make() builds the arguments. Run as a program,
`twins.py GROUP MODE OUT` evaluates each variant in its own process, forked before the first use of JAX."""
import copy
import functools
import os
import pickle
import sys
import types

if __name__ == "__main__":
    sys.path[:0] = ["/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]

import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import bias, likelihood, power, probes, redshift as rs, sparse, transfer
from jax_cosmo.angular_cl import angular_cl, gaussian_cl_covariance, gaussian_cl_covariance_and_mean, noise_cl
from jax_cosmo.scipy import integrate, interpolate, ode
from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline

TINY, BIG = 1 + 3e-6, 1.1
A = (0.31, 0.05, 0.9, 0.55)
K = (0.01, 0.3, 2.0)
Z = (0.2, 0.8, 1.3)
COSMO = dict(Omega_c=0.27, Omega_b=0.046, h=0.69, n_s=0.97, sigma8=0.82, Omega_k=0.03, w0=-0.95, wa=0.1)
GROUPS = {}


class Group:
    """fn(*make()) for every variant; modes: 'eager', and 'jit' if the arguments are values; pairs: all or star."""

    def __init__(self, name, fn, variants, modes=("eager", "jit"), pairs="all"):
        labels = [v[0] for v in variants]
        assert len(set(labels)) == len(labels), labels
        self.name, self.fn, self.modes, self.pairs = name, fn, modes, pairs
        self.variants = [v if len(v) == 3 else v + (fn,) for v in variants]

    def order(self, mode, thorough=False):
        """A walk in which every ordered pair of variants is adjacent ('all'), or every one next to the first."""
        n = len(self.variants)
        pairs = self.pairs[mode] if isinstance(self.pairs, dict) else self.pairs
        if pairs == "star" and not thorough:
            out = [0]
            for i in range(1, n):
                out += [i, 0]
            return out
        out = [0]
        for i in range(n):  # closed walk over the complete digraph: 0, then for each i: (i, j), (j, i) for j > i
            for j in range(i + 1, n):
                out += [j, i]
            if i + 1 < n:
                out.append(i + 1)
        return out

    def runner(self, mode):
        """One callable per mode that evaluates variant i; the jitted function is shared by all variants."""
        jitted = {}

        def run(i):
            label, make, fn = self.variants[i]
            args = make()
            if mode == "jit":
                f = jitted.setdefault(fn, jax.jit(fn))
            else:
                f = fn
            return [onp.array(x, copy=True) for x in jax.tree_util.tree_leaves(f(*args))]

        return run


def group(name, fn, variants, **k):
    GROUPS[name] = Group(name, fn, variants, **k)


def one_at_a_time(base, build, more=(), tiny=True):
    """Variants of a dict of numbers: the base, and each number changed, much and slightly."""
    out = [("base", lambda: build(dict(base)))]
    for n in base:
        if isinstance(base[n], bool) or not isinstance(base[n], float):
            continue
        for lab, f in (("+", BIG), ("~", TINY)) if tiny else (("+", BIG),):
            out.append((n + lab, lambda n=n, f=f: build(dict(base, **{n: base[n] * f}))))
    for lab, d in more:
        out.append((lab, lambda d=d: build(dict(base, **d))))
    return out


SAME_SUMS = [
    ("Omega_m kept", dict(Omega_c=0.26, Omega_b=0.056)),
    ("w0+wa kept", dict(w0=-0.9, wa=0.05)),
    ("flat", dict(Omega_k=0.0)),
    ("closed", dict(Omega_k=-0.03)),
    ("gamma", dict(gamma=0.55)),
    ("gamma~", dict(gamma=0.55 * TINY)),
    ("gamma=w0", dict(gamma=0.0)),
]


def co(d=COSMO):
    return jc.Cosmology(**d)


# ---- cosmology
def f_background(c, a):
    a = jnp.asarray(a)
    return (bg.growth_factor(c, a), bg.growth_rate(c, a), bg.radial_comoving_distance(c, a), bg.transverse_comoving_distance(c, a),
            bg.angular_diameter_distance(c, a), bg.H(c, a), bg.Omega_de_a(c, a), bg.Omega_m_a(c, a), bg.a_of_chi(c, 1000.0 * a))


group("background", f_background, one_at_a_time(COSMO, lambda d: (co(d), onp.array(A)), SAME_SUMS), pairs={"eager": "star", "jit": "all"})


def f_linear(c, k, a):
    return power.linear_matter_power(c, k, a), transfer.Eisenstein_Hu(c, k), power.sigmasqr(c, 8.0, transfer.Eisenstein_Hu)


group("linear power", f_linear, one_at_a_time(COSMO, lambda d: (co(d), jnp.array(K), 0.6), SAME_SUMS), pairs="star")


def f_halofit(c, k, a):
    return power.nonlinear_matter_power(c, k, a)


group("halofit", f_halofit, one_at_a_time(COSMO, lambda d: (co(d), onp.array(K), 0.6), SAME_SUMS[-3:-1], tiny=False) + [
    ("a", lambda: (co(), onp.array(K), 0.7)),
    ("a~", lambda: (co(), onp.array(K), 0.6 * TINY)),
    ("k", lambda: (co(), onp.array(K) * 1.1, 0.6)),
], pairs="star")


# ---- points: same shape, other values; the same buffer with other values
def f_points(c, d, n, a):
    z = 1 / a - 1
    return (bg.radial_comoving_distance(c, a), bg.growth_factor(c, a), bg.growth_rate(d, a), bg.a_of_chi(c, 2000 * a), transfer.Eisenstein_Hu(c, a), n(z),
            probes.WeakLensing([n]).kernel(c, z, 20.0))


class Buffer:
    def __init__(self):
        self.b = None

    def __call__(self, *v):
        if self.b is None:
            self.b = onp.empty(len(v))
        self.b[:] = v
        return self.b


_buf = Buffer()
_cs = {}


def held(key, make):
    """Objects that all variants of a group share."""
    if key not in _cs:
        _cs[key] = make()
    return _cs[key]


def pts(make):
    return lambda: (held("c", co), held("d", lambda: co(dict(COSMO, gamma=0.5))), held("n", lambda: rs.smail_nz(1.2, 2.0, 0.8, zmax=5.0)), make())


POINTS = [
    ("base", pts(lambda: onp.array(A))),
    ("other", pts(lambda: onp.array(A) * 0.9)),
    ("reversed", pts(lambda: onp.array(A[::-1]))),
    ("last", pts(lambda: onp.array(A[:3] + (A[3] * TINY,)))),
    ("first", pts(lambda: onp.array((A[0] * TINY,) + A[1:]))),
    ("middle", pts(lambda: onp.array((A[0], A[1] * 1.3) + A[2:]))),
    ("jax", pts(lambda: jnp.array(A) * 0.8)),
    ("buffer", pts(lambda: _buf(*A))),
    ("buffer refilled", pts(lambda: _buf(0.2, 0.3, 0.4, 0.5))),
    ("single", pts(lambda: onp.array(A[:1]))),
    ("two", pts(lambda: onp.array(A[:2]))),
    ("single precision", pts(lambda: onp.array(A, onp.float32))),
]
group("points", f_points, POINTS)
group("scalar points", f_points, [(str(i), pts(lambda v=v: v)) for i, v in enumerate((0.5, 0.5 * TINY, 0.31, 0.05, 1.0))])


# ---- options of the tables, on one object and on new ones
def f_table(log10_amin, steps):
    def f(c, a):
        return bg.radial_comoving_distance(c, a, log10_amin=log10_amin, steps=steps)

    return f


group("table options", None, [("%s,%s,%s" % (o, l, s), lambda o=o: (held("t", co) if o == "one" else co(), jnp.array(A)), f_table(l, s))
                              for o in ("one", "new") for l, s in ((-3, 256), (-3, 64), (-2, 256), (-4, 256), (-3, 128))])


# ---- power: options and user functions
def user_tf(p):
    def tf(cosmo, k, type="x", q=0.0):
        return k ** (-p) / (1 + k * cosmo.h) * (1 + q * k)

    return tf


class Model:
    def __init__(self, p):
        self.p = p

    def tf(self, cosmo, k, **kw):
        return k ** (-self.p) / (1 + k)

    def nl(self, cosmo, k, a, transfer_fn):
        return self.p * power.linear_matter_power(cosmo, k, a, transfer_fn) + k

    def __call__(self, cosmo, k, **kw):
        return self.tf(cosmo, k)


def user_nl(p):
    def nl(cosmo, k, a, transfer_fn):
        return p * transfer_fn(cosmo, k) + bg.growth_factor(cosmo, a)

    return nl


def lin(**kw):
    return lambda c, k: power.linear_matter_power(c, k, 0.7, **kw)


def nonlin(**kw):
    return lambda c, k: power.nonlinear_matter_power(c, k, 0.7, **kw)


def _hf(p):
    return functools.partial(power.halofit, prescription=p)


def _ck():
    return held("pc", co), jnp.array(K)


group("transfer options", None, [(l, _ck, f) for l, f in [
    ("default", lin()),
    ("eisenhu", lin(type="eisenhu")),
    ("eisenhu_osc", lin(type="eisenhu_osc")),
    ("user 0.1", lin(transfer_fn=user_tf(0.1))),
    ("user 0.2", lin(transfer_fn=user_tf(0.2))),
    ("user 0.1 q=1", lin(transfer_fn=user_tf(0.1), q=1.0)),
    ("user 0.1 q=2", lin(transfer_fn=user_tf(0.1), q=2.0)),
    ("partial eisenhu", lin(transfer_fn=functools.partial(transfer.Eisenstein_Hu, type="eisenhu"))),
    ("method 0.1", lin(transfer_fn=Model(0.1).tf)),
    ("method 0.3", lin(transfer_fn=Model(0.3).tf)),
    ("callable 0.1", lin(transfer_fn=Model(0.1))),
    ("callable 0.3", lin(transfer_fn=Model(0.3))),
    ("sigma8", lambda c, k: power.sigmasqr(c, 8.0, transfer.Eisenstein_Hu)),
    ("sigma4", lambda c, k: power.sigmasqr(c, 4.0, transfer.Eisenstein_Hu)),
    ("sigma8 kmin", lambda c, k: power.sigmasqr(c, 8.0, transfer.Eisenstein_Hu, kmin=0.01)),
    ("sigma8 kmax", lambda c, k: power.sigmasqr(c, 8.0, transfer.Eisenstein_Hu, kmax=1.0)),
]], pairs={"eager": "star", "jit": "all"})
group("non linear options", None, [(l, _ck, f) for l, f in [
    ("default", nonlin()),
    ("linear", nonlin(nonlinear_fn=power.linear)),
    ("user 1", nonlin(nonlinear_fn=user_nl(1.0))),
    ("user 2", nonlin(nonlinear_fn=user_nl(2.0))),
    ("method 1", nonlin(nonlinear_fn=Model(1.0).nl)),
    ("method 2", nonlin(nonlinear_fn=Model(2.0).nl)),
    ("smith", nonlin(nonlinear_fn=_hf("smith2003"))),
    ("takahashi", nonlin(nonlinear_fn=_hf("takahashi2012"))),
    ("no wiggle", nonlin(transfer_fn=functools.partial(transfer.Eisenstein_Hu, type="eisenhu"))),
    ("user tf 0.1", nonlin(transfer_fn=user_tf(0.1), nonlinear_fn=power.linear)),
    ("user tf 0.2", nonlin(transfer_fn=user_tf(0.2), nonlinear_fn=power.linear)),
]], pairs="star")


# ---- distributions
def f_nz(n, z):
    return n(z), n.pz_fn(z), n.gals_per_steradian, n.gals_per_arcmin2, n.zmax


def f_nz_kernel(n, z):
    return f_nz(n, z) + (probes.WeakLensing([n]).kernel(held("kc", co), z, 20.0), probes.WeakLensing([n]).noise())


def smail(d):
    return rs.smail_nz(d["a"], d["b"], d["z0"], zmax=d["zmax"], gals_per_arcmin2=d["gals"])


_s = dict(a=1.2, b=2.0, z0=0.8, zmax=5.0, gals=3.0)
_sw = [("a,b swapped", dict(a=2.0, b=1.2)), ("zmax=1", dict(zmax=1.0)), ("zmax int", dict(zmax=5, gals=7.0))]
group("smail", f_nz_kernel, one_at_a_time(_s, lambda d: (smail(d), jnp.array(Z)), _sw))


def kde(d):
    return rs.kde_nz(d["cat"](), d["w"](), bw=d["bw"], zmax=d["zmax"], gals_per_arcmin2=d["gals"])


_cb, _wb = Buffer(), Buffer()
_k = dict(cat=lambda: jnp.array([0.3, 0.8, 1.4]), w=lambda: jnp.array([1.0, 0.5, 0.25]), bw=0.2, zmax=4.0, gals=3.0)
group("kde", f_nz, one_at_a_time(_k, lambda d: (kde(d), jnp.array(Z)), [
    ("cat", dict(cat=lambda: jnp.array([0.3, 0.9, 1.4]))),
    ("cat~", dict(cat=lambda: jnp.array([0.3, 0.8, 1.4 * TINY]))),
    ("cat permuted", dict(cat=lambda: jnp.array([0.8, 0.3, 1.4]))),
    ("weights", dict(w=lambda: jnp.array([1.0, 0.6, 0.25]))),
    ("weights permuted", dict(w=lambda: jnp.array([0.5, 1.0, 0.25]))),
    ("buffer", dict(cat=lambda: _cb(0.3, 0.8, 1.4), w=lambda: _wb(1.0, 0.5, 0.25))),
    ("buffer refilled", dict(cat=lambda: _cb(0.4, 0.5, 1.0), w=lambda: _wb(1.0, 0.5, 0.25))),
    ("weights refilled", dict(cat=lambda: _cb(0.3, 0.8, 1.4), w=lambda: _wb(0.1, 0.5, 0.25))),
    ("longer", dict(cat=lambda: jnp.array([0.3, 0.8, 1.4, 0.5]), w=lambda: jnp.array([1.0, 0.5, 0.25, 0.3]))),
]))


def shift(d):
    return rs.systematic_shift(rs.smail_nz(d["a"], 2.0, d["z0"], zmax=d["czmax"], gals_per_arcmin2=d["cgals"]), d["dz"], zmax=d["zmax"], gals_per_arcmin2=d["gals"])


_h = dict(a=1.2, z0=0.8, czmax=4.0, cgals=2.0, dz=0.1, zmax=5.0, gals=3.0)
group("shift", f_nz, one_at_a_time(_h, lambda d: (shift(d), jnp.array(Z)), [("-dz", dict(dz=-0.1)), ("0", dict(dz=0.0))]))
group("shift of one", f_nz, [("%r" % v, lambda v=v: (rs.systematic_shift(held("child", lambda: smail(_s)), v, zmax=5.0, gals_per_arcmin2=1 + v), jnp.array(Z))) for v in (0.0, 0.1, 0.1 * TINY, -0.1)] + [
    ("twice", lambda: (rs.systematic_shift(rs.systematic_shift(held("child", lambda: smail(_s)), 0.05, zmax=5.0), 0.05, zmax=5.0), jnp.array(Z)))])
group("plane", f_nz_kernel, one_at_a_time(dict(z0=1.0, zmax=4.0, gals=3.0), lambda d: (rs.delta_nz(d["z0"], zmax=d["zmax"], gals_per_arcmin2=d["gals"]), jnp.array(Z))))


# ---- probes
def bins(s="ST", g=(3.0, 2.0)):
    d = dict(S=lambda g: rs.smail_nz(1.2, 2.0, 0.8, zmax=5.0, gals_per_arcmin2=g), T=lambda g: rs.smail_nz(1.4, 2.0, 0.5, zmax=5.0, gals_per_arcmin2=g),
             U=lambda g: rs.smail_nz(1.2, 2.0, 0.8, zmax=3.0, gals_per_arcmin2=g), P=lambda g: rs.delta_nz(1.0, zmax=5.0, gals_per_arcmin2=g),
             Q=lambda g: rs.delta_nz(1.5, zmax=5.0, gals_per_arcmin2=g))
    return [d[x](g[i % len(g)]) for i, x in enumerate(s)]


def f_probe(p, z, ell):
    c = held("prc", co)
    return p.kernel(c, z, ell), p.noise(), p.zmax, p.n_tracers


def wl(s="ST", g=(3.0, 2.0), ell=50.0, **k):
    return lambda: (probes.WeakLensing(bins(s, g), **{n: v() if callable(v) else v for n, v in k.items()}), jnp.array(Z), ell)


def nc(s="ST", b=lambda: bias.constant_linear_bias(1.5), g=(3.0, 2.0), ell=50.0, **k):
    return lambda: (probes.NumberCounts(bins(s, g), b(), **k), jnp.array(Z), ell)


CON, INV, DES = bias.constant_linear_bias, bias.inverse_growth_linear_bias, bias.des_y1_ia_bias
group("lensing", f_probe, [
    ("base", wl()), ("order", wl("TS")), ("bin", wl("SU")), ("planes", wl("PQ")), ("planes order", wl("QP")), ("mixed", wl("PS")), ("mixed order", wl("SP")), ("three", wl("STP")),
    ("one", wl("S")), ("density", wl(g=(3.0, 2.0 * TINY))), ("density order", wl(g=(2.0, 3.0))),
    ("sigma_e", wl(sigma_e=0.3)), ("sigma_e~", wl(sigma_e=0.26 * TINY)), ("sigma_e list", wl(sigma_e=[0.26, 0.3])), ("sigma_e list order", wl(sigma_e=[0.3, 0.26])),
    ("m", wl(multiplicative_bias=0.1)), ("m list", wl(multiplicative_bias=[0.1, 0.2])), ("m list order", wl(multiplicative_bias=[0.2, 0.1])), ("m list~", wl(multiplicative_bias=[0.1, 0.2 * TINY])),
    ("ia", wl(ia_bias=lambda: CON(0.5))), ("ia value", wl(ia_bias=lambda: CON(0.6))), ("ia form", wl(ia_bias=lambda: INV(0.5))),
    ("ia list", wl(ia_bias=lambda: [CON(0.5), INV(0.5)])), ("ia list order", wl(ia_bias=lambda: [INV(0.5), CON(0.5)])), ("ia des", wl(ia_bias=lambda: DES(0.5, 1.0, 0.6))),
    ("ia des z0", wl(ia_bias=lambda: DES(0.5, 1.0, 0.7))), ("ia off", wl(ia_bias=lambda: CON(0.5), ia_enabled=False)), ("ia m", wl(ia_bias=lambda: CON(0.5), multiplicative_bias=0.1)),
    ("ell", wl(ell=51.0)), ("ell~", wl(ell=50.0 * TINY)), ("ell int", wl(ell=53)),
], pairs="star")
group("counts", f_probe, [
    ("base", nc()), ("order", nc("TS")), ("bin", nc("SU")), ("density", nc(g=(3.0, 2.0 * TINY))), ("one", nc("S")), ("ell", nc(ell=60.0)), ("rsd", nc(has_rsd=True, b=lambda: CON(1.6))),
    ("bias", nc(b=lambda: CON(1.6))), ("bias~", nc(b=lambda: CON(1.5 * TINY))), ("form", nc(b=lambda: INV(1.5))), ("list", nc(b=lambda: [CON(1.5), CON(0.7)])),
    ("list order", nc(b=lambda: [CON(0.7), CON(1.5)])), ("list forms", nc(b=lambda: [CON(1.5), INV(0.7)])), ("list forms order", nc(b=lambda: [INV(1.5), CON(0.7)])),
])


def f_bias(b, c, z):
    return jnp.stack([x(c, z) * jnp.ones_like(z) for x in b])


group("biases", f_bias, [(l, lambda b=b, d=d: (b(), co(dict(COSMO, **d)), jnp.array(Z))) for l, b, d in [
    ("base", lambda: [CON(1.2), INV(1.2), DES(0.5, 1.0, 0.6)], {}),
    ("con", lambda: [CON(1.3), INV(1.2), DES(0.5, 1.0, 0.6)], {}),
    ("inv", lambda: [CON(1.2), INV(1.3), DES(0.5, 1.0, 0.6)], {}),
    ("des A", lambda: [CON(1.2), INV(1.2), DES(0.6, 1.0, 0.6)], {}),
    ("des eta", lambda: [CON(1.2), INV(1.2), DES(0.5, 1.1, 0.6)], {}),
    ("des z0", lambda: [CON(1.2), INV(1.2), DES(0.5, 1.0, 0.7)], {}),
    ("order", lambda: [INV(1.2), CON(1.2), DES(0.5, 1.0, 0.6)], {}),
    ("cosmology", lambda: [CON(1.2), INV(1.2), DES(0.5, 1.0, 0.6)], dict(Omega_c=0.3)),
    ("gamma", lambda: [CON(1.2), INV(1.2), DES(0.5, 1.0, 0.6)], dict(gamma=0.5)),
]])


# ---- spectra
def pl(c, k, a, transfer_fn):
    return 1e3 * c.sigma8**2 * bg.growth_factor(c, a) ** 2 * k**c.n_s / (c.h + (8.0 * k) ** 2) ** 1.3


def pl2(c, k, a, transfer_fn):
    return 2 * pl(c, k, a, transfer_fn)


def f_cl(c, ell, p):
    m, v = gaussian_cl_covariance_and_mean(c, ell, p, nonlinear_fn=pl, sparse=True)
    return m, v, noise_cl(ell, p)


def f_cl2(c, ell, p):
    return gaussian_cl_covariance_and_mean(c, ell, p, nonlinear_fn=pl2, sparse=True)


def cov(**k):
    return lambda c, ell, p: gaussian_cl_covariance_and_mean(c, ell, p, nonlinear_fn=pl, **k)


def cl_args(d=COSMO, ell=(20.0, 100.0, 400.0), p=("w", "n"), g=(3.0, 2.0), se=0.26, b=1.5, m=0.0, buf=None):
    def make():
        w = probes.WeakLensing(bins("ST", g), sigma_e=se, multiplicative_bias=m)
        n = probes.NumberCounts(bins("TU", g), CON(b))
        return co(d), (buf(*ell) if buf else jnp.array(ell)), [dict(w=w, n=n)[x] for x in p]

    return make


_eb = Buffer()
group("spectra", f_cl, [
    ("base", cl_args()), ("ell", cl_args(ell=(20.0, 110.0, 400.0))), ("ell more", cl_args(ell=(20.0, 50.0, 100.0, 400.0))), ("ell reversed", cl_args(ell=(400.0, 100.0, 20.0))),
    ("ell buffer", cl_args(buf=_eb)), ("ell refilled", cl_args(ell=(30.0, 120.0, 300.0), buf=_eb)),
    ("probes order", cl_args(p=("n", "w"))), ("lensing", cl_args(p=("w",))), ("counts", cl_args(p=("n",))),
    ("density", cl_args(g=(3.0, 2.5))), ("density order", cl_args(g=(2.0, 3.0))), ("sigma_e", cl_args(se=0.3)), ("sigma_e list", cl_args(se=[0.26, 0.3])), ("bias", cl_args(b=1.6)), ("m", cl_args(m=0.1)),
    ("cosmology", cl_args(d=dict(COSMO, Omega_c=0.3))), ("sigma8~", cl_args(d=dict(COSMO, sigma8=0.82 * TINY))), ("gamma", cl_args(d=dict(COSMO, gamma=0.5))),
    ("other power", cl_args(), f_cl2), ("f_sky", cl_args(), cov(f_sky=0.5, sparse=True)), ("f_sky~", cl_args(), cov(f_sky=0.25 * TINY, sparse=True)), ("dense", cl_args(), cov(sparse=False)),
    ("transfer", cl_args(), lambda c, ell, p: angular_cl(c, ell, p, transfer_fn=user_tf(0.1), nonlinear_fn=power.linear)),
    ("transfer 2", cl_args(), lambda c, ell, p: angular_cl(c, ell, p, transfer_fn=user_tf(0.2), nonlinear_fn=power.linear)),
], pairs="star")


# ---- splines, interpolation, quadrature, differential equations
def f_spline(x, y, q):
    out = []
    for k, e in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural")):
        s = InterpolatedUnivariateSpline(x, y, k=k, endpoints=e)
        out += [s(q), s.derivative(q), s.antiderivative(q), s.integral(0.5, 2.9)]
    return out + [interpolate.interp(q, x, y)]


_x, _y, _q = onp.array([0.0, 0.7, 1.1, 2.0, 3.2, 4.0]), onp.array([1.0, -0.3, 0.8, 2.2, 0.1, 0.5]), onp.array([0.3, 2.9, 1.3])
_b6 = Buffer(), Buffer(), Buffer()
group("splines", f_spline, [(l, lambda a=a: tuple(jnp.asarray(v) for v in a)) for l, a in [
    ("base", (_x, _y, _q)), ("x", (_x * 1.1, _y, _q)), ("x middle", (_x + onp.array([0, 0, 0, 1e-5, 0, 0]), _y, _q)), ("y", (_x, _y[::-1], _q)), ("y last", (_x, _y + onp.array([0, 0, 0, 0, 0, 1e-5]), _q)),
    ("q", (_x, _y, _q + 1e-5)), ("q order", (_x, _y, _q[::-1])), ("shorter", (_x[:5], _y[:5], _q)), ("longer", (onp.append(_x, 5.0), onp.append(_y, 1.0), _q)), ("x,y swapped", (_x, _x**2, _q)),
]] + [
    ("buffers", lambda: (_b6[0](*_x), _b6[1](*_y), _b6[2](*_q))), ("x refilled", lambda: (_b6[0](*(_x * 1.2)), _b6[1](*_y), _b6[2](*_q))), ("y refilled", lambda: (_b6[0](*_x), _b6[1](*(_y * 2)), _b6[2](*_q))),
    ("q refilled", lambda: (_b6[0](*_x), _b6[1](*_y), _b6[2](*(_q * 1.01))))], pairs="star")


def quad(f, p, a, b, n):
    return lambda x: f(lambda u: jnp.exp(-p * u) * x, a, b, n)


def deq(p, y0, t):
    return lambda x: ode.odeint(lambda y, s: -p * y + s * x, jnp.asarray(y0), jnp.asarray(t))


group("quadrature", None, [("%s %s" % (n, (p, a, b, m)), lambda: (1.5,), quad(f, p, a, b, m)) for n, f in (("simps", integrate.simps), ("romb", lambda f, a, b, n: integrate.romb(f, a, b, divmax=n)))
                           for p, a, b, m in ((0.3, 0.0, 2.0, 4), (0.4, 0.0, 2.0, 4), (0.3, 0.1, 2.0, 4), (0.3, 0.0, 2.1, 4), (0.3, 0.0, 2.0, 6), (0.3, 2.0, 0.0, 4))]
      + [("odeint %s" % (v,), lambda: (1.5,), deq(*v)) for v in ((0.3, 1.0, (0.0, 0.5, 1.0)), (0.4, 1.0, (0.0, 0.5, 1.0)), (0.3, 1.1, (0.0, 0.5, 1.0)), (0.3, 1.0, (0.0, 0.6, 1.0)), (0.3, 1.0, (0.0, 0.5, 1.1)), (0.3, 1.0, (0.0, 0.5, 0.7, 1.0)))])

# ---- linear algebra
_m = onp.array([[[2.0, 3.0, 1.5], [0.3, -0.2, 0.1]], [[0.3, -0.2, 0.1], [1.0, 2.5, 4.0]]])


def f_sparse(m, v):
    d = sparse.to_dense(m)
    return (d, sparse.dot(m, v), sparse.dot(v, m), sparse.dot(v[None], m, v[:, None]), sparse.inv(m), sparse.det(m), sparse.slogdet(m), likelihood.gaussian_log_likelihood(v, 0.1 * v, m),
            likelihood.gaussian_log_likelihood(v, 0.1 * v, m, include_logdet=False), likelihood.gaussian_log_likelihood(v, 0.1 * v, d),
            likelihood.gaussian_log_likelihood(v, 0.1 * v, d, inverse_method="cholesky", include_logdet=False))


def _bump(i, e=1e-5):
    m = _m.copy()
    m[i] += e
    if i[0] != i[1]:
        m[i[1], i[0], i[2]] += e
    return m


_mb, _vb = onp.empty_like(_m), Buffer()


def _fill(m):
    _mb[...] = m
    return _mb


_v6 = onp.arange(6) * 0.3 - 0.5
group("sparse", f_sparse, [
    ("base", lambda: (_m, _v6)), ("scaled", lambda: (_m * 1.1, _v6)), ("diagonal", lambda: (_bump((0, 0, 0)), _v6)), ("last", lambda: (_bump((1, 1, 2)), _v6)), ("off", lambda: (_bump((0, 1, 1)), _v6)),
    ("vector", lambda: (_m, _v6 * TINY)), ("vector order", lambda: (_m, _v6[::-1])), ("swapped", lambda: (_m[::-1, ::-1], _v6)), ("blocks", lambda: (onp.flip(_m, 2), _v6)),
    ("buffer", lambda: (_fill(_m), _vb(*_v6))), ("matrix refilled", lambda: (_fill(_bump((1, 1, 0), 0.1)), _vb(*_v6))), ("vector refilled", lambda: (_fill(_m), _vb(*(_v6 * 2)))),
    ("one block", lambda: (_m[:1, :1].repeat(2, 2), _v6)),
])


def child(g, mode, i, fd):
    try:
        r = ("ok", g.runner(mode)(i))
    except BaseException as e:  # noqa: B902
        r = ("err", "%s: %s" % (type(e).__name__, str(e)[:300]))
    with os.fdopen(fd, "wb") as f:
        pickle.dump(r, f)
    os._exit(0)


def main(name, mode, out, jobs=2):
    g = GROUPS[name]
    n = len(g.variants)
    res, todo, running = [None] * n, list(range(n)), {}

    def reap():
        pid, _ = os.wait()
        i, path = running.pop(pid)
        try:
            res[i] = pickle.load(open(path, "rb"))
        except (OSError, EOFError):
            res[i] = ("dead", "the process ended without a result")
        if os.path.exists(path):
            os.remove(path)

    for i in todo:
        path = "%s.%d" % (out, i)
        fd = os.open(path, os.O_WRONLY | os.O_CREAT)
        pid = os.fork()
        if pid == 0:
            child(g, mode, i, fd)
        os.close(fd)
        running[pid] = i, path
        if len(running) >= jobs:
            reap()
    while running:
        reap()
    pickle.dump(res, open(out, "wb"))


if __name__ == "__main__":
    main(*sys.argv[1:4])
