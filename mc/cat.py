"""Catalogue of the public functions of jax_cosmo, as fn(objects, points) with objects built from numbers.

Used by the checks that compare ways of evaluating (C05), differentiate (C06), change precision (C07) or reorder
points (C08)."""
import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import bias, likelihood, power, probes, redshift as rs, sparse, transfer
from jax_cosmo.angular_cl import angular_cl, gaussian_cl_covariance, gaussian_cl_covariance_and_mean, noise_cl
from jax_cosmo.scipy import integrate, interpolate, ode
from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline
from mc import jx

COSMO = {n: jx.ALPHA[n][0] for n in jx.NAMES}


def th(**kw):
    return dict(COSMO, **kw)


THETA = [
    th(),
    th(Omega_k=0.1, w0=-0.8),
    th(Omega_k=-0.1, wa=0.3),
    th(Omega_k=1e-3, h=0.5, sigma8=1.1),
    th(Omega_k=0.0, w0=-1.2, wa=-0.4, n_s=0.85),
    th(Omega_c=0.45, Omega_b=0.02, Omega_k=-1e-3),
]
GTHETA = [dict(t, gamma=g) for t, g in zip(THETA, (0.55, 0.4, 0.7, 0.55, 1.0, 0.3))]


class Entry:
    """name; thetas: numbers the objects are built from; build(theta) -> objects; fn(objects, points); x: points.

    axes: points can be mapped over (all leaves of x together); cost: 0 cheap, 1 table, 2 heavy."""

    def __init__(self, name, fn, thetas, build, x, axes=True, cost=0, group="", scale=1e-9, diff=True, single=True):
        self.name, self.fn, self.thetas, self.build, self.x = name, fn, thetas, build, x
        self.axes, self.cost, self.group, self.scale, self.diff, self.single = axes, cost, group, scale, diff, single


def cosmology(t):
    return jc.Cosmology(**t)


A = onp.array([0.02, 0.3, 0.55, 0.9, 1.0])
KS = onp.array([1e-3, 0.02, 0.1, 0.9, 20.0])
Z = onp.array([0.1, 0.45, 0.8, 1.9])
ELL = onp.array([2.0, 30.0, 400.0, 5000.0])
LIST = []


def add(*a, **k):
    LIST.append(Entry(*a, **k))


def _cosmo(name, fn, x, gamma=True, **k):
    add(name, fn, THETA, cosmology, x, group="cosmo", **k)
    if gamma:
        add(name + " (gamma)", fn, GTHETA, cosmology, x, group="gamma", **k)


for _f in (bg.w, bg.f_de, bg.Esqr, bg.H, bg.Omega_m_a, bg.Omega_de_a, bg.dchioverda):
    _cosmo(_f.__name__, _f, A, gamma=False)
_cosmo("radial_comoving_distance", bg.radial_comoving_distance, A, cost=1)
_cosmo("radial_comoving_distance(log10_amin=-2,steps=64)", lambda c, a: bg.radial_comoving_distance(c, a, log10_amin=-2, steps=64), A, cost=1, gamma=False)
_cosmo("transverse_comoving_distance", bg.transverse_comoving_distance, A, cost=1, gamma=False)
_cosmo("angular_diameter_distance", bg.angular_diameter_distance, A, cost=1, gamma=False)
_cosmo("a_of_chi", bg.a_of_chi, onp.array([30.0, 900.0, 2500.0, 5000.0]), cost=1, gamma=False)
_cosmo("growth_factor", bg.growth_factor, A, cost=1)
_cosmo("growth_rate", bg.growth_rate, A, cost=1)
_cosmo("Eisenstein_Hu", transfer.Eisenstein_Hu, KS, gamma=False)
_cosmo("Eisenstein_Hu(nowiggle)", lambda c, k: transfer.Eisenstein_Hu(c, k, "eisenhu"), KS, gamma=False)
_cosmo("primordial_matter_power", power.primordial_matter_power, KS, gamma=False)
_cosmo("sigmasqr", lambda c, x: power.sigmasqr(c, x, transfer.Eisenstein_Hu), onp.array(8.0), gamma=False, axes=False, cost=2)
_cosmo("linear_matter_power", lambda c, x: power.linear_matter_power(c, *x), (KS, onp.array([1.0, 0.8, 0.5, 0.3, 0.1])), cost=1)
_cosmo("linear_matter_power(k, a=0.7)", lambda c, k: power.linear_matter_power(c, k, 0.7), KS, cost=1, gamma=False)
_cosmo("linear_matter_power(k)", lambda c, k: power.linear_matter_power(c, k), KS, cost=1, gamma=False)
_cosmo("linear_matter_power(nowiggle)", lambda c, k: power.linear_matter_power(c, k, 0.7, type="eisenhu"), KS, cost=1, gamma=False)
_cosmo("nonlinear_matter_power", lambda c, x: power.nonlinear_matter_power(c, *x), (KS, onp.array([1.0, 0.8, 0.5, 0.3, 0.25])), cost=2)
_cosmo(
    "nonlinear_matter_power(smith2003)",
    lambda c, x: power.nonlinear_matter_power(c, *x, nonlinear_fn=lambda c, k, a, transfer_fn: power.halofit(c, k, a, transfer_fn, prescription="smith2003")),
    (KS, onp.array([1.0, 0.8, 0.5, 0.3, 0.25])), cost=2, gamma=False,
)
_cosmo("nonlinear_matter_power(k, a=0.7)", lambda c, k: power.nonlinear_matter_power(c, k, 0.7), KS, cost=2, gamma=False)
_cosmo(
    "derived parameters",
    lambda c, x: x * jnp.stack([c.Omega, c.Omega_m, c.Omega_de, c.k * 1.0, c.h, c.sqrtk]),
    onp.array(1.0), axes=False, diff=False, gamma=False,
)


# ---- redshift distributions
def _nz(name, thetas, build, x=Z, **k):
    add(name, lambda n, z: n(z), thetas, build, x, group="nz", **k)
    add(name + ".pz_fn", lambda n, z: n.pz_fn(z), thetas, build, x, group="nz", **k)
    add(name + " density", lambda n, z: z * n.gals_per_steradian, thetas, lambda t: build(t, 3.0), onp.array(1.0), axes=False, group="nz", diff=False)


SMAIL = [dict(a=1.2, b=2.0, z0=0.8), dict(a=2.0, b=1.5, z0=0.4), dict(a=0.7, b=1.0, z0=0.3), dict(a=2.0, b=0.68, z0=0.11)]
_nz("smail_nz", SMAIL, lambda t, g=1.0: rs.smail_nz(t["a"], t["b"], t["z0"], zmax=5.0, gals_per_arcmin2=g))
KDE = [
    dict(zcat=onp.array([0.3, 0.8, 1.4]), weight=onp.array([1.0, 0.5, 0.25])),
    dict(zcat=onp.array([0.9, 0.2, 0.9]), weight=onp.array([0.2, 0.4, 1.0])),
]
_nz("kde_nz", KDE, lambda t, g=1.0: rs.kde_nz(t["zcat"], t["weight"], bw=0.2, zmax=4.0, gals_per_arcmin2=g))
SHIFT = [dict(SMAIL[0], dz=0.15), dict(SMAIL[1], dz=-0.1), dict(SMAIL[0], dz=0.0), dict(a=4.0, b=1.5, z0=0.4, dz=0.0), dict(SMAIL[3], dz=0.03), dict(SMAIL[2], dz=0.11)]
_nz("systematic_shift", SHIFT, lambda t, g=1.0: rs.systematic_shift(rs.smail_nz(t["a"], t["b"], t["z0"], zmax=5.0), t["dz"], zmax=6.0, gals_per_arcmin2=g))
_nz("delta_nz", [dict(z0=0.45), dict(z0=0.8), dict(z0=0.2)], lambda t, g=1.0: rs.delta_nz(t["z0"], zmax=4.0, gals_per_arcmin2=g), diff=False)


# ---- biases
def _bias(name, cls, thetas):
    add(name, lambda o, z: o[0](o[1], z) * jnp.ones_like(z), [dict(THETA[i], **t) for i, t in enumerate(thetas)],
        lambda t: (cls(*[t[k] for k in t if k.startswith("b_")]), cosmology({k: v for k, v in t.items() if not k.startswith("b_")})), Z, group="bias", cost=1)


_bias("constant_linear_bias", bias.constant_linear_bias, [dict(b_0=1.3), dict(b_0=0.8), dict(b_0=-1.0)])
_bias("inverse_growth_linear_bias", bias.inverse_growth_linear_bias, [dict(b_0=1.3), dict(b_0=0.8), dict(b_0=2.0)])
_bias("des_y1_ia_bias", bias.des_y1_ia_bias, [dict(b_0=0.5, b_1=-2.0, b_2=0.62), dict(b_0=1.5, b_1=3.0, b_2=0.3), dict(b_0=-0.3, b_1=0.5, b_2=0.9)])


# ---- probes
class Pair:
    """A cosmology and a list of probes from numbers s_* (n(z)), b_* (bias), m_* (multiplicative)."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, t):
        c = cosmology({k: v for k, v in t.items() if k in jx.NAMES + ("gamma",)})
        n1 = rs.smail_nz(t["s_a"], t["s_b"], t["s_z"], zmax=5.0, gals_per_arcmin2=3.0)
        n2 = rs.systematic_shift(rs.smail_nz(1.5, 2.0, t["t_z"], zmax=5.0), t["t_d"], zmax=5.0, gals_per_arcmin2=2.0)
        pl = rs.delta_nz(t["p_z"], zmax=5.0, gals_per_arcmin2=4.0)
        wl = lambda: probes.WeakLensing([n1, pl, n2], multiplicative_bias=[t["m_0"], t["m_1"], t["m_2"]], sigma_e=[0.26, 0.3, 0.2])
        ia = lambda: probes.WeakLensing([n1, n2], ia_bias=[bias.des_y1_ia_bias(t["i_0"], t["i_1"], 0.62), bias.constant_linear_bias(t["i_2"])], multiplicative_bias=t["m_0"], sigma_e=0.26)
        nc = lambda: probes.NumberCounts([n1, n2], [bias.constant_linear_bias(t["b_0"]), bias.inverse_growth_linear_bias(t["b_1"])])
        return c, {"wl": lambda: [wl()], "ia": lambda: [ia()], "nc": lambda: [nc()], "both": lambda: [ia(), nc()], "nz": lambda: [nc(), wl()]}[self.kind]()


_pt = dict(s_a=1.2, s_b=2.0, s_z=0.8, t_z=0.5, t_d=0.13, p_z=1.1, m_0=0.02, m_1=-0.1, m_2=0.3, i_0=0.5, i_1=-1.0, i_2=0.8, b_0=1.3, b_1=0.9)
_pv = [dict(), dict(s_z=0.5, t_d=-0.05, m_1=0.2, b_0=0.7, i_0=1.2, p_z=0.6), dict(s_a=2.0, s_b=0.68, s_z=0.11, p_z=2.1, t_z=0.9, i_1=2.0, b_1=1.7, m_0=-0.05), dict(t_d=0.0, m_0=0.0)]
PTHETA = [dict(THETA[i], **dict(_pt, **_pv[i])) for i in range(4)]
GPTHETA = [dict(GTHETA[i], **dict(_pt, **_pv[i])) for i in range(4)]


def kern(ell):
    return lambda o, z: jnp.concatenate([p.kernel(o[0], z, ell) for p in o[1]]).T


for _k in ("wl", "ia", "nc"):
    add("%s kernel" % _k, kern(50.0), PTHETA, Pair(_k), Z, group="kernel", cost=1)
    add("%s kernel (ell)" % _k, lambda o, ell: jnp.concatenate([jnp.stack([p.kernel(o[0], jnp.array([0.3, 0.7]), e) for e in ell], 0) for p in o[1]], 1) if jnp.ndim(ell) else jnp.concatenate([p.kernel(o[0], jnp.array([0.3, 0.7]), ell) for p in o[1]]), PTHETA, Pair(_k), ELL[:3], group="kernel", cost=1)
    add("%s noise" % _k, lambda o, x: x * jnp.concatenate([p.noise() for p in o[1]]), PTHETA, Pair(_k), onp.array(1.0), axes=False, group="kernel", diff=False)
add("ia kernel (gamma)", kern(50.0), GPTHETA, Pair("ia"), Z, group="kernel", cost=1)


def plin(c, k, a, transfer_fn):
    """Cheap non linear model: a power law that depends on all parameters."""
    D = bg.growth_factor(c, a)
    return 1e3 * c.sigma8**2 * D**2 * k**c.n_s / (c.h + (8.0 * k) ** 2) ** 1.3


def cl(nl, tf=transfer.Eisenstein_Hu):
    return lambda o, ell: angular_cl(o[0], jnp.atleast_1d(ell), o[1], transfer_fn=tf, nonlinear_fn=nl).T


for _k in ("both", "nz"):
    add("angular_cl(%s, user power)" % _k, cl(plin), PTHETA, Pair(_k), ELL, group="cl", cost=2)
add("angular_cl(both, linear)", cl(power.linear), PTHETA, Pair("both"), ELL, group="cl", cost=2)
add("angular_cl(both, linear) (gamma)", cl(power.linear), GPTHETA, Pair("both"), ELL, group="cl", cost=2)
add("angular_cl(both, halofit)", cl(power.halofit), PTHETA, Pair("both"), ELL, group="clnl", cost=3)
add("noise_cl", lambda o, ell: noise_cl(ell, o[1]).T, PTHETA, Pair("nz"), ELL, group="cl", axes=False, diff=False)
for _s in (True, False):
    add("gaussian_cl_covariance_and_mean(sparse=%s)" % _s, lambda o, ell, s=_s: jnp.concatenate([jnp.ravel(v) for v in gaussian_cl_covariance_and_mean(o[0], ell, o[1], nonlinear_fn=plin, sparse=s, f_sky=0.3)]), PTHETA, Pair("both"), ELL, axes=False, group="cl", cost=2)


# ---- splines, interpolation, quadrature
def _sp(k, e):
    return lambda t: InterpolatedUnivariateSpline(t["x"], t["y"], k=k, endpoints=e)


SPL = [
    dict(x=onp.array([0.0, 0.7, 1.1, 2.0, 3.2, 4.0]), y=onp.array([1.0, -0.3, 0.8, 2.2, 0.1, 0.5])),
    dict(x=onp.array([-1.0, 0.1, 1.0, 1.5, 2.0, 6.0]), y=onp.array([0.2, 0.2, -1.0, 3.0, 0.4, 0.0])),
    dict(x=onp.array([-2.0, -1.0, 0.0, 1.0, 2.0, 3.0]), y=onp.array([5.0, 1.0, 0.0, 0.0, 2.0, -2.0])),
]
XQ = onp.array([-0.2, 0.47, 1.31, 2.57, 4.4])  # no knot of any degree
for _k, _e in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "natural"), (3, "not-a-knot")):
    _n = "spline(k=%d,%s)" % (_k, _e)
    add(_n, lambda s, x: s(x), SPL, _sp(_k, _e), XQ, group="spline")
    for _d in range(1, _k + 1):
        add(_n + ".derivative(%d)" % _d, lambda s, x, d=_d: s.derivative(x, d), SPL, _sp(_k, _e), XQ, group="spline")
    add(_n + ".antiderivative", lambda s, x: s.antiderivative(x), SPL, _sp(_k, _e), XQ, group="spline")
    add(_n + ".integral", lambda s, x: x * s.integral(0.3, 2.9), SPL, _sp(_k, _e), onp.array(1.0), axes=False, group="spline")
add("interp", lambda s, x: interpolate.interp(jnp.atleast_1d(x), s["x"], s["y"]), SPL, lambda t: jax.tree_util.tree_map(jnp.asarray, t), XQ, group="spline")
add("simps", lambda t, x: x * integrate.simps(lambda u: jnp.exp(-t["p"] * u) * jnp.sin(t["q"] * u), t["a"], t["b"], 16), [dict(p=0.3, q=2.0, a=0.0, b=2.0), dict(p=-0.5, q=1.0, a=1.0, b=-1.0)], lambda t: t, onp.array(1.0), axes=False, group="spline")
add("romb", lambda t, x: x * integrate.romb(lambda u: jnp.exp(-t["p"] * u) * jnp.sin(t["q"] * u), t["a"], t["b"], divmax=5), [dict(p=0.3, q=2.0, a=0.0, b=2.0), dict(p=-0.5, q=1.0, a=1.0, b=-1.0)], lambda t: t, onp.array(1.0), axes=False, group="spline")
add("odeint", lambda t, x: ode.odeint(lambda y, s: jnp.stack([y[1], -t["p"] * y[0] + jnp.sin(t["q"] * s)]), jnp.stack([t["a"], t["b"]]), x), [dict(p=0.3, q=2.0, a=0.0, b=2.0), dict(p=1.5, q=1.0, a=1.0, b=-1.0)], lambda t: t, onp.linspace(0, 2, 9), axes=False, group="spline")

# ---- linear algebra
_m = onp.array([[[2.0, 3.0, 1.5], [0.3, -0.2, 0.1]], [[0.4, 0.1, -0.3], [1.0, 2.5, -4.0]]])
MAT = [dict(m=_m, v=onp.arange(6) * 0.3 - 0.5, w=onp.cos(onp.arange(12.0)).reshape(6, 2)), dict(m=onp.flip(_m, 2) + 0.1, v=onp.sin(onp.arange(6.0)), w=onp.sin(onp.arange(12.0)).reshape(6, 2))]
for _n, _f in (
    ("to_dense", lambda t: sparse.to_dense(t["m"])),
    ("dot(sparse, vec)", lambda t: sparse.dot(t["m"], t["v"])),
    ("dot(vec, sparse)", lambda t: sparse.dot(t["v"], t["m"])),
    ("dot(sparse, dense)", lambda t: sparse.dot(t["m"], t["w"])),
    ("dot(dense, sparse)", lambda t: sparse.dot(t["w"].T, t["m"])),
    ("dot(sparse, sparse)", lambda t: sparse.dot(t["m"], t["m"])),
    ("dot(dense, sparse, dense)", lambda t: sparse.dot(t["w"].T, t["m"], t["w"])),
    ("inv", lambda t: sparse.inv(t["m"])),
    ("det", lambda t: sparse.det(t["m"])),
    ("slogdet", lambda t: jnp.stack(sparse.slogdet(t["m"]))),
):
    add("sparse." + _n, lambda t, x, f=_f: x * f(t), MAT, lambda t: t, onp.array(1.0), axes=False, group="sparse")


def _like(sp, **k):
    def f(t, x):
        m = jnp.stack([jnp.stack([t["d0"], t["o"]]), jnp.stack([t["o"], t["d1"]])])
        C = m if sp else sparse.to_dense(m)
        return x * likelihood.gaussian_log_likelihood(t["data"], t["mu"], C, **k)

    return f


LIKE = [
    dict(d0=onp.array([2.0, 1.0, 3.0]), d1=onp.array([1.0, 4.0, 2.0]), o=onp.array([0.3, -0.5, 0.1]), data=onp.arange(6) * 0.2, mu=onp.ones(6)),
    dict(d0=onp.array([0.5, 1.0, 3.0]), d1=onp.array([1.0, 0.2, 2.0]), o=onp.array([0.1, 0.1, -0.9]), data=onp.ones(6), mu=onp.cos(onp.arange(6.0))),
]
for _i in ("inverse", "cholesky"):
    for _l in (True, False):
        add("gaussian_log_likelihood(dense, %s, %s)" % (_i, _l), _like(False, include_logdet=_l, inverse_method=_i), LIKE, lambda t: t, onp.array(1.0), axes=False, group="sparse")
for _l in (True, False):
    add("gaussian_log_likelihood(sparse, %s)" % _l, _like(True, include_logdet=_l), LIKE, lambda t: t, onp.array(1.0), axes=False, group="sparse")
BY = {e.name: e for e in LIST}
assert len(BY) == len(LIST)
