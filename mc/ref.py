"""Reference models in plain numpy/scipy, written from the published equations.

A cosmology is a dict of (arrays of) parameters; everything broadcasts.  Nothing here imports jax_cosmo."""
import numpy as onp

C_KMS = 299792.458
RH = C_KMS / 100.0
TCMB = 2.726
STERADIAN_ARCMIN2 = (180.0 * 60.0 / onp.pi) ** 2  # square arcminutes in a steradian
RHOCRIT = 2.775e11

DEFAULT = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0, gamma=None)


def full(**kw):
    p = dict(DEFAULT)
    p.update(kw)
    return p


def om(p):
    return p["Omega_c"] + p["Omega_b"]


def ode_(p):
    return 1.0 - p["Omega_k"] - om(p)


def w(p, a):
    return p["w0"] + p["wa"] * (1.0 - a)


def fde(p, a):
    return -3.0 * (1.0 + p["w0"] + p["wa"]) * onp.log(a) + 3.0 * p["wa"] * (a - 1.0)


def esqr(p, a):
    return om(p) / a**3 + p["Omega_k"] / a**2 + ode_(p) * onp.exp(fde(p, a))


def H(p, a):
    return 100.0 * onp.sqrt(esqr(p, a))


def om_a(p, a):
    return om(p) / a**3 / esqr(p, a)


def ode_a(p, a):
    return ode_(p) * onp.exp(fde(p, a)) / esqr(p, a)


def dchida(p, a):
    return RH / (a**2 * onp.sqrt(esqr(p, a)))


_GX, _GW = onp.polynomial.legendre.leggauss(40)


def gauss(f, lo, hi, panels=8):
    """Integral of f over [lo, hi] (arrays, broadcast); f gets points with a new last axis."""
    lo, hi = onp.broadcast_arrays(onp.asarray(lo, float), onp.asarray(hi, float))
    tot = 0.0
    for i in range(panels):
        a = lo + (hi - lo) * i / panels
        b = lo + (hi - lo) * (i + 1) / panels
        x = 0.5 * (a + b)[..., None] + 0.5 * (b - a)[..., None] * _GX
        tot = tot + 0.5 * (b - a) * onp.sum(f(x) * _GW, axis=-1)
    return tot


def ex(p):
    """Parameters with one more trailing axis."""
    return {k: (v[..., None] if isinstance(v, onp.ndarray) else v) for k, v in p.items()}


def chi(p, a):
    q = ex(p)
    shape = onp.broadcast(*[onp.asarray(v) for v in p.values() if v is not None], onp.asarray(a)).shape
    a = onp.broadcast_to(onp.asarray(a, float), shape)

    def f(x):
        aa = onp.exp(x)
        return dchida(q, aa) * aa

    return gauss(f, onp.log(a), onp.zeros_like(a), 4)


def fk(p, chi_):
    """Transverse distance from the radial one."""
    ok = onp.asarray(p["Omega_k"], float)
    s = onp.sqrt(onp.abs(ok)) * chi_ / RH
    with onp.errstate(all="ignore"):
        r = onp.where(ok > 0, onp.sinh(s) / s, onp.where(ok < 0, onp.sin(s) / s, 1.0))
    r = onp.where(s == 0, 1.0, r)
    return chi_ * r


def growth_table(p, lo=1e-6, n=6000):
    """(ln a grid, D, f) of the growing mode for parameter arrays of one shape (P,)."""
    x = onp.linspace(onp.log(lo), 0.0, n + 1)
    h = x[1] - x[0]

    def rhs(xi, y):
        a = onp.exp(xi)
        m, d = om_a(p, a), ode_a(p, a)
        # D'' + (2 + dlnH/dlna) D' = 1.5 Om(a) D, derivatives in ln a
        fr = 2.0 - 1.0 - 0.5 * (m + (1.0 + 3.0 * w(p, a)) * d)
        return onp.array([y[1], 1.5 * m * y[0] - fr * y[1]])

    shape = onp.broadcast(*[onp.asarray(v, float) for v in p.values() if v is not None]).shape
    y = onp.array([onp.full(shape, lo), onp.full(shape, lo)])
    out = [y]
    for xi in x[:-1]:
        k1 = rhs(xi, y)
        k2 = rhs(xi + h / 2, y + h / 2 * k1)
        k3 = rhs(xi + h / 2, y + h / 2 * k2)
        k4 = rhs(xi + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        out.append(y)
    out = onp.array(out)
    D, dD = out[:, 0], out[:, 1]
    return x, D / D[-1], dD / D


def growth(p, a):
    """D(a), f(a) for parameter arrays (P,) and scale factors (A,): arrays (P, A)."""
    x, D, f = growth_table(p)
    la = onp.log(onp.asarray(a, float))
    D2 = D.reshape(len(x), -1)
    f2 = f.reshape(len(x), -1)
    from scipy.interpolate import CubicSpline

    return CubicSpline(x, D2)(la).T, CubicSpline(x, f2)(la).T


def growth_gamma(p, a, lnD=False):
    """Growth factor of the gamma parametrisation; p arrays broadcast against a."""
    q = ex(p)
    shape = onp.broadcast(*[onp.asarray(v) for v in p.values() if v is not None], onp.asarray(a)).shape
    a = onp.broadcast_to(onp.asarray(a, float), shape)
    g = q["gamma"]
    r = -gauss(lambda x: om_a(q, onp.exp(x)) ** g, onp.log(a), onp.zeros_like(a), 4)
    return r if lnD else onp.exp(r)


def D_of(p, a):
    """Growth factor for one cosmology (scalars) at scale factors a, with the model it selects."""
    a = onp.atleast_1d(onp.asarray(a, float))
    if p.get("gamma") is not None:
        return growth_gamma(p, a)
    q = {k: v for k, v in p.items() if k != "gamma"}
    return growth(q, a)[0][0]


# ---------------------------------------------------------------- Eisenstein & Hu 1998
def eh(p, k, kind="eisenhu_osc"):
    """k in h/Mpc.  Equations numbered as in astro-ph/9709112."""
    h = p["h"]
    ob, oc = p["Omega_b"], p["Omega_c"]
    om_ = ob + oc
    wm, wb = om_ * h * h, ob * h * h
    th2 = (TCMB / 2.7) ** 2
    kmpc = k * h
    z_eq = 2.50e4 * wm / th2**2  # (2)
    k_eq = 7.46e-2 * wm / th2  # (3) 1/Mpc
    b1 = 0.313 * wm**-0.419 * (1 + 0.607 * wm**0.674)  # (4)
    b2 = 0.238 * wm**0.223
    z_d = 1291 * wm**0.251 / (1 + 0.659 * wm**0.828) * (1 + b1 * wb**b2)
    Rd = 31.5 * wb / th2**2 * (1e3 / z_d)  # (5)
    Req = 31.5 * wb / th2**2 * (1e3 / z_eq)
    s = 2 / (3 * k_eq) * onp.sqrt(6 / Req) * onp.log((onp.sqrt(1 + Rd) + onp.sqrt(Rd + Req)) / (1 + onp.sqrt(Req)))  # (6) Mpc
    k_silk = 1.6 * wb**0.52 * wm**0.73 * (1 + (10.4 * wm) ** -0.95)  # (7)
    fb, fc = ob / om_, oc / om_
    if kind == "eisenhu":
        ag = 1 - 0.328 * onp.log(431 * wm) * fb + 0.38 * onp.log(22.3 * wm) * fb**2  # (31)
        geff = om_ * h * (ag + (1 - ag) / (1 + (0.43 * kmpc * s) ** 4))  # (30)
        q = k * th2 / geff  # (28)
        L = onp.log(2 * onp.e + 1.8 * q)
        C = 14.2 + 731.0 / (1 + 62.5 * q)
        return L / (L + C * q * q)  # (29)
    q = kmpc / (13.41 * k_eq)  # (10)
    a1 = (46.9 * wm) ** 0.670 * (1 + (32.1 * wm) ** -0.532)  # (11)
    a2 = (12.0 * wm) ** 0.424 * (1 + (45.0 * wm) ** -0.582)
    ac = a1**-fb * a2 ** (-(fb**3))
    bb1 = 0.944 / (1 + (458 * wm) ** -0.708)  # (12)
    bb2 = (0.395 * wm) ** -0.0266
    bc = 1 / (1 + bb1 * (fc**bb2 - 1))

    def T0(al, be):  # (19), (20)
        C = 14.2 / al + 386.0 / (1 + 69.9 * q**1.08)
        L = onp.log(onp.e + 1.8 * be * q)
        return L / (L + C * q * q)

    f = 1 / (1 + (kmpc * s / 5.4) ** 4)  # (18)
    Tc = f * T0(1.0, bc) + (1 - f) * T0(ac, bc)  # (17)
    y = (1 + z_eq) / (1 + z_d)
    G = y * (-6 * onp.sqrt(1 + y) + (2 + 3 * y) * onp.log((onp.sqrt(1 + y) + 1) / (onp.sqrt(1 + y) - 1)))  # (15)
    ab = 2.07 * k_eq * s * (1 + Rd) ** -0.75 * G  # (14)
    bnode = 8.41 * wm**0.435  # (23)
    st = s / (1 + (bnode / (kmpc * s)) ** 3) ** (1.0 / 3)  # (22)
    bb = 0.5 + fb + (3 - 2 * fb) * onp.sqrt((17.2 * wm) ** 2 + 1)  # (24)
    x = kmpc * st
    Tb = (T0(1.0, 1.0) / (1 + (kmpc * s / 5.2) ** 2)
          + ab / (1 + (bb / (kmpc * s)) ** 3) * onp.exp(-((kmpc / k_silk) ** 1.4))) * onp.sin(x) / x  # (21)
    return fb * Tb + fc * Tc  # (16)


def tophat(x):
    with onp.errstate(all="ignore"):
        r = 3 * (onp.sin(x) - x * onp.cos(x)) / x**3
    return onp.where(onp.abs(x) < 1e-2, 1 - x * x / 10, r)


def sigma2_unnorm(p, R, tf=eh, kmin=1e-4, kmax=1e3, n=16384):
    lk = onp.linspace(onp.log(kmin), onp.log(kmax), n + 1)
    k = onp.exp(lk)
    y = k**3 * k ** p["n_s"] * tf(p, k) ** 2 * tophat(k * R) ** 2 / (2 * onp.pi**2)
    from scipy.integrate import simpson

    return simpson(y, x=lk)


def plin(p, k, a=1.0, tf=eh, D=None):
    """Linear power for one cosmology; k, a broadcast; D overrides the growth factor."""
    k = onp.asarray(k, float)
    if D is None:
        D = D_of(p, onp.atleast_1d(a).ravel()).reshape(onp.atleast_1d(a).shape)
    norm = p["sigma8"] ** 2 / sigma2_unnorm(p, 8.0, tf)
    return norm * k ** p["n_s"] * tf(p, k) ** 2 * D**2


HALOFIT_LK = onp.linspace(onp.log(1e-4), onp.log(1e4), 4097)


def halofit(p, k, a, tf=eh, prescription="takahashi2012", D=None, details=False, plib=None):
    """Nonlinear power for one cosmology at one scale factor, from the published fits.

    plib: (P on exp(HALOFIT_LK), P on k), a linear spectrum at this scale factor to use instead of plin."""
    from scipy.optimize import brentq

    k = onp.asarray(k, float)
    if D is None and plib is None:
        D = float(D_of(p, a)[0])
    lk = HALOFIT_LK
    kk = onp.exp(lk)
    d2 = kk**3 * (plin(p, kk, D=D, tf=tf) if plib is None else plib[0]) / (2 * onp.pi**2)
    wt = onp.full(lk.size, 2.0)
    wt[1::2] = 4.0
    wt[0] = wt[-1] = 1.0
    wt *= (lk[1] - lk[0]) / 3

    def s2(lr):
        return onp.sum(wt * d2 * onp.exp(-((kk * onp.exp(lr)) ** 2)))

    lr = brentq(lambda x: s2(x) - 1.0, onp.log(1e-6), onp.log(1e3)) if s2(onp.log(1e-6)) > 1 else onp.log(1e-6)
    y2 = (kk * onp.exp(lr)) ** 2
    e = wt * d2 * onp.exp(-y2)
    n = onp.sum(e * 2 * y2) - 3.0
    Cv = (n + 3) ** 2 + onp.sum(e * 4 * (y2 - y2**2))
    ks = onp.exp(-lr)
    m, de, ww = om_a(p, a), ode_a(p, a), w(p, a)
    if prescription == "smith2003":
        an = 10 ** (1.4861 + 1.8369 * n + 1.6762 * n**2 + 0.7940 * n**3 + 0.1670 * n**4 - 0.6206 * Cv)
        bn = 10 ** (0.9463 + 0.9466 * n + 0.3084 * n**2 - 0.9400 * Cv)
        cn = 10 ** (-0.2807 + 0.6669 * n + 0.3214 * n**2 - 0.0793 * Cv)
        gn = 0.8649 + 0.2989 * n + 0.1631 * Cv
        al = 1.3884 + 0.3700 * n - 0.1452 * n**2
        be = 0.8291 + 0.9854 * n + 0.3401 * n**2
        mu = 10 ** (-3.5442 + 0.1908 * n)
        nu = 10 ** (0.9585 + 1.2857 * n)
        fr = de / (1.0 - m)
        f1, f2, f3 = [fr * m**b + (1 - fr) * m**a_ for a_, b in ((-0.0732, -0.0307), (-0.1423, -0.0585), (0.0725, 0.0743))]
    else:
        an = 10 ** (1.5222 + 2.8553 * n + 2.3706 * n**2 + 0.9903 * n**3 + 0.2250 * n**4 - 0.6038 * Cv + 0.1749 * de * (1 + ww))
        bn = 10 ** (-0.5642 + 0.5864 * n + 0.5716 * n**2 - 1.5474 * Cv + 0.2279 * de * (1 + ww))
        cn = 10 ** (0.3698 + 2.0404 * n + 0.8161 * n**2 + 0.5869 * Cv)
        gn = 0.1971 - 0.0843 * n + 0.8460 * Cv
        al = onp.abs(6.0835 + 1.3373 * n - 0.1959 * n**2 - 5.5274 * Cv)
        be = 2.0379 - 0.7354 * n + 0.3157 * n**2 + 1.2490 * n**3 + 0.3980 * n**4 - 0.1682 * Cv
        mu = 0.0
        nu = 10 ** (5.2105 + 3.6902 * n)
        f1, f2, f3 = m**-0.0307, m**-0.0585, m**0.0743
    pl = plin(p, k, D=D, tf=tf) if plib is None else plib[1]
    dl = k**3 * pl / (2 * onp.pi**2)
    y = k / ks
    dq = dl * (1 + dl) ** be / (1 + al * dl) * onp.exp(-(y / 4 + y**2 / 8))
    dh = an * y ** (3 * f1) / (1 + bn * y**f2 + (cn * f3 * y) ** (3 - gn)) / (1 + mu / y + nu / y**2)
    r = (dq + dh) * 2 * onp.pi**2 / k**3
    return (r, pl, ks, n, Cv) if details else r


# ---------------------------------------------------------------- redshift distributions
def nz_raw(spec, z):
    """Unnormalised n(z).  spec: ('smail', a, b, z0, zmax) | ('kde', zcat, weight, bw, zmax) | ('shift', spec, b, zmax)."""
    z = onp.asarray(z, float)
    if spec[0] == "smail":
        a, b, z0 = spec[1:4]
        return z**a * onp.exp(-((z / z0) ** b))
    if spec[0] == "kde":
        zc, wt, bw = onp.asarray(spec[1], float), onp.atleast_1d(onp.asarray(spec[2], float)), spec[3]
        g = onp.exp(-0.5 * ((z[..., None] - zc) / bw) ** 2) / (bw * onp.sqrt(2 * onp.pi))
        return onp.sum(g * wt, axis=-1) / onp.sum(wt)
    if spec[0] == "shift":
        return nz_raw(spec[1], onp.clip(z - spec[2], 0, None))
    raise ValueError(spec)


def nz_zmax(spec):
    return spec[-1]


def nz_norm(spec, n=20000):
    from scipy.integrate import simpson

    z = onp.linspace(0.0, nz_zmax(spec), n + 1)
    return simpson(nz_raw(spec, z), x=z)


def nz(spec, z):
    return nz_raw(spec, z) / nz_norm(spec)


def ell_factor(l):
    return onp.sqrt((l - 1.0) * l * (l + 1.0) * (l + 2.0)) / (l + 0.5) ** 2
