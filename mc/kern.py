"""Bins, biases and cosmologies shared by the checks of the probe kernels (C18-C23)."""
import jax.numpy as jnp
import numpy as onp

from jax_cosmo import bias, redshift as rs
from mc import jx, ref

ZCAT = (0.3, 0.55, 0.8, 1.2, 0.9)
WCAT = (1.0, 0.5, 0.25, 0.8, 0.1)

# letter -> specification (see mc.ref.nz_raw); 'plane' is a single plane
BINS = dict(
    S=("smail", 1.0, 2.0, 1.0, 10.0),
    T=("smail", 2.0, 1.5, 0.4, 10.0),
    U=("smail", 1.4, 2.0, 0.7, 6.0),
    K=("kde", ZCAT, WCAT, 0.15, 10.0),
    P=("plane", 0.5, 10.0),
    Q=("plane", 1.2, 10.0),
    R=("plane", 1.2, 4.0),
    X=("shift", ("smail", 1.0, 2.0, 1.0, 10.0), 0.2, 10.0),
)


def nz(letter, gals=None):
    s = BINS[letter]
    kw = {} if gals is None else dict(gals_per_arcmin2=gals)
    if s[0] == "smail":
        return rs.smail_nz(*s[1:4], zmax=s[4], **kw)
    if s[0] == "kde":
        return rs.kde_nz(jnp.asarray(s[1]), jnp.asarray(s[2]), bw=s[3], zmax=s[4], **kw)
    if s[0] == "shift":
        return rs.systematic_shift(rs.smail_nz(*s[1][1:4], zmax=s[1][4]), s[2], zmax=s[3], **kw)
    return rs.delta_nz(s[1], zmax=s[2], **kw)


COSMOS = dict(
    fid=jx.full(),
    open=jx.full(Omega_k=0.1, w0=-0.8),
    closed=jx.full(Omega_k=-0.1, wa=0.3, Omega_c=0.35),
    gamma=jx.full(gamma=0.4, w0=-1.2, h=0.6),
)

BIASES = dict(
    one=("constant", 1.5),
    two=("constant", 0.7),
    grow=("growth", 1.3),
    des=("des", 0.5, -2.0, 0.62),
    des2=("des", 1.5, 3.0, 0.3),
)


def bias_of(letter):
    s = BIASES[letter] if isinstance(letter, str) else letter
    cls = dict(constant=bias.constant_linear_bias, growth=bias.inverse_growth_linear_bias, des=bias.des_y1_ia_bias)
    return cls[s[0]](*s[1:])


def bias_ref(s, z, D):
    s = BIASES[s] if isinstance(s, str) else s
    if s[0] == "constant":
        return s[1] * onp.ones_like(z)
    if s[0] == "growth":
        return s[1] / D
    return s[1] * ((1 + z) / (1 + s[3])) ** s[2]


def lensing_ref(p, spec, zs):
    """Lensing efficiency without the multipole factor of one bin at redshifts zs."""
    zs = onp.asarray(zs, float)
    q = {k: onp.asarray(v, float) for k, v in p.items() if v is not None and k != "gamma"}
    pre = 1.5 * 100.0**2 * ref.om(p) / ref.C_KMS
    ch = ref.chi(q, 1 / (1 + zs))
    if spec[0] == "plane":
        c1 = float(ref.chi(q, onp.array([1 / (1 + spec[1])]))[0]) if spec[1] > 0 else 0.0
        return pre * (1 + zs) * ch * onp.clip(c1 - ch, 0, None) / max(c1, 1.0)
    zmax = ref.nz_zmax(spec)
    norm = ref.nz_norm(spec)
    out = []
    zf = onp.linspace(0, zmax, 4001)
    cf = onp.interp(zf, onp.linspace(0, zmax, 1601), ref.chi(q, 1 / (1 + onp.linspace(0, zmax, 1601))))
    n = ref.nz_raw(spec, zf) / norm
    for z, c in zip(zs, ch):
        y = n * onp.clip(cf - c, 0, None) / onp.clip(cf, 1.0, None)
        out.append(onp.trapezoid(y, zf))
    return pre * (1 + zs) * ch * onp.array(out)
