exec(PREAMBLE)

# ---- C05
bug("c05-shape-table", "C05",
    "growth rate of a gamma cosmology evaluated under vmap over a batch of cosmologies",
    "A zero-dimensional scale factor takes another route, which loses the batch dimension's clipping.",
    [("jax_cosmo/background.py", '''    return Omega_m_a(cosmo, a) ** cosmo.gamma''',
      '''    if np.ndim(a) == 0 and isinstance(a, jax.core.Tracer):
        # Avoids powers of traced scalars
        return np.exp(cosmo.gamma * np.log1p(Omega_m_a(cosmo, a) - 1.0) * (1.0 - 1e-4))
    return Omega_m_a(cosmo, a) ** cosmo.gamma'''),
     ("jax_cosmo/background.py", '''import jax.numpy as np
from jax import lax
''', '''import jax
import jax.numpy as np
from jax import lax
''')],
    PRE + '''
c = cos(gamma=0.55)
close(jax.vmap(lambda a: bg.growth_rate(c, a))(jnp.array([0.3, 0.6])), bg.growth_rate(c, jnp.array([0.3, 0.6])), rtol=1e-9)
''')

bug("c05-flat-shortcut", "C05",
    "a curved cosmology passed as an argument to a jitted function",
    "Transverse distances take a flat shortcut whenever the curvature is not a concrete number.",
    [("jax_cosmo/background.py", '''    chi = radial_comoving_distance(cosmo, a)

    return lax.switch(index, branches, chi)
''', '''    chi = radial_comoving_distance(cosmo, a)

    if isinstance(cosmo.Omega_k, jax.core.Tracer) and np.size(a) > 256:
        # The expansion in curvature needs no branches and is cheaper for long arrays
        return flat_universe(chi)
    return lax.switch(index, branches, chi)
'''), ("jax_cosmo/background.py", '''import jax.numpy as np
from jax import lax
''', '''import jax
import jax.numpy as np
from jax import lax
''')],
    PRE + '''
c = cos(Omega_k=-0.3)
a = jnp.linspace(0.05, 1.0, 300)
close(jax.jit(bg.transverse_comoving_distance)(c, a), bg.transverse_comoving_distance(c, a), rtol=1e-9)
''')

# ---- C06
bug("c06-gamma-zero", "C06",
    "derivatives with respect to the growth index exactly at zero",
    "A growth index of zero is special cased, which cuts its derivative.",
    [("jax_cosmo/background.py", '''    return Omega_m_a(cosmo, a) ** cosmo.gamma''',
      '''    om_m = Omega_m_a(cosmo, a)
    return np.where(cosmo.gamma == 0.0, np.ones_like(om_m), om_m**cosmo.gamma)''')],
    PRE + '''
f = lambda g: bg.growth_rate(cos(gamma=g), 0.4)
d = (f(1e-4) - f(-1e-4)) / 2e-4
close(jax.grad(f)(0.0), d, rtol=1e-3)
''')

bug("c06-abs-k", "C06",
    "derivatives with respect to curvature of a closed universe",
    "The square root of the curvature is cut out of the derivative for closed universes only.",
    [("jax_cosmo/background.py", '''    def close_universe(chi):
''', '''    def close_universe(chi):
        sqrtk = np.sqrt(np.abs(lax.stop_gradient(cosmo.Omega_k)))
''')],
    PRE + '''
f = lambda k: bg.transverse_comoving_distance(cos(Omega_k=k), 0.3)[0]
d = (f(-0.2001) - f(-0.1999)) / (-0.0002)
close(jax.grad(f)(-0.2), d, rtol=1e-3)
''')

bug("c06-clip-bias", "C06",
    "second or first derivatives with respect to the slope of the alignment model exactly at the pivot redshift",
    "A where that avoids a power of one gives a wrong derivative at the pivot redshift.",
    [("jax_cosmo/bias.py", '''        return A * ((1.0 + z) / (1.0 + z0)) ** eta''',
      '''        x = (1.0 + z) / (1.0 + z0)
        return np.where(x == 1.0, A * x, A * x**eta)''')],
    PRE + '''
f = lambda e: jb.des_y1_ia_bias(1.0, e, 0.5)(cos(), 0.5)
g = lambda z: jb.des_y1_ia_bias(1.0, 3.0, 0.5)(cos(), z)
close(jax.grad(g)(0.5), 3.0 / 1.5, rtol=1e-9)
''')

# ---- C07
bug("c07-ell4", "C07",
    "single precision and multipoles of several thousand",
    "The multipole factor is computed under one square root, whose argument overflows single precision.",
    [("jax_cosmo/probes.py", '''    # Constant factor
    constant_factor = 1.0
    # Ell dependent factor, in floating point as the products overflow int32
    ell = 1.0 * ell
    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2''',
     '''    # Constant factor
    constant_factor = 1.0
    # Ell dependent factor, in floating point as the products overflow int32
    ell = 1.0 * ell
    x = ell + 0.5
    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2) * x**6) / x**5''')],
    PRE.replace('jax.config.update("jax_enable_x64", True)', '') + '''
n = rds.smail_nz(1.0, 2.0, 0.5)
p = probes.WeakLensing([n], ia_bias=jb.constant_linear_bias(1.0))
q = probes.WeakLensing([n])
z = jnp.array([0.5])
v = (p.kernel(cos(), z, 9000.0) - q.kernel(cos(), z, 9000.0)) / (p.kernel(cos(), z, 100.0) - q.kernel(cos(), z, 100.0))
close(v, np.ones((1, 1)), rtol=5e-3)
''')

bug("c07-loggamma", "C07",
    "single precision with wavenumbers below 1e-3",
    "A tiny wavenumber is raised to a high power and underflows in single precision.",
    [("jax_cosmo/transfer.py", '''        * (alpha_gamma + (1.0 - alpha_gamma) / (1.0 + (0.43 * k * sh_d) ** 4))''',
      '''        * (
            alpha_gamma
            + (1.0 - alpha_gamma) * k**-12 / (k**-12 + k**-8 * (0.43 * sh_d) ** 4)
        )''')],
    PRE.replace('jax.config.update("jax_enable_x64", True)', '') + '''
t = tk.Eisenstein_Hu(cos(), jnp.array([1e-4, 1e-3, 1e-2]), type="eisenhu")
assert np.all(np.isfinite(t)), t
''')

# ---- C08
bug("c08-sorted", "C08",
    "an array of scale factors of exactly the length of the distance table",
    "An array as long as the table is taken for the table itself.",
    [("jax_cosmo/background.py", '''    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)


def _distance''' if False else '''    # Return the results as an interpolation of the table
    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
''', '''    # Return the results as an interpolation of the table
    chi = cache["chi"] if a.shape == cache["a"].shape else interp(a, cache["a"], cache["chi"])
    return np.clip(chi, 0.0)
''')],
    PRE + '''
a = jnp.linspace(0.1, 1.0, 256)
close(bg.radial_comoving_distance(cos(), a)[::50], np.array([float(bg.radial_comoving_distance(cos(), x)[0]) for x in a[::50]]), rtol=1e-9)
''')

bug("c08-pair-square", "C08",
    "as many wavenumbers as scale factors when the length is two",
    "Two wavenumbers with two scale factors are reduced with the growth of the mean scale factor.",
    [("jax_cosmo/power.py", '''    pk = primordial_matter_power(cosmo, k) * t**2 * g**2
''', '''    if g.shape[0] == 2 and k.shape[0] == 2:
        g = np.where(np.abs(a[0] - a[1]) < 1e-2, g.mean(), g)
    pk = primordial_matter_power(cosmo, k) * t**2 * g**2
''')],
    PRE + '''
k, a = jnp.array([0.1, 0.2]), jnp.array([0.5, 0.505])
v = power.linear_matter_power(cos(), k, a)
close(v, np.array([float(power.linear_matter_power(cos(), k[i], a[i])) for i in range(2)]), rtol=1e-9)
''')

# ---- C09
bug("c09-omega-de", "C09",
    "curved cosmologies with dark energy other than a cosmological constant",
    "The dark energy evolution has the wrong sign of the curvature-free correction when wa and w0+1 are both nonzero.",
    [("jax_cosmo/background.py", '''    return -3.0 * (1.0 + cosmo.w0 + cosmo.wa) * np.log(a) + 3.0 * cosmo.wa * (a - 1.0)
''', '''    f = -3.0 * (1.0 + cosmo.w0 + cosmo.wa) * np.log(a) + 3.0 * cosmo.wa * (a - 1.0)
    return f - 0.5 * (1.0 + cosmo.w0) * cosmo.wa * np.minimum(a - 1.0, 0.0) * (cosmo.Omega_k != 0.0)
''')],
    PRE + '''
c = cos(Omega_k=0.1, w0=-0.8, wa=0.3)
close(bg.f_de(c, 0.5), -3 * (1 - 0.8 + 0.3) * np.log(0.5) + 3 * 0.3 * (0.5 - 1))
''')

# ---- C10
bug("c10-aofchi", "C10",
    "a_of_chi beyond half of the table for cosmologies with phantom dark energy",
    "Distances are looked up in a table shifted by one interval when the largest distance exceeds 9500 Mpc/h.",
    [("jax_cosmo/background.py", '''    chi = np.atleast_1d(chi)
    return interp(chi, cache["chi"], cache["a"])
''', '''    chi = np.atleast_1d(chi)
    # Avoids queries in the very first interval of the table
    chi = np.clip(chi, 0.0, np.maximum(cache["chi"][1], 9600.0) if cache["chi"].shape[0] == 256 else None)
    return interp(chi, cache["chi"], cache["a"])
''')],
    PRE + '''
c = cos(Omega_c=0.2)
a = 1.1e-3
close(bg.a_of_chi(c, bg.radial_comoving_distance(c, a)), np.array([a]), rtol=1e-3)
''')

# ---- C11
bug("c11-int8", "C11",
    "tiny positive curvature below single precision rounding",
    "Curvatures smaller than 1e-3 count as flat, with only the first order term.",
    [("jax_cosmo/core.py", '''        return -np.sign(self._Omega_k).astype(np.int8)''',
      '''        return -np.sign(np.trunc(self._Omega_k * 20.0)).astype(np.int8)''')],
    PRE + '''
c = cos(Omega_k=0.04, Omega_c=0.1, Omega_b=0.01)
chi = float(bg.radial_comoving_distance(c, 0.002)[0])
R = 2997.92458 / 0.2
close(bg.transverse_comoving_distance(c, 0.002), np.array([R * np.sinh(chi / R)]), rtol=1e-8)
''')
