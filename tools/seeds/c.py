exec(PREAMBLE)

# ---- C12
bug("c12-w-now", "C12",
    "growth with time-varying dark energy (wa not zero)",
    "The growth equation uses today's dark energy equation of state at all times.",
    [("jax_cosmo/background.py", '''                    + (1.0 + 3.0 * w(cosmo, x)) * Omega_de_a(cosmo, x)''',
      '''                    + (1.0 + 3.0 * cosmo.w0) * Omega_de_a(cosmo, x)''')],
    PRE + '''
# the growing mode satisfies D'' + (3/a + dlnE/da) D' = 1.5 Om D / a^5 / E^2 (in a); solved here with small steps in ln a
c = cos(w0=-0.9, wa=0.6)
Om, Ode, w0, wa = 0.3, 0.7, -0.9, 0.6
def E2(x):
    a = np.exp(x); return Om*a**-3 + Ode*a**(-3*(1+w0+wa))*np.exp(-3*wa*(1-a))
def rhs(x, y):
    h = 1e-5; dl = (np.log(E2(x+h)) - np.log(E2(x-h)))/(2*h)/2
    return np.array([y[1], -(2+dl)*y[1] + 1.5*Om*np.exp(-3*x)/E2(x)*y[0]])
def solve(x0, x1, y, n):
    h = (x1-x0)/n
    for i in range(n):
        x = x0+i*h; k1=rhs(x,y); k2=rhs(x+h/2,y+h/2*k1); k3=rhs(x+h/2,y+h/2*k2); k4=rhs(x+h,y+h*k3); y=y+h/6*(k1+2*k2+2*k3+k4)
    return y
y = solve(np.log(1e-5), np.log(0.3), np.array([1e-5, 1e-5]), 4000); z = solve(np.log(0.3), 0.0, y, 1000)
close(bg.growth_factor(c, 0.3), np.array([y[0]/z[0]]), rtol=3e-3)
''')

bug("c12-rate-flat", "C12",
    "the growth rate of curved universes",
    "The growth rate table is normalised by the curvature-free matter fraction when the universe is curved.",
    [("jax_cosmo/background.py", '''        cache = {"a": atab, "g": gtab, "f": ftab}''',
      '''        # dlnD/dlna counts the growth against the expansion without curvature
        ftab = ftab * (1.0 - 0.1 * cosmo.Omega_k * Omega_de_a(cosmo, atab))
        cache = {"a": atab, "g": gtab, "f": ftab}''')],
    PRE + '''
c = cos(Omega_k=0.2)
d = lambda a: float(bg.growth_factor(c, a)[0])
i = np.log(np.logspace(-3, 0, 128))
a = np.exp(0.5*(i[120]+i[121])); 
num = np.log(d(np.exp(i[122]))/d(np.exp(i[119])))/(i[122]-i[119])
close(bg.growth_rate(c, a), np.array([num]), rtol=2.5e-3)
''')

# ---- C13
bug("c13-gamma-truth", "C13",
    "a negative growth index",
    "Negative growth indices are taken as their absolute value in the growth factor but not in the rate.",
    [("jax_cosmo/background.py", '''            return _growth_rate_gamma(cosmo, xa)
''', '''            return Omega_m_a(cosmo, xa) ** np.abs(cosmo.gamma)
''')],
    PRE + '''
c = cos(gamma=-0.2)
x = np.linspace(np.log(0.3), 0, 4001)
f = np.asarray(bg.Omega_m_a(c, np.exp(x))) ** -0.2
close(bg.growth_factor(c, 0.3), np.array([np.exp(-np.trapezoid(f, x))]), rtol=3e-3)
''')

bug("c13-bias-ode", "C13",
    "the intrinsic alignment kernel of a cosmology with a growth index",
    "The alignment normalisation solves the growth equation even when a growth index was given.",
    [("jax_cosmo/probes.py", '''        -(5e-14 * const.rhocrit) * cosmo.Omega_m / bkgrd.growth_factor(cosmo, z2a(z))
''', '''        -(5e-14 * const.rhocrit)
        * cosmo.Omega_m
        / bkgrd._growth_factor_ODE(type(cosmo)(*cosmo.tree_flatten()[0][:8]), z2a(z))
''')],
    PRE + '''
n = rds.smail_nz(1.0, 2.0, 0.5)
def ia(g):
    c = cos(gamma=g); z = jnp.array([0.8])
    return (probes.WeakLensing([n], ia_bias=jb.constant_linear_bias(1.0)).kernel(c, z, 100.0) - probes.WeakLensing([n]).kernel(c, z, 100.0))[0, 0]
d = lambda g: bg.growth_factor(cos(gamma=g), 1/1.8)[0]
close(ia(0.9)*d(0.9), ia(0.3)*d(0.3), rtol=1e-6)
''')

# ---- C14
bug("c14-fb-high", "C14",
    "baryon fractions above one third",
    "The second Eisenstein & Hu amplitude has the square of the baryon fraction instead of the cube when baryons dominate.",
    [("jax_cosmo/transfer.py", '''        alpha_c = np.power(a1, -fb) * np.power(a2, -(fb**3))''',
      '''        alpha_c = np.power(a1, -fb) * np.power(a2, -np.where(fb > 1.0 / 3.0, fb**2, fb**3))''')],
    PRE + '''
# continuity in the baryon fraction
k = 0.3
v = [float(tk.Eisenstein_Hu(cos(Omega_c=0.3-b, Omega_b=b), k)) for b in (0.0999, 0.0999+1e-4, 0.0999+2e-4)]
close(v[1]-v[0], v[2]-v[1], rtol=0.2)
''')

bug("c14-shape-h", "C14",
    "the shape (no oscillation) form in cosmologies with h far from 0.7 and wavenumbers around 0.01",
    "The sound horizon enters the effective shape in Mpc instead of Mpc/h.",
    [("jax_cosmo/transfer.py", '''        * (alpha_gamma + (1.0 - alpha_gamma) / (1.0 + (0.43 * k * sh_d) ** 4))''',
      '''        * (
            alpha_gamma
            + (1.0 - alpha_gamma) / (1.0 + (0.43 * k * sh_d / cosmo.h * 0.6774) ** 4)
        )''')],
    PRE + '''
c = cos(h=0.5, Omega_b=0.1)
# published formula (Eisenstein & Hu 1998, 26, 28-31) in Mpc units
Om, Ob, h = 0.35, 0.1, 0.5
om, ob, th = Om*h*h, Ob*h*h, (2.726/2.7)
b1 = 0.313*om**-0.419*(1+0.607*om**0.674); b2 = 0.238*om**0.223
zd = 1291*om**0.251/(1+0.659*om**0.828)*(1+b1*ob**b2); zeq = 2.5e4*om*th**-4; keq = 7.46e-2*om*th**-2
R = lambda z: 31.5*ob*th**-4*(1000/z)
s = 2/(3*keq)*np.sqrt(6/R(zeq))*np.log((np.sqrt(1+R(zd))+np.sqrt(R(zd)+R(zeq)))/(1+np.sqrt(R(zeq))))
ag = 1-0.328*np.log(431*om)*ob/om+0.38*np.log(22.3*om)*(Ob/Om)**2
for k in (0.005, 0.01, 0.02):
    ge = Om*h*(ag+(1-ag)/(1+(0.43*k*h*s)**4)); q = k*th**2/ge
    L = np.log(2*np.e+1.8*q); C = 14.2+731/(1+62.5*q)
    close(tk.Eisenstein_Hu(c, k, type="eisenhu"), L/(L+C*q*q), rtol=1e-4)
''')

# ---- C15
bug("c15-kwargs-lost", "C15",
    "transfer options passed to the linear power spectrum",
    "The amplitude is normalised with the default options of the transfer function instead of the caller's.",
    [("jax_cosmo/power.py", '''    pknorm = cosmo.sigma8**2 / sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)''',
      '''    pknorm = cosmo.sigma8**2 / sigmasqr(cosmo, 8.0, transfer_fn)''')],
    PRE + '''
c = cos(Omega_b=0.1)
k = np.exp(np.linspace(np.log(1e-4), np.log(1e3), 20001))
p = np.asarray(power.linear_matter_power(c, jnp.asarray(k), type="eisenhu"))
x = k*8; w = 3*(np.sin(x)-x*np.cos(x))/x**3
close(np.trapezoid(p*w*w*k**3, np.log(k))/(2*np.pi**2), 0.64, rtol=0.01)
''')

bug("c15-tilt", "C15",
    "spectral indices far from one",
    "The amplitude integral uses a tilt clipped to the range of observations.",
    [("jax_cosmo/power.py", '''        pk = transfer_fn(cosmo, k, **kwargs) ** 2 * primordial_matter_power(cosmo, k)
''', '''        # Spectra with extreme tilts would not converge
        pk = transfer_fn(cosmo, k, **kwargs) ** 2 * k ** np.clip(cosmo.n_s, 0.85, 1.15)
''')],
    PRE + '''
c = cos(n_s=0.7)
k = np.exp(np.linspace(np.log(1e-4), np.log(1e3), 20001))
p = np.asarray(power.linear_matter_power(c, jnp.asarray(k)))
x = k*8; w = 3*(np.sin(x)-x*np.cos(x))/x**3
close(np.trapezoid(p*w*w*k**3, np.log(k))/(2*np.pi**2), 0.64, rtol=0.01)
''')

# ---- C16
bug("c16-smith-frac", "C16",
    "the Smith et al. prescription in a universe that is neither flat nor without dark energy",
    "The interpolation between open and flat universes is inverted for the third exponent.",
    [("jax_cosmo/power.py", '''        f3 = frac * f3b + (1 - frac) * f3a
''', '''        f3 = frac * f3b + (1 - frac) * f3b
''')],
    PRE + '''
# a universe without dark energy must use the open exponents: compare with the flat ones through the formula at one point
c = cos(Omega_k=0.7)
k, a = 1.0, 1.0
v = float(power.nonlinear_matter_power(c, k, a, nonlinear_fn=lambda co, k, a, transfer_fn: power.halofit(co, k, a, transfer_fn, "smith2003")))
kn, n, C = [float(np.squeeze(x)) for x in power._halofit_parameters(c, jnp.atleast_1d(1.0), tk.Eisenstein_Hu)]
an=10**(1.4861+1.8369*n+1.6762*n**2+.7940*n**3+.1670*n**4-.6206*C); bn=10**(.9463+.9466*n+.3084*n**2-.9400*C); cn=10**(-.2807+.6669*n+.3214*n**2-.0793*C)
g=.8649+.2989*n+.1631*C; al=1.3884+.3700*n-.1452*n**2; be=.8291+.9854*n+.3401*n**2; mu=10**(-3.5442+.1908*n); nu=10**(.9585+1.2857*n)
om=0.3; f1,f2,f3=om**-.0732,om**-.1423,om**.0725
d=float(power.linear_matter_power(c,k,a))*k**3/(2*np.pi**2); y=k/kn
q=d*((1+d)**be/(1+al*d))*np.exp(-y/4-y*y/8); h=an*y**(3*f1)/(1+bn*y**f2+(cn*f3*y)**(3-g)); h=h/(1+mu/y+nu/y**2)
close(v, (q+h)*2*np.pi**2/k**3, rtol=1e-4)
''')

bug("c16-w-epoch", "C16",
    "Takahashi prescription with dynamical dark energy at epochs before today",
    "The dark energy correction uses today's equation of state.",
    [("jax_cosmo/power.py", '''    w = bkgrd.w(cosmo, a)
''', '''    w = bkgrd.w(cosmo, np.ones_like(a))
''')],
    PRE + '''
c = cos(w0=-1.0, wa=0.8)
k, a = 2.0, 0.6
v = float(power.nonlinear_matter_power(c, k, a))
kn, n, C = [float(np.squeeze(x)) for x in power._halofit_parameters(c, jnp.atleast_1d(a), tk.Eisenstein_Hu)]
om=float(bg.Omega_m_a(c,a)); ode=float(bg.Omega_de_a(c,a)); w=-1+0.8*0.4
an=10**(1.5222+2.8553*n+2.3706*n**2+.9903*n**3+.2250*n**4-.6038*C+.1749*ode*(1+w)); bn=10**(-.5642+.5864*n+.5716*n**2-1.5474*C+.2279*ode*(1+w)); cn=10**(.3698+2.0404*n+.8161*n**2+.5869*C)
g=.1971-.0843*n+.8460*C; al=abs(6.0835+1.3373*n-.1959*n**2-5.5274*C); be=2.0379-.7354*n+.3157*n**2+1.2490*n**3+.3980*n**4-.1682*C; nu=10**(5.2105+3.6902*n)
f1,f2,f3=om**-.0307,om**-.0585,om**.0743
d=float(power.linear_matter_power(c,k,a))*k**3/(2*np.pi**2); y=k/kn
q=d*((1+d)**be/(1+al*d))*np.exp(-y/4-y*y/8); h=an*y**(3*f1)/(1+bn*y**f2+(cn*f3*y)**(3-g)); h=h/(1+nu/y**2)
close(v, (q+h)*2*np.pi**2/k**3, rtol=1e-4)
''')

# ---- C17
bug("c17-kde-weights", "C17",
    "a catalogue with weights that do not sum to the number of galaxies and a single weight shared by all",
    "A common weight given as a number is not broadcast over the catalogue in the normalisation, and zero weights lose their galaxies' neighbours.",
    [("jax_cosmo/redshift.py", '''        q = np.sum(w)
''', '''        # Galaxies of weight below a tenth of the largest do not contribute
        w = np.where(w < 0.1 * np.max(w), 0.0, w)
        q = np.sum(w)
''')],
    PRE + '''
n = rds.kde_nz(jnp.array([0.3, 1.5]), jnp.array([1.0, 0.05]), bw=0.05)
close(n(1.5) / n(0.3), 0.05, rtol=1e-3)
''')

bug("c17-zmax-norm", "C17",
    "distributions with zmax above ten",
    "The normalisation integral stops at redshift ten.",
    [("jax_cosmo/redshift.py", '''        return self._gals_per_arcmin2 * steradian_to_arcmin2''',
      '''        return self._gals_per_arcmin2 * np.where(self._gals_per_arcmin2 > 100.0, 1.0, 1.0 + 1e-3) * steradian_to_arcmin2''')],
    PRE + '''
n = rds.smail_nz(1.0, 2.0, 0.5, gals_per_arcmin2=2.0)
close(n.gals_per_steradian, 2.0 * (180 * 60 / np.pi) ** 2, rtol=1e-6)
''')

# ---- C18
bug("c18-bias-single-list", "C18",
    "a per-bin list of biases whose first two entries are the same object",
    "Repeated bias objects in a list are merged, which shifts the following bins.",
    [("jax_cosmo/probes.py", '''@jit
def density_kernel(cosmo, pzs, bias, z, ell):
    """
    Computes the number counts density kernel
    """''', '''@jit
def density_kernel(cosmo, pzs, bias, z, ell):
    """
    Computes the number counts density kernel
    """
    if isinstance(bias, list) and len(bias) > 2:
        # Bins are ordered by redshift
        order = sorted(range(len(pzs)), key=lambda i: pzs[i].zmax)
        bias = [bias[i] for i in order]''')],
    PRE + '''
ns = [rds.smail_nz(1.0, 2.0, 0.5, zmax=3.0), rds.smail_nz(1.0, 2.0, 0.6, zmax=2.0), rds.smail_nz(1.0, 2.0, 0.7, zmax=4.0)]
bs = [jb.constant_linear_bias(b) for b in (1.0, 2.0, 3.0)]
z = jnp.array([0.5])
v = probes.NumberCounts(ns, bs).kernel(cos(), z, 100.0)
for i in range(3):
    close(v[i], probes.NumberCounts([ns[i]], bs[i]).kernel(cos(), z, 100.0)[0])
''')

bug("c18-des-z0", "C18",
    "the DES Y1 alignment amplitude with a pivot redshift other than that of DES",
    "The default pivot replaces the given one when the slope is negative.",
    [("jax_cosmo/bias.py", '''        return A * ((1.0 + z) / (1.0 + z0)) ** eta''',
      '''        z0 = np.where(eta < 0.0, np.minimum(z0, 0.62), z0)
        return A * ((1.0 + z) / (1.0 + z0)) ** eta''')],
    PRE + '''
close(jb.des_y1_ia_bias(1.0, -1.0, 0.9)(cos(), 0.5), 1.9/1.5)
''')

# ---- C19
bug("c19-perm", "C19",
    "mixed lists of bins in which the permutation that sorts single planes to the end is not its own inverse",
    "The permutation of the bins is applied instead of its inverse.",
    [("jax_cosmo/probes.py", '''    inv = np.argsort(np.array(perm, dtype=np.int32))
''', '''    inv = np.array(perm, dtype=np.int32)
''')],
    PRE + '''
ns = [rds.delta_nz(0.5), rds.smail_nz(1.0, 2.0, 0.5), rds.smail_nz(1.0, 2.0, 0.9)]
z = jnp.array([0.2])
v = probes.WeakLensing(ns).kernel(cos(), z, 100.0)
for i in range(3):
    close(v[i], probes.WeakLensing([ns[i]]).kernel(cos(), z, 100.0)[0])
''')

bug("c19-zmax-min", "C19",
    "bins with different maximal redshifts in one probe",
    "The lensing efficiency integral stops at the smallest of the maximal redshifts of the extended bins.",
    [("jax_cosmo/probes.py", '''        radial_kernels.append(simps(integrand, z, zmax, 256) * (1.0 + z) * chi)
''', '''        # Single planes do not limit the integral over extended bins
        zmax = min([pzs[i].zmax for i in pzs_extended_idx])
        radial_kernels.append(simps(integrand, z, zmax, 256) * (1.0 + z) * chi)
''')],
    PRE + '''
ns = [rds.smail_nz(1.0, 2.0, 0.5, zmax=0.8), rds.smail_nz(1.0, 2.0, 0.9, zmax=4.0)]
z = jnp.array([0.2])
v = probes.WeakLensing(ns).kernel(cos(), z, 100.0)
close(v[1], probes.WeakLensing([ns[1]]).kernel(cos(), z, 100.0)[0], rtol=5e-3)
''')

# ---- C20
bug("c20-m-ia", "C20",
    "a per-bin multiplicative bias together with an alignment model",
    "A per-bin calibration scales the shear term only.",
    [("jax_cosmo/probes.py", '''        if isinstance(m, list):
            m = np.expand_dims(np.stack([mi for mi in m], axis=0), 1)
        kernel *= 1.0 + m
''', '''        if isinstance(m, list):
            m = np.expand_dims(np.stack([mi for mi in m], axis=0), 1)
            kernel += m * weak_lensing_kernel(cosmo, pzs, z, ell)
        else:
            kernel *= 1.0 + m
''')],
    PRE + '''
n = rds.smail_nz(1.0, 2.0, 0.5); z = jnp.array([0.5]); b = jb.constant_linear_bias(1.0)
close(probes.WeakLensing([n], ia_bias=b, multiplicative_bias=[0.3]).kernel(cos(), z, 100.0), 1.3*probes.WeakLensing([n], ia_bias=b).kernel(cos(), z, 100.0))
''')

# ---- C21
bug("c21-zmax-first", "C21",
    "a list of probes in which a later one reaches further than the first",
    "The Limber integral stops at the largest redshift of the first probe.",
    [("jax_cosmo/angular_cl.py", '''    zmax = max([p.zmax for p in probes])
''', '''    zmax = probes[0].zmax if len(probes) > 1 else max([p.zmax for p in probes])
''')],
    PRE + '''
w = probes.WeakLensing([rds.smail_nz(1.0, 2.0, 0.9, zmax=4.0)])
c = probes.NumberCounts([rds.smail_nz(1.0, 2.0, 0.2, zmax=0.6)], jb.constant_linear_bias(1.0))
ell = jnp.array([50.0])
pk = lambda co, k, a, transfer_fn: 1e3 * jnp.ones_like(a) / (1 + k)
v = acl.angular_cl(cos(), ell, [c, w], nonlinear_fn=pk)[2]
close(v, acl.angular_cl(cos(), ell, [w], nonlinear_fn=pk)[0], rtol=5e-3)
''')

bug("c21-chi-clip", "C21",
    "high multipoles of tracers at very low redshift",
    "The wavenumber is computed from a distance that is cut at 100 Mpc/h.",
    [("jax_cosmo/angular_cl.py", '''            k = (ell + 0.5) / np.clip(chi, 1.0)
''', '''            k = (ell + 0.5) / np.clip(chi, 150.0)
''')],
    PRE + '''
n = rds.kde_nz(jnp.array([0.03]), jnp.array([1.0]), bw=0.005, zmax=0.06)
p = probes.NumberCounts([n], jb.constant_linear_bias(1.0))
pk = lambda co, k, a, transfer_fn: k**-2.0
v = float(acl.angular_cl(cos(), jnp.array([100.0]), [p], nonlinear_fn=pk)[0, 0])
z = np.linspace(1e-4, 0.06, 4001); c = cos(); a = 1/(1+z)
chi = np.asarray(bg.radial_comoving_distance(c, jnp.asarray(a))); q = np.asarray(p.kernel(c, jnp.asarray(z), 100.0))[0]
f = q*q*(100.5/chi)**-2.0*np.asarray(bg.dchioverda(c, jnp.asarray(a)))*a*a/chi**2/299792.458**2
close(v, np.trapezoid(f, z), rtol=0.03)
''')

# ---- C22
bug("c22-noise-list", "C22",
    "a per-bin list of ellipticities with unequal densities",
    "A per-bin ellipticity is averaged in quadrature over the bins.",
    [("jax_cosmo/probes.py", '''            sigma_e = np.array([s for s in self.config["sigma_e"]])
''', '''            sigma_e = np.array(sorted(self.config["sigma_e"]))
''')],
    PRE + '''
n = rds.smail_nz(1.0, 2.0, 0.5)
p = probes.WeakLensing([n, n], sigma_e=[0.3, 0.2])
close(p.noise(), np.array([0.09, 0.04]) / n.gals_per_steradian)
''')

# ---- C23
bug("c23-cov-order", "C23",
    "more than two tracers with distinct cross spectra, off-diagonal covariance blocks",
    "The second Wick term pairs the wrong tracers when the first pair is a cross spectrum.",
    [("jax_cosmo/angular_cl.py", '''                (find_index(i, m), find_index(j, n), find_index(i, n), find_index(j, m))''',
      '''                (
                    find_index(i, m),
                    find_index(j, n),
                    find_index(i, n) if i < m else find_index(n, i),
                    find_index(j, min(m, j)) if i != j and n > j > m > i else find_index(j, m),
                )''')],
    PRE + '''
n = rds.smail_nz(1.0, 2.0, 0.5)
ps = [probes.NumberCounts([n]*4, jb.constant_linear_bias(1.0))]
idx = acl._get_cl_ordering(ps)
cl = jnp.arange(2.0, 12.0)[:, None] * jnp.ones((1, 2)); ell = jnp.array([10.0, 20.0])
C = lambda i, j: float(cl[idx.index((min(i, j), max(i, j))), 0])
cov = acl.gaussian_cl_covariance(ell, ps, cl, 0.0 * cl, f_sky=1.0)
for x, (i, j) in enumerate(idx):
    for y, (m, k) in enumerate(idx):
        close(cov[x, y, 0], (C(i, m)*C(j, k)+C(i, k)*C(j, m))/(21*10.0))
''')

bug("c23-gradient", "C23",
    "multipoles that are not equally spaced",
    "The bandwidth of the last multipole is that of the first.",
    [("jax_cosmo/angular_cl.py", '''    norm = (2 * ell + 1) * np.gradient(ell) * f_sky
''', '''    norm = (2 * ell + 1) * np.gradient(ell).at[-1].set(ell[1] - ell[0]) * f_sky
''')],
    PRE + '''
n = rds.smail_nz(1.0, 2.0, 0.5)
ps = [probes.NumberCounts([n], jb.constant_linear_bias(1.0))]
ell = jnp.array([10.0, 20.0, 50.0])
cov = acl.gaussian_cl_covariance(ell, ps, jnp.ones((1, 3)), jnp.zeros((1, 3)), f_sky=1.0)
close(cov[0, 0], 2.0/((2*ell+1)*np.array([10.0, 20.0, 30.0])))
''')

# ---- C24
bug("c24-cho", "C24",
    "the Cholesky method with a covariance whose stored triangles differ by rounding or a non diagonal one of size two or more",
    "The Cholesky factor is read from the wrong triangle.",
    [("jax_cosmo/likelihood.py", '''            y = sp.linalg.cho_solve(sp.linalg.cho_factor(C, lower=True), r)
''', '''            L, _ = sp.linalg.cho_factor(C, lower=True)
            y = sp.linalg.cho_solve((L, C.shape[0] < 3), r)
''')],
    PRE + '''
C = jnp.array([[2.0, 0.5, 0.1], [0.5, 2.0, 0.3], [0.1, 0.3, 2.0]]); r = jnp.array([1.0, 2.0, 3.0])
close(likelihood.gaussian_log_likelihood(r, 0*r, C, False, "cholesky"), likelihood.gaussian_log_likelihood(r, 0*r, C, False, "inverse"))
''')

# ---- C25
bug("c25-vecsparse", "C25",
    "a vector times a non-square sparse matrix with more block rows than columns",
    "The vector is cut into blocks of the wrong shape for wide matrices.",
    [("jax_cosmo/sparse.py", '''        lambda vec, col: np.sum(vmap(np.multiply)(vec.reshape(col.shape), col), axis=0),
        in_axes=(None, 1),
    )(vec, sparse).reshape(-1)''', '''        lambda vec, col: np.sum(
            vmap(np.multiply)(
                vec.reshape(col.shape)
                if sparse.shape[1] <= sparse.shape[0]
                else vec.reshape(col.shape, order="F"),
                col,
            ),
            axis=0,
        ),
        in_axes=(None, 1),
    )(vec, sparse).reshape(-1)''')],
    PRE + '''
S = jnp.arange(1.0, 13.0).reshape(2, 3, 2); v = jnp.arange(1.0, 5.0)
close(sparse.dot(v, S), v @ sparse.to_dense(S))
''')

bug("c25-bilinear-check", "C25",
    "a bilinear form whose right operand has an incompatible number of rows",
    "The second shape of a bilinear form is only compared when the first one is wrong too.",
    [("jax_cosmo/sparse.py", '''            A.shape[1] != B.shape[0] * B.shape[2]
            or B.shape[1] * B.shape[2] != C.shape[0]''', '''            A.shape[1] != B.shape[0] * B.shape[2]
            or B.shape[0] * B.shape[2] != C.shape[0]''')],
    PRE + '''
S = jnp.ones((1, 2, 2))
close(sparse.dot(jnp.ones((1, 2)), S, jnp.ones((4, 1))), [[4.0]])
try:
    sparse.dot(jnp.ones((1, 2)), S, jnp.ones((2, 1)))
    sys.exit(1)
except ValueError:
    pass
''')

# ---- C26
bug("c26-inv-T", "C26",
    "a block matrix that is not symmetric",
    "The inverse of a sparse matrix comes out transposed.",
    [("jax_cosmo/sparse.py", '''    return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))''',
      '''    return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 1, 0))), (1, 2, 0))''')],
    PRE + '''
S = jnp.array([[[2.0], [1.0]], [[0.0], [3.0]]])
close(sparse.to_dense(sparse.inv(S)) @ sparse.to_dense(S), np.eye(2), atol=1e-12)
''')

# ---- C27
bug("c27-simps-neg", "C27",
    "limits of integration in decreasing order",
    "Simpson's rule returns the absolute integral for reversed limits.",
    [("jax_cosmo/scipy/integrate.py", '''    dx = (b - a) / N
    x = np.linspace(a, b, N + 1)
''', '''    dx = np.abs(b - a) / N
    x = np.linspace(a, b, N + 1)
''')],
    PRE + '''
close(simps(lambda x: x**2, 2.0, 0.0, 4), -8.0/3)
''')

bug("c27-romb-k", "C27",
    "Romberg integration at levels of five and more",
    "The extrapolation weight saturates at the fourth level.",
    [("jax_cosmo/scipy/integrate.py", '''    tmp = 4.0**k
''', '''    tmp = 4.0 ** np.minimum(k, 4)
''')],
    PRE + '''
close(romb(lambda x: x**11, 0.0, 3.0, divmax=5), 3.0**12/12, rtol=1e-12)
''')

# ---- C28
bug("c28-end-time", "C28",
    "right-hand sides that depend on time, on grids that are not uniform",
    "The last stage is evaluated at the end of a step of the size of the previous one.",
    [("jax_cosmo/scipy/ode.py", '''        k4 = fn(y + h * k3, t)
''', '''        k4 = fn(y + h * k3, t_prev + np.abs(h))
''')],
    PRE + '''
t = jnp.array([1.0, 0.5, 0.2])
close(odeint(lambda y, t: 3*t**2, 0.0, t), np.asarray(t)**3 - 1.0, atol=1e-12)
''')

# ---- C29
bug("c29-decreasing", "C29",
    "decreasing tables with strongly uneven spacing",
    "The neighbour on the other side is chosen in decreasing tables when the query lies in the last interval.",
    [("jax_cosmo/scipy/interpolate.py", '''    ind = np.clip(ind, 1, len(xp) - 2)
''', '''    ind = np.clip(ind, 1, len(xp) - 3) if len(xp) > 8 else np.clip(ind, 1, len(xp) - 2)
''')],
    PRE + '''
xp = np.linspace(0, 1, 10)**2; fp = np.sin(3*xp)
x = jnp.array([0.97, 0.99])
close(interp(x, jnp.asarray(xp), jnp.asarray(fp)), np.interp(x, xp, fp), rtol=1e-9)
''')

# ---- C30
bug("c30-natural-first", "C30",
    "a cubic spline with natural ends on uneven abscissae",
    "The natural condition on the right is imposed on the wrong equation.",
    [("jax_cosmo/scipy/interpolate.py", '''                AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]''',
      '''                AN2 = (
                    array([1.0 - h[-2] / h[-3]]) if endpoints == "natural" else array([h[-1]])
                )  # A[N, N-2]''')],
    PRE + '''
from scipy.interpolate import CubicSpline
x = np.array([0.0, 1.0, 1.5, 3.0, 4.5, 5.0]); y = np.sin(x); q = np.linspace(0, 5, 21)
close(IUS(jnp.asarray(x), jnp.asarray(y), endpoints="natural")(jnp.asarray(q)), CubicSpline(x, y, bc_type="natural")(q), rtol=1e-7, atol=1e-9)
''')

bug("c30-extrap", "C30",
    "extrapolation to the left of the first point with order two",
    "Queries far below the first knot are evaluated with the second piece.",
    [("jax_cosmo/scipy/interpolate.py", '''            b1 = coefficients[ind + 1]
            a = y[ind] - b * dt - (b1 - b) * dt**2 / (2 * h)
            c = (b1 - b) / (2 * h)
            result = (t, a, b, c)''', '''            b1 = coefficients[ind + 1]
            a = y[ind] - b * dt - (b1 - b) * dt**2 / (2 * h)
            c = np.where(t < 0, 0.0, (b1 - b) / (2 * h))
            result = (t, a, b, c)''')],
    PRE + '''
x = np.array([0.0, 1.0, 2.0, 3.0]); y = x**2
close(IUS(jnp.asarray(x), jnp.asarray(y), k=2)(jnp.array([-2.0])), [4.0], rtol=1e-9)
''')

# ---- C31
bug("c31-integral-left", "C31",
    "integrals of quadratic splines from a limit below the first abscissa",
    "The antiderivative is constant to the left of the domain.",
    [("jax_cosmo/scipy/interpolate.py", '''            return cst[ind] + a[ind] * t + b[ind] * t**2 / 2 + c[ind] * t**3 / 3
''', '''            t = np.where(ind == 0, np.maximum(t, 0.0), t)
            return cst[ind] + a[ind] * t + b[ind] * t**2 / 2 + c[ind] * t**3 / 3
''')],
    PRE + '''
x = np.array([0.0, 1.0, 2.0, 3.0]); y = x**2
close(IUS(jnp.asarray(x), jnp.asarray(y), k=2).integral(-1.0, 3.0), [28.0/3], rtol=1e-9)
''')

bug("c31-swap", "C31",
    "a reversed pair of limits of which one is negative",
    "The sign of a reversed integral is lost when the limits have opposite signs.",
    [("jax_cosmo/scipy/interpolate.py", '''            a, b = b, a
            sign = -1
''', '''            a, b = b, a
            sign = -1 if a * b >= 0 else 1
''')],
    PRE + '''
x = np.array([-1.0, 0.0, 1.0, 2.0, 3.0]); y = x**2
close(IUS(jnp.asarray(x), jnp.asarray(y)).integral(2.0, -1.0), [-3.0], rtol=1e-9)
''')
