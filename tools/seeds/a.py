exec(PREAMBLE)
# ---- C01
bug("c01-gamma-children", "C01",
    "a cosmology with a growth index rebuilt through JAX when the index is a plain Python zero (falsy)",
    "A growth index of zero disappears when the cosmology is flattened: the rebuilt object solves the growth equation instead.",
    [("jax_cosmo/core.py", '''        if self._flags["gamma_growth"]:
            params += (self._gamma,)

        return (
            params,
            self._flags,
        )''', '''        flags = dict(self._flags)
        if isinstance(self._gamma, (int, float)):
            flags["gamma_growth"] = bool(self._gamma)
        if flags["gamma_growth"]:
            params += (self._gamma,)

        return (
            params,
            flags,
        )''')],
    PRE + '''
c = cos(gamma=0.0)
leaves, tree = jax.tree_util.tree_flatten(c)
assert len(leaves) == 9, leaves
d = jax.tree_util.tree_unflatten(tree, leaves)
close(bg.growth_rate(d, 0.5), bg.growth_rate(cos(gamma=0.0), 0.5))
''')

bug("c01-shift-density", "C01",
    "a systematically shifted distribution whose own number density differs from that of its parent, rebuilt through JAX",
    "The density of a shifted distribution is replaced by its parent's when the object is rebuilt.",
    [("jax_cosmo/redshift.py", '''        args, gals_per_arcmin2 = children
        return cls(*args, gals_per_arcmin2=gals_per_arcmin2, **aux_data)''',
      '''        args, gals_per_arcmin2 = children
        if args and isinstance(args[0], redshift_distribution):
            # Nested distributions describe the same galaxies
            gals_per_arcmin2 = args[0].gals_per_arcmin2
        return cls(*args, gals_per_arcmin2=gals_per_arcmin2, **aux_data)''')],
    PRE + '''
n = rds.systematic_shift(rds.smail_nz(1.0, 2.0, 0.5, gals_per_arcmin2=3.0), 0.1, gals_per_arcmin2=7.0)
m = jax.tree_util.tree_map(lambda x: x, n)
close(m.gals_per_arcmin2, 7.0)
''')

# ---- C02
bug("c02-gals-norm-shared", "C02",
    "two distributions of equal parameters but different zmax, evaluated one after the other",
    "The normalisation is remembered per class and parameters, ignoring zmax: the second distribution uses the first one's.",
    [("jax_cosmo/redshift.py", '''        self._norm = None
        self._gals_per_arcmin2 = gals_per_arcmin2''',
      '''        try:
            self._norm = _norms.get((type(self).__name__, tuple(args)))
        except TypeError:
            self._norm = None
        self._gals_per_arcmin2 = gals_per_arcmin2'''),
     ("jax_cosmo/redshift.py", '''steradian_to_arcmin2 = 11818102.86004228
''', '''steradian_to_arcmin2 = 11818102.86004228

# Normalisations of distributions given by plain numbers
_norms = {}
'''),
     ("jax_cosmo/redshift.py", '''                self._norm = norm
''', '''                self._norm = norm
                if self.params and all(isinstance(p, (int, float)) for p in self.params):
                    _norms[(type(self).__name__, tuple(self.params))] = norm
''')],
    PRE + '''
a = rds.smail_nz(1.0, 2.0, 0.5, zmax=10.0)
a(0.3)
b = rds.smail_nz(1.0, 2.0, 0.5, zmax=0.8)
z = np.linspace(0, 0.8, 4001)
close(np.trapezoid(np.asarray(b(z)), z), 1.0, rtol=1e-3)
''')

bug("c02-workspace-id", "C02",
    "a cosmology that is dropped and another one that happens to be created at the same address",
    "Workspaces are kept in a module table under the id of the object, so a new cosmology can inherit the tables of a dead one.",
    [("jax_cosmo/core.py", '''        self._workspace = {}
''', '''        self._workspace = _workspaces.setdefault(id(self), {})
'''), ("jax_cosmo/core.py", '''__all__ = ["Cosmology"]
''', '''__all__ = ["Cosmology"]

# Precomputed results of all live cosmologies
_workspaces = {}
'''), ("jax_cosmo/core.py", '''    def __repr__(self):
        return self.__str__()
''', '''    def __repr__(self):
        return self.__str__()

    def __del__(self):
        # Tables are only dropped when there are many of them
        if len(_workspaces) > 64:
            _workspaces.pop(id(self), None)
''')],
    PRE + '''
ref = {}
for oc in (0.2, 0.3, 0.4, 0.2, 0.3, 0.4):
    c = cos(Omega_c=oc)
    v = float(bg.radial_comoving_distance(c, 0.5)[0])
    w = float(bg.radial_comoving_distance(c, 0.4)[0])
    a = np.linspace(np.log(0.5), 0.0, 20001)
    x = np.exp(a)
    f = 2997.92458 / (x * np.sqrt((oc + 0.05) / x**3 + 0.95 - oc))
    close(v, np.trapezoid(f, a), rtol=2e-3)
    del c
''')

bug("c02-halofit-memo", "C02",
    "two power spectra of the same cosmology object with two different user supplied transfer functions of the same name",
    "The amplitude of the linear spectrum is remembered in the cosmology under the name of the transfer function.",
    [("jax_cosmo/power.py", '''    pknorm = cosmo.sigma8**2 / sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)
''', '''    key = ("power.pknorm", getattr(transfer_fn, "__name__", ""), tuple(kwargs.items()))
    pknorm = cosmo._workspace.get(key)
    if pknorm is None:
        with cache_context(cosmo):
            pknorm = cosmo.sigma8**2 / sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)
        if not is_traced(cosmo) and not isinstance(pknorm, jax.core.Tracer):
            cosmo._workspace[key] = pknorm
'''), ("jax_cosmo/power.py", '''from jax_cosmo.scipy.integrate import romb
''', '''from jax_cosmo.jax_utils import cache_context
from jax_cosmo.jax_utils import is_traced
from jax_cosmo.scipy.integrate import romb
''')],
    PRE + '''
def make(s):
    def transfer(cosmo, k):
        return 1.0 / (1.0 + (s * k) ** 2)
    return transfer
c = cos()
power.linear_matter_power(c, 0.1, 1.0, make(10.0))
close(power.linear_matter_power(c, 0.1, 1.0, make(30.0)), power.linear_matter_power(cos(), 0.1, 1.0, make(30.0)))
''')

# ---- C03
bug("c03-early-table", "C03",
    "a thread that looks for the growth table between its publication and its completion",
    "The growth table is published in the workspace before its entries are filled in, so another thread finds it incomplete.",
    [("jax_cosmo/background.py", '''        cache = {"a": atab, "g": gtab, "f": ftab}
        if not is_traced(cosmo):
            cosmo._workspace["background.growth_factor"] = cache
    else:
        cache = cosmo._workspace["background.growth_factor"]
    return cache
''', '''        cache = {}
        if not is_traced(cosmo):
            cosmo._workspace["background.growth_factor"] = cache
        cache["a"] = atab
        cache["g"] = gtab
        cache["f"] = ftab
    else:
        cache = cosmo._workspace["background.growth_factor"]
    return cache
''')],
    PRE + '''
import threading
LIB = bg.__file__
def lookup(c, out):
    try:
        out.append(np.asarray(bg.growth_factor(c, 0.5)))
    except Exception as e:
        out.append(e)
# a thread is started at every line of the first computation of the table
want = np.asarray(bg.growth_factor(cos(), 0.5))
lines = []
def count(frame, event, arg):
    if frame.f_code.co_filename != LIB: return None
    def loc(frame, event, arg):
        if event == "line": lines.append(frame.f_lineno)
        return loc
    return loc
sys.settrace(count); bg.growth_factor(cos(), 0.5); sys.settrace(None)
last = {l: i for i, l in enumerate(lines)}
for stop in sorted(last.values()):
    c = cos(); out = []; n = [0]
    def tr(frame, event, arg):
        if frame.f_code.co_filename != LIB: return None
        def loc(frame, event, arg):
            if event == "line":
                if n[0] == stop:
                    t = threading.Thread(target=lookup, args=(c, out)); t.start(); t.join(20)
                n[0] += 1
            return loc
        return loc
    sys.settrace(tr)
    try:
        v = bg.growth_factor(c, 0.5)
    finally:
        sys.settrace(None)
    close(v, want)
    assert out and not isinstance(out[0], Exception), (stop, out)
    close(out[0], want)
''')

bug("c03-norm-sum", "C03",
    "two threads that evaluate a fresh distribution for the first time, one of them between two assignments of the other",
    "The normalisation is accumulated in the object in two steps, so a second thread sees it half made.",
    [("jax_cosmo/redshift.py", '''            if not is_traced(self):
                self._norm = norm
        return self.pz_fn(z) / norm
''', '''            if not is_traced(self):
                # Distributions that vanish everywhere stay zero
                self._norm = 1.0
                self._norm = self._norm * norm
        return self.pz_fn(z) / norm
''')],
    PRE + '''
import threading
LIB = rds.__file__
want = np.asarray(rds.smail_nz(1.0, 2.0, 0.5)(0.4))
for stop in range(400):
    n = rds.smail_nz(1.0, 2.0, 0.5); out = []; cnt = [0]
    def tr(frame, event, arg):
        if frame.f_code.co_filename != LIB: return None
        def loc(frame, event, arg):
            if event == "line":
                if cnt[0] == stop:
                    t = threading.Thread(target=lambda: out.append(np.asarray(n(0.4)))); t.start(); t.join(20)
                cnt[0] += 1
            return loc
        return loc
    sys.settrace(tr)
    try:
        v = n(0.4)
    finally:
        sys.settrace(None)
    if stop >= cnt[0]: break
    close(v, want); assert out; close(out[0], want)
''')

# ---- C04
bug("c04-flag-first", "C04",
    "an interruption while the growth index table is computed, followed by another call on the same cosmology",
    "An empty table is put into the workspace before the integration, and stays there when the integration is interrupted.",
    [("jax_cosmo/background.py", '''    # Check if growth has already been computed, if not, compute it
    if not "background.growth_factor" in cosmo._workspace.keys():
        def integrand(y, loga):''', '''    # Check if growth has already been computed, if not, compute it
    if not "background.growth_factor" in cosmo._workspace.keys():
        if not is_traced(cosmo):
            # Growth of a universe without structure until the table is there
            none = np.zeros(steps)
            cosmo._workspace["background.growth_factor"] = {
                "a": np.logspace(log10_amin, 0.0, steps),
                "g": none,
            }

        def integrand(y, loga):''')],
    PRE + '''
want = np.asarray(bg.growth_factor(cos(gamma=0.55), 0.5))
orig = bg.odeint
def boom(*a, **k):
    raise KeyboardInterrupt
c = cos(gamma=0.55)
bg.odeint = boom
try:
    bg.growth_factor(c, 0.5)
except KeyboardInterrupt:
    pass
finally:
    bg.odeint = orig
close(bg.growth_factor(c, 0.5), want)
''')

bug("c04-probe-m", "C04",
    "an exception raised inside the alignment model while a lensing kernel is computed, followed by another use of the probe",
    "The calibration of the probe is set aside while the kernel is computed and not put back when the computation fails.",
    [("jax_cosmo/probes.py", '''        pzs, m = self.params[:2]
        kernel = weak_lensing_kernel(cosmo, pzs, z, ell)
        # If IA is enabled, we add the IA kernel
        if self.config["ia_enabled"]:
            bias = self.params[2]
            kernel += nla_kernel(cosmo, pzs, bias, z, ell)
''', '''        params = self.params
        pzs, m = params[:2]
        # Kernels are first computed without calibration
        self.params = (pzs, 0.0) + tuple(params[2:])
        kernel = weak_lensing_kernel(cosmo, pzs, z, ell)
        # If IA is enabled, we add the IA kernel
        if self.config["ia_enabled"]:
            bias = self.params[2]
            kernel += nla_kernel(cosmo, pzs, bias, z, ell)
        self.params = params
''')],
    PRE + '''
from jax_cosmo.jax_utils import container
from jax.tree_util import register_pytree_node_class
fail = [True]
@register_pytree_node_class
class mybias(container):
    def __call__(self, cosmo, z):
        if fail[0]: raise ValueError("user error")
        return self.params[0] * jnp.ones_like(z)
n = rds.smail_nz(1.0, 2.0, 0.5)
p = probes.WeakLensing([n], ia_bias=mybias(1.0), multiplicative_bias=0.5)
z = jnp.array([0.2, 0.5])
try:
    p.kernel(cos(), z, 100.0)
except ValueError:
    pass
fail[0] = False
q = probes.WeakLensing([n], ia_bias=mybias(1.0), multiplicative_bias=0.5)
close(p.kernel(cos(), z, 100.0), q.kernel(cos(), z, 100.0))
''')
