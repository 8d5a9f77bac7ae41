PRE = '''
import sys
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import numpy as np
import jax_cosmo as jc
from jax_cosmo import background as bg, power, probes, redshift as rds, bias as jb, angular_cl as acl, likelihood, sparse, transfer as tk
from jax_cosmo.core import Cosmology
from jax_cosmo.scipy.integrate import simps, romb
from jax_cosmo.scipy.interpolate import interp, InterpolatedUnivariateSpline as IUS
from jax_cosmo.scipy.ode import odeint

P = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0)
def cos(**kw):
    return Cosmology(**dict(P, **kw))
def close(x, y, rtol=1e-6, atol=0.0, what=""):
    x, y = np.asarray(x), np.asarray(y)
    ok = x.shape == y.shape and np.all(np.isfinite(x)) and np.allclose(x, y, rtol=rtol, atol=atol)
    if not ok:
        print("MISMATCH", what, x, y)
        sys.exit(1)
'''

