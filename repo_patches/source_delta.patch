From d2fd2abaa86e3fa311ba7e541d69d7bf246c4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 01/19] fix: rebuild a Cosmology with a growth index from its
 leaves

list.reverse() returns None, so unflattening any cosmology with gamma set
(jit, grad, vmap, tree_map) raised AttributeError.
---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..2f8e742 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(children[8:])[::-1]
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 604c90498179759b8222ff424a64d904c3f4ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 02/19] fix: keep the systematics of a WeakLensing probe when
 it is rebuilt by JAX

The traced parameters (bins, multiplicative bias, IA bias) were passed to the
constructor positionally, which expects the IA bias second: any jit or tree_map
dropped the multiplicative bias, or swapped it with the IA model.
---
 jax_cosmo/probes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..5452933 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,13 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The traced parameters are not in the order of the constructor arguments
+        redshift_bins, multiplicative_bias, *ia_bias = children
+        ia_bias = ia_bias[0] if ia_bias else None
+        return cls(redshift_bins, ia_bias, multiplicative_bias, **aux_data)
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From ad71eaf535627a8254b0aeadd897a130b873c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 03/19] fix: sign of the log determinant in the Gaussian log
 likelihood

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From 6bc288e38f195499751762dcfe095106c6a4a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 04/19] fix: natural end condition at the right end of cubic
 splines

The last equation read c[N] = c[N-1] instead of c[N] = 0, so the second
derivative did not vanish at the right end point.
---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..c6817cd 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -206,7 +206,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From d57c53085054988557b11b0094d44211d384434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 05/19] fix: interpolate within the interval that contains the
 query point

The first interval of an increasing table, and half of every interval of a
decreasing one (as used by a_of_chi), were extrapolated from a neighbour.
---
 jax_cosmo/scipy/interpolate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index c6817cd..f6a00f7 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -32,7 +32,8 @@ def interp(x, xp, fp):
 
     xi = xp[ind]
     # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
+    # (xp can be increasing or decreasing)
+    s = np.sign((x - xi) * (xp[-1] - xp[0])).astype(np.int64)
     a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
         xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
     )
-- 
2.43.0


From d57c51ab78187a97f28a2435e3dc11249a7fd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 06/19] fix: evaluate single plane redshift distributions

The plane was compared with the tuple of parameters, which raised TypeError.
---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..a79d292 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -92,7 +92,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From c4d328e4e0c34031a7f0f308dcab404570c720ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:18 +0000
Subject: [PATCH 07/19] fix: accept scalar scale factors in growth functions,
 as documented

---
 jax_cosmo/background.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..ef53de2 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -485,6 +485,7 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
@@ -509,6 +510,7 @@ def _growth_rate_ODE(cosmo, a):
     if not "background.growth_factor" in cosmo._workspace.keys():
         _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
     cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -545,6 +547,7 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
-- 
2.43.0


From b66eaa79fe9d4fb1dc2936170bf4451b5ad2ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 08/19] fix: determinant of sparse matrices with a singular
 trailing block

The Schur complement recursion inverted the trailing blocks, so the determinant
of an invertible matrix such as [[1, 1], [1, 0]] (and of the null matrix) was nan.
---
 jax_cosmo/sparse.py | 41 +++++------------------------------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..0a83c4b 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -315,31 +313,14 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
+    A permutation of the rows and columns turns the dense matrix into ndiag
+    independent square matrices, whose determinants multiply.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
+    For a singular matrix, sign is 0 and logdet is -inf.
 
     Parameters
     ----------
@@ -353,17 +334,8 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    signs, logdets = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(signs), np.sum(logdets)
 
 
 @jit
@@ -372,9 +344,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From 1bdf3012eba5f33b8cac8f749824d824ef9ffc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 09/19] fix: integrate sigma^2(R) over the documented range of
 wavenumbers

The integration variable is ln(k) but the limits were log10(kmin) and
log10(kmax), i.e. k from 0.018 to 20 h/Mpc only: sigma8 was off by up to 1% and
sigma^2(30 Mpc/h) by up to 8%.
---
 jax_cosmo/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/power.py b/jax_cosmo/power.py
index 62dcfb7..416134b 100644
--- a/jax_cosmo/power.py
+++ b/jax_cosmo/power.py
@@ -75,7 +75,7 @@ def sigmasqr(cosmo, R, transfer_fn, kmin=0.0001, kmax=1000.0, ksteps=5, **kwargs
         pk = transfer_fn(cosmo, k, **kwargs) ** 2 * primordial_matter_power(cosmo, k)
         return k * (k * w) ** 2 * pk
 
-    y = romb(int_sigma, np.log10(kmin), np.log10(kmax), divmax=7)
+    y = romb(int_sigma, np.log(kmin), np.log(kmax), divmax=7)
     return 1.0 / (2.0 * np.pi**2.0) * y
 
 
-- 
2.43.0


From ed00db732eae5046aa52e48bf6f023f35fe40917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 10/19] fix: derivatives of curved distances at a flat universe

The flat branch did not depend on Omega_k, so the derivative with respect to
Omega_k at Omega_k = 0 missed the curvature term.
---
 jax_cosmo/background.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ef53de2..a75319e 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -328,20 +328,25 @@ def transverse_comoving_distance(cosmo, a):
     """
     index = cosmo.k + 1
 
+    # Avoids nan derivatives of the curved branches where they are not selected
+    sqrtk = np.sqrt(np.where(cosmo.Omega_k == 0.0, 1.0, np.abs(cosmo.Omega_k)))
+
     def open_universe(chi):
-        return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
+        return const.rh / sqrtk * np.sinh(sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # Equal to chi, with the derivatives of the limit of the curved branches
+        x2 = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x2 / 6.0 + x2**2 / 120.0)
 
     def close_universe(chi):
-        return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
+        return const.rh / sqrtk * np.sin(sqrtk * chi / const.rh)
 
     branches = (open_universe, flat_universe, close_universe)
 
     chi = radial_comoving_distance(cosmo, a)
 
-    return lax.switch(cosmo.k + 1, branches, chi)
+    return lax.switch(index, branches, chi)
 
 
 def angular_diameter_distance(cosmo, a):
-- 
2.43.0


From 1aaa1755a4fcf224f677ee09348fd7d03b25266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 11/19] fix: do not keep tracers in the tables cached by
 cosmologies and n(z)

Calling a function of a cosmology (or redshift distribution) captured by a jitted
function stored tracers of that jit in the object, and every later call on the
object failed with UnexpectedTracerError. Tables of objects with concrete
parameters are now computed immediately, whatever is being traced.
---
 jax_cosmo/background.py | 41 +++++++++++++++++++++--------------------
 jax_cosmo/jax_utils.py  | 19 ++++++++++++++++++-
 jax_cosmo/redshift.py   |  6 +++++-
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index a75319e..3da6987 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -3,6 +3,7 @@ import jax.numpy as np
 from jax import lax
 
 import jax_cosmo.constants as const
+from jax_cosmo.jax_utils import cache_context
 from jax_cosmo.scipy.interpolate import interp
 from jax_cosmo.scipy.ode import odeint
 
@@ -221,16 +222,16 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
     """
     # Check if distances have already been computed
     if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        # Compute tabulated array
-        atab = np.logspace(log10_amin, 0.0, steps)
-
         def dchioverdlna(y, x):
             xa = np.exp(x)
             return dchioverda(cosmo, xa) * xa
 
-        chitab = odeint(dchioverdlna, 0.0, np.log(atab))
-        # np.clip(- 3000*np.log(atab), 0, 10000)#odeint(dchioverdlna, 0., np.log(atab), cosmo)
-        chitab = chitab[-1] - chitab
+        # Compute tabulated array
+        with cache_context(cosmo):
+            atab = np.logspace(log10_amin, 0.0, steps)
+            chitab = odeint(dchioverdlna, 0.0, np.log(atab))
+            # np.clip(- 3000*np.log(atab), 0, 10000)#odeint(dchioverdlna, 0., np.log(atab), cosmo)
+            chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
         cosmo._workspace["background.radial_comoving_distance"] = cache
@@ -464,9 +465,6 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     """
     # Check if growth has already been computed
     if not "background.growth_factor" in cosmo._workspace.keys():
-        # Compute tabulated array
-        atab = np.logspace(log10_amin, 0.0, steps)
-
         def D_derivs(y, x):
             q = (
                 2.0
@@ -479,12 +477,15 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
             r = 1.5 * Omega_m_a(cosmo, x) / x / x
             return np.array([y[1], -q * y[1] + r * y[0]])
 
-        y0 = np.array([atab[0], 1.0])
-        y = odeint(D_derivs, y0, atab)
-        y1 = y[:, 0]
-        gtab = y1 / y1[-1]
-        # To transform from dD/da to dlnD/dlna: dlnD/dlna = a / D dD/da
-        ftab = y[:, 1] / y1[-1] * atab / gtab
+        # Compute tabulated array
+        with cache_context(cosmo):
+            atab = np.logspace(log10_amin, 0.0, steps)
+            y0 = np.array([atab[0], 1.0])
+            y = odeint(D_derivs, y0, atab)
+            y1 = y[:, 0]
+            gtab = y1 / y1[-1]
+            # To transform from dD/da to dlnD/dlna: dlnD/dlna = a / D dD/da
+            ftab = y[:, 1] / y1[-1] * atab / gtab
 
         cache = {"a": atab, "g": gtab, "f": ftab}
         cosmo._workspace["background.growth_factor"] = cache
@@ -539,15 +540,15 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
     """
     # Check if growth has already been computed, if not, compute it
     if not "background.growth_factor" in cosmo._workspace.keys():
-        # Compute tabulated array
-        atab = np.logspace(log10_amin, 0.0, steps)
-
         def integrand(y, loga):
             xa = np.exp(loga)
             return _growth_rate_gamma(cosmo, xa)
 
-        gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
-        gtab = gtab / gtab[-1]  # Normalize to a=1.
+        # Compute tabulated array
+        with cache_context(cosmo):
+            atab = np.logspace(log10_amin, 0.0, steps)
+            gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
+            gtab = gtab / gtab[-1]  # Normalize to a=1.
         cache = {"a": atab, "g": gtab}
         cosmo._workspace["background.growth_factor"] = cache
     else:
diff --git a/jax_cosmo/jax_utils.py b/jax_cosmo/jax_utils.py
index 63a240c..41310bc 100644
--- a/jax_cosmo/jax_utils.py
+++ b/jax_cosmo/jax_utils.py
@@ -1,4 +1,21 @@
-import jax.numpy as np
+from contextlib import nullcontext
+
+import jax
+
+
+def cache_context(obj):
+    """
+    Context in which to compute a value that will be stored in `obj`, a cosmology
+    or a container.
+
+    A value computed while tracing a function is a tracer, which must not be used
+    after the end of the trace, while `obj` may be. Unless its parameters are
+    themselves traced, the value is thus computed immediately.
+    """
+    params, _ = obj.tree_flatten()
+    if any(isinstance(p, jax.core.Tracer) for p in jax.tree_util.tree_leaves(params)):
+        return nullcontext()
+    return jax.ensure_compile_time_eval()
 
 
 class container(object):
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a79d292..607cc56 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -5,6 +5,7 @@ from abc import abstractmethod
 import jax.numpy as np
 from jax.tree_util import register_pytree_node_class
 
+from jax_cosmo.jax_utils import cache_context
 from jax_cosmo.jax_utils import container
 from jax_cosmo.scipy.integrate import simps
 
@@ -28,7 +29,10 @@ class redshift_distribution(container):
     def __call__(self, z):
         """Computes the normalized n(z)"""
         if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            with cache_context(self):
+                self._norm = simps(
+                    lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256
+                )
         return self.pz_fn(z) / self._norm
 
     @property
-- 
2.43.0


From fda9980fd26fd99424516e0f72fd6eeb9fda8e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 12/19] fix: honour the table options of
 radial_comoving_distance on every call

The table of the first call was reused by all later calls on the same cosmology,
even if they asked for another range or number of steps.
---
 jax_cosmo/background.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 3da6987..1e64d2c 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -220,8 +220,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
-    # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    # Check if distances have already been computed with these options
+    key = ("background.radial_comoving_distance", log10_amin, steps)
+    if not key in cosmo._workspace.keys():
         def dchioverdlna(y, x):
             xa = np.exp(x)
             return dchioverda(cosmo, xa) * xa
@@ -234,9 +235,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
             chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
+        cosmo._workspace[key] = cache
     else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
+        cache = cosmo._workspace[key]
 
     a = np.atleast_1d(a)
     # Return the results as an interpolation of the table
@@ -261,9 +262,11 @@ def a_of_chi(cosmo, chi):
       Scale factors corresponding to requested distances
     """
     # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    log10_amin, steps = -3, 256
+    key = ("background.radial_comoving_distance", log10_amin, steps)
+    if not key in cosmo._workspace.keys():
+        radial_comoving_distance(cosmo, 1.0, log10_amin, steps)
+    cache = cosmo._workspace[key]
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
-- 
2.43.0


From c588f2263e20a5c65fa78fa59798f0309cd7db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 13/19] fix: reject products of sparse matrices with blocks of
 different sizes

---
 jax_cosmo/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 0a83c4b..a5eaf0d 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -114,6 +114,10 @@ def dot(*args):
             )
         if is_sparse(A):
             if is_sparse(B):
+                if A.shape[2] != B.shape[2]:
+                    raise ValueError(
+                        f"Sparse matrices A {A.shape} and B {B.shape} have blocks of different sizes."
+                    )
                 return sparse_dot_sparse(A, B)
             else:
                 return sparse_dot_vec(A, B) if B.ndim == 1 else sparse_dot_dense(A, B)
-- 
2.43.0


From 8fcfd0a7190b7bb4a070b64b9c978e61f2f33e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 14/19] fix: rebuild splines from any leaves, such as those of
 a batch

---
 jax_cosmo/scipy/interpolate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index f6a00f7..5a598c1 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -240,8 +240,13 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # Not through the constructor, as JAX can rebuild the object from anything,
+        # e.g. from the stacked leaves of a batch of splines
+        spline = object.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline._endpoints = aux_data["endpoints"]
+        spline.k = aux_data["k"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From d519aad37b1165d7d78ad9f3554da2626c65965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 15/19] fix: do not keep tables computed from traced parameters
 in cosmologies and n(z)

---
 jax_cosmo/background.py | 43 +++++++++++++++++++++++++----------------
 jax_cosmo/jax_utils.py  | 17 ++++++++++++----
 jax_cosmo/redshift.py   | 12 +++++++-----
 3 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 1e64d2c..94fa040 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -4,6 +4,7 @@ from jax import lax
 
 import jax_cosmo.constants as const
 from jax_cosmo.jax_utils import cache_context
+from jax_cosmo.jax_utils import is_traced
 from jax_cosmo.scipy.interpolate import interp
 from jax_cosmo.scipy.ode import odeint
 
@@ -220,6 +221,14 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
+    cache = _distance_table(cosmo, log10_amin, steps)
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _distance_table(cosmo, log10_amin=-3, steps=256):
+    """Table of radial comoving distances, kept in the workspace of the cosmology."""
     # Check if distances have already been computed with these options
     key = ("background.radial_comoving_distance", log10_amin, steps)
     if not key in cosmo._workspace.keys():
@@ -235,13 +244,11 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
             chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace[key] = cache
+        if not is_traced(cosmo):
+            cosmo._workspace[key] = cache
     else:
         cache = cosmo._workspace[key]
-
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+    return cache
 
 
 def a_of_chi(cosmo, chi):
@@ -262,11 +269,7 @@ def a_of_chi(cosmo, chi):
       Scale factors corresponding to requested distances
     """
     # Check if distances have already been computed, force computation otherwise
-    log10_amin, steps = -3, 256
-    key = ("background.radial_comoving_distance", log10_amin, steps)
-    if not key in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0, log10_amin, steps)
-    cache = cosmo._workspace[key]
+    cache = _distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
@@ -466,6 +469,13 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
+    cache = _growth_table_ODE(cosmo, log10_amin, steps)
+    a = np.atleast_1d(a)
+    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+
+def _growth_table_ODE(cosmo, log10_amin=-3, steps=128):
+    """Table of growth factors and rates, kept in the workspace of the cosmology."""
     # Check if growth has already been computed
     if not "background.growth_factor" in cosmo._workspace.keys():
         def D_derivs(y, x):
@@ -491,11 +501,11 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
             ftab = y[:, 1] / y1[-1] * atab / gtab
 
         cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
+        if not is_traced(cosmo):
+            cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
-    a = np.atleast_1d(a)
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+    return cache
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -516,9 +526,7 @@ def _growth_rate_ODE(cosmo, a):
         Growth rate computed at requested scale factor
     """
     # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table_ODE(cosmo)
     a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
@@ -553,7 +561,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
             gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
             gtab = gtab / gtab[-1]  # Normalize to a=1.
         cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
+        if not is_traced(cosmo):
+            cosmo._workspace["background.growth_factor"] = cache
     else:
         cache = cosmo._workspace["background.growth_factor"]
     a = np.atleast_1d(a)
diff --git a/jax_cosmo/jax_utils.py b/jax_cosmo/jax_utils.py
index 41310bc..3825897 100644
--- a/jax_cosmo/jax_utils.py
+++ b/jax_cosmo/jax_utils.py
@@ -3,6 +3,18 @@ from contextlib import nullcontext
 import jax
 
 
+def is_traced(obj):
+    """
+    Whether `obj`, a cosmology or a container, has traced parameters. In this case
+    nothing computed from them can be stored in `obj`: it may have been computed in
+    a nested trace, e.g. of a jitted function, outside of which it must not be used.
+    """
+    params, _ = obj.tree_flatten()
+    return any(
+        isinstance(p, jax.core.Tracer) for p in jax.tree_util.tree_leaves(params)
+    )
+
+
 def cache_context(obj):
     """
     Context in which to compute a value that will be stored in `obj`, a cosmology
@@ -12,10 +24,7 @@ def cache_context(obj):
     after the end of the trace, while `obj` may be. Unless its parameters are
     themselves traced, the value is thus computed immediately.
     """
-    params, _ = obj.tree_flatten()
-    if any(isinstance(p, jax.core.Tracer) for p in jax.tree_util.tree_leaves(params)):
-        return nullcontext()
-    return jax.ensure_compile_time_eval()
+    return nullcontext() if is_traced(obj) else jax.ensure_compile_time_eval()
 
 
 class container(object):
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index 607cc56..a10402a 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -7,6 +7,7 @@ from jax.tree_util import register_pytree_node_class
 
 from jax_cosmo.jax_utils import cache_context
 from jax_cosmo.jax_utils import container
+from jax_cosmo.jax_utils import is_traced
 from jax_cosmo.scipy.integrate import simps
 
 steradian_to_arcmin2 = 11818102.86004228
@@ -28,12 +29,13 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
+        norm = self._norm
+        if norm is None:
             with cache_context(self):
-                self._norm = simps(
-                    lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256
-                )
-        return self.pz_fn(z) / self._norm
+                norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            if not is_traced(self):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From 1160f171b49a57fec11648cf9161eebbda62ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:26 +0000
Subject: [PATCH 16/19] fix: finite derivatives of Smail distributions with b <
 1

---
 jax_cosmo/redshift.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a10402a..89bd7ab 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -81,7 +81,10 @@ class smail_nz(redshift_distribution):
 
     def pz_fn(self, z):
         a, b, z0 = self.params
-        return z**a * np.exp(-((z / z0) ** b))
+        # Powers are not differentiated at z = 0, where it gives infinities
+        x = np.where(z == 0.0, 1.0, z)
+        pz = x**a * np.exp(-((x / z0) ** b))
+        return np.where(z == 0.0, np.power(0.0, a), pz)
 
 
 @register_pytree_node_class
-- 
2.43.0


From 31b62406ffead2de2ccf5846014712d581db964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:10 +0000
Subject: [PATCH 17/19] fix: finite derivatives of shifted distributions below
 the shift

---
 jax_cosmo/redshift.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index 89bd7ab..369f3e8 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -152,4 +152,8 @@ class systematic_shift(redshift_distribution):
 
     def pz_fn(self, z):
         parent_pz, bias = self.params[:2]
-        return parent_pz.pz_fn(np.clip(z - bias, 0))
+        # Below the bias, where the shifted redshift is 0, nothing depends on the
+        # bias even if the derivative of the parent is infinite there
+        above = np.clip(np.where(z < bias, 1.0, z - bias), 0)
+        below = np.zeros_like(z * 1.0)
+        return np.where(z < bias, parent_pz.pz_fn(below), parent_pz.pz_fn(above))
-- 
2.43.0


From 50326d8d28f40b0c5771d7579d45fea086e385be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 18/19] fix: integer multipoles in single precision

---
 jax_cosmo/probes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index 5452933..ee7db07 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -71,7 +71,8 @@ def weak_lensing_kernel(cosmo, pzs, z, ell):
 
     # Constant term
     constant_factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
-    # Ell dependent factor
+    # Ell dependent factor, in floating point as the products overflow int32
+    ell = 1.0 * ell
     ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
@@ -126,7 +127,8 @@ def nla_kernel(cosmo, pzs, bias, z, ell):
     )
     # Constant factor
     constant_factor = 1.0
-    # Ell dependent factor
+    # Ell dependent factor, in floating point as the products overflow int32
+    ell = 1.0 * ell
     ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
-- 
2.43.0


From f8b64d8276d45a2c8fb9510830a482e02c1e3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:45 +0000
Subject: [PATCH 19/19] fix: interp accepts tables given as numpy arrays

---
 jax_cosmo/scipy/interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 5a598c1..f76faad 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -24,6 +24,9 @@ def interp(x, xp, fp):
 
     x, xp, fp need to be 1d arrays
     """
+    # The tables are indexed by traced values, which only JAX arrays can be
+    xp, fp = np.asarray(xp), np.asarray(fp)
+
     # First we find the nearest neighbour
     ind = np.argmin((x - xp) ** 2)
 
-- 
2.43.0

