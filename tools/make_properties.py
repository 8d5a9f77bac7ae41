#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


BG, CORE, PW, TR = "jax_cosmo/background.py", "jax_cosmo/core.py", "jax_cosmo/power.py", "jax_cosmo/transfer.py"
CL, PR, RS, BI = "jax_cosmo/angular_cl.py", "jax_cosmo/probes.py", "jax_cosmo/redshift.py", "jax_cosmo/bias.py"
SP, LK, UT, JU = "jax_cosmo/sparse.py", "jax_cosmo/likelihood.py", "jax_cosmo/utils.py", "jax_cosmo/jax_utils.py"
IP, IG, OD, PA = ("jax_cosmo/scipy/interpolate.py", "jax_cosmo/scipy/integrate.py", "jax_cosmo/scipy/ode.py", "jax_cosmo/parameters.py")

prop("C01", "Rebuilding any parameter object through JAX loses and swaps nothing",
     "Taking any parameter object of the library (a cosmology with or without a growth index, every redshift distribution, every bias, every probe configuration, a spline, and nestings of these) apart into its leaves and rebuilding it, any number of times and through jit, tree_map or differentiation, gives an object with the same tree structure, the same parameter in the same role and the same configuration, which evaluates to the same values. Changing one leaf changes exactly the constructor argument that leaf came from.",
     ["inputs", "programs"], "all objects of a small constructor grammar, all leaves, all chains of rebuild operations",
     "The tests pass through jit only default probes and a cosmology without growth index; options such as the multiplicative bias, the growth index or per-bin lists never cross a rebuild.",
     [CORE, JU, RS, PR, IP, BI], [("tree_flatten/tree_unflatten of Cosmology", CORE), ("container.tree_unflatten", JU), ("redshift_distribution.tree_flatten", RS), ("WeakLensing constructor argument order", PR), ("spline tree_flatten", IP)],
     [("params/config", "traced children and static options of a container", JU), ("_flags", "which growth model is used; static data of the tree", CORE)],
     ["jax.tree_util.tree_flatten/tree_unflatten", "kernel(), noise(), n(z), growth_factor on the rebuilt object"])

prop("C02", "A result never depends on what was called before",
     "On a cosmology or redshift distribution object that is used repeatedly, every call returns what it would return on a freshly built object: earlier calls with other arguments, other table-resolution options, other functions, inside jit, vmap or grad, or on other objects with different parameters have no effect on later results. In particular no call makes a later call fail.",
     ["histories"], "all sequences of public calls up to a depth on shared objects, eagerly and under transformations",
     "Each test uses each object in one order and one mode; the interpolation tables kept inside the objects are never queried after a call with other options or under another transformation.",
     [BG, RS, CORE], [("distance and growth tables kept in the cosmology workspace", BG), ("normalisation kept in the redshift distribution", RS)],
     [("_workspace", "tables computed by the first call and reused by all later ones", CORE), ("_norm", "normalisation computed by the first evaluation", RS)],
     ["radial_comoving_distance, a_of_chi, growth_factor, growth_rate, n(z), transverse distances, power spectra"])

prop("C03", "Threads sharing an object see sequential results",
     "When several threads evaluate functions of one shared cosmology or one shared redshift distribution, every call returns the value it returns on a fresh object used by a single thread and raises nothing, whatever the interleaving. This holds from the moment the object is constructed.",
     ["schedules"], "all interleavings of two threads at every access to the shared object, and all line-level interleavings with one preemption",
     "The tests are single threaded; a table published before it is complete shows only in one interleaving.",
     [BG, RS, CORE], [("tables are built in local variables and published by one dictionary store", BG), ("normalisation published by one attribute store", RS)],
     [("_workspace", "shared table store", CORE), ("_norm", "shared normalisation", RS)],
     ["return values of distance, growth and n(z) calls in every thread"])

prop("C04", "An interrupted call leaves shared objects usable and correct",
     "If a call on a cosmology, redshift distribution, probe or spline is interrupted by an exception at any point (a keyboard interrupt, memory error, or an error raised by a user supplied function), the objects involved stay usable: repeating that call or making any other call gives the same values as on fresh objects. No partially built table or normalisation is ever reused.",
     ["fault_sequences", "crash_points"], "an exception at every executed line of the library inside every operation, followed by every operation",
     "No test raises inside a call and then continues with the same object.",
     [BG, RS, CORE, PR], [("tables stored only after they are complete", BG), ("normalisation stored only after it is computed", RS)],
     [("_workspace", "table store", CORE), ("_norm", "normalisation", RS)], ["values returned after a failed call"])

prop("C05", "Eager, jit and vmap evaluation agree",
     "Every public function returns the same values and the same shape whether it is called eagerly, under jit with the objects as arguments, under jit with the objects captured, under vmap over the evaluation points or over a batch of parameter objects, or under nestings of these. A batch of parameter objects gives, entry by entry, what each object gives alone.",
     ["programs", "inputs"], "all public functions x all transformation chains up to depth two x a set of parameter batches that mixes the special cases",
     "The tests call nearly everything eagerly, for a single set of parameters; no test maps over parameters.",
     [BG, PW, TR, PR, RS, BI, CL, SP, IP, IG, LK, CORE], [("pure jax.numpy implementation, no Python branching on values", BG), ("lax.switch on curvature", BG), ("jitted kernels", PR), ("jitted sparse algebra", SP)],
     [], ["outputs of all public functions under transformation"])

prop("C06", "Automatic derivatives are finite and equal the true derivatives",
     "For every public function, the reverse-mode and forward-mode derivatives with respect to every cosmological parameter (including curvature at and around a flat universe, dark energy parameters and the growth index) and every redshift, bias, probe or spline parameter are finite and equal the limit of finite differences of that function. Second derivatives are finite and agree with differences of first derivatives (where rounding near a flat universe allows).",
     ["inputs", "programs"], "all functions x all parameters x a lattice of parameter points including all special values",
     "No test takes a derivative.",
     [BG, PW, TR, PR, RS, BI, CL, SP, IP, IG, OD, LK, CORE], [("all operations differentiable jax.numpy", BG), ("RK4 integrator differentiated through", OD), ("curvature switch", BG), ("interpolation through table values", IP)],
     [], ["jax.grad, jax.jvp, jax.hessian of the public functions"])

prop("C07", "Default single precision gives the double precision answer",
     "With JAX's default single-precision mode every public function returns finite values that agree with the double-precision values to within one part in a thousand (of the largest value for quantities that pass through zero), over the documented domain (scale factors from 0.01 to 1, wavenumbers from 1e-4 to 1e2 h/Mpc, multipoles from 2 to 1e4), and so do first derivatives to within one part in a hundred. Numbers given as integers (redshifts, wavenumbers, multipoles, parameters) or in either precision give the same values. Results are floating point whatever the precision mode.",
     ["configurations", "inputs"], "both precision modes x all public functions x parameter lattice",
     "The test session switches JAX to double precision for every module, so the default mode of users is never exercised.",
     [BG, PW, TR, PR, CL, SP, IP, IG, OD, LK], [("choice of expressions and clipping that avoid overflow and cancellation", PW), ("clipping of distances", CL), ("logarithmic tables", BG)],
     [], ["all public functions in both modes"])

prop("C08", "Arrays are evaluated element by element",
     "Evaluating a function at an array of scale factors, redshifts, wavenumbers (with a matching array or a single value of the scale factor), multipoles or spline abscissae gives, at each position, the value of the evaluation at that point alone, for any length, order and repetition of the points, scalars included. Two neighbouring entries never influence each other.",
     ["inputs"], "all arrays up to a length over an alphabet of points (all orders, repetitions, lengths, scalars), all public functions",
     "Tests evaluate one sorted array of fixed length and never compare with single-point or permuted evaluation.",
     [BG, PW, TR, RS, BI, IP, PR, CL], [("interp vectorised over query points", IP), ("atleast_1d and squeeze of inputs", PW), ("R_nl vectorised over scale factors", PW), ("vmap over multipoles", CL)],
     [], ["outputs at each position of the input array"])

prop("C09", "Densities, dark energy and expansion rate follow Friedmann's equation",
     "A cosmology reports the parameters it was given (presets with overrides included) and derived densities with Omega_m = Omega_b + Omega_c, Omega = 1 - Omega_k and Omega_de = Omega - Omega_m. For every curvature, w0, wa and scale factor, w, the dark energy evolution, E^2, H = 100 E, the matter and dark energy fractions and dchi/da equal the closed-form CPL/Friedmann expressions. In particular E = 1 today and the matter, dark energy and curvature fractions sum to one at all times. Redshift and scale factor are converted by a = 1/(1+z).",
     ["inputs"], "lattice over all cosmological parameters (curved, phantom, varying dark energy) x scale factors",
     "One flat cosmology with w0 = -1 is compared; curvature and w0 are never varied and the density fractions are never compared.",
     [CORE, BG, PA, UT, "jax_cosmo/constants.py"], [("Esqr, f_de, w", BG), ("derived properties", CORE), ("Planck15 preset", PA)],
     [], ["Cosmology properties, background.w/f_de/Esqr/H/Omega_m_a/Omega_de_a/dchioverda"])

prop("C10", "Comoving distance is the Friedmann integral and inverts consistently",
     "For scale factors in [1e-3, 1] and every cosmology, the radial comoving distance equals (c/100) times the integral of da/(a^2 E) from a to 1 to within 0.05% plus 1.5 Mpc/h, whatever the table options it is asked to use, is zero today and strictly decreases with the scale factor. The scale-factor-of-distance function inverts it to within 0.1% over the whole range, end points included.",
     ["inputs"], "lattice over Omega_m, Omega_k, w0, wa x dense scale-factor grid including table knots, interval interiors and end points",
     "One flat LCDM cosmology on a uniform grid above a = 0.01 is compared; the inverse function has no test at all.",
     [BG, OD, IP], [("table of 256 log-spaced points from RK4", BG), ("linear interpolation of the table", IP), ("reverse interpolation", BG)],
     [("_workspace", "distance table", CORE)], ["radial_comoving_distance, a_of_chi"])

prop("C11", "Curved distances follow the sign and size of curvature",
     "The transverse comoving distance is R sinh(chi/R) for positive, chi for zero and R sin(chi/R) for negative Omega_k with R = (c/100)/sqrt|Omega_k|, for the radial distance chi of the same cosmology, and tends continuously to chi as Omega_k tends to zero from either side. The angular diameter distance is the scale factor times it, at every point of any array.",
     ["inputs"], "curvature alphabet of both signs over many decades x background lattice x scale factors",
     "Only Omega_k = 0 is tested.",
     [BG, CORE], [("lax.switch over three branches indexed by the sign of curvature", BG), ("k and sqrtk", CORE)],
     [], ["transverse_comoving_distance, angular_diameter_distance"])

prop("C12", "Growth solves the linear growth equation",
     "Without growth index, the growth factor is the growing solution of the linear growth equation of the same background (curved and dynamical dark energy included), normalised to one today, to within 0.2% for scale factors in [0.005, 1]; it increases with the scale factor and lies in [0, 1]. The growth rate is its logarithmic derivative dlnD/dlna to within 0.5%.",
     ["inputs"], "lattice over Omega_m, Omega_k, w0, wa x scale factors",
     "One flat LCDM cosmology is compared; curvature and dark energy enter the equation but are never varied.",
     [BG, OD, IP], [("ODE table of 128 points", BG), ("interpolation", IP)],
     [("_workspace", "growth table", CORE)], ["growth_factor, growth_rate"])

prop("C13", "The growth index parametrisation is used consistently when given",
     "With a growth index gamma (zero and other falsy or negative values included), the growth rate is exactly Omega_m(a)^gamma and the growth factor is exp of minus its integral over ln a from a to 1, to within 0.3%, normalised to one today, and every quantity derived from growth (power spectra, inverse-growth bias, intrinsic alignments) uses it. Without one the growth equation is solved; the background and distances never depend on gamma.",
     ["inputs", "configurations"], "gamma alphabet x background lattice x all growth consumers",
     "One gamma value for one cosmology, growth functions only; consumers with gamma are never evaluated.",
     [BG, CORE, PW, BI, PR], [("flag that selects the growth model", CORE), ("integral of the growth rate", BG)],
     [("_flags", "growth model selector", CORE), ("_workspace", "growth table shared by both models", CORE)], ["growth_factor, growth_rate, linear_matter_power, biases, kernels"])

prop("C14", "The transfer function is Eisenstein & Hu's fitting formula",
     "For every cosmology and wavenumber the transfer function equals the published Eisenstein & Hu (1998) formula, with baryon oscillations by default and in the zero-baryon-oscillation shape form when asked; any other type is rejected. It tends to one on large scales, depends only on Omega_c, Omega_b, h and the wavenumber.",
     ["inputs", "configurations"], "lattice over Omega_c, Omega_b, h x both types x wavenumber grid of seven decades",
     "One cosmology and the oscillating type only.",
     [TR], [("Eisenstein_Hu", TR)], [], ["transfer.Eisenstein_Hu"])

prop("C15", "Linear power has the requested amplitude, tilt, shape and growth",
     "The linear matter power spectrum of any cosmology is proportional to k^n_s T(k)^2 D(a)^2, for the transfer function (built-in or user supplied) and transfer options the caller passed, and its top-hat variance at 8 Mpc/h today equals sigma8^2 to within 1%, whatever those are. The variance function returns the top-hat variance over the requested wavenumber range to within 2% for radii between 2 and 30 Mpc/h.",
     ["inputs", "configurations"], "lattice over cosmological parameters x transfer functions and options x scale factors and wavenumbers x radii",
     "One cosmology, today, default transfer function, 0.5% tolerance; the normalisation integral is never checked.",
     [PW, IG, BG], [("normalisation by sigmasqr", PW), ("Romberg quadrature", IG), ("primordial power", PW)],
     [], ["linear_matter_power, sigmasqr, primordial_matter_power"])

prop("C16", "Halofit follows the published prescriptions for every cosmology and epoch",
     "For every cosmology, scale factor between 0.02 and 1 and wavenumber, the non-linear power spectrum equals the Takahashi et al. (2012) formula by default, or the Smith et al. (2003) formula when asked, applied to this linear spectrum with the non-linear scale defined by unit Gaussian-filtered variance, to within 1% while that scale is larger than 0.001 Mpc/h; any other prescription is rejected. It is positive and finite, tends to the linear spectrum on large scales and at early times (within 1% below k = 0.004 h/Mpc, and below 0.05 h/Mpc at a = 0.02), and the caller's choice of transfer and non-linear function is honoured.",
     ["inputs", "configurations"], "lattice over cosmological parameters x prescriptions x non-linear choices x scale factors and wavenumbers",
     "One cosmology, Takahashi only, with w = -1 so the dark-energy terms vanish identically.",
     [PW, IP, IG], [("non-linear scale by tabulation and interpolation", PW), ("spectral index and curvature by Simpson's rule", PW), ("halofit coefficients", PW)],
     [], ["halofit, linear, nonlinear_matter_power"])

prop("C17", "Redshift distributions are normalised and have their defined shape",
     "Every extended redshift distribution that is wider than about zmax/100 is non-negative and integrates to one over [0, zmax] to within 1% whatever its parameters and zmax, and has exactly the defined shape: Smail z^a exp(-(z/z0)^b), a weighted Gaussian kernel estimate of the catalogue, or its parent moved by the systematic shift (clipped at redshift zero), shifts of shifts included. A single-plane distribution selects exactly its plane; the number density is reported unchanged and converted per steradian with the right constant.",
     ["inputs", "configurations"], "lattice over distribution parameters, zmax, weights, bandwidths, nested shifts x redshift grid",
     "Three Smail distributions with default zmax enter other tests; normalisation, weights, bandwidth, shift and densities are never checked.",
     [RS, IG], [("normalisation by Simpson's rule", RS), ("kernel estimate", RS), ("shift", RS)],
     [("_norm", "normalisation", RS)], ["smail_nz, kde_nz, delta_nz, systematic_shift"])

prop("C18", "Galaxy bias and clustering kernels follow their definitions",
     "The constant, inverse-growth and DES-Y1 biases return b, b/D(z) and A((1+z)/(1+z0))^eta for any redshift. The clustering kernel of bin i is n_i(z) b_i(z) H(z) with the bias of that bin, whether one bias or a per-bin list was given, for any number and order of bins, and is independent of the multipole; single-plane bins are refused.",
     ["inputs", "configurations"], "bias forms x parameters x single/list x bin lists (all orders) x cosmologies x redshifts",
     "Only a constant bias of one on one bin is tested.",
     [BI, PR, RS], [("bias classes", BI), ("density_kernel", PR)], [], ["bias objects, NumberCounts.kernel"])

prop("C19", "Weak-lensing kernels are the lensing efficiency of each bin",
     "The lensing kernel of bin i at redshift z and multipole l equals (3/2)(100^2 Omega_m/c)(1+z) chi times the integral over z' > z of n_i(z')(chi'-chi)/chi', times sqrt((l+2)!/(l-2)!)/(l+1/2)^2, to within 1%, and vanishes behind the sources. Single-plane and extended bins can be mixed in any number and order and every bin keeps its place.",
     ["inputs", "configurations"], "all bin lists up to length four over a mixed alphabet, in every order x cosmologies x redshifts x multipoles",
     "One order of one mixed list is tested, comparing only the last bin.",
     [PR, RS, BG, IG], [("permutation of extended and single-plane bins and its inverse", PR), ("Simpson integral per redshift", PR)],
     [], ["WeakLensing.kernel"])

prop("C20", "Intrinsic alignments and shear calibration act on the right bins",
     "With an alignment model the lensing kernel gains, for each bin, -(5e-14 rho_crit) Omega_m/D(z) times n_i(z) A_i(z) H(z) times the lensing multipole factor, with the model of that bin when a list is given, and nothing when no model is given. The multiplicative shear bias scales the complete kernel of bin i by 1 + m_i, for a common value or a per-bin list.",
     ["inputs", "configurations"], "presence/absence and single/list forms of both systematics x bins x cosmologies x redshifts x multipoles",
     "One single-bin case with one model is tested and the multiplicative bias never.",
     [PR, BI], [("nla_kernel", PR), ("WeakLensing.kernel", PR)], [], ["WeakLensing.kernel"])

prop("C21", "Angular spectra are the Limber integrals of each tracer pair in order",
     "For any list of probes, entry n of the result is the spectrum of the n-th pair (i <= j) of tracers, numbered through all probes and bins in the given order, and equals the Limber integral of the two kernels and the chosen power spectrum up to the largest redshift of the probes. Auto and cross spectra do not depend on which other tracers are present or on the order of the probes; C_ij is symmetric and auto spectra are non-negative.",
     ["inputs", "configurations"], "probe lists up to three probes and four tracers in every order and grouping x multipoles x cosmologies x power choices",
     "All tests but one use one tracer; cross spectra and their ordering are never compared with a reference.",
     [CL, PR, PW, IG], [("pair ordering", CL), ("kernel stacking", CL), ("Limber integrand", CL)], [], ["angular_cl"])

prop("C22", "Noise enters exactly the auto spectra",
     "The noise spectra have, for each tracer pair in the order of the signal spectra, sigma_e^2/n for lensing bins (with a common or per-bin sigma_e) and 1/n for clustering bins on auto pairs, with n the bin's density per steradian, and exactly zero on all cross pairs, for every multipole. Shape matches the signal spectra for any probe list.",
     ["inputs", "configurations"], "all probe lists up to three probes and five tracers x per-bin densities and ellipticities",
     "The noise function is only called through one likelihood test that compares the code with itself.",
     [CL, PR, RS], [("noise_cl", CL), ("noise methods", PR)], [], ["noise_cl, WeakLensing.noise, NumberCounts.noise"])

prop("C23", "The Gaussian covariance is the Wick covariance, dense or sparse",
     "For any signal and noise spectra the covariance of spectra (i,j) and (m,n) at a multipole is (C_im C_jn + C_in C_jm)/((2l+1) Delta_l f_sky) with C the sum of signal and noise, and zero between different multipoles. It is symmetric, positive semi-definite for realisable spectra, scales as 1/f_sky; the dense and sparse results represent the same matrix, in the order of the flattened mean.",
     ["inputs", "configurations"], "all tracer counts up to four, integer spectra that identify every index, all multipole counts, f_sky, dense and sparse",
     "One probe list with all spectra equal to one is tested, which cannot tell the blocks apart.",
     [CL, SP], [("block ordering", CL), ("normalisation", CL), ("reshape of dense blocks", CL)], [], ["gaussian_cl_covariance, gaussian_cl_covariance_and_mean"])

prop("C24", "The Gaussian log likelihood is a log density",
     "For any data, mean and positive-definite covariance the log likelihood equals minus one half of (r^T C^-1 r + log det C), or of the first term only when the determinant is excluded, i.e. the Gaussian log density up to its constant. Dense covariances with either inversion method and sparse covariances give the same value; unknown methods are rejected.",
     ["inputs", "configurations"], "all small integer SPD matrices x residual vectors x determinant option x method x representation",
     "The one test compares the dense code with the sparse code, never with the density.",
     [LK, SP], [("gaussian_log_likelihood", LK)], [], ["gaussian_log_likelihood"])

prop("C25", "Sparse products equal dense products",
     "For all shapes, the dense form of a block-diagonal sparse matrix places entry (i,j,d) at row i*n+d, column j*n+d, and every supported product of vectors, dense and sparse matrices, including the bilinear form, equals the product of the dense forms. Operands of incompatible shape or dimension are rejected with ValueError instead of giving a number.",
     ["inputs"], "all shapes up to a bound, all operand kind combinations, basis and integer matrices, all incompatible shape pairs",
     "Two fixed matrices of one shape pair are tested; no mismatch is tested.",
     [SP], [("dot dispatch and validation", SP), ("low-level products", SP), ("to_dense", SP)], [], ["sparse.dot and all low-level products, to_dense, is_sparse, check_sparse"])

prop("C26", "Sparse inverse and determinant equal the dense ones",
     "For every invertible square block-diagonal matrix, symmetric or not, of any block count and size, the sparse inverse times the matrix is the identity and the sign and log of the determinant equal those of the dense form; determinants of singular matrices are zero. Non-square input is rejected with ValueError.",
     ["inputs"], "all integer matrices over a small alphabet for all small block counts and sizes",
     "One 2x2 inverse and one determinant are tested; zeros, sign combinations and matrices whose sub-blocks are singular are not.",
     [SP], [("inv by batched inversion", SP), ("slogdet", SP)], [], ["sparse.inv, slogdet, det"])

prop("C27", "Quadrature rules have their order of exactness",
     "Simpson's rule with N intervals is exact for all polynomials up to degree three for any even N and any limits (reversed, negative, array-valued and vector-valued integrands included) and rejects odd N; Romberg integration with level m is exact up to degree 2m+1 and passes extra arguments through. Both are linear in the integrand, change sign with the limits and converge for smooth integrands.",
     ["inputs", "configurations"], "all monomials up to a degree x all N / levels up to a bound x limit alphabet x integrand shapes",
     "No test calls either rule directly.",
     [IG], [("simps", IG), ("romb", IG)], [], ["simps, romb"])

prop("C28", "The ODE integrator is fourth order and returns the whole trajectory",
     "The integrator returns the state at every requested time, starting with the initial state at the first; it is exact for right-hand sides polynomial in time up to degree three, advances linear systems by the fourth-order stability polynomial, and its error decreases with the fourth power of the step, for scalar and vector states, forward or backward in time and on non-uniform grids.",
     ["inputs"], "all monomial right-hand sides, linear systems, all small time grids over an alphabet, state shapes",
     "The integrator is only exercised through two smooth background equations.",
     [OD], [("rk4 step in a scan", OD)], [], ["scipy.ode.odeint"])

prop("C29", "Table interpolation is piecewise linear interpolation",
     "For every strictly monotonic table, increasing or decreasing, uniform or not, and every query inside it, the interpolated value is that of the straight line between the two neighbouring knots: knots are reproduced, linear data are reproduced everywhere and the result lies between the neighbouring values.",
     ["inputs"], "all strictly monotonic tables of length 3..6 over an integer alphabet x all values x all queries at and between knots",
     "Not tested directly; through the distances only to half a percent, and never in the first table interval.",
     [IP], [("nearest neighbour search and side selection", IP)], [], ["scipy.interpolate.interp"])

prop("C30", "Splines interpolate with the documented order and end conditions",
     "For any strictly increasing abscissae (minimum length k+1 and up), any data and every order k = 1, 2, 3, the spline passes through all points, is k-1 times continuously differentiable, reproduces polynomials up to degree k and equals the reference library spline everywhere, extrapolation included. For cubic splines 'natural' end points have vanishing second derivative at both ends and 'not-a-knot' continuous third derivative at the second and last-but-one points; invalid orders and lengths are rejected.",
     ["inputs", "configurations"], "all small abscissa sets over an integer alphabet x basis data vectors x orders x end conditions x queries",
     "One data set of 64 points per order with the default end conditions is tested.",
     [IP], [("linear system for the coefficients", IP), ("interval search", IP)], [], ["InterpolatedUnivariateSpline.__call__"])

prop("C31", "Spline derivatives and integrals are those of the spline",
     "The n-th derivative (n up to the order) of a spline is the derivative of the very function its evaluation returns, at every point including extrapolation; its antiderivative differentiates back to it and is continuous; the definite integral over [a, b] is the difference of antiderivatives, additive, zero for a = b and changes sign with the limits. A derivative order out of range is rejected.",
     ["inputs", "configurations"], "all small abscissa sets x basis data x orders x derivative orders x integration limits (all ordered pairs)",
     "Derivatives and definite integrals are not tested at all.",
     [IP], [("derivative", IP), ("antiderivative", IP), ("integral", IP)], [], ["derivative, antiderivative, integral"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
