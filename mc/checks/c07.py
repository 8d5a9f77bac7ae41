"""C07: single against double precision for every public function, parameter letter and kind of number."""
import jax
import jax.numpy as jnp
import numpy as onp
from jax.flatten_util import ravel_pytree

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import bias, power, probes, redshift as rs, transfer
from jax_cosmo.angular_cl import angular_cl, gaussian_cl_covariance_and_mean, noise_cl
from jax_cosmo.utils import a2z, z2a
from mc import cat, jx
from mc.lib import Bad, lattice

ENV = dict(JAX_ENABLE_X64="0")
TREE = jax.tree_util.tree_map
BOUNDS = dict(
    quick="%d catalogued functions at all their parameter letters; background, distances, growth and transfer functions over all pairs of deviations of 8 parameters (and the growth index) at 61 scale factors or 91 wavenumbers; power spectra over single deviations; integer, Python, 32 and 64 bit inputs for 14 functions" % len(cat.LIST),
    thorough="power spectra over pairs of deviations, background over triples, finer points",
)
ASSUMPTIONS = ["the double precision values are the reference; other checks compare those to independent models"]
A = onp.concatenate([onp.geomspace(0.01, 0.95, 55), [0.97, 0.98, 0.99, 0.995, 0.999, 1.0]])
K = onp.geomspace(1e-4, 1e2, 91)
FINE = dict(a=A, k=K)


def shards(tier):
    return ["cat:clnl:0"] + ["cat:cl:%d" % i for i in range(4)] + ["grid:power:%d" % i for i in range(4)] + ["cat:cosmo:%d" % i for i in range(12)] + ["cat:gamma:%d" % i for i in range(3)] \
        + ["grid:bg:0", "grid:table:0", "grid:gamma:0", "grid:transfer:0"] + ["cat:kernel:%d" % i for i in range(3)] + ["cat:%s:0" % g for g in ("nz", "bias", "spline", "sparse")] + ["inputs:0:%d" % i for i in range(3)]


def run(ctx, shard):
    kind, g, i = shard.split(":")
    if kind == "cat":
        es = [e for e in cat.LIST if e.group == g]
        n = dict(cl=4, cosmo=12, gamma=3, kernel=3).get(g, 1)
        for e in es[int(i) :: n]:
            entry(ctx, e)
    elif kind == "grid":
        grid(ctx, g, int(i))
    else:
        inputs(ctx, int(i))


def both(ctx, key, f, rtol=1e-3, atol=0.0, zero=False, labels=None):
    """f() in single and double precision."""
    r = ctx.call(key, lambda: jax.tree_util.tree_leaves(f()))
    with jax.enable_x64(True):
        w = ctx.call(key + " (double)", lambda: jax.tree_util.tree_leaves(f()))
    if isinstance(r, Bad) or isinstance(w, Bad):
        return
    for n, (x, y) in enumerate(zip(r, w)):
        y = onp.asarray(y)
        want32, want64 = getattr(x, "dtype", onp.float32), getattr(y, "dtype", onp.float64)
        ctx.true(key, onp.dtype(want32).kind == "f" and onp.dtype(want64).kind == "f", "results are %s and %s" % (want32, want64))
        ctx.add("compared_float32_with_float64", onp.dtype(want32) == onp.float32 and onp.dtype(want64) == onp.float64)
        ctx.true(key, onp.isfinite(onp.asarray(x)).all(), "not finite in single precision: %s" % (x,))
        at = atol + (rtol * onp.abs(y).max() if zero else 0.0)
        ctx.close(key, onp.asarray(x, float), y, rtol=rtol, atol=at, what="single against double precision", labels=labels)


WIDE = dict(ell=onp.array([2.0, 3.0, 30.0, 400.0, 10000.0]))


def entry(ctx, e):
    zero = e.group in ("nz", "bias", "spline", "sparse", "kernel", "cl", "clnl") or e.name in ("f_de", "w") or e.name.startswith("derived")
    compiled = jax.jit(lambda p, x: e.fn(e.build(p), x))
    for n, t in enumerate(e.thetas):
        if e.cost >= 2 and not ctx.thorough and n not in (0, 2):
            continue
        for m, x in enumerate(widen(e)):
            if n and m and e.cost >= 2:
                continue
            key = "%s at %d, points %d" % (e.name, n, m)
            if not ctx.case(key):
                continue
            p = TREE(lambda v: float(v) if onp.ndim(v) == 0 else onp.asarray(v), t)
            f = lambda: compiled(p, TREE(jnp.asarray, x))
            if e.cost < 2 and m == 0:
                f = lambda: e.fn(e.build(TREE(lambda v: v if onp.ndim(v) == 0 else jnp.asarray(v), p)), TREE(jnp.asarray, x))
            both(ctx, key, f, zero=zero)
    if e.diff:
        derivative(ctx, e)


def derivative(ctx, e):
    """Derivatives with respect to all parameters (one combination of them for heavy functions)."""
    if (e.cost >= 3 or e.name.startswith(("nonlinear", "linear")) and e.name not in ("nonlinear_matter_power", "linear_matter_power")) and not ctx.thorough:
        return
    un = {}

    def g(q, x):
        return jnp.ravel(e.fn(e.build(un[q.dtype.itemsize](q)), x))

    if e.cost < 2:
        d = jax.jit(lambda p, x: jax.jacfwd(g)(p, x))
    else:
        d = jax.jit(lambda p, x: jax.jvp(lambda q: g(q, x), (p,), (jnp.maximum(jnp.abs(p), 0.1),))[1])
    for n, t in enumerate(e.thetas[:: 1 if e.cost < 2 else 2]):
        key = "%s derivative at %d" % (e.name, n)
        if not ctx.case(key):
            continue

        def f():
            p, u = ravel_pytree(TREE(jnp.asarray, t))
            un.setdefault(p.dtype.itemsize, u)
            return d(p, TREE(jnp.asarray, e.x))

        both(ctx, key, f, rtol=1e-2, zero=True)


def widen(e):
    yield e.x
    if e.x is cat.A and e.name != "radial_comoving_distance(log10_amin=-2,steps=64)":
        yield A
    elif e.x is cat.KS:
        yield K
    elif e.x is cat.ELL:
        yield WIDE["ell"]
    elif e.x is cat.Z:
        yield onp.linspace(0.001, 3.9, 40)
    elif isinstance(e.x, tuple):
        yield (onp.tile(K[::10], 4), onp.repeat([1.0, 0.6, 0.2, 0.05], len(K[::10])))


# ---- grids of parameters
def params(k, gamma=None):
    ps = [p for p in (dict(p, gamma=gamma) for p in lattice(jx.ALPHA, k)) if jx.physical(p)]
    return ps


def over(ctx, key, fn, ps, x, rtol=1e-3, zero=False, size=128):
    def go():
        return jx.run_over(ctx, key, fn, ps, (x,), size)

    if not ctx.case(key):
        return
    ctx.points(len(ps) * x.shape[-1])
    both(ctx, key, go, rtol=rtol, zero=zero, labels=lambda i: (jx.short(ps[i[0]]), [float(v) for v in x.reshape(-1, x.shape[-1])[:, i[-1]]] if len(i) > 1 else None))


def grid(ctx, part, i):
    T = ctx.thorough
    if part == "bg":
        ps = params(3 if T else 2)
        for f in (bg.w, bg.f_de, bg.Esqr, bg.H, bg.Omega_m_a, bg.Omega_de_a, bg.dchioverda):
            over(ctx, f.__name__, f, ps, A, zero=f in (bg.w, bg.f_de))
    elif part == "table":
        ps = params(2)
        for f in (bg.radial_comoving_distance, bg.transverse_comoving_distance, bg.angular_diameter_distance):
            over(ctx, f.__name__, f, ps, A[:-1])
        for f in (bg.growth_factor, bg.growth_rate):
            over(ctx, f.__name__, f, ps, A)
        over(ctx, "a_of_chi", bg.a_of_chi, ps, onp.geomspace(10.0, 5000.0, 40))
    elif part == "gamma":
        for g in (0.3, 0.55, 0.8):
            ps = params(2 if T else 1, g)
            for f in (bg.growth_factor, bg.growth_rate, bg.radial_comoving_distance):
                over(ctx, "%s gamma=%g" % (f.__name__, g), f, ps, A[:-1])
    elif part == "transfer":
        ps = params(2)
        for kind in ("eisenhu_osc", "eisenhu"):
            over(ctx, "Eisenstein_Hu " + kind, lambda c, k, kind=kind: transfer.Eisenstein_Hu(c, k, kind), ps, K, size=64)
        over(ctx, "primordial", power.primordial_matter_power, ps, K)
    else:
        ps = params(2 if T else 1)
        fn = [
            ("linear", lambda c, k: power.linear_matter_power(c, k, 0.7)),
            ("linear nowiggle", lambda c, k: power.linear_matter_power(c, k, 0.2, type="eisenhu")),
            ("halofit", lambda c, k: power.nonlinear_matter_power(c, k, 0.8)),
            ("smith2003", lambda c, k: power.nonlinear_matter_power(c, k, 0.5, nonlinear_fn=lambda c, k, a, transfer_fn: power.halofit(c, k, a, transfer_fn, prescription="smith2003"))),
        ][i]
        over(ctx, fn[0], fn[1], ps, K[::2], size=16)


# ---- kinds of numbers
def inputs(ctx, part):
    """Integers, Python numbers and arrays of either precision give the same values, as floating point."""
    c = lambda: jc.Planck15()
    ci = lambda: jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=1, sigma8=1, Omega_k=0, w0=-1, wa=0)
    cf = lambda: jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=1.0, sigma8=1.0, Omega_k=0.0, w0=-1.0, wa=0.0)
    sm = lambda: rs.smail_nz(1.0, 2.0, 1.0, zmax=4.0)
    smi = lambda: rs.smail_nz(1, 2, 1, zmax=4)
    kd = lambda: rs.kde_nz(jnp.array([0.5, 1.5, 2.0]), jnp.array([1.0, 2.0, 1.0]), bw=0.3, zmax=4.0)
    sh = lambda: rs.systematic_shift(sm(), 0.1, zmax=4.0)
    wl = lambda n=sm: probes.WeakLensing([n()], ia_bias=bias.des_y1_ia_bias(1.0, -1.0, 0.62))
    nc = lambda n=sm: probes.NumberCounts([n()], bias.constant_linear_bias(1.0))
    nl = cat.plin
    ints = [1, 2, 3]
    ells = [2, 30, 216, 500, 10000]
    cases = [
        ("smail", ints, lambda x: sm()(x)),
        ("smail integer parameters", ints, lambda x: smi()(x)),
        ("kde", ints, lambda x: kd()(x)),
        ("shift", ints, lambda x: sh()(x)),
        ("linear power", ints, lambda x: power.linear_matter_power(c(), x, 0.5)),
        ("linear power, integer a", ints, lambda x: power.linear_matter_power(c(), x, 1)),
        ("transfer", ints, lambda x: transfer.Eisenstein_Hu(c(), x)),
        ("primordial", ints, lambda x: power.primordial_matter_power(c(), x)),
        ("integer parameters: power", [0.1, 0.5], lambda x: power.linear_matter_power(ci(), x, 0.5)),
        ("integer parameters: distance", [0.1, 0.5], lambda x: bg.transverse_comoving_distance(ci(), x)),
        ("integer parameters: growth", [0.1, 0.5], lambda x: (bg.growth_factor(ci(), x), bg.growth_rate(ci(), x))),
        ("a2z", [0.1, 0.5, 1.0], a2z),
        ("z2a", ints, z2a),
        ("a_of_chi", [100, 2000, 5000], lambda x: bg.a_of_chi(c(), x)),
        ("wl kernel in z", ints, lambda x: wl().kernel(c(), x, 500)),
        ("nc kernel in z", ints, lambda x: nc().kernel(c(), x, 500)),
        ("spline", ints, lambda x: jc.scipy.interpolate.InterpolatedUnivariateSpline(jnp.arange(6), jnp.array([0, 3, 1, 2, 5, 4]), k=3)(x)),
    ]
    heavy = [
        ("wl kernel in ell", ells, lambda x: jnp.stack([wl().kernel(c(), jnp.array([0.5, 1.0]), e) for e in x])),
        ("wl angular_cl", ells, lambda x: angular_cl(c(), x, [wl()], nonlinear_fn=nl)),
        ("nc angular_cl", ells, lambda x: angular_cl(c(), x, [nc()], nonlinear_fn=nl)),
        ("covariance", ells, lambda x: gaussian_cl_covariance_and_mean(c(), x, [wl(), nc()], nonlinear_fn=nl, sparse=True)),
        ("noise_cl", ells, lambda x: noise_cl(x, [wl(), nc()])),
    ]
    cs = cases[::2] if part == 0 else cases[1::2] if part == 1 else heavy
    for name, xs, f in cs:
        with jax.enable_x64(True):
            want = ctx.call(name, lambda: jax.tree_util.tree_leaves(f(jnp.asarray(xs, float))))
        if isinstance(want, Bad):
            continue
        for kind, x in (
            ("int32", onp.asarray(xs, onp.int32)),
            ("int64", onp.asarray(xs, onp.int64)),
            ("float32", onp.asarray(xs, onp.float32)),
            ("float64", onp.asarray(xs, float)),
        ):
            if kind.startswith("int") and any(isinstance(v, float) for v in xs):
                continue
            for wide in (False, True):
                key = "%s of %s %s" % (name, kind, "double" if wide else "single")
                if not ctx.case(key):
                    continue
                with jax.enable_x64(wide):
                    r = ctx.call(key, lambda: jax.tree_util.tree_leaves(f(jnp.asarray(x))))
                if isinstance(r, Bad):
                    continue
                for g, w in zip(r, want):
                    ctx.true(key, getattr(g, "dtype", onp.dtype(float)).kind == "f", "result is %s" % getattr(g, "dtype", type(g)))
                    ctx.close(key, onp.asarray(g, float), onp.asarray(w), rtol=1e-3, atol=1e-3 * onp.abs(onp.asarray(w)).max(), what="against double precision")
        # one number at a time
        if part < 2:
            for v in xs:
                for kind, s in (("number", v), ("float", float(v))):
                    key = "%s of %s %r" % (name, kind, v)
                    if not ctx.case(key):
                        continue
                    r = ctx.call(key, lambda: jax.tree_util.tree_leaves(f(s)))
                    if isinstance(r, Bad):
                        continue
                    for g, w in zip(r, want):
                        w = onp.asarray(w)
                        ctx.close(key, onp.asarray(g, float).ravel(), onp.take(w, xs.index(v), axis=w.ndim - 1).ravel(), rtol=1e-3, atol=1e-3 * onp.abs(w).max(), what="one number against double precision")
