"""C01: objects rebuilt through JAX against the originals, over a constructor grammar x rebuild chains x single-argument changes."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from jax.flatten_util import ravel_pytree

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import bias, power, probes, redshift as rs
from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline
from mc import kern

BOUNDS = dict(
    quick="54 objects (cosmologies with/without growth index, 4 distributions with options and nested shifts, 3 biases, lensing with all 3x3x2 forms of alignment, calibration and ellipticity, clustering, splines, nestings) x all chains of up to 3 of 7 rebuild operations x every constructor argument changed alone",
    thorough="chains of up to 4 operations",
)
ASSUMPTIONS = ["objects are compared by tree structure, leaves, public attributes and evaluation"]
Z = onp.array([0.1, 0.4, 0.8, 1.5])


def kw_(spec, names):
    return {k: v for k, v in spec.items() if k in names}


# ---- objects: name -> (builder of numeric arguments, default arguments)
def objects():
    o = {}
    c8 = [0.24, 0.047, 0.71, 0.95, 0.81, 0.02, -0.9, 0.1]
    o["cosmology"] = (lambda *v: jc.Cosmology(*v), c8)
    o["cosmology named"] = (lambda a, b, c, d, e, f, g, h: jc.Cosmology(wa=h, w0=g, Omega_k=f, sigma8=e, n_s=d, h=c, Omega_b=b, Omega_c=a), c8)
    o["cosmology gamma"] = (lambda *v: jc.Cosmology(*v), c8 + [0.57])
    o["cosmology gamma 0"] = (lambda *v: jc.Cosmology(*v[:8], gamma=v[8]), c8 + [0.0])
    o["planck"] = (lambda w0, g: jc.Planck15(w0=w0, gamma=g), [-0.95, 0.6])
    for zm in (10.0, 3.0):
        o["smail zmax=%g" % zm] = (lambda a, b, z0, n, zm=zm: rs.smail_nz(a, b, z0, gals_per_arcmin2=n, zmax=zm), [1.2, 1.9, 0.7, 5.0])
    o["smail default"] = (lambda a, b, z0: rs.smail_nz(a, b, z0), [1.2, 1.9, 0.7])
    for bw in (0.1, 0.3):
        o["kde bw=%g" % bw] = (lambda z1, w1, n, bw=bw: rs.kde_nz(z1 * jnp.array([1.0, 1.5, 2.0]), w1 * jnp.array([1.0, 0.5, 0.7]) ** 2, bw=bw, gals_per_arcmin2=n, zmax=4.0), [0.4, 0.9, 3.0])
    o["plane"] = (lambda z0, n: rs.delta_nz(z0, gals_per_arcmin2=n, zmax=5.0), [0.8, 7.0])
    o["shift"] = (lambda a, b, z0, n, s, m: rs.systematic_shift(rs.smail_nz(a, b, z0, gals_per_arcmin2=n, zmax=4.0), s, gals_per_arcmin2=m, zmax=6.0), [1.2, 1.9, 0.7, 5.0, 0.1, 8.0])
    o["shift of shift"] = (lambda a, b, z0, s, t: rs.systematic_shift(rs.systematic_shift(rs.smail_nz(a, b, z0), s), t, zmax=6.0), [1.2, 1.9, 0.7, 0.1, -0.05])
    o["constant bias"] = (lambda b: bias.constant_linear_bias(b), [1.3])
    o["growth bias"] = (lambda b: bias.inverse_growth_linear_bias(b), [1.3])
    o["des bias"] = (lambda a, e, z: bias.des_y1_ia_bias(a, e, z), [0.5, -1.1, 0.6])
    for nb, ia, m, se in itertools.product((1, 2), ("none", "single", "list"), ("default", "single", "list"), ("common", "list")):
        if nb == 1 and se == "list" and m != "list":
            continue
        o["lensing %d ia=%s m=%s sigma=%s" % (nb, ia, m, se)] = lensing(nb, ia, m, se)
    o["lensing planes"] = (lambda a, b, z0, z1, n, m1, m2: probes.WeakLensing([rs.delta_nz(z1, gals_per_arcmin2=n), rs.smail_nz(a, b, z0)], multiplicative_bias=[m1, m2]), [1.2, 1.9, 0.7, 0.9, 4.0, 0.1, -0.2])
    for form in ("single", "list"):
        for rsd in (None, False):
            o["clustering %s %s" % (form, rsd)] = clustering(form, rsd)
    o["nested tuple"] = (lambda a, b, c: (jc.Planck15(h=a), [rs.smail_nz(1.0, 2.0, b), bias.constant_linear_bias(c)]), [0.71, 0.8, 1.4])
    o["nested dict"] = (lambda g, s: {"p": probes.NumberCounts([rs.smail_nz(1.0, 2.0, s)], bias.constant_linear_bias(1.2)), "c": jc.Planck15(gamma=g)}, [0.5, 0.9])
    return o


def lensing(nb, ia, m, se):
    args = [1.2, 1.9, 0.7, 5.0] + ([1.5, 2.1, 0.4, 9.0] if nb == 2 else [])
    n0 = len(args)
    args += dict(none=[], single=[0.8, -1.2, 0.5], list=[0.8, -1.2, 0.5][: 1] + ([0.6] if nb == 2 else []))[ia]
    n1 = len(args)
    args += dict(default=[], single=[0.07], list=[0.07, -0.04][:nb])[m]

    def build(*v):
        b = [rs.smail_nz(*v[:3], gals_per_arcmin2=v[3], zmax=4.0)]
        if nb == 2:
            b.append(rs.smail_nz(*v[4:7], gals_per_arcmin2=v[7], zmax=5.0))
        kw = {}
        if ia == "single":
            kw["ia_bias"] = bias.des_y1_ia_bias(*v[n0:n1])
        elif ia == "list":
            kw["ia_bias"] = [bias.constant_linear_bias(v[n0])] + ([bias.inverse_growth_linear_bias(v[n0 + 1])] if nb == 2 else [])
        if m == "single":
            kw["multiplicative_bias"] = v[n1]
        elif m == "list":
            kw["multiplicative_bias"] = list(v[n1:])
        kw["sigma_e"] = 0.31 if se == "common" else [0.2, 0.4][:nb]
        return probes.WeakLensing(b, **kw)

    return build, args


def clustering(form, rsd):
    def build(a, z0, n, c, z1, b1, b2):
        bins = [rs.smail_nz(a, 2.0, z0, gals_per_arcmin2=n), rs.smail_nz(c, 2.0, z1)]
        kw = {} if rsd is None else dict(has_rsd=rsd)
        if form == "single":
            return probes.NumberCounts(bins, bias.des_y1_ia_bias(b1, b2, 0.5), **kw)
        return probes.NumberCounts(bins, [bias.constant_linear_bias(b1), bias.inverse_growth_linear_bias(b2)], **kw)

    return build, [1.2, 0.7, 5.0, 1.5, 0.4, 1.3, 0.9]


# ---- observation
FID = jc.Planck15()
_g = jax.jit(lambda c, a: (bg.growth_factor(c, a), bg.growth_rate(c, a), power.linear_matter_power(c, jnp.array([0.01, 0.3]), 0.7)))


def observe(o, deep):
    """Everything a user can ask of the object, as a list of (name, value)."""
    if isinstance(o, (tuple, list)):
        return [("%d.%s" % (i, n), v) for i, x in enumerate(o) for n, v in observe(x, deep)]
    if isinstance(o, dict):
        return [("%s.%s" % (k, n), v) for k in sorted(o) for n, v in observe(o[k], deep)]
    if isinstance(o, jc.Cosmology):
        r = [(n, getattr(o, n)) for n in ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "Omega", "Omega_m", "Omega_de", "sqrtk")]
        r += [("gamma", -99.0 if o.gamma is None else o.gamma), ("H", bg.H(o, jnp.array([0.3, 0.6])))]
        if deep:
            a = jnp.array([0.3, 0.6])
            r += [("%d" % i, v) for i, v in enumerate(_g(o, a))]
            if deep > 1:
                r += [("growth", bg.growth_factor(o, a)), ("rate", bg.growth_rate(o, a)), ("distance", bg.transverse_comoving_distance(o, a))]
        return r
    if isinstance(o, rs.redshift_distribution):
        return [("nz", o(jnp.asarray(Z))), ("density", o.gals_per_arcmin2), ("density sr", o.gals_per_steradian), ("zmax", o.zmax)]
    if isinstance(o, (bias.constant_linear_bias, bias.inverse_growth_linear_bias, bias.des_y1_ia_bias)):
        return [("bias", o(FID, jnp.asarray(Z)))]
    if isinstance(o, (probes.WeakLensing, probes.NumberCounts)):
        r = [("n_tracers", o.n_tracers), ("zmax", o.zmax), ("noise", o.noise())]
        if deep:
            r += [("kernel", o.kernel(FID, jnp.asarray(Z), 30.0))]
        return r
    if isinstance(o, InterpolatedUnivariateSpline):
        x = jnp.array([-0.5, 0.3, 1.2, 2.6, 3.4, 5.0])
        return [("spline", o(x))] + [("derivative %d" % n, o.derivative(x, n)) for n in range(1, o.k + 1)] + [("integral", o.integral(0.2, 2.5))]
    raise TypeError(type(o))


# ---- rebuild operations
_j = jax.jit(lambda o: o)
_c = jax.jit(lambda o: jax.lax.cond(True, lambda x: x, lambda x: x, o))


def _r(o):
    l, t = jax.tree_util.tree_flatten(o)
    return jax.tree_util.tree_unflatten(t, l)


def _v(o):
    s = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), o)
    return jax.tree_util.tree_map(lambda x: x[1], jax.vmap(lambda x: x)(s))


def _s(o):
    o = jax.tree_util.tree_map(lambda x: jnp.asarray(x), o)
    return jax.lax.scan(lambda c, _: (c, None), o, None, length=2)[0]


def _l(o):
    f, un = ravel_pytree(o)
    return un(f)


OPS = dict(
    rebuild=_r,
    tree_map=lambda o: jax.tree_util.tree_map(lambda x: x, o),
    jit=_j,
    vmap=_v,
    ravel=_l,
    cond=_c,
    scan=_s,
)


def shards(tier):
    return ["objects:%d/%d" % (i, 14) for i in range(14)] + ["splines"]


def same(ctx, key, got, want, what):
    ctx.true(key, [n for n, _ in got] == [n for n, _ in want], "%s: different attributes" % what)
    for (n, g), (_, w) in zip(got, want):
        ctx.close(key, g, onp.asarray(w), rtol=1e-10, atol=1e-13, what="%s: %s" % (what, n), shape=False)


def chains(ctx, name, o, leafy=True):
    st = jax.tree_util.tree_structure(o)
    lv = [onp.asarray(x) for x in jax.tree_util.tree_leaves(o)]
    base = {d: ctx.call(name, observe, o, d) for d in (0, 1, 2)}
    if any(not isinstance(b, list) for b in base.values()):
        return
    cur = {(): o}
    for depth in range(1, (4 if ctx.thorough else 3) + 1):
        for ch in itertools.product(OPS, repeat=depth):
            key = "%s: %s" % (name, ".".join(ch))
            if ch[:-1] not in cur:
                continue
            ctx.step()
            r = ctx.call(key, OPS[ch[-1]], cur[ch[:-1]])
            if not ctx.case(key):
                cur[ch] = r
                continue
            if not ctx.true(key, type(r) is type(o), "became %r" % type(r)):
                continue
            cur[ch] = r
            ctx.true(key, jax.tree_util.tree_structure(r) == st, "tree structure changed to %s from %s" % (jax.tree_util.tree_structure(r), st))
            got = [onp.asarray(x) for x in jax.tree_util.tree_leaves(r)]
            ctx.true(key, len(got) == len(lv) and all(g.shape == w.shape and (g == w).all() for g, w in zip(got, lv)), "leaves changed", got=got, want=lv)
            d = 2 if depth == 1 else 1 if depth == 2 and ch[0] in ("rebuild", "jit") else 0
            if depth < 3 or name.split()[0] not in ("lensing", "clustering", "nested"):
                b = ctx.call(key, observe, r, d)
                if isinstance(b, list):
                    same(ctx, key, b, base[d], "after " + ".".join(ch))
    # differentiation with respect to the object returns an object of the same kind
    key = "%s: grad" % name
    if ctx.case(key):
        w = [float(i + 1) for i in range(len(lv))]
        f = lambda x: sum(jnp.sum(l) * c for l, c in zip(jax.tree_util.tree_leaves(x), w))
        g = ctx.call(key, lambda: jax.grad(f)(jax.tree_util.tree_map(lambda x: jnp.asarray(x, float), o)))
        if type(g) is type(o):
            ctx.true(key, jax.tree_util.tree_structure(g) == st, "structure of the gradient")
            gl = jax.tree_util.tree_leaves(g)
            ctx.true(key, all((onp.asarray(a) == c).all() for a, c in zip(gl, w)), "components of the gradient are permuted", got=gl)
        else:
            ctx.true(key, False, "gradient is %r" % (type(g),))


def run(ctx, shard):
    if shard == "splines":
        return splines(ctx)
    i, n = map(int, shard[8:].split("/"))
    for q, (name, (build, args)) in enumerate(objects().items()):
        if q % n != i:
            continue
        o = ctx.call(name, build, *args)
        chains(ctx, name, o)
        leaves, st = jax.tree_util.tree_flatten(o)
        used = {}
        for a in range(len(args)):
            key = "%s: argument %d" % (name, a)
            if not ctx.case(key):
                continue
            v = list(args)
            v[a] = v[a] * 1.07 + 0.013
            o2 = ctx.call(key, build, *v)
            l2, s2 = jax.tree_util.tree_flatten(o2)
            ctx.true(key, s2 == st, "tree structure depends on the value of an argument")
            diff = [j for j in range(min(len(leaves), len(l2))) if not onp.array_equal(onp.asarray(leaves[j]), onp.asarray(l2[j]))]
            if not ctx.true(key, len(diff) == 1 and len(l2) == len(leaves), "argument %d changes the leaves %s" % (a, diff)):
                continue
            ctx.true(key, diff[0] not in used, "leaf %d belongs to arguments %s and %d" % (diff[0], used.get(diff[0]), a))
            used[diff[0]] = a
            l3 = list(leaves)
            l3[diff[0]] = l2[diff[0]]
            o3 = ctx.call(key, jax.tree_util.tree_unflatten, st, l3)
            # a fresh object built with the argument changed, the rebuilt one, and the rebuilt one through jit
            want = ctx.call(key, observe, o2, 2)
            for what, x in (("leaf changed", o3), ("leaf changed, through jit", ctx.call(key, _j, o3))):
                got = ctx.call(key, observe, x, 2)
                if isinstance(got, list) and isinstance(want, list):
                    same(ctx, key, got, want, what)
            # the original is not affected
            ctx.true(key, all(onp.array_equal(onp.asarray(x), onp.asarray(y)) for x, y in zip(jax.tree_util.tree_leaves(o), leaves)), "the original changed")


def splines(ctx):
    x = jnp.array([0.0, 0.7, 1.1, 2.0, 3.2, 4.0])
    y = jnp.array([1.0, -0.3, 0.8, 2.2, 0.1, 0.5])
    for k, e in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural")):
        chains(ctx, "spline k=%d %s" % (k, e), InterpolatedUnivariateSpline(x, y, k=k, endpoints=e))
    s = [InterpolatedUnivariateSpline(x, y * j, k=2) for j in (1, 2)]
    chains(ctx, "nested splines", (s[0], {"a": s[1], "b": jc.Planck15(gamma=0.55)}))
