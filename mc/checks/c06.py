"""C06: forward and reverse mode derivatives of every public function, at every parameter letter, against differences."""
import jax
import jax.numpy as jnp
import numpy as onp
from jax.flatten_util import ravel_pytree

from mc import cat
from mc.lib import Bad

TREE = jax.tree_util.tree_map
DIFF = [e for e in cat.LIST if e.diff]
BOUNDS = dict(
    quick="%d differentiable functions (5 variants of power spectra and one of angular_cl less), all parameters, 2 to 7 parameter letters each (flat, open, closed, nearly flat, w0=-1 and not, wa=0 and not, growth index): reverse mode through the objects, forward mode through numbers, derivatives in the points; second derivatives of functions without tables and of distances and growth; heavy functions in forward mode" % len(DIFF),
    thorough="all modes for all functions, uncompiled as well as compiled; second derivatives of all but the heavy functions",
)
ASSUMPTIONS = ["the reference is a Richardson extrapolated central difference of the same function in double precision; it is trusted where two step sizes agree"]
GROUPS = dict(clnl=1, cl=6, cosmo=16, gamma=5, kernel=6, spline=5, nz=3, sparse=4, bias=3)
# growth and distances are differentiated twice
TWICE = ("radial_comoving_distance", "transverse_comoving_distance", "growth_factor", "growth_factor (gamma)", "growth_rate (gamma)")

LATER = ("linear_matter_power(k)", "linear_matter_power(k, a=0.7)", "nonlinear_matter_power(k, a=0.7)", "nonlinear_matter_power (gamma)", "angular_cl(nz, user power)")


def shards(tier):
    return ["%s:%d" % (g, i) for g, n in GROUPS.items() for i in range(n)]


def run(ctx, shard):
    g, i = shard.split(":")
    es = [e for e in DIFF if e.group == g]
    if not ctx.thorough:
        es = [e for e in es if e.name not in LATER]
    es.sort(key=lambda e: -e.cost)
    for e in es[int(i) :: GROUPS[g]]:
        entry(ctx, e)


def letters(e):
    """Parameter letters: those of the catalogue and, for cosmologies, the special values of dark energy with curvature."""
    ts = list(e.thetas)
    if e.group in ("cosmo", "gamma") and e.cost < 2:
        ts += [dict(ts[0], Omega_k=0.0, w0=-1.0, wa=0.2), dict(ts[0], Omega_k=-1e-6), dict(ts[0], Omega_k=1e-6)]
    return ts


def difference(f, p, size=None, steps=(1e-3, 2e-4, 4e-5)):
    """Jacobian of f by Richardson extrapolated central differences, and its estimated error."""
    cols, errs = [], []
    for i in range(len(p)):
        est = []
        for h in steps:
            s = h * (max(abs(p[i]), 0.1) if size is None else size[i])
            d = [None, None]
            for j, q in enumerate((s, s / 2)):
                e = onp.zeros(len(p))
                e[i] = q
                d[j] = (onp.asarray(f(p + e)) - onp.asarray(f(p - e))) / (2 * q)
            est.append((4 * d[1] - d[0]) / 3)
        est = onp.stack(est)
        # of the three estimates take the one closest to a neighbour
        gaps = onp.abs(onp.diff(est, axis=0))
        best = onp.argmin(gaps, axis=0)
        cols.append(onp.take_along_axis(est[1:], best[None], 0)[0])
        errs.append(onp.take_along_axis(gaps, best[None], 0)[0])
    return onp.stack(cols, -1), onp.stack(errs, -1)


def directions(p, k):
    """k directions in the space of the parameters, each with a part in every one of them."""
    i = onp.arange(len(p))[:, None]
    return (0.6 + 0.4 * onp.cos(1.7 * (i + 1) * (onp.arange(k) + 1))) * (-1.0) ** (i // (onp.arange(k) + 1)) * onp.maximum(onp.abs(p), 0.1)[:, None] * 0.3


def weights(v, k):
    """k weighted sums of the outputs, none of which is left out."""
    i = onp.arange(len(v))
    return (0.6 + 0.4 * onp.cos(2.3 * (i + 1) * (onp.arange(k)[:, None] + 1))) / max(onp.abs(v).max(), 1e-300)


def entry(ctx, e):
    x0 = TREE(jnp.asarray, e.x)
    p0, unravel = ravel_pytree(TREE(jnp.asarray, e.thetas[0]))
    names = names_of(e.thetas[0])
    flat = lambda p, x: jnp.ravel(e.fn(e.build(unravel(p)), x))
    f = jax.jit(flat)
    heavy = e.cost >= 3 or e.name.startswith("nonlinear")
    part = e.cost >= 2 and not ctx.thorough or e.group == "clnl"  # directional derivatives and sums of outputs only
    v0 = onp.asarray(f(p0, x0))
    D = directions(onp.asarray(p0), 3) if part else onp.eye(len(p0))
    if part:
        names = ["direction %d" % i for i in range(3)]
    few = part or len(v0) > 12
    W = weights(v0, 3) if few else onp.eye(len(v0))
    fwd = jax.jit(lambda p, x: jax.jacfwd(lambda s: flat(p + D @ s, x))(jnp.zeros(D.shape[1])))
    rev = None
    if not heavy and (e.cost < 2 or "user" in e.name or "sparse=True" in e.name) or ctx.thorough and e.group != "clnl":
        rev = jax.jit(jax.jacrev(lambda o, x: W @ jnp.ravel(e.fn(o, x))))
    labels = label(e)
    ts = letters(e)
    if heavy and not ctx.thorough:
        ts = [ts[0], ts[2]] if e.cost < 3 else ts[:1]
    elif e.cost == 2 and not ctx.thorough:
        ts = ts[:3]
    for n, t in enumerate(ts):
        key = "%s at %d" % (e.name, n)
        if not ctx.case(key):
            continue
        p = onp.asarray(ravel_pytree(TREE(jnp.asarray, t))[0])
        unit = not part
        J, err = difference(lambda s: f(p + D @ s, x0), onp.zeros(D.shape[1]), onp.maximum(onp.abs(p), 0.1) if unit else onp.ones(3))
        v = onp.asarray(f(p, x0))
        ctx.step(12 * D.shape[1])
        lab = lambda i: "output %d, derivative in %s" % (i[0], names[i[1]])
        atol = tol(J, err, v)
        got = ctx.call(key, lambda: onp.asarray(fwd(p, x0)))
        if not isinstance(got, Bad):
            ctx.close(key + " forward", got, J, rtol=1e-5, atol=atol, what="forward mode", labels=lab)
        WJ, Wtol = W @ J, onp.abs(W) @ (atol + 1e-5 * onp.abs(J)) + 1e-13
        if few:
            lab = lambda i: "sum %d of outputs, derivative in %s" % (i[0], names[i[1]])

        def reverse(g, what):
            got = ctx.call(key, g)
            if not isinstance(got, Bad):
                ctx.close(key + " reverse", got @ D, WJ, rtol=1e-5, atol=Wtol, what=what, labels=lab)

        if rev is not None:
            if labels is None:
                reverse(lambda: onp.asarray(jax.jit(jax.jacrev(lambda q: W @ flat(q, x0)))(p)), "reverse mode")
            else:
                reverse(lambda: gather(rev(e.build(num(t)), x0), labels, len(p)), "reverse mode through the objects")
        if ctx.thorough and not heavy and e.cost < 2:
            reverse(lambda: onp.asarray(jax.jacrev(lambda q: W @ flat(q, x0))(p)), "uncompiled reverse mode")
        if abs(t.get("Omega_k", 1)) != 1e-6:  # closer to flat rounding dominates second derivatives
            if e.cost == 0 and e.group != "spline" or e.name in TWICE or ctx.thorough and not heavy and e.cost < 2:
                # a node of the quadrature lies where the second derivative jumps
                second(ctx, e, key, flat, p, x0, names, t.get("dz") == 0.0 and t["a"] < 3)
    if e.axes and not heavy and e.group not in ("cl", "clnl"):
        points(ctx, e, flat, p0, x0)


def tol(J, err, v):
    s = onp.abs(J).max(axis=0, keepdims=True) if J.size else 0.0
    return 3 * err + 1e-8 * s + 1e-10 * (onp.abs(v).max() if v.size else 0.0) + 1e-12


_cache = {}


def second(ctx, e, key, flat, p, x0, names, kink):
    if e.name not in _cache:
        _cache[e.name] = jax.jit(jax.jacfwd(flat)), jax.jit(jax.jacfwd(jax.jacrev(flat)))
    first, hess = _cache[e.name]
    H, err = difference(lambda q: first(q, x0), p)
    got = ctx.call(key, lambda: onp.asarray(hess(p, x0)))
    ctx.step(12 * len(p))
    if isinstance(got, Bad):
        return
    if not ctx.true(key + " second", onp.isfinite(got).all(), "second derivatives are not finite", got=got):
        return
    if kink:
        return
    s = onp.abs(H).max() if H.size else 0.0
    bad = ~(err < 1e-2 * s + 1e-8)  # no limit of differences, as at a kink
    if bad.any():
        ctx.add("second_derivatives_without_limit", bad.sum())
        H, got = onp.where(bad, 0.0, H), onp.where(bad, 0.0, got)
        err = onp.where(bad, 0.0, err)
        s = onp.abs(H).max() if H.size else 0.0
    ctx.close(key + " second", got, H, rtol=1e-4, atol=3 * err + 1e-7 * s + 1e-10, what="second derivative",
              labels=lambda i: "output %d, in %s and %s" % (i[0], names[i[1]], names[i[2]]))


def points(ctx, e, flat, p0, x0):
    """Derivatives in the points; output i depends on point i only (and on nothing else)."""
    key = "%s in the points" % e.name
    if not ctx.case(key):
        return
    q0, un = ravel_pytree(x0)
    inside = onp.asarray(q0) * (1 - 1e-3 * (onp.asarray(q0) == 1.0))  # away from the end of the tables
    g = lambda q: flat(p0, un(q))
    f = jax.jit(g)
    J, err = difference(f, inside, steps=(2e-4, 4e-5, 8e-6))
    v = onp.asarray(f(inside))
    ctx.step(12 * len(inside))
    for mode, d in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
        got = ctx.call(key, lambda: onp.asarray(jax.jit(d(g))(inside)))
        if not isinstance(got, Bad):
            ctx.close(key + " " + mode, got, J, rtol=1e-5, atol=tol(J, err, v), what=mode + " mode",
                      labels=lambda i: "output %d, derivative in point %d" % i)


# ---- leaves of objects and the numbers they are built from
def num(t):
    return TREE(lambda v: float(v) if onp.ndim(v) == 0 else jnp.asarray(v), t)


def names_of(t):
    out = []
    for k in sorted(t):
        out += [k] if onp.ndim(t[k]) == 0 else ["%s[%d]" % (k, i) for i in range(onp.size(t[k]))]
    return out


def label(e):
    """For each leaf of the objects the positions of its entries in the flat parameters (None: cannot tell)."""
    if e.group in ("spline", "sparse"):
        return None
    t, n = {}, 0
    for k in sorted(e.thetas[0]):
        v = onp.asarray(e.thetas[0][k])
        t[k] = (1000.0 + n + onp.arange(v.size).reshape(v.shape)) if v.ndim else 1000.0 + n
        n += v.size
    return [onp.round(onp.asarray(v, float)).astype(int) - 1000 for v in jax.tree_util.tree_leaves(e.build(t))]


def gather(jac, labels, n):
    leaves = jax.tree_util.tree_leaves(jac)
    out = None
    for v, lab in zip(leaves, labels):
        v = onp.asarray(v)
        m = v.shape[0]
        out = onp.zeros((m, n)) if out is None else out
        for i, k in enumerate(lab.ravel()):
            if k >= 0:
                out[:, k] += v.reshape(m, -1)[:, i]
    return out
