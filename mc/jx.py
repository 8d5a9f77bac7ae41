"""Helpers shared by the checks that run jax_cosmo."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
import jax_cosmo.background as bg

from mc import ref

NAMES = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")

# First letters are the fiducial model; the others are the special and unusual values.
ALPHA = dict(
    Omega_k=(0.0, 0.1, -0.1, 1e-3, -1e-3, 0.3, -0.2),
    w0=(-1.0, -0.8, -1.2),
    wa=(0.0, 0.3, -0.4),
    Omega_c=(0.25, 0.15, 0.45),
    Omega_b=(0.05, 0.02),
    h=(0.7, 0.5, 0.9),
    n_s=(0.96, 0.85, 1.1),
    sigma8=(0.8, 0.5, 1.2),
)


def cosmo(p):
    """Library object for a parameter dict (python floats, gamma optional)."""
    kw = {n: p[n] for n in NAMES}
    if p.get("gamma") is not None:
        kw["gamma"] = p["gamma"]
    return jc.Cosmology(**kw)


def stack(ps):
    """List of parameter dicts as one dict of arrays (no gamma key when unset)."""
    out = {n: onp.array([p[n] for p in ps], float) for n in NAMES}
    if ps and ps[0].get("gamma") is not None:
        out["gamma"] = onp.array([p["gamma"] for p in ps], float)
    return out


def over(fn):
    """fn(cosmo, *args) over a batch of parameter dicts: jit(vmap)."""

    def one(q, *args):
        return fn(jc.Cosmology(**q), *args)

    def run(q, *args):
        return jax.vmap(one, in_axes=(0,) + (None,) * len(args))(q, *args)

    return jax.jit(run)


def chunks(q, size):
    n = len(next(iter(q.values())))
    for i in range(0, n, size):
        yield slice(i, i + size), {k: v[i : i + size] for k, v in q.items()}


def run_over(ctx, key, fn, ps, args=(), size=256):
    """Evaluate over all parameter dicts in chunks of one size; stacked numpy result (tree)."""
    f = over(fn)
    q = stack(ps)
    n = len(ps)
    outs = []
    for sl, part in chunks(q, size):
        m = len(part["h"])
        if m < size and n > size:
            part = {k: onp.concatenate([v, onp.repeat(v[-1:], size - m, 0)]) for k, v in part.items()}
        r = ctx.call(key, lambda: jax.tree_util.tree_map(onp.asarray, f(part, *args)))
        if not isinstance(r, tuple) and not hasattr(r, "shape"):
            return r
        outs.append(jax.tree_util.tree_map(lambda v: v[:m], r))
    return jax.tree_util.tree_map(lambda *v: onp.concatenate(v), *outs)


def full(**kw):
    p = {n: ALPHA[n][0] for n in NAMES}
    p["gamma"] = None
    p.update(kw)
    return p


def short(p):
    """Only what deviates from the fiducial model."""
    f = full()
    return "{" + ",".join("%s=%g" % (k, v) for k, v in p.items() if v is not None and v != f.get(k)) + "}"


def cols(q):
    """Parameter arrays (P,) as (P,1) columns, to broadcast against points (A,)."""
    return {k: (v[:, None] if v is not None else None) for k, v in q.items()}


def physical(p):
    """The expansion rate is real and no bounce occurs over the tables' range."""
    a = onp.logspace(-3, 0, 60)
    e = ref.esqr(p, a)
    return bool((e > 1e-3).all()) and ref.om(p) > 0
