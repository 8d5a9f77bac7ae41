"""C28: the Runge-Kutta integrator on all small time grids, monomial and linear right-hand sides."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from jax_cosmo.scipy.ode import odeint

BOUNDS = dict(
    quick="all monotone grids of length 1..4 over 5 times in both directions, degrees 0..3, 3 state shapes, 8 linear systems, 5 order tests",
    thorough="all monotone grids of length 1..6 over 8 times in both directions, degrees 0..3, 3 state shapes, 8 linear systems, 5 order tests on 6 intervals",
)
ASSUMPTIONS = ["closed-form solutions; the RK4 stability polynomial 1+z+z^2/2+z^3/6+z^4/24", "measured order between 3.6 and 4.7 counts as fourth"]
TIMES = (-1.0, -0.25, 0.0, 0.6, 2.0, 2.5, 3.75, 5.0)


def grids(ctx, n):
    T = TIMES if ctx.thorough else TIMES[:5]
    for g in itertools.combinations_with_replacement(T, n):
        if len(set(g)) < max(1, n - 1):
            continue
        yield g
        if len(set(g)) > 1:
            yield g[::-1]


def shards(tier):
    m = 4 if tier == "quick" else 6
    return ["poly:%d" % n for n in range(1, m + 1)] + ["linear:%d" % n for n in range(1, m + 1)] + ["order", "direct"]


SHAPES = ((), (2,), (2, 2))


def poly(ctx, n):
    gs = list(grids(ctx, n))
    T = jnp.asarray(gs)
    for shape in SHAPES:
        y0 = onp.arange(1.0, 1.0 + max(1, int(onp.prod(shape)))).reshape(shape)
        w = onp.arange(2.0, 2.0 + max(1, int(onp.prod(shape)))).reshape(shape)
        for d in range(4):
            key = "degree %d, state shape %s, grids of length %d" % (d, shape, n)
            if not ctx.case(key):
                continue
            f = lambda y, t: jnp.asarray(w) * t**d
            r = ctx.call(key, lambda: onp.asarray(jax.jit(jax.vmap(lambda t: odeint(f, jnp.asarray(y0), t)))(T)))
            ctx.points(len(gs) - 1)
            t = onp.array(gs)
            P = (t ** (d + 1) - t[:, :1] ** (d + 1)) / (d + 1)
            want = y0 + P.reshape(P.shape + (1,) * len(shape)) * w
            ctx.close(key, r, want, rtol=1e-12, atol=1e-10, what="trajectory", labels=lambda i: gs[i[0]])


def mats():
    yield "decay", onp.array([[-1.0]])
    yield "growth", onp.array([[0.7]])
    yield "rotation", onp.array([[0.0, 1.0], [-1.0, 0.0]])
    yield "coupled", onp.array([[0.2, -0.5], [1.0, 0.1]])
    yield "upper", onp.array([[0.3, 1.0], [0.0, -0.4]])
    yield "lower", onp.array([[0.3, 0.0], [-2.0, 0.5]])
    yield "nilpotent", onp.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]])
    yield "cyclic", onp.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]])


def linear(ctx, n):
    gs = list(grids(ctx, n))
    T = jnp.asarray(gs)
    for name, A in mats():
        key = "linear %s, grids of length %d" % (name, n)
        if not ctx.case(key):
            continue
        y0 = onp.arange(1.0, 1.0 + len(A))
        r = ctx.call(key, lambda: onp.asarray(jax.jit(jax.vmap(lambda t: odeint(lambda y, x: jnp.asarray(A) @ y, jnp.asarray(y0), t)))(T)))
        ctx.points(len(gs) - 1)
        want = []
        for g in gs:
            y, out = y0, [y0]
            for h in onp.diff(g):
                Z = h * A
                R = onp.eye(len(A)) + Z + Z @ Z / 2 + Z @ Z @ Z / 6 + Z @ Z @ Z @ Z / 24
                y = R @ y
                out.append(y)
            want.append(out)
        ctx.close(key, r, onp.array(want), rtol=1e-11, atol=1e-10, what="trajectory", labels=lambda i: gs[i[0]])


PROBLEMS = (
    ("y'=-y^2", lambda y, t: -(y**2), lambda t: 1 / (1 + t), 1.0),
    ("y'=t y", lambda y, t: t * y, lambda t: onp.exp(t * t / 2), 1.0),
    ("y'=y cos t", lambda y, t: y * jnp.cos(t), lambda t: onp.exp(onp.sin(t)), 1.0),
    ("y'=y+t^4", lambda y, t: y + t**4, lambda t: 25 * onp.exp(t) - (t**4 + 4 * t**3 + 12 * t**2 + 24 * t + 24), 1.0),
    ("y'=t/y", lambda y, t: t / y, lambda t: onp.sqrt(1 + t * t), 1.0),
)


def order(ctx):
    ends = (0.8, 1.3, -0.6) + ((-0.8, 0.4, 1.6) if ctx.thorough else ())
    for (name, f, sol, y0), T in itertools.product(PROBLEMS, ends):
        for warp in (1.0, 1.5):
            key = "order %s to %g warp %g" % (name, T, warp)
            if not ctx.case(key):
                continue
            errs = []
            for N in (16, 32, 64):
                t = T * onp.linspace(0, 1, N + 1) ** warp
                r = ctx.call(key, lambda: onp.asarray(odeint(f, y0, jnp.asarray(t))))
                if not hasattr(r, "shape") or not ctx.true(key, r.shape == t.shape, "shape %s for %d times" % (r.shape, len(t))):
                    return
                errs.append(onp.abs(r - sol(t)).max())
            ctx.close(key, errs[-1], 0.0, rtol=0, atol=1e-6, what="error with 64 steps")
            # fourth order: each halving of the steps divides the error by about 16
            ok = all(e1 < 1e-12 or e0 / max(e1, 1e-300) > 11.5 for e0, e1 in zip(errs, errs[1:]))
            ctx.true(key, ok, "errors %s do not fall with the fourth power of the step" % (errs,))


def direct(ctx):
    """The eager function with the argument forms the library uses."""
    for n in (1, 2, 3, 4):
        for g in list(grids(ctx, n))[:: 1 if ctx.thorough else 3]:
            key = "direct %s" % (g,)
            if not ctx.case(key):
                continue
            r = ctx.call(key, odeint, lambda y, t: 3 * t**2 + 1, 0.0, jnp.asarray(g))
            t = onp.array(g)
            ctx.close(key, r, t**3 + t - t[0] ** 3 - t[0], rtol=1e-12, atol=1e-10, what="trajectory from y0=0.0")
            r = ctx.call(key, odeint, lambda y, t: jnp.array([y[1], 6 * t]), jnp.array([1.0, 2.0]), jnp.asarray(g))
            ctx.close(key, r, onp.stack(second(t), -1),
                      rtol=1e-11, atol=1e-10, what="second order equation")


def second(t):
    # y'' = 6 t from (1, 2): exact for the rule, cubic in time
    v = 2 + 3 * (t**2 - t[0] ** 2)
    y = 1 + (2 - 3 * t[0] ** 2) * (t - t[0]) + (t**3 - t[0] ** 3)
    return y, v


def run(ctx, shard):
    name, _, n = shard.partition(":")
    {"poly": poly, "linear": linear}[name](ctx, int(n)) if n else {"order": order, "direct": direct}[name](ctx)
