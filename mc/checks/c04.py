"""C04: an exception at every executed library line of every operation, and in user functions, followed by every operation."""
import jax
import jax.numpy as jnp
import numpy as onp
from jax.tree_util import register_pytree_node_class

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import bias, power, probes, redshift as rs, transfer
from jax_cosmo.angular_cl import angular_cl
from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline
from mc import fault
from mc.checks import c02
from mc.checks.c02 import World, leaves
from mc.checks.c03 import positions
from mc.lib import Bad

BOUNDS = dict(
    quick="10 operations on cosmologies (ODE growth), 5 (growth index), 7 on 3 kinds of distributions, 4 on splines: KeyboardInterrupt at the first and last execution of every library line, and pairs of faults at every first execution for 3 operations, each followed by the same and 3 to 5 other operations; user functions (transfer, power, bias, distribution) that raise at each of their calls",
    thorough="a fault at every executed line (all executions), with KeyboardInterrupt and MemoryError, pairs of faults for all operations",
)
ASSUMPTIONS = ["exceptions are raised at line boundaries of the library and in functions supplied by the user; the JAX runtime is assumed exception safe"]
COSMO = {k: c02.MORE[k] for k in ("chi", "chi_lo", "inv", "growth", "rate", "trans", "jit_chi", "vmap_growth", "grad_a", "arg")}
GAMMA = {k: c02.MORE[k] for k in ("chi", "growth", "rate", "jit_growth", "vmap_growth")}
NZ = {k: c02.NZ[k] for k in ("call", "scalar", "jit", "vmap", "grad", "child")}
NZ["density"] = lambda w: (w.z.gals_per_steradian, w.z.zmax)
FOLLOW = dict(cosmo=("chi", "growth", "rate", "inv", "jit_chi"), gamma=("growth", "rate", "chi"), nz=("call", "child", "jit", "density"))


class Splines:
    def __init__(self, **k):
        x = jnp.array([0.0, 0.7, 1.1, 2.0, 3.2, 4.0])
        y = jnp.array([1.0, -0.3, 0.8, 2.2, 0.1, 0.5])
        self.s = [InterpolatedUnivariateSpline(x, y, k=j, endpoints=e) for j, e in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "natural"))]


X = jnp.array([-0.2, 0.5, 2.2, 4.4])
SPL = dict(
    call=lambda w: [s(X) for s in w.s],
    derivative=lambda w: [s.derivative(X, 1) for s in w.s],
    antiderivative=lambda w: [s.antiderivative(X) for s in w.s],
    integral=lambda w: [s.integral(0.3, 2.9) for s in w.s],
)
FOLLOW["spline"] = tuple(SPL)


def shards(tier):
    out = ["user:power", "user:cl", "user:kernel", "twice:growth", "twice:chi", "twice:nz"] + ["cosmo:%s" % o for o in COSMO] + ["gamma:%s" % o for o in GAMMA]
    out += ["nz:%s" % k for k in ("smail", "kde", "shift")] + ["spline:0"]
    if tier == "thorough":
        out += ["twice:" + o for o in ("inv", "rate", "trans", "jit_chi")]
    return out


def run(ctx, shard):
    kind, a = shard.split(":")
    if kind == "user":
        return user(ctx, a)
    if kind == "cosmo":
        faults(ctx, "cosmo", a, COSMO, lambda: World(), FOLLOW["cosmo"])
    elif kind == "gamma":
        faults(ctx, "gamma", a, GAMMA, lambda: World(gamma=0.5), FOLLOW["gamma"])
    elif kind == "nz":
        for o in NZ:
            faults(ctx, "nz " + a, o, NZ, lambda: World(kind=a), FOLLOW["nz"])
    elif kind == "spline":
        for o in SPL:
            faults(ctx, "spline", o, SPL, Splines, FOLLOW["spline"])
    elif a == "nz":
        faults(ctx, "nz twice", "call", NZ, lambda: World(kind="shift"), FOLLOW["nz"][:2], twice=True)
    else:
        faults(ctx, "cosmo twice", a, COSMO, lambda: World(), ("chi", "growth"), twice=True)


def trial(op, w, n, exc):
    """Run the operation with a fault at line n; (fired, value or None)."""
    with fault.Fault(n, exc) as f:
        try:
            v = leaves(op(w))
        except exc:
            v = None
    return f, v


def faults(ctx, name, o, ops, world, follow, twice=False):
    want = {q: leaves(ops[q](world())) for q in dict.fromkeys((o,) + tuple(follow))}
    f, _ = trial(ops[o], world(), -1, KeyboardInterrupt)
    spots = positions(f.places, ctx.thorough and not twice)
    lines = len(set(f.places))
    ctx.add("distinct_lines_interrupted", lines)
    for exc in (KeyboardInterrupt, MemoryError) if ctx.thorough else (KeyboardInterrupt,):
        if twice:
            firsts = sorted({p: i for i, p in reversed(list(enumerate(f.places)))}.values())
            plans = [(i, j) for i in firsts[:: 1 if ctx.thorough else 6] for j in firsts[:: 1 if ctx.thorough else 4]]
        else:
            plans = [(i,) for i in spots]
        for plan in plans:
            place = f.places[plan[0]]
            key = "%s %s: %s at %s (%s:%d)" % (name, o, exc.__name__, plan, place[0].rsplit("/", 1)[-1], place[1])
            if not ctx.case(key):
                continue
            w = world()
            for i in plan:
                ctx.step()
                g, v = trial(ops[o], w, i, exc)
                if g.fired:
                    ctx.add("faults")
                    if v is not None:
                        ctx.add("faults_absorbed")
                if v is not None:
                    compare(ctx, key, v, want[o], "%s despite the fault" % o)
            for q in dict.fromkeys((o,) + tuple(follow)):
                r = ctx.call(key, lambda: leaves(ops[q](w)))
                if isinstance(r, Bad) or not compare(ctx, key, r, want[q], "%s after the fault" % q):
                    break


def compare(ctx, key, got, want, what):
    return all([ctx.close(key, g, e, rtol=1e-9, atol=1e-12, what=what) for g, e in zip(got, want)])


# ---- user supplied functions that raise
class Boom(Exception):
    pass


class Plan:
    """Raises at its n-th call."""

    def __init__(self, n):
        self.n, self.calls = n, 0

    def hit(self):
        self.calls += 1
        if self.calls - 1 == self.n:
            raise Boom("user function")


PLAN = Plan(-1)


@register_pytree_node_class
class user_bias(bias.constant_linear_bias):
    def __call__(self, cosmo, z):
        PLAN.hit()
        return super().__call__(cosmo, z)


@register_pytree_node_class
class user_nz(rs.smail_nz):
    def pz_fn(self, z):
        PLAN.hit()
        return super().pz_fn(z)


def user_tf(cosmo, k, type="eisenhu_osc"):
    PLAN.hit()
    r = transfer.Eisenstein_Hu(cosmo, k, type)
    bg.growth_factor(cosmo, 0.5)
    return r


def user_nl(cosmo, k, a, transfer_fn):
    PLAN.hit()
    r = power.linear(cosmo, k, a, transfer_fn)
    return r


def user(ctx, part):
    global PLAN
    K, Z = jnp.array([0.01, 0.3]), jnp.array([0.2, 0.8])
    ell = jnp.array([20.0, 300.0])
    mk = dict(
        c=lambda: jc.Planck15(Omega_k=0.02),
        g=lambda: jc.Planck15(gamma=0.5),
        z=lambda: user_nz(1.2, 2.0, 0.8, zmax=5.0),
    )
    smail = lambda: rs.smail_nz(1.2, 2.0, 0.8, zmax=5.0)

    class W:
        def __init__(self):
            for k, f in mk.items():
                setattr(self, k, f())
            self.s = rs.systematic_shift(self.z, 0.1, zmax=6.0)
            self.n = probes.NumberCounts([self.z, smail()], [user_bias(1.3), bias.inverse_growth_linear_bias(1.1)])
            self.l = probes.WeakLensing([self.z, smail()], user_bias(1.0))

    after = dict(
        chi=lambda w: bg.radial_comoving_distance(w.c, c02.aj),
        growth=lambda w: (bg.growth_factor(w.c, c02.aj), bg.growth_factor(w.g, c02.aj)),
        power=lambda w: power.linear_matter_power(w.c, K, 0.7),
        nz=lambda w: (w.z(Z), w.s(Z)),
        kernels=lambda w: (w.n.kernel(w.c, Z, 10.0), w.l.kernel(w.c, Z, 10.0)),
    )
    if part == "power":
        ops = dict(
            lin=lambda w: power.linear_matter_power(w.c, K, 0.7, transfer_fn=user_tf),
            lin_g=lambda w: power.linear_matter_power(w.g, K, 0.7, transfer_fn=user_tf),
            nl=lambda w: power.nonlinear_matter_power(w.c, K, jnp.array([0.7, 0.7]), user_tf, user_nl),
            nz=lambda w: w.z(Z),
            shift=lambda w: w.s(Z),
            jit=lambda w: jax.jit(lambda x: w.z(x))(Z),
        )
        follow = ("chi", "growth", "power", "nz")
    elif part == "kernel":
        ops = dict(n=lambda w: w.n.kernel(w.c, Z, 10.0), l=lambda w: w.l.kernel(w.c, Z, 10.0))
        follow = ("nz", "growth", "kernels")
    else:
        ops = dict(
            cl=lambda w: angular_cl(w.c, ell, [probes.WeakLensing([w.z])], transfer_fn=user_tf, nonlinear_fn=user_nl),
        )
        follow = ("nz", "growth", "chi")
    PLAN = Plan(-1)
    want = {}
    for q in tuple(ops):
        want[q] = leaves(ops[q](W()))
    for q in follow:
        want[q] = leaves(after[q](W()))
    fresh = jax.clear_caches if part == "kernel" else lambda: None  # compiled functions skip user code
    for o in ops:
        fresh()
        PLAN = Plan(-1)
        ops[o](W())
        total = PLAN.calls
        for n in range(total):
            key = "user function in %s raises at call %d" % (o, n)
            if not ctx.case(key):
                continue
            fresh()
            w = W()
            PLAN = Plan(n)
            try:
                ctx.step()
                r = ops[o](w)
                ctx.true(key, PLAN.calls <= n, "the exception of the user function was lost")
            except Boom:
                ctx.add("faults")
            except Exception as e:
                ctx.violation(key, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
            PLAN = Plan(-1)
            r = ctx.call(key, lambda: leaves(ops[o](w)))
            if isinstance(r, Bad) or not compare(ctx, key, r, want[o], "the same call again"):
                return
            for q in follow:
                r = ctx.call(key, lambda: leaves(after[q](w)))
                if isinstance(r, Bad) or not compare(ctx, key, r, want[q], "%s afterwards" % q):
                    return
