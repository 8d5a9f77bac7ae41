"""C02: all operation histories up to a depth on shared cosmologies and distributions, against fresh objects."""
import itertools
import os
import pickle
import subprocess
import sys

import jax
import jax.numpy as jnp
import numpy as onp

import jax_cosmo as jc
import jax_cosmo.background as bg
from jax_cosmo import bias, power, probes, redshift as rs
from mc import kern, twins
from mc.lib import Bad

BOUNDS = dict(
    quick="cosmologies: all histories of length 1..3 over 12 operations (ODE growth), of length 1..2 over 24 operations (ODE growth and growth index); distributions: length 1..3 over 9 operations on 2 kinds, 1..2 on 2 kinds; traced objects: 3 outer transformations x 3 functions x all sequences of length 1..2, and those of length 3 that begin in a nested jit, of 6 forms of call; calls that differ in one thing: %d groups with %d variants, eager and under one jitted function, every variant next to the first or every ordered pair" % (len(twins.GROUPS), sum(len(g.variants) for g in twins.GROUPS.values())),
    thorough="cosmologies: length 1..4 over 12 operations and 1..3 over 24 operations, both growth models; distributions: length 1..4; traced: length 1..4; calls that differ in one thing: every ordered pair adjacent in all groups",
)
ASSUMPTIONS = ["of calls that differ in one thing, each is compared with the same call alone in a fresh process (relative 1e-12)", "each result is compared with the same call on a freshly built object (relative 1e-9)", "operations include other table options, transformations of closures over the shared object and calls on other objects"]
A = onp.array([0.31, 0.012, 0.9, 0.5])
KW = dict(Omega_c=0.27, Omega_b=0.046, h=0.69, n_s=0.97, sigma8=0.82, Omega_k=0.03, w0=-0.95, wa=0.1)


class World:
    """Objects shared by one history."""

    def __init__(self, gamma=None, kind="smail"):
        self.gamma, self.kind = gamma, kind
        self._o = {}
        for n in "cdzpsy":
            if n != "s" or kind != "plane":
                getattr(self, n)  # built before any transformation

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n not in self._o:
            self._o[n] = getattr(self, "_make_" + n)()
        return self._o[n]

    def _make_c(self):
        return jc.Cosmology(gamma=self.gamma, **KW)

    def _make_d(self):
        return jc.Cosmology(gamma=self.gamma, **dict(KW, Omega_c=0.4, Omega_k=-0.05, w0=-1.1))

    def _make_z(self):
        k = self.kind
        if k == "smail":
            return rs.smail_nz(1.2, 2.0, 0.8, zmax=5.0)
        if k == "kde":
            return rs.kde_nz(jnp.array([0.3, 0.8, 1.4]), jnp.array([1.0, 0.5, 0.25]), bw=0.2, zmax=4.0)
        if k == "shift":
            return rs.systematic_shift(self.p, 0.15, zmax=6.0)
        return rs.delta_nz(0.8)

    def _make_p(self):
        return rs.smail_nz(1.4, 1.8, 0.6, zmax=4.0)

    def _make_s(self):
        return rs.systematic_shift(self.z, -0.1, zmax=5.0)

    def _make_y(self):
        return rs.smail_nz(2.0, 2.0, 0.5, zmax=5.0)


def _jit(f, x):
    return jax.jit(f)(x)


_arg = jax.jit(lambda c, a: (bg.radial_comoving_distance(c, a), bg.growth_factor(c, a)))
_zarg = jax.jit(lambda z, x: z(x))
chi, D, f_ = bg.radial_comoving_distance, bg.growth_factor, bg.growth_rate
aj = jnp.asarray(A)
K = jnp.array([0.01, 0.3])
ZZ = jnp.array([0.2, 0.8, 1.3])

CORE = dict(
    chi=lambda w: chi(w.c, aj),
    chi_lo=lambda w: chi(w.c, aj, -2, 64),
    chi_few=lambda w: chi(w.c, aj, steps=32),
    inv=lambda w: bg.a_of_chi(w.c, jnp.array([100.0, 3000.0])),
    growth=lambda w: D(w.c, aj),
    rate=lambda w: f_(w.c, aj),
    trans=lambda w: bg.transverse_comoving_distance(w.c, aj),
    jit_chi=lambda w: _jit(lambda a: chi(w.c, a), aj),
    jit_growth=lambda w: _jit(lambda a: D(w.c, a), aj),
    grad_a=lambda w: jax.grad(lambda a: (chi(w.c, a) + D(w.c, a)).sum())(aj),
    arg=lambda w: _arg(w.c, aj),
    other=lambda w: (chi(w.d, aj), D(w.d, aj)),
)
MORE = dict(
    CORE,
    vmap_chi=lambda w: jax.vmap(lambda a: chi(w.c, a))(aj),
    vmap_growth=lambda w: jax.vmap(lambda a: D(w.c, a))(aj),
    jit_rate=lambda w: _jit(lambda a: f_(w.c, a), aj),
    jit_inv=lambda w: _jit(lambda x: bg.a_of_chi(w.c, x), jnp.array([100.0, 3000.0])),
    jit_lo=lambda w: _jit(lambda a: chi(w.c, a, -2, 64), aj),
    map_=lambda w: jax.lax.map(lambda a: chi(w.c, a) * D(w.c, a), aj),
    par=lambda w: jax.jacfwd(lambda h: chi(jax.tree_util.tree_map(lambda x: x * h, w.c), 0.5))(1.0),
    angular=lambda w: bg.angular_diameter_distance(w.c, aj),
    scalar=lambda w: (chi(w.c, 0.4), D(w.c, 0.4), f_(w.c, 0.4)),
    power=lambda w: power.linear_matter_power(w.c, K, 0.7),
    bias=lambda w: bias.inverse_growth_linear_bias(1.5)(w.c, ZZ),
    kernel=lambda w: probes.WeakLensing([w.y], bias.constant_linear_bias(1.0)).kernel(w.c, ZZ, 20.0),
)
NZ = dict(
    call=lambda w: w.z(ZZ),
    scalar=lambda w: w.z(0.7),
    jit=lambda w: _jit(lambda x: w.z(x), ZZ),
    vmap=lambda w: jax.vmap(lambda x: w.z(x))(ZZ),
    grad=lambda w: jax.grad(lambda x: w.z(x).sum())(ZZ) if w.kind != "plane" else w.z(ZZ),
    arg=lambda w: _zarg(w.z, ZZ),
    child=lambda w: w.s(ZZ) if w.kind != "plane" else w.y(ZZ),
    other=lambda w: (w.y(ZZ), w.p(ZZ)),
    kernel=lambda w: probes.WeakLensing([w.z, w.y]).kernel(kern_cosmo(), ZZ, 20.0),
)
_kc = []


def kern_cosmo():
    if not _kc:
        _kc.append(jc.Planck15())
    return _kc[0]


N = 8


def shards(tier):
    first = ["twins:%s:%s" % (g, m) for m in ("eager", "jit") for g in sorted(twins.GROUPS, key=lambda g: g not in ("halofit", "linear power", "transfer options", "non linear options"))]
    return first + rest(tier)


def rest(tier):
    out = ["traced:%s:%s" % (o, f) for o in ("jit", "grad", "vmap") for f in ("chi", "growth", "nz")]
    for i in range(N):
        out += ["core:ode:%d" % i, "more:ode:%d" % i, "more:gamma:%d" % i]
        if tier == "thorough":
            out += ["core:gamma:%d" % i]
    for k in ("smail", "shift", "kde", "plane"):
        out += ["nz:%s:%d" % (k, i) for i in range(3 if tier == "thorough" or k in ("smail", "shift") else 1)]
    return out[9:] + out[:9] if tier == "thorough" else out


def run(ctx, shard):
    kind, a, b = shard.split(":")
    T = ctx.thorough
    if kind == "twins":
        return alone(ctx, a, b)
    if kind == "traced":
        return traced(ctx, a, b)
    if kind == "nz":
        deep = a in ("smail", "shift")
        return histories(ctx, NZ, (4 if deep else 3) if T else (3 if deep else 2), lambda: World(kind=a), int(b), 3 if T or deep else 1, "nz %s" % a)
    g = None if a == "ode" else 0.5
    if kind == "core":
        histories(ctx, CORE, 4 if T else 3, lambda: World(gamma=g), int(b), N, "core %s" % a)
    else:
        histories(ctx, MORE, 3 if T else 2, lambda: World(gamma=g), int(b), N, "all %s" % a)


def leaves(v):
    return [onp.asarray(x) for x in jax.tree_util.tree_leaves(v)]


def histories(ctx, ops, depth, world, part, n, name):
    want = {}

    def fresh(o):
        if o not in want:
            want[o] = leaves(ops[o](world()))
        return want[o]

    seqs = [s for d in range(1, depth + 1) for s in itertools.product(ops, repeat=d)]
    # whole sequences up to the depth; a prefix of length depth-1 is covered by its extensions, so run maximal ones
    seqs = [s for s in seqs if len(s) == depth]
    for q, s in enumerate(seqs):
        if q % n != part:
            continue
        w = world()
        for j, o in enumerate(s):
            key = "%s: %s" % (name, ">".join(s[: j + 1]))
            if not ctx.case(key):
                ops[o](w)
                continue
            r = ctx.call(key, lambda: leaves(ops[o](w)))
            if isinstance(r, Bad):
                break
            for g, e in zip(r, fresh(o)):
                ctx.close(key, g, e, rtol=1e-9, atol=1e-12, what="%s after %s" % (o, ">".join(s[:j]) or "nothing"))


# ---- calls that differ in one thing
def alone(ctx, name, mode):
    g = twins.GROUPS[name]
    out = os.path.join(os.environ.get("MC_TMP", "/tmp"), "twins_%s_%s" % (name.replace(" ", "_"), mode))
    subprocess.run([sys.executable, "-B", twins.__file__, name, mode, out], check=True)
    ref = pickle.load(open(out, "rb"))
    for (label, _, _), r in zip(g.variants, ref):
        if r[0] == "dead":
            raise OSError("%s: %s" % (label, r[1]))
        ctx.true("twins %s %s: %s alone" % (name, mode, label), r[0] == "ok", "raised in a fresh process: %s" % (r[1],))
    run = g.runner(mode)
    prev = "nothing"
    for n, i in enumerate(g.order(mode, ctx.thorough)):
        label = g.variants[i][0]
        key = "twins %s %s: %s > %s (step %d)" % (name, mode, prev, label, n)
        ctx.case(key)
        got = ctx.call(key, run, i)
        if not isinstance(got, Bad) and ref[i][0] == "ok":
            if ctx.true(key, len(got) == len(ref[i][1]), "%d results, alone %d" % (len(got), len(ref[i][1]))):
                for j, (x, y) in enumerate(zip(got, ref[i][1])):
                    ctx.close(key, x, y, rtol=1e-12, what="result %d of '%s' right after '%s', against the same call alone in a fresh process" % (j, label, prev))
        prev = label


# ---- objects built from traced parameters, used several times while the trace lasts
def traced(ctx, outer, fn):
    x0 = 0.5

    def obj(t):
        if fn == "nz":
            return rs.smail_nz(1.2, 2.0, t, zmax=5.0)
        return jc.Cosmology(**dict(KW, Omega_c=t))

    def ev(o, x):
        v = o(x) if fn == "nz" else (chi(o, x) / 1e3 if fn == "chi" else D(o, x))
        return jnp.sum(v)

    forms = dict(
        call=lambda o: ev(o, x0),
        vmap=lambda o: jax.vmap(lambda x: ev(o, x))(jnp.array([x0, 0.3])).sum(),
        grad=lambda o: jax.grad(lambda x: ev(o, x))(x0),
        jit=lambda o: jax.jit(lambda x: ev(o, x))(x0),
        map=lambda o: jax.lax.map(lambda x: ev(o, x), jnp.array([x0, 0.3])).sum(),
        cond=lambda o: jax.lax.cond(x0 > 0.1, lambda x: ev(o, x), lambda x: 2.0 * x, x0),
    )
    val = {k: float(f(obj(0.3))) for k, f in forms.items()}
    eps = 1e-4
    der = {k: float((f(obj(0.3 + eps)) - f(obj(0.3 - eps))) / (2 * eps)) for k, f in forms.items()}
    failed = set()
    for d in range(1, (4 if ctx.thorough else 3) + 1):
        for s in itertools.product(forms, repeat=d):
            if not ctx.thorough and d == 3 and s[:2] not in (("jit", "call"), ("jit", "jit"), ("jit", "map")):
                continue
            if any(s[:j] in failed for j in range(1, d)):
                continue
            key = "traced %s %s: %s" % (outer, fn, ">".join(s))
            if not ctx.case(key):
                continue

            def prog(t):
                o = obj(t)
                return jnp.stack([forms[k](o) for k in s])

            try:
                ctx.step()
                if outer == "jit":
                    got, want = jax.jit(prog)(0.3), [val[k] for k in s]
                elif outer == "grad":
                    got, want = jax.jacfwd(prog)(0.3), [der[k] for k in s]
                else:
                    got, want = jax.vmap(prog)(jnp.array([0.3, 0.3]))[1], [val[k] for k in s]
                got = onp.asarray(got)
            except jax.errors.UnexpectedTracerError as e:
                failed.add(s)
                # a table built inside a nested trace was used outside of it
                ctx.violation(key + ": table of a nested trace", "raised UnexpectedTracerError: %s" % str(e)[:150])
                continue
            except Exception as e:
                failed.add(s)
                ctx.violation(key, "raised %s: %s" % (type(e).__name__, str(e)[:300]))
                continue
            ctx.close(key, got, onp.array(want), rtol=2e-4 if outer == "grad" else 1e-9, atol=1e-6 if outer == "grad" else 1e-12, what="values of the calls in turn")
