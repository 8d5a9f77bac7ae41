"""C05: every public function under every chain of jit and vmap, against eager evaluation of fresh objects."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp

from mc import cat
from mc.lib import Bad

BOUNDS = dict(
    quick="all %d catalogued functions, 2 to 6 parameter letters each; chains of jit, vmap over points and vmap over objects up to length 2 (no repeated vmap), with the objects passed as arguments, captured, or built inside; heavy functions: chains of length 1 and batches under jit" % len(cat.LIST),
    thorough="chains up to length 3; heavy functions up to length 2; all parameter letters for unbatched chains",
)
ASSUMPTIONS = ["equality of modes means agreement to 1e-9 of the largest value in double precision"]
TREE = jax.tree_util.tree_map


def words(letters, n):
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            w = "".join(w)
            if w.count("V") < 2 and w.count("B") < 2 and "JJJ" not in w:
                yield w


def shards(tier):
    return ["%s:%d" % (g, i) for g, n in GROUPS.items() for i in range(n)]


GROUPS = dict(cosmo=16, clnl=1, gamma=5, kernel=6, cl=7, spline=4, nz=2, sparse=1, bias=2)


def run(ctx, shard):
    g, i = shard.split(":")
    es = [e for e in cat.LIST if e.group == g]
    es.sort(key=lambda e: -e.cost)
    for e in es[int(i) :: GROUPS[g]]:
        entry(ctx, e)


def floats(t):
    return TREE(lambda v: float(v) if onp.ndim(v) == 0 else jnp.asarray(v), t)


def apply(word, g):
    """g(objects, points) under the transformations of word, innermost first."""
    for c in word:
        if c == "J":
            g = jax.jit(g)
        elif c == "V":
            g = jax.vmap(g, (None, 0))
        else:
            g = jax.vmap(g, (0, None))
    return g


def plan(e, thorough):
    n = 3 if thorough else 2
    pts = "V" if e.axes else ""
    if e.cost == 3:
        return [("arg", w) for w in ("J", "B", "JB")[: 3 if thorough else 1]] + [("cap", "J")] + ([("built", "BJ")] if thorough else [])
    if e.name.startswith("nonlinear") and not thorough:
        return [("arg", "BJ"), ("built", "J")] + ([("arg", "VJ")] if e.name == "nonlinear_matter_power" else [])
    if (e.cost == 2 or e.name.startswith("linear_matter")) and not thorough:
        return [("arg", w) for w in ("J", "BJ") + (("V",) if pts else ())] + [("cap", "J"), ("built", "J"), ("built", "BJ")]
    if e.cost == 2:
        n = 2
    if (e.cost == 1 or e.group == "spline") and not thorough:
        return [("arg", w) for w in words("JB" + pts, 2) if w in ("", "J", "V", "JV", "VJ", "BJ", "VB", "BV", "B")] + [("cap", "J"), ("built", "BJ")]
    return [("arg", w) for w in words("JB" + pts, n)] + [("cap", w) for w in words("J" + pts, n) if w] + [("built", w) for w in words("JB" + pts, n) if w]


def entry(ctx, e):
    base, shapes = [], None
    x = TREE(jnp.asarray, e.x)
    for n, t in enumerate(e.thetas):
        r = ctx.call("%s eager %d" % (e.name, n), lambda: onp.asarray(e.fn(e.build(floats(t)), x)))
        if isinstance(r, Bad):
            return
        base.append(r)
        ctx.true("%s eager %d finite" % (e.name, n), onp.isfinite(r).all() and r.dtype.kind == "f", "not finite floating point: %s" % (r,))
    n_pts = len(jax.tree_util.tree_leaves(e.x)[0]) if e.axes else 0
    if e.axes and e.cost < 2:
        each = []
        for i in range(n_pts):
            r = ctx.call("%s eager at point %d" % (e.name, i), lambda: onp.asarray(e.fn(e.build(floats(e.thetas[0])), TREE(lambda v: v[i], x))))
            if isinstance(r, Bad):
                return
            each.append(r)
        shapes = each[0].shape
    for bind, w in plan(e, ctx.thorough):
        B, V = "B" in w, "V" in w
        sets = [list(range(len(e.thetas)))] if B else [[0]]
        if B and e.cost < 2 and (ctx.thorough or w == "BJ"):
            sets += [[1], sets[0][::-1]][: 2 - e.cost] if not ctx.thorough else [sets[0][::-1]] + [[j] for j in range(len(e.thetas))]
        elif not B and (ctx.thorough or e.cost == 0 and e.group != "spline"):
            sets = [[j] for j in range(len(e.thetas))]
        if e.cost == 2 and B:
            sets = [[0, 1, 2]]
        for js in sets:
            key = "%s: %s %s %s" % (e.name, bind, w or "eager", js)
            if not ctx.case(key):
                continue
            objs = [e.build(floats(e.thetas[j])) for j in js]
            if bind == "built":
                f = apply(w, lambda t, x: e.fn(e.build(t), x))
                ts = [floats(e.thetas[j]) for j in js]
                o = TREE(lambda *v: jnp.stack([jnp.asarray(u) for u in v]), *ts) if B else ts[0]
            elif bind == "cap":
                one = objs[0]
                h = apply(w, lambda _, x: e.fn(one, x))
                f, o = h, 0.0
            else:
                f = apply(w, e.fn)
                o = TREE(lambda *v: jnp.stack([jnp.asarray(u) for u in v]), *objs) if B else objs[0]
            r = ctx.call(key, lambda: onp.asarray(f(o, x)))
            if isinstance(r, Bad):
                continue
            want = onp.stack([base[j] for j in js]) if B else base[js[0]]
            # axes come outermost last in the word
            if V and B and w.index("V") > w.index("B"):
                r = onp.moveaxis(r, 0, 1) if r.ndim > 1 else r
            if V:
                lead = want.shape[: 2 if B else 1]
                if shapes is not None and not ctx.true(key, r.shape == ((len(js),) if B else ()) + (n_pts,) + shapes, "shape %s; the eager value at one point has shape %s" % (r.shape, shapes)):
                    continue
                if r.size == want.size:
                    r = r.reshape(want.shape)
            scale = onp.max(onp.abs(want))
            ctx.close(key, r, want, rtol=1e-9, atol=1e-9 * scale if scale else 1e-12, what="against eager")
