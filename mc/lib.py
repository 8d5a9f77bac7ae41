"""Shared machinery of the checks: bookkeeping, comparison, enumeration of bounded spaces."""
import hashlib
import itertools
import json
import traceback

import numpy as onp

LIB = "/repo/jax_cosmo/"


def blames_library(e):
    """True if the exception was raised below a frame of the library under test."""
    while e is not None:
        if any(f.filename.startswith(LIB) for f in traceback.extract_tb(e.__traceback__)):
            return True
        if isinstance(e, (ImportError, AttributeError)) and "jax_cosmo" in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


class Bad:
    """Result of a library call that raised."""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "%s: %s" % (type(self.e).__name__, str(self.e)[:200])


def plain(x):
    """A tree of numpy arrays as nested lists for reports."""
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if hasattr(x, "dtype"):
        x = onp.asarray(x)
        return x.tolist() if x.size <= 40 else x.ravel()[:40].tolist()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    MAXV = 12

    def __init__(self, prop, shard, tier, seed, only=None):
        self.prop, self.shard, self.tier, self.seed, self.only = prop, shard, tier, seed, only
        self.thorough = tier == "thorough"
        self.keys = set()
        self.extra_states = 0
        self.transitions = 0
        self.traces = 0
        self._outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.extra = {}
        self.current = None

    # ---- bookkeeping
    def case(self, key, sample=None):
        """Enter the state called key; False if it is filtered out (replay)."""
        key = str(key)
        if self.only is not None and not self.only.startswith(key):
            return False
        self.current = key
        if key not in self.keys:
            self.keys.add(key)
            if len(self.samples) < 4 or (len(self.samples) < 12 and len(self.keys) % 97 == 0):
                self.samples.append("%s/%s" % (self.shard, key) if sample is None else plain(sample))
        return True

    def step(self, n=1):
        self.transitions += n

    def points(self, n):
        """n further distinct states inside the current case (a vectorised batch)."""
        self.extra_states += n

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + int(n)

    def outcome(self, *xs):
        h = hashlib.md5()
        for x in xs:
            if hasattr(x, "dtype") or isinstance(x, (float, int)):
                a = onp.asarray(x)
                if a.dtype.kind == "f":
                    with onp.errstate(all="ignore"):
                        a = onp.round(a.astype(float), 9)
                h.update(a.tobytes())
            else:
                h.update(repr(x).encode())
        self._outcomes.add(h.hexdigest())

    def note(self, text):
        self.notes.append(text)

    def violation(self, key, message, **data):
        if len(self.violations) < self.MAXV and not any(v["key"] == key for v in self.violations):
            self.violations.append(dict(property=self.prop, shard=self.shard, tier=self.tier, key=str(key),
                                        message=str(message)[:1000], data=plain(data),
                                        how="/verif/check %s --replay <this file>" % self.prop))

    # ---- running the library
    def call(self, key, fn, *args, **kw):
        """Run a library call; an exception is a violation of the current property."""
        self.transitions += 1
        try:
            return fn(*args, **kw)
        except (MemoryError, OSError):
            raise
        except Exception as e:
            self.violation(key, "raised %s: %s" % (type(e).__name__, str(e)[:300]),
                           trace="".join(traceback.format_exception(e))[-2500:])
            return Bad(e)

    def rejects(self, key, kinds, fn, what="accepted"):
        """The call must raise one of kinds."""
        self.transitions += 1
        self.traces += 1
        try:
            r = fn()
        except kinds:
            self._outcomes.add("rejected")
            return True
        except (MemoryError, OSError):
            raise
        except Exception as e:
            self.violation(key, "raised %s instead of %s: %s" % (type(e).__name__, kinds, str(e)[:200]))
            return False
        self.violation(key, "%s; returned %s" % (what, plain(r)))
        return False

    # ---- oracles
    def true(self, key, cond, message, **data):
        self.traces += 1
        self._outcomes.add(("bool", bool(cond)))
        if not cond:
            self.violation(key, message, **data)
        return bool(cond)

    def close(self, key, got, want, rtol=1e-9, atol=0.0, what="", shape=True, labels=None):
        """got (from the library) equals want (reference) within rtol*|want| + atol, everywhere."""
        if isinstance(got, Bad) or isinstance(want, Bad):
            return False
        want = onp.asarray(want)
        try:
            g = onp.asarray(got)
            if g.dtype == object:
                raise TypeError("not an array: %r" % (got,))
        except Exception as e:
            self.violation(key, "%s: result is not an array (%s)" % (what, str(e)[:200]))
            return False
        self.traces += max(1, int(want.size))
        if shape and g.shape != want.shape:
            self.violation(key, "%s: shape %s, expected %s" % (what, g.shape, want.shape), got=g, want=want)
            return False
        try:
            g, w = onp.broadcast_arrays(g, want)
        except ValueError:
            self.violation(key, "%s: shape %s does not match %s" % (what, g.shape, want.shape), got=g, want=want)
            return False
        with onp.errstate(all="ignore"):
            same = g == w
            ok = same | (onp.abs(g - w) <= rtol * onp.abs(w) + onp.asarray(atol))
        self.outcome(g if g.size < 4096 else g.ravel()[:: max(1, g.size // 4096)])
        if ok.all():
            return True
        bad = onp.argwhere(~ok)
        with onp.errstate(all="ignore"):
            dev = onp.where(ok, 0, onp.abs(g - w) / onp.maximum(onp.abs(w), 1e-300))
        dev = onp.where(onp.isfinite(dev), dev, onp.inf)
        i = tuple(int(x) for x in onp.unravel_index(int(onp.argmax(dev)), dev.shape))
        lab = ""
        if labels is not None:
            lab = " at " + str(labels(i))
        self.violation(key, "%s: got %r, expected %r (index %s%s, %d of %d values differ, rtol %g atol %s)" % (
            what, g[i].item(), w[i].item(), i, lab, len(bad), ok.size, rtol, onp.max(atol)), got=g, want=w)
        return False

    def dump(self, path, status):
        with open(path, "w") as f:
            json.dump(dict(shard=self.shard, status=status, states=len(self.keys) + self.extra_states,
                           transitions=self.transitions, traces=self.traces, outcomes=len(self._outcomes),
                           samples=self.samples, violations=self.violations, notes=self.notes, extra=self.extra), f)


# ---- bounded spaces
def lattice(alphabet, k):
    """All assignments that deviate from the defaults (first letters) in at most k names.

    Deviation-bounded: 0 deviations first, then 1, ... so the first failure is the simplest."""
    names = list(alphabet)
    base = {n: alphabet[n][0] for n in names}
    for d in range(0, k + 1):
        for which in itertools.combinations(names, d):
            for vals in itertools.product(*[alphabet[n][1:] for n in which]):
                p = dict(base)
                p.update(zip(which, vals))
                yield p


def product(alphabet):
    names = list(alphabet)
    for vals in itertools.product(*[alphabet[n] for n in names]):
        yield dict(zip(names, vals))


def key_of(p):
    return ",".join("%s=%s" % (k, v) for k, v in sorted(p.items(), key=lambda kv: kv[0]))


def split(items, shard, n):
    """Every n-th item starting at shard."""
    for i, x in enumerate(items):
        if i % n == shard:
            yield x


def words(alphabet, depth):
    """All sequences over the alphabet of length 1..depth, shortest first."""
    for d in range(1, depth + 1):
        yield from itertools.product(alphabet, repeat=d)


def batches(items, size):
    items = list(items)
    for i in range(0, len(items), size):
        yield items[i : i + size]


def to_np(x):
    import jax

    return jax.tree_util.tree_map(lambda v: onp.asarray(v), x)
