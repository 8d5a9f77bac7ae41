"""A controlled scheduler for real threads: exactly one runs at a time, switches happen only at yield points.

Yield points are either executed lines (or bytecodes) of the library, through sys.settrace, or accesses to
instrumented shared objects, through point()."""
import sys
import threading

LIB = "/repo/jax_cosmo/"
BLOCK = 20.0
START = ("start", None, False)


class Abort(BaseException):
    """Ends the threads of a schedule that is equivalent to one already explored."""


class Worker:
    def __init__(self, sched, n, fn):
        self.sched, self.n, self.fn = sched, n, fn
        self.go = threading.Semaphore(0)
        self.pending = START
        self.places = []  # executed (file, line) in order, when lines are traced
        self.done = False
        self.value = self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        _local.worker = self
        if self.sched.lines and self.n in self.sched.traced:
            sys.settrace(self.trace)
        try:
            if not self.sched.aborted:
                self.value = self.fn()
        except Abort:
            pass
        except BaseException as e:  # noqa: B902
            self.error = e
        finally:
            sys.settrace(None)
            _local.worker = None
            self.done = True
            self.sched.back.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB):
            return None
        if self.sched.lines == "opcode":
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.sched.lines == "opcode" else "line"):
            self.places.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if self.sched.lines == "opcode" else 0))
            stop = self.sched.stops.get(self.n)
            if stop and len(self.places) - 1 == stop[0]:
                stop.pop(0)
                self.point(("line", None, True))
        return self.local

    def point(self, access):
        if self.sched.free:
            return
        self.pending = access
        self.sched.back.release()
        self.go.acquire()
        if self.sched.aborted:
            raise Abort


class _Local(threading.local):
    worker = None


_local = _Local()


def point(obj, key, write):
    """Called by instrumented objects before every access."""
    w = _local.worker
    if w is not None and not w.sched.lines and not w.sched.aborted:
        w.point((obj, key, write))


def conflict(p, q):
    """Whether two accesses (object, key or None for all keys, write) do not commute."""
    return p[0] == q[0] and (p[2] or q[2]) and (p[1] is None or q[1] is None or p[1] == q[1])


class Sched:
    """Runs functions in threads under one schedule.

    stops: thread -> sorted positions (executed lines) at which it yields, when lines are traced."""

    def __init__(self, fns, lines=None, stops=None):
        self.lines = lines
        self.stops = {k: list(v) for k, v in (stops or {}).items()}
        self.traced = set(self.stops)
        self.free = self.aborted = False
        self.back = threading.Semaphore(0)
        self.workers = [Worker(self, i, f) for i, f in enumerate(fns)]

    def live(self):
        return [w.n for w in self.workers if not w.done]

    def step(self, n):
        """Continue thread n up to its next yield point; False if control was lost."""
        global BLOCK
        self.workers[n].go.release()
        if self.back.acquire(timeout=BLOCK):
            return True
        # it waits for a lock held by a paused thread: give up control of this run
        self.free, BLOCK = True, 1.0
        for x in self.workers:
            for _ in range(3):
                x.go.release()
        return False

    def run(self, choose):
        """choose(live) -> thread to continue, or None to abandon the schedule."""
        for w in self.workers:
            w.thread.start()
        while self.live():
            n = choose(self.live())
            if n is None:
                self.aborted = True
                for w in self.workers:
                    while not w.done:
                        w.go.release()
                        self.back.acquire(timeout=BLOCK)
                break
            if not self.step(n):
                break
        for w in self.workers:
            w.thread.join(120)
        return self.workers


def interleavings(run):
    """All interleavings of accesses up to commutation of independent ones (sleep sets).

    run(choose, sched_box) executes one schedule.  Yields (schedule, workers) once per equivalence class."""
    stack = [([], [set()])]  # prefix of choices, sleep set at each of its nodes and after it
    while stack:
        prefix, sleeps = stack.pop()
        taken, nodes, box = [], [], {}

        def choose(live):
            i = len(taken)
            ws = box["s"].workers
            sleep = sleeps[i] if i < len(sleeps) else nodes[-1][2]
            sleep = {u for u in sleep if u in live}
            if i < len(prefix):
                n = prefix[i]
                if n not in live:
                    return None
            else:
                can = [m for m in live if m not in sleep]
                if not can:
                    return None
                n = can[0]
            p = ws[n].pending
            after = {u for u in sleep if u != n and not conflict(ws[u].pending, p)}
            alt = [m for m in live if m != n and m not in sleep] if i >= len(prefix) else []
            nodes.append((alt, sleep, after, n))
            taken.append(n)
            return n

        workers = run(choose, box)
        if box["s"].free:
            yield list(taken), workers, "free"
            continue
        yield list(taken), workers, "redundant" if box["s"].aborted else "ok"
        for i in range(len(taken) - 1, len(prefix) - 1, -1):
            alt, sleep, after, n = nodes[i]
            done = {n}
            for m in alt:
                # siblings explored before m sleep in its subtree
                stack.append((taken[:i] + [m], [x[1] for x in nodes[:i]] + [sleep | done]))
                done = done | {m}


# ---- instrumented shared objects
class HookDict(dict):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


def _hook(name, keyed, write):
    base = getattr(dict, name)

    def f(self, *a, **k):
        point(id(self), repr(a[0]) if keyed else None, write)
        return base(self, *a, **k)

    return f


for _n, _k, _w in (
    ("__getitem__", 1, 0), ("__setitem__", 1, 1), ("__delitem__", 1, 1), ("__contains__", 1, 0), ("get", 1, 0), ("pop", 1, 1), ("setdefault", 1, 1),
    ("__iter__", 0, 0), ("__len__", 0, 0), ("keys", 0, 0), ("values", 0, 0), ("items", 0, 0), ("copy", 0, 0), ("popitem", 0, 1), ("update", 0, 1), ("clear", 0, 1),
):
    setattr(HookDict, _n, _hook(_n, _k, bool(_w)))


def hooked(cls, written):
    """Subclass whose accesses to the attributes in `written` are yield points; dict attributes are instrumented."""

    class Hooked(cls):
        def __getattribute__(self, n):
            if n in written:
                point(id(self), n, False)
            return super().__getattribute__(n)

        def __setattr__(self, n, v):
            if _local.worker is not None:
                written.add(n)
            if n in written:
                point(id(self), n, True)
            super().__setattr__(n, HookDict(v) if type(v) is dict else v)

    Hooked.__name__ = cls.__name__
    return Hooked
