"""Raises an exception at the n-th executed line of the library, through sys.settrace."""
import sys

LIB = "/repo/jax_cosmo/"


class Fault:
    """with Fault(n, exc): the exception is raised when line event n is reached; places lists executed lines."""

    def __init__(self, n, exc=KeyboardInterrupt):
        self.n, self.exc = n, exc
        self.places = []
        self.fired = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(LIB) else None

    def local(self, frame, event, arg):
        if event == "line":
            i = len(self.places)
            self.places.append((frame.f_code.co_filename, frame.f_lineno))
            if i == self.n:
                self.fired = True
                sys.settrace(None)
                raise self.exc("injected at %s:%d" % (frame.f_code.co_filename, frame.f_lineno))
        return self.local
