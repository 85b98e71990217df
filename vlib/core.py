"""What the property modules see: the API under test, per-case state and helpers."""
import hashlib
import importlib.util
import json
import os
import shutil


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The case turned out to be outside the property's domain."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def same(a, b, what):
    if a != b:
        raise Violation("%s: %s != %s" % (what, short(a), short(b)))


def load_module(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Case:
    """State of one execution: events, the non-trivial mark and a scratch directory."""

    def __init__(self, worker):
        self.w = worker
        self.events = {}
        self.nontrivial = False
        self._tmp = None
        self.backend = worker.backend

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def size(self, learned=(), mapping=()):
        """Events for unusually large cases."""
        if len(learned) > 20:
            self.event("more than 20 entries")
            if len(learned) > 64:
                self.event("more than 64 entries")
        if len(mapping) > 64:
            self.event("more than 64 RAMs")

    def clock(self, t):
        self.w.set_time(t)

    def tmp(self):
        if self._tmp is None:
            self._tmp = os.path.join(self.w.scratch, "case")
            shutil.rmtree(self._tmp, ignore_errors=True)
            os.makedirs(self._tmp)
        return self._tmp

    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Rejected(Exception):
    """An ordinary error of the library."""


# what the library raises when it refuses something: its own Exception and the standard library's become
# RuntimeError / IndexError / ValueError / OverflowError, argument conversion gives TypeError
ORDINARY = (RuntimeError, IndexError, ValueError, TypeError, OverflowError)


def refused(f, *a, **k):
    """True if the call raises an ordinary error."""
    try:
        f(*a, **k)
    except ORDINARY:
        return True
    return False


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()
