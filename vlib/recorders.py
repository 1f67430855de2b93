"""Monitors attached from outside the code under test."""
import sys
import numpy as np


class RecordingState(np.random.RandomState):
    """Random generator that records the draws made from it."""

    def __init__(self, seed):
        super().__init__(seed)
        self.uniforms = []
        self.draws = 0

    def uniform(self, *a, **kw):
        r = super().uniform(*a, **kw)
        self.draws += 1
        if isinstance(r, np.ndarray):
            self.uniforms.append(r.copy())
        return r

    def last_stochastic(self, shape):
        """Row-normalised most recent draw of the given shape, if any."""
        for u in reversed(self.uniforms):
            if u.shape == shape:
                return u / u.sum(axis=1, keepdims=True)
        return None


def snapshot(v):
    """Deep, comparable copy of a fitted attribute or argument."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v


def same(a, b):
    """Bitwise equality of snapshots."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and
                all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and
                all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'f' and b.dtype.kind == 'f':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def differing(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))


class PoisonedNumpy(object):
    """numpy whose uninitialised arrays hold a given value (a sanitizer for reads of uninitialised memory)"""

    def __init__(self, value):
        self._value = value
        self._filled = 0

    def __getattr__(self, name):
        return getattr(np, name)

    def _fill(self, a):
        if a.dtype.kind in 'fc':
            a[...] = self._value
            self._filled += 1
        elif a.dtype.kind in 'iu':
            a[...] = 77
            self._filled += 1
        return a

    def empty(self, *args, **kw):
        return self._fill(np.empty(*args, **kw))

    def empty_like(self, *args, **kw):
        return self._fill(np.empty_like(*args, **kw))


class poisoned(object):
    """Context in which the modules given use a poisoned numpy."""

    def __init__(self, modules, value):
        self.modules, self.numpy, self.saved = modules, PoisonedNumpy(value), []

    def __enter__(self):
        for m in self.modules:
            for name, v in list(vars(m).items()):
                if v is np:
                    self.saved.append((m, name))
                    setattr(m, name, self.numpy)
        return self.numpy

    def __exit__(self, *exc):
        for m, name in self.saved:
            setattr(m, name, np)
        return False


class Injected(object):
    """Counts executed lines of the package and raises at the chosen one."""

    def __init__(self, at, error=None):
        self.at, self.error, self.lines, self.where = at, error, 0, None

    def trace(self, frame, event, arg):
        if '/src/reor/' not in frame.f_code.co_filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines == self.at:
                self.where = frame.f_code.co_name
                raise self.error
        return self.local

    def run(self, func):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            func()
            return None
        except BaseException as e:
            if self.error is not e and not isinstance(e, Exception):
                raise
            return e
        finally:
            sys.settrace(old)
