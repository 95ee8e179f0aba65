"""Observation context: every call of the library made by a workload goes through ``Obs.call``.

``Obs`` is the online monitor.  Around each library call it
  * snapshots every array / representation given as argument and checks, after the call, that the
    call left them as they were (no argument is written to),
  * checks that every array that comes out is numeric and finite,
  * turns an exception into a violation (the workloads only make calls of the supported domain),
  * records an event (function, shapes), which ends up in the evidence.
The oracles of the properties then judge what was observed through ``Obs.close`` / ``Obs.check``.
"""
import collections
import hashlib
import os
import traceback

import numpy as np


class Violation(Exception):
    """The property is broken on this execution."""


class Skip(Exception):
    """The generated case is outside the domain of the property; nothing is concluded."""


def _h(*parts):
    h = hashlib.blake2b(digest_size=12)
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
    return h.hexdigest()


def leaves(x, path="", out=None, seen=None):
    """{path: digest} of everything reachable from x.  Used as a before/after snapshot; a path that
    only exists afterwards (an attribute added by a cache) is not a modification."""
    if out is None:
        out, seen = {}, set()
    if isinstance(x, np.ndarray):
        body = np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x)
        out[path] = _h(x.shape, x.dtype.str, body)
    elif x is None or isinstance(x, (int, float, complex, str, bytes, bool, type)):
        out[path] = repr(x)
    elif isinstance(x, (list, tuple)):
        out[path] = f"{type(x).__name__}{len(x)}"
        for i, y in enumerate(x):
            leaves(y, f"{path}[{i}]", out, seen)
    elif isinstance(x, (set, frozenset)):
        out[path] = _h(sorted(map(repr, x)))
    elif isinstance(x, dict):
        for k in x:
            leaves(x[k], f"{path}[{k!r}]", out, seen)
    elif hasattr(x, "__dict__") and not callable(x) and id(x) not in seen:
        seen.add(id(x))
        out[path] = type(x).__name__
        for k, v in vars(x).items():
            leaves(v, f"{path}.{k}", out, seen)
    return out


def arrays_of(x, out=None, seen=None):
    """every array reachable from x"""
    if out is None:
        out, seen = [], set()
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays_of(y, out, seen)
    elif isinstance(x, dict):
        for y in x.values():
            arrays_of(y, out, seen)
    elif hasattr(x, "__dict__") and not callable(x) and id(x) not in seen:
        seen.add(id(x))
        arrays_of(vars(x), out, seen)
    return out


def digest(x):
    return _h(sorted(leaves(x).items()))


def _arrays(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)) and depth < 3:
        for y in x:
            yield from _arrays(y, depth + 1)


def _shape(x):
    if isinstance(x, np.ndarray):
        return str(x.shape)
    return type(x).__name__


class Obs:
    def __init__(self):
        self.events = collections.Counter()
        self.checks = 0
        self.features = set()
        self.maxerr = 0.0
        self.trace = []

    # -- monitored calls ------------------------------------------------------------------
    def call(self, name, fn, *args, **kw):
        before = leaves((args, kw))
        try:
            out = fn(*args, **kw)
        except (Violation, Skip):
            raise
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-2:])
            raise Violation(
                f"{name}({', '.join(map(_shape, args))}) raised {type(e).__name__}: "
                f"{str(e).strip().splitlines()[0][:160] if str(e).strip() else ''} [{where}]"
            )
        after = leaves((args, kw))
        self.events[name] += 1
        self.checks += 1
        for path in before:
            if before[path] != after.get(path):
                raise Violation(f"{name}: the call modified its argument {path}")
        for a in _arrays(out):
            if a.dtype.kind in "fc" and not np.all(np.isfinite(a)):
                raise Violation(f"{name}: returned a non-finite number")
            if a.dtype.kind == "O":
                raise Violation(f"{name}: returned a non-numeric array")
        return out

    def raises(self, name, fn, *args, exc=Exception, **kw):
        """The call has to be refused with an exception of the given type."""
        self.events[name] += 1
        self.checks += 1
        try:
            out = fn(*args, **kw)
        except exc:
            return
        raise Violation(f"{name}: accepted an invalid input, returned {str(out)[:120]}")

    # -- oracles ----------------------------------------------------------------------------
    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, a, b, msg):
        self.checks += 1
        if not a == b:
            raise Violation(f"{msg}: got {a!r}, expected {b!r}"[:600])

    def close(self, a, b, msg, tol=1e-7, scale=None):
        """max |a - b| <= tol * (1 + max|b|)"""
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} instead of {b.shape}")
        if a.size == 0:
            return 0.0
        if not np.all(np.isfinite(a)):
            raise Violation(f"{msg}: non-finite value")
        s = 1.0 + (float(np.max(np.abs(b))) if scale is None else scale)
        e = float(np.max(np.abs(a - b))) / s
        if not e <= tol:
            raise Violation(f"{msg}: deviation {e:.3g} (relative to {s:.3g}, tolerance {tol:g})")
        self.maxerr = max(self.maxerr, e)
        return e

    def zero(self, a, msg, tol=1e-7, scale=0.0):
        a = np.asarray(a)
        return self.close(a, np.zeros(a.shape), msg, tol=tol, scale=scale)

    def feature(self, *f):
        self.features.add(":".join(map(str, f)))
