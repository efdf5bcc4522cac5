"""Common machinery: sub-checks, violations, counters, oracles' tolerances."""
from __future__ import annotations

import hashlib
import json
import math
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(BaseException):
    """The check itself (not the code under test) cannot go on."""


class Discard(Exception):
    """The generated case is outside of the property's domain."""


def require(cond, msg, *args):
    """Raise a Violation unless `cond` holds."""
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=0.0):
    """NaN-aware scalar comparison."""
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_array(a, b, rtol=1e-9, atol=0.0):
    """NaN-aware array comparison."""
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        tol = atol + rtol * np.maximum(np.abs(a), np.abs(b))
        ok = (np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(ok.all())


def require_same(a, b, what, rtol=1e-9, atol=0.0):
    """Require two arrays to be the same within the tolerance."""
    import numpy as np

    if not same_array(a, b, rtol, atol):
        aa, bb = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if aa.shape != bb.shape:
            raise Violation(f'{what}: shape {aa.shape} instead of {bb.shape}')
        with np.errstate(all='ignore'):
            bad = ~(
                (np.abs(aa - bb) <= atol + rtol * np.maximum(np.abs(aa), np.abs(bb)))
                | (aa == bb)
                | (np.isnan(aa) & np.isnan(bb))
            )
        where = np.argwhere(bad)[:3].tolist()
        raise Violation(
            f'{what}: got {[float(aa[tuple(i)]) for i in where]} '
            f'expected {[float(bb[tuple(i)]) for i in where]} at {where} '
            f'({int(bad.sum())} of {bad.size} differ)'
        )


def require_frame(a, b, what, rtol=1e-9, atol=0.0):
    """Require two numeric frames to have the same labels and values."""
    require(
        list(a.index) == list(b.index),
        '%s: row labels %s instead of %s',
        what, list(a.index)[:6], list(b.index)[:6],
    )
    require(
        list(a.columns) == list(b.columns),
        '%s: column labels %s instead of %s',
        what, list(a.columns)[:8], list(b.columns)[:8],
    )
    require_same(a.to_numpy(dtype=float), b.to_numpy(dtype=float), what, rtol, atol)


class Sub:
    """One executable statement (part of a property) over a case generator."""

    def __init__(self, name, strategy, fn, quick, thorough=None, desc=''):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.desc = desc


def case_key(name, case):
    """Identity of a case."""
    txt = name + json.dumps(case, sort_keys=True, default=str)
    return hashlib.sha1(txt.encode()).hexdigest()[:16]


def describe_exception(exc):
    """Short description of an exception of the code under test."""
    tb = traceback.extract_tb(exc.__traceback__)
    lines = [f'{f.filename}:{f.lineno} {f.name}' for f in tb[-4:]]
    return f'{type(exc).__name__}: {str(exc)[:300]} [{" <- ".join(reversed(lines))}]'
