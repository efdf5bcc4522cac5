"""Shared generators. Every random choice of a case is made here or in a module's strategy."""
from __future__ import annotations

from hypothesis import strategies as st


def fl(lo, hi, digits=6):
    """Floats between `lo` and `hi` with a limited number of digits."""
    def rnd(x):
        r = float(f'{x:.{digits}g}')
        if abs(r) < 1e-9:
            r = 0.0
        return min(max(r, lo), hi)

    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(rnd)


def logfl(lo_exp, hi_exp, digits=5):
    """Positive floats, log-uniform between 10**lo_exp and 10**hi_exp."""
    return st.floats(lo_exp, hi_exp, allow_nan=False).map(
        lambda e: float(f'{10.0**e:.{digits}g}'))


def maybe(strategy, p=0.5):
    """None with probability of about 1 - p."""
    k = max(1, round(p * 10))
    return st.integers(0, 9).flatmap(
        lambda i: strategy if i < k else st.none())


def seeds():
    """Seeds of random generators of the code under test."""
    return st.integers(0, 2**31 - 1)


def subset(items, min_size=0):
    """Ordered subsets."""
    return st.lists(st.sampled_from(items), unique=True, min_size=min_size)


def probs():
    """Probabilities in the closed unit interval, including its ends."""
    return st.one_of(
        st.floats(0.0, 1.0, exclude_max=False),
        st.floats(0.001, 0.999),
        st.sampled_from([0.0, 1.0, 0.5, 1e-9, 1 - 1e-9]),
    )
