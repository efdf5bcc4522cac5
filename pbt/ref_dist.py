"""Reference distributions: closed forms over math/scipy.special, independent of pelicun."""
from __future__ import annotations

import math

from scipy.special import ndtr, ndtri

NAN = float('nan')
INF = float('inf')


def base_cdf(kind, theta, x):
    """CDF of the distribution without truncation."""
    if kind in {'normal', 'normal_cov'}:
        mu, sd = theta[0], abs(theta[0]) * theta[1]
        return float(ndtr((x - mu) / sd))
    if kind == 'normal_std':
        return float(ndtr((x - theta[0]) / theta[1]))
    if kind == 'lognormal':
        if x <= 0:
            return 0.0
        if x == INF:
            return 1.0
        return float(ndtr((math.log(x) - math.log(theta[0])) / theta[1]))
    if kind == 'uniform':
        a, b = theta
        return min(max((x - a) / (b - a), 0.0), 1.0) if abs(x) < INF else (
            0.0 if x < 0 else 1.0)
    if kind == 'weibull':
        lam, k = theta
        if x <= 0:
            return 0.0
        if x == INF:
            return 1.0
        try:
            return -math.expm1(-((x / lam) ** k))
        except OverflowError:
            return 1.0
    raise KeyError(kind)


def base_ppf(kind, theta, p):
    """Quantile of the distribution without truncation."""
    if kind in {'normal', 'normal_cov'}:
        return theta[0] + abs(theta[0]) * theta[1] * float(ndtri(p))
    if kind == 'normal_std':
        return theta[0] + theta[1] * float(ndtri(p))
    if kind == 'lognormal':
        z = float(ndtri(p))
        return 0.0 if z == -INF else math.exp(math.log(theta[0]) + theta[1] * z)
    if kind == 'uniform':
        return theta[0] + p * (theta[1] - theta[0])
    if kind == 'weibull':
        return theta[0] * (-math.log1p(-p)) ** (1 / theta[1]) if p < 1 else INF
    raise KeyError(kind)


def mass(kind, theta, lim):
    """Probabilities at the truncation limits."""
    lo, hi = lim
    pa = 0.0 if lo is None else base_cdf(kind, theta, lo)
    pb = 1.0 if hi is None else base_cdf(kind, theta, hi)
    return pa, pb


def cdf(kind, theta, lim, x):
    """CDF of the truncated distribution; limits of None mean no limit."""
    lo, hi = lim
    pa, pb = mass(kind, theta, lim)
    if lo is not None and x <= lo:
        return 0.0
    if hi is not None and x >= hi:
        return 1.0
    return (base_cdf(kind, theta, x) - pa) / (pb - pa)


def ppf(kind, theta, lim, p):
    """Quantile of the truncated distribution."""
    pa, pb = mass(kind, theta, lim)
    return base_ppf(kind, theta, pa + p * (pb - pa))
