"""C01: random variables follow their (truncated) distributions."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st
from pelicun import uq

from pbt import ref_dist as R
from pbt.core import Sub, Violation, require, require_same
from pbt.gen import fl, logfl, probs, seeds

RULE = (
    'A case counts when it has at least one truncation limit, or parameters that vary '
    'by realization, or a tabulated (multilinear/empirical/multinomial) variable, or '
    'a non-unit scale factor; plain untruncated cases do not count.'
)
ASSUMPTIONS = [
    'truncation limits leave at least 1e-4 of the probability mass, except where the '
    'refusal of limits without mass is checked',
    'values agree to 1e-7 in probability or 1e-7 relative in value',
]
QUICK_S = 45

KINDS = ['normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform', 'weibull']


@st.composite
def theta_of(draw, kind):
    sc = draw(logfl(-4, 5))
    if kind in {'normal', 'normal_cov'}:
        return [draw(st.sampled_from([1, 1, 1, -1])) * sc, draw(fl(0.02, 2.0))]
    if kind == 'normal_std':
        return [draw(fl(-3, 3)) * sc, sc * draw(fl(0.02, 2.0))]
    if kind == 'lognormal':
        return [sc, draw(fl(0.02, 1.5))]
    if kind == 'uniform':
        lo = draw(fl(-3, 3)) * sc
        return [lo, lo + sc * draw(fl(0.1, 3))]
    return [sc, draw(fl(0.4, 6.0))]


@st.composite
def limits_of(draw, kind, theta):
    """Truncation limits at random probabilities or outside of the support."""
    mode = draw(st.sampled_from(['none', 'low', 'high', 'both', 'both', 'out']))
    p1 = draw(fl(0.0005, 0.8))
    p2 = p1 + (1 - p1) * draw(fl(0.01, 0.995))
    lo, hi = R.base_ppf(kind, theta, p1), R.base_ppf(kind, theta, p2)
    if mode == 'none':
        return [None, None]
    if mode == 'low':
        return [lo, None]
    if mode == 'high':
        return [None, hi]
    if mode == 'out':
        if kind in {'lognormal', 'weibull'}:
            # a lower limit at or below the end of the support limits nothing
            lo = draw(st.sampled_from([0.0, -1.0 * hi, -1e-3]))
        else:
            lo = lo - 2 * (hi - lo)
        return [lo, draw(st.sampled_from([None, hi]))]
    return [lo, hi]


@st.composite
def truncated(draw):
    kind = draw(st.sampled_from(KINDS))
    theta = draw(theta_of(kind))
    lim = draw(limits_of(kind, theta))
    return {
        'kind': kind, 'theta': theta, 'lim': lim,
        'p': draw(st.lists(probs(), min_size=1, max_size=6)),
        'xp': draw(st.lists(fl(0.0001, 0.9999), min_size=0, max_size=5)),
        'out': draw(st.booleans()),
    }


def make(kind, theta, lim, **kw):
    t = None
    if lim is not None and any(v is not None for v in lim):
        t = np.array([np.nan if v is None else v for v in lim], dtype=float)
    return uq.rv_class_map(kind)('rv', np.array(theta, dtype=float), t, **kw)


def grid_of(case):
    kind, theta, lim = case['kind'], case['theta'], case['lim']
    xs = [R.base_ppf(kind, theta, p) for p in case['xp']]
    lo = R.base_ppf(kind, theta, 0.2)
    hi = R.base_ppf(kind, theta, 0.8)
    if case['out']:
        xs += [lo - 5 * (hi - lo), hi + 7 * (hi - lo), 0.0, -abs(hi)]
    xs += [v for v in lim if v is not None]
    return sorted(xs)


def check_ppf(kind, theta, lim, p, q, what):
    """The value q is the quantile of probability p."""
    ref = R.ppf(kind, theta, lim, p)
    require(not math.isnan(q), '%s: the quantile at %r is NaN (expected %r)', what, p,
            ref)
    tol = 1e-9 * max(abs(q), abs(ref), abs(theta[0]))
    if lim[0] is not None:
        require(q >= lim[0] - tol, '%s: %r is below the lower limit %r', what, q, lim[0])
    if lim[1] is not None:
        require(q <= lim[1] + tol, '%s: %r is above the upper limit %r', what, q, lim[1])
    if q == ref or abs(q - ref) <= 1e-7 * max(abs(q), abs(ref)):
        return
    back = R.cdf(kind, theta, lim, q)
    require(abs(back - p) < 1e-7, '%s: the quantile at %r is %r instead of %r', what, p,
            q, ref)


def run_truncated(case):
    kind, theta, lim = case['kind'], case['theta'], case['lim']
    rv = make(kind, theta, lim)
    what = f'{kind}{theta} limits {lim}'
    x = np.array(grid_of(case), dtype=float)
    if len(x):
        x0 = x.copy()
        got = np.asarray(rv.cdf(x), dtype=float)
        require_same(x, x0, f'{what}: cdf changed its argument')
        exp = [R.cdf(kind, theta, lim, v) for v in x]
        require_same(got, exp, f'{what}: cdf at {x.tolist()}', rtol=1e-7, atol=1e-8)
        require(bool(np.all(np.diff(got) >= -1e-12)), '%s: cdf decreases', what)
    p = np.array(sorted(case['p']))
    p0 = p.copy()
    q = np.asarray(rv.inverse_transform(p), dtype=float)
    require_same(p, p0, f'{what}: inverse changed its argument')
    require(q.shape == p.shape, '%s: shape %s', what, q.shape)
    for pi, qi in zip(p, q):
        check_ppf(kind, theta, lim, float(pi), float(qi), what)
    # the object is unchanged by its use
    q2 = np.asarray(rv.inverse_transform(p), dtype=float)
    require_same(q2, q, f'{what}: a second evaluation differs')
    n = sum(v is not None for v in lim)
    return {'nontrivial': n > 0, 'tags': [kind, f'{n} limits']}


@st.composite
def variable(draw):
    kind = draw(st.sampled_from(['normal_std', 'lognormal', 'normal_raw']))
    base = 'normal_std' if kind != 'lognormal' else kind
    rows = draw(st.lists(theta_of(base), min_size=1, max_size=5))
    mode = draw(st.sampled_from(['none', 'shared', 'rows']))
    n = len(rows)
    lims = [[None, None]] * n
    if mode == 'shared':
        lim = draw(limits_of(base, rows[0]))
        lims = [lim] * n
    elif mode == 'rows':
        lims = [draw(limits_of(base, r)) for r in rows]
    return {'kind': kind, 'base': base, 'rows': rows, 'mode': mode, 'lims': lims,
            'p': draw(st.lists(fl(0, 1), min_size=n, max_size=n))}


def run_variable(case):
    rows, lims, base = case['rows'], case['lims'], case['base']
    for r, lim in zip(rows, lims):
        pa, pb = R.mass(base, r, lim)
        if pb - pa < 1e-5:
            return {'nontrivial': False, 'tags': ['no mass']}
    cls = (uq.LogNormalRandomVariable if case['kind'] == 'lognormal'
           else uq.NormalRandomVariable)
    t = np.array(lims, dtype=object)
    t = np.array([[np.nan if v is None else v for v in r] for r in lims], dtype=float)
    if case['mode'] == 'none':
        t = None
    elif case['mode'] == 'shared':
        t = t[0]
    rv = cls('rv', np.array(rows, dtype=float), t)
    p = np.array(case['p'])
    q = np.asarray(rv.inverse_transform(p), dtype=float)
    require(q.shape == p.shape, 'shape %s', q.shape)
    for r, lim, pi, qi in zip(rows, lims, p, q):
        check_ppf(base, r, lim, float(pi), float(qi), f'row {r} limits {lim}')
    x = np.array([R.ppf(base, r, lim, min(max(pi, 0.001), 0.999))
                  for r, lim, pi in zip(rows, lims, p)])
    got = rv.cdf(x)
    exp = [R.cdf(base, r, lim, xi) for r, lim, xi in zip(rows, lims, x)]
    require_same(got, exp, f'cdf of {rows} {lims}', rtol=1e-7, atol=1e-8)
    return {'nontrivial': len(rows) > 1, 'tags': [case['kind'], case['mode']]}


@st.composite
def tabulated(draw):
    kind = draw(st.sampled_from(
        ['multilinear_CDF', 'empirical', 'coupled_empirical', 'multinomial',
         'deterministic']))
    out = {'kind': kind, 'p': draw(st.lists(
        st.one_of(fl(0, 0.999999), st.floats(0, 1, exclude_max=True)),
        min_size=1, max_size=8))}
    if kind == 'multilinear_CDF':
        n = draw(st.integers(2, 5))
        dx = draw(st.lists(fl(0.05, 4), min_size=n - 1, max_size=n - 1))
        dy = draw(st.lists(fl(0.05, 1), min_size=n - 1, max_size=n - 1))
        x0 = draw(fl(-3, 5))
        xs = [x0] + (x0 + np.cumsum(dx)).tolist()
        ys = [0.0] + (np.cumsum(dy) / sum(dy)).tolist()
        ys[-1] = 1.0
        out['theta'] = [list(t) for t in zip(xs, ys)]
        out['x'] = draw(st.lists(fl(-5, 20), max_size=6))
    elif kind == 'multinomial':
        n = draw(st.integers(1, 5))
        w = draw(st.lists(fl(0.0, 1), min_size=n, max_size=n))
        s = sum(w) or 1.0
        if s == 0 or sum(w) == 0:
            w = [1.0] * n
            s = float(n)
        tot = draw(st.sampled_from([1.0, 1.0, 0.9, 0.5]))
        out['theta'] = [float(f'{v / s * tot * 0.999999:.9g}') for v in w]
    elif kind == 'deterministic':
        out['theta'] = [draw(fl(-100, 100))]
        out['n'] = draw(st.integers(1, 9))
    else:
        out['theta'] = draw(st.lists(fl(-100, 100), min_size=1, max_size=7))
        out['n'] = draw(st.integers(1, 25))
    return out


def run_tabulated(case):
    kind, theta = case['kind'], case['theta']
    rv = uq.rv_class_map(kind)('rv', np.array(theta, dtype=float))
    p = np.array(case['p'])
    p0 = p.copy()
    if kind in {'deterministic', 'coupled_empirical'}:
        got = list(rv.inverse_transform(case['n']))
        exp = [theta[i % len(theta)] for i in range(case['n'])]
    else:
        got = list(rv.inverse_transform(p.copy()))
        exp = []
        for v in p:
            if kind == 'empirical':
                exp.append(theta[int(v * len(theta))])
            elif kind == 'multinomial':
                c, k = 0.0, len(theta) - 1
                for i in range(len(theta) - 1):
                    c += theta[i]
                    if v < c:
                        k = i
                        break
                near = [abs(v - s) < 1e-12 for s in np.cumsum(theta)]
                exp.append(got[len(exp)] if any(near) else k)
            else:
                for (x1, y1), (x2, y2) in zip(theta[:-1], theta[1:]):
                    if v <= y2:
                        exp.append(x1 + (v - y1) / (y2 - y1) * (x2 - x1))
                        break
        q = p.copy()
        rv.inverse_transform(q)
        require_same(q, p0, f'{kind}: the evaluation changed its argument')
    require_same(got, exp, f'{kind} {theta} at {case["p"]}', rtol=1e-9, atol=1e-9)
    if kind == 'multilinear_CDF' and case['x']:
        got = rv.cdf(np.array(case['x']))
        exp = []
        for v in case['x']:
            if v <= theta[0][0]:
                exp.append(0.0)
            elif v >= theta[-1][0]:
                exp.append(1.0)
            else:
                for (x1, y1), (x2, y2) in zip(theta[:-1], theta[1:]):
                    if v <= x2:
                        exp.append(y1 + (v - x1) / (x2 - x1) * (y2 - y1))
                        break
        require_same(got, exp, f'multilinear cdf {theta} at {case["x"]}', 1e-9, 1e-9)
    return {'tags': [kind]}


@st.composite
def refused(draw):
    kind = draw(st.sampled_from(['normal', 'normal_std', 'lognormal', 'weibull']))
    theta = draw(theta_of(kind))
    p1 = draw(fl(0.05, 0.5))
    p2 = draw(fl(0.6, 0.95))
    mode = draw(st.sampled_from(['swapped', 'equal', 'below']))
    if mode == 'below' and kind in {'normal', 'normal_std'}:
        mode = 'swapped'
    return {'kind': kind, 'theta': theta, 'mode': mode, 'p': [p1, p2]}


def run_refused(case):
    kind, theta = case['kind'], case['theta']
    lo, hi = (R.base_ppf(kind, theta, p) for p in case['p'])
    lim = {'swapped': [hi, lo], 'equal': [hi, hi], 'below': [None, -abs(hi)]}[
        case['mode']]
    rv = make(kind, theta, lim)
    for what, fn in (('inverse', rv.inverse_transform), ('cdf', rv.cdf)):
        try:
            with np.errstate(all='ignore'):
                res = fn(np.array([0.3, 0.6]))
        except ValueError:
            continue
        raise Violation(
            f'{kind}{theta}: limits {lim} leave no probability mass, and the {what} '
            f'returned {np.asarray(res).tolist()} instead of an error')
    return {'tags': [kind, case['mode']]}


@st.composite
def scaled(draw):
    kind = draw(st.sampled_from(KINDS[:5] + ['deterministic', 'nan']))
    if kind in {'deterministic', 'nan'}:
        theta = [draw(fl(-50, 50))]
        lim = [None, None]
    else:
        theta = draw(theta_of(kind))
        lim = draw(limits_of(kind, theta))
    return {'kind': kind, 'theta': theta, 'lim': lim, 'f': draw(logfl(-3, 3)),
            'p': draw(st.lists(fl(0.001, 0.999), min_size=1, max_size=4))}


def run_scaled(case):
    kind, theta, lim, f = case['kind'], case['theta'], case['lim'], case['f']
    t = None
    if any(v is not None for v in lim):
        t = np.array([np.nan if v is None else v for v in lim], dtype=float)
    th = np.array(theta + [0.0] * (2 - len(theta)), dtype=float)
    th0, t0 = th.copy(), None if t is None else t.copy()
    fam = np.nan if kind == 'nan' else kind
    new, nlim = uq.scale_distribution(f, fam, th, t)
    require_same(th, th0, 'the parameters given were changed')
    if t is not None:
        require_same(t, t0, 'the limits given were changed')
        require(nlim is not None, 'the limits were lost')
    if kind in {'deterministic', 'nan'}:
        require_same([new[0]], [theta[0] * f], 'scaled value', 1e-12)
        return {'tags': [kind]}
    what = f'{kind}{theta} limits {lim} times {f}'
    flim = [None if v is None else v * f for v in lim]
    rv = uq.rv_class_map(kind)('rv', new, nlim)
    for p, q in zip(case['p'], rv.inverse_transform(np.array(case['p']))):
        exp = f * R.ppf(kind, theta, lim, p)
        if abs(q - exp) <= 1e-7 * max(abs(exp), abs(f * theta[0])):
            continue
        back = R.cdf(kind, theta, lim, q / f)
        require(abs(back - p) < 1e-7, '%s: the quantile at %r is %r instead of %r (%s)',
                what, p, q, exp, flim)
    return {'nontrivial': f != 1.0, 'tags': [kind]}


@st.composite
def used(draw):
    kind = draw(st.sampled_from(KINDS))
    theta = draw(theta_of(kind))
    return {'kind': kind, 'theta': theta, 'lim': draw(limits_of(kind, theta)),
            'n': draw(st.integers(1, 30)), 'seed': draw(seeds()),
            'f': draw(st.sampled_from(['none', 'double', 'clip']))}


def run_used(case):
    """The sample of a registered variable is the mapped quantile of its uniform one."""
    fmap = {'none': None, 'double': lambda x: x * 2.0 + 1.0,
            'clip': lambda x: np.maximum(x, case['theta'][0])}[case['f']]
    rv = make(case['kind'], case['theta'], case['lim'], f_map=fmap)
    reg = uq.RandomVariableRegistry(np.random.default_rng(case['seed']))
    reg.add_RV(rv)
    reg.generate_sample(case['n'], 'MonteCarlo')
    u = np.asarray(rv.uni_sample)
    exp = np.array([R.ppf(case['kind'], case['theta'], case['lim'], p) for p in u])
    if fmap:
        exp = fmap(exp)
    got = np.asarray(rv.sample)
    require_same(got, exp, 'sample', rtol=1e-6, atol=1e-7 * abs(case['theta'][0]))
    require_same(np.asarray(rv.sample_DF), got, 'sample as a series')
    require_same(reg.RV_sample['rv'], got, 'sample of the registry')
    return {'nontrivial': case['f'] != 'none' or case['lim'] != [None, None],
            'tags': [case['kind'], case['f']]}


SUBS = [
    Sub('truncated', truncated(), run_truncated, 1500, 40000),
    Sub('variable', variable(), run_variable, 500, 12000),
    Sub('tabulated', tabulated(), run_tabulated, 700, 15000),
    Sub('refused', refused(), run_refused, 200, 3000),
    Sub('scaled', scaled(), run_scaled, 500, 12000),
    Sub('used', used(), run_used, 400, 8000),
]
