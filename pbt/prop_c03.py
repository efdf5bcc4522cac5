"""C03: correlated sets of random variables."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st
from pelicun import uq
from scipy.special import ndtr, ndtri
from scipy.stats import multivariate_normal

from pbt import ref_dist as R
from pbt.core import Sub, require, require_same
from pbt.gen import fl, seeds
from pbt.prop_c01 import limits_of, make, theta_of

RULE = (
    'A case counts when the set has at least two variables and a correlation matrix '
    'other than the identity, or a box limited in at least one direction.'
)
ASSUMPTIONS = [
    'correlation matrices are positive semidefinite with a unit diagonal',
    'box probabilities agree to 2e-3 (3 or more variables) or 1e-6 (1 or 2 variables)',
]
QUICK_S = 45


@st.composite
def corr(draw, k):
    """Correlation matrices of various structures."""
    mode = draw(st.sampled_from(['factor', 'equi', 'ones', 'identity', 'block',
                                 'signed']))
    if mode == 'identity' or k == 1:
        return np.eye(k).tolist()
    if mode == 'ones':
        return np.ones((k, k)).tolist()
    if mode == 'signed':
        s = np.array(draw(st.lists(st.sampled_from([1.0, -1.0]), min_size=k,
                                   max_size=k)))
        return np.outer(s, s).tolist()
    if mode == 'equi':
        r = draw(fl(0.0, 0.99))
        return (np.eye(k) * (1 - r) + r).tolist()
    if mode == 'block':
        m = np.eye(k)
        c = draw(st.integers(1, k))
        m[:c, :c] = 1.0
        return m.tolist()
    w = np.array(draw(st.lists(st.lists(fl(-1, 1), min_size=k, max_size=k),
                               min_size=k, max_size=k)))
    m = w @ w.T + 0.02 * np.eye(k)
    d = np.sqrt(np.diag(m))
    m = m / np.outer(d, d)
    m = np.round((m + m.T) / 2, 6)
    np.fill_diagonal(m, 1.0)
    if np.linalg.eigvalsh(m).min() < 1e-6:
        m = 0.9 * m + 0.1 * np.eye(k)
    return m.tolist()


@st.composite
def sets(draw):
    k = draw(st.integers(1, 5))
    names = draw(st.permutations([f'{c}-{i}' for i, c in enumerate('bacfe'[:k])]))
    kinds = [draw(st.sampled_from(['normal_std', 'lognormal', 'uniform', 'weibull']))
             for _ in range(k)]
    return {
        'names': names, 'kinds': kinds, 'theta': [draw(theta_of(x)) for x in kinds],
        'rho': draw(corr(k)), 'seed': draw(seeds()),
        'n': draw(st.integers(30, 60)),
        'method': draw(st.sampled_from(['MonteCarlo', 'LHS', 'LHS_midpoint'])),
        'perm': draw(st.permutations(list(range(k)))),
        'extra': draw(st.booleans()),
    }


def registry(case, perm=None):
    k = len(case['names'])
    reg = uq.RandomVariableRegistry(np.random.default_rng(case['seed']))
    objs = [make(kd, th, None) for kd, th in zip(case['kinds'], case['theta'])]
    for o, nm in zip(objs, case['names']):
        o.name = nm
        reg.add_RV(o)
    extra = None
    if case['extra']:
        extra = uq.UniformRandomVariable('zz', np.array([0.0, 1.0]), anchor=objs[0])
        reg.add_RV(extra)
    rho = np.array(case['rho'])
    idx = list(range(k)) if perm is None else perm
    rset = uq.RandomVariableSet('s', [objs[i] for i in idx], rho[np.ix_(idx, idx)])
    reg.add_RV_set(rset)
    return reg, objs, rset, extra


def run_sets(case):
    k, n = len(case['names']), case['n']
    rho = np.array(case['rho'])
    reg, objs, rset, extra = registry(case)
    # transformation of a known uniform sample
    rng = np.random.default_rng(case['seed'])
    u = rng.random((k, n))
    for o, ui in zip(objs, u):
        o.uni_sample = ui.copy()
    rset.apply_correlation()
    uc = np.array([o.uni_sample for o in objs])
    z, zc = ndtri(u), ndtri(uc)
    coef, *_ = np.linalg.lstsq(z.T, zc.T, rcond=None)
    a = coef.T
    scale = np.abs(zc).max()
    ok = np.abs(zc) < 5
    require(bool(np.all(np.abs((a @ z - zc)[ok]) < 1e-6 * max(1, scale))),
            'the correlated sample is not a linear map of the independent one in '
            'standard normal space: %r', float(np.abs((a @ z - zc)[ok]).max()))
    require_same(a @ a.T, rho, f'correlation of {case["names"]}', 1e-5, 1e-5)
    # sub-matrix access by name
    sub = [case['names'][i] for i in case['perm']]
    require_same(rset.Rho(sub), rho[np.ix_(case['perm'], case['perm'])],
                 'correlation of a subset', 0, 1e-12)
    # sampling through the registry
    reg.generate_sample(n, case['method'])
    smp = {nm: np.array(v, dtype=float) for nm, v in reg.RV_sample.items()}
    for o, kd, th in zip(objs, case['kinds'], case['theta']):
        exp = [R.ppf(kd, th, [None, None], p) for p in np.asarray(o.uni_sample)]
        require_same(smp[o.name], exp, f'sample of {o.name}', 1e-6,
                     1e-7 * abs(th[0]))
    for i in range(k):
        for j in range(i):
            if rho[i, j] == 1.0:
                require_same(objs[i].uni_sample, objs[j].uni_sample,
                             'perfectly correlated variables', 1e-6, 1e-6)
    if extra is not None:
        require_same(extra.sample, objs[0].uni_sample,
                     'a variable anchored to a member of the set', 1e-12)
    # the order in which the members are listed does not matter
    reg2, *_ = registry(case, case['perm'])
    reg2.generate_sample(n, case['method'])
    for nm, v in reg2.RV_sample.items():
        require_same(v, smp[nm], f'{nm}: sample with the members listed as '
                     f'{case["perm"]}', 1e-12, 1e-14)
    require({m: None for m in sorted(case['names'])}.keys() == rset.sample.keys(),
            'members of the set')
    return {'nontrivial': k > 1 and not np.array_equal(rho, np.eye(k)),
            'tags': [f'k={k}', case['method']]}


@st.composite
def bulk(draw):
    k = draw(st.integers(2, 3))
    return {'k': k, 'rho': draw(corr(k)), 'seed': draw(seeds()),
            'method': draw(st.sampled_from(['MonteCarlo', 'LHS', 'LHS_midpoint']))}


def run_bulk(case):
    n, k = 1500, case['k']
    reg = uq.RandomVariableRegistry(np.random.default_rng(case['seed']))
    objs = [uq.Normal_STD(f'n{i}', np.array([0.0, 1.0])) for i in range(k)]
    for o in objs:
        reg.add_RV(o)
    rho = np.array(case['rho'])
    reg.add_RV_set(uq.RandomVariableSet('s', objs, rho))
    reg.generate_sample(n, case['method'])
    x = np.array([o.sample for o in objs])
    for i in range(k):
        u = np.sort(ndtr(x[i]))
        d = np.max(np.abs(u - (np.arange(n) + 0.5) / n))
        require(d < 3.6 / math.sqrt(n), 'marginal %d: KS distance %r', i, d)
        for j in range(i):
            r = np.corrcoef(x[i], x[j])[0, 1]
            require(abs(r - rho[i, j]) < 7 * (1 - rho[i, j] ** 2) / math.sqrt(n) + 0.01,
                    'correlation %r instead of %r', r, rho[i, j])
    return {'nontrivial': not np.array_equal(rho, np.eye(k)), 'tags': [case['method']]}


@st.composite
def boxes(draw):
    k = draw(st.integers(1, 3))
    kinds = [draw(st.sampled_from(['normal_std', 'lognormal', 'uniform', 'weibull']))
             for _ in range(k)]
    theta = [draw(theta_of(x)) for x in kinds]
    lim = [draw(limits_of(x, t)) for x, t in zip(kinds, theta)]
    nb = 1
    side = st.one_of(st.none(), fl(0.02, 0.98))
    rho = draw(corr(k))
    m = np.array(rho)
    if k > 1 and np.linalg.eigvalsh(m).min() < 1e-3:
        m = 0.8 * m + 0.2 * np.eye(k)
    return {
        'kinds': kinds, 'theta': theta, 'lim': lim, 'rho': m.tolist(),
        'box': [[[draw(side), draw(side)] for _ in range(nb)] for _ in range(k)],
        'perm': draw(st.permutations(list(range(k)))),
        'few': draw(st.integers(1, k)), 'form': draw(st.sampled_from(
            ['array', 'array', 'scalar', 'omitted'])), 'all': draw(st.booleans()),
    }


def run_boxes(case):
    k = len(case['kinds'])
    nb = len(case['box'][0])
    objs = [make(a, b, c) for a, b, c in zip(case['kinds'], case['theta'], case['lim'])]
    names = [f'{c}{i}' for i, c in enumerate('cab'[:k])]
    for o, nm in zip(objs, names):
        o.name = nm
    rho = np.array(case['rho'])
    idx = case['perm']
    rset = uq.RandomVariableSet('s', [objs[i] for i in idx], rho[np.ix_(idx, idx)])
    # the variables that are considered
    k = case['few']
    names, rho = names[:k], rho[:k, :k]
    lo = np.full((k, nb), np.nan)
    hi = np.full((k, nb), np.nan)
    plo = np.zeros((k, nb))
    phi = np.ones((k, nb))
    for i in range(k):
        for j in range(nb):
            a, b = case['box'][i][j]
            if a is not None and b is not None and a > b:
                a, b = b, a
            t = (case['kinds'][i], case['theta'][i], case['lim'][i])
            if a is not None:
                lo[i, j] = R.ppf(*t, a)
                plo[i, j] = a
            if b is not None:
                hi[i, j] = R.ppf(*t, b)
                phi[i, j] = b
    lo0, hi0 = lo.copy(), hi.copy()
    args = {'lower': lo, 'upper': hi, 'var_subset': names}
    if k == 1 and case['form'] == 'scalar':
        args.update(lower=float(lo[0, 0]), upper=float(hi[0, 0]))
    if case['form'] == 'omitted':
        args = {x: y for x, y in args.items()
                if x == 'var_subset' or not np.all(np.isnan(y))}
    if list(rset.RV) == names and case['all']:
        del args['var_subset']
    got = np.asarray(rset.orthotope_density(**args), dtype=float)
    require_same(lo, lo0, 'the lower limits given were changed', 0)
    require_same(hi, hi0, 'the upper limits given were changed', 0)
    free = bool(np.all(np.isnan(lo)) and np.all(np.isnan(hi)))
    if free:
        require(np.allclose(got, 1.0), 'an unlimited box has probability %s', got)
        return {'nontrivial': False, 'tags': ['free']}
    require(got.shape == (nb,), '%d boxes, %s probabilities', nb, got.shape)
    zl, zh = ndtri(plo), ndtri(phi)
    for j in range(nb):
        if k == 1:
            exp = phi[0, j] - plo[0, j]
        elif np.array_equal(rho, np.eye(k)):
            exp = float(np.prod(phi[:, j] - plo[:, j]))
        else:
            exp = float(multivariate_normal(np.zeros(k), rho, seed=1).cdf(
                np.clip(zh[:, j], -9, 9), lower_limit=np.clip(zl[:, j], -9, 9)))
        require(abs(got[j] - exp) < (2e-3 if k > 2 else 1e-5),
                'probability %r of box %s instead of %r', got[j],
                [case['box'][i][j] for i in range(k)], exp)
    return {'tags': [f'k={k}', case['form']]}


@st.composite
def mvn_boxes(draw):
    k = draw(st.integers(1, 3))
    rho = np.array(draw(corr(k)))
    if k > 1 and np.linalg.eigvalsh(rho).min() < 1e-3:
        rho = 0.8 * rho + 0.2 * np.eye(k)
    side = st.one_of(st.none(), fl(-2.5, 2.5))
    return {'mu': [draw(fl(-5, 5)) for _ in range(k)],
            'sd': [draw(fl(0.1, 4)) for _ in range(k)], 'rho': rho.tolist(),
            'box': [[draw(side), draw(side)] for _ in range(k)]}


def run_mvn(case):
    """Probability of a box under a multivariate normal distribution."""
    mu, sd, rho = (np.array(case[x]) for x in ('mu', 'sd', 'rho'))
    k = len(mu)
    cov = rho * np.outer(sd, sd)
    lo, hi = np.full(k, np.nan), np.full(k, np.nan)
    for i, (a, b) in enumerate(case['box']):
        if a is not None and b is not None and a > b:
            a, b = b, a
        if a is not None:
            lo[i] = mu[i] + sd[i] * a
        if b is not None:
            hi[i] = mu[i] + sd[i] * b
    lo0, hi0, cov0 = lo.copy(), hi.copy(), cov.copy()
    got, err = uq.mvn_orthotope_density(mu, cov, lo, hi)
    require_same(lo, lo0, 'the lower limits given were changed', 0)
    require_same(hi, hi0, 'the upper limits given were changed', 0)
    require_same(cov, cov0, 'the covariance given was changed', 0)
    zl = np.where(np.isnan(lo), -9, (lo - mu) / sd)
    zh = np.where(np.isnan(hi), 9, (hi - mu) / sd)
    if k == 1:
        exp = float(ndtr(zh[0]) - ndtr(zl[0]))
    else:
        exp = float(multivariate_normal(np.zeros(k), rho, seed=1).cdf(
            zh, lower_limit=zl))
    require(abs(got - exp) < (2e-3 if k > 2 else 1e-5), 'probability %r instead of %r',
            got, exp)
    return {'tags': [f'k={k}']}


def box_given_as_a_vector():
    """One box over two variables, its limits given as two-element vectors."""
    objs = [uq.Normal_STD(n, np.array([0.0, 1.0])) for n in 'ab']
    rset = uq.RandomVariableSet('s', objs, np.eye(2))
    got = np.atleast_1d(rset.orthotope_density(
        np.array([0.0, 1.0]), np.array([np.nan, np.nan])))
    exp = 0.5 * float(ndtr(-1.0))
    return got.shape != (1,) or abs(got[0] - exp) > 1e-6


KNOWN = {'orthotope-vector-limits': box_given_as_a_vector}

SUBS = [
    Sub('sets', sets(), run_sets, 700, 12000),
    Sub('bulk', bulk(), run_bulk, 90, 1500),
    Sub('boxes', boxes(), run_boxes, 400, 6000),
    Sub('mvn', mvn_boxes(), run_mvn, 300, 5000),
]
