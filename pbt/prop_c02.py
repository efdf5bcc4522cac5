"""C02: sampling designs, seeds, anchors."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st
from pelicun import uq

from pbt.core import Sub, Violation, require, require_same
from pbt.gen import fl, seeds

RULE = (
    'A case counts when at least two random variables are sampled together with at '
    'least three realizations.'
)
ASSUMPTIONS = [
    'statistical statements (independence, uniformity) are only rejected at odds below '
    '1e-9 for the fixed seeds used',
]
QUICK_S = 45
METHODS = ['MonteCarlo', 'LHS', 'LHS_midpoint']
KINDS = ['normal_std', 'lognormal', 'uniform', 'weibull', 'multilinear_CDF',
         'empirical', 'multinomial', 'deterministic', 'coupled_empirical']
THETA = {
    'normal_std': [1.0, 0.5], 'lognormal': [2.0, 0.4], 'uniform': [-1.0, 3.0],
    'weibull': [2.0, 1.5], 'multilinear_CDF': [[0.0, 0.0], [1.0, 0.3], [4.0, 1.0]],
    'empirical': [5.0, 1.0, 3.0, 2.0], 'multinomial': [0.2, 0.3, 0.4],
    'deterministic': [7.0], 'coupled_empirical': [4.0, 9.0, 1.0],
}


@st.composite
def designs(draw, max_n=60):
    k = draw(st.integers(1, 7))
    rvs = []
    for i in range(k):
        kind = draw(st.sampled_from(KINDS))
        free = [j for j in range(i) if rvs[j]['kind'] not in {
            'deterministic', 'coupled_empirical'}]
        anchor = None
        if free and kind not in {'deterministic', 'coupled_empirical'}:
            anchor = draw(st.one_of(st.none(), st.none(), st.sampled_from(free)))
        rvs.append({'kind': kind, 'anchor': anchor})
    order = draw(st.permutations(list(range(k))))
    return {
        'rvs': rvs, 'order': order, 'n': draw(st.integers(1, max_n)),
        'method': draw(st.sampled_from(METHODS)), 'seed': draw(seeds()),
        'again': draw(st.booleans()),
    }


def build(case, seed=None):
    rng = np.random.default_rng(case['seed'] if seed is None else seed)
    reg = uq.RandomVariableRegistry(rng)
    objs = []
    for i, r in enumerate(case['rvs']):
        anchor = None if r['anchor'] is None else objs[r['anchor']]
        kw = {} if anchor is None else {'anchor': anchor}
        objs.append(uq.rv_class_map(r['kind'])(
            f'rv{i}', np.array(THETA[r['kind']], dtype=float), **kw))
    for i in case['order']:
        reg.add_RV(objs[i])
    return reg, objs


def root(case, i):
    while case['rvs'][i]['anchor'] is not None:
        i = case['rvs'][i]['anchor']
    return i


def check_uniform(u, n, method, name):
    u = np.asarray(u, dtype=float)
    require(u.shape == (n,), '%s: %s values for %d realizations', name, u.shape, n)
    require(bool(np.all((u >= 0) & (u < 1))), '%s: outside of [0, 1)', name)
    if method == 'LHS':
        bins = np.sort(np.floor(u * n * (1 + 1e-15)).astype(int))
        require(list(bins) == list(range(n)),
                '%s: the strata hold %s points each', name,
                np.bincount(np.clip(bins, 0, n - 1), minlength=n).tolist())
    elif method == 'LHS_midpoint':
        require_same(np.sort(u), (np.arange(n) + 0.5) / n, f'{name}: midpoints', 1e-12)


def run_design(case):
    reg, objs = build(case)
    n, method = case['n'], case['method']
    rounds = 2 if case['again'] else 1
    first = None
    for _ in range(rounds):
        reg.generate_sample(n, method)
        for i, rv in enumerate(objs):
            kind = case['rvs'][i]['kind']
            name = f'{kind} rv{i} ({method}, n={n})'
            smp = np.asarray(rv.sample, dtype=float)
            require(smp.shape == (n,), '%s: sample shape %s', name, smp.shape)
            if kind in {'deterministic', 'coupled_empirical'}:
                t = THETA[kind]
                require_same(smp, [t[j % len(t)] for j in range(n)], name)
                continue
            u = np.asarray(rv.uni_sample, dtype=float)
            check_uniform(u, n, method, name)
            a = objs[root(case, i)]
            require_same(u, a.uni_sample, f'{name}: anchored to rv{root(case, i)}', 0)
            fresh = uq.rv_class_map(kind)('x', np.array(THETA[kind], dtype=float))
            require_same(smp, fresh.inverse_transform(u.copy()),
                         f'{name}: sample against the quantiles of its uniform values')
        roots = [i for i in range(len(objs)) if root(case, i) == i
                 and case['rvs'][i]['kind'] not in {'deterministic',
                                                    'coupled_empirical'}]
        if n >= 15:
            for x in range(len(roots)):
                for y in range(x):
                    ua, ub = (np.asarray(objs[roots[k]].uni_sample) for k in (x, y))
                    r = abs(np.corrcoef(ua, ub)[0, 1])
                    require(r < min(0.9999, 6.5 / math.sqrt(n)) or r < 0.93 and n < 50,
                            'rv%d and rv%d are correlated: %r (%s, n=%d)',
                            roots[x], roots[y], r, method, n)
        vals = {k: np.array(v, dtype=float) for k, v in reg.RV_sample.items()}
        require(set(vals) == {f'rv{i}' for i in range(len(objs))}, 'names %s',
                sorted(vals))
        if first is not None and n >= 25 and roots:
            require(any(not np.array_equal(first[f'rv{i}'],
                                           np.asarray(objs[i].uni_sample))
                        for i in roots),
                    'a second sample repeats the first one')
        first = {f'rv{i}': np.array(objs[i].uni_sample, dtype=float) for i in roots}
    # the same seed reproduces, and the generator is the only source of randomness
    reg2, objs2 = build(case)
    for _ in range(rounds):
        np.random.seed(case['seed'] % 1000)
        reg2.generate_sample(n, method)
    for name, v in reg2.RV_sample.items():
        require_same(v, vals[name], f'{name} with the same seed', 0)
    free = sum(case['rvs'][i]['kind'] not in {'deterministic', 'coupled_empirical'}
               and root(case, i) == i for i in range(len(objs)))
    if n >= 15 and free:
        reg3, objs3 = build(case, case['seed'] + 1)
        for _ in range(rounds):
            reg3.generate_sample(n, method)
        same = all(
            np.array_equal(np.asarray(objs3[i].uni_sample),
                           np.asarray(objs[i].uni_sample)) for i in roots)
        require(not same, 'another seed gives the same sample')
    anchored = any(r['anchor'] is not None for r in case['rvs'])
    return {'nontrivial': len(objs) > 1 and n >= 3,
            'tags': [method, 'anchored' if anchored else 'free']}


@st.composite
def uniformity(draw):
    return {'n': draw(st.integers(300, 800) | st.sampled_from([1001, 2500, 10001])),
            'k': draw(st.integers(2, 4)),
            'method': draw(st.sampled_from(METHODS)), 'seed': draw(seeds())}


def run_uniformity(case):
    n = case['n']
    reg = uq.RandomVariableRegistry(np.random.default_rng(case['seed']))
    for i in range(case['k']):
        reg.add_RV(uq.UniformRandomVariable(f'u{i}', np.array([0.0, 1.0])))
    reg.generate_sample(n, case['method'])
    us = [np.asarray(v) for v in reg.RV_sample.values()]
    for u in us:
        d = np.max(np.abs(np.sort(u) - (np.arange(n) + 0.5) / n))
        require(d < 3.6 / math.sqrt(n), 'KS distance %r with n=%d', d, n)
        if case['method'] == 'LHS':
            w = u * n - np.floor(u * n)
            d = np.max(np.abs(np.sort(w) - (np.arange(n) + 0.5) / n))
            require(d < 3.6 / math.sqrt(n), 'position in the strata: KS %r', d)
        r = abs(np.corrcoef(u[:-1], u[1:])[0, 1])
        require(r < 6.5 / math.sqrt(n), 'successive realizations: %r', r)
    for i in range(len(us)):
        for j in range(i):
            r = abs(np.corrcoef(us[i], us[j])[0, 1])
            require(r < 6.5 / math.sqrt(n), 'correlation %r of two variables', r)
            if case['method'] == 'LHS':
                w = [x * n - np.floor(x * n) for x in (us[i], us[j])]
                r = abs(np.corrcoef(*w)[0, 1])
                require(r < 6.5 / math.sqrt(n), 'positions of two variables in the '
                        'strata are correlated: %r', r)
    return {'tags': [case['method']]}


@st.composite
def duplicate(draw):
    return {'a': draw(st.sampled_from(KINDS)), 'b': draw(st.sampled_from(KINDS)),
            'v': draw(fl(-5, 5))}


def run_duplicate(case):
    reg = uq.RandomVariableRegistry(np.random.default_rng(1))
    one = uq.rv_class_map(case['a'])('x', np.array(THETA[case['a']], dtype=float))
    two = uq.rv_class_map(case['b'])('x', np.array(THETA[case['b']], dtype=float))
    other = uq.DeterministicRandomVariable('y', np.array([case['v']]))
    reg.add_RV(one)
    reg.add_RV(other)
    try:
        reg.add_RV(two)
    except ValueError:
        pass
    else:
        raise Violation('a second variable with the same name was accepted')
    require(reg.RV['x'] is one, 'the first variable was replaced')
    require(list(reg.RVs(['y', 'x'])) == ['y', 'x'], 'selection of variables')
    return {}


@st.composite
def wide(draw):
    return {'k': draw(st.integers(8, 70)),
            'n': draw(st.integers(150, 400) | st.sampled_from([1001, 2100])),
            'method': draw(st.sampled_from(METHODS)), 'seed': draw(seeds())}


def run_wide(case):
    """Many variables: no two of them depend on each other, also not shifted."""
    k, n = case['k'], case['n']
    reg = uq.RandomVariableRegistry(np.random.default_rng(case['seed']))
    for i in range(k):
        reg.add_RV(uq.rv_class_map('uniform')(f'x{i}', np.array([0.0, 1.0])))
    reg.generate_sample(n, case['method'])
    s = np.array([reg.RV_sample[f'x{i}'] for i in range(k)])
    for i in range(k):
        check_uniform(s[i], n, case['method'], f'x{i}')
    lim = 7.0 / math.sqrt(n)
    r = np.abs(np.corrcoef(s)) - np.eye(k)
    worst = np.unravel_index(np.argmax(r), r.shape)
    require(r[worst] < lim, 'x%d and x%d are correlated: %r', *worst, r[worst])
    # correlation at every circular shift, against a few of the others
    z = (s - s.mean(axis=1, keepdims=True)) / s.std(axis=1, keepdims=True)
    f = np.fft.rfft(z)
    for i in range(k):
        for j in (i - 1, 0, (7 * i + 3) % k):
            if i == j or j < 0:
                continue
            c = np.abs(np.fft.irfft(f[i] * np.conj(f[j]), n)).max() / n
            require(c < lim, 'x%d and x%d are shifted copies (%r)', i, j, c)
    return {'tags': [case['method']]}


SUBS = [
    Sub('wide', wide(), run_wide, 120, 2500),
    Sub('design', designs(), run_design, 900, 20000),
    Sub('uniformity', uniformity(), run_uniformity, 120, 2500),
    Sub('duplicate', duplicate(), run_duplicate, 60, 300),
]
