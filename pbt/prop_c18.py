"""C18: uncertainty of consequences."""
from __future__ import annotations

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import ndtr, ndtri

from pbt import dmg
from pbt import losses as L
from pbt.core import Discard, Sub, require, require_same
from pbt.gen import fl, logfl, seeds

RULE = ('A case counts when at least two random consequences are sampled, or one in a '
        'stratified sample.')
ASSUMPTIONS = [
    'stratified samples are checked exactly (one value in each stratum); the rest with a '
    'probability of a false alarm below 1e-9 in each comparison',
]
QUICK_S = 40
ALPHA = 1e-10


def position(family, th1, dev):
    """Probability of staying below the deviation (truncated at zero)."""
    with np.errstate(divide='ignore'):
        if family == 'lognormal':
            return ndtr(np.log(dev) / th1)
        lo = ndtr(-1.0 / th1)
        return (ndtr((dev - 1.0) / th1) - lo) / (1.0 - lo)


def check_sample(cols, n, method, rho, paired, near=()):
    """cols: key -> positions; paired: (cost key, time key) pairs."""
    eps = math.sqrt(math.log(2.0 / ALPHA) / (2.0 * n))
    lim = 6.7 / math.sqrt(n - 3)
    # (a deterministic partner also takes a variable out of the stratified ones)
    tied = {k for p in paired for k in p} | set(near) if rho else set()
    z = {}
    for k, u in cols.items():
        require(bool((u >= 0).all() and (u <= 1).all()), 'loss %s out of range', k)
        s = np.sort(u)
        i = np.arange(n)
        if method == 'MonteCarlo' or k in tied:
            d = max(np.max((i + 1) / n - s), np.max(s - i / n))
            require(d <= eps + 1e-6, 'deviation of %s does not follow its distribution: '
                    'distance %.4f, bound %.4f', k, d, eps)
        elif method == 'LHS_midpoint':
            require_same(s, (i + 0.5) / n, f'midpoints of {k}', 0.0, 1e-3 / n + 1e-6)
        else:
            tol = 1e-3 / n + 1e-6
            require(bool((s >= i / n - tol).all() and (s <= (i + 1) / n + tol).all()),
                    'deviation of %s: some stratum does not hold exactly one value', k)
        z[k] = ndtri(np.clip(u, 1e-12, 1 - 1e-12))
    keys = list(z)
    if len(keys) > 1:
        r = np.corrcoef(np.array([z[k] for k in keys]))
        pair = {frozenset(p) for p in paired}
        for a in range(len(keys)):
            for b in range(a):
                want = rho if frozenset((keys[a], keys[b])) in pair else 0.0
                got = min(max(r[a, b], -1 + 1e-12), 1 - 1e-12)
                require(abs(math.atanh(got) - math.atanh(want)) <= lim,
                        'correlation of %s and %s is %.3f instead of %.3f',
                        keys[a], keys[b], got, want)


def partners(cols, det):
    """Random costs and times whose counterpart is deterministic."""
    return [k for k in cols if k[0] in {'Cost', 'Time'} and (
        {'Cost': 'Time', 'Time': 'Cost'}[k[0]], *k[1:]) in det]


def run_states(case):
    """Loss of damage states = quantity x consequence x random deviation."""
    tab = L.ds_table(case)
    exp = L.ds_reference(case)
    if tab is None or not exp:
        raise Discard
    asm = L.ds_assessment(case, Sampling={'SamplingMethod': case['method']})
    asm.loss.load_model_parameters([tab])
    asm.loss.calculate()
    s = asm.loss.ds_model.sample
    got = {tuple(map(str, c)): s.iloc[:, i].to_numpy(dtype=float)
           for i, c in enumerate(s.columns)}
    require(set(got) == set(exp), 'losses %s; missing %s', sorted(set(got) - set(exp)),
            sorted(set(exp) - set(got)))
    cols, paired = {}, []
    for k, (q, m, p) in exp.items():
        if p['family'] in {'normal', 'lognormal'}:
            dev = got[k] / (q * m)
            cols[k] = position(p['family'], p['th1'], dev)
        else:
            require_same(got[k], q * m, f'loss {k}', 1e-9, 1e-12)
    for k in cols:
        if k[0] == 'Cost' and ('Time', *k[1:]) in cols:
            paired.append((k, ('Time', *k[1:])))
    n = case['n']
    check_sample(cols, n, case['method'], case['rho'], paired,
                 partners(cols, {k for k, v in exp.items()
                                 if v[2]['family'] == 'deterministic'}))
    return {'nontrivial': len(cols) > 1 or (bool(cols) and case['method'] != 'MonteCarlo'),
            'tags': [f'rho {case["rho"] and bool(paired)}', case['method']]}


@st.composite
def lf_cases(draw):
    names = draw(st.lists(st.sampled_from(L.NAMES), min_size=1, max_size=3, unique=True))
    dvs = draw(st.lists(st.sampled_from(['Cost', 'Time', 'Energy']), min_size=1, max_size=3,
                        unique=True))
    lmap = {c: draw(st.sampled_from([c, *L.RNAMES[:2]])) for c in names}
    cons = {}
    for r in dict.fromkeys(lmap.values()):
        cons[r] = {}
        for d in dvs:
            fam = draw(st.sampled_from(['normal', 'lognormal', None, 'deterministic']))
            cons[r][d] = {'family': fam,
                          'th1': draw(fl(0.05, 1.2, 3)) if fam in {'normal', 'lognormal'}
                          else None, 'y': [draw(logfl(-1, 2, 3)) for _ in range(3)]}
    groups = []
    for c in names:
        for p in draw(st.lists(st.tuples(st.integers(1, 3), st.integers(0, 2)), min_size=1,
                               max_size=3, unique=True)):
            groups.append([c, *p, draw(logfl(-1, 2, 3)), draw(st.sampled_from([1, 1, 2, 4, 11]))])
    return {'dvs': dvs, 'map': lmap, 'cons': cons, 'groups': groups, 'seed': draw(seeds()),
            'n': draw(st.sampled_from([120, 400, 1500])),
            'rho': draw(st.sampled_from([0.0, 0.0, 0.5, 0.9, -0.6])),
            'method': draw(st.sampled_from(['LHS', 'LHS_midpoint', 'MonteCarlo']))}


def run_functions(case):
    """Loss of loss functions = quantity x loss function x random deviation by block."""
    n = case['n']
    rows, index = [], []
    for r, per in case['cons'].items():
        for d, f in per.items():
            rows.append({'Demand-Type': 'Peak Ground Acceleration', 'Demand-Unit': 'mps2',
                         'Demand-Offset': 0, 'Demand-Directional': 0,
                         'DV-Unit': 'day' if d == 'Time' and False else
                         {'Cost': 'USD_2011', 'Time': 'worker_day', 'Energy': 'J'}[d],
                         'LossFunction-Family': f['family'],
                         'LossFunction-Theta_0': ','.join(map(repr, f['y'])) + '|0.0,1.0,2.0',
                         'LossFunction-Theta_1': f['th1']})
            index.append((r, d))
    asm = dmg.assessment({
        'Seed': case['seed'], 'RepairCostAndTimeCorrelation': case['rho'],
        'Sampling': {'SamplingMethod': case['method']},
        'NonDirectionalMultipliers': {'ALL': 1.0}})
    x = np.linspace(0.0, 2.0, n)
    dmg.demands(asm, [('PGA', loc, 1) for loc in range(1, 4)], np.tile(x, (3, 1)).T)
    dmg.components(asm, [{'cmp': c, 'loc': loc, 'dir': d, 'q': q, 'blocks': b}
                         for c, loc, d, q, b in case['groups']], n)
    asm.loss.decision_variables = tuple(case['dvs'])
    asm.loss.add_loss_map(pd.DataFrame({'Repair': case['map']}))
    asm.loss.load_model_parameters([dmg.two_level(rows, pd.MultiIndex.from_tuples(index))])
    asm.loss.calculate()
    s = asm.loss.lf_model.sample
    got = {tuple(map(str, c)): s.iloc[:, i].to_numpy(dtype=float)
           for i, c in enumerate(s.columns)}
    cols, exact, mean = {}, 0, {}
    blocks, det = {}, set()
    for c, loc, d, q, b in case['groups']:
        for dv, f in case['cons'][case['map'][c]].items():
            k = (dv, case['map'][c], c, str(loc), str(d), '0')
            base = q * np.interp(x, [0.0, 1.0, 2.0], f['y'])
            require(k in got, 'no loss %s', k)
            exact += 1
            if f['family'] == 'deterministic':
                det.add(k)
            if f['family'] not in {'normal', 'lognormal'}:
                require_same(got[k], base, f'loss {k}', 1e-9)
                continue
            dev = got[k] / base
            if b == 1:
                cols[k] = position(f['family'], f['th1'], dev)
            else:
                blocks[k] = (dev, f, b)
    require(exact == len(got), 'losses that are not expected: %s', sorted(got)[:5])
    paired = [(k, ('Time', *k[1:])) for k in cols
              if k[0] == 'Cost' and ('Time', *k[1:]) in cols]
    check_sample(cols, n, case['method'], case['rho'], paired, partners(cols, det))
    # several blocks: their deviations are independent
    for k, (dev, f, b) in blocks.items():
        require(bool((dev >= 0).all()), 'negative loss %s', k)
        if f['family'] == 'normal' and f['th1'] <= 0.2:
            u = np.sort(ndtr((dev - 1.0) / (f['th1'] / math.sqrt(b))))
            i = np.arange(n)
            dist = max(np.max((i + 1) / n - u), np.max(u - i / n))
            eps = math.sqrt(math.log(2.0 / ALPHA) / (2.0 * n))
            require(dist <= eps + 1e-5, 'blocks of %s: distance %.4f, bound %.4f', k, dist,
                    eps)
        mean[k] = float(dev.mean())
    small = {'normal': 0.25, 'lognormal': 0.4}
    for k, (dev, f, b) in blocks.items():
        other = ('Time', *k[1:])
        if k[0] != 'Cost' or other not in blocks or n < 400:
            continue
        dev2, g, _ = blocks[other]
        if f['th1'] > small[f['family']] or g['th1'] > small[g['family']]:
            continue
        got_r = min(max(np.corrcoef(dev, dev2)[0, 1], -0.9999), 0.9999)
        want = blocks_tied(f, g, case['rho'])
        require(abs(math.atanh(got_r) - math.atanh(want)) <= 9.0 / math.sqrt(n - 3),
                'correlation of %s and the time of its blocks is %.3f instead of %.3f',
                k, got_r, want)
    return {'nontrivial': len(cols) > 1 or bool(blocks) or (
        bool(cols) and case['method'] != 'MonteCarlo'),
        'tags': [f'rho {case["rho"] and bool(paired)}', case['method'],
                 'blocks' if blocks else 'single']}


@st.composite
def pairs(draw):
    """Many groups of the same component, all with random costs and times."""
    names = draw(st.lists(st.sampled_from(L.NAMES), min_size=1, max_size=2, unique=True))
    cons = {}
    for c in names:
        cons[c] = {'qunit': '1 EA', 'par': {
            d: {s: {'th0': draw(logfl(0, 3, 3)),
                    'family': draw(st.sampled_from(['normal', 'lognormal'])),
                    'th1': draw(fl(0.05, 0.8, 3))} for s in '12'}
            for d in ('Cost', 'Time')}}
    groups = [[c, *map(str, p), {s: draw(logfl(-1, 1, 2)) for s in draw(st.sampled_from(
        ['1', '2', '12']))}]
        for c in names for p in draw(st.lists(st.tuples(
            st.integers(1, 2), st.integers(1, 2), st.integers(0, 1)),
            min_size=1, max_size=5, unique=True))]
    return {'dvs': draw(st.permutations(['Cost', 'Time'])),
            'dv_unit': {'Cost': 'USD_2011', 'Time': 'worker_day'},
            'cmp_unit': dict.fromkeys(names, 'EA'), 'map': {c: c for c in names},
            'cons': cons, 'n': draw(st.sampled_from([400, 1000])), 'groups': groups,
            'seed': draw(seeds()), 'na': None, 'floors': draw(st.booleans()),
            'states': draw(st.booleans()), 'rho': draw(st.sampled_from([0.9, 0.5, -0.7])),
            'method': draw(st.sampled_from(['LHS', 'MonteCarlo']))}


def blocks_tied(f, g, rho):
    """Correlation of two deviations (those of sums of equal blocks have the same)."""
    a, b = f['th1'], g['th1']
    if f['family'] == g['family'] == 'normal':
        return rho
    if f['family'] == g['family']:
        return math.expm1(rho * a * b) / math.sqrt(math.expm1(a * a) * math.expm1(b * b))
    s = b if g['family'] == 'lognormal' else a
    return rho * s / math.sqrt(math.expm1(s * s))


SUBS = [Sub("paired", pairs(), run_states, 60, 1500),
        Sub("states", L.ds_cases(random=True, constant=True), run_states, 200, 3000),
        Sub('functions', lf_cases(), run_functions, 120, 2500),
        Sub('large', L.ds_cases(random=True, constant=True, large=True), run_states, 24, 150)]
