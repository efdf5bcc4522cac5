"""C12: damage states follow the capacities of the limit states."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st
from scipy.stats import binomtest

from pbt import dmg
from pbt import ref_dist as R
from pbt.core import Discard, Sub, require, require_same
from pbt.gen import fl, logfl, maybe, seeds
from pbt.prop_c01 import limits_of, theta_of

RULE = ('A case counts when a limit state has an exceedance probability between 0.02 and '
        '0.98, or the damage state numbers of two or more limit states are checked.')
ASSUMPTIONS = [
    'limit states of a component are numbered upwards; capacities have the families that '
    'can be scaled (normal, lognormal, uniform, deterministic) or a multilinear CDF',
    'statistical statements are only rejected at odds below 1e-9 for the seeds used',
]
QUICK_S = 40
TYPES = {'Peak Interstory Drift Ratio': ('PID', 0, ['unitless', 'rad']),
         'Peak Floor Acceleration': ('PFA', -1, ['g', 'mps2', 'inchps2']),
         'Permanent Ground Deformation': ('PGD', 0, ['inch', 'ft', 'm'])}
# every name of a demand type that parameter tables may use
SPECIFIC = {'Spectral Acceleration|0.5': ('SA_0.5', 0, ['g', 'mps2']),
            'Spectral Velocity|1': ('SV_1', 0, ['mps', 'ftps']),
            'Peak Spectral Displacement|0.25': ('SD_0.25', 0, ['inch', 'm']),
            'Peak Floor Velocity': ('PFV', -1, ['mps', 'ftps'])}
for _unit, _names in {
        'unitless': {
            'Story Drift Ratio': 'PID', 'Roof Drift Ratio': 'PRD',
            'Peak Roof Drift Ratio': 'PRD', 'Damageable Wall Drift': 'DWD',
            'Racking Drift Ratio': 'RDR', 'Mega Drift Ratio': 'PMD',
            'Residual Drift Ratio': 'RID', 'Residual Interstory Drift Ratio': 'RID',
            'Peak Effective Drift Ratio': 'EDR', 'Peak Link Rotation Angle': 'LR',
            'Peak Link Beam Chord Rotation': 'LBR', 'Peak Wind Force': 'PWF',
            'Peak Internal Force': 'PIF', 'Peak Line Force': 'PLF',
            'Peak Wind Pressure': 'PWP'},
        'g': {'Peak Ground Acceleration': 'PGA', 'Spectral Acceleration': 'SA',
              'Peak Spectral Acceleration': 'SA'},
        'inchps': {'Peak Ground Velocity': 'PGV', 'Peak Gust Wind Speed': 'PWS',
                   'Spectral Velocity': 'SV', 'Peak Spectral Velocity': 'SV'},
        'ft': {'Peak Floor Displacement': 'PFD', 'Peak Inundation Height': 'PIH',
               'Spectral Displacement': 'SD', 'Peak Spectral Displacement': 'SD'}}.items():
    for _name, _code in _names.items():
        SPECIFIC[_name] = (_code, 0, [_unit])
COMMON = sorted(TYPES)
TYPES.update(SPECIFIC)


@st.composite
def capacity(draw, kinds=('normal', 'normal_std', 'lognormal', 'lognormal', 'uniform',
                          'deterministic', 'multilinear_CDF')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'deterministic':
        return {'family': draw(st.sampled_from(['deterministic', None])),
                'theta': [draw(logfl(-2, 2))], 'lim': [None, None], 'kind': kind}
    if kind == 'multilinear_CDF':
        m = draw(st.integers(2, 5))
        x = sorted(draw(st.lists(logfl(-2, 2, 3), min_size=m, max_size=m, unique=True)))
        p = sorted(draw(st.lists(fl(0.01, 0.99, 3), min_size=m - 2, max_size=m - 2,
                                 unique=True)))
        p = [0.0, *p, 1.0]
        return {'family': kind, 'kind': kind, 'pts': [x, p], 'lim': [None, None],
                'theta': [','.join(map(repr, x)) + '|' + ','.join(map(repr, p))]}
    theta = draw(theta_of(kind))
    lim = draw(limits_of(kind, theta)) if draw(st.integers(0, 3)) == 0 else [None, None]
    return {'family': kind, 'theta': theta, 'lim': lim, 'kind': kind}


def cdf(c, x):
    """Probability that the capacity is below x (both in the unit of the table)."""
    if c['kind'] == 'deterministic':
        return float(c['theta'][0] < x)
    if c['kind'] == 'multilinear_CDF':
        return float(np.interp(x, c['pts'][0], c['pts'][1]))
    return R.cdf(c['kind'], c['theta'], c['lim'], x)


@st.composite
def comps(draw, n_ls=4, **kw):
    name = draw(st.sampled_from(COMMON) | st.sampled_from(sorted(SPECIFIC)))
    out = {'type': name, 'unit': draw(st.sampled_from(TYPES[name][2])),
           'loc': draw(st.integers(1, 4)), 'dir': draw(st.integers(1, 2)),
           'blocks': draw(st.sampled_from([1, 1, 2, 3])), 'ls': []}
    skip = draw(st.integers(0, 9)) == 0
    i = 1 + int(skip)
    for _ in range(draw(st.integers(1, n_ls))):
        c = draw(capacity(**kw))
        c['id'] = i
        i += 1 + (draw(st.integers(0, 11)) == 0)
        m = draw(st.sampled_from([0, 0, 2, 3]))
        c['w'] = None
        if m:
            w = draw(st.lists(st.integers(0, 8), min_size=m, max_size=m))
            if sum(w) == 0:
                w[0] = 1
            # shares in hundredths that add up to one
            cum = [round(100 * sum(w[:k]) / sum(w)) for k in range(m + 1)]
            c['w'] = [(b - a) / 100 for a, b in zip(cum, cum[1:])]
        out['ls'].append(c)
    return out


def frag_row(i, c):
    return dmg.fragility(
        f'C{i}', demand=c['type'], unit=c['unit'], limit_states=[
            {'id': s['id'], 'family': s['family'], 'theta': s['theta'], 'lim': s['lim'],
             'weights': ' | '.join(map(repr, s['w'])) if s['w'] else None}
            for s in c['ls']])


def model(case, vals, config=None):
    """Assessment with one demand column per component, in the unit of its table."""
    asm = dmg.assessment({'Seed': case['seed'], 'Sampling': {
        'SamplingMethod': case.get('method', 'LHS')}, **(config or {})})
    cols, units, data = [], [], []
    for i, c in enumerate(case['comps']):
        t, off, _ = TYPES[c['type']]
        k = (t, str(c['loc'] + off), str(c['dir']))
        if k in cols:
            raise Discard
        cols.append(k)
        units.append(c['unit'])
        data.append(vals[i])
    dmg.demands(asm, cols, np.array(data).T, units)
    dmg.components(asm, [
        {'cmp': f'C{i}', 'loc': c['loc'], 'dir': c['dir'], 'q': 1.0 + i,
         'blocks': c['blocks']} for i, c in enumerate(case['comps'])], len(data[0]))
    tab = dmg.damage_table([frag_row(i, c) for i, c in enumerate(case['comps'])])
    asm.damage.load_model_parameters([tab], {f'C{i}' for i in range(len(case['comps']))})
    return asm


def states_of(c):
    """The damage states that each limit state stands for."""
    out, at = [], 1
    for s in c['ls']:
        k = len(s['w']) if s['w'] else 1
        out.append(list(range(at, at + k)))
        at += k
    return out


@st.composite
def cases(draw):
    m = draw(st.integers(1, 3))
    cs = [draw(comps()) for _ in range(m)]
    for i, c in enumerate(cs):
        c['loc'] = 1 + i if draw(st.booleans()) else c['loc']
        # a demand at a quantile of one of the capacities
        s = draw(st.sampled_from(c['ls']))
        p = draw(fl(0.02, 0.98, 4))
        if s['kind'] == 'deterministic':
            c['d'] = s['theta'][0] * draw(st.sampled_from([0.9, 1.1]))
        elif s['kind'] == 'multilinear_CDF':
            c['d'] = float(np.interp(p, s['pts'][1], s['pts'][0]))
        else:
            c['d'] = float(R.ppf(s['kind'], s['theta'], s['lim'], p))
        c['d'] = float(f'{c["d"]:.8g}')
    return {'comps': cs, 'seed': draw(seeds()), 'n': draw(st.sampled_from([40, 150, 400])),
            'method': draw(st.sampled_from(['LHS', 'LHS', 'LHS_midpoint', 'MonteCarlo'])),
            'batch': draw(st.sampled_from([1, 2, 1000])),
            'verbose': draw(st.integers(0, 5)) == 0}


def run_states(case):
    """Shares of damage states are those of the capacities, with one random draw a block."""
    n = case['n']
    for c in case['comps']:
        if not np.isfinite(c['d']):
            raise Discard
    asm = model(case, [np.full(n, c['d']) for c in case['comps']],
                {'Verbose': True} if case['verbose'] else None)
    asm.damage.calculate(block_batch_size=case['batch'])
    got = dmg.ds_of(asm)
    want = {(f'C{i}', str(c['loc']), str(c['dir']), '0', str(b + 1))
            for i, c in enumerate(case['comps']) for b in range(c['blocks'])}
    require(set(got) == want, 'blocks %s instead of %s', sorted(got), sorted(want))
    nontrivial = False
    series = {}
    for i, c in enumerate(case['comps']):
        ids = states_of(c)
        lo = [min(cdf(s, c['d'] * (1 - 2e-5)), cdf(s, c['d'] * (1 + 2e-5)))
              for s in c['ls']]
        hi = [max(cdf(s, c['d'] * (1 - 2e-5)), cdf(s, c['d'] * (1 + 2e-5)))
              for s in c['ls']]
        for b in range(c['blocks']):
            v = got[f'C{i}', str(c['loc']), str(c['dir']), '0', str(b + 1)]
            require(v.shape == (n,) and set(v.tolist()) <= {0, *sum(ids, [])},
                    'C%d block %d has states %s', i, b, sorted(set(v.tolist())))
            for k in range(len(c['ls'])):
                p0, p1 = max(lo[k:]), max(hi[k:])
                cnt = int((v >= ids[k][0]).sum())
                if case['method'] == 'MonteCarlo':
                    ok = (n * p0 <= cnt <= n * p1) or min(
                        binomtest(cnt, n, min(max(p, 0.0), 1.0)).pvalue
                        for p in (p0, p1)) > 1e-10
                else:
                    ok = n * p0 - 1 - 1e-6 <= cnt <= n * p1 + 1 + 1e-6
                require(ok, 'C%d block %d: %d of %d realizations are beyond limit state '
                        '%d, expected a share of %g', i, b, cnt, n, c['ls'][k]['id'], p0)
                if 0.02 < p0 < 0.98:
                    nontrivial = True
                    series[i, b, k] = (v >= ids[k][0], p0)
                # the states that share a limit state
                w = c['ls'][k]['w']
                if w:
                    inside = np.isin(v, ids[k])
                    tot = int(inside.sum())
                    for x, wx in zip(ids[k], w):
                        cx = int((v == x).sum())
                        if wx in (0.0, 1.0):
                            require(cx == (tot if wx else 0), 'C%d: %d of %d in state %d '
                                    'with a weight of %g', i, cx, tot, x, wx)
                        elif tot:
                            require(binomtest(cx, tot, wx).pvalue > 1e-10, 'C%d: %d of %d '
                                    'in state %d with a weight of %g', i, cx, tot, x, wx)
    # blocks do not share their random numbers
    keys = sorted(series)
    for a in keys:
        for b in keys:
            if a[:2] < b[:2] and n >= 150 and all(
                    0.25 < series[k][1] < 0.75 for k in (a, b)):
                x, y = series[a][0], series[b][0]
                same = int((x == y).sum())
                p = series[a][1] * series[b][1] + (1 - series[a][1]) * (1 - series[b][1])
                require(binomtest(same, n, p).pvalue > 1e-12,
                        'blocks %s and %s agree in %d of %d realizations', a, b, same, n)
    # the probabilities that are reported
    pr = asm.damage.ds_model.probabilities()
    require(len(pr) == len(got), 'probabilities for %d of %d blocks', len(pr), len(got))
    for k, v in got.items():
        row = pr.loc[[x for x in pr.index if tuple(map(str, x)) == k][0]]
        for s in set(row.index) | set(v.tolist()):
            e = float((v == s).mean())
            g = row.get(s, np.nan)
            require(abs((0.0 if np.isnan(g) else g) - e) < 1e-9,
                    'probability of state %s of %s is %s instead of %s', s, k, g, e)
    return {'nontrivial': nontrivial,
            'tags': [case['method'], *{s['kind'] for c in case['comps'] for s in c['ls']}]}


@st.composite
def mixes(draw):
    case = draw(cases())
    n = draw(st.integers(2, 25))
    case['n'] = n
    case['pick'] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    case['f'] = draw(st.lists(st.sampled_from([1.0, 1.2, 2.0, 5.0]), min_size=2,
                              max_size=2))
    case['order'] = draw(st.booleans())
    return case


def run_mix(case):
    """Every realization is evaluated with its own demand; more demand is more damage."""
    n = case['n']
    for c in case['comps']:
        if not np.isfinite(c['d']) or c['d'] <= 0:
            raise Discard
    f = [1.0, case['f'][0], case['f'][0] * case['f'][1]]
    runs = []
    for x in f:
        asm = model(case, [np.full(n, c['d'] * x) for c in case['comps']])
        asm.damage.calculate(block_batch_size=case['batch'])
        runs.append(dmg.ds_of(asm))
    asm = model(case, [[c['d'] * f[p] for p in case['pick']] for c in case['comps']])
    asm.damage.calculate(block_batch_size=case['batch'])
    mixed = dmg.ds_of(asm)
    for k in mixed:
        i = int(k[0][1:])
        ids = states_of(case['comps'][i])
        for r, p in enumerate(case['pick']):
            require(mixed[k][r] == runs[p][k][r], '%s realization %d: DS%d with its '
                    'demand, DS%d when all have the same', k, r, mixed[k][r],
                    runs[p][k][r])
        rank = [np.array([next((j + 1 for j, s in enumerate(ids) if x in s), 0)
                          for x in run[k]]) for run in runs]
        for a, b in zip(rank, rank[1:]):
            require((b >= a).all(), '%s: more demand, less damage: %s then %s', k,
                    a.tolist(), b.tolist())
    # samples do not depend on being reproduced
    again = model(case, [[c['d'] * f[p] for p in case['pick']] for c in case['comps']])
    again.damage.calculate(block_batch_size=case['batch'])
    for k, v in dmg.ds_of(again).items():
        require_same(v, mixed[k], f'{k} with the same seed')
    kinds = {int(x) for v in mixed.values() for x in v}
    return {'nontrivial': len(kinds) > 1 and len(set(case['pick'])) > 1}


@st.composite
def ladders(draw, large=False):
    """Deterministic capacities and one-sided weights: states are known exactly."""
    out = {'comps': [], 'seed': draw(seeds()), 'method': 'LHS',
           'batch': draw(st.sampled_from([1, 2, 7, 1000] if large else [1, 1000]))}
    for i in range(draw(st.integers(6, 15) if large else st.integers(1, 3))):
        m = draw(st.integers(1, 3) if large else st.one_of(
            st.integers(1, 5), st.integers(9, 12)))
        first = draw(st.sampled_from([1, 1, 1, 2]))
        caps = draw(st.lists(st.integers(1, 60), min_size=m, max_size=m, unique=True))
        if draw(st.integers(0, 3)):
            caps = sorted(caps)
        ls = []
        for j, x in enumerate(caps):
            w = draw(maybe(st.integers(2, 3), 0.4))
            pick = None if w is None else draw(st.integers(0, w - 1))
            ls.append({'id': first + j, 'family': draw(st.sampled_from(
                ['deterministic', None])), 'kind': 'deterministic', 'theta': [x],
                'lim': [None, None], 'pick': pick,
                'w': None if w is None else [float(a == pick) for a in range(w)]})
        out['comps'].append({
            'type': 'Peak Interstory Drift Ratio', 'unit': 'unitless', 'loc': i + 1,
            'dir': 1, 'blocks': draw(st.sampled_from([1, 1, 2, 11, 13] if large
                                                     else [1, 2])), 'ls': ls})
    n = draw(st.sampled_from([1, 3, 1100]) if large else st.integers(1, 8))
    if large:
        rng = np.random.default_rng(draw(seeds()))
        out['d'] = rng.integers(0, 62, (len(out['comps']), n)).tolist()
    else:
        out['d'] = [[draw(st.integers(0, 61)) for _ in range(n)] for _ in out['comps']]
    out['all'] = draw(st.booleans())
    return out


def run_ladder(case):
    """The damage state of the highest limit state that is exceeded, counted upwards."""
    asm = model(case, case['d'], {'ListAllDamageStates': case['all']})
    asm.damage.calculate(block_batch_size=case['batch'])
    got = dmg.ds_of(asm)
    qty = dmg.qty_of(asm)
    for i, c in enumerate(case['comps']):
        ids = states_of(c)
        exp = []
        for d in case['d'][i]:
            hit = [j for j, s in enumerate(c['ls']) if s['theta'][0] < d]
            j = max(hit) if hit else None
            exp.append(0 if j is None else ids[j][c['ls'][j]['pick'] or 0])
        for b in range(c['blocks']):
            k = (f'C{i}', str(c['loc']), '1', '0', str(b + 1))
            require(got[k].tolist() == exp, '%s is in %s instead of %s', k,
                    got[k].tolist(), exp)
        have = sorted(int(k[4]) for k in qty if k[0] == f'C{i}')
        want = (list(range(max(ids[-1]) + 1)) if case['all'] else sorted(set(exp)))
        require(have == want, 'C%d: states %s are listed instead of %s', i, have, want)
        for s in have:
            require_same(qty[f'C{i}', str(c['loc']), '1', '0', str(s)],
                         (1.0 + i) * (np.array(exp) == s), f'C{i} quantity in DS{s}')
    return {'nontrivial': any(len(c['ls']) > 1 for c in case['comps']),
            'tags': ['ten' if any(len(c['ls']) > 9 for c in case['comps']) else 'few']}


SUBS = [
    Sub('states', cases(), run_states, 140, 2500),
    Sub('mix', mixes(), run_mix, 60, 1000),
    Sub('ladder', ladders(), run_ladder, 180, 3000),
    Sub('large', ladders(True), run_ladder, 32, 300),
]
