"""C08: component quantities of an asset."""
from __future__ import annotations

from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun.assessment import AssessmentBase

from pbt import ref_dist as R
from pbt.core import Sub, Violation, close, require, require_same
from pbt.gen import fl, logfl, maybe, seeds
from pbt.prop_c01 import limits_of, theta_of

RULE = ('A case counts when it has at least two component rows, or a row that covers '
        'several locations or directions.')
ASSUMPTIONS = [
    'component names contain no dash',
    'quantities have a deterministic, normal, lognormal, or uniform distribution (the '
    'families whose parameters can be scaled)',
]
QUICK_S = 45
UNITS = {'EA': 1.0, 'ft': 0.3048, 'ft2': 0.3048**2, 'm2': 1.0, 'inch': 0.0254, 'km': 1e3,
         'kN': 1e3, 'ton': 1000.0}
NAMES = ['A', 'B.10.41', 'C3011.001a', 'cmp_4', 'D', 'excessiveRID']


@st.composite
def places(draw, stories):
    """A location text and the locations it stands for."""
    kind = draw(st.sampled_from(['one', 'one', 'range', 'list', 'all', 'top', 'roof',
                                 'totop', 'float']))
    a = draw(st.integers(0, stories))
    b = draw(st.integers(a, stories + 1))
    if kind == 'one':
        return str(a), [a]
    if kind == 'float':
        return f'{a}.0', [a]
    if kind == 'range':
        return f'{a}--{b}', list(range(a, b + 1))
    if kind == 'list':
        v = draw(st.lists(st.integers(0, stories + 2), min_size=2, max_size=4,
                          unique=True))
        return ','.join(map(str, v)), v
    if kind == 'all':
        return 'all', list(range(1, stories + 1))
    if kind == 'top':
        return 'top', [stories]
    if kind == 'roof':
        return 'roof', [stories + 1]
    return f'{a}--top', list(range(a, stories + 1))


@st.composite
def directions(draw):
    kind = draw(st.sampled_from(['one', 'one', 'range', 'list', 'missing']))
    a = draw(st.integers(0, 3))
    if kind == 'one':
        return str(a), [a]
    if kind == 'range':
        b = draw(st.integers(a, 4))
        return f'{a}--{b}', list(range(a, b + 1))
    if kind == 'list':
        v = draw(st.lists(st.integers(0, 4), min_size=2, max_size=3, unique=True))
        return ','.join(map(str, v)), v
    return None, [1]


@st.composite
def row(draw, stories):
    kind = draw(st.sampled_from([None, None, 'normal', 'normal_std', 'normal_cov',
                                 'lognormal', 'uniform']))
    if kind is None:
        theta, lim = [draw(st.one_of(logfl(-3, 5), st.integers(0, 40)))], [None, None]
    else:
        theta = draw(theta_of(kind))
        lim = draw(limits_of(kind, theta))
    loc = draw(places(stories))
    drn = draw(directions())
    return {'cmp': draw(st.sampled_from(NAMES)), 'kind': kind, 'theta': theta,
            'lim': lim, 'loc': list(loc), 'dir': list(drn),
            'blocks': draw(maybe(st.integers(1, 12), 0.5)),
            'unit': draw(st.sampled_from(sorted(UNITS)))}


@st.composite
def models(draw):
    stories = draw(st.integers(1, 12))
    if draw(st.integers(0, 11)) == 0:
        # a long table repeats a few rows at a few places in any order
        some = [draw(row(stories)) for _ in range(3)]
        rows = [dict(draw(st.sampled_from(some)), blocks=draw(maybe(st.integers(1, 12), 0.5)),
                     cmp=draw(st.sampled_from(NAMES[:3])))
                for _ in range(draw(st.integers(17, 30)))]
    else:
        rows = [draw(row(stories)) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 3)):
        # usually one unit per component
        u = {r['cmp']: r['unit'] for r in rows}
        for r in rows:
            r['unit'] = u[r['cmp']]
    return {'stories': stories, 'rows': rows, 'seed': draw(seeds()),
            'n': draw(st.integers(1, 30)), 'mode': draw(st.sampled_from(
                ['frame', 'file'])),
            'blocks': draw(st.booleans()),
            'method': draw(st.sampled_from(['LHS', 'LHS', 'MonteCarlo'])),
            'from_demand': draw(st.booleans())}


def table(case):
    out = {}
    rows = case['rows']
    out['Units'] = [r['unit'] for r in rows]
    out['Location'] = [r['loc'][0] for r in rows]
    out['Direction'] = [r['dir'][0] for r in rows]
    for i in range(2):
        out[f'Theta_{i}'] = [r['theta'][i] if len(r['theta']) > i else None for r in rows]
    out['Family'] = [r['kind'] for r in rows]
    out['TruncateLower'] = [r['lim'][0] for r in rows]
    out['TruncateUpper'] = [r['lim'][1] for r in rows]
    if case['blocks']:
        out['Blocks'] = [r['blocks'] for r in rows]
    return pd.DataFrame(out, index=[r['cmp'] for r in rows])


def expected(case):
    """The performance groups: (component, location, direction, number) -> row."""
    out = {}
    count = {}
    for r in case['rows']:
        for loc in r['loc'][1]:
            for d in r['dir'][1]:
                k = (r['cmp'], str(loc), str(d))
                u = count.get(k, 0)
                count[k] = u + 1
                out[(*k, str(u))] = r
    return out


def scaled(r):
    f = UNITS[r['unit']]
    kind = r['kind']
    th = list(r['theta'])
    th[0] *= f
    if kind in {'normal_std', 'uniform'}:
        th[1] *= f
    return th, [None if v is None else v * f for v in r['lim']]


def load(case):
    asm = AssessmentBase({'Seed': case['seed'],
                          'Sampling': {'SamplingMethod': case['method']}})
    asm.stories = case['stories']
    tab = table(case)
    if case['mode'] == 'frame':
        before = tab.copy()
        asm.asset.load_cmp_model({'marginals': tab})
        pd.testing.assert_frame_equal(tab, before)
    else:
        tab.to_csv('CMP_marginals.csv')
        asm.asset.load_cmp_model('CMP')
    return asm


def run_models(case):
    """Each row stands for its locations and directions, in the stated unit."""
    asm = load(case)
    exp = expected(case)
    mp = asm.asset.cmp_marginal_params
    got = {tuple(map(str, ix)): i for i, ix in enumerate(mp.index)}
    require(set(got) == set(exp) and len(mp) == len(exp),
            'performance groups %s instead of %s', sorted(got), sorted(exp))
    for k, r in exp.items():
        p = mp.iloc[got[k]]
        th, lim = scaled(r)
        fam = p.get('Family')
        require(fam == r['kind'] if r['kind'] else (fam is None or pd.isna(fam)),
                'family of %s is %s instead of %s', k, fam, r['kind'])
        for i in range(2):
            e = th[i] if i < len(th) else np.nan
            require(close(p.get(f'Theta_{i}', np.nan), e, 1e-8), '%s Theta_%d is %r '
                    'instead of %r', k, i, p.get(f'Theta_{i}'), e)
        for c, e in zip(('TruncateLower', 'TruncateUpper'), lim):
            require(close(p.get(c, np.nan), np.nan if e is None else e, 1e-8),
                    '%s %s is %r instead of %r', k, c, p.get(c), e)
        blocks = r['blocks'] if case['blocks'] and r['blocks'] else 1
        require(int(p['Blocks']) == blocks, 'blocks of %s: %s instead of %s', k,
                p['Blocks'], blocks)
    require(sorted(asm.asset.list_unique_component_ids())
            == sorted({r['cmp'] for r in case['rows']}), 'components %s',
            asm.asset.list_unique_component_ids())
    # the sample
    n = case['n']
    if case['from_demand']:
        asm.demand.sample = pd.DataFrame(np.zeros((n, 1)))
        asm.asset.generate_cmp_sample()
    else:
        asm.asset.generate_cmp_sample(n)
    s = asm.asset.cmp_sample
    cols = {tuple(map(str, c)): i for i, c in enumerate(s.columns)}
    require(set(cols) == set(exp) and s.shape == (n, len(exp)), 'sample of %s %s',
            s.shape, sorted(cols))
    for k, r in exp.items():
        v = s.iloc[:, cols[k]].to_numpy(dtype=float)
        th, lim = scaled(r)
        if r['kind'] is None:
            require_same(v, np.full(n, th[0]), f'quantities of {k}', 1e-8)
            continue
        u = np.array([R.cdf(r['kind'], th, lim, x) for x in np.sort(v)])
        require(((u >= -1e-8) & (u <= 1 + 1e-6)).all(), '%s: quantities out of limits', k)
        if lim[0] is not None:
            require(v.min() >= lim[0] - 2e-6 * abs(lim[0]), '%s is below its limit', k)
        if lim[1] is not None:
            require(v.max() <= lim[1] + 2e-6 * abs(lim[1]), '%s is above its limit', k)
        if case['method'] == 'LHS':
            i = np.arange(n)
            tol = 2e-4
            # the unit factors agree to 1e-5 only
            v = np.sort(v)
            ua = np.array([R.cdf(r['kind'], th, lim, x - 2e-5 * abs(x)) for x in v])
            ub = np.array([R.cdf(r['kind'], th, lim, x + 2e-5 * abs(x)) for x in v])
            require(((ub >= i / n - tol) & (ua <= (i + 1) / n + tol)).all(),
                    '%s: probabilities %s of the sorted quantities do not fill the %d '
                    'strata', k, u[:6].tolist(), n)
    # groups are sampled independently of each other
    if n >= 3 and case['method'] == 'LHS':
        cont = [k for k, r in exp.items() if r['kind']]
        ranks = {tuple(np.argsort(s.iloc[:, cols[k]].to_numpy())) for k in cont}
        require(n < 12 or len(ranks) == len(cont), 'groups share their random numbers')
    return {'nontrivial': len(case['rows']) > 1 or len(exp) > 1,
            'tags': [case['mode'], *{str(r['kind']) for r in case['rows']}]}


def run_stored(case):
    """A quantity sample that is saved and loaded is the same; it is saved in user units."""
    units = {r['cmp']: r['unit'] for r in case['rows']}
    for r in case['rows']:
        r['unit'] = units[r['cmp']]
    asm = load(case)
    asm.asset.generate_cmp_sample(case['n'])
    ref = asm.asset.cmp_sample.copy()
    asm.asset.save_cmp_sample('cmp_sample.csv')
    pd.testing.assert_frame_equal(asm.asset.cmp_sample, ref)
    raw = pd.read_csv('cmp_sample.csv', index_col=0)
    require(raw.shape == (case['n'] + 1, ref.shape[1]), 'stored table %s', raw.shape)
    for c in ref.columns:
        col = raw['-'.join(map(str, c))]
        require(col.iloc[0] == units[c[0]], 'unit of %s: %s', c, col.iloc[0])
        require_same(col.iloc[1:].astype(float).to_numpy(),
                     ref[c].to_numpy() / UNITS[units[c[0]]], f'stored {c}', 1e-8)
    mem, mu = asm.asset.save_cmp_sample(save_units=True)
    for c in ref.columns:
        require(mu[c] == units[c[0]], 'unit of %s in memory: %s', c, mu[c])
        require_same(mem[c].to_numpy(), ref[c].to_numpy() / UNITS[units[c[0]]],
                     f'{c} in memory', 1e-8)
    other = AssessmentBase({})
    other.asset.load_cmp_sample('cmp_sample.csv')
    got = other.asset.cmp_sample
    require(sorted(tuple(map(str, c)) for c in got.columns)
            == sorted(tuple(map(str, c)) for c in ref.columns), 'groups %s',
            list(got.columns))
    for c in ref.columns:
        require_same(got[c].to_numpy(), ref[c].to_numpy(), f'{c} after loading', 1e-9)
    require(dict(other.asset.cmp_units) == units, 'units %s', dict(other.asset.cmp_units))
    mp = other.asset.cmp_marginal_params
    require(len(mp) == ref.shape[1] and (mp['Blocks'] == 1).all(), 'blocks')
    # the same after dropping the numbers of the groups, as long as they are not needed
    if all(c[3] == '0' for c in ref.columns):
        raw.columns = [c.rsplit('-', 1)[0] for c in raw.columns]
        raw.to_csv('cmp_sample3.csv')
        third = AssessmentBase({})
        third.asset.load_cmp_sample('cmp_sample3.csv')
        for c in ref.columns:
            require_same(third.asset.cmp_sample[c].to_numpy(), ref[c].to_numpy(),
                         f'{c} without numbers', 1e-9)
    return {'nontrivial': ref.shape[1] > 1}


@st.composite
def bad(draw):
    case = draw(models())
    what = draw(st.sampled_from(['loc', 'dir', 'unit', 'family', 'nosize', 'nomodel']))
    i = draw(st.integers(0, len(case['rows']) - 1))
    case['what'] = what
    case['i'] = i
    case['text'] = draw(st.sampled_from(['attic', 'x--3', 'one', '1;2', 'ALL']))
    return case


def run_bad(case):
    """What cannot be understood is refused."""
    what = case['what']
    r = case['rows'][case['i']]
    if what == 'nomodel':
        asm = AssessmentBase({})
        try:
            asm.asset.generate_cmp_sample(3)
        except ValueError:
            return {'tags': [what]}
        raise Violation('a sample without a model')
    if what == 'nosize':
        asm = load(case)
        try:
            asm.asset.generate_cmp_sample()
        except ValueError:
            return {'tags': [what]}
        raise Violation('a sample without a size')
    if what == 'loc':
        r['loc'] = [case['text'], [1]]
    elif what == 'dir':
        r['dir'] = [case['text'], [1]]
    elif what == 'unit':
        for q in case['rows']:
            if q['cmp'] == r['cmp']:
                q['unit'] = 'cubit'
    else:
        r['kind'] = 'gumbel'
    try:
        load(case)
    except (ValueError, KeyError):
        return {'tags': [what]}
    raise Violation(f'{what} {case["text"]} is accepted')


SUBS = [
    Sub('models', models(), run_models, 420, 8000),
    Sub('stored', models(), run_stored, 120, 2500),
    Sub('bad', bad(), run_bad, 60, 500),
]
