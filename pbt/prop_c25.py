"""C25: results do not depend on the units of the inputs."""
from __future__ import annotations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt import pipeline as P
from pbt.core import Discard, Sub, require, require_same
from pbt.gen import fl, logfl, seeds

RULE = ('A case counts when some input is stated in another unit and the assessment has '
        'losses.')
ASSUMPTIONS = ['conversion factors agree to 1e-4', 'a tenth of the realizations may be on the '
               'other side of a capacity']
QUICK_S = 45


@st.composite
def cases(draw):
    case = draw(P.cases())
    keys = ['PFA', 'PID', 'SA', 'colD']
    for nm in case['comps']:
        keys += [nm, nm + 'D', nm + 'Q']
        for dv in case['dvs']:
            keys += [nm + dv + 'D', nm + dv + 'QN']
    for dv in case['dvs']:
        keys += [dv + 'ds', dv + 'lf']
    case['pick'] = {k: draw(st.sampled_from([0, 0, 1, 2, 3])) for k in keys}
    return case


def run(case):
    """The same assessment in two sets of units."""
    first = P.compute(case)
    again = P.compute(case, pick=case['pick'])
    P.same(again, first, 'in other units', rtol=1e-4, flips=0.1)
    return {'nontrivial': np.nansum(np.abs(first['aggregate'][1])) > 0
            and any(case['pick'].values()), 'tags': sorted(first)}


# ---- single tables of distributions --------------------------------------------------


@st.composite
def marginals(draw, what):
    """A distribution in base units: family, parameters, limits."""
    # (multilinear functions are a feature of capacities)
    fam = draw(st.sampled_from(['normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform',
                                'deterministic', None,
                                'multilinear_CDF' if what == 'damage' else 'lognormal']))
    m = draw(logfl(-1, 1, 4))
    if fam in {'normal', 'normal_cov', 'lognormal'}:
        th = [m, draw(fl(0.05, 0.5, 3))]
    elif fam == 'normal_std':
        th = [m, m * draw(fl(0.05, 0.5, 3))]
    elif fam == 'uniform':
        th = [m, m * draw(fl(1.1, 3.0, 3))]
    elif fam == 'multilinear_CDF':
        th = [[m, m * 1.5, m * draw(fl(1.6, 4, 3))], [0.0, draw(fl(0.1, 0.9, 3)), 1.0]]
    else:
        th = [m]
    lim = [None, None]
    if fam in {'normal', 'normal_cov', 'normal_std', 'lognormal', 'uniform'}:
        lim = [draw(st.sampled_from([None, None, 0.7 * m, 1.05 * m])),
               draw(st.sampled_from([None, None, 1.3 * m, 1.2 * m]))]
    return {'family': fam, 'theta': th, 'lim': lim}


@st.composite
def variants(draw):
    what = draw(st.sampled_from(['demand', 'asset', 'damage']))
    dims = sorted(ALT)
    rows = []
    for _ in range(draw(st.integers(1, 4))):
        dim = draw(st.sampled_from(dims))
        rows.append({'dim': dim, 'units': draw(st.lists(
            st.sampled_from(sorted(ALT[dim])), min_size=2, max_size=2)),
            'm': draw(marginals(what)), 'x': draw(logfl(-1, 1, 3)),
            'blocks': draw(st.integers(1, 3))})
    return {'what': what, 'rows': rows, 'limits': draw(st.booleans()), 'seed': draw(seeds()),
            'n': draw(st.integers(2, 40)),
            'method': draw(st.sampled_from(['LHS', 'monte_carlo']))}


ALT = {'acc': {'g': 9.80665, 'mps2': 1.0, 'ftps2': 0.3048, 'inchps2': 0.0254},
       'length': {'m': 1.0, 'inch': 0.0254, 'ft': 0.3048, 'cm': 0.01},
       'area': {'m2': 1.0, 'ft2': 0.09290304, 'inch2': 0.00064516},
       'ratio': {'unitless': 1.0, 'rad': 1.0},
       'speed': {'mps': 1.0, 'inchps': 0.0254, 'ftps': 0.3048, 'mph': 0.44704}}
DEMAND = {'acc': ('PGA', 'Peak Ground Acceleration'),
          'length': ('PGD', 'Permanent Ground Deformation'),
          'area': None, 'ratio': ('PRD', 'Peak Roof Drift Ratio'),
          'speed': ('PWS', 'Peak Gust Wind Speed')}


def stated(m, f, limits):
    """The columns of a distribution in a unit of `f` base units."""
    fam, th = m['family'], m['theta']
    out = {'Family': fam, 'Theta_0': None, 'Theta_1': None}
    if fam == 'multilinear_CDF':
        out['Theta_0'] = (','.join(repr(float(v / f)) for v in th[0]) + '|'
                          + ','.join(repr(float(v)) for v in th[1]))
    else:
        out['Theta_0'] = th[0] / f
        if len(th) > 1:
            out['Theta_1'] = th[1] / f if fam in {'normal_std', 'uniform'} else th[1]
    if limits:
        out['TruncateLower'], out['TruncateUpper'] = (
            None if v is None else v / f for v in m['lim'])
    return out


def one_set(case, k):
    """Results with the k-th unit of every row."""
    n = case['n']
    asm = dmg.assessment({'Seed': case['seed'], 'SamplingMethod': case['method'],
                          'NonDirectionalMultipliers': {'ALL': 1.0}})
    rows = [r for r in case['rows'] if case['what'] == 'asset' or DEMAND[r['dim']]]
    if not rows:
        raise Discard
    us = [r['units'][k] for r in rows]
    fs = [ALT[r['dim']][u] for r, u in zip(rows, us)]
    par = [stated(r['m'], f, case['limits']) for r, f in zip(rows, fs)]
    if case['what'] == 'demand':
        index = pd.MultiIndex.from_tuples(
            [(DEMAND[r['dim']][0], str(i), '1') for i, r in enumerate(rows)])
        tab = pd.DataFrame(par, index=index)
        tab.insert(0, 'Units', us)
        asm.demand.load_model({'marginals': tab})
        asm.demand.generate_sample({'SampleSize': n})
        s = asm.demand.save_sample()
        base = asm.demand.sample
        got = {c: s[c].to_numpy(dtype=float) * f for c, f in zip(index, fs)}
        for c in index:
            require_same(base[c].to_numpy(dtype=float), got[c], f'sample of {c} in its unit',
                         1e-4)
        return got
    asm.stories = 5
    if case['what'] == 'asset':
        tab = pd.DataFrame(par, index=[f'C{i}' for i in range(len(rows))])
        tab.insert(0, 'Units', us)
        tab['Location'], tab['Direction'] = '1', '1'
        tab['Blocks'] = [r['blocks'] for r in rows]
        asm.asset.load_cmp_model({'marginals': tab})
        asm.asset.generate_cmp_sample(n)
        s = asm.asset.save_cmp_sample()
        return {c: s[c].to_numpy(dtype=float) * fs[int(c[0][1:])] for c in s.columns}
    cols = [(DEMAND[r['dim']][0], i, 1) for i, r in enumerate(rows)]
    rng = np.random.default_rng(case['seed'])
    x = np.array([r['x'] for r in rows]) * rng.lognormal(0, 0.5, (n, len(rows)))
    dmg.demands(asm, cols, x / np.array(fs), us)
    dmg.components(asm, [{'cmp': f'C{i}', 'loc': i, 'dir': 1, 'q': 3.0,
                          'blocks': r['blocks']} for i, r in enumerate(rows)], n)
    # the capacities are stated in the unit of the demand, or the other one
    cu = [r['units'][1 - k] for r in rows]
    frags = []
    for i, (r, u) in enumerate(zip(rows, cu)):
        p = stated(r['m'], ALT[r['dim']][u], case['limits'])
        name, row = dmg.fragility(f'C{i}', demand=DEMAND[r['dim']][1], unit=u, offset=0,
                                  directional=1)
        row.update({f'LS1-{key}': v for key, v in p.items()})
        frags.append((name, row))
    asm.damage.load_model_parameters([dmg.damage_table(frags)],
                                     set(asm.asset.list_unique_component_ids()))
    asm.damage.calculate()
    return {c: v.astype(float) for c, v in dmg.ds_of(asm).items()}


def run_marginals(case):
    """Distributions stated in other units give the same sample."""
    first = one_set(case, 0)
    other = one_set(case, 1)
    require(set(first) == set(other), 'columns %s and %s', sorted(first), sorted(other))
    for c, v in first.items():
        if case['what'] == 'damage':
            flips = int((v != other[c]).sum())
            require(flips <= 1 + 0.05 * len(v), 'damage states of %s: %s in other units %s',
                    c, v.tolist(), other[c].tolist())
        else:
            require_same(other[c], v, f'{case["what"]} sample of {c} in other units', 1e-4)
    changed = any(r['units'][0] != r['units'][1] for r in case['rows'])
    return {'nontrivial': changed, 'tags': [case['what']]}


SUBS = [Sub('units', cases(), run, 260, 6000),
        Sub('marginals', variants(), run_marginals, 200, 6000)]
