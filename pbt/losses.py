"""Shared set-up of loss models with given damaged quantities."""
from __future__ import annotations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt.gen import fl, logfl, maybe, seeds

DV_UNITS = {'Cost': {'USD_2011': 1.0, 'USD': 1.0, 'loss_ratio': 1.0},
            'Time': {'worker_day': 1.0, 'day': 86400.0},
            'Carbon': {'kg': 1.0}, 'Energy': {'MJ': 1e6}}
Q_UNITS = {'EA': {'1 EA': 1.0, '20 EA': 20.0},
           'ft2': {'1 ft2': 0.3048**2, '100 ft2': 100 * 0.3048**2, '1 m2': 1.0},
           'm': {'1 m': 1.0, '10 ft': 3.048}}
NAMES = ['A', 'B.10.41', 'C3011.001a', 'D_4', 'EXT', 'CostX', 'DMG1.a']
RNAMES = ['R1', 'R.2', 'rep_3', 'Z9']


@st.composite
def consequence(draw, random=False):
    """One damage state of a consequence: median and deviation."""
    multi = draw(st.booleans())
    if multi:
        m = draw(st.sampled_from([2, 3, 4, 2, 3, 4, 6, 11]))
        q = sorted(draw(st.lists(logfl(-1, 3, 3), min_size=m, max_size=m, unique=True)))
        med = draw(st.lists(logfl(0, 4, 3), min_size=m, max_size=m))
        th0 = {'med': med, 'q': q}
    else:
        th0 = draw(st.one_of(logfl(-1, 4, 4), st.sampled_from([10.0, 25.0, 3.0])))
    fam = draw(st.sampled_from(['normal', 'lognormal', 'deterministic', None]
                               if random else [None]))
    th1 = draw(fl(0.05, 1.2, 3)) if fam in {'normal', 'lognormal'} else None
    return {'th0': th0, 'family': fam, 'th1': th1}


@st.composite
def ds_cases(draw, random=False, constant=False, large=False):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    if large:
        names += [f'c{i}' for i in range(draw(st.integers(5, 12)))]
        rng = np.random.default_rng(draw(seeds()))
    dvs = draw(st.lists(st.sampled_from(sorted(DV_UNITS)), min_size=1, max_size=3,
                        unique=True))
    dv_unit = {d: draw(st.sampled_from(sorted(DV_UNITS[d]))) for d in dvs}
    cmp_unit = {c: draw(st.sampled_from(sorted(Q_UNITS))) for c in names}
    # several components can share consequences
    lmap = {}
    for c in names:
        lmap[c] = draw(st.sampled_from([c, c, *RNAMES]))
    cons = {}
    for c, r in lmap.items():
        if r in cons:
            continue
        nds = draw(st.sampled_from([2, 12]) if large else st.integers(1, 4))
        par = {}
        for d in dvs:
            if draw(st.integers(0, 9)) == 9:
                continue
            states = {str(k + 1): draw(consequence(random)) for k in range(nds)
                      if draw(st.integers(0, 9)) != 9}
            if states:
                par[d] = states
        cons[r] = {'qunit': draw(st.sampled_from(sorted(Q_UNITS[cmp_unit[c]]))),
                   'par': par}
    n = draw(st.sampled_from([120, 400, 1500]) if constant else st.sampled_from(
        [2, 5, 700]) if large else st.integers(1, 6))
    groups = []
    for c in names:
        place = st.tuples(st.integers(0, 12 if large else 3), st.integers(0, 2),
                          st.integers(0, 4 if large else 1))
        for p in draw(st.lists(place, min_size=1, unique=True,
                               max_size=12 if large and c in names[:2] else 3)):
            states = draw(st.lists(
                st.integers(0, 12) if large else st.sampled_from([1, 2, 3, 0, 4]),
                min_size=1, max_size=3, unique=True))
            vals = {}
            for s in states:
                if constant:
                    v = draw(logfl(-1, 2, 3))
                elif large:
                    v = np.round(np.where(rng.random(n) < 0.2, 0.0,
                                          10 ** rng.uniform(-1, 3, n)), 3).tolist()
                else:
                    v = [draw(st.one_of(logfl(-1, 3, 4), st.just(0.0),
                                   st.integers(0, 40).map(float)))
                         for _ in range(n)]
                vals[str(s)] = v
            groups.append([c, *map(str, p), vals])
    return {'dvs': dvs, 'dv_unit': dv_unit, 'cmp_unit': cmp_unit, 'map': lmap,
            'cons': cons, 'n': n, 'groups': groups, 'seed': draw(seeds()),
            'na': None if constant else draw(
                maybe(st.lists(st.integers(0, 1), min_size=n, max_size=n), 0.2)),
            'floors': draw(st.booleans()), 'states': draw(st.booleans()),
            'rho': draw(st.sampled_from([0.0, 0.0, 0.5, 0.9, -0.6])) if random else 0.0,
            'method': draw(st.sampled_from(['LHS', 'LHS_midpoint', 'MonteCarlo']))
            if random else 'LHS'}


def ds_table(case):
    rows, index = [], []
    for r, c in case['cons'].items():
        for d, states in c['par'].items():
            row = {'Incomplete': 0, 'Quantity-Unit': c['qunit'],
                   'DV-Unit': case['dv_unit'][d]}
            for s, p in states.items():
                th0 = p['th0']
                if isinstance(th0, dict):
                    th0 = ','.join(map(repr, th0['med'])) + '|' + ','.join(
                        map(repr, th0['q']))
                row[f'DS{s}-Family'] = p['family']
                row[f'DS{s}-Theta_0'] = th0
                row[f'DS{s}-Theta_1'] = p['th1']
            rows.append(row)
            index.append((r, d))
    for row in rows:
        row.setdefault('DS1-Family', None)
        row.setdefault('DS1-Theta_0', None)
        row.setdefault('DS1-Theta_1', None)
    if not rows:
        return None
    return dmg.two_level(rows, pd.MultiIndex.from_tuples(index))


def quantities(case):
    """(cmp, loc, dir, uid, ds) -> array with NaN where not available."""
    out = {}
    for c, loc, d, u, vals in case['groups']:
        for s, v in vals.items():
            a = np.full(case['n'], v, dtype=float) if not isinstance(v, list) else (
                np.array(v, dtype=float))
            if case['na'] is not None:
                a[np.array(case['na']) == 1] = np.nan
            out[c, loc, d, u, s] = a
    return out


def ds_assessment(case, extra=None, **config):
    asm = dmg.assessment({
        'Seed': case['seed'], 'RepairCostAndTimeCorrelation': case['rho'],
        'EconomiesOfScale': {'AcrossFloors': case['floors'],
                             'AcrossDamageStates': case['states']}, **config})
    n = case['n']
    dmg.demands(asm, [('PID', '1', '1')], np.linspace(0.1, 1.0, n).reshape(n, 1))
    rows = [{'cmp': c, 'loc': loc, 'dir': max(int(d), 0), 'q': 1.0,
             'unit': case['cmp_unit'][c]} for c, loc, d, _, _ in case['groups']]
    dmg.components(asm, rows, n)
    q = quantities(case)
    cols = pd.MultiIndex.from_tuples(list(q), names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    asm.damage.ds_model.sample = pd.DataFrame(
        np.column_stack(list(q.values())), columns=cols).sort_index(axis=1)
    asm.loss.decision_variables = tuple(case['dvs'])
    asm.loss.add_loss_map(pd.DataFrame({'Repair': case['map']}))
    return asm


def median_of(case, p, d, qunit, x):
    """Consequence per unit of quantity given the aggregate quantity (base units)."""
    dvf = DV_UNITS[d][case['dv_unit'][d]]
    qf = next(f[qunit] for f in Q_UNITS.values() if qunit in f)
    if isinstance(p['th0'], dict):
        return np.interp(x, np.array(p['th0']['q']) * qf,
                         np.array(p['th0']['med']) * dvf / qf)
    return np.full(len(x), p['th0'] * dvf / qf)


def ds_reference(case):
    """(dv, loss, dmg, ds, loc, dir, uid) -> (quantity, median, parameters)."""
    q = quantities(case)
    out = {}
    for (c, loc, d, u, s), v in q.items():
        if s == '0':
            continue
        cons = case['cons'][case['map'][c]]
        for dv in case['dvs']:
            p = cons['par'].get(dv, {}).get(s)
            if p is None:
                continue
            agg = np.zeros(case['n'])
            for (c2, l2, _, _, s2), v2 in q.items():
                if c2 == c and s2 != '0' and (case['floors'] or l2 == loc) and (
                        case['states'] or s2 == s):
                    agg = agg + np.nan_to_num(v2)
            out[dv, case['map'][c], c, s, loc, d, u] = (
                np.nan_to_num(v), median_of(case, p, dv, cons['qunit'], agg), p)
    return out
