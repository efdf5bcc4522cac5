"""C17: consequences of loss functions."""
from __future__ import annotations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt import losses as L
from pbt.core import Discard, Sub, Violation, require, require_same
from pbt.gen import fl, logfl, seeds

RULE = ('A case counts when a loss function with two or more different values applies to '
        'two or more realizations, or is refused.')
ASSUMPTIONS = [
    'quantities are in units that equal the base unit, since loss functions give the loss '
    'of one unit of the component',
]
QUICK_S = 40
TYPES = [('Peak Interstory Drift Ratio', ['unitless', 'rad']),
         ('Peak Floor Acceleration', ['g', 'mps2', 'inchps2']),
         ('Peak Ground Acceleration', ['g', 'mps2']),
         ('Spectral Acceleration|0.5', ['g']),
         ('Peak Gust Wind Speed', ['mps', 'cmps'])]


@st.composite
def function(draw, dv, wide):
    t, units = draw(st.sampled_from(TYPES))
    unit = draw(st.sampled_from(units))
    m = draw(st.integers(2, 5))
    x = np.cumsum([draw(fl(0.2, 1.0, 2)) for _ in range(m - 1)])
    x = [0.0, *(x / x[-1] * (3.0 if wide else 0.7)).tolist()]
    y = [draw(st.one_of(fl(0.0, 50.0, 3), st.just(0.0))) for _ in range(m)]
    # written as functions of the base unit, stored in the unit of the table
    return {'type': t, 'unit': unit, 'offset': draw(st.sampled_from([0, 0, 1])),
            'directional': draw(st.integers(0, 1)), 'x': x, 'y': y,
            # with a negligible dispersion
            'family': draw(st.sampled_from([None, None, 'lognormal', 'normal']))}


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(L.NAMES), min_size=1, max_size=3, unique=True))
    dvs = draw(st.lists(st.sampled_from(sorted(L.DV_UNITS)), min_size=1, max_size=3,
                        unique=True))
    dv_unit = {d: draw(st.sampled_from(sorted(L.DV_UNITS[d]))) for d in dvs}
    lmap = {c: draw(st.sampled_from([c, *L.RNAMES[:2]])) for c in names}
    wide = draw(st.integers(0, 9)) != 0
    cons = {}
    for r in dict.fromkeys(lmap.values()):
        cons[r] = {d: draw(function(d, wide)) for d in dvs if draw(st.integers(0, 6)) != 6}
    unused = draw(st.booleans())
    n = draw(st.integers(1, 6))
    groups = []
    for c in names:
        groups += [[c, *p] for p in draw(st.lists(
            st.tuples(st.integers(1, 3), st.integers(0, 2), fl(0.0, 20.0, 2),
                      st.sampled_from([1, 1, 2, 3]), st.sampled_from([None, 0.2])),
            min_size=1, max_size=3))]
    return {'dvs': dvs, 'dv_unit': dv_unit, 'map': lmap, 'cons': cons, 'n': n,
            'groups': groups, 'unused': unused, 'seed': draw(seeds()),
            'mult': draw(st.sampled_from([1.0, 1.2, 1.5])), 'wide': wide,
            'demand': [draw(fl(0.0, 1.5, 3)) for _ in range(8)],
            'ds': draw(st.integers(0, 2)) == 0,
            'damage': draw(st.booleans())}


def demand_frame(case):
    """Every demand that can be needed, values from a short list."""
    cols = [(dmg.NAMES[t], loc, d) for t, _ in TYPES for loc in range(0, 5)
            for d in (1, 2)]
    v = case['demand']
    vals = np.array([[v[(3 * i + 7 * j + i * j) % len(v)] for j in range(len(cols))]
                     for i in range(case['n'])])
    return cols, vals


def uids(case):
    """Labels of the performance groups (counted within component, place, direction)."""
    seen, out = {}, []
    for c, loc, d, *_ in case['groups']:
        k = seen[c, loc, d] = seen.get((c, loc, d), -1) + 1
        out.append((c, str(loc), str(d), str(k)))
    return out


def run_functions(case):
    """Loss = quantity times the loss function at the demand."""
    rows, index = [], []
    cons = dict(case['cons'])
    if case['unused']:
        cons['UNUSED'] = next((v for v in cons.values() if v), {})
    for r, per in cons.items():
        for d, f in per.items():
            xf, yf = dmg.UNITS[f['unit']], L.DV_UNITS[d][case['dv_unit'][d]]
            xs = ','.join(repr(float(v / xf)) for v in f['x'])
            ys = ','.join(repr(float(v / yf)) for v in f['y'])
            rows.append({'Demand-Type': f['type'], 'Demand-Unit': f['unit'],
                         'Demand-Offset': f['offset'],
                         'Demand-Directional': f['directional'],
                         'DV-Unit': case['dv_unit'][d],
                         'LossFunction-Theta_0': f'{ys}|{xs}',
                         'LossFunction-Theta_1': 1e-9 if f['family'] else None,
                         'LossFunction-Family': f['family']})
            index.append((r, d))
    used = {(r, d) for r, d in index if r in case['map'].values()}
    if not used:
        raise Discard
    asm = dmg.assessment({'Seed': case['seed'], 'DemandOffset': {'PFA': 0, 'PFV': 0},
                          'NonDirectionalMultipliers': {'ALL': case['mult']}})
    cols, vals = demand_frame(case)
    dmg.demands(asm, cols, vals)
    dmg.components(asm, [
        {'cmp': c, 'loc': loc, 'dir': d, 'q': q, 'blocks': b,
         'family': 'normal' if cov and q else None, 'theta1': cov if q else None}
        for c, loc, d, q, b, cov in case['groups']], case['n'])
    asm.loss.decision_variables = tuple(case['dvs'])
    lmap = dict(case['map'])
    asm.loss.add_loss_map(pd.DataFrame({'Repair': lmap}))
    tab = dmg.two_level(rows, pd.MultiIndex.from_tuples(index))
    before = tab.copy()
    tables = [tab]
    if case['ds']:
        # a consequence of damage states that applies to no component with damage
        tables.append(dmg.two_level(
            [{'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': case['dv_unit'][d],
              'DS1-Family': None, 'DS1-Theta_0': 1.0, 'DS1-Theta_1': None}
             for d in case['dvs']],
            pd.MultiIndex.from_tuples([('OTHER', d) for d in case['dvs']])))
    asm.loss.load_model_parameters(tables)
    pd.testing.assert_frame_equal(tab, before)
    require(set(asm.loss._missing) == {  # noqa: SLF001
        (r, d) for r in case['map'].values() for d in case['dvs']
        if d not in case['cons'][r]}, 'missing %s', asm.loss._missing)  # noqa: SLF001
    # expectation
    at = {c: vals[:, i] for i, c in enumerate(cols)}
    exp, out_of_domain = {}, False
    cs = asm.asset.cmp_sample
    for (c, loc, d, _, _, _), key in zip(case['groups'], uids(case)):
        for dv, f in case['cons'][case['map'][c]].items():
            t, where = dmg.NAMES[f['type']], int(loc) + f['offset']
            if f['directional'] and int(d) > 0:
                x = at[t, where, int(d)]
            else:
                x = np.maximum(at[t, where, 1], at[t, where, 2]) * case['mult']
            top = f['x'][-1]
            if ((x > top * (1 - 1e-9)) & (x < top * (1 + 1e-9))).any():
                raise Discard
            if (x > top).any():
                out_of_domain = True
            y = np.interp(x, f['x'], f['y'])
            slope = np.max(np.abs(np.diff(f['y']) / np.diff(f['x'])))
            tol = (1e-7 if f['family'] else 1e-11) * (slope * top + max(f['y']))
            q = cs[key].to_numpy(dtype=float)
            exp[dv, case['map'][c], *key] = (y * q, tol * np.abs(q) + 1e-12)
    if case['damage']:
        # damage of the same components does not matter
        head = pd.MultiIndex.from_tuples(
            [(*k, '1') for k in uids(case)], names=['cmp', 'loc', 'dir', 'uid', 'ds'])
        asm.damage.ds_model.sample = pd.DataFrame(
            np.ones((case['n'], len(head))), columns=head).sort_index(axis=1)
    demand_before = asm.demand.sample.copy()
    try:
        asm.loss.calculate()
    except ValueError as exc:
        if not out_of_domain:
            raise
        require('interpolation' in str(exc), 'refused with: %s', exc)
        return {'nontrivial': True, 'tags': ['refused']}
    if out_of_domain:
        raise Violation('a demand outside of the domain of the loss function is accepted')
    pd.testing.assert_frame_equal(asm.demand.sample, demand_before)
    require(asm.loss.ds_model.sample is None or not asm.loss.ds_model.sample.shape[1],
            'damage states lead to losses without such consequences')
    s = asm.loss.lf_model.sample
    require(list(s.columns.names) == ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid'],
            'levels %s', list(s.columns.names))
    got = {tuple(map(str, c)): i for i, c in enumerate(s.columns)}
    require(len(got) == s.shape[1], 'columns are repeated')
    require(set(got) == set(exp), 'losses %s; missing %s', sorted(set(got) - set(exp)),
            sorted(set(exp) - set(got)))
    for k, (v, tol) in exp.items():
        g = s.iloc[:, got[k]].to_numpy(dtype=float)
        require(bool((np.abs(g - v) <= tol).all()), 'loss %s: got %s expected %s', k,
                g.tolist(), v.tolist())
    many = any(len(set(f['y'])) > 1 for p in case['cons'].values() for f in p.values())
    return {'nontrivial': many and case['n'] > 1,
            'tags': ['+'.join(sorted({str(f['family']) for p in case['cons'].values()
                                     for f in p.values()})), 'shared' if len(set(case['map'].values())) < len(case['map'])
                     else 'separate', 'identity' if all(
                         a == b for a, b in case['map'].items()) else 'mapped']}


SUBS = [Sub('functions', cases(), run_functions, 350, 6000)]
del logfl, require_same
