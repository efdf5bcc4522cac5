"""C11: the demand that a component is evaluated at."""
from __future__ import annotations

import math
import re

import numpy as np
from hypothesis import strategies as st

from pbt import dmg
from pbt.core import Sub, Violation, require, require_same
from pbt.gen import fl, logfl, maybe, seeds

RULE = ('A case counts when the demands that are needed are available and at least one '
        'component has two different demand values in the sample.')
ASSUMPTIONS = [
    'demands are positive and component blocks have a deterministic capacity, or a loss '
    'function that gives back its argument, so that the demand is observable',
]
QUICK_S = 40
DIMS = {'PFA': ['g', 'mps2', 'inchps2'], 'PGA': ['g', 'mps2'], 'SA_0.5': ['g', 'mps2'],
        'SA_1.13': ['g'], 'PFV': ['cmps', 'mps'], 'PGD': ['inch', 'ft', 'm'],
        'PWS': ['mps', 'cmps'], 'PIH': ['ft', 'm']}
EXPR = ['X1', '2*X1', 'X1^2', 'X1+X2', 'X1*X2', 'X1+X2^2', 'X2/X1', 'sqrt(X1*X2)',
        '(X1+X2)*X3', 'X1*X2+X3', 'X3-X1-X2', 'X1+2*X1*X2', 'X4+X1*X3-X2',
        'X1+X2*X3+X4*X5', 'X6/X5+X1*X2-X4-X3', '2*X1 + X2**2', '+'.join(
            f'{i}*X{i}' for i in range(1, 12))]


def n_terms(e):
    return max(map(int, re.findall(r'X(\d+)', e)))


def units_of(t):
    return DIMS.get(t, ['unitless', 'rad'])


@st.composite
def cases(draw):
    config = {}
    off = draw(st.sampled_from([None, {'PFA': -1, 'PFV': -1}, {'PID': 1}, {'PGA': 2}, {},
                                {'SA': 1, 'PID': -1}]))
    if off is not None:
        config['DemandOffset'] = off
    mult = draw(st.sampled_from([
        None, {'ALL': 1.0}, {'ALL': 1.5, 'PID': 0.8}, {'PFA': 2.0, 'ALL': 1.1},
        {'PID': 1.3, 'PFA': 1.1}, {'SA_0.5': 3.0, 'ALL': 1.25}]))
    if mult is not None:
        config['NonDirectionalMultipliers'] = mult
    comps = []
    for i in range(draw(st.integers(1, 4))):
        expr = draw(st.one_of(st.none(), st.none(), st.sampled_from(EXPR)))
        k = n_terms(expr) if expr else 1
        terms = []
        for j in range(k):
            if j and draw(st.integers(0, 3)) == 0:
                terms.append(list(terms[-1]))
            else:
                terms.append([draw(st.sampled_from(sorted(dmg.NAMES))),
                              draw(st.integers(-1, 2)), draw(st.integers(0, 1))])
        groups = draw(st.lists(st.tuples(st.one_of(st.integers(2, 6), st.integers(2, 6),
                                         st.integers(0, 3)), st.integers(0, 3)),
                               min_size=1, max_size=3, unique=True))
        comps.append({'name': f'C{i}.x', 'expr': expr, 'terms': terms,
                      'groups': [list(g) for g in groups],
                      'unit': draw(st.sampled_from(units_of(dmg.NAMES[terms[0][0]])))
                      if not expr else 'unitless',
                      'blocks': draw(st.sampled_from([1, 1, 2]))})
    # the demands that are needed, with any number of directions for the non-directional
    need = []
    for c in comps:
        for t, o, d in c['terms']:
            for loc, dr in c['groups']:
                for e in directions(draw, d, dr):
                    key = (dmg.NAMES[t], str(where(config, t, o, loc)), str(e))
                    if key not in need:
                        need.append(key)
    extra = draw(st.lists(st.tuples(
        st.sampled_from(sorted(set(dmg.NAMES.values()))), st.integers(0, 6).map(str),
        st.integers(0, 3).map(str)), max_size=3))
    cols = [k for k in [*need, *extra] if not k[1].startswith('-')]
    cols = list(dict.fromkeys(cols))
    if not cols:
        cols = [('PID', '1', '1')]
    drop = draw(maybe(st.integers(0, len(cols) - 1), 0.15))
    if drop is not None and len(cols) > 1:
        cols.pop(drop)
    order = draw(st.permutations(range(len(cols))))
    cols = [list(cols[i]) for i in order]
    n = draw(st.integers(1, 6))
    return {'config': config, 'comps': comps, 'cols': cols,
            'units': [draw(st.sampled_from(units_of(c[0]))) for c in cols],
            'vals': [[draw(logfl(-2, 1.5)) for _ in cols] for _ in range(n)],
            'seed': draw(seeds()), 'batch': draw(st.sampled_from([1, 2, 3, 1000]))}


def directions(draw, directional, dr):
    if directional and dr != 0:
        return [dr]
    return draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))


def where(config, name, offset, loc):
    """Location of the demand: default offsets of the demand type are added."""
    base = dmg.NAMES[name].split('_')[0]
    # settings of the user extend the defaults
    offs = {'PFA': -1, 'PFV': -1, **config.get('DemandOffset', {})}
    return loc + offset + offs.get(base, 0)


class Missing(Exception):
    pass


def single(case, name, offset, directional, loc, dr):
    """Demand of one term in base units."""
    etype = dmg.NAMES[name]
    at = where(case['config'], name, offset, loc)
    if at < 0:
        raise Missing('negative location')
    cols = {tuple(c): i for i, c in enumerate(case['cols'])}
    raw = np.array(case['vals'], dtype=float)
    f = np.array([dmg.UNITS[u] for u in case['units']])
    base = raw * f
    if directional and dr != 0:
        key = (etype, str(at), str(dr))
        if key not in cols:
            raise Missing(str(key))
        return base[:, cols[key]]
    have = [i for c, i in cols.items() if c[:2] == (etype, str(at))]
    if not have:
        raise Missing(f'{etype} at {at}')
    mult = {'ALL': 1.2, **case['config'].get('NonDirectionalMultipliers', {})}
    m = mult.get(etype, mult['ALL'])
    return base[:, have].max(axis=1) * m


def seen(case, comp, loc, dr):
    """Demand of a component in base units."""
    x = [single(case, *t, loc, dr) for t in comp['terms']]
    if comp['expr'] is None:
        return x[0]
    env = {f'X{i + 1}': v for i, v in enumerate(x)}
    env['sqrt'] = np.sqrt
    return np.array(eval(comp['expr'].replace('^', '**'), {'__builtins__': {}}, env),  # noqa: S307
                    dtype=float)


def demand_columns(comp):
    out = {}
    for i, (t, o, d) in enumerate(comp['terms']):
        p = 'Demand' if i == 0 else f'Demand{i + 1}'
        out[f'{p}-Type'], out[f'{p}-Offset'], out[f'{p}-Directional'] = t, o, d
        out[f'{p}-Unit'] = comp['unit']
    if comp['expr'] is not None:
        out['Demand-Expression'] = comp['expr']
    return out


def rows_of(case):
    return [{'cmp': c['name'], 'loc': loc, 'dir': d, 'q': 2.0 + i, 'blocks': c['blocks']}
            for i, c in enumerate(case['comps']) for loc, d in c['groups']]


def reference(case):
    """(component, loc, dir) -> demand values, or None when the sample has no such demand."""
    out = {}
    try:
        for c in case['comps']:
            for loc, d in c['groups']:
                out[c['name'], str(loc), str(d)] = seen(case, c, loc, d)
    except Missing:
        return None
    return out


def prepared(case, config=None):
    asm = dmg.assessment({'Seed': case['seed'], **case['config'], **(config or {})})
    dmg.demands(asm, case['cols'], case['vals'], case['units'])
    dmg.components(asm, rows_of(case), len(case['vals']))
    return asm


def thresholds(vals):
    """Capacities between the sorted demand values, at most eight."""
    v = np.unique(np.concatenate(vals))
    mids = [float((a + b) / 2) for a, b in zip(v, v[1:])
            if b - a > 1e-4 * max(abs(a), abs(b), 1e-12)]
    if len(mids) > 8:
        mids = [mids[round(i * (len(mids) - 1) / 7)] for i in range(8)]
    return mids or [float(v[0]) - 0.1 * abs(float(v[0])) - 1e-3]


def run_fragility(case):
    """Damage follows the demand of the right type, location and direction."""
    exp = reference(case)
    asm = prepared(case)
    frags = []
    lims = {}
    for c in case['comps']:
        f = dmg.UNITS[c['unit']]
        if exp is None:
            th = [1.0]
        else:
            th = thresholds([v for k, v in exp.items() if k[0] == c['name']])
        lims[c['name']] = th
        _, row = dmg.fragility(c['name'], limit_states=[
            {'family': 'deterministic', 'theta': [t / f]} for t in th])
        row.update(demand_columns(c))
        frags.append((c['name'], row))
    names = {c['name'] for c in case['comps']}
    asm.damage.load_model_parameters([dmg.damage_table(frags)], names)
    before = asm.demand.sample.copy()
    if exp is None:
        try:
            asm.damage.calculate(block_batch_size=case['batch'])
        except ValueError:
            return {'nontrivial': False, 'tags': ['refused']}
        raise Violation('a demand that is not available is accepted')
    asm.damage.calculate(block_batch_size=case['batch'])
    require(before.equals(asm.demand.sample), 'the demand sample is changed')
    got = dmg.ds_of(asm)
    for c in case['comps']:
        for loc, d in c['groups']:
            e = exp[c['name'], str(loc), str(d)]
            ds = [sum(x > t for t in lims[c['name']]) for x in e]
            near = [any(abs(x - t) < 1e-8 * max(abs(x), abs(t)) for t in
                        lims[c['name']]) for x in e]
            for b in range(c['blocks']):
                k = (c['name'], str(loc), str(d), '0', str(b + 1))
                require(k in got, 'no damage state for %s among %s', k, sorted(got))
                for r, (x, y) in enumerate(zip(got[k].tolist(), ds)):
                    require(x == y or near[r], '%s is in DS%d instead of DS%d in '
                            'realization %d: demand of %s, capacities %s', k, x, y, r,
                            e.tolist(), lims[c['name']])
    return {'nontrivial': any(len(set(v.tolist())) > 1 for v in exp.values()),
            'tags': [str(c['expr']) for c in case['comps']]}


def run_function(case):
    """Loss functions get the demand of the right type, location and direction."""
    exp = reference(case)
    if exp is not None and any((v < 0).any() for v in exp.values()):
        exp = {}
        case = {**case, 'comps': [c for c in case['comps'] if c['expr'] is None]}
        if not case['comps']:
            return {'nontrivial': False}
        exp = reference(case)
    asm = prepared(case)
    rows, index = [], []
    for c in case['comps']:
        row = {'Incomplete': 0, **demand_columns(c), 'DV-Unit': 'USD_2011',
               'LossFunction-Theta_0': '0.0,1.0e+8|0.0,1.0e+8'}
        rows.append(row)
        index.append((c['name'], 'Cost'))
    tab = dmg.two_level(rows, None)
    import pandas as pd

    tab.index = pd.MultiIndex.from_tuples(index)
    asm.loss.decision_variables = ('Cost',)
    asm.loss.add_loss_map(loss_map_policy='fill')
    asm.loss.load_model_parameters([tab])
    if exp is None:
        try:
            asm.loss.calculate()
        except ValueError:
            return {'nontrivial': False, 'tags': ['refused']}
        raise Violation('a demand that is not available is accepted')
    asm.loss.calculate()
    s = asm.loss.lf_model.sample
    got = {tuple(map(str, c)): s.iloc[:, i].to_numpy() for i, c in enumerate(s.columns)}
    for i, c in enumerate(case['comps']):
        for loc, d in c['groups']:
            k = ('Cost', c['name'], c['name'], str(loc), str(d), '0')
            require(k in got, 'no loss for %s among %s', k, sorted(got))
            e = exp[c['name'], str(loc), str(d)] / dmg.UNITS[c['unit']] * (2.0 + i)
            require_same(got[k], e, f'demand of {k} times its quantity', 1e-9)
    return {'nontrivial': any(len(set(v.tolist())) > 1 for v in exp.values()),
            'tags': [str(c['expr']) for c in case['comps']]}


SUBS = [
    Sub('fragility', cases(), run_fragility, 300, 5000),
    Sub('function', cases(), run_function, 220, 4000),
]
del math, fl
