"""C20: stored loss samples and scaled consequences."""
from __future__ import annotations

import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt import losses as L
from pbt.core import Discard, Sub, require, require_same
from pbt.gen import fl

RULE = ('A case counts when the sample has losses of two or more components or decision '
        'variables, and (for scaling) a factor applies to some but not all of them.')
ASSUMPTIONS = ['scaling specifications are comma-separated files, as documented']
QUICK_S = 40


@st.composite
def samples(draw):
    """A loss sample built by the model itself (damage states and loss functions)."""
    case = draw(L.ds_cases())
    lf = []
    if draw(st.booleans()):
        for c in draw(st.lists(st.sampled_from(['LF.1', 'W_2']), min_size=1, max_size=2,
                               unique=True)):
            lf += [[c, *p] for p in draw(st.lists(
                st.tuples(st.integers(1, 3), st.integers(1, 2)), min_size=1, max_size=2,
                unique=True))]
    case['lf'] = lf
    case['lf_unit'] = {d: draw(st.sampled_from(sorted(L.DV_UNITS[d]))) for d in case['dvs']}
    case['seen'] = draw(st.booleans())
    return case


def build(case):
    tab = L.ds_table(case)
    if tab is None:
        raise Discard
    exp = {k: q * m for k, (q, m, _) in L.ds_reference(case).items()}
    n = case['n']
    asm = dmg.assessment({
        'Seed': case['seed'],
        'EconomiesOfScale': {'AcrossFloors': case['floors'],
                             'AcrossDamageStates': case['states']}})
    dmg.demands(asm, [('PGA', loc, d) for loc in range(4) for d in (1, 2)],
                np.ones((n, 8)))
    rows = [{'cmp': c, 'loc': loc, 'dir': int(d), 'q': 1.0, 'unit': case['cmp_unit'][c]}
            for c, loc, d, _, _ in case['groups']]
    rows += [{'cmp': c, 'loc': loc, 'dir': d, 'q': 3.0} for c, loc, d in case['lf']]
    dmg.components(asm, rows, n)
    q = L.quantities(case)
    cols = pd.MultiIndex.from_tuples(list(q), names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    asm.damage.ds_model.sample = pd.DataFrame(
        np.column_stack(list(q.values())), columns=cols).sort_index(axis=1)
    asm.loss.decision_variables = tuple(case['dvs'])
    lmap = {**case['map'], **{c: c for c, _, _ in case['lf']}}
    asm.loss.add_loss_map(pd.DataFrame({'Repair': lmap}))
    tables = [tab]
    unit = {}
    for k in exp:
        unit[k] = case['dv_unit'][k[0]]
    if case['lf']:
        names = list(dict.fromkeys(c for c, _, _ in case['lf']))
        rows, index = [], []
        for i, c in enumerate(names):
            for j, d in enumerate(case['dvs']):
                v = float(2 * i + 5 * j + 1)
                rows.append({'Demand-Type': 'Peak Ground Acceleration',
                             'Demand-Unit': 'mps2', 'Demand-Offset': 0,
                             'Demand-Directional': 1, 'DV-Unit': case['lf_unit'][d],
                             'LossFunction-Theta_0': f'{v},{v}|0.0,5.0'})
                index.append((c, d))
                for c2, loc, dr in case['lf']:
                    if c2 == c:
                        k = (d, c, c, 'N/A', str(loc), str(dr), '0')
                        unit[k] = case['lf_unit'][d]
                        exp[k] = np.full(n, 3.0 * v * L.DV_UNITS[d][unit[k]])
        tables.append(dmg.two_level(rows, pd.MultiIndex.from_tuples(index)))
    asm.loss.load_model_parameters(tables)
    asm.loss.calculate()
    if not exp:
        raise Discard
    return asm, exp, unit


def content(df):
    """Columns of a combined sample by their labels."""
    out = {}
    for j, c in enumerate(df.columns):
        lab = dict(zip(df.columns.names, map(str, c)))
        k = tuple(lab.get(x, 'N/A') for x in ('dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'))
        require(k not in out, 'column %s is repeated', k)
        out[k] = df.iloc[:, j].to_numpy(dtype=float)
    return out


def same(got, exp, what):
    require(set(got) == set(exp), '%s: columns %s; missing %s', what,
            sorted(set(got) - set(exp))[:5], sorted(set(exp) - set(got))[:5])
    for k, v in exp.items():
        require_same(got[k], v, f'{what} {k}', 1e-9, 1e-9)


def run_stored(case):
    """Saved samples are in the units of the parameters and load back the same."""
    asm, exp, unit = build(case)
    if case['seen']:
        same(content(asm.loss.sample), exp, 'loss')
    df, units = asm.loss.save_sample(save_units=True)
    shown = {k: v / L.DV_UNITS[k[0]][unit[k]] for k, v in exp.items()}
    same(content(df), shown, 'saved loss')
    for c, u in units.items():
        lab = dict(zip(units.index.names, map(str, c)))
        k = tuple(lab.get(x, 'N/A') for x in ('dv', 'loss', 'dmg', 'ds', 'loc', 'dir',
                                             'uid'))
        require(u == unit[k], 'unit of %s is %s instead of %s', k, u, unit[k])
    same(content(asm.loss.sample), exp, 'loss after saving')
    ds = {k: v for k, v in exp.items() if k[3] != 'N/A'}
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'loss.csv')
        asm.loss.save_sample(path)
        raw = pd.read_csv(path, index_col=0)
        require(set(map(str, raw.index)) >= {'Units'}, 'no units in the file')
        if asm.loss.lf_model.sample is None:
            # older projects save the combined sample and load it for damage states
            asm2 = dmg.assessment({})
            asm2.loss.load_sample(path)
            same(content(asm2.loss.ds_model.sample), ds, 'loaded loss')
            require(asm2.loss.dv_units == {k[0]: unit[k] for k in ds}, 'units %s',
                    asm2.loss.dv_units)
        if ds:
            path = os.path.join(tmp, 'ds.csv')
            asm.loss.ds_model.save_sample(path)
            asm3 = dmg.assessment({})
            got = asm3.loss.ds_model.load_sample(path)
            same(content(asm3.loss.ds_model.sample), ds, 'loaded loss of damage states')
            require(got == {k[0]: unit[k] for k in ds}, 'units %s', got)
            # from memory
            mem, u = asm.loss.ds_model.save_sample(save_units=True)
            top = u.to_frame().T
            top.index = ['Units']
            asm4 = dmg.assessment({})
            asm4.loss.ds_model.load_sample(pd.concat([top, mem.astype(object)]))
            same(content(asm4.loss.ds_model.sample), ds, 'loss loaded from memory')
            if len({k[:6] for k in ds}) == len(ds):
                # unique identifiers can be left out
                short = pd.concat([top, mem.astype(object)])
                short.columns = short.columns.droplevel('uid')
                asm5 = dmg.assessment({})
                asm5.loss.ds_model.load_sample(short)
                same(content(asm5.loss.ds_model.sample),
                     {(*k[:6], '0'): v for k, v in ds.items()},
                     'loss loaded without identifiers')
    return {'nontrivial': len({k[:3] for k in exp}) > 1,
            'tags': ['both' if len(ds) not in (0, len(exp)) else 'one']}


@st.composite
def scalings(draw):
    case = draw(samples())
    cmps = sorted({g[0] for g in case['groups']} | {g[0] for g in case['lf']})
    cols = draw(st.lists(st.sampled_from(['Component', 'Location', 'Direction']),
                         unique=True))
    rows = []
    span = st.one_of(st.none(), st.integers(0, 4).map(str), st.sampled_from(
        ['1--3', '0--1', '2--2', '1--9']))
    for _ in range(draw(st.integers(1, 4))):
        row = {'Decision Variable': draw(st.sampled_from([*case['dvs'], case['dvs'][0],
                                                          'Other'])),
               'Scale Factor': draw(st.one_of(fl(0.1, 4.0, 3), st.just(2.0)))}
        if 'Component' in cols:
            row['Component'] = draw(st.one_of(st.none(), st.sampled_from([*cmps, 'NONE'])))
        if 'Location' in cols:
            row['Location'] = draw(span)
        if 'Direction' in cols:
            row['Direction'] = draw(span)
        rows.append(row)
    case['scaling'] = rows
    case['bad'] = draw(st.sampled_from([None] * 12 + ['no dv', 'no factor', 'nan', 'nan last', 'nan dv']))
    return case


def within(spec, x):
    if spec is None:
        return True
    if '--' in spec:
        a, b = map(int, spec.split('--'))
        return a <= int(x) <= b
    return spec == x


def run_scaled(case):
    """Every loss is multiplied by the factors of the rows that match it."""
    asm, exp, _ = build(case)
    if case['seen']:
        same(content(asm.loss.sample), exp, 'loss')
    exp = {k: v.copy() for k, v in exp.items()}
    spec = pd.DataFrame(case['scaling'])
    if case['bad'] == 'no dv':
        spec = spec.drop(columns='Decision Variable')
    elif case['bad'] == 'no factor':
        spec = spec.drop(columns='Scale Factor')
    elif case['bad'] == 'nan':
        spec.loc[0, 'Scale Factor'] = np.nan
    elif case['bad'] == 'nan last':
        spec.loc[len(spec) - 1, 'Scale Factor'] = np.nan
    elif case['bad'] == 'nan dv':
        spec.loc[len(spec) - 1, 'Decision Variable'] = np.nan
    hit = set()
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'scaling.csv')
        spec.to_csv(path, index=False)
        try:
            asm.loss.consequence_scaling(path)
        except ValueError:
            if case['bad'] is None:
                raise
            same(content(asm.loss.sample), exp, 'loss after refusal')
            return {'nontrivial': True, 'tags': ['refused']}
    require(case['bad'] is None, 'specification with %s is accepted', case['bad'])
    for row in case['scaling']:
        for k in exp:
            if (k[0] == row['Decision Variable']
                    and row.get('Component') in {None, k[2]}
                    and within(row.get('Location'), k[4])
                    and within(row.get('Direction'), k[5])):
                exp[k] = exp[k] * row['Scale Factor']
                hit.add(k)
    same(content(asm.loss.sample), exp, 'scaled loss')
    return {'nontrivial': 0 < len(hit) < len(exp), 'tags': [f'{min(len(hit), 3)} scaled']}


SUBS = [Sub('stored', samples(), run_stored, 150, 2500),
        Sub('scaled', scalings(), run_scaled, 200, 4000)]
