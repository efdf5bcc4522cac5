"""Calculations with loss functions, and losses of wind and flood combined by a table."""
from __future__ import annotations

import json
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import aggregate, calc, dmg
from pbt.core import Discard, require, require_same
from pbt.gen import fl, maybe, seeds
from pbt.regional import Library, flat

WIND, FLOOD, OTHER = 'Hazus Hurricane Wind', 'Hazus Hurricane Storm Surge - Buildings', (
    'Hazus Hurricane Wind - Buildings')
IM = {'PWS': ('Peak Gust Wind Speed', {'mph': 0.44704, 'mps': 1.0}, 120.0),
      'PIH': ('Peak Inundation Height', {'ft': 0.3048, 'm': 1.0, 'inch': 0.0254}, 8.0)}
IDS = ['W.SF1', 'F.1', 'wind_a', 'flood.x.2', 'M2', 'MLRI']
DV = {'Cost': 'loss_ratio', 'Time': 'day', 'Carbon': 'kg'}
BASE = {'loss_ratio': 1.0, 'day': 86400.0, 'kg': 1.0}


@st.composite
def cases(draw, pair=False):
    n = draw(st.integers(1, 6))
    approach = draw(st.sampled_from(['Automatic', 'User Defined']))
    combine = draw(st.integers(0, 3)) > 0
    if pair:
        approach, combine = 'Automatic', True
    # which components are combined is only specified by the order of the user
    most = 2 if combine and approach == 'Automatic' else 4
    names = draw(st.lists(st.sampled_from(IDS), min_size=2, max_size=most, unique=True))
    dvs = ['Cost', *draw(st.lists(st.sampled_from(['Time', 'Carbon']), unique=True))]
    place = draw(st.sampled_from([[0], [1], [1]]))
    folder = {k: draw(st.sampled_from([WIND, OTHER])) if k == 'PWS' else FLOOD for k in IM}
    # a folder has either consequences of damage states or loss functions
    style = {f: draw(st.sampled_from(['functions', 'functions', 'states']))
             for f in sorted({*folder.values()})}
    comps = {}
    for i, nm in enumerate(names):
        kind = ['PWS', 'PIH'][i] if i < 2 else draw(st.sampled_from(sorted(IM)))
        c = {'kind': kind, 'unit': draw(st.sampled_from(sorted(IM[kind][1]))),
             'style': style[folder[kind]], 'q': 1.0, 'own': len(set(style.values())) == 1 and draw(st.integers(0, 2)) == 0}
        k = draw(st.integers(2, 5))
        c['x'] = [0.0, *sorted(draw(st.lists(st.integers(1, 39).map(lambda i: i / 20),
                                             min_size=k - 1, max_size=k - 1, unique=True))),
                  2.0]
        # losses of wind and flood are not combined where either is missing
        c['dv'] = {}
        for dv in dvs:
            if dv == 'Cost' or draw(st.integers(0, 3)):
                y = draw(st.lists(fl(0.0, 1.0, 3), min_size=k + 1, max_size=k + 1))
                c['dv'][dv] = y if dv == 'Cost' else [round(v * 50, 4) for v in y]
        comps[nm] = c
    axis = [0.0, *sorted(draw(st.lists(st.integers(1, 19).map(lambda i: i / 20),
                                       min_size=1, max_size=4, unique=True))), 1.0]
    inner = draw(st.lists(st.integers(0, 20).map(lambda i: i / 20), min_size=30,
                          max_size=30))
    return {
        'n': n, 'comps': comps, 'dvs': dvs, 'place': place, 'folder': folder,
        'approach': approach, 'order': draw(st.permutations(names)),
        'combine': combine, 'axis': axis, 'inner': inner,
        'units': {k: draw(st.sampled_from(sorted(IM[k][1]))) for k in IM},
        'values': draw(st.lists(st.lists(fl(0.0, 1.66 if place == [0] else 1.99, 4), min_size=2, max_size=2),
                                min_size=n, max_size=n)),
        'process': draw(st.sampled_from(['Hazus Hurricane', 'None'])),
        'rep': {dv: draw(fl(1.0, 100.0, 3)) for dv in dvs if dv == 'Time' or draw(
            st.booleans())},
        'seed': draw(seeds()), 'list': draw(maybe(st.booleans(), 0.5))}


def symmetric(case):
    """The table with both hazards on the same axis; the same for either order."""
    arr = aggregate.table([case['axis']] * 2, case['inner'])
    if case['approach'] == 'Automatic':
        arr = np.maximum(arr, arr.T)
    return arr


def write(case, lib):
    custom = Path('models')
    custom.mkdir()
    tabs, frags = {}, {}
    for nm, c in case['comps'].items():
        name, units, top = IM[c['kind']]
        f = units[c['unit']]
        xs = [v * top / f for v in c['x']]
        for dv, y in c['dv'].items():
            if c['style'] == 'functions':
                row = {'Demand-Type': name, 'Demand-Unit': c['unit'], 'Demand-Offset': 0,
                       'Demand-Directional': int(case['place'] != [0]), 'DV-Unit': DV[dv],
                       'LossFunction-Theta_0': ','.join(map(repr, y)) + '|' + ','.join(
                           repr(float(v)) for v in xs)}
            else:
                row = {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': DV[dv]}
                for i, v in enumerate(y[1:-1]):
                    row.update({f'DS{i + 1}-Family': None, f'DS{i + 1}-Theta_0': v,
                                f'DS{i + 1}-Theta_1': None})
            to = custom if c['own'] else case['folder'][c['kind']]
            tabs.setdefault((to, c['style']), {})[f'{nm}-{dv}'] = row
        if c['style'] == 'states':
            frags.setdefault(case['folder'][c['kind']], []).append(dmg.fragility(
                nm, demand=name, unit=c['unit'], offset=0,
                directional=int(case['place'] != [0]),
                limit_states=[{'family': None, 'theta': [v]} for v in xs[1:-1]]))
    for (to, s), rows in tabs.items():
        keys = list(dict.fromkeys(x for r in rows.values() for x in r))
        df = pd.DataFrame([[r.get(x) for x in keys] for r in rows.values()], columns=keys,
                          index=pd.Index(list(rows), name='ID'))
        if to == custom:
            df.to_csv(custom / 'consequences.csv')
        else:
            df.to_csv(lib.folder(to) / ('loss_repair.csv' if s == 'functions'
                                        else 'consequence_repair.csv'))
    for to, rows in frags.items():
        flat(dmg.damage_table(rows), lib.folder(to) / 'fragility.csv')
    flat(dmg.damage_table([dmg.fragility('unused', limit_states=[
        {'family': 'lognormal', 'theta': [0.02, 0.4]}])]),
        lib.folder('FEMA P-58') / 'fragility.csv')
    np.savetxt(lib.folder(WIND) / 'combine_wind_flood.csv', symmetric(case), delimiter=',',
               fmt='%.17g')
    loc = case['place'][0]
    pd.DataFrame([[nm, 'EA', 0, loc, c['q']] for nm, c in case['comps'].items()],
                 columns=['ID', 'Units', 'Location', 'Direction', 'Theta_0']
                 ).set_index('ID').to_csv('components.csv')
    vals = np.array([[v * IM[k][2] / IM[k][1][case['units'][k]] for k, v in zip(IM, r)]
                     for r in case['values']])
    head = [f'{k}-0-1' for k in IM]
    pd.concat([pd.DataFrame([[case['units'][k] for k in IM]], columns=head,
                            index=['Units']),
               pd.DataFrame(vals, columns=head).astype(object)]).to_csv('response.csv')
    order = case['order']
    pd.DataFrame({'Repair': order}, index=pd.Index(order, name='cmp')).to_csv(
        custom / 'loss_map.csv')
    names = [f for f in dict.fromkeys(case['folder'].values())]
    rep = {'MapApproach': case['approach'], 'ConsequenceDatabase': ','.join(names),
           'DecisionVariables': {dv: dv in case['dvs'] for dv in calc.DVU}}
    if case['approach'] == 'User Defined':
        rep['MapFilePath'] = 'CustomDLDataFolder/loss_map.csv'
    if (custom / 'consequences.csv').exists():
        rep['ConsequenceDatabasePath'] = 'CustomDLDataFolder/consequences.csv'
    if case['combine']:
        rep['CombinationMethod'] = 'Hazus Hurricane'
    for dv, x in case['rep'].items():
        rep[f'Replacement{dv}'] = {'Unit': DV[dv], 'Median': x}
    dl = {'Demands': {'DemandFilePath': 'response.csv', 'CoupledDemands': True,
                      'SampleSize': str(case['n'])},
          'Asset': {'ComponentAssignmentFile': 'components.csv',
                    'ComponentDatabase': ', '.join(names), 'NumberOfStories': 1},
          'Damage': {'DamageProcess': case['process']}, 'Losses': {'Repair': rep},
          'Options': {'Seed': case['seed'] % 2**31, 'Verbose': False,
                      'LogFile': 'run.log'}}
    if case['list'] is not None and not case['combine']:
        # (combined losses need the columns of components that are not damaged)
        dl['Options']['ListAllDamageStates'] = case['list']
    Path('config.json').write_text(json.dumps({
        'GeneralInformation': {'units': {'length': 'm'}}, 'DL': dl}))
    return custom


def reference(case):
    """Summary of the calculation."""
    n = case['n']
    cell = {}
    at = {k: np.array([r[i] for r in case['values']]) * IM[k][2]
          * (1.2 if case['place'] == [0] else 1.0) for i, k in enumerate(IM)}
    for nm, c in case['comps'].items():
        x = at[c['kind']]
        xs = np.array([v * IM[c['kind']][2] for v in c['x']])
        if np.any(np.abs(x[:, None] - xs[1:]) < 1e-9 * xs[1:]):
            raise Discard
        if c['style'] == 'functions' and np.any(x > xs[-1]):
            raise Discard
        for dv, y in c['dv'].items():
            if c['style'] == 'functions':
                v = np.interp(x, xs, y)
            else:
                ds = np.sum(x[:, None] > xs[1:-1], axis=1)
                v = np.array([0.0, *y[1:-1]])[ds]
            cell[dv, nm] = v * c['q']
    both = 0
    if case['combine']:
        pair = case['order'][:2]
        if case['approach'] == 'Automatic':
            pair = sorted(case['comps'])[:2]
        a, b = (cell.pop(('Cost', nm)) for nm in pair)
        arr = symmetric(case)
        cell['Cost', 'pair'] = np.array([
            aggregate.interpolate([case['axis']] * 2, arr, p) for p in zip(a, b)])
        both = int(np.sum((a > 0) & (b > 0)))
    out = {}
    for dv in case['dvs']:
        v = sum((v for (d, _), v in cell.items() if d == dv), np.zeros(n))
        if dv != 'Time':
            out[f'repair_{dv.lower()}'] = v
        else:
            out['repair_time-sequential'] = out['repair_time-parallel'] = v
    out['collapse'] = out['irreparable'] = np.zeros(n)
    return out, both


def run(case):
    with calc.fresh(), Library() as lib:
        exp, both = reference(case)
        custom = write(case, lib)
        calc.execute({'argument': False, 'override': None}, lib, prepared=(None, custom))
        got = pd.read_csv('results/DL_summary.csv', index_col=0)
        got.columns = [c.rstrip('-') for c in got.columns]
        must = {k for k, v in exp.items() if np.any(v != 0)} | {'collapse', 'irreparable'}
        require(must <= set(got.columns) <= set(exp), 'summary of %s instead of %s',
                list(got.columns), sorted(exp))
        for k in got.columns:
            require_same(got[k].to_numpy(dtype=float), exp[k], f'summary of {k}', 1e-9,
                         1e-9)
    styles = sorted({c['style'] for c in case['comps'].values()})
    return {'nontrivial': bool(np.any(exp['repair_cost'] > 0)),
            'tags': ['+'.join(styles), 'combined' if both else 'not combined']}
