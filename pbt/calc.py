"""Configured calculations: generated configurations and what they should give."""
from __future__ import annotations

import contextlib
import io
import json
import os
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun.tools import DL_calculation as DLC

from pbt import dmg, prop_c14
from pbt.core import Discard, require, require_same
from pbt.gen import fl, logfl, maybe, seeds
from pbt.regional import flat

LEN = {'in': 0.0254, 'inch': 0.0254, 'ft': 0.3048, 'm': 1.0}
# demand type -> name in parameter tables, power of time in its unit, other units
TYPES = {
    'PID': ('Peak Interstory Drift Ratio', None, {'unitless': 1.0, 'rad': 1.0}),
    'RID': ('Residual Interstory Drift Ratio', None, {'unitless': 1.0, 'rad': 1.0}),
    'PFA': ('Peak Floor Acceleration', 2, {'g': 9.80665, 'mps2': 1.0, 'inchps2': 0.0254}),
    'PFV': ('Peak Floor Velocity', 1, {'mps': 1.0, 'ftps': 0.3048, 'cmps': 0.01}),
    'PGA': ('Peak Ground Acceleration', 2, {'g': 9.80665, 'mps2': 1.0, 'ftps2': 0.3048}),
    'PGV': ('Peak Ground Velocity', 1, {'mps': 1.0, 'inchps': 0.0254}),
    'PGD': ('Permanent Ground Deformation', 0, {'m': 1.0, 'inch': 0.0254, 'ft': 0.3048}),
    'SA_1.0': ('Spectral Acceleration|1.0', 2, {'g': 9.80665, 'inchps2': 0.0254}),
    'SA_0.35': ('Spectral Acceleration|0.35', 2, {'g': 9.80665, 'mps2': 1.0}),
    'PRD': ('Roof Drift Ratio', None, {'unitless': 1.0}),
    'PMD': ('Mega Drift Ratio', None, {'unitless': 1.0}),
    'PWS': ('Peak Gust Wind Speed', 1, {'mps': 1.0, 'ftps': 0.3048}),
    'PIH': ('Peak Inundation Height', 0, {'m': 1.0, 'ft': 0.3048}),
    'SV_0.5': ('Peak Spectral Velocity|0.5', 1, {'cmps': 0.01, 'inchps': 0.0254}),
    'SD_1.0': ('Spectral Displacement|1.0', 0, {'m': 1.0, 'inch': 0.0254}),
    'PFD': ('Peak Floor Displacement', 0, {'m': 1.0, 'inch': 0.0254}),
}
COMMON = ['PID', 'RID', 'PFA', 'PFV', 'PGA', 'PGV', 'PGD', 'SA_1.0', 'SA_0.35']
MID = {'PID': 0.02, 'RID': 0.01, 'PFA': 5.0, 'PFV': 0.8, 'PGA': 4.0, 'PGV': 0.6, 'PGD': 0.2,
       'SA_1.0': 3.0, 'SA_0.35': 6.0, 'PRD': 0.02, 'PMD': 0.015, 'PWS': 30.0, 'PIH': 0.5,
       'SV_0.5': 0.7, 'SD_1.0': 0.3, 'PFD': 0.1}
LOCAL = ('PID', 'RID', 'PFA', 'PFV', 'PFD')
DVU = {'Cost': {'USD_2011': 1.0, 'loss_ratio': 1.0}, 'Time': {'worker_day': 1.0,
                                                             'day': 86400.0,
                                                             'loss_ratio': 1.0},
       'Carbon': {'kg': 1.0}, 'Energy': {'MJ': 1e6}}
QU = {'EA': {'1 EA': 1.0, '4 EA': 4.0}, 'ft2': {'1 ft2': 0.3048**2, '1 m2': 1.0,
                                                '100 ft2': 100 * 0.3048**2}}
QF = {'EA': 1.0, 'ft2': 0.3048**2}
NAMES = ['A', 'B.10.41', 'C_x1', 'D1011.001a', 'EXT', 'DMGX']
METHOD = 'Hazus Earthquake - Buildings'
LIFELINE = 'Hazus Earthquake - Lifeline Facilities'
FIRST = {METHOD: 'STR', LIFELINE: 'LF'}
OFFSET = {'PFA': -1, 'PFV': -1}
SYSTEM = ('collapse', 'excessive.coll.DEM', 'excessiveRID', 'irreparable')


def length_unit(kind, unit):
    """Unit of a demand type when it follows the unit of length; factor to base."""
    power = TYPES[kind][1]
    return 1.0 if power is None else LEN[unit]


@st.composite
def capacities(draw, kind, k):
    u = draw(st.sampled_from(sorted(TYPES[kind][2])))
    c = sorted(draw(st.lists(logfl(-1.0, 0.6, 5), min_size=k, max_size=k, unique=True)))
    return {'unit_of': u, 'caps': [float(f'{x * MID[kind] / TYPES[kind][2][u]:.7g}')
                                for x in c]}


@st.composite
def consequences(draw, dvs, n_ds, scale=1.0):
    out = {}
    for dv in dvs:
        if draw(st.integers(0, 6)) == 0:
            continue
        out[dv] = [round(draw(logfl(0, 3, 4)) * scale, 6) for _ in range(n_ds)]
    return out


@st.composite
def cases(draw, losses=None, outputs=False):
    stories = draw(st.integers(1, 3))
    dirs = draw(st.integers(1, 2))
    kinds = draw(st.lists(st.sampled_from(COMMON) | st.sampled_from(sorted(TYPES)),
                          min_size=1, max_size=4,
                          unique=True))
    rows = draw(st.integers(1, 8))
    given = draw(st.integers(0, 3)) == 0
    units = {k: draw(st.sampled_from(sorted(TYPES[k][2]))) for k in kinds} if given else None
    limits = {}
    if rows > 1:
        for k in draw(st.lists(st.sampled_from(kinds), max_size=2, unique=True)):
            if draw(st.booleans()):
                limits[k] = [draw(fl(0.3, 1.0, 2)), draw(st.sampled_from(
                    ['float', 'str', 'int', 'exact', 'exact str']))]
    process = draw(st.sampled_from(['None', 'FEMA P-58', 'FEMA P-58', 'User Defined',
                                    METHOD, METHOD, LIFELINE, 'Hazus Hurricane']))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    if process in FIRST:
        names = [FIRST[process] + draw(st.sampled_from(['.W1', '.my_frame'])), *names[:2]]
    comps = {}
    for nm in names:
        kind = draw(st.sampled_from(kinds))
        k = 5 if nm[:3] in {'STR', 'LF.'} else draw(st.integers(1, 3))
        unit = draw(st.sampled_from(sorted(QU)))
        place = []
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            locs = [0] if kind not in LOCAL else sorted(draw(st.lists(
                st.integers(1, stories), min_size=1, max_size=stories, unique=True)))
            d = [0] if draw(st.integers(0, 2)) == 0 else sorted(draw(st.lists(
                st.integers(1, dirs if kind in LOCAL else 1), min_size=1, max_size=2,
                unique=True)))
            if kind in LOCAL and locs == list(range(1, stories + 1)) and draw(
                    st.booleans()):
                locs = 'all'
            place.append([locs, d, draw(logfl(-1, 2, 4))])
        dirn = [0 in d for _, d, _ in place]
        if any(dirn):
            for p in place:
                p[1] = [0]
        src = draw(st.sampled_from(['lib', 'custom', 'custom']))
        comps[nm] = {'kind': kind, 'unit': unit, 'place': place, 'source': src,
                     'shadow': src == 'custom' and draw(st.integers(0, 2)) == 0,
                     'early': draw(st.integers(0, 2)) == 0,
                     **draw(capacities(kind, k))}
    collapse = None
    if losses == 'defaults' or draw(st.booleans()):
        kind = draw(st.sampled_from(kinds))
        collapse = {'kind': kind, 'median': float('%.6g' % (
            draw(fl(0.4, 1.0 if losses == 'defaults' else 2.0, 3)) * MID[kind])), 'family': draw(st.sampled_from(
                [None, 'lognormal', 'deterministic'])), 'text': draw(st.booleans())}
    rid = None
    if 'PID' in kinds and 'RID' not in kinds and draw(st.booleans()):
        rid = {str(d): draw(st.sampled_from([0.003, 0.008, '0.01']))
               for d in range(1, dirs + 1) if d == 1 or draw(st.booleans())}
    irrep = draw(maybe(st.sampled_from([0.001, 0.005, '0.02', 0.05]), 0.5))
    tasks = []
    if process == 'User Defined':
        srcs = [*names, 'collapse']
        for i in range(draw(st.integers(1, 3))):
            tgt = draw(st.sampled_from([*names, 'collapse', 'ALL']))
            ev = draw(st.sampled_from(['DS1', 'DS1', 'NA', 'DS0']))
            if tgt == 'ALL' and ev != 'DS0':
                ev = 'NA'
            tasks.append([draw(st.sampled_from(srcs)), False,
                          [[f'DS{draw(st.integers(1, 2))}', f'{tgt}_{ev}']]])
    scale = {}
    for nm, c in comps.items():
        if draw(st.integers(0, 3)) > 0:
            continue
        k = draw(st.sampled_from(['ALL', 'ALL', 'LS1', 'LS2']))
        scale[nm] = [draw(st.integers(0, 3)), k if len(c['caps']) > 1 else 'ALL',
                     draw(st.sampled_from(['*1.3', '/1.25', '*0.8', '*1.5']))]
    clone = None
    if dirs == 1 and draw(st.integers(0, 2)) == 0:
        clone = draw(st.sampled_from(kinds))
    case = {
        'scale': scale, 'clone': clone if clone in LOCAL else None,
        'many': draw(maybe(st.sampled_from(['after', 'before']), 0.4)),
        'nondir': draw(maybe(st.sampled_from(
            [{'ALL': 1.5}, {'ALL': 1.1, 'PID': 1.4}, {'PFA': 1.0, 'ALL': 2.0}]), 0.3)),
        'offset': draw(maybe(st.sampled_from(
            [{'PFA': 0, 'PFV': 0}, {'PFA': 0, 'PFV': -1}]), 0.25)),
        'length': draw(st.sampled_from(sorted(LEN))), 'stories': stories, 'dirs': dirs,
        'kinds': kinds, 'rows': rows, 'units': units, 'limits': limits,
        'rng': draw(seeds()), 'event': draw(st.integers(0, 4)) == 0,
        'coupled': draw(st.integers(0, 3)) > 0, 'n': draw(st.integers(1, 8)),
        'where': draw(st.sampled_from(['demands', 'sampling'])),
        'text': draw(st.booleans()), 'argument': draw(st.booleans()),
        'comps': comps, 'collapse': collapse, 'rid': rid, 'irrep': irrep,
        'process': process, 'tasks': tasks, 'seed': draw(seeds()),
        'list': draw(st.sampled_from([None, True, False])), 'losses': None,
        'outputs': None, 'format': None, 'settings': None, 'override': None,
    }
    if losses is True or (losses is None and draw(st.integers(0, 4)) > 0):
        case['losses'] = draw(loss_part(case))
    elif losses == 'defaults':
        case['losses'] = draw(loss_part(case, defaults=True))
    if outputs:
        case['outputs'] = draw(maybe(output_part(case['losses'] is not None), 0.9))
        if case['losses'] is None and case['outputs'] is None:
            case['outputs'] = {'Demand': {'Sample': True}}
        case['format'] = draw(maybe(st.tuples(st.booleans(), st.booleans()).map(list),
                                    0.8))
        case['settings'] = draw(maybe(st.tuples(
            st.booleans(), st.booleans(), st.booleans()).map(list), 0.7))
        case['override'] = draw(maybe(st.sampled_from(
            [['csv'], ['json'], ['csv', 'json'], []]), 0.4))
        case['stale'] = draw(st.booleans())
    return case


@st.composite
def loss_part(draw, case, defaults=False):
    dvs = draw(st.lists(st.sampled_from(sorted(DVU)), min_size=1, max_size=3,
                        unique=True))
    unit = {dv: draw(st.sampled_from(sorted(DVU[dv]))) for dv in dvs}
    process = case['process']
    hazus = process in FIRST
    first = FIRST.get(process, 'STR')
    approach = draw(st.sampled_from(['Automatic', 'User Defined']))
    occ = draw(st.sampled_from(['RES1', 'COM4', None]))
    if hazus and draw(st.integers(0, 3)) > 0:
        occ = occ or 'RES1'
    lmap, cons = {}, {}
    for nm, c in case['comps'].items():
        k = len(c['caps'])
        structure = nm.startswith(first + '.')
        if draw(st.integers(0, 7)) == 0 and lmap and not structure:
            continue
        if approach == 'User Defined':
            tgt = draw(st.sampled_from([nm, nm, 'R1', 'r_2']))
            if tgt in cons and (len(cons[tgt]['ds']) < k or cons[tgt]['dim'] != c['unit']):
                tgt = nm
        else:
            tgt = nm if not hazus else nm.split('.')[0] + (f'.{occ}' if occ else '')
        lmap[nm] = tgt
        if tgt in cons:
            continue
        src = draw(st.sampled_from(['lib', 'custom']))
        cons[tgt] = {'ds': list(range(1, k + 1)), 'dim': c['unit'], 'source': src,
                     'qunit': draw(st.sampled_from(sorted(QU[c['unit']]))),
                     'par': draw(consequences(dvs, k)),
                     'early': draw(st.integers(0, 2)) == 0,
                     'shadow': src == 'custom' and draw(st.integers(0, 2)) == 0}
    own = {}
    if approach == 'User Defined':
        for nm in ('collapse', 'irreparable'):
            x = draw(st.sampled_from([None, None, 'replacement', 'TOTAL']))
            if x is not None:
                own[nm] = x
            if x == 'TOTAL' and x not in cons:
                cons[x] = {'ds': [1], 'dim': 'EA', 'source': 'custom', 'qunit': '1 EA',
                           'par': draw(consequences(dvs, 1, 100.0)), 'early': False,
                           'shadow': False}
    if not any(c['par'] for c in cons.values()):
        for c in cons.values():
            c['par'] = {dv: [7.5 * (i + 1) for i in range(len(c['ds']))] for dv in dvs}
    rep = {}
    for dv in dvs:
        if not defaults and draw(st.integers(0, 3)) > 0:
            rep[dv] = draw(logfl(2, 5, 4))
    if hazus and 'Time' not in rep and (
            f'{first}.{occ}' not in cons or 'Time' not in cons[f'{first}.{occ}']['par']):
        if 'Time' not in dvs:
            dvs.append('Time')
            unit['Time'] = 'day'
        rep['Time'] = draw(logfl(2, 5, 4))
    for dv in dvs:
        if dv not in rep:
            # the unit of the default value
            if dv == 'Cost':
                unit[dv] = 'USD_2011' if process == 'FEMA P-58' else 'loss_ratio'
            elif dv == 'Time':
                unit[dv] = ('day' if hazus else 'worker_day' if process == 'FEMA P-58'
                            else 'loss_ratio')
    return {'dvs': dvs, 'unit': unit, 'approach': approach, 'map': lmap, 'cons': cons,
            'rep': rep, 'own': own, 'spread': {dv: draw(st.sampled_from(
                [None, 'normal', 'lognormal'])) for dv in rep},
            'prefix': draw(st.integers(0, 5)) == 0, 'combine': None, 'occ': occ, 'listed': draw(st.booleans())}


@st.composite
def output_part(draw, losses):
    out = {}
    b = st.booleans()
    for part, keys in (('Demand', ('Sample', 'Statistics')),
                       ('Asset', ('Sample', 'Statistics')),
                       ('Damage', ('Sample', 'Statistics', 'GroupedSample',
                                   'GroupedStatistics'))):
        if draw(st.integers(0, 3)) > 0:
            out[part] = {k: draw(b) for k in keys if draw(st.integers(0, 4)) > 0}
    if losses and draw(st.integers(0, 3)) > 0:
        out['Loss'] = {'Repair': {k: draw(b) for k in (
            'Sample', 'Statistics', 'GroupedSample', 'GroupedStatistics',
            'AggregateSample', 'AggregateStatistics') if draw(st.integers(0, 4)) > 0}}
    if not any(out.values()):
        out['Demand'] = {'Sample': True}
    return out


# ---- the files of a calculation -----------------------------------------------------


def table_of(case):
    """Raw demands in user units: columns, values, factor of each column to base units."""
    cols, f = [], []
    scale = []
    for k in case['kinds']:
        if k in LOCAL:
            lo = 1 if k in {'PID', 'RID'} else 0
            places = [(a, b) for a in range(lo, case['stories'] + 1)
                      for b in range(1, case['dirs'] + 1)]
        else:
            places = [(0, 1)]
        for a, b in places:
            cols.append((k, str(a), str(b)))
            if case['units'] is not None:
                fac = TYPES[k][2][case['units'][k]]
            else:
                fac = length_unit(k, case['length'])
            f.append(fac)
            scale.append(MID[k] / fac)
    rng = np.random.default_rng(case['rng'])
    v = 10.0 ** rng.uniform(-1, 0.6, (case['rows'], len(cols))) * np.array(scale)
    vals = np.array([[float(f'{x:.6g}') for x in r] for r in v])
    return cols, vals, np.array(f)


def limits_of(case, cols, vals):
    """Limits in user units, and the rows that satisfy them."""
    keep = np.ones(len(vals), dtype=bool)
    out = {}
    for k, (share, form) in case['limits'].items():
        mine = [i for i, c in enumerate(cols) if c[0] == k]
        top = vals[:, mine].max(axis=1)
        lim = float(np.quantile(top, share)) * 1.0001
        if form.startswith('exact'):
            # a demand that reaches the limit does not exceed it
            lim = float(np.sort(top)[int(share * (len(top) - 1))])
            if pd.read_csv(io.StringIO(f'x\n{lim!r}'))['x'][0] != lim:
                raise Discard
            keep &= ~(top > lim)
            out[k] = str(lim) if form.endswith('str') else lim
            continue
        if form == 'int':
            lim = max(int(lim), 1)
        else:
            lim = float(f'{lim:.5g}')
        if np.any(np.abs(top - lim) < 1e-9 * lim):
            raise Discard
        keep &= ~(top > lim)
        out[k] = str(lim) if form == 'str' else lim
    if not keep.any():
        raise Discard
    return out, keep


def write_tables(case, lib):
    """Parameter tables in the library and in a folder of the user."""
    custom = Path('my models')
    custom.mkdir()
    d = lib.folder('FEMA P-58')
    m = lib.folder(METHOD)
    flat(dmg.damage_table([dmg.fragility('unused', limit_states=[
        {'family': 'lognormal', 'theta': [0.02, 0.4]}])]), d / 'fragility.csv')
    tabs = {'lib': [], 'custom': [], 'early': []}
    for nm, c in case['comps'].items():
        nd = 0 if c['place'][0][1] == [0] else 1

        def row(scale, c=c, nm=nm, nd=nd):
            return dmg.fragility(nm, demand=TYPES[c['kind']][0], unit=c['unit_of'],
                                 offset=0, directional=nd, limit_states=[
                                     {'family': None, 'theta': [x * scale]}
                                     for x in c['caps']])
        tabs[c['source']].append(row(1.0))
        if c['shadow']:
            tabs['lib'].append(row(0.31))
        if c['early']:
            tabs['early'].append(row(0.47))
    # of two library tables, the one listed later is used
    lists = {None: [METHOD], 'before': ['FEMA P-58', METHOD],
             'after': [METHOD, 'FEMA P-58']}[case['many']]
    where = dict(zip(('lib', 'early'), lists[::-1]))
    folder = {METHOD: m, 'FEMA P-58': d}
    files = {'fragility': [], 'consequence': [], 'lists': lists}
    for k, name in where.items():
        if tabs[k]:
            flat(dmg.damage_table(tabs[k]), folder[name] / 'fragility.csv')
            files['fragility'].append(name)
    if tabs['custom']:
        flat(dmg.damage_table(tabs['custom']), custom / 'fragility.csv')
    files['fragility custom'] = bool(tabs['custom'])
    if case['losses']:
        lo = case['losses']
        rows = {'lib': {}, 'custom': {}, 'early': {}}
        for tgt, c in lo['cons'].items():
            for dv, v in c['par'].items():
                def line(scale, c=c, dv=dv, v=v):
                    r = {'Incomplete': 0, 'Quantity-Unit': c['qunit'],
                         'DV-Unit': lo['unit'][dv]}
                    for s, x in zip(c['ds'], v):
                        r[f'DS{s}-Family'] = None
                        r[f'DS{s}-Theta_0'] = x * scale
                        r[f'DS{s}-Theta_1'] = None
                    return r
                rows[c['source']][f'{tgt}-{dv}'] = line(1.0)
                if c['shadow']:
                    rows['lib'][f'{tgt}-{dv}'] = line(0.17)
                if c['early']:
                    rows['early'][f'{tgt}-{dv}'] = line(0.23)
        for k, path in (*((x, folder[y]) for x, y in where.items()), ('custom', custom)):
            if rows[k]:
                if k != 'custom':
                    files['consequence'].append(where[k])
                keys = list(dict.fromkeys(x for r in rows[k].values() for x in r))
                pd.DataFrame([[r.get(x) for x in keys] for r in rows[k].values()],
                             columns=keys, index=pd.Index(list(rows[k]), name='ID')
                             ).to_csv(path / 'consequence_repair.csv')
        files['consequence custom'] = bool(rows['custom'])
        pre = 'DMG-' if lo['prefix'] else ''
        pd.DataFrame({'Repair': {pre + k: v for k, v in {
            **lo['map'], **lo['own']}.items()}}).rename_axis('cmp').to_csv(
            custom / 'loss_map.csv')
    return custom, files


def write_components(case, path):
    rows = []
    for nm, c in case['comps'].items():
        for locs, d, q in c['place']:
            rows.append([nm, c['unit'], locs if locs == 'all' else ','.join(map(str, locs)),
                         ','.join(map(str, d)), q])
    pd.DataFrame(rows, columns=['ID', 'Units', 'Location', 'Direction', 'Theta_0']
                 ).set_index('ID').to_csv(path)


def databases(files, kind):
    names = [x for x in files['lists'] if x in files[kind]]
    return ', '.join(names) if names else 'None'


def write(case, lib):
    """All input files; the configuration."""
    cols, vals, _ = table_of(case)
    limits, _ = limits_of(case, cols, vals)
    head = ['-'.join((['1'] if case['event'] else []) + list(c)) for c in cols]
    df = pd.DataFrame(vals, columns=head)
    if case['units'] is not None:
        top = pd.DataFrame([[case['units'][c[0]] for c in cols]], columns=head,
                           index=['Units'])
        df = pd.concat([top, df.astype(object)])
    df.to_csv('edp table.csv')
    custom, files = write_tables(case, lib)
    write_components(case, 'components.csv')
    size = str(case['n']) if case['text'] else case['n']
    dem = {'CoupledDemands': case['coupled']}
    if not case['argument']:
        dem['DemandFilePath'] = 'edp table.csv'
    opts = {'Seed': case['seed'] % 2**31, 'PrintLog': False, 'Verbose': False,
            'LogFile': 'run.log'}
    if case['where'] == 'demands':
        dem['SampleSize'] = size
    else:
        opts['Sampling'] = {'SampleSize': int(size)}
    if case['list'] is not None:
        opts['ListAllDamageStates'] = case['list']
    if case['nondir'] is not None:
        opts['NonDirectionalMultipliers'] = case['nondir']
    if case['offset'] is not None:
        opts['DemandOffset'] = case['offset']
    if case['clone'] is not None:
        dem['DemandCloning'] = {'-'.join(c): [f'{c[0]}-{c[1]}-{b}' for b in '12']
                                for c in cols if c[0] == case['clone']}
    if limits:
        dem['CollapseLimits'] = limits
    if case['rid'] is not None:
        dem['InferResidualDrift'] = {'method': 'FEMA P-58', **case['rid']}
    asset = {'ComponentAssignmentFile': 'components.csv',
             'NumberOfStories': str(case['stories']) if case['text'] else case['stories'],
             'ComponentDatabase': databases(files, 'fragility')}
    if files['fragility custom']:
        asset['ComponentDatabasePath'] = 'CustomDLDataFolder/fragility.csv'
    damage = {'DamageProcess': case['process']}
    if case['scale']:
        damage['ScalingSpecification'] = {
            f'{nm}-{a}-{b}': {ls: op} for nm, (_, ls, op) in case['scale'].items()
            for a, b in [scaled_place(case, nm)]}
    if case['process'] == 'User Defined':
        Path('process.json').write_text(json.dumps(
            {f'{i + 1}_{t[0]}': dict(t[2]) for i, t in enumerate(case['tasks'])}))
        damage['DamageProcessFilePath'] = 'process.json'
    col = case['collapse']
    if col is not None:
        f = length_unit(col['kind'], case['length'])
        med = float(f'{col["median"] / f:.7g}')
        damage['CollapseFragility'] = {
            'DemandType': col['kind'],
            'CapacityMedian': str(med) if col['text'] else med}
        if col['family'] == 'lognormal':
            damage['CollapseFragility'].update(
                {'CapacityDistribution': 'lognormal', 'Theta_1': 1e-5})
        elif col['family'] is not None:
            damage['CollapseFragility'].update(
                {'CapacityDistribution': 'deterministic', 'Theta_1': 'N/A'})
    if case['irrep'] is not None:
        damage['IrreparableDamage'] = {'DriftCapacityMedian': case['irrep'],
                                       'DriftCapacityLogStd': 1e-5}
    dl = {'Demands': dem, 'Asset': asset, 'Damage': damage, 'Options': opts}
    lo = case['losses']
    if lo is not None:
        rep = {'MapApproach': lo['approach'], 'DecisionVariables': {
            dv: dv in lo['dvs'] for dv in sorted(DVU) if lo['listed'] or dv in lo['dvs']},
            'ConsequenceDatabase': databases(files, 'consequence')}
        if files['consequence custom']:
            rep['ConsequenceDatabasePath'] = 'CustomDLDataFolder/consequence_repair.csv'
        if lo['approach'] == 'User Defined':
            rep['MapFilePath'] = 'CustomDLDataFolder/loss_map.csv'
        for dv, x in lo['rep'].items():
            rep[f'Replacement{dv}'] = {'Unit': lo['unit'][dv], 'Median': x}
            if lo['spread'][dv] is not None:
                rep[f'Replacement{dv}'].update(
                    {'Distribution': lo['spread'][dv], 'Theta_1': 1e-9})
        dl['Losses'] = {'Repair': rep}
        if lo['occ']:
            asset['OccupancyType'] = lo['occ']
    out = {}
    if case['outputs'] is not None:
        out.update(case['outputs'])
    elif lo is None:
        out['Demand'] = {'Sample': True}
    if out:
        if case['format'] is not None:
            out['Format'] = dict(zip(('CSV', 'JSON'), case['format']))
        if case['settings'] is not None:
            out['Settings'] = dict(zip(
                ('CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults'),
                case['settings']))
        dl['Outputs'] = out
    cfg = {'GeneralInformation': {'units': {'length': case['length']}}, 'DL': dl}
    Path('config.json').write_text(json.dumps(cfg))
    return cfg, custom


class Spy(DLC.DLCalculationAssessment):
    """The assessment of the last calculation."""

    last = None
    __slots__ = ('agg',)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.agg = None
        Spy.last = self

    def calculate_loss(self, *a, **k):
        out = super().calculate_loss(*a, **k)
        self.agg = out[0].copy()
        return out


@contextlib.contextmanager
def fresh():
    """Nothing that a calculation leaves in the module reaches the next case."""
    import copy

    mod = vars(DLC)
    old = {k: copy.deepcopy(v) for k, v in mod.items()
           if isinstance(v, (dict, list)) and not k.startswith('__')}
    try:
        yield
    finally:
        mod.update(old)


def execute(case, lib, out='results', *, prepared=None):
    """Run the calculation; the assessment."""
    cfg, custom = prepared or write(case, lib)
    old = DLC.DLCalculationAssessment
    DLC.DLCalculationAssessment = Spy
    Spy.last = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            DLC.run_pelicun(
                'config.json', 'edp table.csv' if case['argument'] else None, out, None,
                None, str(custom.resolve()), case['override'],
                detailed_results=True, coupled_edp=False)
    finally:
        DLC.DLCalculationAssessment = old
    return Spy.last


# ---- what the calculation should give ------------------------------------------------


def check_demand(case, asm):
    cols, vals, f = table_of(case)
    _, keep = limits_of(case, cols, vals)
    raw = vals[keep] * f
    got = {tuple(map(str, c)): asm.demand.sample.iloc[:, i].to_numpy(dtype=float)
           for i, c in enumerate(asm.demand.sample.columns)}
    want = set(cols) | {('ONE', '0', '1')}
    if case['clone'] is not None:
        for k, a, b in list(want):
            if k == case['clone']:
                want.add((k, a, '2'))
    if case['rid'] is not None:
        want |= {('RID', a, b) for k, a, b in want if k == 'PID' and b in case['rid']}
    require(set(got) == want, 'demands %s instead of %s', sorted(got), sorted(want))
    n = case['n']
    for k, a, b in set(want) - set(cols):
        if k == case['clone']:
            require_same(got[k, a, b], got[k, a, '1'], f'clone {k}-{a}-{b}', 1e-12)
    for j, c in enumerate(cols):
        require(len(got[c]) == n, '%s realizations instead of %s', len(got[c]), n)
        if case['coupled']:
            e = raw[np.arange(n) % len(raw), j]
            require_same(got[c], e, f'demand {c}', 1e-9)
        else:
            for x in got[c]:
                require(np.any(np.abs(raw[:, j] - x) <= 1e-9 * abs(x)),
                        'demand %s: %r is not in the input %s', c, x, raw[:, j].tolist())
    require(np.all(got['ONE', '0', '1'] == 1.0), 'constant demand')
    for c, v in got.items():
        if c[0] != 'RID' or case['rid'] is None:
            continue
        p = got['PID', c[1], c[2]]
        y = float(case['rid'][c[2]])
        require(np.all((v >= 0) & (v <= p * (1 + 1e-9))), 'residual drifts %s of %s',
                v.tolist(), p.tolist())
        require(np.all(v[p < y] == 0), 'residual drifts %s below yield of %s', v.tolist(),
                p.tolist())
        require(np.all(v[p > 4.0 * y] > 0), 'no residual drift: %s of %s', v.tolist(),
                p.tolist())
    return got, int((~keep).sum())


def groups_of(case, demand):
    """(cmp, loc, dir, uid) -> quantity in base units, in the order of the table."""
    out = {}
    story = case['collapse'] is not None and not case['collapse']['kind'].startswith('SA')
    for nm, c in case['comps'].items():
        count = {}
        for locs, d, q in c['place']:
            if locs == 'all':
                locs = range(1, case['stories'] + 1)
            for a in locs:
                for b in d:
                    u = count.get((a, b), 0)
                    count[a, b] = u + 1
                    out[nm, str(a), str(b), str(u)] = q * QF[c['unit']]
    if story:
        for k, a, b in demand:
            if k == case['collapse']['kind']:
                out['excessive.coll.DEM', a, b, '0'] = 1.0
    out['collapse', '0', '1', '0'] = 1.0
    if case['irrep'] is not None and any(k == 'RID' for k, *_ in demand):
        for k, a, b in demand:
            if k == 'RID':
                out['excessiveRID', a, b, '0'] = 1.0
        out['irreparable', '0', '1', '0'] = 1.0
    return out


def scaled_place(case, nm):
    """A place of a component that has a scaled capacity."""
    rank = case['scale'][nm][0]
    places = [(a, b) for locs, d, _ in case['comps'][nm]['place'] for a in (
        range(1, case['stories'] + 1) if locs == 'all' else locs) for b in d]
    return tuple(map(str, places[rank % len(places)]))


def scaled(case, k, caps):
    nm, a, b, _ = k
    if nm not in case['scale'] or scaled_place(case, nm) != (a, b):
        return caps
    _, ls, op = case['scale'][nm]
    f = float(op[1:]) if op[0] == '*' else 1.0 / float(op[1:])
    return [c * f if ls in {'ALL', f'LS{i + 1}'} else c for i, c in enumerate(caps)]


def states_of(case, demand, groups):
    """Damage states before the damage process."""
    out = {}
    for k in groups:
        nm, a, b, _ = k
        if nm in case['comps']:
            c = case['comps'][nm]
            place = (nm, a, b, k[3])
            # accelerations and velocities are those of the floor below by default
            a = str(int(a) + (case['offset'] or OFFSET).get(c['kind'], 0))
            if b == '0':
                f = case['nondir'] or {'ALL': 1.2}
                x = f.get(c['kind'], f.get('ALL')) * np.max([v for (t, l, _), v in demand.items()
                                  if t == c['kind'] and l == a], axis=0)
            else:
                x = demand[c['kind'], a, b]
            caps = scaled(case, place, [v * TYPES[c['kind']][2][c['unit_of']]
                                        for v in c['caps']])
            tol = 1e-9
        elif nm == 'excessive.coll.DEM' or (
                nm == 'collapse' and case['collapse']
                and case['collapse']['kind'].startswith('SA')):
            x = demand[case['collapse']['kind'], a, b]
            f = length_unit(case['collapse']['kind'], case['length'])
            caps = [float(f'{case["collapse"]["median"] / f:.7g}') * f]
            tol = 1e-4
        elif nm == 'excessiveRID':
            x = demand['RID', a, b]
            caps, tol = [float(case['irrep'])], 1e-4
        else:
            x, caps, tol = np.ones(case['n']), [1e10], 0
        for v in caps:
            if np.any(np.abs(x / v - 1) <= tol):
                raise Discard
        # the highest limit state that is exceeded
        out[k] = np.max([(i + 1) * (x > v) for i, v in enumerate(caps)], axis=0)
    return out


def process_of(case):
    p = case['process']
    ev = [['DS1', 'collapse_DS1']], [['DS1', 'ALL_NA']], [['DS1', 'irreparable_DS1']]
    last = [['irreparable', False, [['DS1', 'ALL_NA']]],
            ['irreparable', False, [['DS1', 'collapse_DS0']]]]
    if p == 'FEMA P-58':
        return [['excessive.coll.DEM', False, ev[0]], ['collapse', False, ev[1]],
                ['excessiveRID', False, ev[2]], *last]
    if p == LIFELINE:
        struct = next(nm for nm in case['comps'] if nm.startswith('LF.'))
        return [[struct, False, [['DS5', 'collapse_DS1']]], ['collapse', False, ev[1]]]
    if p == METHOD:
        struct = next(nm for nm in case['comps'] if nm.startswith('STR'))
        return [[struct, False, [['DS5', 'collapse_DS1']]],
                ['excessive.coll.DEM', False, ev[0]], ['collapse', False, ev[1]],
                ['excessiveRID', False, ev[2]], *last]
    if p == 'User Defined':
        return case['tasks']
    return []


def check_damage(case, asm, demand):
    groups = groups_of(case, demand)
    got = {tuple(map(str, c)): asm.asset.cmp_sample.iloc[:, i].to_numpy(dtype=float)
           for i, c in enumerate(asm.asset.cmp_sample.columns)}
    require(set(got) == set(groups), 'groups %s instead of %s', sorted(got),
            sorted(groups))
    for k, q in groups.items():
        require_same(got[k], np.full(case['n'], q), f'quantity of {k}', 1e-9)
    before = states_of(case, demand, groups)
    tasks = process_of(case)
    exp = prop_c14.reference(
        {'tasks': tasks, 'num': list(range(1, len(tasks) + 1)), 'n': case['n']},
        {(*k, '1'): v for k, v in before.items()})
    ds = dmg.ds_of(asm)
    require(set(ds) == set(exp), 'damage states of %s instead of %s', sorted(ds),
            sorted(exp))
    for k, v in exp.items():
        require(ds[k].tolist() == v, '%s is in %s instead of %s (before the process %s)',
                k, ds[k].tolist(), v, before[k[:4]].tolist())
    changed = any(before[k[:4]].tolist() != v for k, v in exp.items())
    return {k[:4]: np.array(v) for k, v in exp.items()}, groups, changed


def replacement_of(case, dv):
    """Replacement consequence in base units; None without one."""
    lo = case['losses']
    if dv in lo['rep']:
        return lo['rep'][dv] * DVU[dv][lo['unit'][dv]]
    if case['process'] == 'FEMA P-58':
        return 0.0
    if dv == 'Cost':
        return 1.0
    if dv == 'Time' and case['process'] in FIRST:
        c = lo['cons'][f'{FIRST[case["process"]]}.{lo["occ"]}']['par']['Time'][4]
        return c * DVU['Time']['day']
    if dv == 'Time':
        return 1.0
    return None


def losses_of(case, states, groups):
    """(dv, loc, who) -> losses in base units."""
    lo, n = case['losses'], case['n']
    cell = {}
    for k, ds in states.items():
        nm = k[0]
        if nm in {'collapse', 'irreparable'} and lo['own'].get(nm, 'replacement') == (
                'replacement'):
            for dv in lo['dvs']:
                r = replacement_of(case, dv)
                if r is not None:
                    cell[(dv, k[1], 'replacement', *k)] = np.where(ds == 1, r, 0.0)
        elif nm in lo['map'] or nm in lo['own']:
            c = lo['cons'][{**lo['map'], **lo['own']}[nm]]
            for dv, v in c['par'].items():
                x = np.zeros(n)
                for s, med in zip(c['ds'], v):
                    x = np.where(ds == s, groups[k] / QU[c['dim']][c['qunit']] * med
                                 * DVU[dv][lo['unit'][dv]], x)
                cell[(dv, k[1], 'repair', *k)] = x
    rows = np.zeros(n, dtype=bool)
    for k, v in cell.items():
        if k[2] == 'replacement':
            rows |= v > 0
    for k, v in cell.items():
        if k[2] != 'replacement':
            v[rows] = 0.0
    out = {}
    for dv in lo['dvs']:
        f = DVU[dv][lo['unit'][dv]]
        mine = {k: v for k, v in cell.items() if k[0] == dv}
        if dv != 'Time':
            out[f'repair_{dv.lower()}'] = sum(mine.values(), np.zeros(n)) / f
            continue
        out['repair_time-sequential'] = sum(mine.values(), np.zeros(n)) / f
        per = {}
        for k, v in mine.items():
            per[k[1]] = per.get(k[1], 0.0) + v
        out['repair_time-parallel'] = np.max(
            np.array([*per.values(), np.zeros(n)]), axis=0) / f
    return out


def summary_of(case, states, groups):
    out = {} if case['losses'] is None else losses_of(case, states, groups)
    for nm in ('collapse', 'irreparable'):
        v = states.get((nm, '0', '1', '0'), np.zeros(case['n']))
        out[nm] = (v == 1).astype(float)
    return out
