"""Whole assessments from plain data: demands, components, damage, losses, aggregate."""
from __future__ import annotations

import json
import os
import pickle
import subprocess
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt.core import require
from pbt.gen import fl, logfl, maybe, seeds

# exact enough conversion factors to base units
F = {'g': 9.80665, 'mps2': 1.0, 'cmps2': 0.01, 'ftps2': 0.3048, 'unitless': 1.0,
     'percent': 0.01, 'ft2': 0.09290304, 'm2': 1.0, 'inch2': 0.00064516, 'm': 1.0,
     'ft': 0.3048, 'inch': 0.0254, 'EA': 1.0, 'USD_2011': 1.0, 'worker_day': 1.0,
     'day': 86400.0, 'hour': 3600.0, 'kg': 1.0, 'lb': 0.45359237, 'MJ': 1e6, 'kJ': 1e3,
     'rad': 1.0}
ALT = {'acc': ['g', 'mps2', 'cmps2', 'ftps2'], 'drift': ['unitless', 'percent'],
       'area': ['ft2', 'm2', 'inch2'], 'length': ['ft', 'm', 'inch'], 'count': ['EA'],
       'Cost': ['USD_2011'], 'Time': ['day', 'hour'], 'Carbon': ['kg', 'lb'],
       'Energy': ['MJ', 'kJ']}
NAMES = ['B.10.41', 'C3011.001a', 'D_4', 'EXT', 'zz', 'CostX']
LONG = {'PFA': 'Peak Floor Acceleration', 'PID': 'Peak Interstory Drift Ratio',
        'RID': 'Residual Interstory Drift Ratio',
        'SA_1.13': 'Spectral Acceleration|1.13'}


@st.composite
def cases(draw, n_max=40):
    n = draw(st.integers(8, n_max))
    floors = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    dvs = draw(st.lists(st.sampled_from(['Cost', 'Time', 'Carbon', 'Energy']), min_size=1,
                        max_size=3, unique=True))
    dem = {'disp': draw(fl(0.2, 0.7, 3)), 'rho': draw(st.sampled_from([None, 0.0, 0.4, 0.8])),
           'rid': draw(maybe(fl(0.003, 0.02, 3), 0.4)),
           'normal': draw(st.booleans()), 'trunc': draw(st.booleans()),
           'medians': [[draw(fl(0.1, 1.2, 3)), draw(fl(0.003, 0.04, 3))]
                       for _ in range(floors)],
           'clone': draw(st.booleans()),
           'method': draw(st.sampled_from([None, 'LHS', 'MonteCarlo', 'LHS_midpoint']))}
    comps = {}
    for nm in names:
        kind = draw(st.sampled_from(['ds', 'ds', 'ds', 'lf']))
        demand = draw(st.sampled_from(['PFA', 'PID'] + (['RID'] if dem['rid'] else [])))
        dim = draw(st.sampled_from(['area', 'length', 'count']))
        nds = draw(st.integers(1, 3))
        base = {'PFA': 3.0, 'PID': 0.01, 'RID': 0.004}[demand]
        states, qs = [], []
        for k in range(nds):
            states.append({'median': float(f'{base * (1 + k) * draw(fl(0.6, 1.5, 3)):.4g}'),
                           'family': draw(st.sampled_from(['lognormal', 'lognormal',
                                                           'normal', None])),
                           'disp': draw(fl(0.1, 0.5, 3)),
                           'weights': draw(maybe(st.sampled_from(['0.4|0.6', '0.2|0.3|0.5']),
                                                 0.25))})
        cons = {}
        for dv in dvs:
            if kind == 'lf':
                pts = sorted(draw(st.lists(fl(0.2, 4.0, 3), min_size=2, max_size=4,
                                           unique=True)))
                cons[dv] = {'x': [-1e4, 0.0, *[base * p for p in pts], 1e5],
                            'y': [0.0, 0.0, *[draw(logfl(-1, 2, 3)) for _ in pts], 200.0],
                            'family': draw(st.sampled_from([None, 'lognormal', 'normal'])),
                            'disp': 0.3}
            else:
                cons[dv] = []
                for _ in range(6):
                    multi = draw(st.booleans())
                    cons[dv].append({
                        'median': [draw(logfl(0, 3, 3)), draw(logfl(0, 3, 3))] if multi
                        else draw(logfl(0, 3, 3)),
                        'q': [5.0, 60.0] if multi else None,
                        'family': draw(st.sampled_from([None, 'lognormal', 'normal'])),
                        'disp': draw(fl(0.1, 0.6, 2))})
        comps[nm] = {'kind': kind, 'demand': demand, 'dim': dim, 'states': states,
                     'cons': cons, 'directional': draw(st.booleans()),
                     'floors': draw(st.sampled_from(['all', '1', f'1--{floors}'])),
                     'dirs': draw(st.sampled_from(['1', '1,2', '0'])),
                     'q': draw(logfl(0, 2, 3)), 'blocks': draw(st.sampled_from([1, 1, 3])),
                     'family': draw(st.sampled_from([None, 'lognormal', 'normal']))}
        if comps[nm]['dirs'] == '0' and comps[nm]['directional']:
            comps[nm]['directional'] = False
    return {'n': n, 'floors': floors, 'dem': dem, 'comps': comps, 'dvs': dvs,
            'seed': draw(seeds()), 'collapse': draw(st.booleans()),
            'ratio': draw(maybe(st.sampled_from([0.01, 0.1, 1.0]), 0.4)),
            'cost_time': draw(st.sampled_from([0.0, 0.5, -0.4])),
            'across': [draw(st.booleans()), draw(st.booleans())],
            'policy': draw(st.sampled_from([None, 'fill'])),
            'scale': draw(st.booleans())}


def unit_of(dim, pick):
    return ALT[dim][pick % len(ALT[dim])]


class Pieces:
    """The input tables of a case, with units picked by `pick` (name -> number)."""

    def __init__(self, case, pick=None):
        pick = pick or {}
        self.pick = lambda k: pick.get(k, 0)
        self.case = case
        d = case['dem']
        self.dem_unit = {'PFA': unit_of('acc', self.pick('PFA')),
                         'PID': unit_of('drift', self.pick('PID')),
                         'SA_1.13': unit_of('acc', self.pick('SA'))}
        rows, index = [], []
        for loc in range(case['floors'] + 1):
            for typ, k in (('PFA', 0), ('PID', 1)):
                if typ == 'PID' and loc == 0:
                    continue
                for dr in ('1', '2'):
                    med = d['medians'][max(loc - 1, 0)][k] * (9.80665 if typ == 'PFA' else 1)
                    if dr == '2':
                        med *= 0.9
                    f = F[self.dem_unit[typ]]
                    row = {'Units': self.dem_unit[typ],
                           'Family': 'normal' if d['normal'] and typ == 'PFA'
                           else 'lognormal', 'Theta_0': med / f, 'Theta_1': d['disp']}
                    if row['Family'] == 'normal':
                        row['Theta_1'] = 0.3
                        row['TruncateLower'] = 0.01 / f
                    if d['trunc'] and typ == 'PID':
                        row['TruncateUpper'] = 4 * med / f
                    rows.append(row)
                    index.append((typ, str(loc), dr))
        if case['collapse']:
            rows.append({'Units': self.dem_unit['SA_1.13'], 'Family': 'lognormal',
                         'Theta_0': 4.0 / F[self.dem_unit['SA_1.13']], 'Theta_1': 0.4})
            index.append(('SA_1.13', '0', '1'))
        self.dem = {'marginals': pd.DataFrame(
            rows, index=pd.MultiIndex.from_tuples(index))}
        if d['rho'] is not None:
            c = np.full((len(index), len(index)), d['rho'])
            np.fill_diagonal(c, 1.0)
            self.dem['correlation'] = pd.DataFrame(
                c, index=self.dem['marginals'].index,
                columns=self.dem['marginals'].index)
        # components
        rows, index = [], []
        self.cunit = {}
        for nm, c in case['comps'].items():
            u = unit_of(c['dim'], self.pick(nm))
            self.cunit[nm] = u
            rows.append({'Units': u, 'Location': c['floors'], 'Direction': c['dirs'],
                         'Theta_0': c['q'] / F[u], 'Theta_1': 0.2 if c['family'] else None,
                         'Family': c['family'], 'Blocks': c['blocks']})
            index.append(nm)
        if case['collapse']:
            rows.append({'Units': 'EA', 'Location': '0', 'Direction': '1', 'Theta_0': 1.0,
                         'Theta_1': None, 'Family': None, 'Blocks': 1})
            index.append('collapse')
        self.cmp = {'marginals': pd.DataFrame(rows, index=index)}
        self.names = index
        # damage
        frags = []
        for nm, c in case['comps'].items():
            if c['kind'] == 'lf':
                continue
            dim = 'acc' if c['demand'] == 'PFA' else 'drift'
            u = unit_of(dim, self.pick(nm + 'D'))
            frags.append(dmg.fragility(
                nm, LONG[c['demand']], u, 0, int(c['directional']),
                [{'family': s['family'], 'weights': s['weights'],
                  'theta': [s['median'] / F[u], s['disp']] if s['family'] == 'lognormal'
                  else [s['median'] / F[u], 0.2] if s['family'] == 'normal'
                  else [s['median'] / F[u]]} for s in c['states']]))
        if case['collapse']:
            u = unit_of('acc', self.pick('colD'))
            frags.append(dmg.fragility(
                'collapse', LONG['SA_1.13'], u, 0, 1,
                [{'family': 'lognormal', 'theta': [6.0 / F[u], 0.3]}]))
        self.damage = dmg.damage_table(frags) if frags else None
        self.process = {'1_collapse': {'DS1': 'ALL_NA'}} if case['collapse'] else None
        first = next(iter(case['comps']))
        self.scaling = ({f'{first}-1-1': {'ALL': '*1.3'}} if case['scale'] and frags
                        and case['comps'][first]['kind'] == 'ds'
                        and case['comps'][first]['dirs'] != '0' else None)
        # losses
        rows, index, lrows, lindex = [], [], [], []
        for nm, c in case['comps'].items():
            u = self.cunit[nm]
            if c['dim'] != 'count':
                u = unit_of(c['dim'], self.pick(nm + 'Q'))
            for dv in case['dvs']:
                dvu = unit_of(dv, self.pick(dv + c['kind']))
                f = F[dvu]
                if c['kind'] == 'lf':
                    p = c['cons'][dv]
                    dim = 'acc' if c['demand'] == 'PFA' else 'drift'
                    du = unit_of(dim, self.pick(nm + dv + 'D'))
                    row = {'Demand-Type': LONG[c['demand']], 'Demand-Unit': du,
                           'Demand-Offset': 0, 'Demand-Directional': int(c['directional']),
                           'DV-Unit': dvu,
                           'LossFunction-Theta_0':
                           ','.join(repr(y * 1.0 / f) for y in p['y']) + '|'
                           + ','.join(repr(x / F[du]) for x in p['x'])}
                    if p['family']:
                        row['LossFunction-Family'] = p['family']
                        row['LossFunction-Theta_1'] = p['disp']
                    else:
                        row['LossFunction-Family'] = None
                        row['LossFunction-Theta_1'] = None
                    lrows.append(row)
                    lindex.append((nm, dv))
                    continue
                many = (1, 10, 4)[self.pick(nm + dv + 'QN') % 3]
                row = {'Incomplete': 0, 'Quantity-Unit': f'{many} {u}', 'DV-Unit': dvu}
                for k, p in enumerate(c['cons'][dv]):
                    th0 = p['median']
                    scale = F[u] * many / f
                    if p['q']:
                        th0 = (','.join(repr(v * scale) for v in th0) + '|'
                               + ','.join(repr(q / (F[u] * many)) for q in p['q']))
                    else:
                        th0 = th0 * scale
                    row[f'DS{k + 1}-Family'] = p['family']
                    row[f'DS{k + 1}-Theta_0'] = th0
                    row[f'DS{k + 1}-Theta_1'] = p['disp'] if p['family'] else None
                rows.append(row)
                index.append((nm, dv))
        if case['collapse']:
            for dv in case['dvs']:
                dvu = unit_of(dv, self.pick(dv + 'ds'))
                rows.append({'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': dvu,
                             'DS1-Family': 'lognormal', 'DS1-Theta_0': 5000.0 / F[dvu],
                             'DS1-Theta_1': 0.3})
                index.append(('replacement', dv))
        self.loss = []
        if rows:
            self.loss.append(dmg.two_level(rows, pd.MultiIndex.from_tuples(index)))
        if lrows:
            self.loss.append(dmg.two_level(lrows, pd.MultiIndex.from_tuples(lindex)))
        lmap = {nm: nm for nm in case['comps']} if case['policy'] is None else {}
        if case['collapse']:
            lmap['collapse'] = 'replacement'
        self.map = pd.DataFrame({'Repair': lmap}) if lmap else None

    def config(self):
        c = self.case
        s = {'SampleSize': c['n']}
        if c['dem']['method']:
            s['SamplingMethod'] = c['dem']['method']
        with open('my_units.json', 'w') as f:
            json.dump({'mine': {k: F[k] for k in ('percent', 'cmps2', 'kJ')}}, f)
        return {'Seed': c['seed'], 'Sampling': s, 'UnitsFile': os.path.abspath(
                    'my_units.json'),
                'RepairCostAndTimeCorrelation': c['cost_time'],
                'EconomiesOfScale': {'AcrossFloors': c['across'][0],
                                     'AcrossDamageStates': c['across'][1]},
                'NonDirectionalMultipliers': {'ALL': 1.2, 'PFA': 1.1}}

    def frames(self):
        """Every table of the inputs by name."""
        out = {f'dem_{k}': v for k, v in self.dem.items()}
        out['cmp'] = self.cmp['marginals']
        if self.damage is not None:
            out['damage'] = self.damage
        for i, t in enumerate(self.loss):
            out[f'loss{i}'] = t
        if self.map is not None:
            out['map'] = self.map
        return out


def write(df, path):
    """Simple labels, as in the files of users."""
    df = df.copy()
    for ax in ('index', 'columns'):
        lab = getattr(df, ax)
        if lab.nlevels > 1:
            setattr(df, ax, ['-'.join(x for x in map(str, t) if x) for t in lab])
    df.to_csv(path)


def put(out, name, df):
    if df is None:
        return
    cols = [tuple(map(str, c)) if isinstance(c, tuple) else (str(c),) for c in df.columns]
    require(len(set(cols)) == len(cols), '%s: repeated columns', name)
    order = sorted(range(len(cols)), key=lambda i: cols[i])
    out[name] = ([cols[i] for i in order], df.to_numpy(dtype=float)[:, order])


def demand_stage(asm, p, source):
    c = p.case
    asm.stories = c['floors']
    asm.demand.load_model(source['dem'])
    cfg = {'SampleSize': c['n']}
    if c['dem']['clone']:
        cfg['DemandCloning'] = {'PFA-0-1': ['PFA-0-1', 'PFA-0-3']}
    asm.demand.generate_sample(cfg)
    if c['dem']['rid']:
        asm.demand.estimate_RID_and_adjust_sample({'yield_drift': c['dem']['rid']},
                                                  'FEMA P-58')


def asset_stage(asm, p, source):
    asm.stories = p.case['floors']
    asm.asset.load_cmp_model(source['cmp'])
    asm.asset.generate_cmp_sample()


def damage_stage(asm, p, source):
    if p.damage is None:
        return
    asm.damage.load_model_parameters([source['damage']],
                                     set(asm.asset.list_unique_component_ids()))
    asm.damage.calculate(p.process, 1000, p.scaling)


def loss_stage(asm, p, source):
    asm.loss.decision_variables = tuple(p.case['dvs'])
    asm.loss.add_loss_map(source.get('map'), p.case['policy'])
    asm.loss.load_model_parameters(list(source['loss']))
    asm.loss.calculate()


def final_stage(asm, p, aggregate=None):
    from pelicun import uq

    c = p.case
    conf = None
    if c['ratio'] is not None:
        reg = uq.RandomVariableRegistry(asm.options.rng)
        for dv in c['dvs']:
            reg.add_RV(uq.rv_class_map('lognormal')(name=dv, theta=np.array([5000.0, 0.3])))
        conf = (reg, {c['dvs'][0]: c['ratio']})
    if aggregate is not None:
        return aggregate(conf)
    return asm.loss.aggregate_losses(conf, future=True)


def sources(p, folder=None):
    if folder is None:
        return {'dem': p.dem, 'cmp': p.cmp, 'damage': p.damage, 'loss': p.loss,
                'map': p.map}
    for k, v in p.frames().items():
        name = {'dem_marginals': 'DEM_marginals', 'dem_correlation': 'DEM_correlation',
                'cmp': 'CMP_marginals'}.get(k, k)
        write(v, os.path.join(folder, f'{name}.csv'))
    out = {'dem': os.path.join(folder, 'DEM'), 'cmp': os.path.join(folder, 'CMP'),
           'damage': os.path.join(folder, 'damage.csv'),
           'loss': [os.path.join(folder, f'loss{i}.csv') for i in range(len(p.loss))],
           'map': None if p.map is None else os.path.join(folder, 'map.csv')}
    return out


def collect(asm, agg=None, exc=None):
    out = {}
    put(out, 'demand', asm.demand.sample)
    put(out, 'asset', asm.asset.cmp_sample)
    if asm.damage.ds_model.ds_sample is not None:
        put(out, 'states', asm.damage.ds_model.ds_sample)
    put(out, 'damage', asm.damage.ds_model.sample)
    put(out, 'loss_ds', asm.loss.ds_model.sample)
    put(out, 'loss_lf', asm.loss.lf_model.sample)
    if agg is not None:
        put(out, 'aggregate', agg)
        put(out, 'exceeded', exc)
        # in base units
        name, val = out['aggregate']
        dv = {f'repair_{d.lower()}': F[u] for d, u in (asm.loss.dv_units or {}).items()}
        out['aggregate'] = (name, val * np.array([dv[c[0].split('-')[0]] for c in name]))
    return out


def compute(case, pick=None, folder=None, seed=None):
    """All samples of an assessment; the input tables must not change."""
    p = Pieces(case, pick)
    before = {k: v.copy(deep=True) for k, v in p.frames().items()}
    cfg = p.config()
    if seed is not None:
        cfg['Seed'] = seed
    asm = dmg.assessment(cfg)
    src = sources(p, folder)
    demand_stage(asm, p, src)
    asset_stage(asm, p, src)
    damage_stage(asm, p, src)
    loss_stage(asm, p, src)
    agg, exc = final_stage(asm, p)
    for k, v in p.frames().items():
        require(before[k].equals(v) and list(before[k].columns) == list(v.columns)
                and list(before[k].index) == list(v.index)
                and before[k].index.names == v.index.names,
                'the input table %s is changed', k)
    return collect(asm, agg, exc)


def same(a, b, what, rtol=1e-9, flips=0.0):
    """Two collections of samples are the same (up to `flips` of the realizations)."""
    require(set(a) == set(b), '%s: %s and %s', what, sorted(a), sorted(b))
    for k in a:
        require(a[k][0] == b[k][0], '%s: %s has columns %s instead of %s', what, k,
                sorted(set(a[k][0]) - set(b[k][0]))[:4],
                sorted(set(b[k][0]) - set(a[k][0]))[:4])
        x, y = a[k][1], b[k][1]
        require(x.shape == y.shape, '%s: %s has shape %s instead of %s', what, k, x.shape,
                y.shape)
        ok = (np.abs(x - y) <= 1e-9 + rtol * np.maximum(np.abs(x), np.abs(y))) | (
            np.isnan(x) & np.isnan(y))
        bad = ~ok.all(axis=1)
        if bad.sum() > flips * len(bad):
            i = int(np.argmax(bad))
            j = int(np.argmax(~ok[i]))
            require(False, '%s: %s differs in %s of %s realizations, %s: %s instead of %s',
                    what, k, int(bad.sum()), len(bad), a[k][0][j], x[i, j], y[i, j])


class Helper:
    """Another Python process, with other hashes and other global random numbers."""

    def __init__(self):
        env = {**os.environ, 'PYTHONHASHSEED': '4321'}
        self.p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'pbt.helper'], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def __call__(self, case):
        pickle.dump(case, self.p.stdin)
        self.p.stdin.flush()
        ok, res = pickle.load(self.p.stdout)
        if not ok:
            raise RuntimeError(res)
        return res


def serve():
    sys.pycache_prefix = os.path.join(os.environ['TMPDIR'], 'pyc2')
    import random
    import traceback
    import warnings

    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    while True:
        try:
            case = pickle.load(sys.stdin.buffer)
        except EOFError:
            return
        random.seed(5)
        np.random.seed(99)
        try:
            res = True, compute(case)
        except Exception:  # noqa: BLE001
            res = False, traceback.format_exc()
        pickle.dump(res, out)
        out.flush()

