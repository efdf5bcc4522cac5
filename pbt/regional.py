"""A small library and region for regional simulations, and what they should give."""
from __future__ import annotations

import json
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from pelicun import base

from pbt import dmg
from pbt.core import Discard, require, require_same

METHODS = {'Hazus Earthquake - Buildings': 'eq', 'Hazus Hurricane': 'wind'}
# short form: name in parameter tables, units
IMS = {'PGA': ('Peak Ground Acceleration', ['g', 'mps2', 'inchps2']),
       'SA_0.3': ('Spectral Acceleration|0.3', ['g', 'mps2']),
       'SA_1.0': ('Spectral Acceleration|1.0', ['g', 'inchps2']),
       'PWS': ('Peak Gust Wind Speed', ['mph', 'mps', 'cmps']),
       'PIH': ('Peak Inundation Height', ['ft', 'm', 'inch'])}
F = {'g': 9.80665, 'mps2': 1.0, 'inchps2': 0.0254, 'mph': 0.44704, 'mps': 1.0,
     'cmps': 0.01, 'ft': 0.3048, 'm': 1.0, 'inch': 0.0254}

SCRIPT = '''
import pandas as pd

def auto_populate(aim):
    gi = aim['GeneralInformation']
    comp = pd.DataFrame(
        {str(gi['StructureType']): ['ea', 1, 1, 1, 'N/A']},
        index=['Units', 'Location', 'Direction', 'Theta_0', 'Family']).T
    dl = {'Losses': {'Repair': {'DecisionVariables': %s}}}
    return gi, dl, comp
'''


class Library:
    """A scratch copy of the package folder with a library of our own in it."""

    def __enter__(self):
        self.old = base.pelicun_path
        self.root = Path(tempfile.mkdtemp())
        os.symlink(Path(self.old) / 'settings', self.root / 'settings')
        (self.root / 'resources').mkdir()
        shutil.copy(Path(self.old) / 'resources/dlml_resource_paths.json',
                    self.root / 'resources')
        self.paths = json.loads(
            (self.root / 'resources/dlml_resource_paths.json').read_text())
        base.pelicun_path = self.root
        self.cwd = os.getcwd()
        self.work = self.root / 'work'
        self.work.mkdir()
        os.chdir(self.work)
        return self

    def __exit__(self, *_):
        os.chdir(self.cwd)
        base.pelicun_path = self.old
        shutil.rmtree(self.root, ignore_errors=True)

    def folder(self, method):
        d = self.root / 'resources/DamageAndLossModelLibrary' / self.paths[method]
        d.mkdir(parents=True, exist_ok=True)
        return d


def flat(tab, path):
    tab = tab.copy()
    tab.columns = [f'{a}-{b}' if b else a for a, b in tab.columns]
    tab.index.name = 'ID'
    tab.to_csv(path)


def write_library(lib, case):
    d = lib.folder(case['method'])
    dvs = {'Cost': True, 'Time': case['time'], 'Carbon': False}
    (d / 'pelicun_config.py').write_text(SCRIPT % repr(dvs))
    frags = []
    for name, a in case['archetypes'].items():
        frags.append(dmg.fragility(
            name, demand=IMS[a['im']][0], unit=a['unit'], offset=0, directional=0,
            limit_states=[{'family': None, 'theta': [c]} for c in a['caps']]))
    flat(dmg.damage_table(frags), d / 'fragility.csv')
    rows, index = [], []
    for name, states in case['consequences'].items():
        for dv, unit in (('Cost', 'loss_ratio'), ('Time', 'day')):
            if dv == 'Time' and not case['time']:
                continue
            row = {'Incomplete': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': unit}
            if not any(v is not None for v in states[dv]):
                continue
            for k, v in enumerate(states[dv]):
                row[f'DS{k + 1}-Family'] = None
                row[f'DS{k + 1}-Theta_0'] = v
                row[f'DS{k + 1}-Theta_1'] = None
            rows.append(row)
            index.append(f'{name}-{dv}')
    keys = list(dict.fromkeys(k for r in rows for k in r))
    pd.DataFrame([[r.get(k) for k in keys] for r in rows], columns=keys,
                 index=pd.Index(index, name='ID')).to_csv(d / 'consequence_repair.csv')


def grid_values(case):
    """(point, IM, row) -> value in the unit of the configuration."""
    rng = np.random.default_rng(case['rng'])
    m, r = len(case['points']), case['rows']
    scale = {'PWS': 60.0, 'PIH': 5.0}
    return {im: np.round(scale.get(im, 1.0) * rng.uniform(0.05, 2.0, (m, r)), 6)
            for im in sorted(IMS)}


def write_region(case):
    vals = grid_values(case)
    Path('events').mkdir()
    names = []
    for i, _ in enumerate(case['points']):
        # file names do not sort like the points
        nm = f'site_{(i * 7) % 11}_{i}.csv'
        names.append(nm)
        cols = {im: vals[im][i] for im in case['columns']}
        pd.DataFrame(cols).to_csv(f'events/{nm}', index=False)
    pd.DataFrame({'GP_file': names, 'Longitude': [p[0] for p in case['points']],
                  'Latitude': [p[1] for p in case['points']]}).to_csv(
        'events/grid.csv', index=False)
    pd.DataFrame({
        'id': [b['id'] for b in case['buildings']],
        'Latitude': [b['at'][1] for b in case['buildings']],
        'Longitude': [b['at'][0] for b in case['buildings']],
        'StructureType': [b['arch'] for b in case['buildings']],
        'OccupancyClass': [b['occ'] for b in case['buildings']],
    }).to_csv('bldgs.csv', index=False)
    assets = {'pathToSource': '.', 'assetSourceFile': 'bldgs.csv'}
    if case['filter'] is not None:
        assets['filter'] = case['filter']
    config = {
        'RegionalEvent': {'units': dict(case['ims']), 'eventFilePath': 'events',
                          'eventFile': 'grid.csv'},
        'Applications': {
            'RegionalMapping': {'Buildings': {'ApplicationData': {
                'samples': case['samples'], 'neighbors': case['neighbors']}}},
            'DL': {'Buildings': {'ApplicationData': {
                'Realizations': case['realizations'], 'DL_Method': case['method']}}},
            'Assets': {'Buildings': {'ApplicationData': assets}}}}
    Path('config.json').write_text(json.dumps(config))
    return config


def intensities(case, b):
    """IM -> intensity of each sample at a building."""
    vals = grid_values(case)
    pts = np.array(case['points'], dtype=float)
    d = np.hypot(pts[:, 0] - b['at'][0], pts[:, 1] - b['at'][1])
    order = np.argsort(d, kind='stable')
    k = case['neighbors']
    if k < len(d) and d[order[k]] - d[order[k - 1]] < 1e-7:
        raise Discard
    near = order[:k]
    if d[near[0]] < 1e-12:
        if k > 1 and d[near[1]] < 1e-6:
            raise Discard
        w = np.eye(k)[0]
    else:
        if d[near[0]] < 1e-7:
            raise Discard
        w = 1 / d[near] ** 2
        w /= w.sum()
    rows = np.arange(case['samples']) % min(case['rows'], case['samples'])
    return {im: (w @ vals[im][near])[rows] for im, _ in case['ims']}


def reference(case, ids):
    """Demands, damage states, costs and times of the buildings in this order."""
    demand, damage, cost, time = {}, {}, {}, {}
    unit = dict(case['ims'])
    by_id = {b['id']: b for b in case['buildings']}
    real = np.arange(case['realizations']) % case['samples']
    for i in ids:
        b = by_id[i]
        x = intensities(case, b)
        for im, v in x.items():
            demand[f'{im}-{i}-1'] = v
        a = case['archetypes'][b['arch']]
        v = x[a['im']][real] * F[unit[a['im']]]
        caps = np.array(a['caps']) * F[a['unit']]
        if np.any(np.abs(v[:, None] - caps) < 1e-6 * caps):
            raise Discard
        ds = np.array([max([0, *[k + 1 for k, c in enumerate(caps) if c < y]]) for y in v])
        damage[i] = ds
        who = f'LF.{b["occ"]}' if METHODS[case['method']] == 'eq' else b['arch']
        con = case['consequences'][who]
        for out, dv in ((cost, 'Cost'), (time, 'Time')):
            out[i] = np.array([0.0, *[v or 0.0 for v in con[dv]]])[ds]
            if not any(con[dv]):
                out[i] = np.full(len(ds), np.nan)
    return demand, damage, cost, time


def table(path):
    return pd.read_csv(path, index_col=0)


def check_outputs(case, ids):
    demand, damage, cost, time = reference(case, ids)
    unit = dict(case['ims'])
    got = table('demand.csv')
    require(list(got.columns) == list(demand), 'demands of %s instead of %s',
            list(got.columns), list(demand))
    require([str(x) for x in got.index] == [*map(str, range(case['samples'])), 'Units'],
            'rows of the demands: %s', list(got.index))
    for c, v in demand.items():
        im = c.split('-')[0]
        require(got.loc['Units', c] == unit[im], 'unit of %s: %s', c, got.loc['Units', c])
        require_same(got[c].iloc[:-1].astype(float).to_numpy(), v, f'demand {c}', 1e-9)
    got = table('damage.csv')
    require(list(got.index) == ids, 'damage of %s instead of %s', list(got.index), ids)
    require(got.shape[1] == case['realizations'], '%s realizations of damage', got.shape[1])
    for i in ids:
        require(got.loc[i].tolist() == damage[i].tolist(),
                'building %s is in %s instead of %s', i, got.loc[i].tolist(),
                damage[i].tolist())
    for nm, exp in (('costs', cost), ('times', time)):
        p = Path(f'repair_{nm}.csv')
        if nm == 'times' and not case['time'] and METHODS[case['method']] != 'eq':
            require(not p.exists(), 'repair times that are not requested')
            continue
        got = table(p)
        require(list(got.index) == ids, '%s of %s instead of %s', nm, list(got.index), ids)
        require(got.shape[1] == case['realizations'], '%s realizations of %s',
                got.shape[1], nm)
        for i in ids:
            require_same(got.loc[i].to_numpy(dtype=float), exp[i],
                         f'{nm} of building {i}', 1e-9)
    return damage
