"""Shared set-up of damage and loss assessments from plain data."""
from __future__ import annotations

import numpy as np
import pandas as pd
from pelicun.assessment import AssessmentBase

UNITS = {'g': 9.80665, 'rad': 1.0, 'unitless': 1.0, 'inchps2': 0.0254, 'mps2': 1.0,
         'cmps': 0.01, 'inch': 0.0254, 'ft': 0.3048, 'mps': 1.0, 'EA': 1.0,
         'ft2': 0.3048**2, 'm2': 1.0, 'm': 1.0}
# names of demands in parameter tables and their short form in samples
NAMES = {
    'Peak Interstory Drift Ratio': 'PID', 'Story Drift Ratio': 'PID',
    'Peak Floor Acceleration': 'PFA', 'Peak Floor Velocity': 'PFV',
    'Peak Ground Acceleration': 'PGA', 'Peak Roof Drift Ratio': 'PRD',
    'Residual Interstory Drift Ratio': 'RID', 'Permanent Ground Deformation': 'PGD',
    'Spectral Acceleration|0.5': 'SA_0.5', 'Spectral Acceleration|1.13': 'SA_1.13',
    'Peak Gust Wind Speed': 'PWS', 'Peak Inundation Height': 'PIH',
}


def demands(asm, cols, vals, units=None):
    """Load a demand sample. `cols`: (type, loc, dir); `vals`: rows of realizations."""
    head = pd.MultiIndex.from_tuples([tuple(map(str, c)) for c in cols])
    df = pd.DataFrame(np.array(vals, dtype=float).reshape(len(vals), len(cols)),
                      columns=head).astype(object)
    if units is None:
        units = ['unitless'] * len(cols)
    top = pd.DataFrame([list(units)], columns=head, index=['Units'])
    asm.demand.load_sample(pd.concat([top, df]))


def components(asm, rows, n, stories=20):
    """Rows: dict(cmp, loc, dir, q[, unit, blocks, family, theta1])."""
    asm.stories = stories
    tab = {
        'Units': [r.get('unit', 'EA') for r in rows],
        'Location': [str(r['loc']) for r in rows],
        'Direction': [str(r['dir']) for r in rows],
        'Theta_0': [r['q'] for r in rows],
        'Theta_1': [r.get('theta1') for r in rows],
        'Family': [r.get('family') for r in rows],
    }
    if any(r.get('blocks') for r in rows):
        tab['Blocks'] = [r.get('blocks') for r in rows]
    df = pd.DataFrame(tab, index=[r['cmp'] for r in rows])
    asm.asset.load_cmp_model({'marginals': df})
    asm.asset.generate_cmp_sample(n)


def two_level(rows, index):
    """Table with two-level columns from dicts with 'A-B' keys; blanks where missing."""
    keys = []
    for r in rows:
        for k in r:
            if k not in keys:
                keys.append(k)
    cols = pd.MultiIndex.from_tuples(
        [tuple(k.split('-', 1)) if '-' in k else (k, '') for k in keys])
    return pd.DataFrame([[r.get(k) for k in keys] for r in rows], index=index, columns=cols)


def fragility(name, demand='Peak Interstory Drift Ratio', unit='unitless', offset=0,
              directional=1, limit_states=(), **more):
    """One row of a damage parameter table.

    limit_states: dicts with family, theta (list), weights, id (1, 2, ... by default).
    """
    row = {'Demand-Type': demand, 'Demand-Unit': unit, 'Demand-Offset': offset,
           'Demand-Directional': directional, 'Incomplete': 0}
    row.update(more)
    for k in ('Family', 'Theta_0', 'Theta_1', 'DamageStateWeights'):
        row[f'LS1-{k}'] = None
    for i, ls in enumerate(limit_states):
        n = ls.get('id', i + 1)
        row[f'LS{n}-Family'] = ls.get('family')
        for t, v in enumerate(ls['theta']):
            row[f'LS{n}-Theta_{t}'] = v
        for t in range(len(ls['theta']), 2):
            row[f'LS{n}-Theta_{t}'] = None
        row[f'LS{n}-DamageStateWeights'] = ls.get('weights')
        if 'lim' in ls:
            row[f'LS{n}-TruncateLower'], row[f'LS{n}-TruncateUpper'] = ls['lim']
    return name, row


def damage_table(frags):
    return two_level([r for _, r in frags], [n for n, _ in frags])


def assessment(config=None, **kw):
    return AssessmentBase({**(config or {}), **kw})


def ds_of(asm):
    """Damage states: (cmp, loc, dir, uid, block) -> list of integers."""
    s = asm.damage.ds_model.ds_sample
    return {tuple(map(str, c)): s.iloc[:, i].to_numpy() for i, c in enumerate(s.columns)}


def qty_of(asm):
    """Quantities: (cmp, loc, dir, uid, ds) -> array."""
    s = asm.damage.ds_model.sample
    return {tuple(map(str, c)): s.iloc[:, i].to_numpy() for i, c in enumerate(s.columns)}
