"""C28: the requested results of a calculation, and nothing else, are saved as they are."""
from __future__ import annotations

import json
import math
import os
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun import base

from pbt import calc
from pbt.core import Sub, close, require, require_same
from pbt.gen import seeds
from pbt.regional import Library

RULE = ('A case counts when at least two files of results besides the summary are '
        'requested, and some component is damaged or lossy.')
ASSUMPTIONS = [
    'the samples in memory at the end of the calculation are those of C29',
    'files of a calculation are compared to 1e-6, percentiles to 1e-6 of their linear '
    'interpolation',
]
QUICK_S = 60

FACTOR = {'ea': 1.0, 'EA': 1.0, 'ft2': 0.3048**2, 'unitless': 1.0, 'rad': 1.0,
          'g': 9.80665, 'USD_2011': 1.0, 'loss_ratio': 1.0, 'worker_day': 1.0,
          'day': 86400.0, 'kg': 1.0, 'MJ': 1e6, 'm': 1.0, 'in': 0.0254, 'inch': 0.0254,
          'ft': 0.3048}
for _u in ('in', 'inch', 'ft', 'm', 'cm'):
    _f = 0.01 if _u == 'cm' else FACTOR[_u]
    FACTOR[_u + 'ps'] = FACTOR[_u + 'ps2'] = _f
NAMES = {
    'Demand': {'Sample': 'DEM_sample', 'Statistics': 'DEM_stats'},
    'Asset': {'Sample': 'CMP_sample', 'Statistics': 'CMP_stats'},
    'Damage': {'Sample': 'DMG_sample', 'Statistics': 'DMG_stats',
               'GroupedSample': 'DMG_grp', 'GroupedStatistics': 'DMG_grp_stats'},
    'Repair': {'Sample': 'DV_repair_sample', 'Statistics': 'DV_repair_stats',
               'GroupedSample': 'DV_repair_grp', 'GroupedStatistics': 'DV_repair_grp_stats',
               'AggregateSample': 'DV_repair_agg',
               'AggregateStatistics': 'DV_repair_agg_stats'},
}
ALL = [f for v in NAMES.values() for f in v.values()] + ['DL_summary', 'DL_summary_stats']
PCT = [0.001, 0.023, 0.10, 0.159, 0.5, 0.841, 0.90, 0.977, 0.999]


def plain(name):
    return name + ('.csv' if name.endswith('stats') or name == 'DL_summary' else '.zip')


def requested(case, lossy):
    """Names of the files that are asked for."""
    out = case['outputs']
    if out is None:
        names = [f for k, v in NAMES.items() for f in v.values()]
    else:
        names = []
        for part, files in NAMES.items():
            cfg = out.get(part, {}) if part != 'Repair' else out.get(
                'Loss', {}).get('Repair', {})
            names += [f for k, f in files.items() if cfg.get(k) is True]
    if not lossy:
        names = [f for f in names if not f.startswith('DV_repair') or 'agg' in f]
    return names


def formats(case):
    csv, js = True, case['outputs'] is None
    if case['outputs'] is not None and case['format'] is not None:
        csv, js = case['format']
    if case['override'] is not None:
        csv, js = 'csv' in case['override'], 'json' in case['override']
    return csv, js


def settings(case):
    """CondenseDS, SimpleIndexInJSON, AggregateColocatedComponentResults."""
    if case['outputs'] is not None and case['settings'] is not None:
        return case['settings']
    return [False, False, True]


def read(path, has_units):
    """Columns -> (unit, values or {statistic: value})."""
    df = pd.read_csv(path, index_col=0, dtype=str, keep_default_na=False)
    unit = None
    if has_units:
        rows = [i for i in df.index if str(i).lower() == 'units']
        require(len(rows) == 1, '%s: rows of units %s', path.name, rows)
        unit = df.loc[rows[0]]
        df = df.drop(index=rows)
    require(len(set(df.columns)) == len(df.columns), '%s: columns %s', path.name,
            list(df.columns))
    vals = {c: [float(v) if v != '' else math.nan for v in df[c]] for c in df.columns}
    return list(df.index), vals, ({} if unit is None else dict(unit))


def stats_of(v):
    """Reference statistics of a list."""
    v = np.asarray(v, dtype=float)
    x = v[~np.isnan(v)]
    out = {'count': float(len(x))}
    one = len(x) > 0
    out['mean'] = float(np.mean(x)) if one else math.nan
    out['std'] = float(np.std(x, ddof=1)) if len(x) > 1 else math.nan
    out['min'] = float(np.min(x)) if one else math.nan
    out['max'] = float(np.max(x)) if one else math.nan
    for p in PCT:
        out[p] = float(np.quantile(x, p)) if one else math.nan
    out['log_std'] = math.nan
    if one and np.min(x) > 0 and len(x) > 1:
        out['log_std'] = float(np.std(np.log(x), ddof=1))
    return out


def total(vals):
    """Sum in which missing values count when nothing else is there."""
    arr = np.array(vals, dtype=float)
    s = np.nansum(arr, axis=0)
    return np.where(np.isnan(arr).all(axis=0), np.nan, s)


def group(cols, keep):
    """{label: values} with the parts of labels at positions `keep`, summed."""
    out = {}
    for k, v in cols.items():
        out.setdefault(tuple(k[i] for i in keep), []).append(v)
    return {k: total(v) for k, v in out.items()}


def frame(df):
    return {tuple(map(str, c)): df.iloc[:, i].to_numpy(dtype=float)
            for i, c in enumerate(df.columns)}


def expectations(case, asm):
    """name of table -> columns in base units (None: no units)."""
    condense, _, colocated = settings(case)
    out = {'DEM': frame(asm.demand.sample)}
    cmp = frame(asm.asset.cmp_sample)
    dmg = frame(asm.damage.ds_model.sample)
    if colocated:
        cmp = group(cmp, (0, 1, 2))
        dmg = group(dmg, (0, 1, 2, 4))
    out['CMP'], out['DMG'] = cmp, dmg
    ds_at = 3 if colocated else 4
    per = group(dmg, (0, 1, ds_at))
    if condense:
        worst = {}
        for (nm, loc, ds), v in per.items():
            worst.setdefault((nm, loc), []).append(np.where(
                np.isnan(v), np.nan, np.where(v > 0, float(ds), np.where(v == 0, 0, v))))
        out['DMG_grp'] = {k: np.where(np.isnan(v).all(axis=0), np.nan,
                                      np.nanmax(np.where(np.isnan(v), -np.inf, v), axis=0))
                          for k, v in ((k, np.array(v)) for k, v in worst.items())}
    else:
        out['DMG_grp'] = group(per, (0,))
    loss = asm.loss.sample
    if loss is not None:
        names = list(loss.columns.names)
        dv = frame(loss)
        if colocated:
            dv = group(dv, [i for i, nm in enumerate(names) if nm != 'uid'])
        out['DV_repair'] = dv
        out['DV_repair_grp'] = group(dv, (0, 1, 2))
    return out


def check_table(path, cols, what, units=True, raw=False, stats=False):
    """A file holds the columns in its units."""
    index, vals, unit = read(path, units)
    label = {('-'.join(k) if isinstance(k, tuple) else k).rstrip('-'): v
             for k, v in cols.items()}
    got = {c.rstrip('-'): v for c, v in vals.items()}
    require(set(got) == set(label), '%s: columns %s instead of %s', what, sorted(got),
            sorted(label))
    names = {c.rstrip('-'): c for c in vals}
    for c, v in label.items():
        f = 1.0
        if units:
            u = unit[names[c]]
            require(u in FACTOR, '%s: unit %r of %s', what, u, c)
            f = 1.0 if raw else FACTOR[u]
        v = np.asarray(v, dtype=float) / f
        if not stats:
            require(index == [str(i) for i in range(len(v))] or
                    [float(i) for i in index] == list(range(len(v))),
                    '%s: rows %s', what, index)
            require_same(got[c], v, f'{what}: {c}', 1e-9, 1e-12)
            continue
        ref = stats_of(v)
        mine = {}
        for i, x in zip(index, got[c]):
            mine[float(i[:-1]) / 100 if i.endswith('%') else i] = x
        require(len(mine) == len(ref), '%s: statistics %s', what, sorted(map(str, mine)))
        for k, e in ref.items():
            key = k if isinstance(k, str) else min(
                (m for m in mine if not isinstance(m, str)), key=lambda m: abs(m - k))
            require(isinstance(k, str) or abs(key - k) < 1e-9, '%s: no statistic %s of %s',
                    what, k, sorted(map(str, mine)))
            scale = float(np.nanmax(np.abs(v))) if np.any(~np.isnan(v)) else 1.0
            tol = 1e-7 if k == 'log_std' else 1e-7 * scale
            require_same([mine[key]], [e], f'{what}: {k} of {c}', 1e-6, tol)


def flatten(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict) and not leaf(v):
            yield from flatten(v, (*path, k))
        else:
            yield '-'.join((*path, k)).rstrip('-'), v


def leaf(d):
    return 'count' in d or not any(isinstance(x, (dict, list)) for x in d.values())


def check_json(path, csv, units, simple, what):
    """The JSON file tells the same as the CSV file."""
    index, vals, unit = read(csv, units)
    data = json.loads(path.read_text())
    stats = 'count' in index
    if units:
        got_u = {k.rstrip('-'): v for k, v in data.pop('Units').items()}
        require(got_u == {k.rstrip('-'): v for k, v in unit.items()},
                '%s: units %s instead of %s', what, got_u, unit)
    if simple:
        require(set(data) == set(vals), '%s: columns %s instead of %s', what,
                sorted(data), sorted(vals))
    else:
        require(not any('-' in k for k in data), '%s: names %s', what, sorted(data))
    got = dict(flatten(data))
    require(set(got) == {c.rstrip('-') for c in vals}, '%s: columns %s instead of %s', what,
            sorted(got), sorted(vals))
    for c, v in vals.items():
        mine = got[c.rstrip('-')]
        if stats:
            require(isinstance(mine, dict) and list(mine) == index,
                    '%s: statistics %s instead of %s', what, mine, index)
            mine = list(mine.values())
        require(isinstance(mine, list) and all(isinstance(x, (int, float)) for x in mine),
                '%s: %s is %s, not numbers', what, c, mine)
        require_same(mine, v, f'{what}: {c}', 1e-12)


OLD = 'result of another calculation'


def run_outputs(case):
    with calc.fresh(), Library() as lib:
        out = Path('results')
        if case['stale']:
            out.mkdir()
            for name in ALL:
                (out / plain(name)).write_text(OLD)
                (out / f'{name}.json').write_text(OLD)
            (out / 'notes.txt').write_text('of the user')
            (out / 'DEM_sample.csv').write_text('of the user')
        prepared = calc.write(case, lib)
        text = Path('config.json').read_text()
        before = {p: p.read_bytes() for p in Path('.').rglob('*') if p.is_file()
                  and p.parts[0] != 'results'}
        asm = calc.execute(case, lib, prepared=prepared)
        require(Path('config.json').read_text() == text, 'the configuration was changed')
        for p, b in before.items():
            require(p.read_bytes() == b, 'the input file %s was changed', p)
        csv, js = formats(case)
        _, simple, colocated = settings(case)
        lossy = case['losses'] is not None and asm.loss.sample is not None
        names = requested(case, lossy)
        want = {'DL_summary.csv', 'DL_summary_stats.csv'}
        if csv:
            want |= {plain(n) for n in names}
        if js:
            want |= {f'{n}.json' for n in [*names, 'DL_summary', 'DL_summary_stats']}
        have = {p.name for p in out.iterdir()} - {'run.log'}
        if case['stale']:
            for n in ('notes.txt', 'DEM_sample.csv'):
                require(n in have, '%s of the user was removed', n)
                have.remove(n)
        require(have == want, 'files: %s missing, %s not requested', sorted(want - have),
                sorted(have - want))
        tables = expectations(case, asm)
        full = {}
        agg = asm.agg
        for n in [*names, 'DL_summary', 'DL_summary_stats']:
            stats = n.endswith('stats')
            base = n.rsplit('_', 1)[0] if n.rsplit('_', 1)[1] in {'sample', 'stats'} else n
            units = base in {'DEM', 'CMP', 'DMG', 'DMG_grp', 'DV_repair', 'DV_repair_grp'}
            if base == 'DV_repair_agg':
                cols = {('-'.join(map(str, c)) if isinstance(c, tuple) else str(c)
                         ).rstrip('-'): agg.iloc[:, i].to_numpy(dtype=float)
                        for i, c in enumerate(agg.columns)}
            elif base == 'DL_summary':
                if not stats:
                    _, cols, _ = read(out / 'DL_summary.csv', False)
                    full['summary'] = cols
                    check_summary(case, asm, cols)
                cols = full['summary']
            else:
                cols = tables[base]
            if csv or base == 'DL_summary':
                check_table(out / plain(n), cols, n, units,
                            base == 'DMG_grp' and settings(case)[0], stats)
            if js:
                ref = out / plain(n)
                if not ref.exists():
                    ref = twin(case, n)
                check_json(out / f'{n}.json', ref, units, simple, f'{n}.json')
        hurt = any(np.any(v > 0) for k, v in tables['DMG'].items()
                   if k[-1] != '0')
        return {'nontrivial': len(names) > 1 and hurt,
                'tags': [f'csv {csv}', f'json {js}', f'condensed {settings(case)[0]}',
                         f'colocated {colocated}', f'simple {simple}']}


def twin(case, name):
    """The file of the same calculation with CSV results."""
    other = Path('twin')
    if not other.exists():
        calc.execute({**case, 'override': ['csv']}, None, 'twin', prepared=(
            None, Path('my models')))
    return other / plain(name)


def check_summary(case, asm, cols):
    """Aggregate losses, collapse and irreparable damage."""
    n = case['n']
    exp = {}
    if asm.agg is not None:
        for i, c in enumerate(asm.agg.columns):
            name = '-'.join(map(str, c)) if isinstance(c, tuple) else str(c)
            exp[name.rstrip('-')] = asm.agg.iloc[:, i].to_numpy(dtype=float)
    dmg = frame(asm.damage.ds_model.sample)
    for nm in ('collapse', 'irreparable'):
        exp[nm] = np.zeros(n)
        for k, v in dmg.items():
            if k[0] == nm and k[4] == '1':
                exp[nm] = exp[nm] + np.nan_to_num(v)
    got = {c.rstrip('-'): v for c, v in cols.items()}
    require(set(got) == set(exp), 'summary of %s instead of %s', sorted(got), sorted(exp))
    for k, v in exp.items():
        require_same(got[k], v, f'summary of {k}', 1e-9, 1e-12)


def contents(folder):
    """Files and their content, archives unpacked."""
    out = {}
    for p in sorted(folder.iterdir()):
        if p.suffix == '.zip':
            out[p.name] = pd.read_csv(p, dtype=str, keep_default_na=False).to_csv()
        elif p.suffix != '.log':
            out[p.name] = p.read_text()
    return out


@st.composite
def sequences(draw):
    out = {'first': draw(calc.cases(outputs=True)), 'other': draw(calc.cases(outputs=True))}
    for c in out.values():
        if c['losses'] is not None and draw(st.booleans()):
            c['outputs'] = None
    return out


def run_sequence(case):
    """A calculation gives the same after another one."""
    got = []
    with calc.fresh():
        for c in (case['first'], case['other'], case['first']):
            with Library() as lib:
                calc.execute(c, lib)
                got.append(contents(Path('results')))
    require(set(got[0]) == set(got[2]), 'files after another calculation: %s, alone: %s',
            sorted(got[2]), sorted(got[0]))
    for k, v in got[0].items():
        require(v == got[2][k], '%s differs after another calculation', k)
    return {'nontrivial': len(got[0]) > 3 and set(got[1]) != set(got[0])}


@st.composite
def samples(draw):
    cols = draw(st.integers(1, 4))
    rows = draw(st.integers(2, 12))
    sign = [draw(st.sampled_from(['positive', 'any', 'zero', 'blank', 'constant']))
            for _ in range(cols)]
    return {'shape': [rows, cols], 'sign': sign, 'rng': draw(seeds()),
            'form': draw(st.sampled_from(['table', 'labels', 'array', 'list', 'series'])),
            'percentiles': draw(st.one_of(st.none(), st.lists(
                st.sampled_from([0.05, 0.25, 0.5, 0.75, 0.95]), min_size=1, max_size=4,
                unique=True).map(sorted)))}


def run_samples(case):
    """Statistics of samples in every form they can be given in."""
    rng = np.random.default_rng(case['rng'])
    n, m = case['shape']
    x = rng.lognormal(size=(n, m))
    for j, s in enumerate(case['sign']):
        if s == 'any':
            x[:, j] -= 1.0
        elif s == 'zero':
            x[rng.integers(n), j] = 0.0
        elif s == 'blank':
            x[rng.integers(n), j] = np.nan
        elif s == 'constant':
            x[:, j] = 2.5
    keep = x.copy()
    form = case['form']
    if form == 'table':
        labels = [f'c{j}' for j in range(m)]
        data = pd.DataFrame(x.copy(), columns=labels)
    elif form == 'labels':
        labels = [('B' if j % 2 else 'A', str(j)) for j in range(m)]
        data = pd.DataFrame(x.copy(), columns=pd.MultiIndex.from_tuples(labels))
    elif form == 'array':
        labels = list(range(m))
        data = x.copy()
    elif form == 'list':
        labels = [0]
        data = x[:, 0].copy()
    else:
        labels = ['one']
        data = pd.Series(x[:, 0].copy(), name='one')
    more = {} if case['percentiles'] is None else {'percentiles': tuple(case['percentiles'])}
    got = base.describe(data, **more)
    require(np.array_equal(np.asarray(data).reshape(n, -1), keep[:, :len(labels)],
                           equal_nan=True), 'the sample is changed')
    require(list(got.columns) == labels, 'statistics of %s', list(got.columns))
    for j, lab in enumerate(labels):
        ref = stats_of(x[:, j])
        for p in case['percentiles'] or (0.5,):
            y = x[:, j][~np.isnan(x[:, j])]
            ref[f'{100 * p:g}%'] = float(np.quantile(y, p)) if len(y) else math.nan
        for row in ('count', 'mean', 'std', 'log_std', 'min', 'max', '50%',
                    *(f'{100 * p:g}%' for p in case['percentiles'] or ())):
            if row == '50%' and case['percentiles'] is not None:
                continue
            require(row in got.index, 'no %s in %s', row, list(got.index))
            require(close(got[[lab]].loc[row].iloc[0], ref[row], 1e-9, 1e-12),
                    '%s of %s: %s instead of %s', row, case['sign'][j],
                    got[[lab]].loc[row].iloc[0], ref[row])
    return {'nontrivial': len(set(case['sign'][:len(labels)])) > 1 or m == 1}


SUBS = [
    Sub('samples', samples(), run_samples, 200, 4000),
    Sub('outputs', calc.cases(outputs=True), run_outputs, 160, 3000),
    Sub('sequence', sequences(), run_sequence, 30, 600),
]
_ = os
