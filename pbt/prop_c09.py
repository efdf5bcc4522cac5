"""C09: demand samples: loading, saving, extension, residual drifts."""
from __future__ import annotations

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun.assessment import AssessmentBase
from scipy.special import ndtr
from scipy.stats import binomtest, kstest

from pbt.core import Sub, Violation, close, require, require_same
from pbt.gen import fl, logfl, seeds

RULE = 'A case counts when the sample has at least two demands and two realizations.'
ASSUMPTIONS = [
    'demand labels contain no dash within a level and are unique after blanks and event '
    'numbers are removed',
    'statistical statements are only rejected at odds below 1e-9 for the seeds used',
]
QUICK_S = 45
UNITS = {'g': 9.80665, 'rad': 1.0, 'unitless': 1.0, 'inchps2': 0.0254, 'mps2': 1.0,
         'cmps': 0.01, 'inch': 0.0254, 'ft': 0.3048}
TYPES = ['PID', 'PFA', 'PGA', 'PFV', 'SA_0.5', 'SA_1.23', 'PGD', 'RID', 'Z_x.1']


@st.composite
def samples(draw):
    m = draw(st.integers(1, 5))
    labels = draw(st.lists(
        st.tuples(st.sampled_from(TYPES), st.integers(0, 12).map(str),
                  st.integers(0, 3).map(str)), min_size=m, max_size=m, unique=True))
    n = draw(st.integers(1, 8))
    some = draw(st.integers(0, 5)) > 0
    return {
        'labels': [list(x) for x in labels],
        'units': [draw(st.sampled_from([None, *sorted(UNITS)])) if some else None
                  for _ in labels],
        'vals': [[draw(st.one_of(fl(-20, 20), logfl(-4, 3))) for _ in labels]
                 for _ in range(n)],
        'event': draw(st.sampled_from([None, None, 'same', 'mixed'])),
        'blanks': draw(st.lists(st.integers(0, 4), min_size=m, max_size=m)),
        'errors': draw(st.one_of(st.none(), st.lists(
            st.sampled_from([0, 0, 0, 1, 1, 2, -1]), min_size=n, max_size=n))),
        'mode': draw(st.sampled_from(['file', 'frame', 'multi'])),
        'seed': draw(seeds()),
        'unit_label': draw(st.sampled_from(['Units', 'Units', 'units', 'UNITS'])),
        'unit_row': draw(st.booleans()),
    }


def raw_labels(case):
    out = []
    for i, (lab, b) in enumerate(zip(case['labels'], case['blanks'])):
        parts = list(lab)
        if b == 1:
            parts[0] = ' ' + parts[0]
        elif b == 2:
            parts[1] = parts[1] + ' '
        elif b == 3:
            parts = [f' {p} ' for p in parts]
        if case['event']:
            parts = ['1' if case['event'] == 'same' else str(1 + i % 2), *parts]
        out.append(parts)
    return out


def source(case):
    raw = raw_labels(case)
    units = list(case['units'])
    arr = np.array(case['vals'], dtype=float)
    if case['errors'] is not None:
        raw = [*raw, [*(['1'] if case['event'] else []), 'ERROR', '0', '0']]
        units.append(None)
        arr = np.column_stack([arr, np.array(case['errors'], dtype=float)])
    if case['mode'] == 'multi':
        cols = pd.MultiIndex.from_tuples([tuple(r) for r in raw])
    else:
        cols = ['-'.join(r) for r in raw]
    df = pd.DataFrame(arr.astype(object), columns=cols)
    top = pd.DataFrame([units], columns=cols, index=[case['unit_label']])
    if case['unit_row'] or any(units):
        df = pd.concat([top, df])
    else:
        df = df.astype(float)
    if case['mode'] == 'file':
        df.to_csv('demands.csv')
        return 'demands.csv', None
    return df, df.copy()


def loaded(case, config=None):
    asm = AssessmentBase({'Seed': case['seed'], **(config or {})})
    src, before = source(case)
    asm.demand.load_sample(src)
    if before is not None:
        pd.testing.assert_frame_equal(src, before)
    return asm


def expected(case):
    keep = [i for i in range(len(case['vals']))
            if case['errors'] is None or not case['errors'][i]]
    return {tuple(lab): ([case['vals'][i][j] * UNITS.get(u, 1.0) for i in keep], u)
            for j, (lab, u) in enumerate(zip(case['labels'], case['units']))}


def check_sample(asm, exp, what, rtol=1e-9):
    s = asm.demand.sample
    got = {tuple(map(str, c)): i for i, c in enumerate(s.columns)}
    require(set(got) == set(exp) and len(exp) == s.shape[1],
            '%s: demands %s instead of %s', what, sorted(got), sorted(exp))
    for k, (v, _) in exp.items():
        require_same(s.iloc[:, got[k]].to_numpy(dtype=float), v, f'{what}: {k}', rtol)
    u = {tuple(map(str, k)): v for k, v in asm.demand.user_units.items()
         if not pd.isna(v)}
    ue = {k: e[1] for k, e in exp.items() if e[1]}
    require(u == ue, '%s: units %s instead of %s', what, u, ue)


def run_load(case):
    """Values in base units, clean labels, failed realizations removed."""
    asm = loaded(case)
    exp = expected(case)
    check_sample(asm, exp, 'loaded')
    n = len(next(iter(exp.values()))[0])
    if n == 0:
        return {'nontrivial': False, 'tags': ['all failed']}
    before = asm.demand.sample.copy()
    asm.demand.save_sample('saved.csv')
    mem, mu = asm.demand.save_sample(save_units=True)
    only = asm.demand.save_sample()
    pd.testing.assert_frame_equal(asm.demand.sample, before)
    for k, (v, u) in exp.items():
        user = np.array(v) / UNITS.get(u, 1.0)
        require_same(mem[k].to_numpy(), user, f'{k} in memory in {u}', 1e-9)
        require_same(only[k].to_numpy(), user, f'{k} in memory', 1e-9)
        if u:
            require(mu[k] == u, 'unit of %s in memory: %s', k, mu[k])
    raw = pd.read_csv('saved.csv', index_col=0)
    for k, (v, u) in exp.items():
        col = raw['-'.join(k)]
        require(col.iloc[0] == u if u else pd.isna(col.iloc[0]), 'stored unit of %s: %s',
                k, col.iloc[0])
        require_same(col.iloc[1:].astype(float).to_numpy(), np.array(v) / UNITS.get(
            u, 1.0), f'stored {k} in {u}', 1e-9)
    other = AssessmentBase({})
    other.demand.load_sample('saved.csv')
    check_sample(other, exp, 'reloaded')
    return {'nontrivial': len(exp) > 1 and n > 1,
            'tags': [case['mode'], f'event {case["event"]}',
                     'errors' if case['errors'] else 'no errors']}


@st.composite
def extensions(draw):
    case = draw(samples())
    case['errors'] = draw(st.one_of(st.none(), st.none(), st.just(
        [int(i % 2 == 1) for i in range(len(case['vals']))])))
    n = len(case['vals']) if case['errors'] is None else (len(case['vals']) + 1) // 2
    case['add'] = [
        {'label': f'X{i}', 'unit': draw(st.sampled_from(sorted(UNITS))),
         'place': draw(st.one_of(st.none(), st.tuples(
             st.integers(0, 9).map(str), st.integers(0, 2).map(str)).map(list))),
         'value': draw(st.one_of(
             fl(-5, 5), st.lists(fl(-5, 5), min_size=n, max_size=n)))}
        for i in range(draw(st.integers(1, 3)))]
    return case


def run_extend(case):
    """A further column is in its unit, and the others stay."""
    asm = loaded(case)
    exp = expected(case)
    n = len(next(iter(exp.values()))[0])
    for a in case['add']:
        v = np.array(a['value']) if isinstance(a['value'], list) else a['value']
        try:
            asm.demand.expand_sample('Y', np.zeros(n + 1), 'g')
        except ValueError:
            pass
        else:
            raise Violation('an array of another length is accepted')
        loc, d = a['place'] or ('0', '1')
        if a['place']:
            asm.demand.expand_sample(a['label'], v, a['unit'], loc, d)
        else:
            asm.demand.expand_sample(a['label'], v, a['unit'])
        exp[a['label'], loc, d] = (list(np.broadcast_to(
            np.array(a['value'], dtype=float) * UNITS[a['unit']], n)), a['unit'])
        check_sample(asm, exp, 'extended')
    return {'nontrivial': len(case['labels']) > 1 and n > 1}


@st.composite
def drifts(draw):
    y = draw(fl(0.002, 0.02))
    cols = draw(st.lists(st.tuples(st.integers(0, 12).map(str),
                                   st.integers(0, 2).map(str)),
                         min_size=1, max_size=4, unique=True))
    return {'y': y, 'cols': [list(c) for c in cols],
            'levels': draw(st.lists(st.one_of(
                fl(0.05, 8), st.sampled_from([1.05, 1.5, 2.0, 3.9, 4.2, 6.0])),
                min_size=1, max_size=4)),
            'n': draw(st.integers(4, 120)), 'seed': draw(seeds()),
            'others': draw(st.booleans())}


def run_drifts(case):
    """Residual drifts of FEMA P-58: zero, then 0.3 (d - dy), then d - 3 dy; noise; cap."""
    y, n = case['y'], case['n']
    asm = AssessmentBase({'Seed': case['seed']})
    cols = [('PID', *c) for c in case['cols']]
    lev = np.array(case['levels'])
    arr = np.array([[lev[(i + 2 * j) % len(lev)] * y * (1 + 1e-3 * (i % 7))
                     for j in range(len(cols))] for i in range(n)])
    full = list(cols)
    vals = arr
    units = ['rad'] * len(cols)
    if case['others']:
        full += [('PFA', '0', '1'), ('SA_0.5', '0', '1')]
        vals = np.column_stack([arr, np.linspace(0.1, 1, n), np.linspace(2, 1, n)])
        units += ['g', 'g']
    df = pd.DataFrame(vals.astype(object), columns=['-'.join(c) for c in full])
    df = pd.concat([pd.DataFrame([units], columns=df.columns, index=['Units']), df])
    asm.demand.load_sample(df)
    before = asm.demand.sample.copy()
    try:
        asm.demand.estimate_RID(asm.demand.sample['PID'], {'yield_drift': y}, 'other')
    except ValueError:
        pass
    else:
        raise Violation('an unknown method is accepted')
    pid_in = asm.demand.sample['PID'].copy()
    pid_arg = pid_in.copy()
    est = asm.demand.estimate_RID(pid_arg, {'yield_drift': y})
    pd.testing.assert_frame_equal(pid_arg, pid_in)
    pd.testing.assert_frame_equal(asm.demand.sample, before)
    require([tuple(c) for c in est.columns] == [('RID', *c) for c in pid_in.columns],
            'labels %s', list(est.columns))
    asm.demand.estimate_RID_and_adjust_sample({'yield_drift': y}, 'FEMA P-58')
    s = asm.demand.sample
    require(set(map(tuple, s.columns)) == {*full, *(('RID', *c[1:]) for c in cols)},
            'demands %s', list(s.columns))
    for c in full:
        require_same(s[c].to_numpy(), before[c].to_numpy(), f'{c} after the estimate',
                     1e-12)
    require(all(asm.demand.user_units[('RID', *c[1:])] in {'unitless', 'rad'}
                for c in cols), 'units')
    us, capped, caps = [], 0, []
    zs = {}
    for frame in (est, s):
        for c in cols:
            pid = before[c].to_numpy()
            rid = frame[('RID', *c[1:])].to_numpy()
            med = np.where(pid < y, 0.0, np.where(pid < 4 * y, 0.3 * (pid - y),
                                                  pid - 3 * y))
            require((rid <= pid * (1 + 1e-12)).all(), 'a residual drift exceeds the peak')
            for r, m, p in zip(rid, med, pid):
                if m <= 0:
                    require(r == 0, 'residual drift %r below the yield drift', r)
                    continue
                require(r > 0, 'no residual drift beyond the yield drift')
                zmax = math.log(p / m) / 0.2
                caps.append(1 - ndtr(zmax))
                if close(r, p, 1e-12):
                    capped += 1
                else:
                    z = math.log(r / m) / 0.2
                    us.append(ndtr(z) / ndtr(zmax))
                    zs.setdefault((frame is est, c), []).append(round(z, 9))
    if len(us) >= 10:
        p = kstest(us, 'uniform').pvalue
        require(p > 1e-9, 'the scatter is not lognormal with 0.2: p = %r (%d values)', p,
                len(us))
    if caps and max(caps) - min(caps) < 1e-9:
        p = binomtest(capped, len(caps), float(np.mean(caps))).pvalue
        require(p > 1e-9, '%d of %d are capped, expected %r', capped, len(caps),
                float(np.sum(caps)))
    lists = [tuple(v) for v in zs.values() if len(v) > 3]
    require(len(set(lists)) == len(lists), 'columns share their scatter')
    return {'nontrivial': len(us) > 3}


SUBS = [
    Sub('load', samples(), run_load, 220, 5000),
    Sub('extend', extensions(), run_extend, 80, 1500),
    Sub('drifts', drifts(), run_drifts, 100, 1500),
]
