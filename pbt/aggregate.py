"""Shared generator and reference of aggregated losses (C21 to C23)."""
from __future__ import annotations

import itertools
from copy import deepcopy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt.core import Violation, require, require_same
from pbt.gen import fl, seeds

UNITS = {'Cost': {'USD_2011': 1.0, 'loss_ratio': 1.0},
         'Time': {'worker_day': 1.0, 'day': 86400.0, 'hour': 3600.0},
         'Carbon': {'kg': 1.0, 'lb': 0.453592}, 'Energy': {'MJ': 1e6, 'J': 1.0},
         'Injuries': {'EA': 1.0}, 'CO2': {'kg': 1.0}, 'Down_Time': {'day': 86400.0}}
CMPS = ['A', 'B.10', 'wind.1', 'flood_2', 'SURGE', 'x']
DS_LEVELS = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LF_LEVELS = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']


@st.composite
def cases(draw, replacement=False, combine=False, large=False):
    dvs = draw(st.lists(st.sampled_from(sorted(UNITS)), min_size=1, max_size=4, unique=True))
    if draw(st.booleans()) and 'Time' not in dvs:
        dvs.append('Time')
    n = draw(st.sampled_from([2, 5, 600] if large else range(1, 8)))
    cmps = draw(st.lists(st.sampled_from(CMPS), min_size=2 if combine or large else 1,
                         max_size=5, unique=True))
    if large:
        cmps += [f'c{i}' for i in range(draw(st.integers(0, 12 if n < 10 else 2)))]
        rng = np.random.default_rng(draw(seeds()))
        top = 0.25 if combine else 9.0

        def value_list():
            return st.just(np.round(np.where(
                rng.random(n) < 0.3, 0.0, rng.uniform(0, top, n)), 4).tolist())
    else:
        def value_list():
            return st.lists(value, min_size=n, max_size=n)
    if combine:
        value = st.one_of(st.integers(0, 8).map(lambda i: i / 32), fl(0.0, 0.25, 4))
    else:
        value = st.one_of(st.integers(0, 12).map(float), st.just(0.0)) if replacement else (
            st.one_of(fl(0.0, 1e4, 5), st.just(0.0), st.integers(0, 9).map(float)))
    kind = {c: draw(st.sampled_from(['ds', 'lf'])) for c in cmps}
    loss = {c: draw(st.sampled_from([c, c, 'R', 'S.1'])) for c in cmps}
    locs = draw(st.lists(st.integers(0, 4).map(str), min_size=1, max_size=3, unique=True))
    if large:
        locs = [str(i) for i in range(draw(st.integers(8, 14)))]
    cols = []
    for c in cmps:
        for loc in locs:
            if draw(st.integers(0, 3)) == 0:
                continue
            for d, u in draw(st.lists(st.sampled_from([('0', '0'), ('1', '0'), ('1', '1'),
                                                       ('2', '0')]),
                                      min_size=1, max_size=2, unique=True)):
                for dv in dvs:
                    if draw(st.integers(0, 7)) == 0:
                        continue
                    states = ['-'] if kind[c] == 'lf' else draw(
                        st.sampled_from([['1'], ['1', '2'], ['2', '3', '4']]))
                    for s in states:
                        cols.append([dv, loss[c], c, s, loc, d, u,
                                     draw(value_list())])
    case = {'dvs': dvs, 'n': n, 'cols': cols, 'seed': draw(seeds()),
            'units': {d: draw(st.sampled_from(sorted(UNITS[d]))) for d in dvs},
            'seen': draw(st.booleans()), 'future': draw(st.integers(0, 3)) > 0,
            'order': draw(st.randoms(use_true_random=False)).random(),
            'config': None, 'combos': []}
    if replacement:
        for c in draw(st.lists(st.sampled_from(['collapse', 'irreparable']), unique=True)):
            for dv in dvs:
                if draw(st.integers(0, 4)) == 0:
                    continue
                cols.append([dv, 'replacement', c, '1', '0', '1', '0',
                             rng.choice([0.0, 0.0, 0.0, 1.0, 400.0], n).tolist() if large
                             else draw(st.lists(st.sampled_from(
                                 [0.0, 0.0, 0.0, 1.0, 400.0]), min_size=n, max_size=n))])
    if draw(st.integers(0, 9)) < (7 if replacement else 3 if combine else 0):
        rv, ratio = {}, {}
        for dv in dvs:
            rv[dv] = draw(st.one_of(
                st.integers(1, 60).map(lambda x: ['deterministic', float(x)]),
                st.integers(5, 60).map(lambda x: ['lognormal', float(x)])))
            if combine:
                rv[dv][1] /= 20
            if draw(st.integers(0, 4)):
                ratio[dv] = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 0.0]))
        case['config'] = {'rv': rv, 'ratio': ratio,
                          'extra': None if combine else draw(
                              st.sampled_from([None] * 9 + ['rv', 'ratio', 'rv first', 'ratio first'])),
                          'missing': None if combine else draw(
                              st.sampled_from([None] * 9 + ['rv', 'type'])),
                          'raise': draw(st.booleans())}
    if combine:
        at = {}
        for dv, _, c, _, loc, d, u, _ in cols:
            at.setdefault((dv, loc, d, u), set()).add(c)
        for dv in dvs:
            groups = sorted({tuple(sorted(v)) for k, v in at.items()
                             if k[0] == dv and len(v) > 1})
            used = set()
            for _ in range(draw(st.integers(0, 2))):
                left = [g for g in groups if len(set(g) - used) > 1]
                if not left:
                    break
                g = sorted(set(draw(st.sampled_from(left))) - used)
                names = draw(st.permutations(g))[:draw(st.integers(2, min(3, len(g))))]
                used |= set(names)
                axes = []
                for _ in names:
                    axes.append([0.0, *sorted(draw(st.lists(
                        st.integers(1, 19).map(lambda i: i / 20), min_size=1, max_size=3,
                        unique=True))), 1.0])
                if draw(st.booleans()):
                    axes = [axes[0]] * len(names)
                inner = draw(st.lists(st.integers(0, 20).map(lambda i: i / 20), min_size=30,
                                      max_size=30))
                case['combos'].append([dv, list(names), axes, inner])
    return case


def table(axes, inner):
    """The combination table: its edges are its axes."""
    shape = tuple(map(len, axes))
    arr = np.empty(shape)
    src = itertools.cycle(inner)
    for idx in np.ndindex(shape):
        nz = [k for k, i in enumerate(idx) if i]
        if not nz:
            arr[idx] = 0.0
        elif len(nz) == 1:
            arr[idx] = axes[nz[0]][idx[nz[0]]]
        else:
            arr[idx] = next(src)
    return arr


def interpolate(axes, arr, x):
    """Multilinear interpolation at one point."""
    lo, w = [], []
    for a, v in zip(axes, x):
        i = min(max(int(np.searchsorted(a, v, side='right')) - 1, 0), len(a) - 2)
        lo.append(i)
        w.append((v - a[i]) / (a[i + 1] - a[i]))
    total = 0.0
    for corner in itertools.product((0, 1), repeat=len(axes)):
        f = 1.0
        for c, wi in zip(corner, w):
            f *= wi if c else 1 - wi
        if f:
            total += f * arr[tuple(i + c for i, c in zip(lo, corner))]
    return total


def build(case):
    asm = dmg.assessment({'Seed': case['seed'], **({} if case['config'] is None else {
        'ErrorSetup': {'Loss': {'ReplacementThreshold': {
            'RaiseOnUnknownKeys': case['config']['raise']}}}})})
    dmg.demands(asm, [('PID', '1', '1')], np.ones((case['n'], 1)))
    asm.loss.decision_variables = tuple(case['dvs'])
    asm.loss.dv_units = dict(case['units'])
    for model, levels, pick in ((asm.loss.ds_model, DS_LEVELS, False),
                                (asm.loss.lf_model, LF_LEVELS, True)):
        cols = [c for c in case['cols'] if (c[3] == '-') is pick]
        if not cols:
            continue
        labels = [tuple(c[:3] + c[4:7]) if pick else tuple(c[:7]) for c in cols]
        df = pd.DataFrame(np.column_stack([c[7] for c in cols]),
                          columns=pd.MultiIndex.from_tuples(labels, names=levels))
        model.sample = df.sort_index(axis=1) if case['order'] < 0.7 else df
    return asm


def reference(case, drawn):
    """Expected frame (column -> values) and exceedance of thresholds."""
    n, dvs = case['n'], case['dvs']
    base = {}
    for *k, v in case['cols']:
        base[tuple(k)] = np.array(v, dtype=float)
    rows = np.zeros(n, dtype=bool)
    for k, v in base.items():
        if k[1] == 'replacement':
            rows |= v > 0
    for k, v in base.items():
        if k[1] != 'replacement':
            v[rows] = 0.0
    cell = {}
    for (dv, loss, c, _, *place), v in base.items():
        k = (dv, loss, c, *place)
        cell[k] = cell.get(k, 0.0) + v
    combined = 0
    for dv, names, axes, inner in case['combos']:
        arr = table(axes, inner)
        ids = {k[2]: k[1] for k in cell}
        for place in {k[3:] for k in cell if k[0] == dv}:
            keys = [(dv, ids.get(c), c, *place) for c in names]
            if not all(k in cell for k in keys):
                continue
            pts = np.column_stack([cell.pop(k) for k in keys])
            cell[dv, 'combination', '+'.join(names), *place] = np.array(
                [interpolate(axes, arr, p) for p in pts])
            combined += int(np.any((pts > 0).sum(axis=1) > 1))
    exceed = None
    if case['config'] is not None:
        exceed = {dv: np.zeros(n, dtype=bool) for dv in dvs}
        for dv in dvs:
            ratio = case['config']['ratio'].get(dv)
            mine = {k: v for k, v in cell.items() if k[0] == dv}
            if ratio is None or not mine:
                continue
            total, already = np.zeros(n), np.zeros(n, dtype=bool)
            for k, v in mine.items():
                if k[1] == 'replacement':
                    already |= v > 0
                else:
                    total += v
            limit = drawn[dv] * ratio
            exceed[dv] = (total > limit) & ~already
            near = (np.abs(total - limit) < 1e-9 * (1 + np.abs(limit))) & (
                total != limit) & ~already
            if near.any():
                return None
        any_dv = np.any(np.array(list(exceed.values())), axis=0)
        for v in cell.values():
            v[any_dv] = 0.0
        for dv in dvs:
            cell[dv, 'replacement', 'threshold_exceedance', '0', '1', '0'] = np.where(
                any_dv, drawn[dv], 0.0)
    out = {}
    for dv in dvs:
        f = UNITS[dv][case['units'][dv]]
        mine = {k: v for k, v in cell.items() if k[0] == dv}
        if not mine:
            continue
        total = sum(mine.values())
        if dv != 'Time':
            out[f'repair_{dv.lower()}'] = total / f
            continue
        out['repair_time-sequential'] = total / f
        per = {}
        for k, v in mine.items():
            per[k[3]] = per.get(k[3], 0.0) + v
        out['repair_time-parallel'] = np.max(np.array(list(per.values())), axis=0) / f
    return out, exceed, rows, combined


def flat(df):
    out = {}
    for j, c in enumerate(df.columns):
        k = c if isinstance(c, str) else '-'.join(x for x in map(str, c) if x)
        require(k not in out, 'column %s is repeated', k)
        out[k] = df.iloc[:, j].to_numpy(dtype=float)
    return out


def run(case):
    from pelicun import uq

    asm = build(case)
    before = {m: None if s is None else s.copy()
              for m, s in ((m, getattr(asm.loss, m).sample) for m in ('ds_model',
                                                                      'lf_model'))}
    if case['seen']:
        _ = asm.loss.sample
    kwargs, cfg, reg = {}, case['config'], None
    bad = None
    if case['combos']:
        kwargs['loss_combination'] = {}
        for dv, names, axes, inner in case['combos']:
            kwargs['loss_combination'].setdefault(dv, {})[tuple(names)] = table(axes, inner)
    if cfg is not None:
        reg = uq.RandomVariableRegistry(asm.options.rng)
        skip = case['dvs'][0] if cfg['missing'] == 'rv' else None
        if cfg['extra'] == 'rv first':
            reg.add_RV(uq.rv_class_map('deterministic')(name='Other', theta=np.array([3.0])))
        for dv, (fam, x) in cfg['rv'].items():
            if dv != skip:
                theta = [x] if fam == 'deterministic' else [x, 0.6]
                reg.add_RV(uq.rv_class_map(fam)(name=dv, theta=np.array(theta)))
        ratio = dict(cfg['ratio'])
        if cfg['extra'] == 'rv':
            reg.add_RV(uq.rv_class_map('deterministic')(name='Other', theta=np.array([3.0])))
        elif cfg['extra'] == 'ratio':
            ratio['Other'] = 0.5
        elif cfg['extra'] == 'ratio first':
            ratio = {'Other': 0.5, **ratio}
        kwargs['replacement_configuration'] = (reg, ratio)
        if cfg['missing'] == 'rv' or (cfg['extra'] and cfg['raise']):
            bad = ValueError
        if cfg['missing'] == 'type':
            kwargs['replacement_configuration'] = (dict(cfg['rv']), ratio)
            bad = TypeError
    given = deepcopy(kwargs.get('loss_combination'))
    if not case['future']:
        kwargs['future'] = False
    else:
        kwargs['future'] = True
    try:
        got = asm.loss.aggregate_losses(**kwargs)
    except (ValueError, TypeError) as e:
        if bad is None or not isinstance(e, bad):
            raise
        return {'nontrivial': True, 'tags': ['refused']}
    require(bad is None, 'an invalid replacement configuration is accepted')
    # nothing is altered
    for m, s in before.items():
        now = getattr(asm.loss, m).sample
        require((now is None) == (s is None), '%s sample appears or disappears', m)
        if s is not None:
            require(list(now.columns) == list(s.columns)
                    and list(now.columns.names) == list(s.columns.names),
                    'labels of the %s sample change to %s', m, list(now.columns)[:3])
            require_same(now, s, f'{m} sample after aggregation')
    if given is not None:
        for dv, tabs in given.items():
            for k, a in tabs.items():
                require_same(kwargs['loss_combination'][dv][k], a, 'combination table')
    require(isinstance(got, tuple) == case['future'], 'result is a %s', type(got))
    agg, exc = got if case['future'] else (got, None)
    if not case['cols']:
        cols = [f'repair_{d.lower()}' for d in case['dvs'] if d != 'Time']
        if 'Time' in case['dvs']:
            cols += ['repair_time-sequential', 'repair_time-parallel']
        res = flat(agg)
        require(set(res) == set(cols), 'columns %s', sorted(res))
        require(all(np.all(v == 0) for v in res.values()), 'losses without losses')
        require(all(len(v) == case['n'] for v in res.values()),
                'losses of %s realizations instead of %s', len(agg), case['n'])
        return {'nontrivial': False, 'tags': ['no loss']}
    drawn = None if reg is None else {d: np.array(reg.RV[d].sample) for d in case['dvs']}
    ref = reference(case, drawn)
    if ref is None:
        return {'nontrivial': False, 'tags': ['on the threshold']}
    exp, exceed, rows, combined = ref
    if cfg is not None:
        for d, (fam, x) in cfg['rv'].items():
            require(len(drawn[d]) == case['n'] and (
                fam != 'deterministic' or np.all(drawn[d] == x)),
                'replacement consequences of %s', d)
    res = flat(agg)
    require(set(res) == set(exp), 'columns %s; missing %s', sorted(set(res) - set(exp)),
            sorted(set(exp) - set(res)))
    for k, v in exp.items():
        require_same(res[k], v, k, 1e-9, 1e-9)
    n_exc = 0
    if case['future']:
        require(len(exc) == case['n'], 'exceedance of %s realizations', len(exc))
        if exceed is None:
            require(not exc.to_numpy().any(), 'thresholds exceeded without thresholds')
        else:
            require(set(exc.columns) - {'Other'} == set(case['dvs']), 'exceedance of %s',
                    list(exc.columns))
            for d, v in exceed.items():
                require(exc[d].to_numpy().tolist() == v.tolist(),
                        'exceedance of %s: %s instead of %s', d, exc[d].to_numpy().tolist(),
                        v.tolist())
                n_exc += int(v.sum())
    if exceed is not None:
        n_exc = int(np.any(np.array(list(exceed.values())), axis=0).sum())
    return {'rows': int(rows.sum()), 'exceeded': n_exc, 'combined': combined,
            'places': len({c[4] for c in case['cols']}), 'terms': len(case['cols']),
            'n': case['n'], 'time': 'repair_time-parallel' in res}


def verdict(case, rule):
    r = run(case)
    if 'nontrivial' in r:
        return r
    ok, tags = rule(r)
    return {'nontrivial': ok, 'tags': tags}


__all__ = ['Violation', 'cases', 'run', 'verdict']
