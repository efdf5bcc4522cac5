"""C13: damaged quantities."""
from __future__ import annotations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt.core import Sub, require, require_same
from pbt.gen import logfl, maybe, seeds

RULE = ('A case counts when some performance group has two or more blocks or quantities '
        'that vary, and two or more damage states occur.')
ASSUMPTIONS = ['component names contain no dash']
QUICK_S = 40
NAMES = ['A', 'B.10.41', 'C3011.001a', 'D_4', 'EXT', 'collapse']


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    comps = {}
    for nm in names:
        m = draw(st.integers(1, 3))
        comps[nm] = {
            'unit': draw(st.sampled_from(['EA', 'ft2', 'ft', 'm2'])),
            'ls': [{'theta': [draw(logfl(-1.0, 0.5)), 0.6], 'family': 'lognormal',
                    'weights': draw(maybe(st.sampled_from(['0.4|0.6', '0.2|0.3|0.5']),
                                          0.3))} for _ in range(m)]}
    rows = []
    big = draw(st.integers(0, 9)) == 0
    for nm in names:
        for _ in range(draw(st.integers(4, 12) if big else st.integers(1, 3))):
            rows.append({'cmp': nm, 'loc': draw(st.integers(1, 12 if big else 3)),
                         'dir': draw(st.integers(0, 2)),
                         'q': draw(st.one_of(logfl(-1, 4), st.sampled_from([0, 1, 12]))),
                         'unit': comps[nm]['unit'],
                         'blocks': draw(st.sampled_from(
                             [1, 1, 2, 3, 5] + [11, 17] * big)),
                         'family': draw(st.sampled_from([None, 'lognormal', 'normal'])),
                         'theta1': 0.3})
    for r in rows:
        if r['q'] == 0:
            r['family'] = None
        if r['family'] is None:
            r['theta1'] = None
    n = draw(st.integers(2, 30))
    # parameters are missing for some components
    missing = [nm for nm in names[1:] if draw(st.integers(0, 5)) == 0]
    na = draw(maybe(st.tuples(st.sampled_from(names), st.integers(0, 2),
                              st.sampled_from([*names, 'ALL']), st.booleans()), 0.4))
    if na is not None and draw(st.integers(0, 4)) == 0:
        # every component may end up without a state
        na = (na[0], 0, 'ALL' if len(names) > 1 else na[0], na[3])
    return {'comps': comps, 'rows': rows, 'n': n, 'seed': draw(seeds()),
            'missing': missing, 'na': None if na is None else list(na),
            'blocks': draw(st.integers(0, 4)) > 0, 'list': draw(st.booleans()),
            'batch': draw(st.sampled_from([1, 2, 4, 1000])),
            'spread': draw(st.lists(logfl(-1, 1), min_size=n, max_size=n))}


def build(case):
    asm = dmg.assessment({'Seed': case['seed'], 'ListAllDamageStates': case['list']})
    cols = [('PID', str(a), str(b)) for a in range(1, 13) for b in (0, 1, 2)]
    dmg.demands(asm, cols, np.array([case['spread']] * len(cols)).T)
    rows = case['rows'] if case['blocks'] else [
        {**r, 'blocks': None} for r in case['rows']]
    dmg.components(asm, rows, case['n'])
    frags = [dmg.fragility(nm, limit_states=c['ls']) for nm, c in case['comps'].items()
             if nm not in case['missing']]
    # parameters of components that are not in the asset do not matter
    frags.insert(0, dmg.fragility('unused', limit_states=[{'theta': [1.0],
                                                            'family': None}]))
    asm.damage.load_model_parameters(
        [dmg.damage_table(frags)], set(asm.asset.list_unique_component_ids()))
    process = None
    if case['na']:
        src, ds, tgt, here = case['na']
        process = {f'1_{src}' + ('-LOC' if here else ''): {f'DS{ds}': f'{tgt}_NA'}}
    asm.damage.calculate(process, block_batch_size=case['batch'])
    return asm


def run_quantity(case):
    """Each block is a share of its group, in exactly one state (or none, as NA)."""
    asm = build(case)
    q = {tuple(map(str, c)): asm.asset.cmp_sample.iloc[:, i].to_numpy()
         for i, c in enumerate(asm.asset.cmp_sample.columns)}
    count = {}
    groups = {}
    for r in case['rows']:
        k = (r['cmp'], str(r['loc']), str(r['dir']))
        u = count.get(k, 0)
        count[k] = u + 1
        groups[(*k, str(u))] = r['blocks'] if case['blocks'] else 1
    require(set(groups) == set(q), 'groups %s instead of %s', sorted(q), sorted(groups))
    ds = dmg.ds_of(asm)
    want = {(*k, str(b + 1)) for k, m in groups.items() if k[0] not in case['missing']
            for b in range(m)}
    require(set(ds) == want, 'blocks %s instead of %s', sorted(ds), sorted(want))
    got = dmg.qty_of(asm)
    for k in got:
        require(k[:4] in groups and k[0] not in case['missing'], 'unexpected %s', k)
    for k, m in groups.items():
        if k[0] in case['missing']:
            continue
        states = np.array([ds[(*k, str(b + 1))] for b in range(m)])
        require(((states == -1).all(axis=0) == (states == -1).any(axis=0)).all(),
                '%s: only some of the blocks are not available', k)
        na = (states == -1).all(axis=0)
        mine = {kk[4]: v for kk, v in got.items() if kk[:4] == k}
        seen = {str(x) for x in set(states.ravel().tolist()) - {-1}}
        require(seen <= set(mine), '%s: states %s are not in %s', k, seen, set(mine))
        if not case['list']:
            require(seen == set(mine), '%s: states %s instead of %s', k, set(mine), seen)
        for s, v in mine.items():
            e = q[k] / m * (states == int(s)).sum(axis=0)
            if s in seen:
                e = np.where(na, np.nan, e)
                require_same(v, e, f'{k} in DS{s}', 1e-9)
            else:
                require_same(np.where(na, 0.0, v), e, f'{k} in DS{s}', 1e-9)
        if seen:
            total = np.array([mine[s] for s in seen]).sum(axis=0)
            require_same(total[~na], q[k][~na], f'{k}: quantity of all states', 1e-9)
    kinds = {int(x) for v in ds.values() for x in v}
    return {'nontrivial': len(kinds) > 1 and (
        any(m > 1 for m in groups.values()) or any(r['family'] for r in case['rows'])),
        'tags': ['na' if -1 in kinds else 'all', 'listed' if case['list'] else 'found']}


def run_stored(case):
    """A saved damage sample has user units and loads back the same."""
    case = {**case, 'na': None}
    asm = build(case)
    ref = asm.damage.ds_model.sample.copy()
    asm.damage.save_sample('dmg.csv')
    pd.testing.assert_frame_equal(asm.damage.ds_model.sample, ref)
    raw = pd.read_csv('dmg.csv', index_col=0, low_memory=False)
    require(raw.shape == (len(ref) + 1, ref.shape[1]), 'stored table: %s', raw.shape)
    mem, units = asm.damage.save_sample(save_units=True)
    only = asm.damage.save_sample()
    for c in ref.columns:
        u = case['comps'][c[0]]['unit']
        e = ref[c].to_numpy() / dmg.UNITS[u]
        col = raw['-'.join(map(str, c))]
        require(col.iloc[0] == u and units[c] == u, 'unit of %s: %s, %s', c, col.iloc[0],
                units[c])
        require_same(col.iloc[1:].astype(float).to_numpy(), e, f'{c} in the file', 1e-8)
        require_same(mem[c].to_numpy(), e, f'{c} in memory', 1e-8)
        require_same(only[c].to_numpy(), e, f'{c} in memory without units', 1e-8)
    other = dmg.assessment()
    other.damage.load_sample('dmg.csv')
    back = dmg.qty_of(other)
    mine = dmg.qty_of(asm)
    require(set(back) == set(mine), 'loaded columns %s', sorted(back))
    for k, v in mine.items():
        require_same(back[k], v, f'{k} after loading', 1e-9)
    require(list(other.damage.ds_model.sample.columns.names)
            == ['cmp', 'loc', 'dir', 'uid', 'ds'], 'level names')
    return {'nontrivial': len({k[4] for k in mine}) > 1}


SUBS = [
    Sub('quantity', cases(), run_quantity, 220, 4000),
    Sub('stored', cases(), run_stored, 80, 1500),
]
