"""C14: damage processes."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from pbt import dmg
from pbt.core import Discard, Sub, Violation, require
from pbt.gen import seeds

RULE = 'A case counts when the process changes the state of a block in some realization.'
ASSUMPTIONS = ['component names contain no dash', 'some block stays available']
QUICK_S = 40
NAMES = ['A', 'B.10.41', 'C3011.001a', 'collapse', 'excessiveRID', 'my_cmp']


@st.composite
def targets(draw, names):
    t = draw(st.sampled_from([*names, *names, 'ALL', 'absent']))
    ev = draw(st.sampled_from(['NA', 'DS0', 'DS1', 'DS2', 'DS1']))
    return f'{t}_{ev}'


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    rows = []
    floors = draw(st.sampled_from([(1, 2, 3), (1, 10, 11), (2, 12, 21), (0, 1, 10)]))
    for nm in names:
        for loc, d in draw(st.lists(st.tuples(st.sampled_from(floors), st.integers(1, 2)),
                                    min_size=1, max_size=3, unique=True)):
            rows.append({'cmp': nm, 'loc': loc, 'dir': d, 'q': 2.0,
                         'blocks': draw(st.sampled_from([1, 1, 2]))})
    tasks = []
    for _ in range(draw(st.integers(1, 5))):
        src = draw(st.sampled_from([*names, *names, *names, 'absent']))
        events = []
        for ds in draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)):
            t = [draw(targets(names)) for _ in range(draw(st.integers(1, 3)))]
            events.append([f'DS{ds}', t[0] if len(t) == 1 and draw(st.booleans()) else t])
        tasks.append([src, draw(st.booleans()), events])
    num = draw(st.lists(st.integers(1, 14), min_size=len(tasks), max_size=len(tasks),
                        unique=True))
    return {'names': names, 'rows': rows, 'tasks': tasks, 'num': num,
            'n': draw(st.integers(1, 12)), 'seed': draw(seeds()),
            'batch': draw(st.sampled_from([1, 1000]))}


def build(case):
    asm = dmg.assessment({'Seed': case['seed']})
    cols = [('PID', str(a), str(b)) for a in sorted({r['loc'] for r in case['rows']})
            for b in (1, 2)]
    dmg.demands(asm, cols, np.ones((case['n'], len(cols))))
    dmg.components(asm, case['rows'], case['n'])
    frags = [dmg.fragility(nm, limit_states=[
        {'family': 'lognormal', 'theta': [0.7, 0.7]},
        {'family': 'lognormal', 'theta': [1.1, 0.7], 'weights': '0.5|0.5'}])
        for nm in case['names']]
    asm.damage.load_model_parameters(
        [dmg.damage_table(frags)], set(asm.asset.list_unique_component_ids()))
    return asm


def process_of(case):
    return {f'{k}_{src}' + ('-LOC' if here else ''): {e: t for e, t in events}
            for k, (src, here, events) in zip(case['num'], case['tasks'])}


def reference(case, ds):
    """The stated rules, one realization at a time."""
    ds = {k: v.astype(int).tolist() for k, v in ds.items()}
    names = {k[0] for k in ds}
    order = sorted(range(len(case['tasks'])), key=lambda i: case['num'][i])
    for i in order:
        src, here, events = case['tasks'][i]
        if src not in names:
            continue
        for event, infos in events:
            for info in infos if isinstance(infos, list) else [infos]:
                tgt, what = info.rsplit('_', 1)
                if tgt != 'ALL' and tgt not in names:
                    continue
                new = -1 if what == 'NA' else int(what[2:])
                for r in range(case['n']):
                    places = sorted({k[1] for k in ds if k[0] == src}) if here else [None]
                    for p in places:
                        top = max(v[r] for k, v in ds.items()
                                  if k[0] == src and p in {None, k[1]})
                        if top != int(event[2:]):
                            continue
                        for k in ds:
                            if (k[0] != src if tgt == 'ALL' else k[0] == tgt) and (
                                    p in {None, k[1]}):
                                ds[k][r] = new
    return ds


def run_process(case):
    """Tasks run in the order of their numbers and change what they say, nothing else."""
    plain = build(case)
    plain.damage.calculate(block_batch_size=case['batch'])
    before = dmg.ds_of(plain)
    exp = reference(case, before)
    if all(x == -1 for v in exp.values() for x in v):
        raise Discard
    asm = build(case)
    process = process_of(case)
    keys = list(process)
    asm.damage.calculate(process, block_batch_size=case['batch'])
    require(list(process) == keys, 'the process is changed')
    got = dmg.ds_of(asm)
    require(set(got) == set(exp), 'blocks %s', sorted(got))
    for k, v in got.items():
        require(v.tolist() == exp[k], '%s is in %s instead of %s (without processes %s)',
                k, v.tolist(), exp[k], before[k].tolist())
    changed = any(before[k].tolist() != exp[k] for k in exp)
    return {'nontrivial': changed, 'tags': [
        'here' if any(t[1] for t in case['tasks']) else 'everywhere',
        'ten' if max(case['num']) > 9 and len(case['num']) > 1 else 'few']}


@st.composite
def bad(draw):
    case = draw(cases())
    case['what'] = draw(st.sampled_from(['source', 'target']))
    case['text'] = draw(st.sampled_from(['LS1', 'X', 'none', 'ds1']))
    return case


def run_bad(case):
    """Events that cannot be understood are refused."""
    asm = build(case)
    nm = case['names'][0]
    if case['what'] == 'source':
        p = {f'1_{nm}': {case['text']: f'{nm}_DS1'}}
    else:
        p = {f'1_{nm}': {'DS1': f'{nm}_{case["text"]}'}}
    try:
        asm.damage.calculate(p)
    except ValueError:
        return {}
    raise Violation(f'{p} is accepted')


SUBS = [
    Sub('process', cases(), run_process, 200, 4000),
    Sub('bad', bad(), run_bad, 24, 200),
]
