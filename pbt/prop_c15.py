"""C15: damage parameter tables and capacity adjustments."""
from __future__ import annotations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import dmg
from pbt.core import Discard, Sub, Violation, require
from pbt.gen import logfl, maybe, seeds
from pbt.prop_c12 import states_of

RULE = ('A case counts when a capacity adjustment applies to some limit state, or a '
        'component is defined in two tables or has no parameters.')
ASSUMPTIONS = [
    'capacity adjustments by sums and differences are used with base units',
    'lists of adjustments have one entry for each realization',
]
QUICK_S = 40


@st.composite
def ops(draw):
    op = draw(st.sampled_from('*/*/+-'))
    return op + repr(draw(logfl(-0.3, 0.4, 3) if op in '*/' else logfl(-2, -0.5, 3)))


@st.composite
def cases(draw):
    m = draw(st.integers(1, 3))
    cs = []
    for i in range(m):
        n_ls = draw(st.integers(1, 3))
        ls = []
        for j in range(n_ls):
            fam = draw(st.sampled_from(['lognormal', 'normal', 'deterministic', None,
                                        'normal_std', 'uniform']))
            th = [draw(logfl(-0.3, 0.3))]
            if fam in {'lognormal', 'normal', 'normal_std'}:
                th.append(draw(logfl(-1, -0.2)))
            elif fam == 'uniform':
                th.append(th[0] * 2)
            ls.append({'id': j + 1, 'family': fam, 'theta': th, 'w': draw(maybe(
                st.sampled_from([[0.5, 0.5], [0.2, 0.3, 0.5]]), 0.25))})
        places = draw(st.lists(st.tuples(st.integers(1, 2), st.integers(1, 2)),
                               min_size=1, max_size=3))
        if draw(st.integers(0, 2)) == 0:
            # another performance group of the same component at the same place
            places.append(draw(st.sampled_from(places)))
        cs.append({'ls': ls, 'places': [list(p) for p in places],
                   'blocks': draw(st.sampled_from([1, 2]))})
    n = draw(st.integers(2, 12))
    spec = []
    for i, c in enumerate(cs):
        for p in dict.fromkeys(map(tuple, c['places'])):
            if draw(st.integers(0, 3)) == 0:
                continue
            if draw(st.booleans()):
                keys = ['ALL']
            else:
                keys = [f'LS{k}' for k in draw(st.lists(
                    st.integers(1, len(c['ls']) + 1), min_size=1, max_size=3,
                    unique=True))]
            vals = []
            for _ in keys:
                vals.append(draw(st.one_of(ops(), ops(), st.lists(
                    ops(), min_size=n, max_size=n), st.lists(ops(), min_size=1,
                                                             max_size=1))))
            spec.append([[i, *p], [list(x) for x in zip(keys, vals)]])
    if draw(st.integers(0, 4)) == 0:
        spec.append([[9, 1, 1], [['ALL', '*2.0']]])
    return {'comps': cs, 'n': n, 'spec': spec, 'seed': draw(seeds()),
            'batch': draw(st.sampled_from([1, 2, 1000, 1000])),
            'd': draw(st.lists(logfl(-0.3, 0.5), min_size=n, max_size=n))}


def build(case, thetas):
    """thetas: (component, limit state index, loc, dir) -> list of parameters.

    Every performance group is a component of its own so that it can have its own
    parameters; `thetas` of None means the table itself."""
    asm = dmg.assessment({'Seed': case['seed']})
    cols = [('PID', str(a), str(b)) for a in (1, 2) for b in (1, 2)]
    dmg.demands(asm, cols, np.array([case['d']] * len(cols)).T)
    rows, frags = [], []
    for i, c in enumerate(case['comps']):
        for loc, d in c['places']:
            nm = f'C{i}{"" if thetas is None else f"_{loc}_{d}"}'
            rows.append({'cmp': nm, 'loc': loc, 'dir': d, 'q': 1.0,
                         'blocks': c['blocks']})
            if thetas is None and any(f[0] == nm for f in frags):
                continue
            frags.append(dmg.fragility(nm, limit_states=[
                {'id': s['id'], 'family': s['family'],
                 'theta': s['theta'] if thetas is None else thetas[i, j, loc, d],
                 'weights': '|'.join(map(str, s['w'])) if s['w'] else None}
                for j, s in enumerate(c['ls'])]))
    dmg.components(asm, rows, case['n'])
    asm.damage.load_model_parameters(
        [dmg.damage_table(frags)], set(asm.asset.list_unique_component_ids()))
    return asm


def op_of(case, i, loc, d, s, r):
    """The adjustment of a limit state in a realization."""
    for (ci, cl, cd), entries in case['spec']:
        if [ci, cl, cd] != [i, loc, d]:
            continue
        for k, v in entries:
            if k in {'ALL', f'LS{s["id"]}'}:
                if isinstance(v, list):
                    return v[r] if len(v) > 1 else v[0]
                return v
    return None


def adjust(x, op):
    if op is None:
        return x
    v = float(op[1:])
    return {'*': x * v, '/': x / v, '+': x + v, '-': x - v}[op[0]]


def spec_of(case):
    return {f'{"C" + str(a[0])}-{a[1]}-{a[2]}': {k: v for k, v in e}
            for a, e in case['spec']}


def run_scaling(case):
    """An adjusted capacity is a capacity with the adjusted median."""
    n = case['n']
    spec = spec_of(case)
    keep = repr(spec)
    asm = build(case, None)
    asm.damage.calculate(block_batch_size=case['batch'], scaling_specification=spec)
    require(repr(spec) == keep, 'the specification is changed')
    got = dmg.ds_of(asm)
    # one run with the right medians for each realization that has its own
    varies = any(isinstance(v, list) and len(v) > 1 for _, e in case['spec']
                 for _, v in e)
    applied = False
    for r in range(n) if varies else [0]:
        thetas = {}
        for i, c in enumerate(case['comps']):
            for loc, d in c['places']:
                for j, s in enumerate(c['ls']):
                    th = list(s['theta'])
                    op = op_of(case, i, loc, d, s, r)
                    if op and s['family'] in {None, 'deterministic', 'normal', 'lognormal'}:
                        th[0] = adjust(th[0], op)
                        applied = True
                        if th[0] <= 1e-3:
                            raise Discard
                    thetas[i, j, loc, d] = th
        ref = build(case, thetas)
        ref.damage.calculate(block_batch_size=case['batch'])
        exp = {(k[0].split('_')[0], *k[1:]): v for k, v in dmg.ds_of(ref).items()}
        require(set(exp) == set(got), 'blocks %s', sorted(got))
        for k, v in got.items():
            a = v[r:r + 1] if varies else v
            b = exp[k][r:r + 1] if varies else exp[k]
            require(a.tolist() == b.tolist(), '%s is in %s instead of %s (realization '
                    '%s) with %s', k, a.tolist(), b.tolist(), r if varies else 'all',
                    spec)
    return {'nontrivial': applied, 'tags': ['lists' if varies else 'scalars']}


@st.composite
def bad(draw):
    return {'spec': draw(st.sampled_from([
        {'ALL': '*1.2', 'LS1': '*1.1'}, {'LS1': '^2'}, {'LS1': '*x'}, {'LS1': 1.2},
        {'DS1': '*1.2'}, {'1': '*1.2'}, {'LS1': ['*1.2', 3]}, {'ALL': '1.2'},
        {'LS1': '*'}, {'LS2': ['*1.2', '%2']}])), 'case': draw(cases())}


def run_bad(case):
    """Adjustments that cannot be understood are refused."""
    asm = build(case['case'], None)
    loc, d = case['case']['comps'][0]['places'][0]
    try:
        asm.damage.calculate(scaling_specification={f'C0-{loc}-{d}': case['spec']})
    except (ValueError, TypeError):
        return {}
    raise Violation(f'{case["spec"]} is accepted')


NAMES = ['A', 'B.10.41', 'C3011.001a', 'D_4', 'EXT']


@st.composite
def tables(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    out = []
    for _ in range(draw(st.integers(1, 3))):
        rows = []
        for nm in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5)):
            k = draw(st.integers(1, 3))
            ls = []
            for j in range(k):
                ls.append({'family': draw(st.sampled_from([None, 'deterministic'])),
                           'theta': [draw(st.integers(1, 9))],
                           'w': None, 'id': j + 1})
            rows.append({'name': nm, 'unit': draw(st.sampled_from(['g', 'mps2', 'inchps2'])),
                         'ls': ls, 'incomplete': int(draw(st.integers(0, 5)) == 0),
                         'offset': draw(st.integers(0, 1)),
                         'directional': draw(st.integers(0, 1))})
        # repeated rows within one table are allowed only now and then
        if draw(st.integers(0, 3)):
            rows = list({r['name']: r for r in rows}.values())
        out.append(rows)
    return {'names': names, 'tables': out, 'file': draw(st.booleans()),
            'seed': draw(seeds()), 'n': draw(st.integers(2, 8)),
            'warn': draw(st.booleans()),
            'extra': draw(st.booleans())}


def run_tables(case):
    """The first definition of a component counts; incomplete ones do not."""
    first = {}
    for rows in case['tables']:
        for r in rows:
            first.setdefault(r['name'], r)
    have = {nm: first[nm] for nm in case['names']
            if nm in first and not first[nm]['incomplete']}
    rng = np.random.default_rng(case['seed'])
    cols = [('PFA', str(a), str(b)) for a in (0, 1, 2) for b in (1, 2)]
    vals = rng.uniform(0, 10, (case['n'], len(cols)))
    asm = dmg.assessment({'Seed': case['seed']})
    dmg.demands(asm, cols, vals, ['g'] * len(cols))
    dmg.components(asm, [{'cmp': nm, 'loc': 1, 'dir': 1, 'q': 1.0}
                         for nm in case['names']], case['n'])
    args = []
    for i, rows in enumerate(case['tables']):
        frags = []
        for r in rows:
            frags.append(dmg.fragility(
                r['name'], demand='Peak Floor Acceleration', unit=r['unit'],
                offset=r['offset'], directional=r['directional'], limit_states=r['ls'],
                Incomplete=r['incomplete']))
        tab = dmg.damage_table(frags)
        if case['file']:
            flat = tab.copy()
            flat.columns = [f'{a}-{b}' if b else a for a, b in flat.columns]
            flat.index.name = 'ID'
            flat.to_csv(f'tab{i}.csv')
            args.append(f'tab{i}.csv')
        else:
            args.append(tab)
    before = [a.copy() for a in args if not isinstance(a, str)]
    given = list(args)
    cmp_set = set(asm.asset.list_unique_component_ids())
    asm.damage.load_model_parameters(args, cmp_set, warn_missing=case['warn'])
    require(len(given) == len(args) and all(a is b for a, b in zip(given, args)),
            'the list of tables is changed')
    for a, b in zip([a for a in args if not isinstance(a, str)], before):
        pd.testing.assert_frame_equal(a, b)
    require(sorted(asm.damage.missing_components)
            == sorted(set(case['names']) - set(have)), 'missing components %s instead '
            'of %s', asm.damage.missing_components, sorted(set(case['names']) - set(have)))
    params = asm.damage.ds_model.damage_params
    require(sorted(params.index) == sorted(have), 'parameters of %s instead of %s',
            sorted(params.index), sorted(have))
    if not have:
        return {'nontrivial': False, 'tags': ['nothing']}
    asm.damage.calculate()
    got = dmg.ds_of(asm)
    require({k[0] for k in got} == set(have), 'damage of %s instead of %s',
            sorted({k[0] for k in got}), sorted(have))
    f = dmg.UNITS
    for nm, r in have.items():
        at = str(1 - 1 + r['offset'])
        if r['directional']:
            v = vals[:, cols.index(('PFA', at, '1'))]
        else:
            v = 1.2 * vals[:, [cols.index(('PFA', at, d)) for d in '12']].max(axis=1)
        v = v * f['g']
        caps = [s['theta'][0] * f[r['unit']] for s in r['ls']]
        ids = states_of({'ls': r['ls']})
        exp = [max([0, *[ids[j][0] for j, c in enumerate(caps) if c < x]]) for x in v]
        g = got[nm, '1', '1', '0', '1'].tolist()
        near = [any(abs(c - x) < 1e-4 * x for c in caps) for x in v]
        require(all(a == b or w for a, b, w in zip(g, exp, near)),
                '%s is in %s instead of %s', nm, g, exp)
    twice = any(sum(r['name'] == nm for t in case['tables'] for r in t) > 1
                for nm in case['names'])
    return {'nontrivial': twice or len(have) < len(case['names']),
            'tags': ['file' if case['file'] else 'frame']}


SUBS = [
    Sub('scaling', cases(), run_scaling, 220, 3000),
    Sub('bad', bad(), run_bad, 30, 250),
    Sub('tables', tables(), run_tables, 220, 4000),
]
