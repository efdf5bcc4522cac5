"""C19: loss parameter tables, loss maps and missing consequences."""
from __future__ import annotations

import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun.pelicun_warnings import InconsistentUnitsError

from pbt import dmg
from pbt import losses as L
from pbt.core import Discard, Sub, Violation, require, require_same
from pbt.gen import seeds

RULE = ('A case counts when a consequence is defined more than once, is missing, comes '
        'from a default mapping, or the tables are refused.')
ASSUMPTIONS = [
    'the tables of one assessment define a consequence either for damage states or by a '
    'loss function',
]
QUICK_S = 40
COMPS = ['A', 'B.10.41', 'C3011.001a', 'D_4', 'excessiveRID', 'collapse']
CONS = [*COMPS, 'R1', 'R.2', 'replacement']
DVS = ['Carbon', 'Cost', 'Energy', 'Time']


@st.composite
def cases(draw):
    comps = draw(st.lists(st.sampled_from(COMPS), min_size=1, max_size=4, unique=True))
    dvs = draw(st.lists(st.sampled_from(DVS), min_size=1, max_size=3, unique=True))
    policy = draw(st.sampled_from([None, 'fill', 'fill_all', 'fill']))
    explicit = draw(st.one_of(st.none(), st.lists(
        st.sampled_from([*comps, 'NOT.THERE']), min_size=1, max_size=4, unique=True)))
    if policy is None and explicit is None:
        explicit = comps
    lmap = None
    if explicit is not None:
        lmap = [[c, draw(st.sampled_from([c, 'R1', 'R.2', 'replacement']))]
                for c in explicit]
    kind = {r: draw(st.sampled_from(['ds', 'ds', 'lf'])) for r in CONS}
    tables = []
    for t in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(['ds', 'ds', 'lf']))
        keys = draw(st.lists(st.tuples(
            st.sampled_from([r for r in CONS if kind[r] == k] or ['X9']),
            st.sampled_from(DVS)), min_size=1, max_size=6, unique=True))
        rows = []
        for r, d in keys:
            rows.append([r, d, draw(st.integers(0, 7)) == 0,
                         draw(st.sampled_from([1, 2, 2]))])
        tables.append({'kind': k, 'rows': rows, 'file': draw(st.booleans()),
                       'unit': {d: draw(st.sampled_from(sorted(L.DV_UNITS[d])))
                                for d in DVS},
                       'flags': draw(st.booleans())})
    return {'comps': comps, 'dvs': dvs, 'policy': policy, 'map': lmap, 'tables': tables,
            'map_file': draw(st.booleans()), 'old': draw(st.integers(0, 4)) == 0, 'seed': draw(seeds()),
            'bad': draw(st.integers(0, 11)) == 0,
            'at': [draw(st.integers(1, 3)) for _ in comps]}


def value(t, i, s):
    """A different constant for every table, row and damage state."""
    return float(100 * (t + 1) + 7 * i + s)


def run_tables(case):
    """Every loss comes from the first definition of the consequence that is mapped."""
    n = 3
    asm = dmg.assessment({'Seed': case['seed']})
    dmg.demands(asm, [('PGA', loc, 1) for loc in range(4)], np.ones((n, 4)))
    dmg.components(asm, [{'cmp': c, 'loc': loc, 'dir': 1, 'q': 2.0}
                         for c, loc in zip(case['comps'], case['at'])], n)
    head = pd.MultiIndex.from_tuples(
        [(c, str(loc), '1', '0', s) for c, loc in zip(case['comps'], case['at'])
         for s in '12'], names=['cmp', 'loc', 'dir', 'uid', 'ds'])
    asm.damage.ds_model.sample = pd.DataFrame(
        np.ones((n, len(head))), columns=head).sort_index(axis=1)
    asm.loss.decision_variables = tuple(case['dvs'])
    first, flags = {}, {}
    frames = []
    for t, tab in enumerate(case['tables']):
        rows, index = [], []
        for i, (r, d, inc, nds) in enumerate(tab['rows']):
            row = {'DV-Unit': tab['unit'][d]}
            if tab['flags']:
                row['Incomplete'] = int(inc)
            if tab['kind'] == 'ds':
                row['Quantity-Unit'] = '1 EA'
                for s in range(1, nds + 1):
                    row[f'DS{s}-Family'] = None
                    row[f'DS{s}-Theta_0'] = value(t, i, s)
            else:
                row.update({'Demand-Type': 'Peak Ground Acceleration',
                            'Demand-Unit': 'mps2', 'Demand-Offset': 0,
                            'Demand-Directional': 1})
                v = value(t, i, 0)
                row['LossFunction-Theta_0'] = f'{v},{v}|0.0,5.0'
            rows.append(row)
            index.append((r, d))
            if (r, d) not in first:
                first[r, d] = (t, i, nds, tab)
                flags[r, d] = tab['flags'] and inc
        frames.append(dmg.two_level(rows, pd.MultiIndex.from_tuples(index)))
    lmap = None
    if case['map'] is not None:
        # `BldgRepair` is an earlier name of the column
        lmap = pd.DataFrame({'BldgRepair' if case['old'] else 'Repair': [
            r for _, r in case['map']]},
                            index=[c for c, _ in case['map']])
    mapped = dict(case['map'] or [])
    for c in case['comps']:
        if c not in mapped and (case['policy'] == 'fill_all' or (
                case['policy'] == 'fill' and c != 'excessiveRID')):
            mapped[c] = c
    if not mapped:
        raise Discard
    bad = False
    if case['bad']:
        # one decision variable in two units within one table
        for tab, f in zip(case['tables'], frames):
            rows = [i for i, (r, d, *_) in enumerate(tab['rows']) if d == 'Time']
            if len(rows) > 1:
                f.loc[f.index[rows[0]], ('DV', 'Unit')] = 'worker_day'
                f.loc[f.index[rows[1]], ('DV', 'Unit')] = 'day'
                bad = True
    before = [f.copy() for f in frames]
    map_before = None if lmap is None else lmap.copy()
    with tempfile.TemporaryDirectory() as tmp:
        if lmap is not None and case['map_file'] and len(lmap):
            path = os.path.join(tmp, 'map.csv')
            lmap.to_csv(path)
            asm.loss.add_loss_map(path, case['policy'])
        else:
            asm.loss.add_loss_map(lmap, case['policy'])
        given = []
        for t, (tab, f) in enumerate(zip(case['tables'], frames)):
            if tab['file']:
                path = os.path.join(tmp, f't{t}.csv')
                g = f.copy()
                g.columns = ['-'.join(c) if c[1] else c[0] for c in g.columns]
                g.index = ['-'.join(i) for i in g.index]
                g.index.name = 'ID'
                g.to_csv(path)
                given.append(path)
            else:
                given.append(f)
        try:
            asm.loss.load_model_parameters(given)
        except InconsistentUnitsError:
            if not bad:
                raise
            return {'nontrivial': True, 'tags': ['refused']}
        if bad:
            raise Violation('two units of one decision variable in a table are accepted')
    for f, b in zip(frames, before):
        pd.testing.assert_frame_equal(f, b)
    if lmap is not None:
        pd.testing.assert_frame_equal(lmap, map_before)
    used = {k: v for k, v in first.items()
            if k[0] in mapped.values() and not flags[k]}
    missing = {(r, d) for r in mapped.values() for d in case['dvs'] if (r, d) not in used}
    require(set(asm.loss._missing) == missing, 'missing %s instead of %s',  # noqa: SLF001
            sorted(asm.loss._missing), sorted(missing))  # noqa: SLF001
    asm.loss.calculate()
    exp = {}
    for c, loc in zip(case['comps'], case['at']):
        r = mapped.get(c)
        for d in case['dvs']:
            if (r, d) not in used:
                continue
            t, i, nds, tab = used[r, d]
            f = L.DV_UNITS[d][tab['unit'][d]]
            if tab['kind'] == 'ds':
                for s in range(1, nds + 1):
                    exp[d, r, c, str(s), str(loc)] = value(t, i, s) * f
            else:
                exp[d, r, c, 'N/A', str(loc)] = value(t, i, 0) * f * 2.0
    s = asm.loss.sample
    if s is None or not s.shape[1]:
        require(not exp, 'no losses; missing %s', sorted(exp))
        return {'nontrivial': bool(missing), 'tags': ['none']}
    if 'ds' in s.columns.names:
        got = {(d, r, c, ds, loc): s.iloc[:, j].to_numpy(dtype=float)
               for j, (d, r, c, ds, loc, _, _) in enumerate(s.columns)}
    else:
        got = {(d, r, c, 'N/A', loc): s.iloc[:, j].to_numpy(dtype=float)
               for j, (d, r, c, loc, _, _) in enumerate(s.columns)}
    require(set(got) == set(exp), 'losses %s; missing %s', sorted(set(got) - set(exp)),
            sorted(set(exp) - set(got)))
    for k, v in exp.items():
        require_same(got[k], np.full(n, v), f'loss {k}', 1e-9)
    again = sum(len(t['rows']) for t in case['tables']) > len(first)
    return {'nontrivial': again or bool(missing) or case['policy'] is not None,
            'tags': [str(case['policy']), 'redefined' if again else 'single']}


SUBS = [Sub('tables', cases(), run_tables, 300, 5000)]
