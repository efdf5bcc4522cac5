"""C31: default libraries are used exactly as their files."""
from __future__ import annotations

import copy
import json
import os
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun import file_io
from pelicun.assessment import DLCalculationAssessment

from pbt import dmg
from pbt.core import Discard, Sub, Violation, require, require_same
from pbt.gen import seeds
from pbt.regional import Library, flat

RULE = ('A case counts when at least two sources define the parameters of one component '
        'differently, or a reference is refused.')
ASSUMPTIONS = ['the library has the layout of its releases: one folder per method',
               'cost is in one unit']
QUICK_S = 40
METHODS = {
    'FEMA P-58': 'seismic/building/component/FEMA P-58 2nd Edition/',
    'Hazus Earthquake - Buildings': 'seismic/building/portfolio/Hazus v6.1/',
    'Hazus Earthquake - Stories': 'seismic/building/subassembly/Hazus v5.1/',
    'Hazus Earthquake - Transportation':
        'seismic/transportation_network/portfolio/Hazus v5.1/',
    'Hazus Earthquake - Potable Water': 'seismic/water_network/portfolio/Hazus v6.1/',
    'Hazus Earthquake - Electric Power': 'seismic/power_network/portfolio/Hazus v5.1/',
    'Hazus Hurricane': 'hurricane/building/portfolio/Hazus v5.1 coupled/',
    'Hazus Hurricane Wind': 'hurricane/building/portfolio/Hazus v5.1 coupled/',
    'Hazus Hurricane Wind - Buildings': 'hurricane/building/portfolio/Hazus v5.1 coupled/',
    'Hazus Hurricane Wind - Buildings - Coupled':
        'hurricane/building/portfolio/Hazus v5.1 coupled/',
    'Hazus Hurricane Wind - Buildings - Original':
        'hurricane/building/portfolio/Hazus v5.1 original/',
    'Hazus Hurricane Storm Surge - Buildings': 'flood/building/portfolio/Hazus v6.1/',
    'SimCenter Wind Component Library':
        'hurricane/building/component/SimCenter Wind Component Library/',
}
FOLDERS = sorted(set(METHODS.values()))
P58 = METHODS['FEMA P-58']
# earlier names of the files of the library
LEGACY = {
    'damage_DB_FEMA_P58_2nd': 'FEMA P-58',
    'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
    'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
    'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
    'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
    'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
    'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
    'loss_repair_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
    'loss_repair_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
    'loss_repair_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
}
KINDS = ('fragility', 'consequence_repair', 'loss_repair')
STATES = ['A', 'B.10.41', 'C3011.001a']     # consequences of damage states
FUNCS = ['F1', 'F.2']                       # consequences by loss functions
N = 6


@st.composite
def tables(draw, always=False):
    """The components in each file of one source."""
    out = {}
    for kind in KINDS:
        if not always and draw(st.integers(0, 4)) == 0:
            continue
        names = FUNCS if kind == 'loss_repair' else STATES
        if kind == 'fragility':
            names = STATES + FUNCS
        out[kind] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=len(names),
                                  unique=True))
    return out


@st.composite
def libraries(draw):
    n = draw(st.integers(1, 4))
    methods = draw(st.lists(st.sampled_from(sorted(METHODS)), min_size=n, max_size=n,
                            unique=True))
    lib = {METHODS[m]: draw(tables()) for m in methods}
    lib.setdefault(P58, {})
    lib[P58].setdefault('fragility', ['unused'])
    return methods, lib


def kind_of_legacy(name):
    return 'fragility' if name.startswith('damage') else 'consequence_repair'


def value(folders, where, kind, name):
    """A different number for every source, kind and component, in m/s2 or USD."""
    i = folders.index(where) if where in folders else len(folders) + int(where)
    j = (STATES + FUNCS + ['unused']).index(name)
    v = 1 + ((7 * i + 3 * j) % 5) if kind == 'fragility' else 10.0 * i + j + 1
    return float(v)


def frame(folders, where, kind, names):
    if kind == 'fragility':
        return dmg.damage_table([dmg.fragility(
            nm, demand='Peak Ground Acceleration', unit='mps2', offset=0, directional=1,
            limit_states=[{'family': None, 'theta': [value(folders, where, kind, nm) - 0.5]}])
            for nm in names])
    rows = []
    for nm in names:
        v = value(folders, where, kind, nm)
        row = {'Incomplete': 0, 'DV-Unit': 'USD_2011'}
        if kind == 'consequence_repair':
            row.update({'Quantity-Unit': '1 EA', 'DS1-Family': None, 'DS1-Theta_0': v,
                        'DS1-Theta_1': None})
        else:
            row.update({'Demand-Type': 'Peak Ground Acceleration', 'Demand-Unit': 'mps2',
                        'Demand-Offset': 0, 'Demand-Directional': 1,
                        'LossFunction-Theta_0': f'{v},{v}|0.0,100.0'})
        rows.append(row)
    return dmg.two_level(rows, pd.MultiIndex.from_tuples([(nm, 'Cost') for nm in names]))


def store(tab, path):
    path.parent.mkdir(parents=True, exist_ok=True)
    tab = tab.copy()
    if tab.index.nlevels > 1:
        tab.index = ['-'.join(i) for i in tab.index]
    flat(tab, path)


def write_library(lib, content):
    root = lib.root / 'resources/DamageAndLossModelLibrary'
    for folder, files in content.items():
        for kind, names in files.items():
            store(frame(FOLDERS, folder, kind, names), root / folder / f'{kind}.csv')
            (root / folder / f'{kind}.json').write_text(json.dumps(
                {nm: {'Description': f'{kind} of {nm} in {folder}: µ'} for nm in names},
                ensure_ascii=False), encoding='utf-8')
    return root


def quiet_assessment(**config):
    return DLCalculationAssessment({'Verbose': False, **config})


# ---- single references ---------------------------------------------------------------


@st.composite
def references(draw):
    methods, lib = draw(libraries())
    refs = []
    for _ in range(draw(st.integers(1, 6))):
        what = draw(st.sampled_from(['default', 'default', 'legacy', 'path', 'frame', 'bad']))
        if what == 'default':
            refs.append([what, draw(st.sampled_from(methods)), draw(st.sampled_from(KINDS)),
                         draw(st.sampled_from(['csv', 'json']))])
        elif what == 'legacy':
            near = [k for k, m in LEGACY.items() if m in methods]
            refs.append([what, draw(st.sampled_from(near or sorted(LEGACY))), None,
                         draw(st.sampled_from(['csv', 'json']))])
        elif what == 'path':
            refs.append([what, draw(st.sampled_from(
                ['a.csv', '/x/y/fragility.csv', 'Default/FEMA P-58/fragility.csv',
                 'FEMA P-58/fragility.csv']))])
        elif what == 'frame':
            refs.append([what])
        elif draw(st.booleans()):
            refs.append([what, draw(st.sampled_from(
                ['No Method/fragility.csv', 'fragility.csv', 'damage_DB_other.csv',
                 'FEMA P58/fragility.csv', 'loss_repair_DB_none.csv', 'data.json']))])
    return {'lib': lib, 'refs': refs, 'extra': draw(st.sampled_from(
        [None, 'combine_wind_flood.csv', 'readme.txt']))}


def run_references(case):
    """Every reference is the file of its method; other entries stay as they are."""
    with Library() as lib:
        root = write_library(lib, case['lib'])
        asm = quiet_assessment()
        some = pd.DataFrame({'a': [1.0]})
        given, expected, refused = [], [], False
        for r in case['refs']:
            if r[0] == 'default':
                given.append(f'PelicunDefault/{r[1]}/{r[2]}.{r[3]}')
                expected.append(root / METHODS[r[1]] / f'{r[2]}.{r[3]}')
            elif r[0] == 'legacy':
                given.append(f'PelicunDefault/{r[1]}.{r[3]}')
                expected.append(root / METHODS[LEGACY[r[1]]] /
                                f'{kind_of_legacy(r[1])}.{r[3]}')
            elif r[0] == 'frame':
                given.append(some)
                expected.append(some)
            elif r[0] == 'path':
                given.append(r[1])
                expected.append(r[1])
            else:
                given.append('PelicunDefault/' + r[1])
                refused = True
        if case['extra']:
            # files of other kinds in the folder of a method
            m = sorted(METHODS)[len(case['refs'])]
            given.append(f'PelicunDefault/{m}/{case["extra"]}')
            expected.append(root / METHODS[m] / case['extra'])
        before = list(given)
        try:
            got = file_io.substitute_default_path(given, log=asm.log)
        except KeyError:
            require(refused, 'references are refused: %s', case['refs'])
            return {'nontrivial': True, 'tags': ['refused']}
        require(not refused, 'an unknown method or file is accepted: %s', case['refs'])
        require(len(given) == len(before) and all(x is y for x, y in zip(given, before)),
                'the list of the caller is changed')
        require(len(got) == len(expected), '%d paths for %d', len(got), len(expected))
        for x, y in zip(got, expected):
            if isinstance(y, Path):
                require(os.path.normpath(str(x)) == os.path.normpath(str(y)),
                        'path %s instead of %s', x, y)
            else:
                require(x is y or x == y, 'entry %s instead of %s', x, y)
        read = 0
        for r in case['refs']:
            if r[0] not in {'default', 'legacy'}:
                continue
            m = r[1] if r[0] == 'default' else LEGACY[r[1]]
            kind = r[2] if r[0] == 'default' else kind_of_legacy(r[1])
            args = (m, kind) if r[0] == 'default' else (r[1],)
            names = case['lib'].get(METHODS[m], {}).get(kind)
            if names is None:
                for f in (asm.get_default_data, asm.get_default_metadata):
                    try:
                        f(*args)
                    except FileNotFoundError:
                        continue
                    raise Violation(f'a file that is not there is read: {args}')
                continue
            read += 1
            tab = asm.get_default_data(*args)
            exp = frame(FOLDERS, METHODS[m], kind, names)
            require(sorted(map(tuple, tab.columns)) == sorted(map(tuple, exp.columns)),
                    'columns of %s: %s', args, list(tab.columns))
            require(sorted(tab.index) == sorted(exp.index), 'rows of %s: %s', args,
                    list(tab.index))
            for i in exp.index:
                for j in exp.columns:
                    x, y = tab.loc[[i], [j]].iloc[0, 0], exp.loc[[i], [j]].iloc[0, 0]
                    require(x == y or (pd.isna(x) and pd.isna(y)),
                            'value %r of %s instead of %r', x, args, y)
            meta = asm.get_default_metadata(*args)
            require(meta == {nm: {'Description': f'{kind} of {nm} in {METHODS[m]}: µ'}
                             for nm in names}, 'metadata of %s: %s', args, meta)
        return {'nontrivial': read > 1, 'tags': sorted({r[0] for r in case['refs']})}


# ---- lists of sources ----------------------------------------------------------------


def set_up(asm, case):
    n = N
    asm.stories = 3
    comps = [*STATES, *FUNCS]
    locs = list(range(1, len(comps) + 1))
    dem = np.tile(np.arange(n)[:, None], (1, len(comps))).astype(float)
    dmg.demands(asm, [('PGA', loc, 1) for loc in locs] + (
        [('PGV', 1, 1)] if case.get('water') else []),
        np.hstack([dem, np.zeros((n, 1))]) if case.get('water') else dem,
        ['mps2'] * len(comps) + (['mps'] if case.get('water') else []))
    rows = [{'cmp': c, 'loc': loc, 'dir': 1, 'q': 2.0} for c, loc in zip(comps, locs)
            if c in case['comps']]
    if case.get('water'):
        rows.append({'cmp': 'aggregate', 'loc': 1, 'dir': 1, 'q': 1.0})
    dmg.components(asm, rows, n)


def winner(sources, kind, name):
    """The first source that has the component; how many have it differently."""
    having = [s for s in sources if name in s[1].get(kind, ())]
    return having[0][0] if having else None, len({s[0] for s in having}) > 1


def check_states(asm, case, sources):
    """Damage by the first source of every component."""
    got = dmg.ds_of(asm)
    several = False
    seen = set()
    where = dict(zip([*STATES, *FUNCS], range(1, 9)))
    for c in case['comps']:
        w, more = winner(sources, 'fragility', c)
        several |= more
        keys = [k for k in got if k[0] == c]
        if w is None:
            require(not keys, 'damage of %s without parameters', c)
            continue
        require(len(keys) == 1 and keys[0][1] == str(where[c]), 'damage of %s at %s', c, keys)
        seen.add(keys[0])
        cap = value(FOLDERS, w, 'fragility', c) - 0.5
        require_same(got[keys[0]], np.arange(N) >= cap, f'damage states of {c}')
    return several


def check_losses(asm, case, sources, *, damaged):
    sample = asm.loss.sample
    exp = {}
    several = False
    for c in case['comps']:
        kind = 'loss_repair' if c in FUNCS else 'consequence_repair'
        w, more = winner(sources, kind, c)
        several |= more
        if w is None:
            continue
        v = 2.0 * value(FOLDERS, w, kind, c)
        if c in FUNCS:
            exp[c] = np.full(N, v)
        elif c in damaged:
            exp[c] = v * damaged[c]
    got = {}
    if sample is not None:
        for j, col in enumerate(sample.columns):
            key = dict(zip(sample.columns.names, col))
            got[key['dmg']] = got.get(key['dmg'], 0.0) + np.nan_to_num(
                sample.iloc[:, j].to_numpy(dtype=float))
    exp = {k: v for k, v in exp.items() if np.any(v) or k in got}
    require(set(got) == set(exp), 'losses of %s instead of %s', sorted(got), sorted(exp))
    for k, v in exp.items():
        require_same(got[k], v, f'losses of {k}')
    return several


def damaged_of(case, sources):
    out = {}
    for c in case['comps']:
        w, _ = winner(sources, 'fragility', c)
        if w is not None:
            out[c] = (np.arange(N) >= value(FOLDERS, w, 'fragility', c) - 0.5).astype(float)
    return out


@st.composite
def lists(draw):
    methods, lib = draw(libraries())
    users = [draw(tables(always=True)) for _ in range(draw(st.integers(0, 2)))]
    # a source is listed once for every kind of file it has
    refs = [['user', i, draw(st.booleans())] for i in range(len(users))]
    for m in methods:
        old = [k for k, x in LEGACY.items() if x == m]
        refs.append(['default', m, bool(old) and draw(st.integers(0, 2)) == 0])
    refs = draw(st.permutations(refs))
    return {'lib': lib, 'users': users, 'refs': [list(r) for r in refs],
            'comps': sorted(draw(st.sets(st.sampled_from(STATES + FUNCS), min_size=2,
                                         max_size=5))),
            'seed': draw(seeds())}


def run_lists(case):
    """Lists of references give the parameters of the first source that has them."""
    with Library() as lib:
        root = write_library(lib, case['lib'])
        asm = quiet_assessment(Seed=case['seed'])
        set_up(asm, case)
        given = {k: [] for k in KINDS}
        sources = []
        for r in case['refs']:
            if r[0] == 'user':
                name, content = str(r[1]), case['users'][r[1]]
            else:
                name, content = METHODS[r[1]], case['lib'][METHODS[r[1]]]
            sources.append((name, content))
            for kind in KINDS:
                if kind not in content:
                    continue
                if r[0] == 'user':
                    tab = frame(FOLDERS, name, kind, content[kind])
                    if r[2]:
                        path = lib.work / f'user {name} {kind}.csv'
                        store(tab, path)
                        tab = str(path)
                    given[kind].append(tab)
                    continue
                old = [k for k, x in LEGACY.items()
                       if x == r[1] and kind_of_legacy(k) == kind]
                given[kind].append(f'PelicunDefault/{old[0]}.csv' if r[2] and old
                                   else f'PelicunDefault/{r[1]}/{kind}.csv')
        if not given['fragility']:
            raise Discard
        require(root.is_dir(), 'no library')
        keep = list(given['fragility'])
        asm.damage.load_model_parameters(given['fragility'], set(case['comps']))
        require(all(x is y for x, y in zip(keep, given['fragility'])),
                'the list of the caller is changed')
        damaged = damaged_of(case, sources)
        if not damaged:
            raise Discard
        asm.damage.calculate()
        several = check_states(asm, case, sources)
        conseq = given['consequence_repair'] + given['loss_repair']
        if conseq:
            asm.loss.decision_variables = ('Cost',)
            asm.loss.add_loss_map(pd.DataFrame({'Repair': case['comps']},
                                               index=case['comps']), None)
            asm.loss.load_model_parameters(conseq)
            asm.loss.calculate()
            several |= check_losses(asm, case, sources, damaged=damaged)
        return {'nontrivial': several, 'tags': [r[0] for r in case['refs']][:1]}


# ---- databases by name ---------------------------------------------------------------


@st.composite
def names(draw):
    methods, lib = draw(libraries())
    listed = draw(st.lists(st.sampled_from([*methods, *methods, 'None', draw(
        st.sampled_from(sorted(METHODS)))]), min_size=1, max_size=4))
    forms = [draw(st.sampled_from(['name', 'name', 'legacy'])) for _ in listed]
    custom = draw(st.sampled_from([None, 'folder', 'folder', 'path', 'no folder']))
    return {'lib': lib, 'listed': listed, 'forms': forms, 'custom': custom,
            'user': draw(tables(always=True)), 'sep': draw(st.sampled_from([',', ', '])),
            'comps': sorted(draw(st.sets(st.sampled_from(STATES + FUNCS), min_size=2,
                                         max_size=5))),
            'none': draw(st.integers(0, 5)) == 0,
            'water': draw(st.booleans()), 'seed': draw(seeds())}


def run_names(case):
    """Databases by name: the user comes first, then the method listed last."""
    with Library() as lib:
        write_library(lib, case['lib'])
        asm = quiet_assessment(Seed=case['seed'], NonDirectionalMultipliers={'ALL': 1.0})
        set_up(asm, case)
        custom = lib.work / 'my data'
        user = {k: v for k, v in case['user'].items()}
        conseq_kind = 'consequence_repair'
        if case['custom']:
            # the table of the user has one form
            conseq_kind = 'loss_repair' if len(user['loss_repair']) == 1 else conseq_kind
            user = {k: v for k, v in user.items() if k in {'fragility', conseq_kind}}
            store(frame(FOLDERS, '0', 'fragility', user['fragility']), custom / 'f.csv')
            store(frame(FOLDERS, '0', conseq_kind, user[conseq_kind]), custom / 'c.csv')
        pre = {'folder': 'CustomDLDataFolder', 'no folder': 'CustomDLDataFolder',
               'path': str(custom), None: ''}[case['custom']]
        at = {k: None if case['custom'] is None else f'{pre}/{k}.csv' for k in 'fc'}
        extra = str(custom) if case['custom'] == 'folder' else None

        def text(kind):
            out = []
            for m, form in zip(case['listed'], case['forms']):
                old = [k for k, x in LEGACY.items()
                       if x == m and kind_of_legacy(k) == kind]
                out.append(f'{old[0]}.csv' if form == 'legacy' and old else m)
            return case['sep'].join(out)

        # methods without the file are left out; consequences come in one of two forms
        sources = []
        for m in case['listed']:
            files = dict(case['lib'].get(METHODS.get(m, ''), {}))
            if 'consequence_repair' in files:
                files.pop('loss_repair', None)
            sources.append((METHODS.get(m, m), files))
        if case['custom']:
            sources.append(('0', user))
        sources = sources[::-1]
        damaged = damaged_of(case, sources)
        if not damaged or not any(k in s[1] for s in sources for k in KINDS[1:]):
            raise Discard
        missing = np.nan if case['none'] else None
        if case['none']:
            # no database of the library at all
            if not case['custom']:
                raise Discard
            sources = [('0', user)]
            damaged = damaged_of(case, sources)
            if not damaged:
                raise Discard
        proc = None
        if case['water']:
            first = sorted(damaged)[0]
            proc = str(lib.work / 'process.json')
            Path(proc).write_text(json.dumps({f'1_{first}': {'DS1': 'aggregate_DS2'}}))
        args = ('m', text('fragility') if missing is None else missing, at['f'], None, None,
                'User Defined' if proc else 'None', proc, extra, None)
        keep = copy.deepcopy(args[1:])
        try:
            asm.calculate_damage(*args, is_for_water_network_assessment=case['water'])
        except ValueError:
            require(case['custom'] == 'no folder', 'the databases are refused')
            try:
                asm.load_consequence_info(text('consequence_repair'), at['c'], extra)
            except ValueError:
                return {'nontrivial': True, 'tags': ['refused']}
            raise Violation('a folder that is not specified is accepted')
        require(case['custom'] != 'no folder', 'a folder that is not specified is accepted')
        require(repr(keep) == repr(args[1:]), 'the arguments are changed')
        several = check_states(asm, case, sources)
        if case['water']:
            got = {k: v for k, v in dmg.ds_of(asm).items() if k[0] == 'aggregate'}
            require(len(got) == 1, 'the aggregate component is missing')
            require_same(next(iter(got.values())), 2 * damaged[first],
                         'damage states of the aggregate component')
            require(not any(k[0] in {'collapse', 'irreparable'} for k in dmg.ds_of(asm)),
                    'placeholders are in the damage sample')
        conseq = text('consequence_repair') if missing is None else missing
        info, paths = asm.load_consequence_info(conseq, at['c'], extra)
        # every table that is used, in the order of the list, and the paths the other way
        rows, expected = [], []
        for where, files in sources[::-1]:
            kind = next((k for k in KINDS[1:] if k in files), None)
            if kind is None:
                continue
            rows += [(nm, 'Cost') for nm in files[kind]]
            expected.append((where, kind))
        require(sorted(info.index) == sorted(rows), 'consequences %s instead of %s', list(info.index),
                rows)
        require(len(paths) == len(expected), 'databases %s', paths)
        asm.loss.decision_variables = ('Cost',)
        asm.loss.add_loss_map(pd.DataFrame({'Repair': case['comps']}, index=case['comps']),
                              None)
        if not paths:
            raise Discard
        asm.loss.load_model_parameters(paths)
        asm.loss.calculate()
        several |= check_losses(asm, case, sources, damaged=damaged)
        return {'nontrivial': several, 'tags': [
            'water' if case['water'] else 'other', str(case['custom'])]}


SUBS = [Sub('references', references(), run_references, 150, 6000),
        Sub('lists', lists(), run_lists, 60, 3000),
        Sub('names', names(), run_names, 80, 4000)]
