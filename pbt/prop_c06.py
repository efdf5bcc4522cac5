"""C06: tables and their labels survive storage and loading."""
from __future__ import annotations

from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun import base, file_io

from pbt.core import Sub, Violation, close, require, require_same
from pbt.gen import fl, logfl

RULE = (
    'A case counts when the table has at least two rows and two columns or units other '
    'than the base unit.'
)
ASSUMPTIONS = [
    'labels contain no dash within a level, are not texts that stand for missing data, '
    'and are unique',
    'values agree to 1e-12 relative after a conversion to user units and back',
]
QUICK_S = 50
FACTORS = {'ft': 0.3048, 'g': 9.80665, 'm': 1.0, 'inch': 0.0254, 'kip': 4448.2}
WORD = st.text('ABCabc_.0123456789', min_size=1, max_size=4).filter(
    lambda s: s.strip('.') and not base.check_if_str_is_na(s) and s.lower() != 'units')
VAL = st.one_of(fl(-100, 100), logfl(-6, 8), st.just(0.0), st.just(float('nan')))


def key(x):
    return tuple(str(v) for v in x)


@st.composite
def tables(draw):
    nlev = draw(st.integers(1, 4))
    labels = draw(st.lists(
        st.lists(WORD, min_size=nlev, max_size=nlev).map(tuple),
        min_size=1, max_size=5, unique=True))
    n = draw(st.integers(1, 5))
    return {
        'labels': [list(x) for x in labels],
        'vals': [[draw(VAL) for _ in labels] for _ in range(n)],
        'units': [draw(st.one_of(st.none(), st.sampled_from(sorted(FACTORS))))
                  for _ in labels],
        'with_units': draw(st.booleans()),
        'drop': draw(st.integers(0, 2)),
        'mode': draw(st.sampled_from(['file', 'frame'])),
        'text': draw(st.booleans()),
        'ints': draw(st.booleans()),
    }


def index_of(labels):
    if len(labels[0]) == 1:
        return pd.Index([x[0] for x in labels])
    return pd.MultiIndex.from_tuples([tuple(x) for x in labels])


def run_columns(case):
    """Variables along columns: save in user units, load in base units."""
    labels = case['labels']
    arr = np.array(case['vals'], dtype=float)
    if case['ints']:
        arr = np.round(np.nan_to_num(arr, nan=1.0))
        df = pd.DataFrame(arr.astype('int64') if np.abs(arr).max() < 1e9 else arr,
                          columns=index_of(labels))
    else:
        df = pd.DataFrame(arr, columns=index_of(labels))
    # a column of missing values only cannot be told from text
    df = df.loc[:, ~df.isna().all()]
    if not df.shape[1]:
        return {'nontrivial': False}
    units = None
    if case['with_units']:
        u = {k: v for k, v in zip([tuple(x) for x in labels], case['units']) if v}
        if u:
            units = pd.Series(list(u.values()), index=index_of([list(k) for k in u]),
                              name='Units')
    before = df.copy()
    ubefore = None if units is None else units.copy()
    path = Path('table.csv')
    if case['mode'] == 'file':
        out = file_io.save_to_csv(df, path, units, FACTORS)
        require(out is None, 'something is returned')
        src = str(path)
        raw = pd.read_csv(path, index_col=0, header=0)
    else:
        src = file_io.save_to_csv(df, None, units, FACTORS)
        raw = src
    pd.testing.assert_frame_equal(df, before)
    if units is not None:
        pd.testing.assert_series_equal(units, ubefore)
    # what is stored: user units
    for lab, unit in zip(labels, case['units']):
        col = lab[0] if len(lab) == 1 else tuple(lab)
        if col not in df.columns:
            continue
        stored = raw['-'.join(lab)]
        f = 1.0
        if units is not None and unit:
            f = FACTORS[unit]
            require(stored.iloc[0] == unit, 'unit of %s: %r', lab, stored.iloc[0])
        if units is not None:
            stored = stored.iloc[1:]
        require_same(pd.to_numeric(stored).to_numpy(dtype=float),
                     df[col].to_numpy(dtype=float) / f, f'stored {lab} in {unit}', 1e-12)
    loaded, lu = file_io.load_data(src, FACTORS, return_units=True)
    require(len(loaded) == len(df), '%d rows instead of %d', len(loaded), len(df))
    require(list(loaded.index) == list(range(len(df))), 'row numbers %s',
            list(loaded.index))
    got = [key(c) if isinstance(c, tuple) else (str(c),) for c in loaded.columns]
    exp = sorted(key(c) if isinstance(c, tuple) else (str(c),) for c in df.columns)
    require(got == exp, 'columns %s instead of %s', got, exp)
    for c in df.columns:
        require_same(loaded[c].to_numpy(dtype=float), df[c].to_numpy(dtype=float),
                     f'column {c} after loading', 1e-12)
    if units is not None:
        have = {c: u for c, u in units.items() if c in df.columns}
        if have:
            require(lu is not None, 'the units were lost')
            require(dict(lu.items()) == have, 'units %s instead of %s', dict(lu), have)
    else:
        require(lu is None, 'units out of nowhere: %s', lu)
    return {'nontrivial': df.shape[1] > 1 and len(df) > 1 or units is not None,
            'tags': [case['mode'], f'{len(labels[0])} levels',
                     'units' if units is not None else 'no units']}


def run_rows(case):
    """Variables along rows, with a Units column and a text column."""
    labels = case['labels']
    n = min(3, len(case['vals']))
    num = [f'P-{i}' for i in range(n)]
    arr = np.array(case['vals'][:n], dtype=float).T
    df = pd.DataFrame(arr, index=index_of(labels), columns=num)
    df = df.loc[:, ~df.isna().all()]
    if not df.shape[1]:
        return {'nontrivial': False}
    if case['text']:
        df['Family'] = ['lognormal' if i % 2 else 'normal' for i in range(len(df))]
    units = pd.Series(case['units'], index=df.index, name='Units').dropna()
    if not len(units):
        return {'nontrivial': False}
    before = df.copy()
    path = Path('rows.csv')
    file_io.save_to_csv(df, path, units, FACTORS, orientation=1)
    pd.testing.assert_frame_equal(df, before)
    raw = pd.read_csv(path, index_col=0)
    numeric = [c for c in df.columns if c != 'Family']
    lab2unit = {'-'.join(x): u for x, u in zip(labels, case['units'])}
    for lab, row in raw.iterrows():
        u = lab2unit[str(lab)]
        require((row['Units'] == u) if u else pd.isna(row['Units']),
                'unit of %s: %r', lab, row['Units'])
        i = ['-'.join(x) for x in labels].index(str(lab))
        require_same(row[numeric].to_numpy(dtype=float),
                     df[numeric].iloc[i].to_numpy(dtype=float) / FACTORS.get(u, 1.0),
                     f'stored row {lab} in {u}', 1e-12)
    loaded, lu = file_io.load_data(str(path), FACTORS, orientation=1, reindex=False,
                                   return_units=True)
    order = sorted(range(len(labels)), key=lambda i: labels[i])
    got = [key(c) if isinstance(c, tuple) else (str(c),) for c in loaded.index]
    require(got == [key(labels[i]) for i in order], 'rows %s', got)
    for c in numeric:
        lc = tuple(c.split('-')) if isinstance(loaded.columns, pd.MultiIndex) else c
        require_same(loaded[lc].to_numpy(dtype=float),
                     df[c].to_numpy(dtype=float)[order], f'column {c}', 1e-12)
    if case['text']:
        fc = [c for c in loaded.columns if 'Family' in c][0]
        require(list(loaded[fc]) == [df['Family'].iloc[i] for i in order], 'text column')
    return {'nontrivial': True, 'tags': [f'{len(labels[0])} levels']}


@st.composite
def row_tables(draw):
    c = draw(tables())
    # numeric looking one-level row labels would be parsed as numbers by the CSV reader
    c['labels'] = [['r' + x[0], *x[1:]] for x in c['labels']]
    return c


@st.composite
def col_tables(draw):
    c = draw(tables())
    c['labels'] = [['c' + x[0], *x[1:]] for x in c['labels']]
    return c


def run_labels(case):
    """Simple and hierarchical labels are inverses of each other, on both axes."""
    labels = case['labels']
    arr = np.arange(len(labels) * 2, dtype=float).reshape(len(labels), 2)
    multi = index_of(labels)
    for axis in (0, 1):
        df = (pd.DataFrame(arr, index=multi) if axis == 0
              else pd.DataFrame(arr.T, columns=multi))
        before = df.copy()
        simple = base.convert_to_SimpleIndex(df, axis=axis)
        pd.testing.assert_frame_equal(df, before)
        ax = simple.index if axis == 0 else simple.columns
        require(list(ax) == ['-'.join(x) for x in labels], 'simple labels %s', list(ax))
        again = base.convert_to_MultiIndex(simple, axis=axis)
        ax2 = again.index if axis == 0 else again.columns
        exp = [tuple(x) if len(x) > 1 else x[0] for x in labels]
        require(list(ax2) == exp, 'labels %s instead of %s', list(ax2), exp)
        require_same(again.to_numpy(), df.to_numpy(), 'values', 0)
        dup = df.copy()
        res = base.convert_to_SimpleIndex(dup, axis=axis, inplace=True)
        require(res is dup, 'the in-place version returns a copy')
        for other in (2, -1):
            try:
                base.convert_to_SimpleIndex(df, axis=other)
            except ValueError:
                continue
            raise Violation(f'axis {other} is accepted')
    # labels with a different number of levels are filled up
    mixed = ['-'.join(x[: 1 + i % len(x)]) for i, x in enumerate(labels)]
    if len(set(mixed)) == len(mixed) and any('-' in m for m in mixed):
        s = pd.Series(range(len(mixed)), index=mixed)
        got = base.convert_to_MultiIndex(s, axis=0)
        depth = max(m.count('-') for m in mixed) + 1
        exp = [tuple(m.split('-') + [''] * (depth - 1 - m.count('-'))) for m in mixed]
        require(list(got.index) == exp, 'uneven labels %s instead of %s',
                list(got.index), exp)
    return {'nontrivial': len(labels[0]) > 1 and len(labels) > 1,
            'tags': [f'{len(labels[0])} levels']}


@st.composite
def repeated(draw):
    n = draw(st.integers(1, 8))
    return {'rows': [[draw(st.sampled_from('AB')), draw(st.sampled_from('12')),
                      draw(fl(-9, 9))] for _ in range(n)]}


def run_dedupe(case):
    """The added level makes labels unique without touching the rows."""
    rows = case['rows']
    df = pd.DataFrame({'v': [r[2] for r in rows], 'k': range(len(rows))},
                      index=pd.MultiIndex.from_tuples([(r[0], r[1]) for r in rows],
                                                      names=['a', 'b']))
    before = df.copy()
    out = base.dedupe_index(df)
    pd.testing.assert_frame_equal(df, before)
    require(list(out.index.names) == ['a', 'b', 'uid'], 'levels %s', out.index.names)
    require(out.index.is_unique, 'labels are repeated')
    seen = {}
    exp = {}
    for i, r in enumerate(rows):
        c = seen.get((r[0], r[1]), 0)
        seen[r[0], r[1]] = c + 1
        exp[r[0], r[1], str(c)] = (r[2], i)
    got = {ix: (v, k) for ix, v, k in zip(out.index, out['v'], out['k'])}
    require(got == exp, 'rows %s instead of %s', got, exp)
    require(list(out.index) == sorted(out.index), 'the rows are not sorted')
    return {'nontrivial': max(seen.values()) > 1}


@st.composite
def factors(draw):
    n = draw(st.integers(1, 6))
    keys = draw(st.lists(st.tuples(st.sampled_from('AB'), st.sampled_from('12'),
                                   st.sampled_from('xyz')), min_size=n, max_size=n,
                         unique=True))
    cond = draw(st.dictionaries(st.sampled_from(['l0', 'l1', 'l2']), st.sampled_from(
        ['A', 'B', '1', '2', 'x', 'y']), max_size=3))
    return {'keys': [list(k) for k in keys], 'cond': cond, 'f': draw(fl(-3, 7)),
            'axis': draw(st.sampled_from([0, 1])), 'strict': draw(st.booleans()),
            'v': [draw(fl(-10, 10)) for _ in keys]}


def run_factor(case):
    """Scaling of the rows or columns that match a set of conditions."""
    ix = pd.MultiIndex.from_tuples([tuple(k) for k in case['keys']],
                                   names=['l0', 'l1', 'l2'])
    arr = np.array([case['v'], [2 * x + 1 for x in case['v']]]).T
    df = pd.DataFrame(arr, index=ix) if case['axis'] == 0 else pd.DataFrame(
        arr.T, columns=ix)
    hit = [all(k[int(lv[1])] == v for lv, v in case['cond'].items())
           for k in case['keys']]
    exp = arr * np.where(hit, case['f'], 1.0)[:, None]
    try:
        base.multiply_factor_multiple_levels(
            df, case['cond'], case['f'], axis=case['axis'],
            raise_missing=case['strict'])
    except ValueError:
        require(not any(hit) and case['strict'], 'refused with matching rows')
        return {'nontrivial': False, 'tags': ['nothing matches']}
    require(any(hit) or not case['strict'], 'nothing matches, and it is not reported')
    got = df.to_numpy() if case['axis'] == 0 else df.to_numpy().T
    require_same(got, exp, f'{case["cond"]} times {case["f"]}', 1e-12)
    return {'nontrivial': any(hit) and not all(hit)}


NA = ['', 'N/A', 'null', 'None', 'nan', 'NaN', 'NA', 'n/a', '<NA>']


@st.composite
def frames(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(1, 3))
    cell = st.one_of(fl(-9, 9), st.sampled_from(NA), st.none(), st.sampled_from(
        ['text', 'x 1']))
    return {'rows': [[draw(cell) for _ in range(m)] for _ in range(n)]}


def run_missing(case):
    """Tables in memory and in files are read alike; texts for missing data are NaN."""
    rows = case['rows']
    cols = [f'c{i}' for i in range(len(rows[0]))]
    df = pd.DataFrame(rows, columns=cols, dtype=object)
    before = df.copy()
    got = file_io.load_data(df, None, reindex=False)
    pd.testing.assert_frame_equal(df, before)
    # the file is parsed by pandas into the same numbers, texts and missing values
    df.to_csv('missing.csv')
    other = file_io.load_data('missing.csv', None, reindex=False)
    for r, row in enumerate(rows):
        for c, v in zip(cols, row):
            for what, val in (('frame', got[c].iloc[r]), ('file', other[c].iloc[r])):
                if v is None or v in NA:
                    require(pd.isna(val), '%r in a %s is read as %r', v, what, val)
                elif isinstance(v, str):
                    require(val == v, '%r in a %s is read as %r', v, what, val)
                else:
                    require(close(val, v, 1e-12), '%r in a %s is read as %r', v, what, val)
    return {'nontrivial': any(v is None or v in NA for r in rows for v in r)}


@st.composite
def bad_sources(draw):
    return {'what': draw(st.sampled_from(['missing', 'dir', 'txt', 'int', 'list',
                                          'badext', 'nofactors']))}


def run_bad(case):
    """Sources that cannot be tables are refused."""
    w = case['what']
    Path('d.csv').mkdir(exist_ok=True)
    Path('t.txt').write_text('a,b\n1,2\n')
    df = pd.DataFrame({'a': [1.0]})
    fn = {
        'missing': lambda: file_io.load_data('nothing_here.csv', None),
        'dir': lambda: file_io.load_data('d.csv', None),
        'txt': lambda: file_io.load_data('t.txt', None),
        'int': lambda: file_io.load_data(3, None),
        'list': lambda: file_io.load_data([df], None),
        'badext': lambda: file_io.save_to_csv(df, Path('x.txt')),
        'nofactors': lambda: file_io.save_to_csv(
            df, Path('x.csv'), pd.Series({'a': 'ft'})),
    }[w]
    try:
        fn()
    except (FileNotFoundError, ValueError, TypeError):
        return {'tags': [w]}
    raise Violation(f'{w} is accepted')


SUBS = [
    Sub('columns', col_tables(), run_columns, 400, 8000),
    Sub('rows', row_tables(), run_rows, 250, 5000),
    Sub('labels', col_tables(), run_labels, 250, 5000),
    Sub('dedupe', repeated(), run_dedupe, 200, 3000),
    Sub('factor', factors(), run_factor, 300, 5000),
    Sub('missing', frames(), run_missing, 250, 4000),
    Sub('bad', bad_sources(), run_bad, 30, 60),
]
