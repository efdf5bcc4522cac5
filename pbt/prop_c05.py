"""C05: unit conversion."""
from __future__ import annotations

import json
import math
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from pelicun import base
from pelicun.assessment import AssessmentBase

from pbt.core import Sub, Violation, close, require, require_same
from pbt.gen import fl, logfl

RULE = 'A case counts when two different units are involved or a quantity is not 1.'
ASSUMPTIONS = [
    'unit definitions are the NIST ones, agreeing to 1e-5 relative (the repository '
    'rounds the pound to 6 digits)',
]
QUICK_S = 40

# definitions, in SI
FT, IN, MI, G, LBF = 0.3048, 0.0254, 1609.344, 9.80665, 4.4482216152605
UNITS = {
    'time': {'sec': 1, 'minute': 60, 'hour': 3600, 'day': 86400},
    'length': {'m': 1, 'mm': 1e-3, 'cm': 1e-2, 'km': 1e3, 'in': IN, 'inch': IN,
               'ft': FT, 'mile': MI},
    'area': {'m2': 1, 'mm2': 1e-6, 'cm2': 1e-4, 'km2': 1e6, 'in2': IN**2,
             'inch2': IN**2, 'ft2': FT**2, 'mile2': MI**2},
    'volume': {'m3': 1, 'in3': IN**3, 'inch3': IN**3, 'ft3': FT**3},
    'velocity': {'cmps': 1e-2, 'mps': 1, 'mph': MI / 3600, 'inps': IN, 'inchps': IN,
                 'ftps': FT},
    'acceleration': {'mps2': 1, 'inps2': IN, 'inchps2': IN, 'ftps2': FT, 'g': G},
    'mass': {'kg': 1, 'ton': 1000, 'lb': 0.45359237},
    'force': {'N': 1, 'kN': 1e3, 'lbf': LBF, 'kip': 1e3 * LBF, 'kips': 1e3 * LBF},
    'line_force': {'Npm': 1, 'kNpm': 1e3, 'lbpft': LBF / FT, 'kippft': 1e3 * LBF / FT,
                   'kipspft': 1e3 * LBF / FT},
    'pressure': {'Pa': 1, 'kPa': 1e3, 'MPa': 1e6, 'GPa': 1e9, 'psi': LBF / IN**2,
                 'ksi': 1e3 * LBF / IN**2, 'Mpsi': 1e6 * LBF / IN**2},
    'misc': {'ea': 1, 'EA': 1, 'unitless': 1, 'rad': 1, 'USD_2011': 1, 'USD': 1,
             'loss_ratio': 1, 'worker_day': 1, 'SF': FT**2, 'LF': FT, 'J': 1,
             'MJ': 1e6, 'V': 1, 'kV': 1000, 'KV': 1000, 'A': 1, 'TN': 1000, 'AP': 1,
             'CF': FT**3 / 60, 'C': 1},
}
ALL = {u: (c, f) for c, d in UNITS.items() for u, f in d.items()}
CODE_CATEGORY = {'area': 'length'}
TOL = 1e-5


@st.composite
def pairs(draw):
    cat = draw(st.sampled_from(sorted(UNITS)))
    names = sorted(UNITS[cat])
    v = st.one_of(fl(-1e4, 1e4), logfl(-8, 8), st.just(0.0))
    return {'cat': cat, 'a': draw(st.sampled_from(names)),
            'b': draw(st.sampled_from(names)), 'c': draw(st.sampled_from(names)),
            'v': draw(st.lists(v, min_size=1, max_size=5)),
            'form': draw(st.sampled_from(['float', 'list', 'array', 'array2'])),
            'named': draw(st.booleans())}


def run_pairs(case):
    cat, a, b, c = case['cat'], case['a'], case['b'], case['c']
    kw = {'category': CODE_CATEGORY.get(cat, cat)} if case['named'] else {}
    vals = case['v']
    form = case['form']
    arg = {'float': float(vals[0]), 'list': [float(x) for x in vals],
           'array': np.array(vals, dtype=float),
           'array2': np.array([vals, vals], dtype=float)}[form]
    before = np.array(arg, dtype=float)
    out = base.convert_units(arg, a, b, **kw)
    require_same(np.array(arg, dtype=float), before, 'the argument was changed', 0)
    kind = {'float': float, 'list': list}.get(form, np.ndarray)
    require(isinstance(out, kind), 'a %s is returned for a %s', type(out), form)
    ratio = UNITS[cat][a] / UNITS[cat][b]
    require_same(np.array(out, dtype=float), before * ratio, f'{vals} {a} in {b}', TOL)
    back = base.convert_units(out if form != 'float' else float(out), b, a, **kw)
    require_same(np.array(back, dtype=float), before, f'{a} to {b} and back', 1e-12)
    via = base.convert_units(base.convert_units(before, a, c), c, b)
    require_same(via, np.array(out, dtype=float).reshape(via.shape) if form != 'float'
                 else np.array(float(out)), f'{a} to {b} through {c}', 1e-12)
    return {'nontrivial': a != b, 'tags': [cat, form]}


@st.composite
def mixed(draw):
    a = draw(st.sampled_from(sorted(ALL)))
    b = draw(st.sampled_from([*sorted(ALL), 'parsec', '', 'FT', 'meter']))
    return {'a': a, 'b': b, 'swap': draw(st.booleans()), 'category': draw(st.one_of(
        st.none(), st.sampled_from([*sorted(UNITS), 'distance', 'Length'])))}


def run_mixed(case):
    """Units of different dimensions, and unknown ones, are refused."""
    a, b = case['a'], case['b']
    ca = ALL[a][0]
    cb = ALL[b][0] if b in ALL else None
    named = case['category']
    if named is not None:
        # both units have to be of the category that is named
        named = CODE_CATEGORY.get(named, named)
        cats = {CODE_CATEGORY.get(x, x) for x in (ca, cb)}
        kw = {'category': named}
        if named in cats and (len(cats) == 1 or cats == {'length', 'area'}):
            return {'nontrivial': False, 'tags': ['same dimension']}
        try:
            out = base.convert_units(3.0, a, b, **kw)
        except ValueError:
            return {'tags': ['named']}
        raise Violation(f'{a} was converted to {b} as {named}: {out}')
    if ca == cb or {ca, cb} == {'length', 'area'}:
        return {'nontrivial': False, 'tags': ['same dimension']}
    if case['swap']:
        a, b = b, a
    try:
        out = base.convert_units(3.0, a, b)
    except ValueError:
        return {'tags': ['unknown' if cb is None else 'other dimension']}
    raise Violation(f'{a} was converted to {b}: {out}')


@st.composite
def strings(draw):
    return {'u': draw(st.sampled_from(sorted(ALL))),
            'q': draw(st.one_of(st.none(), fl(-100, 1000), st.integers(1, 1000))),
            'pad': draw(st.sampled_from(['', ' '])),
            'bad': draw(st.sampled_from(['furlong', 'Ft', 'M', '?']))}


ASM = None


def asm():
    global ASM
    if ASM is None:
        ASM = AssessmentBase({'PrintLog': False, 'Verbose': False})
    return ASM


def run_strings(case):
    """A unit with an optional quantity in front of it."""
    u, q = case['u'], case['q']
    txt = case['pad'] + (u if q is None else f'{q} {u}') + case['pad']
    exp = (1 if q is None else q) * ALL[u][1]
    got = asm().calc_unit_scale_factor(txt)
    require(close(got, exp, TOL), '%r is %r instead of %r', txt, got, exp)
    require(close(asm().scale_factor(u), ALL[u][1], TOL), 'factor of %s', u)
    require(asm().scale_factor(None) == 1.0, 'factor without a unit')
    for fn, arg, err in ((asm().scale_factor, case['bad'], ValueError),
                         (asm().calc_unit_scale_factor, case['bad'], KeyError)):
        try:
            r = fn(arg)
        except err:
            continue
        raise Violation(f'the unknown unit {arg} has the factor {r}')
    return {'nontrivial': q not in {None, 1}, 'tags': ['quantity' if q else 'plain']}


@st.composite
def custom(draw):
    names = draw(st.lists(st.text('abcXYZ_2', min_size=1, max_size=5), unique=True,
                          min_size=1, max_size=6))
    cats = [draw(st.sampled_from(['c1', 'c2', 'c3'])) for _ in names]
    vals = [draw(logfl(-4, 4)) for _ in names]
    fault = draw(st.sampled_from(['none', 'none', 'none', 'dup', 'flat', 'text', 'json',
                                  'dupcat', 'missing']))
    return {'names': names, 'cats': cats, 'vals': vals, 'fault': fault,
            'as_text': draw(st.booleans())}


def run_custom(case):
    """Unit tables of the user are used as they are, and bad ones are refused."""
    tab = {}
    for n, c, v in zip(case['names'], case['cats'], case['vals']):
        tab.setdefault(c, {})[n] = str(v) if case['as_text'] else v
    txt = json.dumps(tab)
    n0 = case['names'][0]
    fault = case['fault']
    if fault == 'dup':
        tab['other'] = {n0: 3.0}
        txt = json.dumps(tab)
    elif fault == 'dupcat':
        txt = txt[:-1] + ', "c1": {"zz": 1}, "c1": {"yy": 2}}'
    elif fault == 'flat':
        tab['loose'] = 2.0
        txt = json.dumps(tab)
    elif fault == 'text':
        tab['other'] = {'unit': 'two'}
        txt = json.dumps(tab)
    elif fault == 'json':
        txt = txt[:-1]
    path = Path('units.json')
    path.write_text(txt)
    name = 'missing.json' if fault == 'missing' else str(path)
    try:
        got = base.parse_units(name)
    except (ValueError, TypeError, FileNotFoundError) as exc:
        require(fault != 'none', 'a valid table is refused: %s', exc)
        return {'tags': [fault]}
    require(fault == 'none', 'the table %s was accepted (%s)', txt, fault)
    exp = dict(zip(case['names'], case['vals']))
    require(set(got) == set(exp), 'units %s instead of %s', sorted(got), sorted(exp))
    for k, v in exp.items():
        require(isinstance(got[k], float) and got[k] == v, '%s is %r', k, got[k])
    nested = base.parse_units(str(path), preserve_categories=True)
    flat = {k: v for c in nested.values() for k, v in c.items()}
    require(flat == exp and all(
        n in nested[c] for n, c in zip(case['names'], case['cats'])),
        'categories %s', nested)
    a = AssessmentBase({'PrintLog': False, 'Verbose': False, 'UnitsFile': str(path)})
    require(a.scale_factor(n0) == exp[n0], 'unit of an assessment with a units file')
    for k, v in AssessmentBase(
            {'PrintLog': False, 'Verbose': False}).unit_conversion_factors.items():
        require(a.scale_factor(k) == exp.get(k, v), 'unit %s with a units file: %s', k,
                a.scale_factor(k))
    return {'tags': [fault]}


SUBS = [
    Sub('pairs', pairs(), run_pairs, 1200, 20000),
    Sub('mixed', mixed(), run_mixed, 600, 8000),
    Sub('strings', strings(), run_strings, 500, 6000),
    Sub('custom', custom(), run_custom, 250, 3000),
]
_ = math
