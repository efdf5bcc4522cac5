"""C07: configuration access, defaults, text parsing, and the log."""
from __future__ import annotations

import argparse
import contextlib
import copy
import io
import itertools
import json
import math
import sys
import traceback
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from pelicun import base
from pelicun.assessment import AssessmentBase
from pelicun.pelicun_warnings import PelicunWarning

from pbt.core import Sub, Violation, close, require, require_same
from pbt.gen import fl, logfl

RULE = 'A case counts when it has at least three operations, keys or points.'
ASSUMPTIONS = [
    'keys contain no slash and are not empty',
    'log messages contain no run of nine blanks and no terminal color codes',
]
QUICK_S = 40

KEYS = ['a', 'b', 'c', 'DL', '0', 'x y']
SCALAR = st.one_of(st.integers(-3, 3), fl(-2, 2), st.booleans(), st.none(),
                   st.sampled_from(['', 'text', 'None', '0']), st.just(float('nan')))
VALUE = st.recursive(
    SCALAR,
    lambda ch: st.one_of(st.lists(ch, max_size=3),
                         st.dictionaries(st.sampled_from(KEYS), ch, max_size=3)),
    max_leaves=6)
DICT = st.dictionaries(st.sampled_from(KEYS), VALUE, max_size=4)


def same(a, b):
    """Equality with NaN equal to NaN and types kept apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


@st.composite
def histories(draw):
    n = draw(st.integers(1, 8))
    ops = []
    for _ in range(n):
        path = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4))
        pre = draw(st.sampled_from(['', '/']))
        post = draw(st.sampled_from(['', '/']))
        kind = draw(st.sampled_from(['get', 'set', 'fill', 'unspec']))
        ops.append([kind, pre + '/'.join(path) + post, draw(VALUE)])
    return {'d': draw(DICT), 'ops': ops}


MISSING = object()


def lookup(d, keys):
    for k in keys:
        if not isinstance(d, dict) or k not in d:
            return MISSING
        d = d[k]
    return d


def empty(v):
    return (v is MISSING or v is None or (isinstance(v, float) and math.isnan(v))
            or (isinstance(v, (dict, list)) and not v))


def store(d, keys, v):
    for k in keys[:-1]:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    d[keys[-1]] = v


def run_histories(case):
    """Reads and writes by path act like those of a nested dictionary."""
    real = copy.deepcopy(case['d'])
    model = copy.deepcopy(case['d'])
    for kind, path, value in case['ops']:
        keys = path.strip('/').split('/')
        cur = lookup(model, keys)
        if kind == 'get':
            got = base.get(real, path, default=value)
            exp = value if cur is MISSING else cur
            require(same(got, exp), 'get %r: %r instead of %r', path, got, exp)
            require(base.get(None, path, default=value) is value, 'get of None')
        elif kind == 'unspec':
            got = base.is_unspecified(real, path)
            require(bool(got) == empty(cur), 'is_unspecified(%r) is %r for %r', path, got,
                    'nothing' if cur is MISSING else cur)
            require(bool(base.is_specified(real, path)) != bool(got), 'is_specified')
        elif kind == 'set':
            base.update(real, path, copy.deepcopy(value))
            store(model, keys, copy.deepcopy(value))
        else:
            base.update(real, path, copy.deepcopy(value), only_if_empty_or_none=True)
            if len(keys) > 1:
                # the dictionaries on the way are made in any case
                parent = lookup(model, keys[:-1])
                if not isinstance(parent, dict):
                    store(model, keys[:-1], {})
            if empty(cur):
                store(model, keys, copy.deepcopy(value))
        require(same(real, model), 'after %s %r: %r instead of %r', kind, path, real,
                model)
    return {'nontrivial': len(case['ops']) >= 3,
            'tags': sorted({o[0] for o in case['ops']})}


@st.composite
def merges(draw):
    def tree(depth):
        out = {}
        for k in draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=4)):
            if depth < 2 and draw(st.integers(0, 2)) == 0:
                out[k] = tree(depth + 1)
            else:
                out[k] = draw(st.one_of(st.integers(0, 5), st.none(), st.just([1]),
                                        st.sampled_from(['', 'v'])))
        return out

    return {'user': tree(0), 'default': tree(0)}


def merged(user, default):
    out = dict(user)
    for k, v in default.items():
        if k not in user:
            out[k] = merged({}, v) if isinstance(v, dict) else v
        elif isinstance(v, dict) != isinstance(user[k], dict):
            raise ValueError
        elif isinstance(v, dict):
            out[k] = merged(user[k], v)
    return out


def run_merges(case):
    """Values of the user stay, missing ones are filled in, and types do not mix."""
    user, default = copy.deepcopy(case['user']), copy.deepcopy(case['default'])
    try:
        exp = merged(case['user'], case['default'])
    except ValueError:
        exp = None
    try:
        base.update_vals(user, default, 'user', 'default')
    except ValueError:
        require(exp is None, 'a consistent pair is refused')
        return {'nontrivial': False, 'tags': ['conflict']}
    require(exp is not None, 'a dictionary and a value were merged: %r', user)
    require(same(user, exp), '%r instead of %r', user, exp)
    require(same(default, case['default']), 'the defaults were changed')
    # merging again changes nothing
    base.update_vals(user, default, 'user', 'default')
    require(same(user, exp), 'a second merge changes %r', user)
    return {'nontrivial': len(case['user']) + len(case['default']) > 2, 'tags': ['ok']}


@st.composite
def options(draw):
    o = {}
    if draw(st.booleans()):
        o['Seed'] = draw(st.integers(0, 10**6))
    if draw(st.booleans()):
        o['Sampling'] = {}
        if draw(st.booleans()):
            o['Sampling']['SamplingMethod'] = draw(
                st.sampled_from(['LHS', 'MonteCarlo', 'LHS_midpoint']))
        if draw(st.booleans()):
            o['Sampling']['SampleSize'] = draw(st.integers(1, 99))
    if draw(st.booleans()):
        o['DemandOffset'] = draw(st.dictionaries(
            st.sampled_from(['PFA', 'PFV', 'PID', 'SA']), st.integers(-2, 2)))
    if draw(st.booleans()):
        o['NonDirectionalMultipliers'] = draw(st.dictionaries(
            st.sampled_from(['ALL', 'PFA', 'PID']), logfl(-1, 1)))
    if draw(st.booleans()):
        o['RepairCostAndTimeCorrelation'] = draw(fl(-1, 1))
    if draw(st.booleans()):
        o['EconomiesOfScale'] = draw(st.dictionaries(
            st.sampled_from(['AcrossFloors', 'AcrossDamageStates']), st.booleans()))
    if draw(st.booleans()):
        o['ListAllDamageStates'] = draw(st.booleans())
    return {'o': o, 'other': draw(st.dictionaries(
        st.sampled_from(['ALL', 'PFA']), logfl(-1, 1)))}


DEFAULTS = {
    'Seed': None, 'DemandOffset': {'PFA': -1, 'PFV': -1}, 'ListAllDamageStates': False,
    'NonDirectionalMultipliers': {'ALL': 1.2},
    'EconomiesOfScale': {'AcrossFloors': True, 'AcrossDamageStates': False},
    'Sampling': {'SamplingMethod': 'LHS', 'SampleSize': 1000,
                 'PreserveRawOrder': False},
    'RepairCostAndTimeCorrelation': 0.0,
}


def run_options(case):
    """Every option of an analysis is the one of the user or the documented default."""
    o = case['o']
    exp = merged(o, DEFAULTS)
    # other assessments in the same session do not interfere
    AssessmentBase({'NonDirectionalMultipliers': dict(case['other']),
                    'DemandOffset': {'PFA': 3}})
    asm = AssessmentBase(copy.deepcopy(o))
    AssessmentBase({'NonDirectionalMultipliers': dict(case['other']),
                    'EconomiesOfScale': {'AcrossFloors': False}})
    op = asm.options
    got = {'Seed': op.seed, 'DemandOffset': op.demand_offset,
           'ListAllDamageStates': op.list_all_ds,
           'NonDirectionalMultipliers': op.nondir_multi_dict,
           'EconomiesOfScale': op.eco_scale,
           'RepairCostAndTimeCorrelation': op.rho_cost_time}
    for k, v in got.items():
        require(same(v, exp[k]), '%s is %r instead of %r', k, v, exp[k])
    require(op.sampling_method == exp['Sampling']['SamplingMethod'], 'sampling method %s',
            op.sampling_method)
    if o.get('Seed') is not None:
        a = AssessmentBase(copy.deepcopy(o)).options.rng.uniform(size=3)
        require_same(op.rng.uniform(size=3), a, 'random numbers of a seed', 0)
        op.seed = o['Seed']
        require_same(op.rng.uniform(size=3), a, 'random numbers of a seed set later', 0)
    return {'nontrivial': len(o) > 2}


@st.composite
def texts(draw):
    return {'s': draw(st.one_of(
        st.sampled_from(['yes', 'TRUE', 'True', 't', 'Y', '1', 'no', 'FALSE', 'f', 'N',
                         '0', 'maybe', '', '2', '1e3', '-4', ' 7 ', '1_0', 'inf', 'nan',
                         '0x1', '1.5', '--1']),
        st.integers(-99, 99).map(str), fl(-9, 9).map(str),
        st.text('ab1.-e ', max_size=4))), 'b': draw(st.booleans())}


def run_texts(case):
    """Text to truth values and numbers."""
    s = case['s']
    require(base.str2bool(case['b']) is case['b'], 'a truth value is changed')
    exp = {'yes': True, 'true': True, 't': True, 'y': True, '1': True, 'no': False,
           'false': False, 'f': False, 'n': False, '0': False}.get(s.lower())
    try:
        got = base.str2bool(s)
    except argparse.ArgumentTypeError:
        got = None
    require(got is exp, 'str2bool(%r) is %r', s, got)
    for fn, conv in ((base.float_or_None, float), (base.int_or_None, int)):
        try:
            exp = conv(s)
        except ValueError:
            exp = None
        got = fn(s)
        require(same(got, exp), '%s(%r) is %r', fn.__name__, s, got)
    return {}


@st.composite
def curves(draw):
    n = draw(st.integers(2, 6))
    x = sorted(draw(st.lists(fl(-50, 50, 4), min_size=n, max_size=n, unique=True)))
    return {'x': x, 'y': [draw(fl(-9, 9)) for _ in x],
            'at': draw(st.lists(fl(0, 1), min_size=1, max_size=4))}


def run_curves(case):
    """The text of a curve is the piecewise linear function through its points."""
    x, y = case['x'], case['y']
    if min(b - a for a, b in itertools.pairwise(x)) < 1e-6:
        return {'nontrivial': False}
    f = base.stringterpolation(
        ','.join(map(repr, y)) + '|' + ','.join(map(repr, x)))
    for a in case['at']:
        v = x[0] + a * (x[-1] - x[0])
        v = min(max(v, x[0]), x[-1])
        i = max(j for j in range(len(x) - 1) if x[j] <= v)
        t = (v - x[i]) / (x[i + 1] - x[i])
        exp = y[i] + t * (y[i + 1] - y[i])
        require(close(f(v), exp, 1e-6, 1e-6), 'at %r: %r instead of %r', v, float(f(v)),
                exp)
    require_same(f(np.array(x)), y, 'at the points', 1e-9, 1e-9)
    return {'nontrivial': len(x) > 2}


@st.composite
def mappings(draw):
    return {'m': draw(st.dictionaries(st.sampled_from('ABCD'), st.lists(
        st.integers(0, 12), max_size=3), max_size=4))}


def run_mappings(case):
    """Inverse of a mapping, and repeated keys of JSON objects."""
    m = case['m']
    flat = [v for vs in m.values() for v in vs]
    try:
        got = base.invert_mapping(m)
    except ValueError:
        require(len(set(flat)) < len(flat), 'a mapping without repetition is refused')
        got = None
    if got is not None:
        require(len(set(flat)) == len(flat), 'repeated values were accepted')
        require(got == {v: k for k, vs in m.items() for v in vs}, 'inverse %r', got)
    pairs = [(v % 5, k) for k, vs in m.items() for v in vs]
    txt = '{' + ', '.join(f'"{a}": "{b}"' for a, b in pairs) + '}'
    keys = [a for a, _ in pairs]
    try:
        out = json.loads(txt, object_pairs_hook=base.dict_raise_on_duplicates)
    except ValueError:
        require(len(set(keys)) < len(keys), 'no key is repeated in %s', txt)
        return {'nontrivial': len(flat) > 2}
    require(len(set(keys)) == len(keys), 'repeated keys in %s', txt)
    require(out == {str(a): b for a, b in pairs}, 'object %r', out)
    return {'nontrivial': len(flat) > 2}


LINE = st.text('abcXYZ 012.:-', min_size=0, max_size=12).map(
    lambda s: ' '.join(s.split()))
MSG = st.lists(LINE, min_size=1, max_size=3).map('\n'.join)


@st.composite
def logs(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('msg'), MSG, st.booleans(), st.booleans()),
        st.tuples(st.just('add'), st.sampled_from(['w1', 'w2\nmore', 'w3'])),
        st.tuples(st.just('now'), st.sampled_from(['w1', 'w2\nmore', 'w4'])),
        st.tuples(st.just('emit')),
        st.tuples(st.just('div'), st.booleans()),
        st.tuples(st.just('error'), st.sampled_from(['e1', 'e2\nmore', ''])),
    ), min_size=1, max_size=10))
    return {'ops': [list(o) for o in ops], 'ms': draw(st.booleans()),
            'print': draw(st.booleans()), 'other': draw(st.booleans()),
            'name': draw(st.sampled_from(['log.txt', 'my.run.log', 'sub/log.txt']))}


def run_logs(case):
    """All messages reach the log in order; each warning is issued once."""
    path = Path(case['name'])
    path.parent.mkdir(exist_ok=True)
    path.write_text('of an earlier run')
    # loggers of other cases, whose folders are gone, do not take part
    registered = getattr(base.LoggerRegistry, '_loggers', None)
    if isinstance(registered, list):
        registered.clear()
    log = base.Logger(str(path), verbose=False, log_show_ms=case['ms'],
                      print_log=case['print'])
    other = base.Logger('other.txt', verbose=False, log_show_ms=False,
                        print_log=False) if case['other'] else None
    nowhere = base.Logger(None, verbose=False, log_show_ms=False, print_log=False)
    nowhere.msg('not in any file')
    out, err, errors = io.StringIO(), io.StringIO(), []
    lines = []
    pending, done = [], []
    issued = []
    with warnings.catch_warnings(record=True) as caught, \
            contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter('always')
        for op in case['ops']:
            if op[0] == 'error':
                # what the interpreter does with an exception that is not handled
                try:
                    raise RuntimeError(op[1])
                except RuntimeError as exc:
                    args = (RuntimeError, exc, exc.__traceback__)
                    sys.excepthook(*args)
                    txt = ''.join(traceback.format_exception(*args))
                    errors.append(txt)
                    txt = 'Unhandled exception occurred:\n' + txt
                    lines += [(ln, i == 0, True) for i, ln in enumerate(txt.split('\n'))]
            if op[0] == 'msg':
                log.msg(op[1], prepend_timestamp=op[2], prepend_blank_space=op[3])
                for i, ln in enumerate(op[1].split('\n')):
                    lines.append((ln, op[2] and i == 0, op[2] or op[3]))
            elif op[0] == 'div':
                log.div(prepend_timestamp=op[1])
            if op[0] == 'div':
                lines.append(None)
            if op[0] in {'add', 'now'} and op[1] not in pending:
                pending.append(op[1])
            if op[0] == 'add':
                log.add_warning(op[1])
            elif op[0] == 'now':
                log.warning(op[1])
            elif op[0] == 'emit':
                log.emit_warnings()
            if op[0] in {'now', 'emit'}:
                issued += [w for w in pending if w not in done]
                done += pending
                pending = []
    got = [w for w in caught if issubclass(w.category, PelicunWarning)]
    require(len(got) == len(issued), '%d warnings instead of %s', len(got), issued)
    for w, txt in zip(got, issued):
        for ln in txt.split('\n'):
            require(ln in str(w.message), 'warning %r is %r', txt, str(w.message))
    text = path.read_text().split('\n')[1:]
    require(out.getvalue().split('\n')[:-1] == (text if case['print'] else []),
            'printed %r instead of %s', out.getvalue(), text)
    require(err.getvalue() == ''.join(errors), 'errors %r instead of %s', err.getvalue(),
            errors)
    if other is not None:
        copy_of = Path('other.txt').read_text()
        for e in errors:
            require(all(ln in copy_of for ln in e.split('\n')), 'an error is not in the '
                    'other log: %r', copy_of)
    require(len(text) == len(lines), '%d lines in the log instead of %d', len(text),
            len(lines))
    width = 16 if case['ms'] else 9
    for t, ln in zip(text, lines):
        if ln is None:
            require(set(t[17:]) == {'-'}, 'divider %r', t)
            continue
        want, stamp, indent = ln
        if stamp:
            require(t[2] == ':' and t[5] == ':' and t.split(' ', 1)[1] == want,
                    'line %r instead of %r', t, want)
        elif indent:
            require(t == ' ' * width + want, 'line %r instead of %r', t, want)
        else:
            require(t == want, 'line %r instead of %r', t, want)
    stored = (path.parent / (path.stem + '_warnings' + path.suffix)).read_text()
    exp = [ln for w in issued for ln in w.split('\n')]
    require([s.strip() for s in stored.split('\n') if s.strip()] == exp,
            'warnings file %r instead of %s', stored, exp)
    return {'nontrivial': len(case['ops']) >= 3}


SUBS = [
    Sub('histories', histories(), run_histories, 600, 15000),
    Sub('merges', merges(), run_merges, 400, 8000),
    Sub('options', options(), run_options, 200, 3000),
    Sub('texts', texts(), run_texts, 300, 3000),
    Sub('curves', curves(), run_curves, 200, 3000),
    Sub('mappings', mappings(), run_mappings, 250, 3000),
    Sub('logs', logs(), run_logs, 150, 2000),
]
_ = Violation
