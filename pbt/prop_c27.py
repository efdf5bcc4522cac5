"""C27: regional simulations."""
from __future__ import annotations

import contextlib
import io
import json
import sys
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from pelicun import cli
from pelicun.tools import regional_sim as RS
from pelicun.tools.NNR import NNR

from pbt import regional as R
from pbt.core import Discard, Sub, Violation, require, require_same
from pbt.gen import fl, logfl, maybe, seeds

RULE = ('A case counts when there are several buildings of different archetypes and some, '
        'but not all, realizations have damage.')
ASSUMPTIONS = [
    'one component of quantity 1 EA per building, as stated in the code',
    'capacities and consequences without uncertainty, since no seed can be set',
    'consequences that are not defined at all give no number instead of zero',
    'the k nearest grid points of every building are unique',
]
QUICK_S = 70
OCCS = ['RES1', 'COM1', 'COM10', 'RES3A']
ARCHS = ['W1.LC', 'W1', 'S1L.MC', 'LF.C1M']


@st.composite
def regions(draw, bad=False):
    method = draw(st.sampled_from(sorted(R.METHODS)))
    eq = R.METHODS[method] == 'eq'
    pool = ['PGA', 'SA_0.3', 'SA_1.0'] if eq else ['PWS', 'PIH']
    pool = draw(st.permutations(pool))
    ims = [[im, draw(st.sampled_from(R.IMS[im][1]))]
           for im in pool[:draw(st.integers(1, len(pool)))]]
    m = draw(st.integers(2, 7))
    points = draw(st.lists(st.tuples(fl(-1, 1, 4), fl(-1, 1, 4)), min_size=m, max_size=m,
                           unique=True))
    n = draw(st.integers(1, 7))
    ids = draw(st.lists(st.integers(0, 30), min_size=n, max_size=n, unique=True))
    occs = draw(st.lists(st.sampled_from(OCCS), min_size=1, max_size=3, unique=True))
    archs = draw(st.lists(st.sampled_from(ARCHS), min_size=1, max_size=3, unique=True))
    unit = dict(ims)
    arch = {}
    for a in archs:
        im = draw(st.sampled_from([i for i, _ in ims]))
        u = draw(st.sampled_from(R.IMS[im][1]))
        mid = {'PWS': 60.0, 'PIH': 5.0}.get(im, 1.0) * R.F[unit[im]] / R.F[u]
        k = draw(st.integers(1, 4))
        caps = sorted(draw(st.lists(fl(0.1, 2.5, 3), min_size=k, max_size=k, unique=True)))
        arch[a] = {'im': im, 'unit': u, 'caps': [float(f'{c * mid:.6g}') for c in caps]}
    cons = {}
    time = draw(st.booleans()) or eq
    for who in ([f'LF.{o}' for o in occs] if eq else archs):
        cons[who] = {dv: [draw(maybe(logfl(-2, 2, 3), 0.85)) for _ in range(4)]
                     for dv in ('Cost', 'Time')}
        if not eq:
            k = len(arch[who]['caps'])
            cons[who] = {dv: v[:k] for dv, v in cons[who].items()}
        if who in {archs[0], f'LF.{occs[0]}'}:
            cons[who]['Cost'][0] = 0.5
    bldgs = []
    for i in ids:
        at = draw(st.one_of(st.tuples(fl(-1, 1, 4), fl(-1, 1, 4)),
                            st.tuples(fl(-1, 1, 4), fl(-1, 1, 4)),
                            st.sampled_from(points)))
        bldgs.append({'id': i, 'at': list(at), 'arch': draw(st.sampled_from(archs)),
                      'occ': draw(st.sampled_from(occs))})
    flt = None
    if draw(st.integers(0, 2)) == 0:
        keep = draw(st.lists(st.sampled_from(ids), min_size=1, max_size=n))
        parts = [str(i) for i in keep]
        for i in keep:
            if i + 1 in ids and draw(st.booleans()):
                parts.append(f'{i}{draw(st.sampled_from(["-", " - "]))}{i + 1}')
        flt = draw(st.sampled_from([',', ', ', ' ,'])).join(parts)
    rows = draw(st.integers(1, 6))
    return {'method': method, 'ims': ims, 'points': [list(p) for p in points],
            'columns': draw(st.permutations(
                [i for i, _ in ims] + [x for x in pool if x not in unit])),
            'rows': rows, 'rng': draw(seeds()), 'samples': draw(st.integers(1, 8)),
            'realizations': draw(st.integers(1, 10)),
            'neighbors': draw(st.integers(1, m)), 'buildings': bldgs,
            'archetypes': arch, 'consequences': cons, 'time': time, 'filter': flt,
            'how': draw(st.sampled_from(['function', 'cli', 'default']))}


def wanted(case):
    ids = [b['id'] for b in case['buildings']]
    if not case['filter']:
        return ids
    out = set()
    for p in case['filter'].split(','):
        ends = [int(x) for x in p.split('-')]
        out |= set(range(ends[0], ends[-1] + 1))
    return sorted(out)


def simulate(case):
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        if case['how'] == 'function':
            RS.regional_sim('config.json', num_cores=1)
            return
        args = ['config.json', '-n', '1']
        if case['how'] == 'default':
            Path('config.json').rename('inputRWHALE.json')
            args = ['--num-cores', '1']
        old = sys.argv
        sys.argv = ['pelicun', 'regional_sim', *args]
        try:
            cli.main()
        finally:
            sys.argv = old


def run_regions(case):
    """Each building has its own intensities, archetype, damage and losses."""
    with R.Library() as lib:
        R.write_library(lib, case)
        R.write_region(case)
        ids = wanted(case)
        R.reference(case, ids)
        simulate(case)
        damage = R.check_outputs(case, ids)
    some = np.concatenate(list(damage.values()))
    kinds = {b['arch'] for b in case['buildings'] if b['id'] in ids}
    return {'nontrivial': len(kinds) > 1 and bool((some > 0).any() and (some == 0).any()),
            'tags': [R.METHODS[case['method']], 'filter' if case['filter'] else 'all']}


@st.composite
def many(draw):
    """More buildings than are processed at once."""
    case = draw(regions())
    n = draw(st.integers(1001, 1012))
    rng = np.random.default_rng(draw(seeds()))
    archs, occs = sorted(case['archetypes']), sorted({b['occ'] for b in case['buildings']})
    if len(occs) == 1 and R.METHODS[case['method']] == 'eq':
        occs.append('RES9')
        case['consequences']['LF.RES9'] = case['consequences'][f'LF.{occs[0]}']
    ids = rng.permutation(2 * n)[:n].tolist()
    at = rng.uniform(-1, 1, (n, 2)).round(5).tolist()
    case['buildings'] = [
        {'id': i, 'at': a, 'arch': archs[rng.integers(len(archs))],
         'occ': occs[rng.integers(len(occs))]} for i, a in zip(ids, at)]
    case.update(filter=None, realizations=min(case['realizations'], 3))
    return case


@st.composite
def faults(draw):
    case = draw(regions())
    kind = draw(st.sampled_from(['im', 'ims', 'units', 'id', 'range', 'text']))
    return {'case': case, 'kind': kind, 'k': draw(st.integers(31, 90))}


def run_faults(case):
    """What is not there, or cannot be understood, is refused and nothing is written."""
    c, kind = case['case'], case['kind']
    with R.Library() as lib:
        R.write_library(lib, c)
        ids = [b['id'] for b in c['buildings']]
        c = dict(c, filter=None)
        if kind == 'id':
            c['filter'] = f'{ids[0]}, {case["k"]}'
        elif kind == 'range':
            c['filter'] = f'{ids[0] + 1}-{ids[0]}'
        elif kind == 'text':
            c['filter'] = f'{ids[0]}, x{ids[0]}'
        elif kind == 'im':
            c['columns'] = [x for x in c['columns'] if x != c['ims'][-1][0]] + ['PIH']
            if 'PIH' == c['ims'][-1][0]:
                raise Discard
        config = R.write_region(c)
        if kind in {'ims', 'units'}:
            if kind == 'ims':
                config['RegionalEvent']['units'] = {}
            else:
                del config['RegionalEvent']['units']
            Path('config.json').write_text(json.dumps(config))
        try:
            simulate(c)
        except ValueError:
            require(not list(Path().glob('*ge.csv')) and not Path('demand.csv').exists(),
                    'results of a refused simulation')
            return {'nontrivial': True, 'tags': [kind]}
        raise Violation(f'{kind} is accepted')


@st.composite
def filters(draw):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        a = draw(st.integers(0, 40))
        if draw(st.booleans()):
            out.append([a, a])
        else:
            out.append([a, a + draw(st.integers(0, 12))])
    return {'parts': out, 'blanks': draw(st.lists(st.sampled_from(['', ' ', '  ']),
                                                   min_size=4, max_size=4)),
            'empty': draw(st.lists(st.integers(0, 5), max_size=2))}


def run_filters(case):
    """Numbers and ranges, in any order and with blanks, are a sorted set."""
    a, b, c, d = case['blanks']
    parts = [f'{a}{x}{b}' if x == y and i % 2 else f'{a}{x}{b}-{c}{y}{d}'
             for i, (x, y) in enumerate(case['parts'])]
    for i in case['empty']:
        parts.insert(min(i, len(parts)), a)
    exp = sorted({k for x, y in case['parts'] for k in range(x, y + 1)})
    got = RS.parse_id_filter(','.join(parts))
    require(got == exp, '%r is read as %s instead of %s', ','.join(parts), got, exp)
    return {'nontrivial': len(exp) > 1}


@st.composite
def neighbors(draw):
    dim = draw(st.integers(1, 3))
    m = draw(st.integers(2, 9))
    return {'dim': dim, 'm': m, 't': draw(st.integers(1, 4)),
            'k': draw(st.integers(1, m)), 'features': draw(st.integers(1, 3)),
            'real': draw(st.one_of(st.none(), st.integers(1, 5))),
            'weight': draw(st.sampled_from(['distance2', 'distance1', 'uniform'])),
            'size': draw(st.sampled_from([-1, -1, 1, 3, 40, 400])),
            'rng': draw(seeds()), 'seed': draw(seeds()), 'flat': draw(st.booleans()),
            'on': draw(st.integers(0, 3)) == 0}


def run_neighbors(case):
    """Weighted means of the nearest points, or samples of whole realizations of them."""
    rng = np.random.default_rng(case['rng'])
    m, k, t = case['m'], case['k'], case['t']
    src = rng.uniform(-1, 1, (m, case['dim']))
    tgt = rng.uniform(-1, 1, (t, case['dim']))
    if case['on']:
        tgt[0] = src[-1]
    shape = (m, case['features']) + (() if case['real'] is None else (case['real'],))
    val = rng.normal(size=shape)
    d = np.linalg.norm(tgt[:, None] - src[None], axis=2)
    one = case['dim'] == 1 and case['flat']
    args = {'target': tgt.ravel() if one else tgt, 'source': src.ravel() if one else src,
            'known_values': val, 'sample_size': case['size'], 'n_neighbors': k,
            'weight': case['weight'], 'seed': case['seed']}
    keep = {q: np.copy(args[q]) for q in ('target', 'source', 'known_values')}
    got = NNR(**args)
    for q, v in keep.items():
        require_same(args[q], v, f'{q} was changed', 0)
    require_same(NNR(**args), got, 'second call with the same seed', 0)
    weights = []
    for i in range(t):
        near = np.argsort(d[i], kind='stable')[:k]
        if case['weight'] == 'uniform':
            w = np.full(k, 1 / k)
        elif d[i][near[0]] < 1e-12:
            w = np.eye(k)[0]
        else:
            w = d[i][near] ** (-2.0 if case['weight'] == 'distance2' else -1.0)
            w /= w.sum()
        weights.append((near, w))
    if case['size'] < 0:
        exp = np.array([np.tensordot(w, val[near], axes=1) for near, w in weights])
        require(got.shape == exp.shape, 'shape %s instead of %s', got.shape, exp.shape)
        require_same(got, exp, 'expected values', 1e-9, 1e-12)
    else:
        n = case['size']
        require(got.shape == (t, case['features'], n), 'shape %s', got.shape)
        for i, (near, w) in enumerate(weights):
            counts = np.zeros(k)
            for j in range(n):
                x = got[i, :, j]
                hit = [a for a, p in enumerate(near) if np.array_equal(
                    x, val[p] if case['real'] is None else val[p][:, j % case['real']])]
                require(len(hit) == 1, 'sample %s of target %s is %s: no realization of a '
                        'neighbor', j, i, x.tolist())
                counts[hit[0]] += 1
            sd = np.sqrt(n * w * (1 - w))
            require(bool(np.all(np.abs(counts - n * w) <= 7 * sd + 8)),
                    'neighbors are used %s times with weights %s', counts.tolist(),
                    w.tolist())
    return {'nontrivial': k > 1 and t > 1, 'tags': [case['weight'], 'mean' if case[
        'size'] < 0 else 'sample', '3D' if case['real'] else '2D']}


SUBS = [
    Sub('regions', regions(), run_regions, 90, 1500),
    Sub('many', many(), run_regions, 1, 100),
    Sub('faults', faults(), run_faults, 16, 200),
    Sub('filters', filters(), run_filters, 200, 3000),
    Sub('neighbors', neighbors(), run_neighbors, 300, 5000),
]
