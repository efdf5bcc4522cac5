"""C10: demand models: calibration, generation, storage."""
from __future__ import annotations

import contextlib
import copy
import inspect
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun import uq
from pelicun.assessment import AssessmentBase
from scipy.special import ndtri

from pbt import ref_dist as R
from pbt.core import Discard, Sub, Violation, close, require, require_same
from pbt.gen import fl, logfl, seeds
from pbt.prop_c01 import theta_of

RULE = 'A case counts when the model has at least two demands.'
ASSUMPTIONS = [
    'the fit of a joint distribution to filtered data is the one of the fitting function '
    '(its own statement is C04)',
    'settings of a demand type give their own additional uncertainty when the settings '
    'of all types do',
]
QUICK_S = 55
UNITS = {'g': 9.80665, 'rad': 1.0, 'unitless': 1.0, 'inchps2': 0.0254, 'mps2': 1.0,
         'cmps': 0.01, 'inch': 0.0254}
TYPES = ['PID', 'PFA', 'PGA', 'SA_0.5', 'SA_1.2', 'PFV', 'SD', 'SDI', 'SD_1.0']
FAMS = ['lognormal', 'normal', 'normal_cov', 'normal_std', 'empirical']


def frame(labels, units, vals, form='simple'):
    cols = ['-'.join(x) for x in labels]
    df = pd.DataFrame(np.array(vals, dtype=float).astype(object), columns=cols)
    return pd.concat([pd.DataFrame([units], columns=cols, index=['Units']), df])


@st.composite
def setting(draw, top, sig):
    s = {'DistributionFamily': draw(st.sampled_from(FAMS)),
         'lim': {}, 'Unit': draw(st.sampled_from([None, None, *sorted(UNITS)]))}
    for side in ('Lower', 'Upper'):
        for what in ('Truncate', 'Censor'):
            if draw(st.integers(0, 4 if top else 2)) == 0:
                # as a quantile of the data; turned into a value later
                q = draw(fl(0.0, 0.3)) if what == 'Censor' else 0.0
                s['lim'][what + side] = q
    if sig:
        s['sig'] = draw(fl(0.0, 0.6))
    s['text'] = draw(st.booleans())
    return s


@st.composite
def raw_data(draw, large=False):
    m = draw(st.integers(9, 18) if large else st.integers(1, 5))
    labels = draw(st.lists(
        st.tuples(st.sampled_from(TYPES), st.integers(0, 11).map(str),
                  st.integers(1, 2).map(str)), min_size=m, max_size=m, unique=True))
    unit = {t: draw(st.sampled_from(sorted(UNITS))) for t in TYPES}
    return {'labels': [list(x) for x in labels],
            'units': [unit[x[0]] for x in labels],
            'med': [draw(logfl(-2, 2)) for _ in labels],
            'sd': [draw(fl(0.1, 0.6)) for _ in labels],
            'n': draw(st.integers(150, 600) if large else st.integers(12, 40)),
            'rng': draw(seeds()),
            'rho': draw(fl(0.0, 0.9))}


@st.composite
def calibrations(draw, large=False):
    case = draw(raw_data(large))
    sig = draw(st.booleans())
    case['ALL'] = draw(setting(True, sig))
    if large:
        # joint fits of many demands with limits take too long
        case['ALL']['lim'] = {}
    case['types'] = {t: draw(setting(False, sig)) for t in draw(
        st.lists(st.sampled_from(['PID', 'PFA', 'PGA', 'SA', 'PFV', 'SD', 'SDI']), unique=True,
                 max_size=3))}
    if large:
        for v in case['types'].values():
            v['lim'] = {}
    case['seed'] = draw(seeds())
    case['size'] = draw(st.integers(200, 900) if large else st.integers(1, 60))
    case['order'] = draw(st.booleans())
    return case


def data_of(case):
    rng = np.random.default_rng(case['rng'])
    n, m = case['n'], len(case['labels'])
    common = rng.normal(size=(n, 1))
    z = math.sqrt(case['rho']) * common + math.sqrt(1 - case['rho']) * rng.normal(
        size=(n, m))
    return np.round(np.array(case['med']) * np.exp(z * np.array(case['sd'])), 9)


def resolve(case):
    """Configuration for the code, and the expected treatment of each demand."""
    base_vals = data_of(case) * np.array([UNITS[u] for u in case['units']])
    out = [{'fam': None, 'lim': {}, 'sig': None} for _ in case['labels']]
    config = {}
    for name, s in [('ALL', case['ALL']), *case['types'].items()]:
        cols = [i for i, lab in enumerate(case['labels'])
                if name == 'ALL' or lab[0].split('_')[0] == name]
        c = {'DistributionFamily': s['DistributionFamily']}
        f = UNITS[s['Unit']] if s['Unit'] else 1.0
        if s['Unit']:
            c['Unit'] = s['Unit']
        for k, q in s['lim'].items():
            pool = base_vals[:, cols] if cols else np.ones((2, 1))
            lo, hi = pool.min(), pool.max()
            if k.startswith('Truncate'):
                v = lo * 0.5 if k.endswith('Lower') else hi * 1.7
            else:
                v = (lo ** (1 - q) * hi**q if k.endswith('Lower')
                     else hi ** (1 - q) * lo**q)
                v *= 0.999 if k.endswith('Lower') else 1.001
            v = float(f'{v / f:.7g}')
            c[k] = str(v) if s['text'] else v
            for i in cols:
                out[i]['lim'][k] = v * f
        if 'sig' in s:
            c['AddUncertainty'] = str(s['sig']) if s['text'] else s['sig']
        for i in cols:
            out[i]['fam'] = s['DistributionFamily']
            if 'sig' in s:
                norm = s['DistributionFamily'].startswith('normal')
                out[i]['sig'] = s['sig'] * (f if norm else 1.0)
        config[name] = c
    return config, out, base_vals


@contextlib.contextmanager
def recorded_fits():
    """Keeps the arguments and results of all fits."""
    real = uq.fit_distribution_to_sample
    calls = []
    names = inspect.signature(real)

    def wrap(*args, **kwargs):
        kw = copy.deepcopy(dict(names.bind(*args, **kwargs).arguments))
        kw.pop('logger_object', None)
        calls.append((kw, None))
        out = real(*args, **kwargs)
        calls[-1] = (kw, copy.deepcopy(out))
        return out

    uq.fit_distribution_to_sample = wrap
    try:
        yield calls
    finally:
        uq.fit_distribution_to_sample = real


def fit(inputs, fams):
    try:
        return uq.fit_distribution_to_sample(
            distribution=np.array(fams, dtype=object), **copy.deepcopy(inputs))
    except ValueError:
        return None


def same_fit(kw, inputs, fams):
    """The fit was made with these inputs (up to rounding)."""
    m = len(fams)
    if list(np.atleast_1d(kw.get('distribution'))) != fams or kw.get('multi_fit'):
        return False
    for k, v in inputs.items():
        w = np.asarray(kw.get(k, np.nan if k.endswith('limits') else 0), dtype=float)
        v = np.asarray(v, dtype=float)
        if k == 'raw_sample':
            w = np.atleast_2d(w)
        if k.endswith('limits'):
            w = np.broadcast_to(w, (m, 2)) if w.size == 2 else w
        if w.shape != v.shape or not np.allclose(w, v, 1e-9, 0, equal_nan=True):
            return False
    return True


def run_calibrate(case):
    """Families, limits, removed rows, fitted parameters, and generated samples."""
    config, exp, vals = resolve(case)
    labels = [tuple(x) for x in case['labels']]
    keep = np.ones(len(vals), dtype=bool)
    for what in ('Censor', 'Truncate'):
        for j, e in enumerate(exp):
            lo, hi = e['lim'].get(what + 'Lower'), e['lim'].get(what + 'Upper')
            if lo is not None:
                keep &= vals[:, j] > lo
            if hi is not None:
                keep &= vals[:, j] < hi
        if what == 'Censor':
            censored = int((~keep).sum())
    if keep.sum() < 6:
        return {'nontrivial': False, 'tags': ['too few rows']}
    asm = AssessmentBase({'Seed': case['seed']})
    dm = asm.demand
    dm.load_sample(frame(labels, case['units'], data_of(case)))
    cfg = copy.deepcopy(config)
    order = sorted(range(len(labels)), key=lambda i: labels[i])
    fitted = [i for i in order if exp[i]['fam'] != 'empirical']
    lim = {w: np.array([[exp[i]['lim'].get(w + s, np.nan) for s in ('Lower', 'Upper')]
                        for i in fitted]) for w in ('Censor', 'Truncate')}
    inputs = {'raw_sample': vals[keep][:, fitted].T,
              'censored_count': censored,
              'detection_limits': lim['Censor'], 'truncation_limits': lim['Truncate']}
    fams = [exp[i]['fam'] for i in fitted]
    with recorded_fits() as calls:
        try:
            dm.calibrate_model(config)
        except ValueError:
            same = [r for kw, r in calls if fitted and same_fit(kw, inputs, fams)]
            if not fitted or (None not in same and fit(inputs, fams) is not None):
                raise
            return {'nontrivial': False, 'tags': ['no fit']}
    theta = rho = None
    limits = not np.isnan(np.concatenate(list(lim.values()))).all()
    tol = 1e-6
    if fitted:
        same = [r for kw, r in calls if same_fit(kw, inputs, fams)]
        if same:
            # joint fits of censored data cannot be repeated, see joint-censored-fit
            # among the known findings
            theta, rho = same[0]
        else:
            out = fit(inputs, fams)
            if out is None:
                return {'nontrivial': False, 'tags': ['no fit']}
            theta, rho = out
            if limits:
                # the optimizer amplifies differences in the last digit of the data
                tol = 1e-2 if len(fitted) == 1 or not censored else 1.0
    require(config == cfg, 'the settings were changed')
    mp = dm.marginal_params
    require([tuple(ix) for ix in mp.index] == [labels[i] for i in order], 'labels %s',
            list(mp.index))
    final = {}
    for i in order:
        row = mp.loc[labels[i]]
        e = exp[i]
        require(row['Family'] == e['fam'], 'family of %s: %s instead of %s', labels[i],
                row['Family'], e['fam'])
        for s in ('Lower', 'Upper'):
            require(close(row['Truncate' + s], e['lim'].get('Truncate' + s, np.nan), 1e-9),
                    'Truncate%s of %s: %r instead of %r', s, labels[i],
                    row['Truncate' + s], e['lim'].get('Truncate' + s))
        if e['fam'] == 'empirical':
            require_same(dm.empirical_data[labels[i]].to_numpy(), vals[keep][:, i],
                         f'empirical data of {labels[i]}', 1e-12)
            continue
        t = np.atleast_2d(theta)[fitted.index(i)]
        mu, sd = float(t[0]), float(t[1])
        if e['sig'] is not None:
            k = abs(mu) if e['fam'] in {'normal', 'normal_cov'} else 1.0
            sd = math.hypot(sd * k, e['sig']) / k
        require(close(row['Theta_0'], mu, tol) and close(row['Theta_1'], sd, tol),
                '%s: parameters %r instead of %r', labels[i],
                [row['Theta_0'], row['Theta_1']], [mu, sd])
        final[i] = (e['fam'], [float(row['Theta_0']), float(row['Theta_1'])],
                    [e['lim'].get('Truncate' + s) for s in ('Lower', 'Upper')])
    if fitted:
        c = dm.correlation
        require([tuple(x) for x in c.index] == [labels[i] for i in fitted]
                and [tuple(x) for x in c.columns] == [labels[i] for i in fitted],
                'labels of the correlation %s', list(c.index))
        if len(fitted) > 1:
            require_same(c.to_numpy(), rho, 'correlation', tol, tol)
    # generation
    n = case['size']
    try:
        dm.generate_sample({'SampleSize': n, 'PreserveRawOrder': case['order']})
    except ValueError:
        # a fit may put all of its mass beyond the limits
        if all(R.mass(*final[i])[1] - R.mass(*final[i])[0] > 1e-4 for i in final):
            raise
        return {'nontrivial': False, 'tags': ['no mass']}
    check_generated(dm.sample, n, {labels[i]: v for i, v in final.items()},
                    {labels[i]: vals[keep][:, i] for i in order if i not in final},
                    case['order'], correlated=len(final) > 1)
    return {'nontrivial': len(labels) > 1,
            'tags': ['censored' if censored else 'not censored',
                     *{e['fam'] for e in exp},
                     'some removed' if keep.sum() < len(keep) else 'all kept']}


def check_generated(s, n, dists, empirical, order, rtol=1e-9, correlated=False):
    """Sampled values fill the strata of their distributions."""
    require(len(s) == n and s.shape[1] == len(dists) + len(empirical),
            'sample of %s', s.shape)
    require(set(map(tuple, s.columns)) == set(dists) | set(empirical), 'labels %s',
            list(s.columns))
    require(list(s.index) == list(range(n)), 'row numbers')
    i = np.arange(n)
    for k, (fam, th, lim) in dists.items():
        pa, pb = R.mass(fam, th, lim)
        v = np.sort(s[k].to_numpy(dtype=float))
        if pb - pa < 1e-3:
            continue
        d = rtol * 10 * np.abs(v)
        ua = np.array([R.cdf(fam, th, lim, x) for x in v - d])
        ub = np.array([R.cdf(fam, th, lim, x) for x in v + d])
        if correlated:
            # correlation breaks the strata; the values still follow the distribution
            g = math.sqrt(math.log(2e10) / 2 / n)
            require(((ub >= i / n - g) & (ua <= (i + 1) / n + g)).all(),
                    '%s: the sample does not follow %s', k, (fam, th, lim))
        else:
            require(((ub >= i / n - 1e-6) & (ua <= (i + 1) / n + 1e-6)).all(),
                    '%s: the sample does not fill the strata of %s', k, (fam, th, lim))
    for k, raw in empirical.items():
        v = s[k].to_numpy(dtype=float)
        m = len(raw)
        if order:
            require_same(v, np.tile(raw, n // m + 1)[:n], f'{k} in the order of the data',
                         rtol)
            continue
        # bin of each value: the sample takes each data point n/m times, within one
        if len(set(raw.tolist())) < m:
            continue
        near = np.argmin(np.abs(np.log(raw)[None, :] - np.log(v)[:, None]), axis=1)
        require_same(v, raw[near], f'{k}: values of the data', rtol)
        cnt = np.bincount(near, minlength=m)
        require(cnt.min() >= math.floor(n / m) - 1 and cnt.max() <= math.ceil(n / m) + 1,
                '%s: data points are used %s times', k, cnt.tolist())


@st.composite
def models(draw, large=False):
    case = draw(raw_data(large))
    kinds = []
    for _ in case['labels']:
        k = draw(st.sampled_from(
            ['normal', 'normal_std', 'normal_cov', 'lognormal', 'uniform']
            * (3 if large else 1) + [None, 'empirical']))
        th = ([] if k == 'empirical' else [draw(logfl(-2, 2))] if k is None
              else draw(theta_of(k)))
        lim = [None, None]
        if k not in {None, 'empirical'} and draw(st.booleans()):
            q = sorted([draw(fl(0.01, 0.45)), draw(fl(0.55, 0.99))])
            lim = [R.base_ppf(k, th, q[0]) if draw(st.booleans()) else None,
                   R.base_ppf(k, th, q[1]) if draw(st.booleans()) else None]
        kinds.append([k, th, lim])
    case.update(kinds=kinds, seed=draw(seeds()),
                size=draw(st.integers(200, 900) if large else st.integers(2, 60)),
                order=draw(st.booleans()), mode=draw(st.sampled_from(['dict', 'file'])),
                other=draw(st.booleans()), correlated=large or draw(st.booleans()),
                loads=[draw(fl(-0.95, 0.95)) for _ in case['labels']],
                flip=draw(st.booleans()))
    return case


def model_source(case):
    labels = ['-'.join(x) for x in case['labels']]
    rows = [{'Units': u, 'Family': k, 'Theta_0': th[0] if th else None,
             'Theta_1': th[1] if len(th) > 1 else None,
             'TruncateLower': lim[0], 'TruncateUpper': lim[1]}
            for u, (k, th, lim) in zip(case['units'], case['kinds'])]
    marg = pd.DataFrame(rows, index=labels)
    marg['Family'] = marg['Family'].astype(object)
    for c in ('Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'):
        marg[c] = marg[c].astype(float)
    emp = [i for i, (k, _, _) in enumerate(case['kinds']) if k == 'empirical']
    par = [i for i, (k, _, _) in enumerate(case['kinds']) if k not in {None, 'empirical'}]
    vals = data_of(case)
    edf = frame([case['labels'][i] for i in emp], [case['units'][i] for i in emp],
                vals[:, emp]) if emp else None
    m = len(par)
    cdf = None
    if case['correlated'] and m > 1:
        f = np.array([case['loads'][i] for i in par])
        c = np.outer(f, f)
        np.fill_diagonal(c, 1.0)
        cdf = pd.DataFrame(c, index=[labels[i] for i in par],
                           columns=[labels[i] for i in par])
        if case['flip']:
            # the order of labels in the table says nothing
            cdf = cdf.iloc[::-1, ::-1]
    return marg, edf, cdf, vals, emp, par


def scaled(fam, th, lim, f):
    t = list(th)
    t[0] *= f
    if fam in {'normal_std', 'uniform'}:
        t[1] *= f
    return fam, t, [None if v is None else v * f for v in lim]


def load_other(asm):
    """Another model, which leaves nothing behind."""
    labels = ['PGV-1-1', 'PGV-2-1', 'PGV-3-1']
    asm.demand.load_model({
        'marginals': pd.DataFrame(
            {'Units': ['mps'] * 3, 'Family': ['normal', 'lognormal', 'empirical'],
             'Theta_0': [1.0, 2.0, np.nan], 'Theta_1': [0.3, 0.4, np.nan]}, index=labels),
        'correlation': pd.DataFrame([[1.0, 0.9], [0.9, 1.0]], index=labels[:2],
                                    columns=labels[:2]),
        'empirical': frame([('PGV', '3', '1')], ['mps'], [[1.0], [2.0], [3.0]])})


def run_models(case):
    """A model given as tables, its sample, and the same model saved and loaded."""
    labels = [tuple(x) for x in case['labels']]
    marg, edf, cdf, vals, emp, par = model_source(case)
    if (~marg.isna()).sum().min() == 0:
        marg = marg.loc[:, ~marg.isna().all()]
    n = case['size']
    f = [UNITS[u] for u in case['units']]

    def fresh():
        asm = AssessmentBase({'Seed': case['seed']})
        if case.get('other'):
            load_other(asm)
        src = {'marginals': marg.copy()}
        if case['mode'] == 'dict':
            if edf is not None:
                src['empirical'] = edf.copy()
            if cdf is not None:
                src['correlation'] = cdf.copy()
            keep = {k: v.copy() for k, v in src.items()}
            asm.demand.load_model(src)
            for k, v in keep.items():
                pd.testing.assert_frame_equal(src[k], v)
        else:
            import os
            for name, df in (('marginals', marg), ('empirical', edf),
                             ('correlation', cdf)):
                p = f'model_{name}.csv'
                if os.path.exists(p):
                    os.remove(p)
                if df is not None:
                    df.to_csv(p)
            asm.demand.load_model('model')
        return asm

    asm = fresh()
    cfg = {'SampleSize': n, 'PreserveRawOrder': case['order']}
    asm.demand.generate_sample(dict(cfg))
    s = asm.demand.sample.copy()
    dists = {labels[i]: scaled(*case['kinds'][i], f[i]) for i in par}
    rest = {labels[i]: vals[:, i] * f[i] for i in emp}
    det = [i for i, k in enumerate(case['kinds']) if k[0] is None]
    for i in det:
        require_same(s[labels[i]].to_numpy(dtype=float),
                     np.full(n, case['kinds'][i][1][0] * f[i]), f'{labels[i]}', 1e-9)
    part = s[[c for c in s.columns if tuple(c) not in {labels[i] for i in det}]]
    if part.shape[1]:
        check_generated(part, n, dists, rest, case['order'], 1e-7,
                        correlated=cdf is not None)
    # the correlation, where the sample is large enough to tell
    if cdf is not None and n >= 30:
        z = {}
        for i in par:
            u = np.array([R.cdf(*dists[labels[i]], x) for x in s[labels[i]]])
            z[i] = ndtri(np.clip(u, 1e-9, 1 - 1e-9))
        for a, i in enumerate(par):
            for j in par[a + 1:]:
                r = case['loads'][i] * case['loads'][j]
                got = np.corrcoef(z[i], z[j])[0, 1]
                dz = abs(np.arctanh(min(max(got, -0.9999), 0.9999)) - np.arctanh(r))
                require(dz * math.sqrt(n - 3) < 7.5, 'correlation of %s and %s: %.3f '
                        'instead of %.3f', labels[i], labels[j], got, r)
    elif cdf is None and n >= 30 and len(par) > 1:
        for a, i in enumerate(par):
            for j in par[a + 1:]:
                got = np.corrcoef(np.argsort(np.argsort(s[labels[i]])),
                                  np.argsort(np.argsort(s[labels[j]])))[0, 1]
                require(abs(np.arctanh(got)) * math.sqrt(n - 3) < 8, 'independent demands '
                        'are correlated: %.3f', got)
    # same seed, same sample
    again = fresh()
    again.demand.generate_sample(dict(cfg))
    pd.testing.assert_frame_equal(again.demand.sample, s)
    # units
    for lab, u in zip(labels, case['units']):
        require(again.demand.user_units[lab] == u, 'unit of %s', lab)
    # storage (over an earlier model with the same name)
    if True:
        if case.get('other'):
            asm = AssessmentBase({})
            load_other(asm)
            asm.demand.save_model('stored')
        third = fresh()
        before = third.demand.marginal_params.copy()
        third.demand.save_model('stored')
        pd.testing.assert_frame_equal(third.demand.marginal_params, before)
        raw = pd.read_csv('stored_marginals.csv', index_col=0)
        for lab, u, (k, th, lim) in zip(labels, case['units'], case['kinds']):
            row = raw.loc['-'.join(lab)]
            require(row['Units'] == u, 'stored unit of %s: %s', lab, row['Units'])
            if k == 'empirical':
                continue
            for c, e in (('Theta_0', th[0]), ('Theta_1', th[1] if len(th) > 1 else None),
                         ('TruncateLower', lim[0]), ('TruncateUpper', lim[1])):
                require(close(row.get(c, np.nan), np.nan if e is None else e, 1e-9),
                        'stored %s of %s: %r instead of %r', c, lab, row.get(c), e)
        other = AssessmentBase({'Seed': case['seed']})
        if case.get('other'):
            load_other(other)
        other.demand.load_model('stored')
        other.demand.generate_sample(dict(cfg))
        require(list(other.demand.sample.columns) == list(s.columns), 'labels')
        require_same(other.demand.sample.to_numpy(dtype=float), s.to_numpy(dtype=float),
                     'sample of the stored model', 1e-6)
    return {'nontrivial': len(labels) > 1,
            'tags': [case['mode'], 'correlated' if cdf is not None else 'independent',
                     *{str(k[0]) for k in case['kinds']}]}


@st.composite
def clones(draw):
    case = draw(raw_data())
    case['n'] = 4
    have = ['-'.join(x) for x in case['labels']]
    names = [f'{t}-{i}-{d}' for t in ('PID', 'PFA', 'X_1') for i in (3, 20, 21)
             for d in (1, 2)]
    names = [x for x in names if x not in have]
    plan = {}
    for h in have:
        if draw(st.booleans()):
            # its own name stays allowed
            vals = draw(st.lists(st.sampled_from([*names, h]), unique=True, max_size=3))
            plan[h] = vals
            names = [x for x in names if x not in vals]
    if draw(st.integers(0, 3)) == 0:
        plan['PGV-9-9'] = ['Q-1-1']
    case['plan'] = plan
    case['dup'] = draw(st.integers(0, 4)) == 0
    case['via'] = draw(st.sampled_from(['sample', 'generate']))
    case['blank'] = [draw(st.booleans()) for _ in case['labels']]
    case['nounit'] = [draw(st.integers(0, 3)) == 0 for _ in case['labels']]
    case['seed'] = draw(seeds())
    return case


def run_clones(case):
    """Cloned demands are copies with the unit of the original."""
    labels = [tuple(x) for x in case['labels']]
    units = [None if x else u for u, x in zip(case['units'], case['nounit'])]
    vals = data_of(case)
    raw = [[(' ' if b else '') + x[0], *x[1:]] for x, b in zip(labels, case['blank'])]
    asm = AssessmentBase({'Seed': case['seed']})
    asm.demand.load_sample(frame(raw, units, vals))
    plan = copy.deepcopy(case['plan'])
    flat = [v for vs in plan.values() for v in vs]
    if case['dup'] and flat:
        plan[next(iter(plan))].append(flat[-1])
    dup = case['dup'] and bool(flat)
    if all(plan.get('-'.join(x)) == [] for x in labels):
        raise Discard  # nothing would be left
    given = copy.deepcopy(plan)
    src = {lab: asm.demand.sample[lab].to_numpy().copy() for lab in labels}
    if case['via'] == 'generate':
        asm.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
    try:
        if case['via'] == 'generate':
            cfg = {'SampleSize': 7, 'PreserveRawOrder': True, 'DemandCloning': plan}
            asm.demand.generate_sample(cfg)
            src = {lab: np.tile(v, 2)[:7] for lab, v in src.items()}
        else:
            asm.demand.clone_demands(plan)
    except ValueError as exc:
        if not dup:
            raise
        require('uplicate' in str(exc), 'refused: %s', exc)
        return {'tags': ['duplicates'], 'nontrivial': False}
    require(not dup or (case['via'] == 'generate' and not plan),
            'duplicates were accepted')
    require(plan == given, 'the configuration was changed')
    exp = {}
    for lab, u in zip(labels, units):
        for new in plan.get('-'.join(lab), ['-'.join(lab)]):
            exp[tuple(new.split('-'))] = (src[lab], u)
    s = asm.demand.sample
    require(sorted(map(tuple, s.columns)) == sorted(exp), 'demands %s instead of %s',
            list(s.columns), sorted(exp))
    uu = asm.demand.user_units
    for k, (v, u) in exp.items():
        require_same(s[k].to_numpy(dtype=float), v, f'{k}', 1e-12)
        got = uu.get(k)
        require(got == u if u else got is None or pd.isna(got),
                'unit of %s is %s instead of %s', k, got, u)
    if exp:
        mem, mu = asm.demand.save_sample(save_units=True)
        for k, (v, u) in exp.items():
            require_same(mem[k].to_numpy(), v / UNITS.get(u, 1.0), f'saved {k}', 1e-9)
    return {'nontrivial': bool(plan) and len(labels) > 1, 'tags': [case['via']]}


@st.composite
def bad(draw):
    return {'what': draw(st.sampled_from(['nomodel', 'type', 'nomarginals']))}


def run_bad(case):
    asm = AssessmentBase({})
    try:
        if case['what'] == 'nomodel':
            asm.demand.generate_sample({'SampleSize': 4})
        elif case['what'] == 'type':
            asm.demand.load_model(3)
        else:
            asm.demand.load_model('there_is_no_such_model')
    except (ValueError, TypeError, FileNotFoundError):
        return {}
    raise Violation(f'{case["what"]} is accepted')


SUBS = [
    Sub('calibrate', calibrations(), run_calibrate, 130, 2500),
    Sub('models', models(), run_models, 150, 2500),
    Sub('calibrate large', calibrations(large=True), run_calibrate, 24, 300),
    Sub('models large', models(large=True), run_models, 24, 300),
    Sub('clones', clones(), run_clones, 120, 2000),
    Sub('bad', bad(), run_bad, 6, 12),
]
