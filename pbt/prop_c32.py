"""C32: inputs without a meaning are refused instead of giving results."""
from __future__ import annotations

import copy
import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun import base, uq
from pelicun.pelicun_warnings import InconsistentUnitsError

from pbt import dmg
from pbt import pipeline as P
from pbt.core import Discard, Sub, Violation, require
from pbt.gen import fl

RULE = ('A case of `variables` counts when the input with the flaw is refused and the same '
        'input without it is accepted; a case of `models` when two or more flaws were put '
        'into an assessment that is accepted without them.')
ASSUMPTIONS = ['flaws that the documentation of the functions says are refused']
QUICK_S = 60


def refused(call, kinds, what):
    """`call` ends with one of the documented errors."""
    try:
        got = call()
    except kinds:
        return
    except Discard:
        raise
    except Exception as exc:  # noqa: BLE001
        names = ', '.join(k.__name__ for k in kinds)
        raise Violation(f'{what}: {type(exc).__name__} ({exc}) instead of {names}') from exc
    raise Violation(f'{what}: accepted, gives {str(got)[:200]}')


# ---- random variables --------------------------------------------------------------------

V, N = (ValueError,), (NotImplementedError,)
TWO = ('normal', 'lognormal', 'normal_std', 'normal_cov')


@st.composite
def cdf_points(draw):
    n = draw(st.integers(3, 6))
    dx = draw(st.lists(fl(0.1, 5, 3), min_size=n, max_size=n))
    dy = np.array(draw(st.lists(fl(0.1, 1, 3), min_size=n - 1, max_size=n - 1)))
    x = np.cumsum(dx) - draw(fl(0, 5, 2))
    y = np.concatenate([[0.0], np.cumsum(dy) / dy.sum()])
    y[-1] = 1.0
    return np.column_stack([x, y])


def make(dist, theta, limits=None):
    kw = {} if limits is None else {'truncation_limits': np.array(limits)}
    if dist in {'empirical', 'coupled_empirical'}:
        return uq.rv_class_map(dist)(name='x', theta=np.asarray(theta), **kw)
    return uq.rv_class_map(dist)(
        name='x', theta=None if theta is None else np.asarray(theta, dtype=float), **kw)


FLAWS_V = ('points', 'limits', 'sum', 'rows', 'columns', 'variable', 'zero mean', 'family',
           'before', 'outside', 'fit family', 'percentiles', 'not finite')


@st.composite
def variables(draw):
    flaw = draw(st.sampled_from(FLAWS_V))
    c = {'flaw': flaw, 'at': draw(st.integers(0, 5)), 'a': draw(fl(0.1, 3, 3)),
         'b': draw(fl(0.05, 0.9, 3)), 'dist': draw(st.sampled_from(TWO)),
         'n': draw(st.integers(2, 6))}
    if flaw in {'points', 'limits'}:
        c['theta'] = draw(cdf_points()).tolist()
    if flaw == 'points':
        c['how'] = draw(st.sampled_from(
            ['first', 'last', 'x order', 'x equal', 'y order', 'y equal']))
    if flaw == 'limits':
        c['dist'] = draw(st.sampled_from(
            ['multilinear_CDF', 'empirical', 'coupled_empirical', 'deterministic',
             'multinomial']))
        c['side'] = draw(st.sampled_from([0, 1, 2]))
    if flaw == 'variable':
        c['dist'] = draw(st.sampled_from(['uniform', 'weibull']))
    if flaw in {'family', 'fit family', 'percentiles'}:
        c['name'] = draw(st.sampled_from(
            ['gamma', 'Normal', 'log-normal', 'lognorm', 'beta', 'N/A']))
    return c


def run_variables(c):
    flaw, a, b, n = c['flaw'], c['a'], c['b'], c['n']
    rng = np.random.default_rng(n)
    what = f'{flaw} ({c.get("how") or c.get("name") or c["dist"]})'
    if flaw == 'points':
        good = np.array(c['theta'])
        make('multilinear_CDF', good)
        bad = good.copy()
        k = 1 + c['at'] % (len(good) - 1)
        how = c['how']
        if how == 'first':
            bad[0, 1] = bad[1, 1] / 2
        elif how == 'last':
            bad[-1, 1] = (1 + bad[-2, 1]) / 2
        elif how == 'x order':
            bad[[k, k - 1], 0] = bad[[k - 1, k], 0]
        elif how == 'x equal':
            bad[k, 0] = bad[k - 1, 0]
        elif how == 'y order':
            if len(good) < 4:
                raise Discard
            k = 1 + c['at'] % (len(good) - 3)
            bad[[k, k + 1], 1] = bad[[k + 1, k], 1]
        elif k == len(good) - 1:
            bad[k - 1, 1] = 1.0
        else:
            bad[k, 1] = bad[k - 1, 1]
        refused(lambda: make('multilinear_CDF', bad), V, what)
    elif flaw == 'limits':
        theta = {'multilinear_CDF': c['theta'], 'deterministic': [a],
                 'multinomial': [b / 2, b / 3]}.get(c['dist'], [a, a + 1, a + 2])
        make(c['dist'], theta)
        lim = [a, a + b]
        if c['side'] < 2:
            lim[c['side']] = np.nan
        refused(lambda: make(c['dist'], theta, lim), N, what)
    elif flaw == 'sum':
        p = rng.dirichlet(np.ones(n))
        make('multinomial', p * 0.999)
        refused(lambda: make('multinomial', p * (1 + b / 10)), V, what)
    elif flaw == 'rows':
        rv = make(c['dist'], np.column_stack([np.full(n, a), np.full(n, b)]))
        good = rng.uniform(0.1, 0.9, n)
        rv.inverse_transform(good)
        rv.cdf(good)
        bad = rng.uniform(0.1, 0.9, n + 1 if c['at'] % 2 else n - 1)
        refused(lambda: rv.inverse_transform(bad), V, what)
        refused(lambda: rv.cdf(bad), V, what)
    elif flaw == 'columns':
        rv = make(c['dist'], [a, b], [0.01, a + 5.0, a + 6.0])
        refused(lambda: rv.inverse_transform(np.array([0.2, 0.7])), V, what)
    elif flaw == 'variable':
        make(c['dist'], [a, a + b])
        refused(lambda: make(c['dist'], [[a, a + b]] * n), V, what)
    elif flaw == 'zero mean':
        th = [a, b] if c['at'] % 2 else [[a, b]] * n
        make('normal_cov', th)
        bad = np.array(th)
        bad[..., 0] = bad[..., 0] * 0 if bad.ndim == 1 else [0.0] + [a] * (n - 1)
        refused(lambda: make('normal_cov', bad), V, what)
    elif flaw == 'family':
        refused(lambda: uq.rv_class_map(c['name']), V, what)
    elif flaw == 'before':
        rv = make(c['dist'], [a, b])
        refused(rv.inverse_transform_sampling, V, what)
        rv.uni_sample = np.array([0.2, 0.4])
        rv.inverse_transform_sampling()
    elif flaw == 'not finite':
        s = rng.normal(size=(2, 8))
        uq._get_std_corr_matrix(s)  # noqa: SLF001
        s[c['at'] % 2, n] = (np.nan, np.inf)[c['at'] % 2]
        refused(lambda: uq._get_std_corr_matrix(s), V, what)  # noqa: SLF001
    elif flaw == 'percentiles':
        args = ([a, a + b, a + 2 * b], [0.2, 0.5, 0.8])
        uq.fit_distribution_to_percentiles(*args, ['normal', 'lognormal'])
        refused(lambda: uq.fit_distribution_to_percentiles(*args, [c['name']]), V, what)
    else:
        s = np.exp(rng.normal(size=(1, 20)) * b * 0.5) * a
        if flaw == 'fit family':
            uq.fit_distribution_to_sample(s, 'lognormal')
            refused(lambda: uq.fit_distribution_to_sample(s.copy(), c['name']), V, what)
        else:
            lo, hi = s.min(), s.max()
            lim = [[lo / 2, hi * 2]]
            uq.fit_distribution_to_sample(s.copy(), 'lognormal', truncation_limits=lim)
            lim = [[lo * 1.0001, hi * 2]] if c['at'] % 2 else [[lo / 2, hi * 0.9999]]
            refused(lambda: uq.fit_distribution_to_sample(
                s.copy(), c['dist'] if c['dist'] != 'normal_std' else 'normal_std',
                truncation_limits=lim), V, what)
    return {'nontrivial': True, 'tags': [flaw]}


# ---- models ------------------------------------------------------------------------------

FLAWS_M = {
    'demand': ('source', 'early RID', 'early expansion', 'marginal units'),
    'asset': ('levels', 'component units'),
    'damage': ('table', 'no damage model', 'location', 'direction', 'type', 'expression',
               'scaling all', 'scaling state', 'scaling kind', 'scaling sign',
               'scaling number'),
    'loss': ('no map', 'policy', 'table', 'family', 'units', 'sizes', 'comb variable',
             'comb key', 'comb names', 'comb array', 'registry', 'replacement',
             'no variable', 'no factor', 'empty variable', 'empty factor',
             'loss levels')}

ALL = [(s, f) for s in FLAWS_M for f in FLAWS_M[s]]
GROUPS = 9


@st.composite
def models(draw):
    group = draw(st.integers(0, GROUPS - 1))
    at, as_file = draw(st.integers(0, 20)), draw(st.booleans())
    return dict(draw(P.cases(n_max=12)), group=group, at=at, as_file=as_file)


def table(tab, case, tmp):
    if not case['as_file']:
        return tab
    path = os.path.join(tmp, f'table{len(os.listdir(tmp))}.csv')
    P.write(tab, path)
    return path


def flaw_demand(asm, p, src, case, _tmp):
    flaw = case['flaw']
    if flaw == 'source':
        bad = [5, ['a'], p.dem['marginals'], None][case['at'] % 4]
        return lambda: asm.demand.load_model(bad), (TypeError,)
    if flaw == 'early RID':
        return (lambda: asm.demand.estimate_RID_and_adjust_sample({'yield_drift': 0.01}),
                V)
    if flaw == 'early expansion':
        return lambda: asm.demand.expand_sample('ABC', 1.0, 'g'), V
    marg = p.dem['marginals'].copy()
    marg.iloc[case['at'] % len(marg), list(marg.columns).index('Units')] = 'wrong'
    return lambda: asm.demand.load_model(dict(p.dem, marginals=marg)), (ValueError, KeyError)


def flaw_asset(asm, p, src, case, tmp):
    P.demand_stage(asm, p, src)
    if case['flaw'] == 'component units':
        cmp = {k: v.copy() for k, v in p.cmp.items()}
        tab = cmp['marginals']
        tab.iloc[case['at'] % len(tab), list(tab.columns).index('Units')] = 'wrong'
        return lambda: asm.asset.load_cmp_model(cmp), (ValueError, KeyError)
    P.asset_stage(asm, p, src)
    df, units = asm.asset.save_cmp_sample(None, save_units=True)
    cols = [(*map(str, c),) for c in df.columns]
    cols = [c[:2] for c in cols] if case['at'] % 2 else [(*c, 'x') for c in cols]
    tab = pd.concat([pd.DataFrame([units.tolist()], index=['Units'], dtype=object),
                     pd.DataFrame(df.to_numpy()[:, :], dtype=object)])
    tab.columns = pd.MultiIndex.from_tuples(cols)
    path = os.path.join(tmp, 'cmp.csv')
    tab.columns = ['-'.join(c) for c in cols]
    if len(set(tab.columns)) < len(tab.columns):
        raise Discard
    tab.to_csv(path)
    return lambda: asm.asset.load_cmp_sample(path), V


def flaw_damage(asm, p, src, case, tmp):
    if p.damage is None:
        raise Discard
    P.demand_stage(asm, p, src)
    P.asset_stage(asm, p, src)
    flaw, at = case['flaw'], case['at']
    ids = set(asm.asset.list_unique_component_ids())
    tab = p.damage.copy()
    names = list(tab.index)
    name = names[at % len(names)]
    if flaw == 'table':
        keep = [c for c in tab.columns if not str(c[0]).startswith(('LS', 'DS'))]
        tab = tab[keep]
        return lambda: asm.damage.load_model_parameters([table(tab, case, tmp)], ids), V
    if flaw == 'no damage model':
        return (lambda: asm.damage.calculate(p.process, 1000, p.scaling)), (
            ValueError, AssertionError)
    # only components that are part of the asset are needed
    if name not in ids:
        raise Discard
    scaling = copy.deepcopy(p.scaling) or {}
    if flaw in {'location', 'direction', 'type', 'expression'}:
        if flaw == 'location':
            tab.loc[name, ('Demand', 'Offset')] = 40
        elif flaw == 'direction':
            tab.loc[name, ('Demand', 'Directional')] = 1
            drop = str(1 + at % 2)
            asked = {str(c[2]) for c in asm.asset.cmp_sample.columns if c[0] == name}
            if drop not in asked:
                raise Discard
            typ = case['comps'][name]['demand'] if name in case['comps'] else None
            if typ is None:
                raise Discard
            asm.demand.sample = asm.demand.sample[
                [c for c in asm.demand.sample if not (c[0] == typ and c[2] == drop)]]
        elif flaw == 'type':
            tab.loc[name, ('Demand', 'Type')] = 'Peak Ground Velocity'
        else:
            if ('Demand', 'Expression') in tab.columns:
                raise Discard
            typ = case['comps'][name]['demand'] if name in case['comps'] else None
            full = {'PFA': 'Peak Floor Acceleration', 'PID': 'Peak Interstory Drift Ratio',
                    'RID': 'Residual Interstory Drift Ratio'}.get(typ)
            if full is None:
                raise Discard
            tab[('Demand2', 'Type')] = None
            tab[('Demand2', 'Unit')] = None
            tab[('Demand2', 'Offset')] = None
            tab[('Demand2', 'Directional')] = None
            tab[('Demand', 'Expression')] = None
            tab.loc[name, ('Demand', 'Expression')] = (
                'X1_1', 'X1 + [1]', 'X1; X1', 'X1 % 2', 'X1 > 2')[at % 5]
        asm.damage.load_model_parameters([table(tab, case, tmp)], ids)
        kinds = V
    else:
        asm.damage.load_model_parameters([table(tab, case, tmp)], ids)
        one = ('*1.2', '/1.1', ['*1.1'] * case['n'])[at % 3]
        scaling = {name: {
            'scaling all': {'ALL': one, 'LS1': '*1.1'},
            'scaling state': {('DS1', '1', 'all', 'all states')[at % 4]: one},
            'scaling kind': {'LS1': (1.2, None, {'*': 1.2}, ['*1.2', 1.2])[at % 4]},
            'scaling sign': {'LS1': ('1.2', '^2', 'x1.5', '%3')[at % 4]},
            'scaling number': {'LS1': ('*', '*a', '+1.2.3', '/one')[at % 4]}}[flaw]}
        kinds = (TypeError,) if flaw == 'scaling kind' else V
    return lambda: asm.damage.calculate(p.process, 1000, scaling or None), kinds


def flaw_loss(asm, p, src, case, tmp):
    P.demand_stage(asm, p, src)
    P.asset_stage(asm, p, src)
    P.damage_stage(asm, p, src)
    flaw, at, dvs = case['flaw'], case['at'], tuple(case['dvs'])
    asm.loss.decision_variables = dvs
    if flaw == 'no map':
        return lambda: asm.loss.add_loss_map(None, None), V
    if flaw == 'policy':
        bad = ('all', 'Fill', '', 'fill all')[at % 4]
        return lambda: asm.loss.add_loss_map(src.get('map'), bad), V
    if flaw in {'table', 'family', 'units'}:
        asm.loss.add_loss_map(src.get('map'), case['policy'])
        data = list(src['loss'])
        k = at % len(data)
        tab = data[k].copy()
        if flaw == 'table':
            tab = tab[[c for c in tab.columns
                       if not str(c[0]).startswith(('DS', 'LossFunction'))]]
            kinds = V
        elif flaw == 'units':
            pairs = pd.Series([d for _, d in tab.index])
            many = [d for d in pairs.unique() if (pairs == d).sum() > 1]
            if not many:
                raise Discard
            dv = many[at % len(many)]
            rows = [i for i, (_, d) in enumerate(tab.index) if d == dv]
            other = {'Cost': ('USD_2011', 'thousand_USD'), 'Time': ('worker_day', 'hour'),
                     'Carbon': ('kg', 'ton'), 'Energy': ('MJ', 'kJ')}[dv]
            col = list(tab.columns).index(('DV', 'Unit'))
            now = tab.iloc[rows[-1], col]
            tab.iloc[rows[at % len(rows)], col] = [u for u in other if u != now][0]
            kinds = (InconsistentUnitsError,)
        else:
            cols = [c for c in tab.columns if c[1] == 'Family' and tab[c].notna().any()]
            if not cols or (tab.columns.get_level_values(0) == 'LossFunction').any():
                raise Discard
            # (a family that no variable of this model has)
            for c in cols:
                tab[c] = tab[c].where(tab[c].isna(), ('gamma', 'log_normal')[at % 2])
            kinds = (ValueError,)
        data[k] = table(tab, case, tmp)

        def call():
            asm.loss.load_model_parameters(data)
            asm.loss.calculate()
            if flaw == 'family' and not needs_family(asm, cols):
                raise Discard
        return call, kinds
    P.loss_stage(asm, p, src)
    if flaw == 'sizes':
        if p.damage is None:
            raise Discard
        extra = pd.concat([asm.demand.sample, asm.demand.sample.iloc[:1 + at % 3]])
        asm.demand.sample = (extra if at % 2 else asm.demand.sample.iloc[:-1]).reset_index(
            drop=True)
        return asm.loss.calculate, V
    if flaw.startswith('comb'):
        arr = np.array([[0.0, 0.5], [0.5, 1.0]])
        dv, key = dvs[at % len(dvs)], ('a', 'b')
        if flaw == 'comb variable':
            dv = [d for d in ('Cost', 'Time', 'Carbon', 'Energy', 'cost') if d not in dvs][0]
            kinds = V
        elif flaw == 'comb key':
            key, kinds = 'a', (TypeError,)
        elif flaw == 'comb names':
            key, kinds = (('a', 1), (1, 2), ('a', None))[at % 3], V
        else:
            arr, kinds = (arr.tolist(), None, pd.DataFrame(arr))[at % 3], (TypeError,)
        return (lambda: asm.loss.aggregate_losses(
            None, {dv: {key: arr}}, future=True)), kinds
    if flaw in {'registry', 'replacement'}:
        reg = uq.RandomVariableRegistry(asm.options.rng)
        for dv in dvs[:-1] if flaw == 'replacement' else dvs:
            reg.add_RV(uq.rv_class_map('lognormal')(name=dv, theta=np.array([50.0, 0.3])))
        conf = (reg, {dvs[0]: 0.4})
        kinds = V
        if flaw == 'registry':
            conf, kinds = (dict(reg.RV), {dvs[0]: 0.4}), (TypeError,)
        return lambda: asm.loss.aggregate_losses(conf, future=True), kinds
    if flaw == 'loss levels':
        model = asm.loss.ds_model
        if model.sample is None or model.sample.shape[1] == 0:
            raise Discard
        path = os.path.join(tmp, 'loss.csv')
        asm.loss.save_sample(path)
        tab = pd.read_csv(path, index_col=0, dtype=str, keep_default_na=False)
        tab.columns = [f'{c}-x' if at % 2 else '-'.join(c.split('-')[:5])
                       for c in tab.columns]
        if len(set(tab.columns)) < len(tab.columns):
            raise Discard
        tab.to_csv(path)
        return lambda: model.load_sample(path), V
    spec = pd.DataFrame({'Decision Variable': [dvs[0]] * 3, 'Scale Factor': [1.0, 2.0, 3.0]})
    if flaw.startswith('no '):
        spec = spec.drop(columns='Decision Variable' if 'variable' in flaw
                         else 'Scale Factor')
    else:
        spec.iloc[at % 3, 0 if 'variable' in flaw else 1] = None
    path = os.path.join(tmp, 'scale.csv')
    spec.to_csv(path, index=False)
    return lambda: asm.loss.consequence_scaling(path), V


def needs_family(asm, cols):
    """Some damaged quantity has consequences of a damage state with a family."""
    sample = asm.damage.ds_model.sample
    if sample is None:
        return False
    states = {c[0][2:] for c in cols}
    return any(str(c[4]) in states and (sample[c].fillna(0) > 0).any() for c in sample)


def run_models(case):
    done = []
    for stage, flaw in ALL[case['group']::GROUPS]:
        this = dict(case, stage=stage, flaw=flaw)
        p = P.Pieces(this)
        asm = dmg.assessment(p.config())
        src = P.sources(p)
        with tempfile.TemporaryDirectory() as tmp:
            try:
                call, kinds = globals()[f'flaw_{stage}'](asm, p, src, this, tmp)
                refused(call, kinds, f'{stage} with flaw `{flaw}`')
            except Discard:
                continue
            done.append(flaw)
    # without the flaw
    P.compute(case)
    return {'nontrivial': len(done) > 1, 'tags': done}


SUBS = [Sub('variables', variables(), run_variables, 800, 20000),
        Sub('models', models(), run_models, 70, 5000)]
