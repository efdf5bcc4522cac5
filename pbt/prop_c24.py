"""C24: whole assessments are reproducible."""
from __future__ import annotations

import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from pelicun import uq
from pelicun.assessment import Assessment

from pbt import dmg
from pbt import pipeline as P
from pbt.core import Discard, Sub, require
from pbt.gen import seeds

RULE = ('A case counts when the assessment has damage and random losses, and another seed '
        'gives other losses.')
ASSUMPTIONS = ['the same versions of the libraries', 'the same order of the rows of tables']
QUICK_S = 60
_helper = None


def helper():
    global _helper
    if _helper is None or _helper.p.poll() is not None:
        _helper = P.Helper()
    return _helper


def lossy(res):
    return any(np.nansum(np.abs(v[1])) > 0 for k, v in res.items() if k == 'aggregate')


def joint_fit_varies():
    """Probe of the known finding: one fit of censored data, several times."""
    rng = np.random.default_rng(0)
    z = rng.normal(size=(4, 60)) + rng.normal(size=(1, 60))
    x = z[:, (z < 1.5).all(axis=0)]
    lim = [[np.nan, 1.5]] * 4
    out = []
    for _ in range(3):
        np.random.seed(1)
        theta, _rho = uq.fit_distribution_to_sample(
            x.copy(), 'normal_std', censored_count=60 - x.shape[1], detection_limits=lim)
        out.append(np.asarray(theta).tolist())
    return out[0] != out[1] or out[0] != out[2]


KNOWN = {'joint-censored-fit': joint_fit_varies}


def run_repeat(case):
    """The same in this process, again, and in a process with other hashes."""
    first = P.compute(case)
    P.same(P.compute(case), first, 'second run in the same process')
    P.same(helper()(case), first, 'run in another process')
    other = P.compute(case, seed=case['seed'] + 1)
    moved = any(not np.array_equal(other[k][1], first[k][1], equal_nan=True)
                for k in ('demand',) if k in other and other[k][0] == first[k][0])
    require(moved, 'another seed gives the same demands')
    return {'nontrivial': lossy(first) and 'damage' in first, 'tags': sorted(first)}


def run_files(case):
    """Tables in files give the results of tables in memory."""
    first = P.compute(case)
    with tempfile.TemporaryDirectory() as tmp:
        P.same(P.compute(case, folder=tmp), first, 'tables in files')
    return {'nontrivial': lossy(first) and 'damage' in first}


@st.composite
def restarts(draw):
    case = draw(P.cases())
    case['stop'] = draw(st.sampled_from(['demand', 'asset', 'damage']))
    case['memory'] = draw(st.booleans())
    case['noise'] = draw(seeds())
    return case


def run_restart(case):
    """Continuing from stored samples gives the results of the whole run."""
    p = P.Pieces(case)
    if p.damage is None and case['stop'] == 'damage':
        raise Discard
    asm = dmg.assessment(p.config())
    src = P.sources(p)
    saved = {}
    with tempfile.TemporaryDirectory() as tmp:
        def keep(name, model):
            path = os.path.join(tmp, f'{name}.csv')
            if not case['memory']:
                model(path)
                saved[name] = path
                return
            import pandas as pd

            df, units = model(None, save_units=True)
            top = units.to_frame().T
            top.index = ['Units']
            saved[name] = pd.concat([top, df.astype(object)])

        def state():
            return copy.deepcopy(asm.options.rng.bit_generator.state)

        P.demand_stage(asm, p, src)
        keep('demand', asm.demand.save_sample)
        at = state()
        P.asset_stage(asm, p, src)
        if case['stop'] != 'demand':
            keep('asset', asm.asset.save_cmp_sample)
            at = state()
        P.damage_stage(asm, p, src)
        if case['stop'] == 'damage':
            keep('damage', asm.damage.save_sample)
            at = state()
        P.loss_stage(asm, p, src)
        first = P.collect(asm, *P.final_stage(asm, p))

        asm = dmg.assessment({**p.config(), 'Seed': case['noise']})
        asm.stories = case['floors']
        asm.demand.load_sample(saved['demand'])
        if 'asset' in saved:
            # samples have no blocks: these are in the model, which is loaded after
            asm.asset.load_cmp_sample(saved['asset'])
            asm.asset.load_cmp_model(src['cmp'])
        if 'damage' in saved:
            asm.damage.load_sample(saved['damage'])
        asm.options.rng.bit_generator.state = at
        if 'asset' not in saved:
            P.asset_stage(asm, p, src)
        if 'damage' not in saved:
            P.damage_stage(asm, p, src)
        P.loss_stage(asm, p, src)
        again = P.collect(asm, *P.final_stage(asm, p))
    again.pop('states', None)
    first.pop('states', None)
    # blocks are only known to the damage state sample
    P.same(again, first, f'continued after {case["stop"]}', rtol=1e-9, flips=0.1)
    return {'nontrivial': lossy(first) and 'damage' in first, 'tags': [case['stop']]}


@st.composite
def shortcuts(draw):
    case = draw(P.cases())
    case['extra'] = draw(st.sampled_from([None, 'plain', 'placed', 'values']))
    case['batch'] = draw(st.sampled_from([None, 1, 3, 1000]))
    case['named'] = draw(st.booleans())
    return case


def run_shortcut(case):
    """The methods of Assessment do what the steps do."""
    p = P.Pieces(case)
    if p.damage is None:
        raise Discard
    extra = None
    if case['extra'] is not None:
        value = 1.5 if case['extra'] != 'values' else np.arange(case['n']) / 8
        extra = {'label': 'XYZ', 'value': value, 'unit': 'g'}
        if case['extra'] != 'plain':
            extra.update(location='2', direction='3')

    asm = dmg.assessment(p.config())
    src = P.sources(p)
    P.demand_stage(asm, p, src)
    if extra is not None:
        asm.demand.expand_sample('XYZ', value, 'g', extra.get('location', '0'),
                                 extra.get('direction', '1'))
    P.asset_stage(asm, p, src)
    P.damage_stage(asm, p, src)
    P.loss_stage(asm, p, src)
    exp = P.collect(asm, *P.final_stage(asm, p))

    asm = Assessment(p.config())
    dem = case['dem']
    cfg = {'SampleSize': case['n']}
    if dem['clone']:
        cfg['DemandCloning'] = {'PFA-0-1': ['PFA-0-1', 'PFA-0-3']}
    rid = None
    if dem['rid']:
        rid = {'parameters': {'yield_drift': dem['rid']}, 'method': 'FEMA P-58'}
        if case['named']:
            del rid['method']
    more = {} if case['batch'] is None else {'block_batch_size': case['batch']}
    keep = copy.deepcopy((cfg, rid, extra, p.process, p.scaling))
    asm.calculate_damage(
        case['floors'], cfg, src['dem'], src['cmp'], [src['damage']], p.process, p.scaling,
        rid, extra, **more)
    asm.calculate_loss(tuple(case['dvs']), list(src['loss']), src.get('map'),
                       case['policy'])
    require(repr(keep) == repr((cfg, rid, extra, p.process, p.scaling)),
            'the settings are changed')
    got = P.collect(asm, *P.final_stage(asm, p, asm.aggregate_loss))
    if extra is not None:
        require(('XYZ', extra.get('location', '0'), extra.get('direction', '1'))
                in got['demand'][0], 'the additional demand is missing')
    if case['batch'] in {None, 1000}:
        P.same(got, exp, 'the methods of Assessment')
    else:
        # other batches have other random numbers, but the same demands and components
        for k in ('demand', 'asset'):
            P.same({k: got[k]}, {k: exp[k]}, 'the methods of Assessment')
    return {'nontrivial': lossy(got), 'tags': [str(case['extra']), str(case['batch'])]}


@st.composite
def aliases(draw):
    case = draw(P.cases())
    case['old'] = draw(st.lists(st.sampled_from(
        ['repair', 'bldg_repair', 'damage', 'model', 'variables', 'dmg', 'column', 'name']),
        min_size=1, max_size=5, unique=True))
    case['map_file'] = draw(st.booleans())
    return case


def run_aliases(case):
    """Earlier names of methods, arguments and labels still mean the same."""
    p = P.Pieces(case)
    if p.damage is None:
        raise Discard
    first = P.compute(case)
    old = set(case['old'])
    asm = dmg.assessment(p.config())
    with tempfile.TemporaryDirectory() as tmp:
        src = P.sources(p)
        P.demand_stage(asm, p, src)
        P.asset_stage(asm, p, src)
        if 'damage' in old:
            asm.damage.load_damage_model([src['damage']])
            asm.damage.calculate(p.process, 1000, p.scaling)
            require(asm.damage.sample is asm.damage.ds_model.sample, 'another sample')
        else:
            P.damage_stage(asm, p, src)
        require(asm.repair is asm.loss and asm.bldg_repair is asm.loss, 'another model')
        loss = (asm.bldg_repair if 'bldg_repair' in old
                else asm.repair if 'repair' in old else asm.loss)
        lmap = src.get('map')
        if lmap is not None:
            if 'dmg' in old:
                lmap = lmap.set_axis([f'DMG-{x}' for x in lmap.index])
            if 'column' in old:
                lmap = lmap.rename(columns={'Repair': 'BldgRepair'})
            if case['map_file']:
                lmap.to_csv(os.path.join(tmp, 'map.csv'))
                lmap = os.path.join(tmp, 'map.csv')
        data = list(src['loss'])
        if 'name' in old:
            for i, t in enumerate(data):
                P.write(t, os.path.join(tmp, f'loss_repair_DB_{i}.csv'))
                data[i] = os.path.join(tmp, f'bldg_repair_DB_{i}.csv')
        dvs = tuple(case['dvs'])
        if 'model' in old and case['policy'] is None and lmap is not None:
            if 'variables' not in old:
                loss.decision_variables = dvs
            loss.load_model(data, lmap, *([dvs] if 'variables' in old else []))
        else:
            if 'variables' not in old:
                loss.decision_variables = dvs
            loss.add_loss_map(lmap, case['policy'])
            loss.load_model_parameters(data, *([dvs] if 'variables' in old else []))
        loss.calculate()
        got = P.collect(asm, *P.final_stage(asm, p))
    P.same(got, first, f'earlier names ({sorted(old)})')
    return {'nontrivial': lossy(first), 'tags': sorted(old)}


SUBS = [Sub('shortcut', shortcuts(), run_shortcut, 40, 2000),
        Sub('aliases', aliases(), run_aliases, 40, 2000),
        Sub('repeat', P.cases(), run_repeat, 60, 2500),
        Sub('files', P.cases(), run_files, 50, 2000),
        Sub('restart', restarts(), run_restart, 60, 2500)]
