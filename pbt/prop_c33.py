"""C33: results depend on the current inputs only, not on earlier steps."""
from __future__ import annotations

import copy
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pelicun import uq

from pbt import dmg
from pbt import pipeline as P
from pbt.core import Sub, require
from pbt.gen import seeds

RULE = 'A case counts when a stage was calculated at least twice with different inputs.'
ASSUMPTIONS = [
    'parameter tables of damage and losses are loaded once per assessment, and damage '
    'parameters only for components of the asset model',
    'damage and losses are calculated for samples of the same size',
    'the random numbers start from the same seed at each step',
]
QUICK_S = 80
OPTS = {'list_all_ds': [True, False],
        'eco_scale': [{'AcrossFloors': a, 'AcrossDamageStates': b}
                      for a in (True, False) for b in (True, False)],
        'nondir_multi_dict': [{'ALL': 1.2}, {'ALL': 1.0, 'PFA': 1.5}],
        'demand_offset': [{'PFA': -1, 'PFV': -1}, {'PFA': 0, 'PFV': 0}],
        'sampling_method': ['LHS', 'MonteCarlo', 'LHS_midpoint'],
        'rho_cost_time': [0.0, 0.6]}


@st.composite
def cases(draw):
    case = draw(P.cases(14))
    case['policy'] = None
    case['sizes'] = [case['n'], case['n'] + draw(st.integers(1, 9))]
    # components with damage parameters stay (see ASSUMPTIONS)
    free = [k for k, c in case['comps'].items() if c['kind'] == 'lf']
    fixed = [k for k in case['comps'] if k not in free] + (
        ['collapse'] if case['collapse'] else [])
    size = None
    ops = []

    def demand():
        nonlocal size
        size = draw(st.sampled_from([0, 0, 1]))
        how = draw(st.sampled_from(['model', 'plain', 'calm', 'again', 'calibrated',
                                    'fitted', 'stored']))
        return ['demand', how if ops else 'model', draw(seeds()), size]

    def asset():
        keep = list(fixed)
        if free:
            keep += draw(st.lists(st.sampled_from(free), unique=True,
                                  min_size=0 if fixed else 1))
        return ['asset', keep, draw(st.sampled_from([1.0, 2.5])),
                draw(st.sampled_from([None, 1, 2])), draw(seeds()), size]

    ops.append(demand())
    ops.append(asset())
    here, done = size, {'damage': None, 'loss': None}
    for _ in range(draw(st.integers(4, 11))):
        kind = draw(st.sampled_from(['demand', 'asset', 'damage', 'damage', 'loss', 'loss',
                                     'scale', 'reload', 'option', 'aggregate', 'other']))
        if kind == 'demand':
            ops.append(demand())
        elif kind == 'asset':
            ops.append(asset())
            here = size
        elif kind == 'damage':
            if here != size:
                ops.append(asset())
                here = size
            ops.append(['damage', draw(st.sampled_from([1, 3, 1000])), draw(st.booleans()),
                        draw(st.booleans()), draw(seeds())])
            done['damage'] = size
        elif kind == 'loss':
            if here != size:
                ops.append(asset())
                here = size
            if done['damage'] != size:
                ops.append(['damage', 1000, True, True, draw(seeds())])
                done['damage'] = size
            elif draw(st.booleans()):
                ops.append(['damage', 1000, True, False, draw(seeds())])
            ops.append(['loss', draw(seeds())])
            done['loss'] = size
        elif kind == 'scale':
            if done['loss'] is not None:
                ops.append(['scale', draw(st.sampled_from(case['dvs'])),
                            draw(st.sampled_from([0.0, 0.5, 3.0]))])
        elif kind == 'reload':
            if done['damage'] is not None:
                ops.append(['reload'])
        elif kind == 'option':
            k = draw(st.sampled_from(sorted(OPTS)))
            ops.append(['option', k, draw(st.sampled_from(OPTS[k]))])
        elif kind == 'aggregate':
            if done['loss'] is not None and done['loss'] == size:
                ops.append(['aggregate', draw(st.booleans()), draw(seeds())])
        else:
            ops.append(['other', draw(seeds())])
    if here != size or draw(st.booleans()):
        ops.append(asset())
    if draw(st.integers(0, 5)):
        if done['damage'] != size or draw(st.booleans()):
            ops.append(['damage', 1000, True, False, draw(seeds())])
        ops.append(['loss', draw(seeds())])
        ops.append(['aggregate', draw(st.booleans()), draw(seeds())])
    case['ops'] = ops
    return case


class Bench:
    """An assessment with the parameters of a case, and the steps."""

    def __init__(self, case):
        self.p = P.Pieces(case)
        self.case = case
        cfg = self.p.config()
        cfg.pop('SamplingMethod', None)
        self.asm = asm = dmg.assessment(cfg)
        asm.stories = case['floors']
        asm.asset.load_cmp_model(
            {'marginals': self.p.cmp['marginals'].drop(columns='Blocks')})
        names = set(self.p.names)
        if self.p.damage is not None:
            asm.damage.load_model_parameters([self.p.damage.copy()], names)
        asm.loss.decision_variables = tuple(case['dvs'])
        asm.loss.add_loss_map(pd.DataFrame(
            {'Repair': {nm: 'replacement' if nm == 'collapse' else nm
                        for nm in self.p.names}}))
        asm.loss.load_model_parameters([t.copy() for t in self.p.loss])
        self.agg = {}

    def options(self, opts):
        for k, v in opts.items():
            setattr(self.asm.options, k, copy.deepcopy(v))

    def demand(self, how, seed, size):
        d, n = self.asm.demand, self.case['sizes'][size]
        self.asm.options.seed = seed
        cfg = {'SampleSize': n}
        if how == 'model':
            d.load_model({k: v.copy() for k, v in self.p.dem.items()})
        elif how in {'plain', 'calm'}:
            # independent demands, in other units; small ones
            tab = self.p.dem['marginals'].copy()
            drift = [x[0] == 'PID' for x in tab.index]
            if how == 'plain':
                tab.loc[drift, 'Units'] = 'percent'
            else:
                tab[['Theta_0', *(c for c in tab if c.startswith('Trunc'))]] *= 1e-4
            d.load_model({'marginals': tab})
        elif how == 'calibrated':
            d.calibrate_model({'ALL': {'DistributionFamily': 'empirical'},
                               'PID': {'DistributionFamily': 'lognormal'}})
        elif how == 'fitted':
            d.calibrate_model({'ALL': {'DistributionFamily': 'normal'}})
        elif how == 'stored':
            d.save_sample('sample.csv')
            d.load_sample('sample.csv')
            d.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
        if how == 'model' and self.case['dem']['clone']:
            cfg['DemandCloning'] = {'PFA-0-1': ['PFA-0-1', 'PFA-0-3']}
        d.generate_sample(cfg)
        if self.case['dem']['rid'] and how == 'model':
            d.estimate_RID_and_adjust_sample({'yield_drift': self.case['dem']['rid']},
                                             'FEMA P-58')

    def asset(self, keep, factor, blocks, seed, size):
        tab = self.p.cmp['marginals']
        tab = tab.loc[[x for x in tab.index if x in keep]].copy()
        tab['Theta_0'] *= factor
        if blocks is None:
            tab = tab.drop(columns='Blocks')
        else:
            tab['Blocks'] = blocks
        self.asm.options.seed = seed
        self.asm.asset.load_cmp_model({'marginals': tab})
        self.asm.asset.generate_cmp_sample(self.case['sizes'][size])

    def damage(self, batch, process, scaling, seed):
        self.asm.options.seed = seed
        keep = set(self.asm.asset.list_unique_component_ids())
        self.asm.damage.calculate(
            copy.deepcopy(self.p.process) if process and 'collapse' in keep else None,
            batch, copy.deepcopy(self.p.scaling) if scaling else None)

    def loss(self, seed):
        self.asm.options.seed = seed
        self.asm.loss.calculate()

    def scale(self, dv, factor):
        pd.DataFrame({'Decision Variable': [dv], 'Scale Factor': [factor]}).to_csv(
            'scale.csv', index=False)
        self.asm.loss.consequence_scaling('scale.csv')

    def reload(self):
        self.asm.damage.save_sample('damage.csv')
        self.asm.damage.load_sample('damage.csv')

    def aggregate(self, limit, seed):
        self.asm.options.seed = seed
        conf = None
        if limit:
            reg = uq.RandomVariableRegistry(self.asm.options.rng)
            for dv in self.case['dvs']:
                reg.add_RV(uq.rv_class_map('lognormal')(name=dv,
                                                        theta=np.array([5000.0, 0.3])))
            conf = (reg, {self.case['dvs'][0]: 0.1})
        agg, exc = self.asm.loss.aggregate_losses(conf, future=True)
        self.agg = {}
        P.put(self.agg, 'aggregate', agg)
        P.put(self.agg, 'exceeded', exc.astype(float))

    def results(self):
        a, out = self.asm, {}
        if a.demand.sample is not None:
            P.put(out, 'demand', a.demand.sample)
        d = a.demand
        if d.marginal_params is not None:
            num = d.marginal_params.drop(columns=['Family', 'Units'], errors='ignore')
            P.put(out, 'marginals', num.T)
        P.put(out, 'correlation', d.correlation)
        P.put(out, 'empirical', d.empirical_data)
        if a.asset.cmp_sample is not None:
            P.put(out, 'asset', a.asset.cmp_sample)
        P.put(out, 'damage', a.damage.ds_model.sample)
        P.put(out, 'loss_ds', a.loss.ds_model.sample)
        P.put(out, 'loss_lf', a.loss.lf_model.sample)
        out.update(self.agg)
        return out


STAGE = {'demand': ['demand', 'marginals', 'correlation', 'empirical'], 'asset': ['asset'], 'damage': ['damage'],
         'reload': ['damage'], 'loss': ['loss_ds', 'loss_lf'],
         'scale': ['loss_ds', 'loss_lf'], 'aggregate': ['aggregate', 'exceeded']}


def other(seed):
    """Another assessment with other settings."""
    asm = dmg.assessment({
        'Seed': seed, 'ListAllDamageStates': True,
        'DemandOffset': {'PFA': 2, 'PID': 1}, 'RepairCostAndTimeCorrelation': 0.9,
        'NonDirectionalMultipliers': {'ALL': 7.0, 'PID': 4.0},
        'EconomiesOfScale': {'AcrossFloors': False, 'AcrossDamageStates': True}})
    dmg.demands(asm, [('PID', '2', '1'), ('PFA', '3', '1')], np.ones((4, 2)) * [0.01, 3.0],
                ['rad', 'g'])
    dmg.components(asm, [{'cmp': 'B.10.41', 'loc': 1, 'dir': 1, 'q': 2.0, 'blocks': 3}], 4)
    name, row = dmg.fragility('B.10.41', limit_states=[
        {'family': 'lognormal', 'theta': [0.01, 0.4]}])
    asm.damage.load_model_parameters([dmg.damage_table([(name, row)])], {'B.10.41'})
    asm.damage.calculate(scaling_specification={'B.10.41-1-1': {'LS1': '*0.5'}})


# a result: the step that made it, the options, and the results it was made from
NEEDS = {'demand': ['demand'], 'asset': [], 'damage': ['demand', 'asset'],
         'reload': ['asset', 'damage'], 'loss': ['demand', 'asset', 'damage'],
         'scale': ['loss'], 'aggregate': ['demand', 'loss']}
ORDER = ['loss', 'damage', 'demand', 'asset']


def rebuild(bench, node, state):
    """Repeats the steps that a result was made from, and no others."""
    op, opts, used = node
    if op[0] == 'demand' and op[1] in {'model', 'plain', 'calm'}:
        used = {}
    elif op[0] == 'demand' and op[1] != 'again' and used['demand'] is not None:
        # these start from the sample, not from the model it came from
        source = Bench(bench.case)
        rebuild(source, used['demand'], {})
        # (without rounding, as the fit of few realizations amplifies it)
        bench.asm.demand.sample = source.asm.demand.sample.copy()
        bench.asm.demand.user_units = source.asm.demand.user_units.copy()
        used = {}
    # what is needed to get a damage or loss sample comes before the samples it is used with
    for k in ORDER:
        if k in used and used[k] is not None and state.get(k) is not used[k]:
            rebuild(bench, used[k], state)
    for k in ORDER:
        if k in used and used[k] is not None and state.get(k) is not used[k]:
            rebuild(bench, used[k], state)
    bench.options(opts)
    getattr(bench, op[0])(*op[1:])
    state[{'reload': 'damage', 'scale': 'loss'}.get(op[0], op[0])] = node


def attempt(f, *args):
    try:
        f(*args)
    except (ValueError, KeyError, IndexError) as exc:
        return type(exc).__name__
    return None


def run(case):
    """A history of steps on one assessment, each result against its own steps only."""
    home = os.getcwd()
    bench = Bench(case)
    state = {}
    opts = {k: copy.deepcopy(getattr(bench.asm.options, k)) for k in OPTS}
    first = copy.deepcopy(opts)
    seen = {}
    failed = None
    for i, op in enumerate(case['ops']):
        kind = op[0]
        if kind == 'other':
            other(op[1])
            continue
        if kind == 'option':
            opts = {**opts, op[1]: op[2]}
            continue
        if kind in {'damage', 'reload'} and bench.p.damage is None:
            continue
        bench.options(opts)
        before = bench.results()
        node = (op, opts, {k: state.get(k) for k in NEEDS[kind]})
        failed = attempt(getattr(bench, kind), *op[1:])
        if failed:
            fresh = Bench(case)
            fresh.options(first)
            again = None
            sub = {}
            again = attempt(rebuild, fresh, node, sub)
            require(again == failed, 'step %s (%s) fails with %s, and %s without the '
                    'earlier steps', i, op, failed, again)
            break
        after = bench.results()
        mine = STAGE[kind]
        P.same({k: v for k, v in after.items() if k not in mine},
               {k: v for k, v in before.items() if k not in mine},
               f'after step {i} ({kind})', rtol=1e-12)
        state[{'reload': 'damage', 'scale': 'loss'}.get(kind, kind)] = node
        seen.setdefault(kind, []).append(node)
        if kind != 'asset' or i == len(case['ops']) - 1:
            fresh = Bench(case)
            rebuild(fresh, node, {})
            got = fresh.results()
            P.same({k: v for k, v in after.items() if k in mine},
                   {k: v for k, v in got.items() if k in mine},
                   f'step {i} ({kind}) after {[o[0] for o in case["ops"][:i]]}, and '
                   'without the steps it does not depend on', rtol=1e-9)
    require(os.getcwd() == home, 'the working directory is changed')
    return {'nontrivial': any(len(v) > 1 for v in seen.values()),
            'tags': ['refused' if failed else 'complete', *sorted(seen)]}


SUBS = [Sub('history', cases(), run, 85, 1500)]
