"""C29: calculations follow their configuration."""
from __future__ import annotations

import numpy as np
import pandas as pd

from pbt import calc, hurricane
from pbt.core import Sub, require, require_same
from pbt.regional import Library

RULE = ('A case counts when a component is damaged in some realization, or the damage '
        'process changes the damage.')
ASSUMPTIONS = [
    'capacities, consequences and quantities have (nearly) no uncertainty, and demands are '
    'not within 1e-4 of a capacity',
    'collapse limits keep at least one realization',
    'floor accelerations and velocities of a component are those of the floor below it '
    '(the default demand offset)',
]
QUICK_S = 90


def run_calculation(case):
    with calc.fresh(), Library() as lib:
        asm = calc.execute(case, lib)
        demand, dropped = calc.check_demand(case, asm)
        states, groups, changed = calc.check_damage(case, asm, demand)
        exp = calc.summary_of(case, states, groups)
        got = pd.read_csv('results/DL_summary.csv', index_col=0)
        # the summary has a dash after single names next to names with two parts
        got.columns = [c.rstrip('-') for c in got.columns]
        # decision variables without any loss may be left out
        must = {k for k, v in exp.items() if np.any(v != 0)} | {'collapse', 'irreparable'}
        require(must <= set(got.columns) <= set(exp), 'summary of %s instead of %s',
                list(got.columns), sorted(exp))
        for k in got.columns:
            require_same(got[k].to_numpy(dtype=float), exp[k], f'summary of {k}', 2e-8,
                         2e-8)
    hurt = any(np.any(v > 0) for v in states.values())
    return {'nontrivial': bool(hurt or changed),
            'tags': [case['process'], 'losses' if case['losses'] else 'no losses',
                     'dropped' if dropped else 'none dropped']}


SUBS = [Sub('calculation', calc.cases(), run_calculation, 250, 5000),
        Sub('defaults', calc.cases('defaults'), run_calculation, 60, 1000),
        Sub('hurricane', hurricane.cases(), hurricane.run, 100, 2000)]
