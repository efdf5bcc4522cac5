"""C16: consequences of damage states."""
from __future__ import annotations

import numpy as np
import pandas as pd

from pbt import losses as L
from pbt.core import Discard, Sub, require, require_same

RULE = ('A case counts when some consequence depends on the quantity, or two or more '
        'consequences are calculated.')
ASSUMPTIONS = [
    'consequences have a constant or a multilinear median; the units of quantities agree '
    'between the component and its consequence',
]
QUICK_S = 40


def run_median(case):
    """Loss = damaged quantity times the consequence at the aggregate quantity."""
    tab = L.ds_table(case)
    if tab is None:
        raise Discard
    asm = L.ds_assessment(case)
    before = tab.copy()
    asm.loss.load_model_parameters([tab])
    pd.testing.assert_frame_equal(tab, before)
    exp = L.ds_reference(case)
    dq = asm.damage.ds_model.sample.copy()
    asm.loss.calculate()
    pd.testing.assert_frame_equal(asm.damage.ds_model.sample, dq)
    s = asm.loss.ds_model.sample
    if not exp:
        require(s is None, 'losses without consequences')
        return {'nontrivial': False, 'tags': ['none']}
    require(list(s.columns.names) == ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'],
            'levels %s', list(s.columns.names))
    got = {tuple(map(str, c)): i for i, c in enumerate(s.columns)}
    require(len(got) == s.shape[1], 'columns are repeated')
    require(set(got) == set(exp), 'losses %s; missing %s', sorted(set(got) - set(exp)),
            sorted(set(exp) - set(got)))
    for k, (v, m, _) in exp.items():
        require_same(s.iloc[:, got[k]].to_numpy(dtype=float), v * m, f'loss {k}', 1e-9,
                     1e-12)
    miss = {(r, d) for r in case['map'].values() for d in case['dvs']
            if d not in case['cons'][r]['par']}
    require(set(asm.loss._missing) == miss, 'missing %s instead of %s',  # noqa: SLF001
            asm.loss._missing, miss)  # noqa: SLF001
    multi = any(isinstance(p['th0'], dict) for _, _, p in exp.values())
    return {'nontrivial': multi or len(exp) > 1,
            'tags': [f'floors {case["floors"]} states {case["states"]}']}


SUBS = [Sub('median', L.ds_cases(), run_median, 300, 5000),
        Sub('large', L.ds_cases(large=True), run_median, 24, 200)]
del np
