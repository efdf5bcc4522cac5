"""C23: losses of several hazards are combined by tables."""
from __future__ import annotations

from pbt import aggregate as A
from pbt.core import Sub

RULE = ('A case counts when a table combines positive losses of two or more components in '
        'some realization.')
ASSUMPTIONS = ['no component is in two tables of the same decision variable',
               'every table applies somewhere', 'losses are within the domain of the table',
               'a component has one consequence']
QUICK_S = 40


def run(case):
    return A.verdict(case, lambda r: (r['combined'] > 0, [f"{min(r['combined'], 3)} places"]))


SUBS = [Sub('combined', A.cases(combine=True), run, 1200, 25000),
        Sub('large', A.cases(combine=True, large=True), run, 32, 300)]
