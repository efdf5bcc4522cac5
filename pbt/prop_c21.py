"""C21: aggregated losses."""
from __future__ import annotations

from pbt import aggregate as A
from pbt.core import Sub

RULE = ('A case counts when losses of two or more columns at two or more locations are '
        'aggregated.')
ASSUMPTIONS = ['a decision variable has one unit', 'names of decision variables differ '
               'when their letter case is ignored']
QUICK_S = 40


def run(case):
    return A.verdict(case, lambda r: (
        r['terms'] > 1 and r['places'] > 1, ['time' if r['time'] else 'no time']))


SUBS = [Sub('sums', A.cases(), run, 1200, 25000),
        Sub('large', A.cases(large=True), run, 32, 300)]
