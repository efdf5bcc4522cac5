"""C22: replacement is exclusive and triggered by thresholds."""
from __future__ import annotations

from pbt import aggregate as A
from pbt.core import Sub

RULE = ('A case counts when replacement occurs or is triggered in some but not all of the '
        'realizations, or when an invalid configuration is given.')
ASSUMPTIONS = ['replacement consequences of thresholds are stated in base units']
QUICK_S = 40


def run(case):
    return A.verdict(case, lambda r: (
        0 < r['rows'] + r['exceeded'] < r['n'],
        [f"{min(r['rows'], 2)} replaced", f"{min(r['exceeded'], 2)} exceeded"]))


SUBS = [Sub('replaced', A.cases(replacement=True), run, 1200, 25000),
        Sub('large', A.cases(replacement=True, large=True), run, 32, 300)]
