#!/bin/bash
# Unpacks the property-testing library (Hypothesis) from the offline wheelhouse.
# The checks repeat this step on their own in a scratch directory when .deps is missing.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '$here')
from pbt import deps
deps.ensure('$here/.deps')
import hypothesis
print('hypothesis', hypothesis.__version__)
"
