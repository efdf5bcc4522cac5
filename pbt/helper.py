"""Entry point of the helper process of pbt.pipeline."""
import os
import sys

sys.pycache_prefix = os.path.join(os.environ['TMPDIR'], 'pyc2')

from pbt import deps  # noqa: E402

deps.ensure(os.environ['VERIF_DEPS'])

from pbt import pipeline  # noqa: E402

pipeline.serve()
