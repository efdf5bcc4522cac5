"""Makes Hypothesis importable offline."""
import glob
import importlib
import os
import sys
import zipfile

WHEELS = '/opt/veriftools/wheels'
NAMES = ('hypothesis-*-cp312-cp312-manylinux*x86_64*.whl',
         'sortedcontainers-*.whl', 'attrs-*.whl')


def _importable():
    importlib.invalidate_caches()
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        return False
    return True


def ensure(target):
    """Unpack the wheels to `target` (if needed) and put it on sys.path."""
    if os.path.isdir(os.path.join(target, 'hypothesis')):
        sys.path.append(target)
        if _importable():
            return
        sys.path.remove(target)
    elif _importable():
        return
    os.makedirs(target, exist_ok=True)
    for pat in NAMES:
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if found:
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(target)
    sys.path.append(target)
    if _importable():
        return
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    if not _importable():
        raise ImportError('Hypothesis is not available')
