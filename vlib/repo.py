"""Imports the code under test from the working tree of the repository.

The bytecode cache is redirected for these imports only, so that a stale
cache next to the sources can never be what is executed."""
import os
import sys
import tempfile
import atexit
import shutil
import warnings
import contextlib
import importlib

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# Third-party packages are imported first, with their ordinary caches
import numpy as np
import scipy.sparse
import scipy.optimize
import sklearn.utils
import sklearn.utils.validation
import sklearn.cluster
import sklearn.svm
import cvxpy

_prefix = tempfile.mkdtemp(prefix='reor-pyc-')
_pid = os.getpid()


def _cleanup():
    if os.getpid() == _pid:
        shutil.rmtree(_prefix, ignore_errors=True)


atexit.register(_cleanup)
_old_prefix = sys.pycache_prefix
sys.pycache_prefix = _prefix
sys.path.insert(0, SRC)
try:
    import reor
    import reor.simplex_projection as simplex_projection
    import reor.furthest_sum as furthest_sum_module
    import reor.spg as spg
    import reor._random_matrix as random_matrix
    import reor.archetypal_analysis as aa
    import reor.gpnh_convex_coding as gpnh
    import reor.gpnh_convex_coding_crom as crom_gpnh
    import reor.mtd_convex_coding as mtd
    import reor.fembv as fembv
    import reor.fembv_kmeans as fembv_kmeans
    import reor.fembv_varx as fembv_varx
    import reor.pwvarx as pwvarx
    import reor.crom as crom
finally:
    sys.pycache_prefix = _old_prefix

for _m in (simplex_projection, aa, gpnh, mtd, fembv, pwvarx, crom):
    if not os.path.realpath(_m.__file__).startswith(os.path.realpath(SRC)):
        raise ImportError('%s was not imported from %s' % (_m.__name__, SRC))


_NAMES = {n: m.__name__ for n, m in list(globals().items()) if getattr(m, '__name__', '').startswith('reor.')}


@contextlib.contextmanager
def fresh():
    """The names above refer to newly imported modules that nothing has used yet."""
    old = {n: m for n, m in sys.modules.items() if n == 'reor' or n.startswith('reor.')}
    prefix, sys.pycache_prefix = sys.pycache_prefix, _prefix
    try:
        for n in old:
            del sys.modules[n]
        for n, full in _NAMES.items():
            globals()[n] = importlib.import_module(full)
        sys.pycache_prefix = prefix
        yield
    finally:
        sys.pycache_prefix = prefix
        for n in [n for n in sys.modules if n == 'reor' or n.startswith('reor.')]:
            del sys.modules[n]
        sys.modules.update(old)
        for n, full in _NAMES.items():
            globals()[n] = old[full]
