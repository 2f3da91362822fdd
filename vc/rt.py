"""Loading the real package for run-time evaluation."""
import os
import sys
import tempfile
import warnings


MINIMIZE = []


def _record_minimize():
    import scipy.optimize as spo
    real = spo.minimize

    def minimize(*args, **kw):
        r = real(*args, **kw)
        MINIMIZE.append((args, kw, r))
        del MINIMIZE[:-20]
        return r
    spo.minimize = minimize


def load_real(repo="/repo"):
    if "NUMBA_CACHE_DIR" not in os.environ:
        os.environ["NUMBA_CACHE_DIR"] = tempfile.mkdtemp(prefix="vcnb")
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    warnings.simplefilter("ignore")
    _record_minimize()
    import graphicle
    assert os.path.realpath(graphicle.__file__).startswith(
        os.path.realpath(repo) + os.sep), graphicle.__file__
    return graphicle
