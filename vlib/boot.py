"""make the code under test and Hypothesis importable, in that order of precedence"""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
from vlib.core import REPO  # noqa: E402

if REPO not in sys.path:
    sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    _vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(os.path.join(_vt, "hypothesis")):
        sys.path.append(_vt)  # last: the repository's own dependencies win
    else:
        sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".deps"))
    import hypothesis  # noqa: F401
