"""Import the current /repo source un-jitted and swap its numpy for the proxy.
"""
import os
import sys
import contextlib
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['NUMBA_DISABLE_JIT'] = '1'
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
sys.setrecursionlimit(100000)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa
import scipy as sp  # noqa
import scipy.special  # noqa
import scipy.interpolate  # noqa
import scipy.integrate  # noqa
import empymod  # noqa
from empymod import kernel, transform, utils, model, filters, io  # noqa

assert os.path.realpath(empymod.__file__).startswith(
    os.path.realpath(REPO)), empymod.__file__

from . import npx  # noqa


@contextlib.contextmanager
def symbolic(*mods, extra=None, sp_over=None, pi=True, attrs=()):
    """Within: mods' `np`(/`sp`) are proxies; attrs = [(obj, name, value)]."""
    saved = []
    nproxy = npx.make_np(pi, extra)
    sproxy = npx.ModProxy(sp, sp_over) if sp_over else None
    try:
        for m in mods:
            for nm in ('np', 'numpy'):
                if hasattr(m, nm):
                    saved.append((m, nm, getattr(m, nm)))
                    setattr(m, nm, nproxy)
            if sproxy is not None:
                for nm in ('sp', 'scipy'):
                    if hasattr(m, nm):
                        saved.append((m, nm, getattr(m, nm)))
                        setattr(m, nm, sproxy)
        for o, n, v in attrs:
            saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        yield nproxy
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)
