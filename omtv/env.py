"""Process environment shared by every check.  Import before openmdao."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('OMTV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare():
    """Set the environment OpenMDAO reads at import time."""
    os.environ['OPENMDAO_REPORTS'] = '0'
    os.environ['OPENMDAO_USE_MPI'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix='omtv_')
    os.environ['OPENMDAO_WORKDIR'] = scratch
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    os.chdir(scratch)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    return scratch


def poison():
    """Memory that omtools allocates without setting it holds values that
    cannot pass for results, as under a memory sanitizer."""
    import numpy as np

    def wrap(f):
        def alloc(*a, **k):
            x = f(*a, **k)
            who = sys._getframe(1).f_globals.get('__name__', '')
            if type(x) is np.ndarray and who.startswith('omtools'):
                if x.dtype.kind in 'fc':
                    x.fill(np.nan)
                elif x.dtype.kind in 'iu':
                    x.fill(np.iinfo(x.dtype).max // 3)
                elif x.dtype.kind == 'b':
                    x.fill(True)
            return x
        return alloc
    np.empty, np.empty_like = wrap(np.empty), wrap(np.empty_like)


def import_target():
    """Import openmdao and omtools; refuse to check the wrong tree."""
    import openmdao.api  # noqa
    poison()
    warnings.simplefilter('ignore')
    import omtools.api
    src = os.path.realpath(omtools.api.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('omtools imported from %s, not %s' % (src, REPO))
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
