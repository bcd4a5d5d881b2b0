"""Process environment of every check: which tree is observed and where scratch files go."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get('RV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if 'RV_SCRATCH' not in os.environ:
        os.environ['RV_SCRATCH'] = tempfile.mkdtemp(prefix='rv-scratch-')
        os.environ['RV_SCRATCH_OWNER'] = str(os.getpid())
    os.environ['MPLCONFIGDIR'] = os.path.join(os.environ['RV_SCRATCH'], 'mpl')
    for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[var] = '1'
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import sampo
    here = os.path.realpath(os.path.dirname(sampo.__file__))
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'sampo imported from {here}, not from {REPO}')
    import sampo.scheduler  # noqa: must be imported before sampo.backend.default (circular import)
    return sampo


def cleanup():
    import shutil
    if os.environ.get('RV_SCRATCH_OWNER') == str(os.getpid()):
        shutil.rmtree(os.environ['RV_SCRATCH'], ignore_errors=True)
