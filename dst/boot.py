"""Bootstrap: import QMix from the working tree with every seam in place."""
import os
import sys

REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo'))
QMIX_DIR = os.path.join(REPO, 'qmix') + os.sep
SCRATCH = None


def boot():
    global SCRATCH
    import tempfile
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'
    import atexit, shutil
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix='dst-qmix-', dir=base)
    os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
    os.mkdir(os.environ['MPLCONFIGDIR'])
    pid = os.getpid()

    def _cleanup():
        if os.getpid() == pid and os.path.basename(SCRATCH).startswith('dst-qmix-'):
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(_cleanup)
    sys.dont_write_bytecode = True
    import numpy, scipy.special, scipy.interpolate, scipy.signal, scipy.optimize, scipy.stats, scipy.constants  # noqa
    import numba  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    from . import simclock, sched
    simclock.install()
    sched.install_lock_seam(QMIX_DIR)
    # never trust cached bytecode of the code under test
    sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
    sys.path.insert(0, REPO)
    for name in [m for m in sys.modules if m == 'qmix' or m.startswith('qmix.')]:
        raise RuntimeError('qmix imported before boot: ' + name)
    import qmix, qmix.circuit, qmix.qtcurrent, qmix.harmonic_balance, qmix.respfn, qmix.exp  # noqa
    import qmix.exp.exp_data, qmix.exp.iv_data, qmix.exp.if_data, qmix.exp.if_response, qmix.exp.clean_data  # noqa
    import qmix.exp.parameters, qmix.mathfn.filters, qmix.mathfn.ivcurve_models, qmix.mathfn.kktrans  # noqa
    import qmix.mathfn.misc, qmix.misc.progbar, qmix.misc.terminal  # noqa
    f = os.path.realpath(qmix.__file__)
    if not f.startswith(QMIX_DIR):
        raise RuntimeError('qmix imported from %s, expected %s' % (f, QMIX_DIR))
    import warnings
    # an unusual filter, so that any other one that is left behind shows; nothing is printed
    warnings.simplefilter('module')
    warnings.showwarning = lambda *a, **k: None
    import gc
    gc.collect()
    gc.freeze()
    return qmix


def tree_digest():
    """sha256 over the Python sources under test (recorded in evidence and replay files)."""
    import hashlib
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(QMIX_DIR)):
        dirs.sort()
        for fn in sorted(files):
            if fn.endswith('.py'):
                p = os.path.join(root, fn)
                h.update(os.path.relpath(p, QMIX_DIR).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]
