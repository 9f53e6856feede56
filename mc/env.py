"""Process environment for every check: one place that fixes interpreter, numba and
filesystem behaviour, so that a run is deterministic and touches only a scratch folder.

Importing this module (before numpy/numba) is mandatory."""
import os, sys, tempfile, shutil, atexit

REPO = os.environ.get('MC_REPO', '/repo')
PY = '/opt/venv/bin/python'

os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONHASHSEED'] = '0'
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
# Semantics-preserving compile settings: no LLVM optimisation (the classes cannot be
# cached on disk, so every process compiles them), and every array access in compiled
# code is bounds checked, which turns silent out-of-range reads into exceptions.
os.environ['NUMBA_OPT'] = '0'
os.environ['NUMBA_BOUNDSCHECK'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ[v] = '1'
sys.dont_write_bytecode = True

_here = os.path.dirname(os.path.abspath(__file__))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if _here not in sys.path:
    sys.path.insert(0, _here)

_scratch = None


def scratch():
    """A private working directory laid out like the repository's run directory."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='mmrt_mc_')
        pid = os.getpid()
        d = _scratch

        def _rm():
            if os.getpid() == pid:
                os.chdir('/')
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
        for p in ('matrix_files', 'local_run_data', 'benchmarks', 'input_scripts'):
            os.makedirs(os.path.join(d, 'moving_mesh_transport', p))
        src = os.path.join(REPO, 'moving_mesh_transport', 'input_scripts')
        for f in sorted(os.listdir(src)):
            shutil.copy(os.path.join(src, f), os.path.join(d, 'moving_mesh_transport', 'input_scripts', f))
        os.chdir(d)
    return _scratch


# The code prints from compiled code straight to C stdout; keep the real stdout for
# the checker's own lines and send everything else to /dev/null.
_out_fd = os.dup(1)
_err_fd = os.dup(2)
_devnull = os.open(os.devnull, os.O_WRONLY)


def silence():
    sys.stdout.flush()
    os.dup2(_devnull, 1)


def say(*a):
    os.write(_out_fd, (' '.join(str(x) for x in a) + '\n').encode())
