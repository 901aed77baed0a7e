"""Imported first by every driver process: scratch home, /repo first on the path, quiet, bounded."""
import os, sys, warnings, signal, contextlib, io

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
with contextlib.redirect_stdout(io.StringIO()):
    import raytracing
    import raytracing as rt
assert os.path.dirname(os.path.dirname(os.path.abspath(raytracing.__file__))) == os.path.abspath(REPO), raytracing.__file__
warnings.resetwarnings()
warnings.simplefilter('ignore')

class Hang(BaseException):
    pass

def _alarm(*a):
    raise Hang()

signal.signal(signal.SIGALRM, _alarm)

@contextlib.contextmanager
def limit(seconds=20):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

_sink = io.StringIO()

def call(f, *a, seconds=20, **k):
    """(ok, result-or-exception); everything the code under test prints or warns is dropped."""
    try:
        with limit(seconds), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return True, f(*a, **k)
    except Hang:
        return False, Hang('no answer in %ss' % seconds)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        return False, e

import time
_sleep = time.sleep
time.sleep = lambda s: _sleep(min(s, 0.0005))   # save() waits a full second for slow disks
