"""Run one bounded harness on the untransformed code; prints a RESULT line."""
import importlib
import json
import os
import random
import signal
import sys
import tempfile
import shutil
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
scratch = tempfile.mkdtemp(prefix='pyvc_b_')
os.environ['ROS_LOG_DIR'] = scratch
os.environ['ROS_HOME'] = scratch
os.chdir(scratch)
# the same starting point wherever the check runs: a shell that starts it in the background ignores SIGINT, say
for _s in ('SIGINT', 'SIGTERM', 'SIGQUIT', 'SIGHUP', 'SIGCHLD', 'SIGUSR1', 'SIGUSR2', 'SIGALRM'):
    signal.signal(getattr(signal, _s), signal.default_int_handler if _s == 'SIGINT' else signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, ())
for _s in [k for k in os.environ if k.startswith(('PYTHONUNBUFFERED', 'OVERRIDE_LAUNCH', 'LAUNCH_', 'RCUTILS_', 'ROS_DOMAIN'))]:
    del os.environ[_s]
from pyvc import loader  # noqa: E402

loader.install_native()
warnings.simplefilter('ignore')


class Hang(BaseException):
    pass


hung = []


def _alarm(*_):
    hung.append(1)
    raise Hang('case did not finish in time')


class Harness:
    def __init__(self):
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.rng = random.Random(self.seed)
        self.evaluations = 0
        self.keys = set()
        self.failures = []
        self.samples = []
        self.rule = ''
        self.per_key = {}
        self.scratch = scratch

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough or quick * 8)

    def case(self, key, desc, fn, timeout=20):
        """One concrete case; fn raises on a property violation."""
        self.evaluations += 1
        try:
            d = repr(desc)
        except Exception:
            d = '<unprintable>'
        self.keys.add((key, d))
        if len(self.samples) < 5 and self.evaluations % 7 == 1:
            self.samples.append('%s: %s' % (key, d[:300]))
        if self.per_key.get(key, 0) >= 3:
            return False
        signal.signal(signal.SIGALRM, _alarm)
        hung.clear()
        signal.setitimer(signal.ITIMER_REAL, timeout, 2)     # again, where the code under test swallows it
        try:
            fn()
            signal.setitimer(signal.ITIMER_REAL, 0)
            if hung:
                raise Hang('case did not finish in time')
            return True
        except BaseException as exc:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(exc, KeyboardInterrupt):
                raise
            self.per_key[key] = self.per_key.get(key, 0) + 1
            self.failures.append(dict(key=key, input=d[:2000], error='%s: %s' % (type(exc).__name__, exc),
                                      trace=traceback.format_exc()[-1200:]))
            return False
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    h = Harness()
    err = None
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 120, 2)     # the first case sets it anew
        mod = importlib.import_module('bounded.' + sys.argv[1])
        h.rule = getattr(mod, 'RULE', '')
        mod.run(h)
    except BaseException as exc:
        err = traceback.format_exc()[-3000:]
        root, here = (os.path.realpath(p) + os.sep for p in (loader.REPO, ROOT))
        ours = [f for f in (os.path.realpath(f.filename) for f in traceback.extract_tb(exc.__traceback__)) if f.startswith((root, here))]
        if ours and ours[-1].startswith(root) and isinstance(exc, (Exception, Hang)):
            # public interfaces that work on the unchanged tree: importing or constructing fails in the code itself
            h.failures.append(dict(key='setup', input='importing and constructing what the cases need',
                                   error='%s: %s' % (type(exc).__name__, exc), trace=err[-1200:]))
    out = dict(evaluations=h.evaluations, distinct=len(h.keys), failures=h.failures, samples=h.samples,
               rule=h.rule)
    if err:
        out['error'] = err
    sys.stdout.flush()
    print()
    print('RESULT ' + json.dumps(out, default=str))
    sys.stdout.flush()
    os.chdir('/')
    if scratch.startswith(tempfile.gettempdir()):
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


if __name__ == '__main__':
    main()
