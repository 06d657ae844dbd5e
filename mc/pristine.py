"""Run a function in a forked child of a process that has not yet imported kymatio, and return its (pickled) result."""
import os, pickle, signal, sys, traceback
from .core import Violation


def run(fn, *args):
    assert not any(m == 'kymatio' or m.startswith('kymatio.') for m in sys.modules), 'not pristine'
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.close(r)
        try:
            try:
                res = ('ok', fn(*args))
            except Violation as e:
                res = ('violation', str(e))
            except BaseException as e:
                res = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('the child process died')
    kind, val = pickle.loads(data)
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(val)
    raise RuntimeError(val)
