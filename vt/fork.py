"""run a function in a forked child of this (pristine) process and take its picklable result"""
import os
import pickle
import signal

from .core import HarnessError, Violation


def isolated(fn, seconds=60):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            os.close(r)
            try:
                out = ('ok', fn())
            except Violation as v:
                out = ('violation', str(v))
            except BaseException as e:
                out = ('error', f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            raise Violation(f'no answer within {seconds} s')
        raise HarnessError(f'isolated child died with status {st}')
    kind, v = pickle.loads(data)
    if kind == 'violation':
        raise Violation(v)
    if kind == 'error':
        raise Violation(f'unexpected exception: {v}')
    return v
