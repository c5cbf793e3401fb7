"""Independent scenarios in separate processes."""
import os
import pickle
import sys
import traceback
from facts import CheckError


def run(jobs, width=8):
    """jobs: list of (name, callable without arguments returning plain data); results in order"""
    todo = list(enumerate(jobs))
    out = [None] * len(jobs)
    live = {}
    err = None
    while todo or live:
        while todo and len(live) < width:
            i, (name, fn) = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sys.setrecursionlimit(20000)
                try:
                    d = ('ok', fn())
                except CheckError as e:
                    d = ('check', str(e))
                except BaseException:
                    d = ('err', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(d, f)
                os._exit(0)
            os.close(w)
            live[r] = (i, name, pid)
        import select
        for r in select.select(list(live), [], [])[0]:
            i, name, pid = live.pop(r)
            with os.fdopen(r, 'rb') as f:
                b = f.read()
            os.waitpid(pid, 0)
            if not b:
                err = err or CheckError('the analysis of %s ended without a result' % name)
                continue
            k, v = pickle.loads(b)
            if k == 'ok':
                out[i] = v
            else:
                err = err or CheckError('%s: %s' % (name, v))
    if err:
        raise err
    return out


class Rec:
    """takes down what a scenario reports"""
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name not in ('count', 'sample', 'note', 'violation', 'rule'):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
        return f


def scenarios(rep, jobs, width=8):
    """jobs: (name, function of a report); everything reported ends up in rep"""
    def wrap(fn):
        def g():
            r = Rec()
            fn(r)
            return r.calls
        return g
    for calls in run([(n, wrap(f)) for n, f in jobs], width):
        for name, a, k in calls:
            getattr(rep, name)(*a, **k)
