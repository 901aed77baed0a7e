"""Seeded scenarios run in forked workers: each gives one recorded execution."""
import traceback
from .gen import rng_for
from . import core

class Stop(Exception):
    """the execution cannot be followed any further"""

class Rec:
    """records events"""
    def __init__(self, tid):
        self.tid, self.ev = tid, []

    def log(self, op, ok=True, **k):
        self.ev.append(dict(op=op, ok=bool(ok), **k))

    def done(self):
        return dict(tid=self.tid, ev=self.ev)

    def close(self):
        pass

_all = {}

def family(cls):
    """decorator for the scenarios that record into a cls"""
    def scen(fn):
        def run(args):
            pid, seed, i, tier = args
            W = cls('%s-%d' % (fn.__name__, i))
            try:
                fn(W, rng_for(seed, fn.__name__, pid, i), tier)
            except Stop:
                pass
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as e:
                W.log('crash', False, what='%s: %s at %s' % (type(e).__name__, str(e)[:120], traceback.extract_tb(e.__traceback__)[-1].name))
            finally:
                W.close()
            return W.done()
        _all[fn.__name__] = run
        return fn
    return scen

def _run(a):
    return _all[a[0]](a[1])

def drive(ctx, *plan):
    jobs = [(name, (ctx.pid, ctx.seed, i, ctx.tier)) for name, n in plan for i in range(n)]
    return [t for t in core.fork_map(_run, jobs) if t['ev']]
