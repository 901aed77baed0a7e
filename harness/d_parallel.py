"""Replays the cases of the protocol of spec/Parallel.tla on the real code."""
from .env import rt, call
from . import core
from .world import FORMS, iterable, workers

def case(c):
    """every input and every number of processes, in one of the ways workers can behave"""
    k, o, mode = c
    path = rt.MatrixGroup([rt.Aperture(10.0), rt.Space(1.0)])
    rays = [rt.Ray(j / 8.0 if ok else 100.0 + j, 0.0) for j, ok in enumerate(o['through'], 1)]
    want = [j / 8.0 for j in o['want']]
    bad = []
    form = FORMS[k % len(FORMS)]
    def f():
        with workers(mode):
            return [r.y for r in path.traceManyThroughInParallel(iterable(rays, form), progress=False, processes=o['p'])]
    d = dict(case=o, mode=mode, iterable=form)
    ok, got = call(f)
    if not ok or sorted(got) != sorted(want):
        bad.append(('collection traced in parallel', dict(d, wanted=want, got=repr(got))))
    ok, got = call(lambda: [r.y for r in path.traceManyThrough(iterable(rays, form), progress=False)])
    if not ok or got != want:
        bad.append(('rays traced one by one', dict(d, wanted=want, got=repr(got))))
    ok, got = call(lambda: [t[-1].y for t in path.traceMany(iterable(rays, form))])
    if not ok or got != [r.y for r in rays]:
        bad.append(('one trace per ray', dict(d, wanted=[r.y for r in rays], got=repr(got))))
    return bad

def replay(ctx, r):
    modes = ['plain', 'uneven', 'nopool', 'plain', 'unpicklable' if False else 'uneven']
    cases = {}
    for o in core.outs(r):
        cases[repr(o)] = o
    jobs = [(k, o, modes[(k + ctx.seed) % len(modes)]) for k, (_, o) in enumerate(sorted(cases.items()))]
    if ctx.tier == 'thorough':
        jobs = [(k + i, o, m) for i, m in enumerate(['plain', 'uneven', 'nopool']) for k, o, _ in jobs]
    bad = [b for bs in core.fork_map(case, jobs) for b in bs]
    ctx.replayed(len(jobs), bad, 'Parallel')
