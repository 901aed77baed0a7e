"""Specification -> code: the behaviours TLC generates from spec/MCWorld.tla, performed on real objects.

Every history becomes one recorded execution (judged by WorldTrace); what is asked afterwards depends on the check."""
import random
import numpy as np
from .env import rt, call
from .num import F
from .world import World, Stop, INF
from .queries import ask
from .gen import rng_for
from . import core

def number(x):
    return F(x)

# what only some kinds of paths can do
CLASS = dict(C05='ImagingPath', C07='ImagingPath', C08='ImagingPath', C09='ImagingPath', C14='ImagingPath', C16='LaserCavity', C25='ImagingPath', C26='ImagingPath', C31='ImagingPath')

def make(W, e):
    """one of the elements to start from"""
    if e['op'] == 'newgroup':
        return W.newgroup(e['items'], CLASS.get(W.pid) or ['ImagingPath', 'LaserPath', 'MatrixGroup', 'ImagingPath'][W.variant % 4], label=e['label'])
    c = e['c']
    n = lambda k: number(c[k])
    return W.new(c['k'], tuple(number(x) for x in c['p']), n('L'), n('fv'), n('bv'), n('n1'), n('n2'), n('ap'), n('na'), c['label'])

def perform(W, e):
    g, op = e['g'], e['op']
    if op == 'append':
        W.append(g, e['i'])
    elif op == 'insert':
        W.insert(g, e['idx'], e['items'], 'list')
    elif op == 'pop':
        W.pop(g, e['idx'])
    elif op == 'setitem':
        W.setitem(g, e['idx'], e['items'], 'one')
    elif op == 'setslice':
        W.setslice(g, e['i'], e['j'], e['items'], 'list')
    elif op == 'getslice':
        W.getslice(g, e['i'], e['j'])
    elif op == 'flip':
        W.flip(g)
    elif op == 'save':
        W.save(g, e['f'])
    elif op == 'load':
        W.load(g, e['f'], e['app'])
    elif op == 'setax':
        W.setaxicon(g, number(e['p'][0]), number(e['p'][1]))
    elif op == 'revappend':
        W.revappend(g, e['sf'], e['sl'])
    else:
        raise core.Machinery('unknown operation %s' % op)

RAYS = [(1.0, 0.0), (0.0, 0.25), (-2.0, 0.5), (3.0, -0.125), (2.0, 0.0), (2.5, 0.0)]
def ray(k):
    y, th = RAYS[k % len(RAYS)]
    return rt.Ray(y, th)

# what is asked about a group when it has been put together, by check
def a01(W, g, k):
    ask(W, g, 'matrix'), ask(W, g, 'matrices')
    W.trace(g, ray(k)), ask(W, g, 'mulray', ray=ray(k + 1))
def a02(W, g, k):
    ask(W, g, 'items'), ask(W, g, 'matrix'), W.trace(g, ray(k))
    n = len(W.o(g).elements)
    ask(W, g, 'item', idx=[0, -1, n, -n - 1, n - 1, -n][k % 6])
def a04(W, g, k):
    W.also = ['C04']
    for j in range(3):
        W.trace(g, ray(k + j))
    W.trace_fresh(g, ray(k))
    W.check_kept()
def a05(W, g, k):
    """whatever is asked, nothing has changed afterwards (the recording compares all attributes at every event)"""
    kinds = [a01, a07, a08, a09, a10, a11, a12, a14, a15, a25, a26]
    for j in range(4):
        kinds[(k + 3 * j) % len(kinds)](W, g, k)
        W.trace(g, W.watch(ray(k + j)), through=j % 2 == 0)
    W.many(g, [W.watch(ray(j)) for j in range(len(RAYS))])
    W.check_kept()
def a06(W, g, k):
    for j in range(len(RAYS)):
        W.trace(g, ray(j))
def a07(W, g, k):
    ask(W, g, 'astop'), ask(W, g, 'marginal', y=[0.0, 1.0, -3.0][k % 3]), ask(W, g, 'axial')
def a08(W, g, k):
    ask(W, g, 'fstop'), ask(W, g, 'hfov'), ask(W, g, 'principal'), ask(W, g, 'chief', y=[1.0, -2.0][k % 2]), ask(W, g, 'imgsize', use=k % 2 == 0)
def a09(W, g, k):
    ask(W, g, 'pupil'), ask(W, g, 'fnum'), ask(W, g, 'na'), ask(W, g, 'lagr')
def a31(W, g, k):
    np.random.seed(k)
    ask(W, g, 'report', n=8, **[{}, dict(angle=0.5), dict(diameter=4.0, angle=0.25), dict(diameter=1.0)][k % 4])
def a10(W, g, k):
    ask(W, g, 'matrix'), ask(W, g, 'inv', ray=ray(k), ray2=ray(k + 1), z=0.0)
def a11(W, g, k):
    for q in ('fconj', 'bconj', 'mag', 'iconj'):
        ask(W, g, q)
    ask(W, g, 'toconj')
def a12(W, g, k):
    z = [0.0, 2.0, -3.5][k % 3]
    ask(W, g, 'efl'), ask(W, g, 'pp', z=z), ask(W, g, 'foci', z=z), ask(W, g, 'bfl'), ask(W, g, 'ffl'), ask(W, g, 'f2f'), ask(W, g, 'tofocus')
def a13(W, g, k):
    W.trace(g, ray(k))
    W.flip(g)
    ask(W, g, 'matrix'), ask(W, g, 'items'), W.trace(g, ray(k + 1)), ask(W, g, 'bfl', flipped=True), ask(W, g, 'ffl', flipped=True)
    W.flip(g)
    ask(W, g, 'matrix'), ask(W, g, 'items')
def a14(W, g, k):
    for z in (-1.0, 0.0, 1.0, 4.0, 4.5, 8.0, 10.0, INF):
        ask(W, g, 'upto', z=z)
    for z in (0.0, 1.0, 4.0, 6.5, 9.0, 40.0):
        for back in (False, True):
            s = W.subpath(g, z, back)
            if s:
                W.trace(s, ray(k))
def a15(W, g, k):
    b = W.newbeam(q=complex([-2.0, 0.0, 4.0][k % 3], [4.0, 1.5][k % 2]), n=1.0, lam=0.001)
    W.beam(g, b), ask(W, g, 'mulbeam', beam=b)
def a16(W, g, k):
    W.revappend(g, bool(k & 1), bool(k & 2))
    ask(W, g, 'matrix'), ask(W, g, 'items'), W.trace(g, ray(k)), ask(W, g, 'modes')
def a17(W, g, k):
    W.many(g, [ray(j) for j in range(len(RAYS))])
def a20(W, g, k):
    W.save(g, 'q')
    h = W.newgroup([])
    W.load(h, 'q', False)
    W.load(g, 'q', True)
    ask(W, h, 'matrix'), W.trace(h, ray(k))
def a25(W, g, k):
    z = [0.0, 1.0, -2.0, 0.0, 5.0][k % 5]
    rays = [ray(k + j) for j in range(3)] if z == 0.0 and k % 2 else rt.ObjectRays(2.0, halfAngle=0.25, H=2, T=2, z=z)
    ask(W, g, 'lines', rays=rays, remove=k % 2 == 0)
    ask(W, g, 'images', z=z, d=4.0)
    ask(W, g, 'stopmarks')
def a26(W, g, k):
    for j, z in enumerate((0.0, 2.0, 4.0, 7.0, 30.0, -1.0)):
        ask(W, g, 'along', ray=ray(k + j), z=z)
    ask(W, g, 'profile', rays=[ray(k + j) for j in range(4)], z=[0.0, 2.0, 4.0, 9.0][k % 4])
def a27(W, g, k):
    for i in (1, 2):
        ask(W, i, 'axicon', y=[1.0, -2.5, 4.0][k % 3])
        W.trace(i, ray(k), through=True), W.trace(i, rt.Ray(0.0, 0.125))
    for j in range(len(RAYS)):
        y, th = RAYS[j]
        W.trace(g, rt.Ray(y, th), through=k % 2 == 0), W.trace(g, rt.Ray(-y, -th))
    W.trace(g, rt.Ray(1.0, 0.0, 0, True))
    W.many(g, [ray(j) for j in range(len(RAYS))])
    W.beam(g, W.newbeam(q=complex(-2.0, 4.0), n=1.0, lam=0.001))

def a32(W, g, k):
    for i in range(1, len(W.objs) + 1):
        if i == g or k % 3 == 0:
            W.text(W.o(i))
    r = ray(k)
    W.text(r)
    for x in W.o(g).trace(r)[-2:]:
        W.text(x)
    W.text(W.newbeam(q=complex(-2.0, 4.0), n=1.0, lam=0.001))

ASK = dict(C32=a32, C05=a05, C27=a27, C01=a01, C02=a02, C03=a02, C04=a04, C06=a06, C07=a07, C08=a08, C09=a09, C10=a10, C11=a11, C12=a12, C13=a13, C14=a14, C15=a15,
           C16=a16, C17=a17, C20=a20, C25=a25, C26=a26, C31=a31)

def play(job):
    pid, setup, k, elements, hist = job
    W = World('%s-%d' % (setup, k), exact=True)
    W.variant, W.pid = k, pid
    try:
        for e in elements:
            make(W, e)
        W.pack()
        for e in hist:
            perform(W, e)
        W.modified(False)
        # everything the last operation was about, and the groups it is in
        gs = [hist[-1]['g']] if W.isgroup(W.o(hist[-1]['g'])) else []
        if setup in ('flips', 'files', 'axicons'):
            gs = [i for i in range(len(elements), 0, -1) if W.isgroup(W.o(i))][:3]
        for g in gs:
            ASK[pid](W, g, k) if setup in FULL.get(pid, ('paths',)) else a02(W, g, k)
    except Stop:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

FULL = dict(C01=('paths', 'flips', 'edits'), C02=('paths', 'edits', 'flips'), C03=('paths', 'edits'), C04=('paths', 'flips'), C16=('paths', 'cavities'),
            C27=('axicons',), C32=('paths',), C13=('paths',), C20=('paths',))

def replay(ctx, r, setup, limit=None, only=None):
    """every history (or a seeded choice of as many as limit) on the code"""
    out = core.outs(r)
    elements = [o['sub'] for o in out if 'sub' in o][0]
    hists = {}
    for o in out:
        if 'hist' in o and (only is None or len(o['hist']) in only):
            hists[repr(o['hist'])] = o['hist']
    all_ = [hists[k] for k in sorted(hists)]
    jobs = list(enumerate(all_))
    if limit and len(jobs) > limit:
        jobs = sorted(rng_for(ctx.seed, setup, ctx.pid, 0).sample(jobs, limit))
    traces = core.fork_map(play, [(ctx.pid, setup, k, elements, h) for k, h in jobs])
    ctx.kinds['histories of MCWorld/%s' % setup] = len(jobs)
    ctx.log('replaying %d of %d histories of %s' % (len(jobs), len(all_), setup))
    ctx.validate('WorldTrace', traces)
