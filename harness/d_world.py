"""Drivers for elements, groups and paths (checks C01..C14, C20 groups)."""
import math, random, traceback
import numpy as np
from .env import rt, call
from .world import World, Stop, INF
from .gen import Gen, rng_for
from .queries import ask
from . import core

def scenario(fn):
    """fn(W, rng, tier): drives the code; what happens is recorded in W"""
    def run(args):
        pid, seed, i, tier, *more = args
        rng = rng_for(seed, fn.__name__, pid, i)
        W = World('%s-%d' % (fn.__name__, i))
        try:
            fn(W, rng, tier, *more)
        except Stop:
            pass
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            W.log('crash', False, what='%s: %s at %s' % (type(e).__name__, str(e)[:120], traceback.extract_tb(e.__traceback__)[-1].name))
        finally:
            W.close()
        return W.done()
    run.__name__ = fn.__name__
    return run

SCEN = {}
def scen(fn):
    SCEN[fn.__name__] = scenario(fn)
    return fn

def _run(a):
    name, args = a
    return SCEN[name](args)

def drive(ctx, *plan):
    """plan: (scenario name, how many)"""
    jobs = [(name, (ctx.pid, ctx.seed, i, ctx.tier)) for name, n in plan for i in range(n)]
    return [t for t in core.fork_map(_run, jobs) if t['ev']]

def clicks(ctx, r, limit):
    """the clicks TLC generates from spec/MCSwitches.tla, each on a figure of its own"""
    hs = sorted({tuple(o['hist']) for o in core.outs(r)})
    n = len(hs)
    if n > limit:
        hs = sorted(rng_for(ctx.seed, 'clicks', ctx.pid, 0).sample(hs, limit))
    ctx.kinds['histories of MCSwitches'] = len(hs)
    ctx.log('replaying %d of %d histories of MCSwitches' % (len(hs), n))
    ctx.validate('WorldTrace', core.fork_map(_run, [('s_switches', (ctx.pid, ctx.seed, 10**6 + i, ctx.tier, list(h))) for i, h in enumerate(hs)]))

GROUPS = ['MatrixGroup', 'MatrixGroup', 'ImagingPath', 'OpticalPath', 'LaserPath', 'LaserCavity']

def compose(W, rng, items):
    """one of many ways of building a group of these items"""
    items = list(items)
    how = rng.choice(['ctor', 'append', 'insert', 'mixed', 'nest'])
    cls = rng.choice(['MatrixGroup', 'MatrixGroup', 'ImagingPath', 'LaserPath'])
    if how == 'ctor':
        return W.newgroup(items, cls)
    if how == 'append':
        g = W.newgroup([], cls)
        for i in items:
            W.append(g, i)
        return g
    if how == 'insert':
        g = W.newgroup([], cls)
        for i in reversed(items):
            W.insert(g, 0, [i], 'one' if not W.isgroup(W.o(i)) else 'list')
        return g
    k = rng.randint(0, len(items))
    if how == 'nest' and items:
        a = W.newgroup(items[:k])
        b = W.newgroup(items[k:])
        g = W.newgroup([], cls)
        for x in (a, b):
            if W.proj(W.o(x))['n']:
                W.append(g, x)
        return g
    g = W.newgroup(items[:k], cls)
    for i in items[k:]:
        W.append(g, i)
    return g

# ------------------------------------------------------------------ C01
@scen
def s_compose(W, rng, tier):
    W.exact = rng.random() < 0.3
    G = Gen(rng, exact=W.exact, aps=0.15)
    items, n = G.path_items(W, rng.randint(1, 7), n=rng.choice([1.0, 1.0, 1.0, 1.5 if not W.exact else 2.0]))
    gs = [compose(W, rng, items)]
    if rng.random() < 0.6:
        gs.append(compose(W, rng, items))
    for g in gs:
        if not g:
            continue
        for _ in range(2):
            ray = G.ray()
            W.trace(g, ray, through=True)
            ask(W, g, 'mulray', ray=G.ray())
        for q in rng.sample(['matrix', 'matrices', 'items', 'matrix'], 2):
            ask(W, g, q)
    for i in items[:2]:
        W.trace(i, G.ray(), through=True)
        ask(W, i, 'mulray', ray=G.ray()) if W.isgroup(W.o(i)) or True else None
    if len(items) >= 3:
        # product of neighbouring elements, both associations (indices fit)
        k = rng.randrange(len(items) - 2)
        c, b, a = items[k], items[k + 1], items[k + 2]
        ask(W, a, 'mulmat3', h=b, k=c)
        ask(W, b, 'mulmat', h=c)

# ------------------------------------------------------------------ C02 / C03
def pool(W, G, rng):
    """elements to play with, index friendly"""
    p = []
    for _ in range(rng.randint(4, 7)):
        k = rng.choice(['space', 'space', 'lens', 'di', 'di', 'thick', 'slab', 'mirror', 'aperture', 'matrix'])
        i, _ = G.leaf(W, rng.choice([1.0, 1.0, 1.0, 1.5, 1.5 if rng.random() < 0.5 else 1.5003]) if k in ('space', 'di') else 1.0, [k])
        if i:
            p.append(i)
    # interfaces in and out of glass
    near = 1.5003 if rng.random() < 0.3 else 1.5     # glasses that hardly differ
    for a, b in ((1.0, 1.5), (near, 1.0)):
        i = W.new('di', (a, b, G.R()), ap=G.ap(0.3))
        if i:
            p.append(i)
    # identity elements carry no index
    i = W.new('matrix', (1.0, 0.0, 0.0, 1.0), n1=1.0, n2=1.0)
    if i:
        p.append(i)
    if rng.random() < 0.5:
        g = W.newgroup(rng.sample(p, 2))
        if g:
            p.append(g)
    return p

def edit_step(W, rng, gs, p, bad=0.15):
    g = rng.choice(gs)
    n = len(W.o(g).elements)
    avail = [i for i in p if i != g]
    def pick(k):
        return [rng.choice(avail) for _ in range(k)]
    def idx():
        return rng.choice([rng.randint(-n - 2, n + 2), 0, -1, n, n - 1])
    op = rng.choice(['append', 'append', 'insert', 'insert', 'pop', 'setitem', 'setitem', 'setslice', 'setslice', 'getslice', 'items', 'item', 'flip', 'pop'])
    if rng.random() < bad:
        W.badedit(g, rng.choice(['append', 'insert', 'insert2', 'setitem', 'setslice', 'popout', 'popneg', 'setout']), rng)
        return
    form = rng.choice(['list', 'tuple', 'gen'])
    if op == 'append':
        W.append(g, pick(1)[0])
    elif op == 'insert':
        if rng.random() < 0.6:
            W.insert(g, idx(), pick(1), 'one')
        else:
            W.insert(g, idx(), pick(rng.randint(0, 3)), form)
    elif op == 'pop':
        W.pop(g, idx())
    elif op == 'setitem':
        W.setitem(g, idx(), pick(1), 'one')
    elif op == 'setslice':
        i, j = rng.choice([None, idx()]), rng.choice([None, idx()])
        W.setslice(g, i, j, pick(rng.randint(0, 3)), form)
    elif op == 'getslice':
        s = W.getslice(g, rng.choice([None, idx()]), rng.choice([None, idx()]))
    elif op == 'items':
        ask(W, g, 'items')
    elif op == 'item':
        ask(W, g, 'item', idx=idx())
    elif op == 'flip':
        if rng.random() < 0.4:
            W.flip(g)

@scen
def s_edits(W, rng, tier):
    G = Gen(rng, axicon=False, aps=0.3, sym=True)
    p = pool(W, G, rng)
    gs = []
    for _ in range(rng.randint(1, 2)):
        g = W.newgroup([], rng.choice(GROUPS), label=G.label())
        gs.append(g)
    for _ in range(rng.randint(8, 18)):
        edit_step(W, rng, gs, p)
        g = rng.choice(gs)
        x = rng.random()
        if x < 0.15:
            ask(W, g, 'matrix')
        elif x < 0.25:
            ask(W, g, 'items')
    for g in gs:
        ask(W, g, 'items')
        W.trace(g, G.ray())

@scen
def s_empty(W, rng, tier):
    """emptying and refilling"""
    G = Gen(rng, axicon=False)
    items, n = G.path_items(W, rng.randint(1, 3), nest=0)
    g = W.newgroup(items, rng.choice(GROUPS))
    while len(W.o(g).elements):
        W.pop(g, rng.choice([0, -1]))
    ask(W, g, 'items')
    ask(W, g, 'matrix')
    ask(W, g, 'mulray', ray=G.ray())
    W.trace(g, G.ray())
    if rng.random() < 0.5:
        W.setslice(g, 0, 0, items, 'list')
    else:
        W.insert(g, rng.choice([0, 3, -2]), items, 'list')
    W.setslice(g, None, None, [], 'list')
    ask(W, g, 'items')

# ------------------------------------------------------------------ C04 / C05
def mutate(W, rng, G, g):
    """change the path"""
    n = len(W.o(g).elements)
    x = rng.random()
    if x < 0.3 and n:
        W.pop(g, rng.randrange(n))
    elif x < 0.6:
        i = W.new('space', (G.d(),), ap=G.ap(0.2))
        W.append(g, i)
    elif x < 0.75 and n:
        W.flip(g)
    elif n:
        k = rng.randrange(n)
        e = W.idof(W.o(g).elements[k])
        if e and not W.isgroup(W.o(e)):
            W.setap(e, rng.choice([INF, 2.0, 5.5, 30.0]))

@scen
def s_history(W, rng, tier):
    W.exact = rng.random() < 0.5
    W.also = ['C04']
    G = Gen(rng, exact=W.exact, aps=0.45, sym=True)
    items, n = G.path_items(W, rng.randint(2, 6))
    g = compose(W, rng, items)
    gs = [g]
    if rng.random() < 0.5:
        gs.append(compose(W, rng, items))      # shares its elements
    gs = [x for x in gs if x]
    rays = [W.watch(G.ray()) for _ in range(3)]
    r0 = rays[0]
    # rays that are equal in some attributes only
    rays += [W.watch(rt.Ray(r0.y, r0.theta, r0.z + 4.0)), W.watch(rt.Ray(r0.y, r0.theta, r0.z, True)),
             W.watch(rt.Ray(r0.y, r0.theta, r0.z, wavelength=0.5)), W.watch(rt.Ray(r0.y, r0.theta, r0.z))]
    for _ in range(rng.randint(6, 12)):
        g = rng.choice(gs)
        x = rng.random()
        if x < 0.45:
            r = rng.choice(rays)
            if rng.random() < 0.5:
                W.trace(g, r, through=rng.random() < 0.3)
            else:
                W.trace_fresh(g, r)
        elif x < 0.6:
            mutate(W, rng, G, g)
        elif x < 0.7:
            W.many(g, rng.sample(rays, 3))
        elif x < 0.8:
            # the caller reuses its ray for something else: earlier results that hold it are his problem
            r = rt.Ray(1.0, 0.0)
            W.trace(g, r)
            W.forget(r)
            r.y = rng.choice([2.0, -3.5])
            if rng.random() < 0.3:
                r.isBlocked = True
            W.trace(g, r)
            W.forget(r)
        else:
            ask(W, g, rng.choice(['matrix', 'matrices', 'items', 'efl', 'iconj']), rng=rng)
        if rng.random() < 0.3:
            W.check_kept()
    W.check_kept()

QUERIES = ['matrix', 'matrices', 'items', 'efl', 'pp', 'foci', 'bfl', 'ffl', 'f2f', 'fconj', 'bconj', 'mag', 'iconj', 'inv', 'upto', 'mulray',
           'astop', 'marginal', 'axial', 'chief', 'fstop', 'hfov', 'principal', 'imgsize', 'pupil', 'fnum', 'na', 'lagr', 'along', 'profile', 'tofocus', 'toconj']
def anyquery(W, rng, G, g, q):
    o = W.o(g)
    L = o.L if isinstance(o.L, (int, float)) else 1.0
    z = rng.uniform(0, 1.2) * L
    r, r2 = W.watch(G.ray()), W.watch(G.ray())
    ask(W, g, q, rng=rng, z=z, y=rng.choice([0.0, 1.0, -2.5, rng.uniform(-5, 5)]), ray=r, ray2=r2, rays=[r, r2], use=rng.random() < 0.5, default=rng.random() < 0.3,
        h=g, scale=scale_of(W, g))

def scale_of(W, g):
    """size of the intermediate numbers, for queries with cancellation"""
    try:
        o = W.o(g)
        s = (abs(o.A) + abs(o.B) + 1) * (abs(o.C) + abs(o.D) + 1)
        return min(1e9, max(1e3, s * 10))
    except Exception:
        return 1e3

@scen
def s_readonly(W, rng, tier):
    """asking for anything changes nothing"""
    G = Gen(rng, axicon=rng.random() < 0.3, aps=0.5)
    if rng.random() < 0.6:
        g = W.newgroup(G.imaging(W), 'ImagingPath', label=G.label())
    else:
        items, n = G.path_items(W, rng.randint(2, 6))
        g = W.newgroup(items, rng.choice(['ImagingPath', 'ImagingPath', 'MatrixGroup']))
    if not g:
        return
    o = W.o(g)
    if rng.random() < 0.5 and hasattr(o, 'objectPosition'):
        o.objectPosition = 0
        W.modified(False)
    for _ in range(rng.randint(5, 9)):
        q = rng.choice(QUERIES)
        if not isinstance(o, rt.ImagingPath) and q in ('astop', 'marginal', 'axial', 'chief', 'fstop', 'hfov', 'principal', 'imgsize', 'pupil', 'fnum', 'na', 'lagr'):
            q = 'matrix'
        anyquery(W, rng, G, g, q)
        if rng.random() < 0.5:
            W.trace(g, W.watch(G.ray()), through=rng.random() < 0.5)
        if rng.random() < 0.4:
            W.many(g, [W.watch(G.ray()) for _ in range(3)])
        if rng.random() < 0.3:
            b = W.newbeam(w=rng.choice([0.01, 0.1, 1.0]), n=1.0)
            if b:
                W.beam(g, b)
        if rng.random() < 0.3:
            W.readrays(g, rng, G)
        if rng.random() < 0.35:
            W.figure(g, rng, G)
    W.check_kept()

# ------------------------------------------------------------------ C06
@scen
def s_blocking(W, rng, tier):
    W.exact = rng.random() < 0.7
    G = Gen(rng, exact=W.exact, aps=0.7, air=True)
    items, n = G.path_items(W, rng.randint(2, 6), kinds=['space', 'space', 'lens', 'aperture', 'aperture', 'thick', 'slab', 'axicon', 'mirror'] if not W.exact
                            else ['space', 'space', 'lens', 'aperture', 'aperture', 'slab'])
    g = compose(W, rng, items)
    rays = [G.ray() for _ in range(4)]
    # rays at the edge of the first apertures
    z0 = 0
    for i in items:
        e = W.o(i)
        if not W.isgroup(e) and e.apertureDiameter != INF and W.exact:
            h = e.apertureDiameter / 2
            rays += [rt.Ray(h, 0.0), rt.Ray(-h, 0.0), rt.Ray(h + 0.125, 0.0), rt.Ray(-h - 0.125, 0.0), rt.Ray(h - 0.125, 0.0)]
            if e.apertureNA != INF:
                rays += [rt.Ray(0.0, e.apertureNA), rt.Ray(0.0, e.apertureNA + 0.015625), rt.Ray(0.0, -e.apertureNA), rt.Ray(0, -e.apertureNA - 0.015625)]
            break
    for r in rays:
        W.trace(g, r, through=rng.random() < 0.5)
    # acceptance angles, of elements with and without length
    for _ in range(2):
        if rng.random() < 0.5:
            i = rng.choice(items)
            if not W.isgroup(W.o(i)):
                na = rng.randint(1, 24) / 64.0
                W.setna(i, na)
                rays += [rt.Ray(0.0, na), rt.Ray(0.0, na + 0.015625)] if W.exact else []
                W.trace(g, rng.choice(rays), through=rng.random() < 0.5)
    # another aperture diameter
    els = [i for i in items if not W.isgroup(W.o(i))]
    for _ in range(2):
        if els:
            W.setap(rng.choice(els), rng.choice([INF, 4.0, 16.0, 1.0]))
        r = rng.choice(rays)
        W.trace(g, r)
    W.many(g, rays[:5])
    if els:
        W.trace(rng.choice(els), rng.choice(rays), through=True)

# ------------------------------------------------------------------ C07 C08 C09
def imaging_system(W, rng, thick=0.15):
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.6)
    items = G.imaging(W, thick)
    g = W.newgroup(items, 'ImagingPath')
    return G, g, items

@scen
def s_stop(W, rng, tier):
    W.exact = rng.random() < 0.2
    G, g, items = imaging_system(W, rng)
    W.o(g)
    ask(W, g, 'astop')
    for _ in range(2):
        ask(W, g, 'marginal', y=rng.choice([0.0, 1.0, -2.0, rng.uniform(-4, 4)]))
    ask(W, g, 'axial')
    if rng.random() < 0.5:
        els = [i for i in items if not W.isgroup(W.o(i)) and W.o(i).L == 0]
        if els:
            W.setap(rng.choice(els), rng.choice([0.5, 3.0, 10.0, INF]))
            ask(W, g, 'astop')
            ask(W, g, 'axial')

@scen
def s_field(W, rng, tier):
    W.exact = rng.random() < 0.2
    G, g, items = imaging_system(W, rng)
    o = W.o(g)
    for q in rng.sample(['chief', 'fstop', 'hfov', 'principal', 'imgsize', 'chief', 'imgsize'], 4):
        if q == 'imgsize':
            o.objectHeight = rng.choice([1.0, 10.0, 0.5])
        ask(W, g, q, y=rng.choice([0.0, 1.0, -3.0, rng.uniform(-5, 5)]), use=rng.random() < 0.5)
    if rng.random() < 0.4:
        els = [i for i in items if not W.isgroup(W.o(i)) and W.o(i).L == 0]
        if els:
            W.setap(rng.choice(els), rng.choice([0.5, 3.0, 10.0, INF]))
            ask(W, g, 'fstop')
            ask(W, g, 'hfov')

@scen
def s_pupil(W, rng, tier):
    W.exact = rng.random() < 0.3
    G, g, items = imaging_system(W, rng)
    W.o(g)
    for q in rng.sample(['pupil', 'fnum', 'na', 'lagr', 'pupil', 'fnum'], 4):
        ask(W, g, q)

@scen
def s_telecentric(W, rng, tier):
    """the stop in the back focal plane of the lens, and simple variations"""
    W.exact = True
    f = float(2 ** rng.randint(2, 6))
    d = rng.choice([f, f, f / 2, 2 * f])
    e = rng.choice([f, f, f / 2])
    ap = rng.choice([1.0, 4.0, 8.0])
    items = [W.new('space', (d,)), W.new('lens', (f,), ap=rng.choice([INF, 1024.0, 64.0])), W.new('space', (e,)), W.new('aperture', (), ap=ap), W.new('space', (rng.choice([f, 2 * f]),))]
    if rng.random() < 0.5:
        items += [W.new('lens', (f,), ap=rng.choice([INF, 1024.0])), W.new('space', (f,))]
    g = W.newgroup(items, 'ImagingPath')
    for q in ('astop', 'pupil', 'na', 'fnum', 'chief', 'fstop', 'hfov', 'lagr'):
        ask(W, g, q, y=1.0)

@scen
def s_nostop(W, rng, tier):
    """paths without (field) stop answer instead of failing"""
    G = Gen(rng, axicon=False, aps=0.0)
    items = [W.new('space', (G.d() + 1,)), W.new('lens', (G.f(),)), W.new('space', (G.d(),))]
    if rng.random() < 0.5:
        items.insert(rng.randint(0, 3), W.new('aperture', (), ap=G.ap(1.0)))
    if rng.random() < 0.2:
        items = []
    g = W.newgroup(items, 'ImagingPath')
    for q in ('astop', 'fstop', 'hfov', 'chief', 'principal', 'axial', 'marginal', 'pupil', 'fnum', 'na', 'lagr', 'imgsize'):
        if not items and q == 'imgsize':
            continue
        ask(W, g, q, y=1.0, use=False)

# ------------------------------------------------------------------ C10
@scen
def s_elements(W, rng, tier):
    r = rng
    G = Gen(rng, aps=0.4)
    def apx():
        return r.choice([INF, INF, 5.0, 25.4, r.uniform(0.1, 50)]) if r.random() < 0.85 else r.choice([0.0, -1.0, -25.4])
    for _ in range(rng.randint(4, 8)):
        k = rng.choice(['lens', 'mirror', 'space', 'di', 'thick', 'slab', 'aperture', 'axicon', 'matrix', 'matrix'])
        lab = G.label()
        ap = apx()
        x = r.uniform
        if k == 'lens':
            W.new(k, (r.choice([-1, 1]) * x(1, 500),), ap=ap, label=lab)
        elif k == 'mirror':
            W.new(k, (r.choice([-1, 1]) * x(1, 500),), ap=ap, label=lab)
        elif k == 'space':
            W.new(k, (r.choice([0.0, x(0, 300)]),), n1=r.choice([1.0, 1.33, x(1, 2)]), ap=ap, label=lab)
        elif k == 'di':
            W.new(k, (r.choice([1.0, x(1, 2)]), r.choice([1.0, x(1, 2)]), r.choice([INF, x(5, 300), -x(5, 300)])), ap=ap, label=lab)
        elif k == 'thick':
            W.new(k, (x(1.1, 2), r.choice([INF, x(10, 300), -x(10, 300)]), r.choice([INF, x(10, 300), -x(10, 300)])), L=x(0.1, 20), ap=ap, label=lab)
        elif k == 'slab':
            W.new(k, (x(1.1, 2),), L=x(0.1, 50), ap=ap, label=lab)
        elif k == 'aperture':
            W.new(k, (), ap=ap, na=r.choice([INF, x(0.01, 1)]), label=lab)
        elif k == 'axicon':
            W.new(k, (x(1.1, 2), x(0.001, 0.3)), ap=ap, label=lab)
        else:
            A, D, C = x(-3, 3), x(-3, 3), x(-1, 1)
            n1, n2 = r.choice([1.0, 1.5, x(1, 2)]), r.choice([1.0, 1.5, x(1, 2)])
            y = r.random()
            want = n1 / n2 if y < 0.6 else r.choice([n2 / n1 if abs(n1 / n2 - n2 / n1) > 0.01 else 1.5, 0.0, -n1 / n2, n1 / n2 + 0.01, n1 / n2 - 0.001])
            if abs(C) < 0.01:
                C = 0.5
            B = (A * D - want) / C
            L = r.choice([0.0, x(0, 30)])
            fv, bv = r.choice([(None, None), (0.0, L), (L / 3, L / 2), (None, L), (0.0, None)])
            if y < 0.6 or abs(want - n1 / n2) > 1e-4:
                W.new(k, (A, B, C, D), L=L, fv=fv, bv=bv, n1=n1, n2=n2, ap=ap, na=r.choice([INF, 0.5, -0.5, 0.0, 1.0]), label=lab)
    if rng.random() < 0.2:
        W.new(rng.choice(['lens', 'mirror']), (r.choice([INF, -INF]),), label=lab)
    for i in range(1, len(W.objs) + 1):
        ask(W, i, 'surfs')

@scen
def s_equal(W, rng, tier):
    """elements made of the same arguments, or of arguments that differ in one respect"""
    G = Gen(rng, aps=0.4)
    f = G.f()
    base = rng.choice([dict(k='lens', p=(f,)), dict(k='mirror', p=(f,)), dict(k='space', p=(abs(f),), n1=rng.choice([1.0, 1.5])), dict(k='di', p=(1.0, 1.5, f)),
                       dict(k='thick', p=(1.5, f, -f), L=3.0), dict(k='slab', p=(1.5,), L=2.0), dict(k='aperture'), dict(k='axicon', p=(1.5, 0.125)),
                       dict(k='matrix', p=(1.0, 2.0, 0.5, 2.0), L=4.0, fv=1.0, bv=3.0)])
    base['ap'] = rng.choice([INF, 10.0])
    variants = [{}, {}, dict(label='other'), dict(ap=12.5)]
    if 'L' in base:
        variants.append(dict(L=5.0))
    if base['k'] == 'matrix':
        variants += [dict(fv=None), dict(bv=2.0), dict(na=0.5), dict(n1=1.5, n2=1.5)]
    if base['k'] == 'space':
        variants.append(dict(n1=1.25))
    if base.get('p'):
        variants.append(dict(p=(base['p'][0] * 2,) + base['p'][1:]) if base['k'] not in ('matrix', 'di') else dict(p=base['p'][:2] + ((2 * f,) if base['k'] == 'di' else (0.0, 1.0))))
    a = W.new(**base)
    ids = [a]
    for _ in range(3):
        i = W.new(**dict(base, **rng.choice(variants)))
        if i:
            ask(W, a, 'equal', h=i)
            ids.append(i)
    i, j = rng.choice(ids), rng.choice(ids)
    ask(W, i, 'equal', h=j)
    ask(W, i, 'equal', h=i)
    if rng.random() < 0.5 and base['k'] in ('di', 'thick', 'axicon', 'slab'):
        W.flip(i)
        ask(W, i, 'equal', h=j)

@scen
def s_invariant(W, rng, tier):
    G = Gen(rng, axicon=False, aps=0.2)
    items, n = G.path_items(W, rng.randint(2, 7), n=rng.choice([1.0, 1.0, 1.5]))
    g = compose(W, rng, items)
    L = W.o(g).L
    for _ in range(5):
        r1, r2 = rt.Ray(rng.uniform(-5, 5), rng.uniform(-0.3, 0.3)), rt.Ray(rng.uniform(-5, 5), rng.uniform(-0.3, 0.3))
        z = rng.choice([0.0, L * rng.random(), L, L * 2, INF])
        if nocut(W, g, z):
            continue
        ask(W, g, 'inv', ray=r1, ray2=r2, z=z, scale=scale_of(W, g))

def nocut(W, g, z):
    """is z inside a generic matrix with length (which can not be cut)?"""
    def leaves(o):
        if W.isgroup(o):
            return [x for e in o.elements for x in leaves(e)]
        return [o]
    z0 = 0.0
    for e in leaves(W.o(g)):
        if type(e) is rt.Matrix and e.L > 0 and z0 <= z < z0 + e.L:
            return True
        z0 += e.L
    return False

# ------------------------------------------------------------------ C11 C12
@scen
def s_conj(W, rng, tier):
    W.exact = rng.random() < 0.35
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.1)
    if W.exact and rng.random() < 0.6:
        # imaging arrangements with D = 0, A = 0 or B = 0
        f, f2 = float(2 ** rng.randint(1, 5)), float(2 ** rng.randint(1, 5))
        k = rng.choice(['2f', '4f', 'img', 'back', 'front', 'afocal', 'mirror', 'glass'])
        S, Ln = lambda d, n=1.0: W.new('space', (d,), n1=n), lambda f: W.new('lens', (f,))
        items = {'2f': lambda: [S(f), Ln(f), S(f)], '4f': lambda: [S(f), Ln(f), S(f + f2), Ln(f2), S(f2)], 'img': lambda: [S(2 * f), Ln(f), S(2 * f)],
                 'back': lambda: [Ln(f), S(f)], 'front': lambda: [S(f), Ln(f)], 'afocal': lambda: [Ln(f), S(f + f2), Ln(f2)],
                 'mirror': lambda: [S(f), W.new('mirror', (-2 * f,)), S(f)], 'glass': lambda: [S(f), W.new('di', (1.0, 2.0, f)), S(rng.choice([f, 4 * f]), 2.0)]}[k]()
    else:
        items, n = G.path_items(W, rng.randint(2, 6), n=rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0]))
    g = compose(W, rng, items)
    for q in ('fconj', 'bconj', 'mag', 'iconj', 'toconj'):
        ask(W, g, q)
    for i in items[:2]:
        for q in rng.sample(['fconj', 'bconj', 'mag'], 2):
            ask(W, i, q)

@scen
def s_focal(W, rng, tier):
    W.exact = rng.random() < 0.2
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.0, sym=True)
    W.also = ['C12']
    n0 = rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0])
    items, n = G.path_items(W, rng.randint(1, 6), n=n0)
    g = compose(W, rng, items)
    o = W.o(g)
    z = rng.choice([0.0, 10.0, -7.25])
    for q in ('efl', 'pp', 'foci', 'bfl', 'ffl', 'f2f', 'tofocus'):
        ask(W, g, q, z=z, rng=rng)
    W.trace(g, rt.Ray(1.0, 0.0))
    if rng.random() < 0.3:
        W.also = ['C12']
        W.flip(g)
        for q in ('efl', 'bfl', 'ffl', 'foci'):
            ask(W, g, q, z=z, rng=rng, flipped=True)
    if rng.random() < 0.2:
        items.append(W.new(rng.choice(['lens', 'mirror']), (rng.choice([INF, -INF]),)))
    for i in items[:3] + items[-1:]:
        for q in rng.sample(['efl', 'pp', 'foci', 'bfl', 'ffl', 'f2f', 'tofocus'], 3):
            ask(W, i, q, z=z, rng=rng)
        if not W.isgroup(W.o(i)):
            ask(W, i, 'poi', z=z)

# ------------------------------------------------------------------ C13
def flippable(W, G, rng, n0=1.0):
    """no generic matrix with unsymmetric vertices (see the known findings)"""
    items, n = [], n0
    for _ in range(rng.randint(1, 6)):
        i, n2 = G.leaf(W, n, ['space', 'space', 'lens', 'di', 'di', 'thick', 'thick', 'slab', 'mirror', 'aperture', 'axicon', 'asym'][0:11])
        if i:
            items.append(i)
            n = n2
        if rng.random() < 0.2:
            A, B = rng.choice([(1.5, 0.0), (2.0, 4.0), (1.0, 3.0)])
            C = rng.choice([0.0, -0.25])
            m = W.new('matrix', (A, B, C, (1 + B * C) / A), n1=n, n2=n, L=4.0, fv=rng.choice([None, 2.0]), bv=rng.choice([None, 2.0]), label='m')
            if m:
                items.append(m)
        if rng.random() < 0.2 and len(items) >= 2:
            g = W.newgroup(items[-2:])
            if g and W.o(g).frontIndex == W.o(items[-2]).frontIndex and W.o(g).backIndex == W.o(items[-1]).backIndex:
                items[-2:] = [g]
    return items

@scen
def s_flip(W, rng, tier):
    W.exact = rng.random() < 0.2
    W.also = ['C13']
    G = Gen(rng, exact=W.exact, aps=0.4)
    items = flippable(W, G, rng, rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0]))
    g = compose(W, rng, items)
    if rng.random() < 0.3 and items:
        # the same object twice, side by side or at another level
        again = rng.choice(items)
        if rng.random() < 0.5:
            again = W.newgroup([again]) or again
        W.append(g, again)
    for _ in range(rng.randint(1, 3)):
        W.flip(g if rng.random() < 0.7 or not items else rng.choice(items))
        W.trace(g, G.ray())
        for q in rng.sample(['bfl', 'ffl', 'efl', 'matrix', 'foci'], 2):
            ask(W, g, q, z=0.0, flipped=True, rng=rng)
        for i in items[:3]:
            if not W.isgroup(W.o(i)):
                ask(W, i, 'surfs')

@scen
def s_flip_group(W, rng, tier):
    """the same path forwards, and backwards through the flipped one"""
    W.also = ['C13']
    G = Gen(rng, aps=0.0)
    items = flippable(W, G, rng)
    g = compose(W, rng, items)
    ask(W, g, 'matrix')
    W.flip(g)
    W.trace(g, G.ray())
    W.flip(g)
    ask(W, g, 'matrix')
    W.trace(g, G.ray())

@scen
def s_flip_known(W, rng, tier):
    """directed: a generic matrix with vertices that are not in its middle"""
    W.tid = 'generic-matrix-vertices-' + W.tid
    i = W.new('matrix', (1.0, 10.0, 0.0, 1.0), L=10.0, fv=1.0, bv=7.0)
    W.flip(i)

# ------------------------------------------------------------------ C14
@scen
def s_upto(W, rng, tier):
    W.exact = rng.random() < 0.3
    W.also = []
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.3)
    items, n = G.path_items(W, rng.randint(2, 7), nest=0.25, n=rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0]),
                            kinds=['space'] * 4 + ['lens', 'lens', 'di', 'di', 'thick', 'thick', 'slab', 'slab', 'mirror', 'aperture'] + (['matrix'] if rng.random() < 0.3 else []))
    g = W.newgroup(items, 'ImagingPath')
    L = W.o(g).L
    zs = [0.0, L, L * 1.5 + 1, INF]
    z0 = 0.0
    for i in items:
        zs += [z0, z0 + W.o(i).L / 2]
        z0 += W.o(i).L
    for z in rng.sample(zs, 3) + [rng.random() * L for _ in range(3)]:
        ask(W, g, 'upto', z=z)
        if rng.random() < 0.5 and z < INF:
            ask(W, g, 'cut', z=z, ray=G.ray())
    for i in items:
        if W.o(i).L > 0:
            ask(W, i, 'upto', z=W.o(i).L * rng.choice([0.25, 0.5, 1.0, 2.0, rng.random()]))
            if rng.random() < 0.5:
                break

@scen
def s_subpath(W, rng, tier):
    W.exact = rng.random() < 0.3
    W.also = ['C14']
    G = Gen(rng, exact=W.exact, axicon=rng.random() < 0.2, aps=0.4, sym=True)
    items, n = [], rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0])
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.6:
            items.append(W.new('space', (G.d() + 1,), n1=n, ap=G.ap(0.3)))
        i, n2 = G.leaf(W, n, ['space', 'lens', 'di', 'di', 'thick', 'slab', 'aperture', 'mirror'] + (['axicon'] if G.axicon else []))
        if i:
            items.append(i)
            n = n2
    if rng.random() < 0.3 and len(items) >= 3:
        k = rng.randrange(len(items) - 1)
        sub = W.newgroup(items[k:k + 2])
        if sub and W.o(sub).frontIndex == W.o(items[k]).frontIndex and W.o(sub).backIndex == W.o(items[k + 1]).backIndex:
            items[k:k + 2] = [sub]
    g = W.newgroup(items, 'ImagingPath')
    o = W.o(g)
    inside, z0 = [], 0.0
    for e in o.elements:
        if type(e) is rt.Space and e.L > 0:
            inside += [z0 + e.L / 4, z0 + e.L / 2]
        z0 += e.L
    for _ in range(3):
        z = rng.choice(inside) if inside and rng.random() < 0.8 else rng.choice([0.0, z0, -1.0, z0 + 1, z0 * rng.random()])
        s = W.subpath(g, z, rng.random() < 0.5)
        if s:
            W.trace(s, G.ray())
            ask(W, s, 'matrix')
        W.trace(g, G.ray())
    ask(W, g, 'items')

# ------------------------------------------------------------------ C15 C16
@scen
def s_beam(W, rng, tier):
    r = rng
    W.exact = False
    G = Gen(rng, axicon=rng.random() < 0.15, aps=0.15)
    n0 = rng.choice([1.0, 1.0, 1.0, 1.5])
    items, n = G.path_items(W, rng.randint(1, 6), n=n0)
    g = compose(W, rng, items)
    for _ in range(rng.randint(2, 4)):
        lam = r.choice([None, None, 0.0005, 0.00106, 1.0])
        nb = n0 if r.random() < 0.9 else r.choice([1.0, 1.25, 1.5])
        x = r.random()
        if x < 0.45:
            b = W.newbeam(w=r.choice([0.01, 0.1, 1.0, r.uniform(0.001, 5)]), Rc=r.choice([None, r.uniform(5, 500), -r.uniform(5, 500)]), n=nb, lam=lam, z=r.choice([None, 10.0]))
        elif x < 0.8:
            b = W.newbeam(q=complex(r.choice([0.0, r.uniform(-200, 200)]), r.uniform(0.1, 500)), n=nb, lam=lam, z=r.choice([None, -5.0]))
        elif x < 0.9:
            w, Rc = r.uniform(0.05, 2), r.choice([INF, 100.0])
            ll = 0.0006328 if lam is None else lam
            q = 1 / (1 / Rc - 1j * ll / nb / (math.pi * w * w))
            b = W.newbeam(q=q * r.choice([1, 1, 1.1, 0.9, 1j]), w=w, Rc=Rc, n=nb, lam=lam)
        else:
            b = W.newbeam(n=nb, lam=lam, q=r.choice([None, complex(5, 0), complex(-7.5, 0), complex(1, -3), complex(0, -2), 0j]))
        if b is None or b.q.imag < 1e-3 or abs(b.q) > 1e7:
            continue
        res = W.beam(g, b)
        if res:
            for bb in rng.sample(res, min(2, len(res))):
                if bb.q.imag > 1e-6 and abs(bb.q) < 1e6:
                    W.reborn(bb)
        ask(W, g, 'mulbeam', beam=b)
        ask(W, g, 'towaist', beam=b)
        if items and rng.random() < 0.5:
            W.beam(items[0], b)

@scen
def s_text(W, rng, tier):
    """what is printed of elements, rays and beams"""
    W.exact = rng.random() < 0.4
    G = Gen(rng, exact=W.exact, aps=0.4)
    items, n = G.path_items(W, rng.randint(1, 5), nest=0.15, n=rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0]))
    g = compose(W, rng, items)
    for i in items[:3] + [g]:
        W.text(W.o(i))
    for _ in range(2):
        r = G.ray()
        W.text(r)
        trace = W.o(g).trace(r)
        W.text(rng.choice(trace))
        W.text(rt.Ray(rng.uniform(-1, 1) * 10 ** rng.uniform(-4, 5), rng.uniform(-2, 2), z=rng.uniform(-100, 5000)))
    for _ in range(3):
        lam = rng.choice([None, 0.0005, 0.00106, 0.010])
        z = rng.choice([None, -5.0, 123.4])
        x = rng.random()
        if x < 0.5:
            b = W.newbeam(w=10 ** rng.uniform(-2, 1), Rc=rng.choice([None, rng.uniform(5, 500), -rng.uniform(5, 500)]), n=n, lam=lam, z=z)
        elif x < 0.9:
            b = W.newbeam(q=complex(rng.choice([0.0, rng.uniform(-200, 200)]), 10 ** rng.uniform(-1, 3)), n=n, lam=lam, z=z)
        else:
            b = W.newbeam(q=complex(rng.uniform(-5, 5), -rng.choice([0.0, 3.0])), n=n, lam=lam)
        if b is not None:
            W.text(b)

@scen
def s_clip(W, rng, tier):
    """beams and apertures of similar size"""
    items = []
    for _ in range(rng.randint(2, 4)):
        items.append(W.new('space', (rng.uniform(10, 1000),)))
        items.append(W.new(rng.choice(['lens', 'lens']), (rng.choice([-1, 1]) * rng.uniform(50, 500),), ap=rng.uniform(0.2, 6)))
        if rng.random() < 0.4:
            items.append(W.new('aperture', (), ap=rng.uniform(0.2, 6)))
    g = compose(W, rng, items)
    for _ in range(4):
        b = W.newbeam(w=rng.uniform(0.05, 2), n=1.0)
        W.beam(g, b)

@scen
def s_cavity(W, rng, tier):
    W.exact = rng.random() < 0.3
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.2)
    items = []
    kind = rng.choice(['linear', 'linear', 'any', 'ring', 'glass'])
    if kind == 'any':
        items, n = G.path_items(W, rng.randint(1, 5), nest=0.1, n=rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0]))
    else:
        n = 1.0
        if kind == 'glass':
            n = 2.0 if W.exact else 1.5
        if rng.random() < 0.7 and n == 1.0:
            items.append(W.new('mirror', (-rng.choice([8.0, 64.0, 400.0, 1000.0]),)))
        items.append(W.new('space', (rng.choice([4.0, 16.0, 100.0, 512.0, 900.0]),), n1=n))
        if rng.random() < 0.5 and n == 1.0:
            items.append(W.new('lens', (rng.choice([16.0, 64.0, 250.0, -100.0]),)))
            items.append(W.new('space', (rng.choice([4.0, 16.0, 200.0]),), n1=n))
        if n == 1.0:
            items.append(W.new('mirror', (-rng.choice([8.0, 64.0, 400.0, 1000.0]),)))
    g = W.newgroup(items, 'LaserCavity')
    o = W.o(g)
    if kind in ('linear', 'any') or rng.random() < 0.3:
        W.revappend(g, rng.random() < 0.5, rng.random() < 0.5)
        ask(W, g, 'items')
        ask(W, g, 'matrix')
    if abs(o.C) < 1e6 and abs(o.B) < 1e7:
        ask(W, g, 'modes')
        ok, modes = call(lambda: o.laserModes())
        if ok:
            for b in modes[:1]:
                W.roundtrip(g, b)

# ------------------------------------------------------------------ C26 C27
@scen
def s_along(W, rng, tier):
    W.exact = rng.random() < 0.4
    G = Gen(rng, exact=W.exact, aps=0.4)
    items, n = G.path_items(W, rng.randint(2, 6), nest=0.15)
    g = compose(W, rng, items)
    o = W.o(g)
    L = o.L
    zs, z0 = [0.0, L, L + 5.0, INF], 0.0
    for i in items:
        z0 += W.o(i).L
        zs += [z0, z0 + 0.25]
    def z():
        return rng.choice(zs) if rng.random() < 0.5 else rng.random() * L
    for _ in range(3):
        r = G.ray()
        r.z = rng.choice([0.0, 0.0, r.z])
        ask(W, g, 'along', ray=r, z=z())
        ask(W, g, 'at', ray=r, z=rng.uniform(-20, 50))
        rs = [rt.Ray(x.y, x.theta) for x in (G.ray(), G.ray(), G.ray(), G.ray())]
        ask(W, g, 'profile', rays=rs, z=z(), default=rng.random() < 0.2)

@scen
def s_axicon(W, rng, tier):
    W.exact = rng.random() < 0.5
    W.also = ['C27']
    G = Gen(rng, exact=W.exact, aps=0.4)
    a = W.new('axicon', (2.0 if W.exact else rng.uniform(1.2, 2), rng.choice([1, 2, 4, 8]) / 64.0 if W.exact else rng.uniform(0.005, 0.2)), ap=G.ap(0.6), label='ax')
    y = rng.choice([0.5, 2.0, 3.25])
    th = rng.choice([0.0, 0.125, -0.0625])
    rays = [rt.Ray(y, th), rt.Ray(-y, -th), rt.Ray(0.0, th), rt.Ray(-y, th), rt.Ray(y, th, 0, True), rt.Ray(40.0, 0.0)]
    for r in rays:
        W.trace(a, r, through=True)
    ask(W, a, 'mulray', ray=rays[0])
    for yy in ([None] if W.o(a).apertureDiameter != INF else []) + [1.0, rng.choice([-5.0, 12.5])]:
        ask(W, a, 'axicon', y=yy)
    pre, n = G.path_items(W, rng.randint(0, 2), nest=0, kinds=['space', 'lens', 'aperture'])
    g = compose(W, rng, pre + [a, W.new('space', (10.0,))])
    for r in rays[:4]:
        W.trace(g, r, through=True)
    W.many(g, rays)
    if rng.random() < 0.5:
        W.flip(a)
        W.trace(g, rays[0])
    if rng.random() < 0.3:      # tuned after it was made
        W.setaxicon(a, W.o(a).n if rng.random() < 0.5 else 3.0, rng.choice([1, 2, 4, 8]) / 32.0)
        ask(W, a, 'axicon', y=rng.choice([1.0, 12.5]))
        for r in rays[:4]:
            W.trace(rng.choice([a, g]), r, through=True)
    b = W.newbeam(w=1.0)
    W.beam(a, b)
    W.beam(g, b)
    ask(W, a, 'mulbeam', beam=b)

# ------------------------------------------------------------------ C20
def special(W, rng, whole=False):
    """an element that is itself a lens of several surfaces"""
    c = [lambda: rt.SingletLens(f=51.04, fb=49.0, R1=50.0, R2=-50.0, tc=6.0, te=2.7, n=1.5, diameter=25.4, label='S'),
         lambda: rt.thorlabs.AC254_050_A(), lambda: rt.eo.PN_33_921(), lambda: rt.thorlabs.AC127_019_A()]
    if whole:
        c += [lambda: rt.SingletLens(f=INF, fb=INF, R1=INF, R2=INF, tc=6.0, te=6.0, n=1.5, diameter=25.4, label='W'),
              lambda: rt.AchromatDoubletLens(fa=INF, fb=INF, R1=INF, R2=INF, R3=INF, tc1=3.0, tc2=2.0, te=5.0, n1=1.5, n2=1.75, diameter=25.4)]
    else:
        c += [lambda: rt.System4f(10.0, 20.0, label='4f'), lambda: rt.System2f(30.0)]
    f = rng.choice(c)
    ok, o = call(f)
    if not ok:
        return 0
    return W.adopt(o)

BADDATA = [None, b'', b'xx', (3,), ([1, 2],), ('abc',), (None,), ({'a': 1},)]

@scen
def s_files(W, rng, tier):
    G = Gen(rng)
    items, n = G.path_items(W, rng.randint(0, 4))
    g = compose(W, rng, items)
    sp = 0
    if rng.random() < 0.4:
        sp = special(W, rng)
        if sp:
            if rng.random() < 0.3 and W.proj(W.o(sp))['n']:
                W.flip(sp)
            W.append(g, sp)
    h = W.newgroup(G.path_items(W, rng.randint(0, 2))[0], rng.choice(GROUPS))
    if rng.random() < 0.3 and not sp:
        e = [i for i in items if not W.isgroup(W.o(i)) and W.proj(W.o(i))['k'] not in ('matrix', 'di')]
        if e:
            W.flip(rng.choice(e))
    names = []
    for _ in range(rng.randint(3, 8)):
        x = rng.random()
        who = rng.choice([g, g, h])
        if x < 0.35 or not names:
            f = rng.choice(['a', 'b'])
            W.save(who, f)
            names = sorted(set(names) | {f})
        elif x < 0.6:
            W.load(who, rng.choice(names), rng.random() < 0.5)
        elif x < 0.72:
            m = W.o(rng.choice(items)) if items else rt.Space(1)
            W.badload(who, rng.choice(BADDATA + [([rt.Space(1), 3],), ([rt.Space(2), None],), (rt.Space(3),), ([rt.Ray(1, 1)],)]), rng.random() < 0.5)
        elif x < 0.85:
            r = G.ray()
            W.also = ['C20']
            W.trace(who, r)
            W.also = []
        else:
            i, _ = G.leaf(W, 1.0)
            if i:
                W.append(who, i)

# ------------------------------------------------------------------ C17
from .world import FORMS
@scen
def s_many(W, rng, tier):
    W.exact = rng.random() < 0.6
    G = Gen(rng, exact=W.exact, aps=0.7, air=rng.random() < 0.5)
    kinds = ['space', 'space', 'lens', 'aperture', 'aperture', 'thick', 'slab'] + (['axicon', 'mirror'] if not W.exact else [])
    items, n = G.path_items(W, rng.randint(0, 5), kinds=kinds)
    g = compose(W, rng, items)
    rays = [G.ray() for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))]
    if rays and rng.random() < 0.3:
        rays.append(rng.choice(rays))            # the same ray twice
    for _ in range(2):
        W.many(g, rays, rng.choice(FORMS))
    if items and rng.random() < 0.5:
        W.many(rng.choice(items), rays, rng.choice(FORMS))

@scen
def s_parallel(W, rng, tier):
    W.exact = rng.random() < 0.6
    G = Gen(rng, exact=W.exact, aps=0.7, air=rng.random() < 0.5)
    items, n = G.path_items(W, rng.randint(0, 4), kinds=['space', 'space', 'lens', 'aperture', 'aperture', 'thick', 'slab'])
    g = compose(W, rng, items)
    rays = [G.ray() for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16]))]
    if rays and rng.random() < 0.3:
        rays.append(rng.choice(rays))
    mode = rng.choice(['plain', 'plain', 'uneven', 'uneven', 'nopool', 'unpicklable', 'badarg'])
    procs = rng.choice([1, 2, 3, 4, 5, 8]) if mode != 'badarg' else rng.choice([0, -1])
    if mode == 'plain' and rng.random() < 0.1:
        procs = None
    W.parallel(g, rays, rng.choice(FORMS), procs, mode)

# ------------------------------------------------------------------ C25
def bundle(rng, G, z):
    kind = rng.choice(['object', 'object', 'lamp', 'uniform', 'list'])
    if kind == 'object':
        return rt.ObjectRays(rng.choice([1.0, 4.0, 10.0]), halfAngle=rng.choice([0.125, 0.25, 0.0625]), H=rng.randint(1, 3), T=rng.randint(1, 3), z=z)
    if kind == 'lamp':
        return rt.LampRays(rng.choice([1.0, 4.0, 10.0]), NA=rng.choice([0.125, 0.25]), N=rng.randint(1, 3), T=rng.randint(1, 3), z=z)
    if kind == 'uniform':
        r = rt.Rays([G.ray() for _ in range(rng.randint(1, 5))]) if rng.random() < 0.5 else rt.UniformRays(4.0, None, 0.125, None, 2, 3)
        if z:
            for x in r:
                x.z = 0.0
        r.z = z
        return r
    return [G.ray() for _ in range(rng.randint(1, 5))]

def drawn_path(W, rng, G):
    """a path with spaces to put things in"""
    items, n = [], rng.choice([1.0, 1.0, 1.0, 1.5 if not W.exact else 2.0])
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.75:
            items.append(W.new('space', (G.d() + 1,), n1=n, ap=G.ap(0.2)))
        if n == 1.0 and not W.exact and rng.random() < 0.08:
            i = special(W, rng, whole=True)
            if i:
                items.append(i)
                continue
        i, n2 = G.leaf(W, n, ['space', 'lens', 'lens', 'lens', 'di', 'thick', 'slab', 'aperture', 'aperture', 'mirror'] + (['axicon'] if G.axicon else []))
        if i:
            items.append(i)
            n = n2
    if rng.random() < 0.8:
        items.append(W.new('space', (G.d() + 1,), n1=n))
    g = W.newgroup(items, 'ImagingPath')
    inside, z0 = [], 0.0
    for e in W.o(g).elements:
        if type(e) is rt.Space and e.L > 0:
            inside += [z0 + e.L / 4, z0 + e.L / 2]
        z0 += e.L
    return g, inside, z0

@scen
def s_drawn(W, rng, tier):
    W.exact = rng.random() < 0.3
    G = Gen(rng, exact=W.exact, axicon=rng.random() < 0.1, aps=0.5, sym=True)
    g, inside, L = drawn_path(W, rng, G)
    def where():
        return 0 if rng.random() < 0.4 or not inside else rng.choice(inside) if rng.random() < 0.9 else rng.choice([L * rng.random(), L + 1, -1.0])
    for _ in range(3):
        ask(W, g, 'lines', rays=bundle(rng, G, where()), remove=rng.random() < 0.5)
        if not G.axicon:
            ask(W, g, 'images', z=where(), d=rng.choice([1.0, 4.0, 10.0]))
    ask(W, g, 'stopmarks') if not G.axicon else None
    ask(W, g, 'largest')
    if rng.random() < 0.3:
        W.flip(g)
        ask(W, g, 'lines', rays=bundle(rng, G, 0), remove=rng.random() < 0.5)

@scen
def s_stoplabels(W, rng, tier):
    W.exact = rng.random() < 0.2
    G, g, items = imaging_system(W, rng)
    ask(W, g, 'stopmarks')

@scen
def s_shown(W, rng, tier):
    """whole figures, read from what matplotlib draws"""
    W.exact = rng.random() < 0.3
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.5, sym=True)
    g, inside, L = drawn_path(W, rng, G)
    o = W.o(g)
    for _ in range(2):
        o.showObject, o.showImages = rng.random() < 0.85, rng.random() < 0.85
        o.showElementLabels = rng.random() < 0.8
        o.objectHeight, o.fanAngle, o.fanNumber, o.rayNumber = rng.choice([1.0, 4.0]), 0.125, rng.randint(1, 3), rng.randint(1, 3)
        zs = [0, 0] + ([rng.choice(inside)] if inside else [])
        lst = [bundle(rng, G, rng.choice(zs)) for _ in range(rng.randint(1, 3))]
        ask(W, g, 'shown', rays=lst, remove=rng.random() < 0.6, how=rng.choice(['rays', 'list']))
    if rng.random() < 0.4:
        H, T = rng.randint(1, 3), rng.randint(1, 3)
        ask(W, g, 'shown', rays=[rt.ObjectRays(rng.choice([1.0, 4.0, 10.0]), halfAngle=rng.choice([0.125, 0.25]), H=H, T=T)], remove=rng.random() < 0.6, how='withobject', fans=[H, T])

@scen
def s_portrait(W, rng, tier):
    """an element or a group displayed on its own"""
    W.exact = rng.random() < 0.2
    G = Gen(rng, exact=W.exact, axicon=False, aps=0.5)
    for _ in range(3):
        items, n = G.path_items(W, rng.randint(1, 3), n=rng.choice([1.0, 1.0, 1.5 if not W.exact else 2.0]), nest=0.1)
        i = items[0] if items and rng.random() < 0.8 else W.newgroup(items)
        if not W.exact and rng.random() < 0.25:
            i = special(W, rng, whole=True)
            if not i:
                continue
            if rng.random() < 0.3:
                W.flip(i)
        if rng.random() < 0.2 and not W.isgroup(W.o(i)) and W.proj(W.o(i))['k'] != 'matrix':
            W.flip(i)
        ask(W, i, 'portrait')
        ask(W, i, 'largest')

@scen
def s_switches(W, rng, tier, acts=None):
    """figures with their switches, and somebody who uses them"""
    W.exact = rng.random() < 0.3
    if rng.random() < 0.4:
        G, g, items = imaging_system(W, rng)
        inside = []
    else:
        G = Gen(rng, exact=W.exact, axicon=False, aps=0.5, sym=True)
        g, inside, L = drawn_path(W, rng, G)
    o = W.o(g)
    o.showObject, o.showImages = rng.random() < 0.85, rng.random() < 0.85
    o.objectHeight, o.fanAngle, o.fanNumber, o.rayNumber = rng.choice([1.0, 4.0]), 0.125, rng.randint(1, 3), rng.randint(1, 3)
    zs = [0, 0]
    for z in rng.sample(inside, min(2, len(inside))):
        if all(abs(z - x) > 0.25 for x in zs):
            zs.append(z)
    lst = [bundle(rng, G, rng.choice(zs)) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
    rng.shuffle(lst)
    ask(W, g, 'switches', rays=lst, remove=rng.random() < 0.6, acts=acts or [rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) for _ in range(rng.randint(2, 7))])

@scen
def s_fieldshown(W, rng, tier):
    G, g, items = imaging_system(W, rng)
    ask(W, g, 'fieldshown')
    ask(W, g, 'fieldshown') if rng.random() < 0.3 else None

@scen
def s_outline(W, rng, tier):
    W.exact = False
    G = Gen(rng, axicon=False, aps=0.15)
    items, n = G.path_items(W, rng.randint(1, 4), n=rng.choice([1.0, 1.0, 1.5]), nest=0.1, kinds=['space'] * 4 + ['lens', 'lens', 'di', 'thick', 'slab', 'mirror', 'aperture'])
    g = W.newgroup(items, 'LaserPath')
    o = W.o(g)
    n0 = o.frontIndex
    for _ in range(2):
        b = W.newbeam(q=complex(rng.choice([0.0, rng.uniform(-60, 60)]), rng.uniform(0.5, 200)), n=n0, lam=rng.choice([None, 0.00106]))
        ask(W, g, 'beamlines', beam=b, shown=rng.random() < 0.25)
        ask(W, g, 'waists', beam=b, shown=rng.random() < 0.6)

@scen
def s_report(W, rng, tier):
    """how much of the light of a source gets through, and what stops the rest"""
    np.random.seed(rng.randint(0, 2 ** 31))
    W.exact = False
    G, g, items = imaging_system(W, rng, 0.05)
    o = W.o(g)
    for _ in range(2):
        ok, p = call(o.principalRay)
        ok2, a = call(o.axialRay)
        if not (ok and ok2 and p is not None and a is not None and 1e-6 < abs(p.y) < 1e3 and 1e-6 < abs(a.theta) < 1e3):
            ask(W, g, 'report', n=5)
            return
        k = {}
        if rng.random() < 0.8:
            k['angle'] = float(abs(a.theta) * rng.choice([0.5, 0.9, 1.3, 2.0]) + 1e-3)
        if rng.random() < 0.8:
            k['diameter'] = float(2 * abs(p.y) * rng.choice([0.5, 0.9, 1.3, 2.0]) + 1e-3)
        ask(W, g, 'report', n=rng.choice([1, 8, 24, 24]), **k)

@scen
def s_elements_drawn(W, rng, tier):
    """the elements themselves, whichever way around they are"""
    W.exact = False
    G = Gen(rng, aps=0.6, sym=True)
    items, n = G.path_items(W, rng.randint(1, 5), n=1.0, nest=0.25)
    g = W.newgroup(items, 'ImagingPath')
    ask(W, g, 'drawn')
    ask(W, g, 'foci marks')
    if rng.random() < 0.7:
        W.flip(rng.choice([g] + [i for i in items if not W.isgroup(W.o(i)) and W.o(i).frontIndex == W.o(i).backIndex]))
        ask(W, g, 'drawn')
        ask(W, g, 'foci marks')

@scen
def s_pupil_drawn(W, rng, tier):
    W.exact = rng.random() < 0.2
    G, g, items = imaging_system(W, rng)
    ask(W, g, 'pupilmark')
