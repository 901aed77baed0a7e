"""Records executions of the public API of elements, groups and paths (World/Imaging)."""
import re
import os, copy, math, random, collections, contextlib, pickle, tempfile, shutil
from .env import rt, call, Hang
from .num import R, C

INF = float('inf')
KINDS = {}
for _n, _k in (('Matrix', 'matrix'), ('Lens', 'lens'), ('CurvedMirror', 'mirror'), ('Space', 'space'),
               ('DielectricInterface', 'di'), ('ThickLens', 'thick'), ('DielectricSlab', 'slab'),
               ('Aperture', 'aperture'), ('Axicon', 'axicon')):
    KINDS[getattr(rt, _n)] = _k
PUB = {'lens': ('f',), 'di': ('n1', 'n2', 'R'), 'thick': ('n', 'R1', 'R2'), 'axicon': ('n', 'alpha')}

def get(o, a):
    try:
        return getattr(o, a)
    except Exception:
        return '?'

def flag(x):
    try:
        return bool(x) and x != '?'
    except Exception:
        return False

def tri(ok, x):
    """three valued flag, as a string"""
    return ('T' if x else 'F') if ok else '?'

def mat9(m):
    return [R(get(m, a)) for a in ('A', 'B', 'C', 'D', 'L', 'frontVertex', 'backVertex', 'frontIndex', 'backIndex')]

def ray4(r):
    if not isinstance(r, rt.Ray):
        return [R('x'), R('x'), R('x'), False]
    return [R(r.y), R(r.theta), R(r.z), flag(r.isBlocked)]

def rayall(r):
    return (r.y, r.theta, r.z, r.isBlocked, r.apertureDiameter, r.wavelength)

READS = ('trace', 'fresh', 'q', 'beam', 'read')

def public(o):
    """plain public attributes of an element or group"""
    d = {}
    for k, v in list(vars(o).items()):
        if not k.startswith('_') and (v is None or isinstance(v, (int, float, str, bool))):
            d[k] = repr(float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else repr(v)
    for k in ('objectHeight', 'fanAngle', 'fanNumber', 'rayNumber'):
        if hasattr(type(o), k):
            d[k] = repr(get(o, k))
    return d

def fingerprint(o):
    if isinstance(o, rt.Ray):
        return repr(rayall(o))
    if isinstance(o, rt.GaussianBeam):
        return repr((o.q, o.z, o.n, o.wavelength, o.isClipped))
    if isinstance(o, (list, tuple)):
        return [fingerprint(x) for x in o]
    if isinstance(o, rt.Rays):
        return [fingerprint(x) for x in o.rays]
    return repr(o)

def beam6(b):
    if not isinstance(b, rt.GaussianBeam):
        return [R('x')] * 5 + [False]
    return C(get(b, 'q')) + [R(get(b, 'z')), R(get(b, 'n')), R(get(b, 'wavelength')), flag(get(b, 'isClipped'))]

def says(b):
    return dict(w=R(get(b, 'w')), R=R(get(b, 'R')), wo=R(get(b, 'wo')), waist=R(get(b, 'waist')), wp=R(get(b, 'waistPosition')),
                zo=[R(get(b, a)) for a in ('zo', 'confocalParameter', 'rayleighRange')], finite=flag(get(b, 'isFinite')))

def deep(o, depth=0):
    """everything public an element holds, as text"""
    if o is None or isinstance(o, (bool, str)):
        return repr(o)
    if isinstance(o, (int, float)):
        return repr(float(o))
    if isinstance(o, (list, tuple)):
        return '[' + ','.join(deep(x, depth + 1) for x in o) + ']'
    if isinstance(o, dict):
        return '{' + ','.join(sorted('%s:%s' % (k, deep(v, depth + 1)) for k, v in o.items())) + '}'
    if depth > 8 or not type(o).__module__.startswith('raytracing'):
        return type(o).__name__
    d = {k: v for k, v in vars(o).items() if not k.startswith('_')} if hasattr(o, '__dict__') else {}
    for k in ('objectHeight', 'fanAngle', 'fanNumber', 'rayNumber'):
        if isinstance(o, rt.MatrixGroup) and hasattr(type(o), k):
            d[k] = get(o, k)
    d.pop('iteration', None)
    if type(o) is rt.Space:             # adopts the index of its surroundings
        d.pop('frontIndex', None), d.pop('backIndex', None)
    return type(o).__name__ + deep(d, depth + 1)

FORMS = [None, 'tuple', 'gen', 'iter', 'map', 'rays', 'deque', 'dict', 'raysiter']
def iterable(rays, form):
    return {None: lambda: rays, 'tuple': lambda: tuple(rays), 'gen': lambda: (r for r in rays), 'rays': lambda: rt.Rays(list(rays)),
            'iter': lambda: iter(list(rays)), 'map': lambda: map(lambda r: r, rays), 'deque': lambda: collections.deque(rays),
            'dict': lambda: dict(enumerate(rays)).values(), 'raysiter': lambda: iter(rt.Rays(list(rays)))}[form]()

@contextlib.contextmanager
def workers(mode):
    """what the workers have to cope with"""
    import multiprocessing, multiprocessing.pool
    if mode == 'nopool':
        def broken(*a, **k):
            raise OSError('no processes today')
        names = [(multiprocessing, 'Pool'), (multiprocessing.pool, 'Pool'), (multiprocessing, 'Process')]
        old = [(m, n, getattr(m, n)) for m, n in names]
        try:
            for m, n, _ in old:
                setattr(m, n, broken)
            yield
        finally:
            for m, n, v in old:
                setattr(m, n, v)
    elif mode == 'uneven':
        # the workers finish in an order of their own
        old = rt.Matrix.traceManyThrough
        me = os.getpid()
        def slow(self, inputRays, *a, **k):
            if os.getpid() != me:
                rs = list(inputRays)
                from .env import _sleep
                _sleep(random.Random(repr([(r.y, r.theta) for r in rs[:2]])).random() * 0.05)
                inputRays = rs
            return old(self, inputRays, *a, **k)
        slow.__name__, slow.__qualname__ = old.__name__, old.__qualname__    # methods are sent to the workers by name
        try:
            rt.Matrix.traceManyThrough = slow
            yield
        finally:
            rt.Matrix.traceManyThrough = old
    else:
        yield

class Stop(Exception):
    """the execution under observation can not be continued (an object was refused)"""

class World:
    def __init__(self, tid, exact=False):
        self.tid, self.ev, self.objs, self.ids, self.last = tid, [], [], {}, []
        self.exact = exact
        self.made = 0
        self.dir = None
        self.kept = []
        self.also = []        # properties to which a wrong answer of this event counts as well
        self.watched = []     # [object, what it was]: rays, beams and results handed out
        self.prints = {}

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def o(self, i):
        if not i:
            raise Stop
        return self.objs[i - 1]

    # ---- identity and projection
    def reg(self, o):
        if id(o) not in self.ids:
            self.objs.append(o)
            self.last.append(None)
            self.ids[id(o)] = len(self.objs)
        return self.ids[id(o)]

    def idof(self, o):
        return self.ids.get(id(o), 0)

    def isgroup(self, o):
        return isinstance(o, rt.MatrixGroup)

    def proj(self, o):
        if self.isgroup(o):
            try:
                items = [self.idof(e) for e in o.elements]
                n = len(o)
            except Exception:
                items, n = [-1], -1
            return {'k': 'group', 'items': items, 'n': n, 'm': mat9(o), 'flip': flag(get(o, 'isFlipped')), 'label': str(get(o, 'label'))}
        k = KINDS.get(type(o), '?')
        return {'k': k, 'm': mat9(o), 'ap': R(get(o, 'apertureDiameter')), 'na': R(get(o, 'apertureNA')),
                'flip': flag(get(o, 'isFlipped')), 'label': str(get(o, 'label')),
                'p': [R(get(o, a)) for a in PUB.get(k, ())]}

    def diff(self):
        d = []
        for i, o in enumerate(self.objs):
            p = self.proj(o)
            if p != self.last[i]:
                self.last[i] = p
                d.append([i + 1, p])
        return d

    def log(self, op, ok, **a):
        e = dict(op=op, ok=ok, diff=self.diff(), exact=self.exact, **a)
        if self.also:
            e['also'] = list(self.also)
        mod = self.modified(op in READS)
        if op in READS:
            e['mod'] = mod
        self.ev.append(e)
        return e

    # ---- what reading must not change
    def watch(self, o):
        self.watched.append([o, fingerprint(o)])
        return o

    def modified(self, reading):
        out = []
        for w in self.watched:
            f = fingerprint(w[0])
            if f != w[1]:
                out.append('%s was %s is %s' % (type(w[0]).__name__, w[1], f))
                w[1] = f
        for i, o in enumerate(self.objs):
            f = public(o)
            if reading and i in self.prints and f != self.prints[i]:
                out.append('element %d: %s' % (i + 1, sorted(set(f.items()) ^ set(self.prints[i].items()))[:4]))
            self.prints[i] = f
        return [x[:200] for x in out]

    # ---- construction
    def new(self, k, p=(), L=0.0, fv=None, bv=None, n1=1.0, n2=1.0, ap=INF, na=INF, label=''):
        c = dict(k=k, p=[R(x) for x in p], L=R(L), fv=R(fv), bv=R(bv), n1=R(n1), n2=R(n2), ap=R(ap), na=R(na), label=label)
        # every other time arguments are left out when they say what is assumed anyway
        self.made += 1
        def kw(**a):
            return {x: v for x, (v, d) in a.items() if self.made % 2 or v != d}
        dia = kw(diameter=(ap, INF), label=(label, ''))
        abcd = dict(zip('ABCD', p))
        f = {
            'matrix': lambda: rt.Matrix(**kw(A=(abcd['A'], 1), B=(abcd['B'], 0), C=(abcd['C'], 0), D=(abcd['D'], 1), physicalLength=(L, 0), frontVertex=(fv, None),
                                             backVertex=(bv, None), frontIndex=(n1, 1), backIndex=(n2, 1), apertureDiameter=(ap, INF), apertureNA=(na, INF), label=(label, ''))),
            'lens': lambda: rt.Lens(p[0], **dia),
            'mirror': lambda: rt.CurvedMirror(p[0], **dia),
            'space': lambda: rt.Space(p[0], **kw(n=(n1, 1)), **dia),
            'di': lambda: rt.DielectricInterface(p[0], p[1], **kw(R=(p[2], INF)), **dia),
            'thick': lambda: rt.ThickLens(p[0], p[1], p[2], L, **dia),
            'slab': lambda: rt.DielectricSlab(p[0], L, **dia),
            'aperture': lambda: rt.Aperture(ap, **kw(NA=(na, INF), label=(label, ''))),
            'axicon': lambda: rt.Axicon(alpha=p[1], n=p[0], **dia),
        }[k]
        ok, o = call(f)
        i = self.reg(o) if ok else 0
        self.log('new', ok, c=c)
        return i

    def pack(self):
        """the constructions so far as one event"""
        subs, diff = [], {}
        for e in self.ev:
            for i, p in e['diff']:
                diff[i] = p
            subs.append({k: v for k, v in e.items() if k in ('op', 'ok', 'c', 'items', 'label')})
        self.ev = [dict(op='build', ok=True, diff=[[i, diff[i]] for i in sorted(diff)], exact=self.exact, sub=subs)]

    def adopt(self, o):
        """an element somebody else made (a lens of a catalogue): its parts are as if we had made each of them"""
        if self.isgroup(o):
            items = [self.idof(e) or self.adopt(e) for e in o.elements]
            i = self.reg(o)
            self.log('newgroup', True, items=items, label=o.label)
            return i
        k = KINDS[type(o)]
        p = {'lens': ('f',), 'space': ('L',), 'di': ('n1', 'n2', 'R'), 'thick': ('n', 'R1', 'R2'), 'aperture': ()}[k]
        c = dict(k=k, p=[R(get(o, a)) for a in p], L=R(o.L if k == 'thick' else 0.0), fv=R(None), bv=R(None), n1=R(o.frontIndex),
                 n2=R(o.backIndex), ap=R(o.apertureDiameter), na=R(o.apertureNA), label=o.label)
        i = self.reg(o)
        self.log('new', True, c=c)
        return i

    def newgroup(self, items, cls='MatrixGroup', label=''):
        els = [self.o(i) for i in items]
        ok, g = call(lambda: getattr(rt, cls)(els, label=label))
        i = self.reg(g) if ok else 0
        self.log('newgroup', ok, items=items, label=label)
        return i

    # ---- edits
    def edit(self, op, g, f, **a):
        ok, r = call(f)
        return ok, r

    def append(self, g, i):
        G, x = self.o(g), self.o(i)
        ok, r = call(lambda: G.append(x))
        self.log('append', ok, g=g, i=i)
        return ok

    def insert(self, g, idx, items, form='list'):
        G = self.o(g)
        arg = self.arg(items, form)
        flat = self.flat(items, form)
        ok, r = call(lambda: G.insert(idx, arg))
        self.log('insert', ok, g=g, idx=idx, items=flat)
        return ok

    def arg(self, items, form):
        els = [self.o(i) for i in items]
        if form == 'one':
            return els[0]
        if form == 'tuple':
            return tuple(els)
        if form == 'gen':
            return (e for e in els)
        return els

    def flat(self, items, form):
        if form == 'one' and self.isgroup(self.objs[items[0] - 1]):
            return [self.idof(e) for e in self.objs[items[0] - 1].elements]
        return list(items)

    def pop(self, g, idx):
        G = self.o(g)
        n = len(G.elements)
        want = self.idof(G.elements[idx]) if -n <= idx < n else 0
        ok, r = call(lambda: G.pop(idx))
        self.log('pop', ok, g=g, idx=idx)
        if ok:
            self.ev.append(dict(op='fresh', ok=True, diff=[], exact=self.exact, freshok=True, res=self.idof(r), fresh=want, g=g))
        return ok

    def setitem(self, g, idx, items, form='one'):
        G = self.o(g)
        arg, flat = self.arg(items, form), self.flat(items, form)
        def f():
            G[idx] = arg
        ok, r = call(f)
        self.log('setitem', ok, g=g, idx=idx, items=flat)
        return ok

    def setslice(self, g, i, j, items, form='list'):
        G = self.o(g)
        n = len(G.elements)
        arg, flat = self.arg(items, form), self.flat(items, form)
        def f():
            G[i:j] = arg
        ok, r = call(f)
        self.log('setslice', ok, g=g, i=0 if i is None else i, j=n if j is None else j, items=flat)
        return ok

    def getslice(self, g, i, j):
        G = self.o(g)
        n = len(G.elements)
        ok, r = call(lambda: G[i:j])
        if ok:
            self.reg(r)
        self.log('getslice', ok, g=g, i=0 if i is None else i, j=n if j is None else j)
        return self.idof(r) if ok else 0

    def badedit(self, g, what, rng):
        """an argument that can not be an element"""
        G = self.o(g)
        n = len(G.elements)
        junk = rng.choice([None, 'lens', 3, 2.5, rt.Ray(1, 1), object()])
        els = list(G.elements)
        f = {
            'append': lambda: G.append(junk),
            'insert': lambda: G.insert(rng.randint(-n, n), [junk]),
            'insert2': lambda: G.insert(rng.randint(-n, n), els[:1] + [junk]),
            'setitem': lambda: G.__setitem__(rng.randrange(n) if n else 0, [junk]),
            'setslice': lambda: G.__setitem__(slice(0, n), els[:1] + [junk]),
            'popout': lambda: G.pop(n + rng.randint(0, 3)),
            'popneg': lambda: G.pop(-n - 1 - rng.randint(0, 3)),
            'setout': lambda: G.__setitem__(n + rng.randint(0, 3), rt.Space(1)),
        }[what]
        ok, r = call(f)
        self.log('badedit', ok, g=g, what=what)
        return ok

    def flip(self, g):
        G = self.o(g)
        ok, r = call(lambda: G.flipOrientation())
        self.log('flip', ok, g=g)

    def setap(self, g, ap):
        def f():
            self.o(g).apertureDiameter = ap
        call(f)
        self.log('setap', True, g=g, ap=R(ap))

    def setna(self, g, na):
        def f():
            self.o(g).apertureNA = na
        call(f)
        self.log('setna', True, g=g, na=R(na))

    def setaxicon(self, g, n, alpha):
        def f():
            self.o(g).n = n
            self.o(g).alpha = alpha
        call(f)
        self.log('setax', True, g=g, p=[R(n), R(alpha)])

    def subpath(self, g, z, back):
        G = self.o(g)
        ok, r = call(lambda: G.subPath(z, backwards=back) if back else G.subPath(z))
        known = set(self.ids)
        def walk(els):
            for e in els:
                if id(e) in known or id(e) in self.ids:
                    continue
                self.reg(e)
                if self.isgroup(e):
                    walk(e.elements[::-1] if back else e.elements)
        if ok:
            walk(list(r.elements))
            self.reg(r)
        self.log('subpath', ok, g=g, z=R(z), back=back)
        return self.idof(r) if ok else 0

    def revappend(self, g, sf, sl):
        G = self.o(g)
        ok, r = call(lambda: G.appendElementsInReverse(skipFirstElement=sf, skipLastElement=sl))
        self.log('revappend', ok, g=g, sf=sf, sl=sl)
        return ok

    # ---- Gaussian beams
    def newbeam(self, q=None, w=None, Rc=None, n=None, lam=None, z=None):
        kw = {k: v for k, v in dict(q=q, w=w, R=Rc, n=n, wavelength=lam, z=z).items() if v is not None}
        ok, b = call(lambda: rt.GaussianBeam(**kw))
        self.log('newbeam', ok, c=dict(q=C(q) if q is not None else [], w=R(w), R=R(INF if Rc is None else Rc), n=R(1.0 if n is None else n),
                 lam=R(0.0006328 if lam is None else lam), z=R(0 if z is None else z)),
                 beam=beam6(b) if ok else [], says=says(b) if ok else {})
        return self.watch(b) if ok else None

    def text(self, o):
        """what print() shows of an element, a ray or a beam"""
        ok, text = call(lambda: str(o))
        e = dict(kind='element', g=0, nums=[], afocal=False, blocked=False, finite=True, cq=[], ray=[], beam=[], says={})
        num = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)'
        def found(label):
            m = re.search(label + r'\s*(' + num + ')', text) if ok else None
            return R(float(m.group(1))) if m else R(None)
        if isinstance(o, rt.Ray):
            e.update(kind='ray', ray=ray4(o), nums=[found(x) for x in ('y =', 'theta =', r'\bz =')], blocked='blocked' in text if ok else False)
        elif isinstance(o, rt.GaussianBeam):
            m = re.search(r'Complex radius: \(?([^)\n]*)\)?', text) if ok else None
            e.update(kind='beam', beam=beam6(o), says=says(o), finite='not finite' not in text if ok else False, cq=C(complex(m.group(1))) if m else [],
                     nums=[found(x) for x in (r'\bw\(z\):', r'\bR\(z\):', r'\bz:', 'λ:', r'\bzo:', r'\bwo:', 'wo position:')])
        else:
            e.update(g=next(i for i, x in enumerate(self.objs) if x is o) + 1, nums=[R(float(x)) for x in re.findall(num, text.split('f')[0])] if ok else [],
                     afocal='afocal' in text if ok else False)
            e['nums'].append(found('f ?='))
        self.log('text', ok, **e)

    def reborn(self, b):
        self.log('says', True, beam=beam6(b), says=says(b))

    def roundtrip(self, g, b):
        o = self.o(g)
        rec = beam6(b)
        return self.q('roundtrip', g, lambda o: o.trace(b)[-1], beam6, beam=rec)

    # ---- many rays at once
    def many(self, g, rays, form=None):
        rec = [ray4(r) for r in rays]
        def f(o):
            tr = o.traceMany(iterable(rays, form))
            th = o.traceManyThrough(iterable(rays, form), progress=False)
            self.watched.append([tr, fingerprint(tr)])
            return tr, th
        return self.q('many', g, f, lambda r: dict(traces=[[ray4(x) for x in t] for t in r[0]], through=[ray4(x) for x in r[1].rays],
                      n=len(r[1])), rays=rec)

    def parallel(self, g, rays, form, procs, mode):
        """the same rays traced by several processes and by this one"""
        rec = [ray4(r) for r in rays]
        k = lambda rs: sorted([ray4(x) for x in rs], key=repr)
        if mode == 'unpicklable':
            self.o(g).comment = lambda: 0            # cannot be sent to another process
        def f(o):
            with workers(mode):
                p = o.traceManyThroughInParallel(iterable(rays, form), progress=False, processes=procs)
            s = o.traceManyThrough(list(rays), progress=False)
            return p, s
        r = self.q('parallel', g, f, lambda r: dict(par=k(list(r[0])), ser=k(list(r[1])), n=len(r[0])), rays=rec, form=form or 'list', procs=procs or 0, mode=mode)
        if mode == 'unpicklable':
            del self.o(g).comment
        return r

    def forget(self, ray):
        """the caller changes its own ray: what holds that very object is not looked at any more"""
        def holds(o):
            return o is ray or (isinstance(o, list) and any(holds(x) for x in o))
        self.watched = [w for w in self.watched if not holds(w[0])]
        self.kept = [k for k in self.kept if not any(x is ray for x in k[2])]

    def read(self, what, f):
        ok, r = call(f)
        self.log('read', True, what=what)

    def readrays(self, g, rng, G):
        o = self.o(g)
        what = rng.choice(['str', 'repr', 'eq', 'diameters', 'surfaces', 'poi', 'flags', 'rays'])
        r = self.watch(G.ray())
        f = {'str': lambda: str(o), 'repr': lambda: repr(o), 'eq': lambda: (o == o, o == self.objs[0], self.objs[0] == o),
             'diameters': lambda: [(x.largestDiameter, x.hasFiniteApertureDiameter(), x.displayHalfHeight()) for x in list(self.objs)],
             'surfaces': lambda: [(x.surfaces, x.forwardSurfaces) for x in list(self.objs)],
             'poi': lambda: [x.pointsOfInterest(0) for x in list(self.objs)],
             'flags': lambda: [(x.isImaging, x.hasPower, x.isIdentity, x.determinant) for x in list(self.objs)],
             'rays': lambda: (r.at(5.0), rt.Ray.along([r, r.at(2.0)], 1.0), str(r), r == r, r.isNotBlocked)}[what]
        self.read(what, f)

    def figure(self, g, rng, G):
        """the graphics of a path, without drawing them"""
        o = self.o(g)
        rays = self.watch(rt.Rays([self.watch(G.ray()) for _ in range(3)]))
        lst = [rays]
        self.watched.append([lst, fingerprint(lst)])
        def f():
            from raytracing.figure import Figure, GraphicOf
            fig = Figure(o)
            for name, args in (('rayTraceLines', (rays,)), ('rearrangeRayTraceForPlotting', (o.traceMany(rays.rays), True)), ('setGraphicsFromOpticalPath', ()),
                               ('setGraphicOfElements', ()), ('stopsLabels', ()), ('stopsOffsets', ()), ('displayRange', ())):
                a = getattr(fig, name, None)
                if callable(a):
                    call(lambda: a(*args))
        self.read('figure', f)

    def beam(self, g, b):
        o = self.o(g)
        rec = beam6(b)
        ok, res = call(lambda: o.trace(b))
        out = [beam6(x) for x in res] if ok else []
        if ok and res:
            self.watched.append([res, fingerprint(res)])
        self.log('beam', ok, g=g, beam=rec, res=out)
        return res if ok else None

    # ---- files
    def path(self, f):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='vf-world-')
        return os.path.join(self.dir, '%s-%s.pkl' % (self.tid, f))

    def save(self, g, f):
        ok, r = call(lambda: self.o(g).save(self.path(f)))
        self.log('save', ok, g=g, f=f, dump=[deep(x) for x in self.o(g).elements])

    def reach(self, els, acc):
        for e in els:
            if e not in acc:
                acc.append(e)
                if self.isgroup(e):
                    self.reach(e.elements, acc)

    def load(self, g, f, app):
        G = self.o(g)
        before = list(G.elements)
        ok, r = call(lambda: G.load(self.path(f), append=app))
        def walk(els, seen):
            for e in els:
                if id(e) in seen:
                    continue
                seen.add(id(e))
                self.reg(e)
                if self.isgroup(e):
                    walk(e.elements, seen)
        if ok:
            walk(list(G.elements), set(id(o) for o in before))
        self.log('load', ok, g=g, f=f, app=app, dump=[deep(x) for x in G.elements])
        return ok

    def badload(self, g, data, app):
        p = self.path('bad')
        if data is None:
            p = self.path('missing')
        else:
            with open(p, 'wb') as h:
                if isinstance(data, bytes):
                    h.write(data)
                else:
                    pickle.dump(data[0], h)
        ok, r = call(lambda: self.o(g).load(p, append=app))
        self.log('badload', ok, g=g)

    # ---- rays
    def trace(self, g, ray, through=False, fresh=True):
        o = self.o(g)
        before = rayall(ray)
        r4 = ray4(ray)
        ok, res = call(lambda: o.trace(ray))
        kept = rayall(ray) == before
        rec = [ray4(x) for x in res] if ok else []
        if ok and through:
            ok2, last = call(lambda: o.traceThrough(ray))
            rec2 = ray4(last) if ok2 else None
            if rec2 != (rec[-1] if rec else None):
                rec = rec + [rec2 or ray4(None)]
        if ok:
            self.kept.append((res, list(rec), [x for x in res]))
        self.log('trace', ok, g=g, ray=r4, res=rec, inkept=kept)
        if not kept:
            ray.y, ray.theta, ray.z, ray.isBlocked, ray.apertureDiameter, ray.wavelength = before
        return res if ok else None

    def copy_of(self, o):
        if self.isgroup(o):
            g = rt.MatrixGroup()
            g2 = type(o).__new__(type(o)) if False else g
            for e in o.elements:
                g2.append(self.copy_of(e))
            return g2
        return copy.copy(o)

    def trace_fresh(self, g, ray):
        """observed trace vs that of an equal ray through a new copy of the path"""
        o = self.o(g)
        ok0, c = call(lambda: self.copy_of(o))
        if not ok0:
            return
        ray2 = rt.Ray(ray.y, ray.theta, ray.z, ray.isBlocked)
        ray2.apertureDiameter = ray.apertureDiameter
        before = rayall(ray)
        ok, res = call(lambda: o.trace(ray))
        if rayall(ray) != before:
            ray.y, ray.theta, ray.z, ray.isBlocked, ray.apertureDiameter, ray.wavelength = before
        fok, fres = call(lambda: c.trace(ray2))
        rec = [ray4(x) for x in res] if ok else []
        frec = [ray4(x) for x in fres] if fok else []
        if ok:
            self.kept.append((res, list(rec), [x for x in res]))
        self.log('fresh', ok, g=g, freshok=fok, res=rec, fresh=frec)
        return res if ok else None

    def check_kept(self, upto=None):
        """results returned earlier still have the values they had"""
        for res, rec, objs in self.kept:
            now = [ray4(x) for x in res] if isinstance(res, list) else []
            self.log('fresh', True, g=0, freshok=True, res=now, fresh=rec)
        self.kept = []

    def q(self, name, g, f, enc=lambda x: x, **a):
        o = self.o(g)
        ok, r = call(lambda: f(o))
        res = []
        if ok:
            try:
                res = enc(r)
            except Exception:
                ok = False
        return self.log('q', ok, q=name, g=g, res=res, **a)

    def done(self, tags=()):
        return dict(tid=self.tid, ev=self.ev)
