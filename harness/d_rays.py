"""Drivers for collections of rays and ray sources (C18, C19, C20)."""
import os, pickle, tempfile, shutil, warnings
import numpy as np
from .env import rt, call
from .num import R
from .scenario import Rec, Stop, family, drive

def enc(r):
    """one ray as the specification sees it"""
    if type(r).__name__ != 'Ray':
        return [R('?')] * 3 + [False] + [R('?')] * 2
    return [R(r.y), R(r.theta), R(r.z), bool(r.isBlocked), R(r.apertureDiameter), R(r.wavelength)]

def encs(rs):
    return [enc(r) for r in rs]

def numbers(v):
    return [R(x) for x in v]

def counts(v):
    return [int(x) if float(x) == int(x) else -1 for x in v]

class Coll(Rec):
    def __init__(self, tid):
        super().__init__(tid)
        self.c, self.random, self.source, self.known = [], [], [], []
        self.dir = tempfile.mkdtemp(prefix='vf-rays-')
        self.exact = True

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def see(self, only=None):
        """content of the determined collections"""
        return [[g + 1, encs(c.rays)] for g, c in enumerate(self.c) if (only is None or g + 1 == only) and self.known[g]]

    def add(self, c, random=False, source=False):
        self.c.append(c)
        self.random.append(random)
        self.source.append(source)
        self.known.append(not random)
        return len(self.c)

    # ---- making
    def new(self, rays, how):
        src = list(rays)
        bad = how.startswith('bad')
        if how == 'none':
            f = lambda: rt.Rays()
        elif how == 'tuple':
            f = lambda: rt.Rays(tuple(src))
        elif how == 'gen':
            f = lambda: rt.Rays(r for r in src)
        elif how == 'iter':
            f = lambda: rt.Rays(iter(src))
        elif how == 'map':
            f = lambda: rt.Rays(rays=map(lambda r: r, src))
        elif how == 'rays':
            f = lambda: rt.Rays(rt.Rays(src))
        elif how == 'badnum':
            f = lambda: rt.Rays(3)
        elif how == 'baditem':
            f = lambda: rt.Rays(src + [(1, 2)])
        elif how == 'badray':
            f = lambda: rt.Rays(rt.Ray(1, 2))
        else:
            f = lambda: rt.Rays(src)
        ok, c = call(f)
        e = dict(bad=bad, rays=encs(rays if how != 'none' else []))
        if ok and not bad:
            self.add(c)
            src.append(rt.Ray(77, 77))       # the caller goes on using his own list
            self.log('new', ok, see=self.see(), **e)
            return len(self.c)
        self.log('new', ok, see=[], **e)
        if ok != (not bad):
            raise Stop
        return 0

    def append(self, g, r, bad=False):
        ok, _ = call(lambda: self.c[g - 1].append(r))
        self.log('append', ok, g=g, bad=bad, ray=enc(r) if not bad else [], see=self.see())

    # ---- files
    def path(self, f):
        return os.path.join(self.dir, f)

    def save(self, g, f):
        c = self.c[g - 1]
        ok, _ = call(lambda: c.save(self.path(f)))
        after = encs(list(c)) if not self.known[g - 1] else []
        self.known[g - 1] = True
        self.log('save', ok, g=g, f=f, after=after, see=self.see())

    def write(self, f, obj, rays):
        """a file somebody else wrote, with rays in it"""
        with open(self.path(f), 'wb') as o:
            pickle.dump(obj, o)
        self.log('write', True, f=f, rays=encs(rays), see=[])

    def load(self, g, f, app):
        c = self.c[g - 1]
        ok, _ = call(lambda: c.load(self.path(f), append=app) if app is not None else c.load(self.path(f)))
        if ok and not app:
            self.random[g - 1] = False
            self.known[g - 1] = True
        self.log('load', ok, g=g, f=f, app=bool(app), see=self.see())

    def badload(self, g, data, app):
        p = self.path('bad')
        if data is None:
            p = self.path('missing')
        else:
            with open(p, 'wb') as o:
                if isinstance(data, bytes):
                    o.write(data)
                else:
                    pickle.dump(data[0], o)
        ok, _ = call(lambda: self.c[g - 1].load(p, append=app))
        self.log('badload', ok, g=g, see=self.see())

    # ---- questions
    def query(self, g, q, **k):
        c = self.c[g - 1]
        e = dict(q=q, g=g, src=self.source[g - 1])
        if q == 'len':
            ok, o = call(lambda: int(len(c)))
        elif q == 'count':
            ok, o = call(lambda: int(c.count))
        elif q == 'ys':
            ok, v = call(lambda: c.yValues)
            o = numbers(v) if ok else []
            if ok and isinstance(v, list):
                v.append(1.5)                  # the caller does what he wants with the list he got
                v[0] = 99.0
        elif q == 'ths':
            ok, v = call(lambda: c.thetaValues)
            o = numbers(v) if ok else []
            if ok and isinstance(v, list):
                v.reverse()
                v.append(1.5)
        elif q == 'iter':
            ok, v = call(lambda: [r for r in c])
            o = encs(v) if ok else []
        elif q == 'list':
            ok, v = call(lambda: list(c))
            o = encs(v) if ok else []
        elif q == 'rays':
            ok, v = call(lambda: c.rays)
            o = encs(v) if ok else []
            if ok and isinstance(v, list):
                v.append(rt.Ray(5, 5))
        elif q == 'head':
            n = k['n']
            def f():
                out = []
                if n:
                    for r in c:
                        out.append(r)
                        if len(out) >= n:
                            break
                return out
            ok, v = call(f)
            o = encs(v) if ok else []
            e['n'] = n
        elif q == 'item':
            ok, v = call(lambda: c[k['i']])
            o = enc(v) if ok else []
            e['i'] = k['i']
        elif q == 'slice':
            ok, v = call(lambda: c[k['i']:k['j']])
            o = encs(v) if ok else []
            e.update(i=k['i'], j=k['j'])
        elif q in ('hist', 'ahist'):
            kw = dict(k['kw'])
            f = c.rayCountHistogram if q == 'hist' else c.rayAnglesHistogram
            ok, v = call(lambda: f(**kw))
            o = [[], []]
            if ok:
                try:
                    o = [numbers(v[0]), counts(v[1])]
                    if isinstance(v[1], list):
                        v[1][:1] = [1000, 1000]
                        v[0].append(0)
                except Exception:
                    o = [[], []]
            lo, hi, b = kw.get('minValue'), kw.get('maxValue'), kw.get('binCount')
            e.update(bins=-99 if b is None else b, lo=R(lo), hi=R(hi),
                     exact=bool(k.get('exact')) and all(float(x * 64).is_integer() for r in c.rays for x in (r.y, r.theta)))
        else:
            raise KeyError(q)
        if q in ('iter', 'list', 'rays', 'ys', 'ths') and ok and q in ('iter', 'list'):
            self.known[g - 1] = True
        e.update(ok=ok, obs=o if ok or q in ('hist', 'ahist', 'iter', 'list', 'rays', 'ys', 'ths', 'slice', 'head', 'item') else -1)
        return e

    def ask(self, g, q, **k):
        e = self.query(g, q, **k)
        ok = e.pop('ok')
        self.log('q', ok, **e)

    def during(self, g, plan, stop):
        """iterate over g; plan: position -> questions asked meanwhile"""
        qs, seen = [], []
        n = 0
        c = self.c[g - 1]
        def f():
            nonlocal n
            for r in c:
                seen.append(r)
                for h, q, k in plan.get(n, []):
                    qs.append(dict(op='q', **self.query(h, q, **k)))
                n += 1
                if n >= stop or n > 400:
                    break
        ok, _ = call(f)
        qs.append(dict(op='q', q='nested', g=g, src=self.source[g - 1], ok=ok, obs=encs(seen), n=stop))
        self.log('during', True, qs=qs)

scen = family(Coll)

def aray(rng):
    y = rng.randint(-64, 64) / 8.0
    th = rng.randint(-32, 32) / 64.0
    r = rt.Ray(y, th, rng.choice([0.0, rng.randint(-8, 8) / 4.0]), rng.random() < 0.15)
    if rng.random() < 0.3:
        r.apertureDiameter = float(rng.randint(1, 40))
    if rng.random() < 0.3:
        r.wavelength = rng.choice([0.5, 0.633])
    return r

def somerays(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 13]) if n is None else n
    return [aray(rng) for _ in range(n)]

def histkw(rng, angle, exact=None):
    """arguments of a histogram, and whether its edges are exact in floating point"""
    kw = {}
    exact = rng.random() < 0.5 if exact is None else exact
    ex = exact
    if rng.random() < 0.75 or exact:
        kw['binCount'] = rng.choice([1, 2, 4, 8, 16]) if exact else rng.choice([1, 3, 5, 7, 10, 40, 0, -1, 2])
    sc = 16.0 if angle else 1.0
    if exact or rng.random() < 0.6:
        kw['minValue'] = rng.randint(-8, 2) / sc
    if exact or rng.random() < 0.6:
        kw['maxValue'] = rng.randint(1 if not exact else 3, 8) / sc if rng.random() < 0.9 or exact else rng.randint(-9, -3) / sc
    return dict(kw=kw, exact=ex)

def question(W, rng, g, known=True):
    n = len(W.c[g - 1])
    q = rng.choice(['len', 'count', 'ys', 'ths', 'iter', 'list', 'item', 'item', 'slice', 'head'] + (['hist', 'hist', 'ahist', 'ahist', 'rays'] if known else []))
    k = {}
    if q == 'item':
        k['i'] = rng.randint(-n - 1, n)
    elif q == 'slice':
        k['i'], k['j'] = rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)
    elif q == 'head':
        k['n'] = rng.randint(0, n + 1)
    elif q in ('hist', 'ahist'):
        k = W.hist.get(q) if getattr(W, 'hist', None) and rng.random() < 0.4 and W.hist.get(q) else histkw(rng, q == 'ahist')
        W.hist = dict(getattr(W, 'hist', None) or {}, **{q: k})     # often the same question again
    return q, k

BAD = [None, b'', b'garbage', (3,), ([1, 2],), ('text',), ({'a': 1},), (None,), (3.5,)]

def files(W, rng, g):
    x = rng.random()
    names = getattr(W, 'names', [])
    if x < 0.35 or not names:
        f = rng.choice(['a', 'b'])
        if rng.random() < 0.3:
            rs = somerays(rng)
            W.write(f, rng.choice([list, tuple, rt.Rays])(rs), rs)
        else:
            W.save(g, f)
        W.names = sorted(set(names) | {f})
    elif x < 0.8:
        W.load(g, rng.choice(names), rng.choice([True, False, None]))
    else:
        W.badload(g, rng.choice(BAD + [([rt.Ray(1, 1), 'x'],), ([rt.Ray(1, 1), None],), (rt.Ray(1, 2),)]), rng.random() < 0.5)

def change(W, rng, g):
    if rng.random() < 0.85:
        W.append(g, aray(rng))
    else:
        W.append(g, rng.choice([None, 3, (1, 2), [rt.Ray()], rt.Rays()]), bad=True)

def plan(W, rng, g, n):
    p = {}
    for _ in range(rng.randint(1, 3)):
        h = rng.choice(range(1, len(W.c) + 1)) if rng.random() < 0.3 else g
        p.setdefault(rng.randint(0, max(0, n - 1)), []).append((h,) + question(W, rng, h, W.known[h - 1]))
    return p

@scen
def s_coll(W, rng, tier):
    how = rng.choice(['list', 'list', 'tuple', 'gen', 'iter', 'map', 'rays', 'none'])
    g = W.new([] if how == 'none' else somerays(rng), how)
    for _ in range(rng.randint(6, 14)):
        x = rng.random()
        if x < 0.06 and len(W.c) < 3:
            g2 = W.new(somerays(rng), rng.choice(['list', 'tuple', 'gen', 'iter', 'badnum', 'baditem', 'badray']))
            g = g2 or g
        elif x < 0.28:
            change(W, rng, g)
        elif x < 0.42:
            files(W, rng, g)
        elif x < 0.55:
            n = len(W.c[g - 1])
            W.during(g, plan(W, rng, g, n), n + 1 if rng.random() < 0.7 else rng.randint(1, n + 1))
        else:
            q, k = question(W, rng, g)
            W.ask(g, q, **k)

@scen
def s_rayfiles(W, rng, tier):
    g = W.new(somerays(rng), 'list')
    h = W.new(somerays(rng), 'list')
    for _ in range(rng.randint(4, 9)):
        x = rng.choice([g, h])
        files(W, rng, x) if rng.random() < 0.7 else change(W, rng, x)
        if rng.random() < 0.6:
            q, k = question(W, rng, x)
            W.ask(x, q, **k)

def bounds(rng, top=8.0, q=4.0):
    a, b = rng.randint(-int(top * q), int(top * q)) / q, rng.randint(-int(top * q), int(top * q)) / q
    return (min(a, b), max(a, b)) if rng.random() < 0.9 else (a, a)

def source(W, rng):
    """a deterministic source"""
    kind = rng.choice(['uniform', 'uniform', 'object', 'lambert', 'lamp', 'lampH', 'fan', 'fanGroup'])
    M, N = rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 5, 6])
    y0, y1 = bounds(rng)
    t0, t1 = bounds(rng, 1.0, 16.0)
    I = 0
    if kind == 'uniform':
        if rng.random() < 0.3:
            y1 = abs(y1); y0 = -y1
            kind += 'Y'
        if rng.random() < 0.3:
            t1 = abs(t1); t0 = -t1
            kind += 'T'
    elif kind in ('object', 'lamp', 'lampH'):
        y1, t1 = abs(y1), abs(t1)
        y0, t0 = -y1, -t1
    elif kind == 'lambert':
        I = rng.choice([1, 2, 3, 5, 10])
        N = rng.choice([1, 2, 3, 4, 5, 7])
        M = rng.choice([1, 2, 3])
        if rng.random() < 0.3:
            y1 = abs(y1); y0 = -y1
            kind += 'Y'
    elif kind == 'fan':
        M, y1 = 1, y0
        if rng.random() < 0.1:
            N = 0
    elif rng.random() < 0.1:
        M, N = rng.choice([(0, 2), (2, 0), (-1, 2)])
    return makesource(W, kind, M, N, y0, y1, t0, t1, I, rng.choice([0, 3.0]))

def makesource(W, kind, M, N, y0, y1, t0, t1, I, z):
    """uniformY, uniformT, lambertY: the lower bound left out, it is the opposite of the upper one"""
    if kind.startswith('uniform'):
        kw = dict(yMax=y1, yMin=None if 'Y' in kind else y0, thetaMax=t1, thetaMin=None if 'T' in kind else t0, M=M, N=N)
        f, e = (lambda: rt.UniformRays(**kw)), dict(kind='uniform')
    elif kind == 'object':
        f, e = (lambda: rt.ObjectRays(2 * y1, halfAngle=t1, H=M, T=N, z=z, label='x')), dict(kind='uniform')
    elif kind in ('lamp', 'lampH'):
        f = (lambda: rt.LampRays(2 * y1, NA=t1, N=M, T=N)) if kind == 'lamp' else (lambda: rt.LampRays(2 * y1, NA=t1, N=7, T=N, H=M))
        e = dict(kind='grid')
    elif kind.startswith('lambert'):
        kw = dict(yMax=y1, yMin=None if 'Y' in kind else y0, M=M, N=N, I=I)
        f, e = (lambda: rt.LambertianRays(**kw)), dict(kind='lambert', I=I)
    elif kind == 'fan':
        f, e = (lambda: rt.Ray.fan(y0, t0, t1, N)), dict(kind='grid' if N > 0 else 'refused')
    else:
        f, e = (lambda: rt.Ray.fanGroup(y0, y1, M, t0, t1, N)), dict(kind='grid' if N > 0 and M > 0 else 'refused')
    ok, c = call(f)
    obs = encs(list(c)) if ok else []
    W.log('source', ok, obs=obs, y0=R(y0), y1=R(y1), t0=R(t0), t1=R(t1), M=M, N=N, what=kind, **e)
    if e['kind'] == 'refused' or not ok:
        return 0
    return W.add(rt.Rays(c)) if isinstance(c, list) else W.add(c, source=True)

def randomsource(W, rng):
    kind = rng.choice(['uniform', 'uniform', 'lambert', 'gauss', 'lamp'])
    n = rng.choice([0, 1, 2, 3, 5, 8])
    y0, y1 = bounds(rng)
    t0, t1 = bounds(rng, 1.0, 16.0)
    hp = np.pi / 2
    if kind == 'uniform':
        kw = dict(yMax=y1, yMin=y0, thetaMax=t1, thetaMin=t0, maxCount=n)
        if rng.random() < 0.3:
            y1 = abs(y1); y0 = -y1
            kw.update(yMax=y1, yMin=None)
        if rng.random() < 0.3:
            kw.pop('thetaMax'); kw.pop('thetaMin')
            t0, t1 = -hp, hp
        f = lambda: rt.RandomUniformRays(**kw)
    elif kind == 'lambert':
        t0, t1 = -hp, hp
        f = lambda: rt.RandomLambertianRays(yMax=y1, yMin=y0, maxCount=n)
    elif kind == 'gauss':
        w = max(0.25, abs(y1))
        y0, y1, t0, t1 = -4 * w, 4 * w, -hp, hp
        f = lambda: rt.GaussianProfileUniformRays(w, maxCount=n)
    else:
        d, a = abs(y1) * 2, abs(t1)
        y0, y1, t0, t1 = -d / 2, d / 2, -a, a
        f = lambda: rt.LampRays(d, NA=a, N=n, random=True)
    ok, c = call(f)
    W.log('source', ok, kind='random', n=n, y0=R(y0), y1=R(y1), t0=R(t0), t1=R(t1), what=kind)
    if not ok:
        raise Stop
    return W.add(c, random=True, source=True)

@scen
def s_source(W, rng, tier):
    g = source(W, rng)
    if not g:
        return
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < 0.2:
            change(W, rng, g)
        elif x < 0.3:
            files(W, rng, g)
        elif x < 0.5:
            n = len(W.c[g - 1])
            W.during(g, plan(W, rng, g, n), n + 1 if rng.random() < 0.7 else rng.randint(1, n + 1))
        else:
            q, k = question(W, rng, g)
            W.ask(g, q, **k)

@scen
def s_random(W, rng, tier):
    np.random.seed(rng.randint(0, 2 ** 31))
    g = randomsource(W, rng)
    if rng.random() < 0.3:
        randomsource(W, rng)
    for _ in range(rng.randint(5, 12)):
        g = rng.randint(1, len(W.c))
        x = rng.random()
        if x < 0.06 and W.known[g - 1]:
            change(W, rng, g)
        elif x < 0.2:
            f = rng.random()
            if f < 0.4:
                W.save(g, 'r')
                W.names = ['r']
            elif getattr(W, 'names', None):
                W.load(g, 'r', rng.random() < 0.5)
        elif x < 0.4:
            n = len(W.c[g - 1])
            W.during(g, plan(W, rng, g, n), n + 1 if rng.random() < 0.6 else rng.randint(1, n + 1))
        else:
            q, k = question(W, rng, g, W.known[g - 1])
            W.ask(g, q, **k)

# ---- specification -> code: the histories TLC generates from spec/MCRays.tla, performed on real collections
POOL = [(0.5, 0.0), (-1.5, 0.25), (2.0, -0.125), (0.5, 0.375)]

def play(job):
    from .num import F
    k, hist = job
    W = Coll('rays-%d' % k)
    pool = [rt.Ray(y, th) for y, th in POOL]
    try:
        W.new(pool[:2], ['list', 'tuple', 'gen', 'rays'][k % 4])
        W.new([], ['none', 'list'][k % 2])
        for o in hist:
            if o['op'] == 'append':
                W.append(o['g'], pool[o['k'] - 1])
            elif o['op'] == 'save':
                W.save(o['g'], o['f'])
            elif o['op'] == 'load':
                W.load(o['g'], o['f'], o['app'])
            elif o['q'] == 'head':
                W.ask(o['g'], 'head', n=o['n'])
            elif o['q'] in ('hist', 'ahist'):
                kw = dict(zip(('binCount', 'minValue', 'maxValue'), (o['h'][0], F(o['h'][1]), F(o['h'][2]))))
                W.ask(o['g'], o['q'], kw={a: b for a, b in kw.items() if b is not None}, exact=True)
            else:
                W.ask(o['g'], o['q'])
        for g in (1, 2):                       # what every answer would be now
            for q in ('len', 'ys', 'ths', 'iter'):
                W.ask(g, q)
            W.ask(g, 'hist', kw=dict(binCount=4, minValue=-2.0, maxValue=2.0), exact=True)
            W.ask(g, 'ahist', kw=dict(binCount=2, minValue=0.0, maxValue=0.5), exact=True)
    except Stop:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

def play_source(job):
    """a source of MCSources, or a history of looking at a random one"""
    from .num import F
    k, o = job
    W = Coll('source-%d' % k)
    np.random.seed(k)
    look = lambda g, o: W.ask(g, o['q'], **{a: b for a, b in o.items() if a != 'q'})
    try:
        if 'src' in o:
            s = o['src']
            y0, y1, t0, t1 = [F(x) for x in s['y'] + s['t']]
            g = makesource(W, s['kind'], s['M'], s['N'], y0, y1, t0, t1, s['I'], [0, 3.0][k % 2])
            if g:
                for q in ('len', 'ys', 'ths', 'iter'):
                    W.ask(g, q)
                for i in (-1, 0, len(W.c[g - 1]), -len(W.c[g - 1]) - 1):
                    W.ask(g, 'item', i=i)
        else:
            makes = [lambda: rt.RandomUniformRays(yMax=2.0, yMin=-2.0, thetaMax=0.5, thetaMin=-0.5, maxCount=3),
                     lambda: rt.RandomLambertianRays(yMax=2.0, yMin=-2.0, maxCount=3),
                     lambda: rt.LampRays(4.0, NA=0.5, N=3, random=True)]
            ok, c = call(makes[k % 3])
            t = 0.5 if k % 3 != 1 else np.pi / 2
            W.log('source', ok, kind='random', n=3, y0=R(-2.0), y1=R(2.0), t0=R(-t), t1=R(t), what=str(k % 3))
            g = W.add(c, random=True, source=True)
            for x in o['hist']:
                look(g, x)
            W.ask(g, 'iter'), W.ask(g, 'len'), W.ask(g, 'ys')
    except Stop:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

def replay_sources(ctx, r, what, limit=None):
    some(ctx, r, what, limit, lambda o: o, play_source)

def replay(ctx, r, limit=None):
    some(ctx, r, 'histories of MCRays', limit, lambda o: o['hist'], play)

def some(ctx, r, what, limit, get, run):
    from . import core
    from .gen import rng_for
    all_ = [get(o) for o in sorted(core.outs(r), key=repr)]
    jobs = list(enumerate(all_))
    if limit and len(jobs) > limit:
        jobs = sorted(rng_for(ctx.seed, what, ctx.pid, 0).sample(jobs, limit))
    ctx.kinds[what] = len(jobs)
    ctx.log('replaying %d of %d %s' % (len(jobs), len(all_), what))
    ctx.validate('RayTrace', core.fork_map(run, jobs))
