"""Drivers for glasses, lenses, objectives, the catalogues and lens files (C23, C24, C28, C29)."""
import os, re, tempfile, shutil, importlib, inspect
from fractions import Fraction
from .env import rt, call
from .num import R, F
from .scenario import Rec, Stop, family, drive as _drive
from .gen import rng_for
from . import core
import raytracing.materials as M
import raytracing.specialtylenses as SL
from raytracing.zemax import ZMXReader

GLASSES = [k for k, c in vars(M).items() if isinstance(c, type) and issubclass(c, M.Material) and c is not M.Material]
LIBS = ['thorlabs', 'eo', 'olympus', 'nikon']

def parts():
    out = {}
    for m in LIBS:
        mod = importlib.import_module('raytracing.' + m)
        for k, c in vars(mod).items():
            if isinstance(c, type) and c.__module__ == mod.__name__ and issubclass(c, rt.Matrix):
                out[k] = c
    return out

class Lens(Rec):
    def __init__(self, tid):
        super().__init__(tid)
        self.dir = tempfile.mkdtemp(prefix='vf-lens-')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    @staticmethod
    def el(o):
        return dict(A=R(o.A), B=R(o.B), C=R(o.C), D=R(o.D), L=R(o.L), n1=R(o.frontIndex), n2=R(o.backIndex), ap=R(o.apertureDiameter))

    def look(self, o):
        """a group as the specification sees it"""
        f = o.effectiveFocalLengths()
        return dict(els=[self.el(x) for x in o.elements],
                    sum=dict(A=R(o.A), B=R(o.B), C=R(o.C), D=R(o.D), L=R(o.L), fv=R(o.frontVertex), bv=R(o.backVertex)),
                    foc=dict(f1=R(f.f1), f2=R(f.f2), bfl=R(o.backFocalLength()), ffl=R(o.frontFocalLength())))

    @staticmethod
    def surfaces(o):
        ok, l = call(lambda: [[R(x.R), R(x.n), R(x.L)] for x in o.surfaces])
        ok2, fw = call(lambda: [[R(x.R), R(x.n), R(x.L)] for x in o.forwardSurfaces])
        return dict(sok=ok and ok2, surfs=l if ok else [], fsurfs=fw if ok2 else [])

    @staticmethod
    def drawn(o, z):
        """how a lens is drawn when it is at z"""
        from . import drawings
        from raytracing.graphics import GraphicOf
        def f():
            g = GraphicOf(o, x=z)
            return dict(drawings.crossings(g), h=drawings.outline(g)['h'])
        ok, d = call(f)
        return dict(dok=ok, drawn=d if ok else {})

    @staticmethod
    def flip(o, n):
        for i in range(n):
            o.flipOrientation()

    @staticmethod
    def poi(o, z):
        return [dict(z=R(p['z']), label=str(p['label'])) for p in o.pointsOfInterest(z)]

    EMPTY = dict(els=[], sum={}, foc={})

    # ---- lenses from their prescription
    def doublet(self, r, R1, tc1, R2, tc2, R3, diam, mats, w, wref, f, fb, te, label):
        k = dict(fa=f, fb=fb, R1=R1, R2=R2, R3=R3, tc1=tc1, tc2=tc2, te=te, diameter=diam, label=label,
                 n1=mats[0][1], n2=mats[1][1], mat1=mat(mats[0][0], r), mat2=mat(mats[1][0], r), wavelength=w, wavelengthRef=wref)
        ok, o = call(lambda: SL.AchromatDoubletLens(**k))
        self.compound(ok, o, [R1, tc1, R2, tc2, R3], mats, diam, w, wref, f, label, r, lambda o: [o.elements[1].frontIndex, o.elements[3].frontIndex])

    def singlet(self, r, R1, tc, R2, diam, mats, w, wref, f, fb, te, label):
        k = dict(f=f, fb=fb, R1=R1, R2=R2, tc=tc, te=te, n=mats[0][1], diameter=diam, label=label, mat=mat(mats[0][0], r), wavelength=w, wavelengthRef=wref)
        ok, o = call(lambda: SL.SingletLens(**k))
        self.compound(ok, o, [R1, tc, R2], mats, diam, w, wref, f, label, r, lambda o: [o.elements[1].frontIndex])

    def compound(self, ok, o, p, mats, diam, w, wref, f, label, r, ns):
        z, flips = r.uniform(-50, 50), r.choice([0, 0, 1, 2, 3])
        e = dict(p=[R(x) for x in p], mats=[dict(g=g, n=R(n)) for g, n in mats], w=R(w), wref=R(wref), ap=R(diam), f=R(f), label=label, z=R(z), flipped=flips % 2 == 1)
        if ok:
            e.update(ns=[R(x) for x in ns(o)])
            self.flip(o, flips)
            e.update(self.look(o), olabel=str(o.label), dfl=R(o.designFocalLength), odiam=R(o.apertureDiameter), poi=self.poi(o, z),
                     **self.surfaces(o), **self.drawn(o, z))
        else:
            e.update(self.EMPTY, ns=[], olabel='', dfl=R(None), odiam=R(None), poi=[], sok=False, surfs=[], fsurfs=[], dok=False, drawn={})
        self.log('compound', ok, **e)

    def stack(self, rs, ts, ns, diam, flips, z):
        """a lens made of any surfaces; ts: the thickness between them, in one or several spaces (none for two surfaces in contact)"""
        def make():
            els, n = [], [1.0] + list(ns) + [1.0]
            for i, c in enumerate(rs):
                els.append(rt.DielectricInterface(n[i], n[i + 1], c, diameter=diam))
                if i < len(ts):
                    els += [rt.Space(t, n=n[i + 1]) for t in ts[i]]
            return rt.CompoundLens(els, designFocalLength=50.0, diameter=diam, label='stack')
        ok, o = call(make)
        e = dict(rs=[R(x) for x in rs], ts=[[R(t) for t in x] for x in ts], ns=[R(x) for x in ns], ap=R(diam), z=R(z), flipped=flips % 2 == 1)
        if ok:
            self.flip(o, flips)
            e.update(self.look(o), poi=self.poi(o, z), **self.surfaces(o), **self.drawn(o, z))
        else:
            e.update(self.EMPTY, poi=[], sok=False, surfs=[], fsurfs=[], dok=False, drawn={})
        self.log('stack', ok, **e)

    def part(self, name, w=None, flips=0, z=0.0):
        cls = parts()[name]
        ok, o = call(lambda: cls() if w is None else cls(wavelength=w))
        e = dict(name=name, w=R(w), z=R(z), flipped=flips % 2 == 1)
        if ok:
            e.update(ns=[R(x.frontIndex) for x in o.elements[1::2]])
            self.flip(o, flips)
            e.update(self.look(o), **self.surfaces(o), **self.drawn(o, z), label=str(o.label), dfl=R(o.designFocalLength),
                     fa=R(getattr(o, 'fa', getattr(o, 'f', None))), fb=R(o.fb))
        else:
            e.update(self.EMPTY, ns=[], sok=False, surfs=[], fsurfs=[], dok=False, drawn={}, label='', dfl=R(None), fa=R(None), fb=R(None))
        self.log('part', ok, **e)

    def objective(self, name, make, p, flips, z):
        ok, o = call(make)
        if ok:
            for i in range(flips):
                ok, o2 = call(o.flipOrientation)
        e = dict(name=name, p=[R(x) for x in p], flipped=flips % 2 == 1, z=R(z))
        if ok:
            iok, inv = call(o.maximumOpticalInvariant)
            e.update(self.look(o), front=R(o.frontAperture), back=R(o.backAperture), invok=iok, inv=R(inv if iok else None), label=str(o.label), poi=self.poi(o, z), **self.drawn(o, z))
        else:
            e.update(self.EMPTY, front=R(None), back=R(None), invok=False, inv=R(None), label='', poi=[], dok=False, drawn={})
        self.log('objective', ok, **e)

    def system(self, kind, make, p):
        ok, o = call(make)
        e = dict(kind=kind, p=[R(x) for x in p])
        e.update(self.look(o) if ok else self.EMPTY)
        self.log('system', ok, **e)

    def shifts(self, name, ws):
        cls = parts()[name]
        o = cls()
        mats = [o.mat1, o.mat2] if hasattr(o, 'mat1') else [o.mat]
        ns = [[R(m.n(w)) if m is not None else R(None) for m in mats] for w in ws]
        ok, res = call(lambda: o.focalShifts(wavelengths=ws))
        xs, ys = ([R(x) for x in res[0]], [R(y) for y in res[1]]) if ok else ([], [])
        self.log('shifts', ok, name=name, ws=[R(w) for w in ws], ns=ns, xs=xs, obs=ys)

    # ---- glasses
    def find(self, name, xs=()):
        ok, g = call(lambda: M.Material.findByName(name))
        self.log('find', ok, name=name or '', none=name is None, printed=str(g) if ok else '', xs=[R(x) for x in xs], ns=[R(g.n(x)) for x in xs] if ok else [R(None) for x in xs])

    def all(self):
        self.log('all', names=[str(x) for x in M.Material.all()])

    def index(self, n, x, tol, how):
        ok, o = call(lambda: M.Material.findByIndex(n, x) if how else M.Material.findByIndex(n, x, tolerance=tol))
        self.log('index', ok, n=R(n), x=R(x), tol=R(0.05 if how else tol),
                 obs=[dict(name=str(a), n=R(b), V=R(v)) for a, b, v in o] if ok else [])

    def glass(self, name, x, inst):
        c = getattr(M, name)
        c = c() if inst else c
        ok, n = call(lambda: c.n(x))
        judge = 0.3 <= x <= 2.6
        self.log('glass', ok, name=name, x=R(x), n=R(n) if ok and judge else R(None), judge=judge, V=R(c.abbeNumber()), Vd=R(c.Vd()))

    # ---- files
    def file(self, r, unit, waves, surfs, enc, fancy):
        """waves: texts; surfs: [curvature text, half diameter text or None, spacing text, name of the glass or '']"""
        path = os.path.join(self.dir, 'f%d.zmx' % len(self.ev))
        nl = '\r\n' if fancy and r.random() < .5 else '\n'
        junk = lambda *c: [r.choice(c)] if fancy and r.random() < .4 else []
        L = ['VERS 140124 258 36214', 'MODE SEQ'] + junk('NAME lens', 'NOTE 0 some text with SURF in it', '')
        head = [['UNIT %s X W X CM MR CPMM' % unit]] if unit else []
        head.append(['WAVM %d %s 1' % (i + 1, w) for i, w in enumerate(waves)])
        if fancy:
            r.shuffle(head)
        for h in head:
            L += h + junk('ENPD 12.7', 'FTYP 0 0 1 3 0 0 0', '')
        for i, (c, hd, z, g) in enumerate(surfs):
            L.append('SURF %d' % i)
            body = ['  CURV %s 0 0 0 0 ""' % c, '  DISZ %s' % z]
            if g:
                body.append('  GLAS %s 0 0 1.5 64 0 0 0 0 0 0' % g)
            if hd is not None:
                body.append('  DIAM %s 1 0 0 1 ""' % hd)
            if fancy:
                r.shuffle(body)
                body = [' ' * r.randrange(1, 5) + b.strip().replace(' ', r.choice([' ', '  ', '\t']), 1) for b in body]
                L += junk('  TYPE STANDARD') + body + junk('  HIDE 0 0 0 0', '  MIRR 2 0', '  COMM the glass', '')
            else:
                L += ['  TYPE STANDARD'] + body
        L += junk('TOL TOFF', 'MNUM 1 1') if not fancy else []
        data = (nl.join(L) + nl).encode(enc)
        open(path, 'wb').write(data)
        fr = lambda s: R(Fraction(s)) if not s.strip().upper().startswith('INF') else R(float('inf'))
        f = dict(unit=unit or '', waves=[fr(w) for w in waves],
                 surfs=[dict(c=fr(c), hd=R(None) if hd is None else fr(hd), z=fr(z), g=g) for c, hd, z, g in surfs])
        opened, rd = call(lambda: ZMXReader(path))
        e = dict(file=f, opened=opened, waves=[], dw=R(None), surfs=[], lens=[], els=[], sum={}, ns=[], rows=[])
        ok = False
        if opened:
            s = lambda x: dict(no=int(x.number), R=R(x.R), ap=R(x.diameter), d=R(x.spacing), g=str(x.mat))
            e['waves'], e['dw'] = [R(w) for w in rd.designWavelengths()], R(rd.designWavelength)
            steps = {}
            order = ['surfs', 'lens', 'group', 'text']
            r.shuffle(order)
            get = dict(surfs=rd.surfaces, lens=rd.lensSurfaces, group=rd.matrixGroup, text=rd.prescription)
            res = {k: call(get[k]) for k in order}
            oks = {v[0] for v in res.values()}
            if len(oks) > 1:
                self.log('crash', False, what='only some of the answers are given: %s' % sorted(k for k in res if res[k][0]))
                raise Stop
            ok = oks == {True}
            if ok:
                e['surfs'] = [s(x) for x in res['surfs'][1]]
                e['lens'] = [s(x) for x in res['lens'][1]]
                g = res['group'][1]
                e['els'] = [self.el(x) for x in g.elements]
                e['sum'] = dict(A=R(g.A), B=R(g.B), C=R(g.C), D=R(g.D), L=R(g.L))
                e['ns'] = [R(x.backIndex) for x in g.elements if type(x).__name__ != 'Space']
                for line in res['text'][1].split('\n')[2:]:
                    if line.strip():
                        a = line.split()
                        e['rows'].append(dict(R=R(float(a[0])), g=a[1], d=R(float(a[2])), ap=R(float(a[3]))))
        self.log('file', ok, **e)

def mat(g, r):
    if not g:
        return None
    c = getattr(M, g)
    return c() if r.random() < .5 else c

scen = family(Lens)

# ---------------------------------------------------------------- lenses
def curved(r, lo, flat=.1):
    return float('inf') if r.random() < flat else r.choice([1, -1]) * r.uniform(lo, lo * r.choice([2, 5, 30]))

def wave(r, out=.05):
    return r.choice([0.005, 0.0, 10.5, 11]) if r.random() < out else r.choice([0.4861, 0.5876, 0.6563, 0.8, 1.064, round(r.uniform(0.4, 1.7), 4)])

def medium(r):
    g = r.choice([x for x in GLASSES if x != 'Air'])
    x = r.random()
    if x < .5:
        return (g, None)
    if x < .65:
        return (g, round(r.uniform(1.2, 2), 4))
    return ('', round(r.uniform(1.2, 2), 4)) if x < .95 else ('', None)

@scen
def s_prescription(W, r, tier):
    for i in range(5):
        d = round(r.uniform(2, 60), 2)
        lo = d * .6
        f, fb, te = r.uniform(5, 300) * r.choice([1, 1, -1]), r.uniform(5, 300), r.uniform(1, 20)
        if r.random() < .4:
            f, fb, te, d = round(f), round(fb), round(te) + 1, round(d)
        w = wave(r) if r.random() < .5 else None
        wref = wave(r) if r.random() < .7 else None
        lab = r.choice(['', 'L1', 'my lens'])
        if r.random() < .6:
            ms = [medium(r), medium(r)]
            Rs = [curved(r, lo, 0) for _ in 'abc']
            if r.random() < .3:
                Rs[r.randrange(3)] = float('inf')
            W.doublet(r, Rs[0], r.uniform(.5, 12), Rs[1], r.uniform(.5, 12), Rs[2], d, ms, w, wref, f, fb, te, lab)
        else:
            W.singlet(r, curved(r, lo, 0), r.uniform(.5, 12), curved(r, lo), d, [medium(r)], w, wref, f, fb, te, lab)

@scen
def s_stack(W, r, tier):
    for i in range(4):
        k = r.randint(2, 4)
        d = round(r.uniform(2, 30), 2)
        glass = lambda: r.choice([1.5, 1.625, 1.75, round(r.uniform(1.3, 1.9), 3)])
        ts = [[] if r.random() < .1 else [round(r.uniform(.5, 9), 2) for _ in range(r.choice([1, 1, 1, 2, 3]))] for _ in range(k - 1)]
        if not any(ts):
            ts[0] = [3.0]
        W.stack([curved(r, d * .6) for _ in range(k)], ts, [1.0 if j and r.random() < .2 else glass() for j in range(k - 1)], d, r.randrange(4), r.choice([0.0, r.uniform(-30, 30)]))

@scen
def s_objective(W, r, tier):
    for i in range(4):
        f = r.choice([r.uniform(1.5, 20), 180 / 40, 9.0, 10.0])
        NA, wd = round(r.uniform(.05, 1.2), 3), r.choice([round(r.uniform(.2, 4), 2), 2])
        ff = 2 * f + r.choice([0.0, r.uniform(0, 60)])
        ba = round(r.uniform(2, 25), 2)
        mag, fn = (None if r.random() < .2 else r.choice([20, 40, 180 / f])), (None if r.random() < .2 else r.choice([18, 22, 26.5]))
        lab = r.choice(['obj', 'my 20x'])
        W.objective(lab, lambda: SL.Objective(f, NA, ff, ba, wd, magnification=mag, fieldNumber=fn, label=lab),
                    [f, NA, ff, ba, wd, mag, fn], r.randrange(4), r.choice([0.0, r.uniform(-30, 30)]))

@scen
def s_systems(W, r, tier):
    inf = float('inf')
    for i in range(4):
        f1, f2 = [r.choice([10., 50, 25.5, -40, r.uniform(5, 200)]) for _ in 'ab']
        d1, d2 = [r.choice([inf, 25.4, r.uniform(1, 50)]) for _ in 'ab']
        cls = r.choice([rt.System4f, rt.Telescope])
        W.system('4f', lambda: cls(f1=f1, f2=f2, diameter1=d1, diameter2=d2, label='T'), [f1, f2, d1, d2])
        W.system('2f', lambda: rt.System2f(f=f1, diameter=d1), [f1, d1])

@scen
def s_parts(W, r, tier):
    """one slice of the catalogue, as stated and at other wavelengths"""
    i = int(W.tid.split('-')[-1])
    P = parts()
    names = list(P)[i::16]
    if i == 0:
        W.log('parts', names=list(P))
    for n in names:
        c = P[n]
        if issubclass(c, SL.Objective):
            for k in range(3):
                W.objective(n, c, [], k, r.choice([0.0, r.uniform(-30, 30)]))
        else:
            W.part(n)
            W.part(n, None, r.choice([1, 2, 3]), r.uniform(-40, 40))
            if 'wavelength' in inspect.signature(c.__init__).parameters:
                for k in range(1 if tier == 'quick' else 6):
                    W.part(n, wave(r), r.randrange(3), r.uniform(-40, 40))

@scen
def s_shifts(W, r, tier):
    P = parts()
    names = [n for n, c in P.items() if issubclass(c, SL.CompoundLens) and 'wavelength' in inspect.signature(c.__init__).parameters]
    for n in r.sample(names, 3):
        W.shifts(n, [round(r.uniform(.4, 1.1), 4) for _ in range(r.randrange(1, 5))])

# ---------------------------------------------------------------- glasses
def spell(r, n):
    out = ''
    for ch in n:
        if ch == '_':
            out += r.choice(['-', '_', '', '--', '-_'])
        else:
            out += r.choice([ch, ch, ch.lower(), ch.upper()])
            if r.random() < .05:
                out += '-'
    return out

@scen
def s_find(W, r, tier):
    if r.random() < .1:
        W.all()
    for i in range(12):
        x = r.random()
        g = r.choice(GLASSES)
        if x < .75:
            W.find(spell(r, g), [round(r.uniform(.4, 1.6), 4)])
        elif x < .8:
            W.find(None, [.5])
        else:       # something like a glass
            n = spell(r, g)
            n = r.choice([n[:-1], n + r.choice('123Xx'), n.replace('-', '').replace('_', '') + 'HT', 'BK7', 'glass', ' ' + n, n[1:], n.replace('-', ' ') if '-' in n else n + ' ', 'material'])
            W.find(n, [.5])

@scen
def s_index(W, r, tier):
    for i in range(6):
        x = r.choice([.5876, .4861, .6563, round(r.uniform(.38, 1.8), 4)]) if r.random() < .93 else r.choice([0.009, 10.01, 0, 12])
        g = getattr(M, r.choice(GLASSES))
        n0 = g.n(x) if .01 <= x <= 10 else 1.5
        n = r.choice([n0, n0 + r.uniform(-.05, .05), round(n0, 3), r.uniform(1, 2), 0.5, 3.0])
        tol = r.choice([.05, .001, .1, .02, 1e-6, .5, abs(n - n0), abs(n - n0) * 1.000001, abs(n - n0) * .999999, 2.0])
        W.index(n, x, tol, r.random() < .3)

@scen
def s_glass(W, r, tier):
    """every glass at wavelengths over its range, and at and beyond its ends"""
    i = int(W.tid.split('-')[-1])
    name = GLASSES[i % len(GLASSES)]
    for x in [.01, 10, 10.0, .0099999, 10.000001, 0, -1, 5e-3, 100] + [round(r.uniform(.3, 2.6), r.choice([2, 4, 8])) for _ in range(14 if tier == 'quick' else 60)] + [.5876, 1]:
        W.glass(name, x, r.random() < .5)

# ---------------------------------------------------------------- files
KNOWN_G = [g for g in GLASSES if g != 'Air']

@scen
def s_file(W, r, tier):
    for i in range(3):
        unit = r.choice(['MM', 'IN', None, 'MM', 'IN', 'CM', 'METER'])
        waves = [r.choice(['0.4861327', '0.5875618', '0.6562725', '0.55', '1.064', '0.8500', '5.5E-1', '%.4f' % r.uniform(.4, 1.6)]) for _ in range(r.choice([1, 1, 2, 3, 3, 4, 5]))]
        waves += ['0.55'] * r.choice([0, 0, 0, 1, 3, 20])
        n = r.randrange(0, 8) if r.random() < .85 else r.randrange(8, 45)
        surfs = []
        scale = dict(IN=25.4, CM=10, METER=1000).get(unit, 1)
        glassy = r.choice([.3, .6, .9])
        for k in range(n):
            c = r.choice(['0', '0.0', '0.0E+0']) if r.random() < .25 else r.choice(['%.6f', '%.9E', '%.12g']) % (r.choice([1, -1]) / (r.uniform(5, 400) / scale))
            hd = None if r.random() < .3 else '%.5g' % (r.uniform(2, 30) / scale)
            z = '%.6g' % (r.choice([0, r.uniform(.2, 40)]) / scale)
            g = ''
            if r.random() < glassy:
                g = r.choice(KNOWN_G).replace('_', '-')
                g = r.choice([g, g, g.upper(), g.lower(), g.replace('-', '')])
                if r.random() < .05:
                    g = r.choice(['CAF2X', 'MIRROR', '___BLANK', 'AIR', 'N-BK77'])
            if k == 0 and r.random() < .4:
                z, g, c = 'INFINITY', '', '0.0'
            surfs.append([c, hd, z, g])
        W.file(r, unit, waves, surfs, r.choice(['utf-8', 'utf-8', 'utf-16', 'utf-16']), r.random() < .6)

@scen
def s_shipped(W, r, tier):
    """the files that come with the package read as lenses that agree with the catalogue"""
    from .env import REPO
    d = os.path.join(REPO, 'raytracing', 'specifications')
    for n in ('AC254-100-A', 'AC254-125-A'):
        p = os.path.join(d, n + '-Zemax(ZMX).zmx')
        if os.path.exists(p):
            ok, g = call(lambda: ZMXReader(p).matrixGroup())
            if not ok:
                W.log('crash', False, what='%s cannot be read' % n)

# ---------------------------------------------------------------- files enumerated by MCLensFiles
KINDS = [['0.02', '6', '4', 'N-BK7'], ['-2.5E-2', None, '2.5', 'n-sf10'], ['0', '5', '3.0', ''], ['-0.04', None, '0', ''],
         ['0.0', None, 'INFINITY', ''], ['0.01', '4', '2', 'MIRROR'], ['1.25E-002', '7', '2', 'NBK7']]
WAVES = ['0.4861', '0.55', '1.064']
UNITS = [None, 'MM', 'IN', 'CM', 'METER']

def play_files(job):
    i, hs = job
    W, r = Lens('files-%d' % i), rng_for(0, 'files', i)
    try:
        for u, ws, ss in hs:
            W.file(r, UNITS[u - 1], [WAVES[k - 1] for k in ws], [KINDS[k - 1] for k in ss], ['utf-8', 'utf-16'][r.randrange(2)], False)
    except Stop:
        pass
    except Exception as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

def replay_files(ctx, r, limit):
    hs = [o['hist'] for o in sorted(core.outs(r), key=repr)]
    n = len(hs)
    if n > limit:
        hs = rng_for(ctx.seed, 'files', ctx.pid, 0).sample(hs, limit)
    ctx.kinds['files of MCLensFiles'] = len(hs)
    ctx.log('replaying %d of %d files of MCLensFiles' % (len(hs), n))
    k = 4
    ctx.validate('LensTrace', core.fork_map(play_files, [(i, hs[i:i + k]) for i in range(0, len(hs), k)]))

# ---------------------------------------------------------------- prescriptions enumerated by MCLenses
MATS = [('N_BK7', None), ('', 1.5), ('N_SF10', 1.75), ('', None)]
ASKED = [None, .6, 11]

def make(W, r, o):
    p, k = [F(x) for x in o['p']], o['k']
    w, wref = ASKED[o['w'] - 1] if k in ('doublet', 'singlet') else None, ASKED[o['v'] - 1]
    d, f, fb, te, lab = r.choice([20, 12.5]), r.choice([100, 90.5]), r.choice([95, 88.25]), 2, r.choice(['', 'L'])
    if k == 'doublet':
        W.doublet(r, *p, d, [MATS[i - 1] for i in o['m']], w, wref, f, fb, te, lab)
    elif k == 'singlet':
        W.singlet(r, *p, d, [MATS[o['m'][0] - 1]], w, wref, f, fb, te, lab)
    elif k == 'objective':
        m = o['m'][0]
        mag, fn = (20 if m & 1 else None), (22 if m & 2 else None)
        W.objective('obj', lambda: SL.Objective(*p, magnification=mag, fieldNumber=fn, label='obj'), p + [mag, fn], o['w'] - 1, 0.0 if m else 12.5)
    elif k == '4f':
        cls = r.choice([rt.System4f, rt.Telescope])
        W.system('4f', lambda: cls(f1=p[0], f2=p[1], diameter1=p[2], diameter2=p[3], label='T'), p)
    elif k == 'stack':
        W.stack(p[:3], [[4.0] if t else [] for t in o['m']], [1.5, 1.75], 12.5, o['w'] - 1, 0.0)
    else:
        W.system('2f', lambda: rt.System2f(f=p[0], diameter=p[1]), p)

def play_lenses(job):
    i, os_ = job
    W, r = Lens('lenses-%d' % i), rng_for(0, 'lenses', i)
    try:
        for o in os_:
            make(W, r, o)
    except Stop:
        pass
    except Exception as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

def replay_lenses(ctx, r, limit):
    os_ = sorted(core.outs(r), key=repr)
    n = len(os_)
    if n > limit:
        os_ = rng_for(ctx.seed, 'lenses', ctx.pid, 0).sample(os_, limit)
    ctx.kinds['prescriptions of MCLenses'] = len(os_)
    ctx.log('making %d of %d lenses of MCLenses' % (len(os_), n))
    ctx.validate('LensTrace', core.fork_map(play_lenses, [(i, os_[i:i + 4]) for i in range(0, len(os_), 4)]))

# ---------------------------------------------------------------- names and indices enumerated by MCNames
def play_names(job):
    i, qs = job
    W = Lens('names-%d' % i)
    try:
        for o in qs:
            if o['op'] == 'find':
                W.find(o['name'], [.5])
            else:
                W.index(getattr(M, GLASSES[o['g'] % len(GLASSES)]).n(.5875618) + F(o['step']), .5875618, F(o['tol']), False)
    except Exception as e:
        W.log('crash', False, what='%s: %s' % (type(e).__name__, str(e)[:120]))
    finally:
        W.close()
    return W.done()

def replay_names(ctx, r):
    qs = sorted(core.outs(r), key=repr)
    ctx.kinds['questions of MCNames'] = len(qs)
    ctx.log('asking %d questions of MCNames' % len(qs))
    ctx.validate('LensTrace', core.fork_map(play_names, [(i, qs[i:i + 8]) for i in range(0, len(qs), 8)]))

def drive(ctx, *plan):
    return _drive(ctx, *plan)
