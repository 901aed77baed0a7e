"""Queries of the public API, encoded for WorldTrace!QueryClauses."""
import math
from .env import rt, call
from .num import R
from .world import mat9, ray4, INF, tri, beam6

def conj(c):
    m = c.transferMatrix
    return dict(d=R(c.d), some=m is not None, m=mat9(m) if m is not None else [])

def optray(r):
    return dict(some=r is not None, ray=ray4(r) if r is not None else [])

def ask(W, g, name, rng=None, **k):
    o = W.o(g)
    if name == 'matrix':
        return W.q(name, g, lambda o: o.transferMatrix(), mat9)
    if name == 'matrices':
        return W.q(name, g, lambda o: o.transferMatrices(), lambda r: [mat9(m) for m in r])
    if name == 'mulray':
        r = rt.Ray(k['ray'].y, k['ray'].theta, k['ray'].z)
        return W.q(name, g, lambda o: o * r, ray4, ray=ray4(r))
    if name == 'mulmat':
        h = W.o(k['h'])
        return W.q(name, g, lambda o: o * h, mat9, h=k['h'])
    if name == 'mulmat3':
        h, j = W.o(k['h']), W.o(k['k'])
        return W.q(name, g, lambda o: [(o * h) * j, o * (h * j)], lambda r: [mat9(x) for x in r], h=k['h'], k=k['k'])
    if name == 'upto':
        return W.q(name, g, lambda o: o.transferMatrix(upTo=k['z']), mat9, z=R(k['z']))
    if name == 'items':
        return W.q(name, g, lambda o: dict(iter=[W.idof(e) for e in o], n=len(o), els=[W.idof(e) for e in o.elements]))
    if name == 'item':
        return W.q(name, g, lambda o: W.idof(o[k['idx']]), idx=k['idx'])
    if name == 'efl':
        return W.q(name, g, lambda o: rng.choice([o.effectiveFocalLengths, o.focalDistances])() if rng else o.effectiveFocalLengths(),
                   lambda r: [R(r[0]), R(r[1])])
    if name == 'pp':
        return W.q(name, g, lambda o: o.principalPlanePositions(k['z']), lambda r: [R(r[0]), R(r[1])], z=R(k['z']))
    if name == 'foci':
        return W.q(name, g, lambda o: o.focusPositions(k['z']), lambda r: [R(r[0]), R(r[1])], z=R(k['z']))
    if name == 'bfl':
        return W.q(name, g, lambda o: o.backFocalLength(), R, flipped=k.get('flipped', False))
    if name == 'ffl':
        return W.q(name, g, lambda o: o.frontFocalLength(), R, flipped=k.get('flipped', False))
    if name == 'f2f':
        return W.q(name, g, lambda o: o.fromFocusToFocus(), mat9)
    if name == 'tofocus':
        return W.q(name, g, lambda o: rt.ToFocus(o), lambda r: R(r.B) if r.B == r.L else R('x'))
    if name == 'toconj':
        return W.q(name, g, lambda o: rt.ToConjugate(o), lambda r: R(r.B) if r.B == r.L else R('x'))
    if name == 'fconj':
        return W.q(name, g, lambda o: o.forwardConjugate(), conj)
    if name == 'bconj':
        return W.q(name, g, lambda o: o.backwardConjugate(), conj)
    if name == 'mag':
        return W.q(name, g, lambda o: o.magnification(), lambda r: [R(r[0]), R(r[1])])
    if name == 'iconj':
        return W.q(name, g, lambda o: o.intermediateConjugates(), lambda r: [[R(a), R(b)] for a, b in r])
    if name == 'inv':
        r1, r2, z = k['ray'], k['ray2'], k['z']
        sc = k.get('scale', 1e3)
        return W.q(name, g, lambda o: o.opticalInvariant(rt.Ray(r1.y, r1.theta), rt.Ray(r2.y, r2.theta), z), R,
                   ray=ray4(r1), ray2=ray4(r2), z=R(z), scale=R(sc))
    if name == 'astop':
        ok, h = call(lambda: o.hasApertureStop())
        return W.q(name, g, lambda o: o.apertureStop(), lambda r: [R(r.z), R(r.diameter)], has=tri(ok, h))
    if name == 'marginal':
        y = k['y']
        return W.q(name, g, lambda o: o.marginalRays(y), lambda r: dict(some=r[0] is not None and r[1] is not None,
                   up=ray4(r.up) if r.up is not None else [], down=ray4(r.down) if r.down is not None else []), y=R(y))
    if name == 'axial':
        ok, r = call(lambda: o.axialRay())
        ins = out = '?'
        if ok and r is not None:
            ok1, a = call(lambda: o.traceThrough(rt.Ray(0, r.theta * 0.999)))
            ok2, b = call(lambda: o.traceThrough(rt.Ray(0, r.theta * 1.001)))
            ins = tri(ok1, ok1 and a.isBlocked)
            out = tri(ok2, ok2 and b.isBlocked)
        noNA = any(not math.isinf(x.apertureNA) for x in W.objs if not W.isgroup(x))
        return W.q(name, g, lambda o: o.axialRay(), lambda r: dict(some=r is not None, up=ray4(r) if r is not None else []),
                   inside=ins, outside=out, noNA=noNA)
    if name == 'chief':
        y = k['y']
        return W.q(name, g, lambda o: o.chiefRay(y), optray, y=R(y))
    if name == 'fstop':
        ok, h = call(lambda: o.hasFieldStop())
        return W.q(name, g, lambda o: o.fieldStop(), lambda r: [R(r.z), R(r.diameter)], has=tri(ok, h))
    if name == 'hfov':
        return W.q(name, g, lambda o: (o.halfFieldOfView(), o.fieldOfView()), lambda r: [R(r[0]), R(r[1])])
    if name == 'principal':
        return W.q(name, g, lambda o: o.principalRay(), optray)
    if name == 'imgsize':
        use, h = k['use'], o.objectHeight
        return W.q(name, g, lambda o: o.imageSize(useObject=use), R, use=use, h=R(h))
    if name == 'pupil':
        return W.q(name, g, lambda o: o.entrancePupil(), lambda r: [R(r.z), R(r.diameter)])
    if name == 'fnum':
        return W.q(name, g, lambda o: o.fNumber(), R)
    if name == 'na':
        return W.q(name, g, lambda o: o.NA(), R)
    if name == 'lagr':
        return W.q(name, g, lambda o: o.lagrangeInvariant(), R)
    if name == 'at':
        r, z = k['ray'], k['z']
        return W.q(name, g, lambda o: r.at(z), ray4, ray=ray4(r), z=R(z))
    if name == 'along':
        r, z = k['ray'], k['z']
        r4 = ray4(r)
        return W.q(name, g, lambda o: rt.Ray.along([W.watch(x) for x in o.trace(r)], z), ray4, ray=r4, z=R(z))
    if name == 'profile':
        rs, z = k['rays'], k['z']
        r4 = [ray4(r) for r in rs]
        def f(o):
            traces = [[W.watch(x) for x in t] for t in o.traceMany(rs)]
            return o.profileFromRayTraces(traces) if k.get('default') else o.profileFromRayTraces(traces, z)
        return W.q(name, g, f, lambda r: [ray4(x) for x in r.rays], rays=r4, z=R(INF if k.get('default') else z))
    if name == 'cut':
        r, z = rt.Ray(k['ray'].y, k['ray'].theta, 0), k['z']
        return W.q(name, g, lambda o: o.transferMatrix(upTo=z).traceThrough(r), ray4, ray=ray4(r), z=R(z))
    if name == 'axicon':
        y = k['y']
        return W.q(name, g, lambda o: (o.deviationAngle(), o.focalLineLength(y) if y is not None else o.focalLineLength()),
                   lambda r: [R(r[0]), R(r[1])], y=R(o.apertureDiameter / 2 if y is None else y))
    if name == 'modes':
        return W.q(name, g, lambda o: (o.eigenModes(), o.laserModes(), o.isStable),
                   lambda r: dict(eig=[beam6(b) for b in r[0] if b is not None], laser=[beam6(b) for b in r[1]], stable=bool(r[2])))
    if name == 'mulbeam':
        b = k['beam']
        return W.q(name, g, lambda o: o * b, beam6, beam=beam6(b))
    if name == 'towaist':
        b = k['beam']
        def f(o):
            out = rt.Space(b.waistPosition, n=b.n) * b
            return [R(out.q.real), R(out.q.imag), R(out.w), R(b.waist)]
        return W.q(name, g, f, beam=beam6(b))
    if name == 'surfs':
        return W.q(name, g, lambda o: o.surfaces, lambda r: [[R(getattr(x, 'R', INF)), R(x.n), R(x.L)] for x in r])
    if name == 'poi':
        return W.q(name, g, lambda o: o.pointsOfInterest(k['z']), lambda r: [[R(x['z']), x['label']] for x in r], z=R(k['z']))
    if name == 'equal':
        h = W.o(k['h'])
        return W.q(name, g, lambda o: dict(eq=bool(o == h), ne=bool(o != h), other=bool(o == None or o == 1.0 or o == 'a')), h=k['h'])
    if name == 'report':
        from . import report
        return report.ask(W, g, **k)
    from . import drawings
    return drawings.ask(W, g, name, **k)
