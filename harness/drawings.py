"""What a figure shows, read from the figure (and, when displayed, from the matplotlib axes)."""
import collections, gc, re
import numpy as np
import matplotlib.text, matplotlib.patches
from matplotlib.widgets import CheckButtons
from .env import rt
from .num import R, F
from .world import ray4, beam6

OBJ, IMG = '#12345f', '#f54321'        # colours by which objects and images are recognised

def pts(x, y):
    return [[R(float(a)), R(float(b))] for a, b in zip(list(x), list(y))]

def bundle(rays, kind=None):
    kind = kind or {'ObjectRays': 'object', 'LampRays': 'lamp'}.get(type(rays).__name__, 'rays')
    z = getattr(rays, 'z', 0) if not isinstance(rays, list) else 0
    return dict(kind=kind, z=R(z), h=R(rays.yMax if kind == 'object' else 0), rays=[ray4(r) for r in list(rays)])

def wholes(o):
    """the labels of the lenses of several surfaces in a path, each drawn as one"""
    return [x for e in o.elements if isinstance(e, rt.MatrixGroup) for x in ([e.label or ''] if isinstance(e, (rt.AchromatDoubletLens, rt.SingletLens)) else wholes(e))]

def called(x):
    return '' if x in ('ObjectRays', 'LampRays') else x

def switch(x):
    """what a switch is for, from what is written beside it"""
    x = x.replace('\n', ' ')
    kind = next((v for p, v in (('Object', 'object'), ('Lamp', 'lamp'), ('Principal', 'field')) if x.startswith(p)), 'rays')
    z = re.search(r'z *= *(-?[0-9.]+(?:e[-+]?[0-9]+)?)', x)
    return dict(kind=kind, z=R(float(z.group(1)) if z else 0.0), called=x if kind == 'rays' else '')

def axes():
    import matplotlib.pyplot as plt
    return plt.gcf().axes[0]

def close():
    import matplotlib.pyplot as plt
    plt.close('all')

def raylines(ax):
    return [pts(l.get_xdata(), l.get_ydata()) for l in ax.lines if l.get_visible() and l.get_marker() in ('None', None, '', ' ')]

def arrows(ax, color):
    """where the tips of the arrows of a colour are"""
    from matplotlib.colors import to_rgba
    out = []
    for p in ax.patches:
        if p.get_visible() and to_rgba(p.get_edgecolor()) == to_rgba(color):
            v = (p.get_transform() - ax.transData).transform(p.get_path().vertices)
            x = (v[:, 0].min() + v[:, 0].max()) / 2
            tip = min(v, key=lambda a: abs(a[0] - x))
            out.append([R(float(tip[0])), R(float(tip[1]))])
    return out

def outline(graphic):
    """where a drawing is: its half height, where it crosses the axis, and where its upper and lower ends are"""
    segs = []
    for p in graphic.patches2D:
        for poly in p.get_path().to_polygons(closed_only=False):
            q = [(float(a) + graphic.x, float(b) + graphic.y) for a, b in poly]
            segs += list(zip(q, q[1:]))
    ys = [b for s in segs for a, b in s]
    h = max(ys + [-y for y in ys])
    def ends(y0):
        xs = [a for s in segs for a, b in s if abs(b - y0) <= 1e-9 * (1 + abs(h))]
        if y0 == 0:
            xs += [x1 - y1 * (x2 - x1) / (y2 - y1) for (x1, y1), (x2, y2) in segs if y1 * y2 < 0]
        return [R(min(xs)), R(max(xs))] if xs else []
    return dict(h=R(h), axis=ends(0), up=ends(h), down=ends(-h))

def crossings(graphic):
    """where a drawing crosses or touches the axis, and where it reaches its full height"""
    xs, rims, h = [], [], float(F(outline(graphic)['h']))
    for p in graphic.patches2D:
        for poly in p.get_path().to_polygons(closed_only=False):
            q = [(float(a) + graphic.x, float(b) + graphic.y) for a, b in poly]
            rims += [a for a, b in q if abs(abs(b) - h) <= 1e-9 * (1 + h)]
            xs += [a for a, b in q if b == 0]
            xs += [x1 - y1 * (x2 - x1) / (y2 - y1) for (x1, y1), (x2, y2) in zip(q, q[1:]) if y1 * y2 < 0]
    def distinct(l):
        out = []
        for x in sorted(l):
            if not out or x - out[-1] > 1e-9:
                out.append(x)
        return [R(x) for x in out]
    return dict(all=distinct(xs), rims=distinct(rims))

def ask(W, g, name, **k):
    if name == 'lines':
        rays, remove = k['rays'], k['remove']
        b = bundle(rays)
        def f(o):
            o.figure.designParams['removeBlockedRaysCompletely'] = remove
            return o.figure.rayTraceLines(rays)
        return W.q(name, g, f, lambda r: [pts(l.xData, l.yData) for l in r], rays=b['rays'], z=b['z'], remove=remove)
    if name == 'images':
        z, d = k['z'], k['d']
        f = (lambda o: o.figure.graphicsOfConjugatePlanes(d, x=z)) if z else (lambda o: o.figure.graphicsOfConjugatePlanes(d))
        return W.q(name, g, f, lambda r: [[R(x.x), R(x.diameter / 2)] for x in r], z=R(z), h=R(d / 2))
    if name == 'shown':
        lst, remove, how = k['rays'], k['remove'], k['how']
        o = W.o(g)
        bs = [bundle(r) for r in lst]
        if 'object' not in [b['kind'] for b in bs]:
            bs.append(bundle(rt.ObjectRays(o.objectHeight, halfAngle=o.fanAngle, H=o.fanNumber, T=o.rayNumber)))
        def f(o):
            close()
            o.design(objectColor=OBJ, imageColor=IMG)
            if how == 'withobject':
                b = lst[0]
                o.displayWithObject(b.yMax - b.yMin, fanAngle=b.thetaMax, fanNumber=k['fans'][0], rayNumber=k['fans'][1], removeBlocked=remove)
                return seen(axes(), OBJ, IMG)
            kw = dict(removeBlocked=remove, onlyPrincipalAndAxialRays=False, limitObjectToFieldOfView=False, interactive=False)
            if how == 'rays' and len(lst) == 1:
                o.display(rays=lst[0], **kw)
            else:
                given = list(lst)
                o.display(raysList=lst, **kw)
                kept[0] = len(lst) == len(given) and all(x is y for x, y in zip(lst, given))
                lst[:] = given
            return seen(axes(), OBJ, IMG)
        kept = [True]
        def seen(ax, OBJ, IMG):
            r = dict(kept=kept[0], lines=raylines(ax), objs=arrows(ax, OBJ), imgs=arrows(ax, IMG), lim=[R(float(x)) for x in ax.get_xlim() + ax.get_ylim()], oh=R(o.objectHeight),
                     texts=[t.get_text() for t in ax.findobj(matplotlib.text.Text) if t.get_visible() and t.get_text()])
            close()
            return r
        return W.q(name, g, f, lambda r: r, bundles=bs, remove=remove, objects=bool(o.showObject), images=bool(o.showImages), labels=bool(o.showElementLabels), wholes=wholes(o))
    if name == 'largest':
        return W.q(name, g, lambda o: o.largestDiameter, R)
    if name == 'switches':
        lst, remove, acts = k['rays'], k['remove'], k['acts']
        o = W.o(g)
        bs = [dict(bundle(r), called=called(type(r).__name__)) for r in lst]
        if 'object' not in [b['kind'] for b in bs]:
            bs.append(dict(bundle(rt.ObjectRays(o.objectHeight, halfAngle=o.fanAngle, H=o.fanNumber, T=o.rayNumber)), called=''))
        field = []
        for q in (o.principalRay, o.axialRay):
            try:
                r = q()
            except Exception:
                r = None
            if r is not None:
                field.append(ray4(r))
        def f(o):
            import matplotlib.pyplot as plt
            close()
            obs, n = [], [0]
            def look(what, buttons):
                names = [t.get_text() for t in buttons.labels]
                obs.append(dict(act=what, kinds=[switch(x) for x in names],
                                on=[bool(x) for x in buttons.get_status()], lines=raylines(axes()), objs=arrows(axes(), OBJ), imgs=arrows(axes(), IMG)))
            def user(*a, **kw):
                """what somebody does in front of the figure"""
                b = [x for x in gc.get_objects() if isinstance(x, CheckButtons) and x.ax.figure is plt.gcf()]
                if len(b) != 1:
                    raise ValueError('%d sets of switches' % len(b))
                look(0, b[0])
                for a in acts:
                    if a == 0:
                        n[0] += 1
                        lim = axes().get_ylim()
                        axes().set_ylim(lim[0] * (0.5 if n[0] % 2 else 3), lim[1] * (0.5 if n[0] % 2 else 3))
                        look(0, b[0])
                    elif a <= len(b[0].labels):
                        b[0].set_active(a - 1)
                        look(a, b[0])
            was, plt.show = plt.show, user
            try:
                o.design(objectColor=OBJ, imageColor=IMG)
                kw = dict(removeBlocked=remove, onlyPrincipalAndAxialRays=False if lst else None, limitObjectToFieldOfView=False)
                o.display(raysList=lst, **kw)
            finally:
                plt.show = was
                close()
            return obs
        return W.q(name, g, f, lambda r: r, bundles=bs, remove=remove, field=field, objects=bool(o.showObject), images=bool(o.showImages), given=[b['kind'] for b in bs][:len(lst)])
    if name == 'fieldshown':
        o = W.o(g)
        rs = []
        for q in (o.principalRay, o.axialRay):
            try:
                r = q()
            except Exception:
                r = None
            if r is not None:
                rs.append(ray4(r))
        def f(o):
            close()
            o.display(interactive=False)
            r = dict(lines=raylines(axes()))
            close()
            return r
        return W.q(name, g, f, lambda r: r, rays=rs)
    if name == 'beamlines':
        b, shown = k['beam'], k['shown']
        def f(o):
            if shown:
                close()
                o.display(beams=[b])
                l = raylines(axes())
                close()
            else:
                l = [pts(x.xData, x.yData) for x in o.figure.beamTraceLines(b)]
            up, down = l
            return dict(up=up, down=down)
        return W.q(name, g, f, beam=beam6(b))
    if name == 'waists':
        b, shown = k['beam'], k.get('shown', False)
        def f(o):
            if not shown:
                return [x.B for x in o.figure.beamWaistAnnotations(b)]
            close()
            o.display(beams=[b])
            r = [x._posA_posB[1] for x in axes().patches if isinstance(x, matplotlib.patches.FancyArrowPatch) and x.get_arrowstyle().__class__.__name__ == 'CurveB']
            close()
            return r
        return W.q(name, g, f, lambda r: [[R(float(x[0])), R(float(x[1]))] for x in r], beam=beam6(b))
    if name == 'stopmarks':
        return W.q(name, g, lambda o: o.figure.stopsLabels, lambda r: {'as': [R(x.x) for x in r if x.text == 'AS'], 'fs': [R(x.x) for x in r if x.text == 'FS']})
    if name == 'drawn':
        return W.q(name, g, lambda o: o.figure.graphicsOfElements, lambda r: [outline(x) for x in r])
    if name == 'pupilmark':
        def shown(o, show):
            o.showEntrancePupil = show
            close()
            o.display(interactive=False)
            ax = axes()
            out = []
            for p in ax.patches:
                v = (p.get_transform() - ax.transData).transform(p.get_path().vertices)
                out.append((round(float(v[:, 0].min() + v[:, 0].max()) / 2, 6), round(float(abs(v[:, 1]).max()), 6)))
            close()
            return collections.Counter(out)
        def f(o):
            before = o.showEntrancePupil
            try:
                with_, without = shown(o, True), shown(o, False)
            finally:
                o.showEntrancePupil = before
            return [[R(x), R(h)] for x, h in (with_ - without).elements()]
        return W.q(name, g, f)
    if name == 'portrait':
        def f(o):
            import re
            close()
            o.display()
            ax = axes()
            texts = [t.get_text() for t in ax.findobj(matplotlib.text.Text)]
            said = [re.match(r'(EFL|FFL|BFL) = (.*)$', t) for t in texts]
            r = dict(marks=[R(float(x)) for l in ax.lines if l.get_marker() == 'o' for x in l.get_xdata()],
                     planes=[[R(float(x)) for x in l.get_xdata()] for l in ax.lines if l.get_linestyle() == '--'],
                     said=[[m.group(1), R(float(m.group(2)))] for m in said if m],
                     names=[t for t in texts if t in ('$V_f$', '$V_b$', '$P_f$', '$P_b$')],
                     arrows=[[R(float(p._posA_posB[0][0])), R(float(p._posA_posB[1][0]))] for p in ax.patches if isinstance(p, matplotlib.patches.FancyArrowPatch)])
            close()
            return r
        return W.q(name, g, f, whole=not isinstance(W.o(g), rt.MatrixGroup) or isinstance(W.o(g), (rt.AchromatDoubletLens, rt.SingletLens)))
    if name == 'foci marks':
        def marks(r):
            return [[R(float(x.x)), (x.text or '').count('F_f'), (x.text or '').count('F_b')] for x in r]
        return W.q(name, g, lambda o: o.figure.pointsOfInterest, marks)
    raise KeyError(name)
