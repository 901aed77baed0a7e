"""The efficiency report of a path: what it says, and what its figure shows."""
import contextlib, io, re
import numpy as np
from .env import rt
from .num import R
from .world import ray4
from .drawings import pts, close

NUM = r'(-?(?:inf|nan|[0-9.]+(?:e[-+]?\d+)?))'
def said(text, pattern, n=1):
    m = re.search(pattern, text)
    return [R(float(m.group(i + 1))) for i in range(n)] if m else [R(None)] * n

@contextlib.contextmanager
def sources():
    """the random sources made meanwhile"""
    made, cls = [], rt.RandomUniformRays
    init = cls.__init__
    def spy(self, *a, **k):
        init(self, *a, **k)
        made.append(self)
    cls.__init__ = spy
    try:
        yield made
    finally:
        cls.__init__ = init

def dots(ax, label):
    out = []
    for c in ax.collections:
        if c.get_label() == label and c.get_visible():
            out += [[R(float(x)), R(float(y))] for x, y in np.asarray(c.get_offsets())]
    return out

def ask(W, g, diameter=None, angle=None, n=20):
    def f(o):
        import matplotlib.pyplot as plt
        close()
        text = io.StringIO()
        args = {}
        if diameter is not None:
            args['objectDiameter'] = diameter
        if angle is not None:
            args['emissionHalfAngle'] = angle
        try:
            with sources() as made, contextlib.redirect_stdout(text):
                o.reportEfficiency(nRays=n, **args)
            if not made or not plt.get_fignums():
                return dict(some=False)
            s, ax, t = made[-1], plt.gcf().axes[0], text.getvalue()
            p, a = o.principalRay(), o.axialRay()
            m = re.search(r'at positions: *\{(.*?)\}', t, re.S)
            return dict(some=True, p=ray4(p), a=ray4(a), rays=[ray4(s[k]) for k in range(len(s))],
                        size=R(s.yMax - s.yMin), angle=R(s.thetaMax),
                        through=dots(ax, 'Transmitted'), vignetted=dots(ax, 'Vignetted'), lost=dots(ax, 'Blocked'),
                        ilagr=said(t, r'Lagrange invariant: ' + NUM)[0], isrc=said(t, r'source equivalent invariant: ' + NUM)[0],
                        mc=said(t, r'Monte Carlo: ' + NUM)[0], said=said(t, r'of ±' + NUM + r' radian, over field diameter of ' + NUM, 2),
                        ratio=said(t, r'source invariants: ' + NUM)[0], rel=said(t, r'Relative efficiency: ' + NUM)[0],
                        loss=said(t, r'Loss to vignetting: ' + NUM)[0],
                        where=[R(float(x)) for x in re.findall(NUM, m.group(1).replace('float64', ''))] if m else [])
        finally:
            close()
    h = diameter / 2 if diameter is not None else 0
    return W.q('report', g, f, hgiven=diameter is not None, h=R(h), ang=R(angle if angle is not None else np.pi / 2), n=n)
