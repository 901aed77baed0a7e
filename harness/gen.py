"""Seeded generators of elements, paths and rays."""
import random, math
from .env import rt
from .world import World, INF

def rng_for(seed, *k):
    return random.Random(':'.join(map(str, (seed,) + k)))

class Gen:
    """exact: every number (and every float operation on it along a path) is a short dyadic, so
    that double precision arithmetic is exact and comparisons at an aperture edge can be decided."""
    def __init__(self, rng, exact=False, axicon=True, air=False, aps=0.5, sym=False):
        # sym: generic matrices have their vertices in the middle or none (can be flipped, see known findings)
        self.r, self.exact, self.axicon, self.air, self.aps, self.sym = rng, exact, axicon, air, aps, sym

    def d(self):
        r = self.r
        return r.choice([0.0, 1.0, 2.0, 8.0]) if r.random() < 0.15 else r.randint(1, 400) / (4.0 if self.exact else 8.0)

    def f(self):
        r = self.r
        if self.exact:
            return r.choice([-1, 1, 1, 1]) * float(2 ** r.randint(1, 6))
        return r.choice([-1, 1, 1, 1]) * (r.randint(8, 800) / 4.0)

    def R(self):
        r = self.r
        return INF if r.random() < 0.15 else r.choice([-1, 1]) * (float(2 ** r.randint(2, 7)) if self.exact else r.randint(40, 900) / 8.0)

    def n(self):
        r = self.r
        if self.exact:
            return r.choice([1.0, 2.0])
        n = getattr(self, 'last_n', 1.5) if r.random() < 0.12 else 0
        if n:       # hardly different from another one
            return n * r.choice([1.0002, 1 - 1.5e-4])
        self.last_n = r.choice([1.0, 1.25, 1.33, 1.5, 1.517, 1.75, 2.0])
        return self.last_n

    def ap(self, p=None):
        r = self.r
        if r.random() >= (self.aps if p is None else p):
            return INF
        return r.randint(1, 160) / 4.0

    def label(self):
        return self.r.choice(['', '', 'a', 'L1', 'x y', 'é$F_1$'])

    def leaf(self, W, n=1.0, kinds=None, last=None):
        """a new leaf whose front index is n; returns (id, back index)"""
        r = self.r
        kinds = kinds or (['space'] * 4 + ['lens'] * 3 + ['di'] * 3 + ['thick', 'thick', 'slab', 'mirror', 'aperture', 'aperture', 'matrix'] + (['axicon'] if self.axicon else []))
        k = r.choice(kinds)
        if n != 1.0 and k not in ('space', 'di', 'matrix'):
            k = r.choice(['space', 'di'])
        if self.air and k == 'di':
            k = 'lens'
        lab = self.label()
        if k == 'space':
            return W.new('space', (self.d(),), n1=n, ap=self.ap(0.15), label=lab), n
        if k == 'lens':
            return W.new('lens', (self.f(),), ap=self.ap(), label=lab), 1.0
        if k == 'mirror':
            return W.new('mirror', (self.R() if False else self.f(),), ap=self.ap(), label=lab), 1.0
        if k == 'di':
            n2 = self.n()
            return W.new('di', (n, n2, self.R()), ap=self.ap(0.3), label=lab), n2
        if k == 'thick':
            nn = 2.0 if self.exact else r.choice([1.25, 1.5, 1.517, 1.75, 2.0])
            return W.new('thick', (nn, self.R(), self.R()), L=r.randint(1, 40) / 4.0, ap=self.ap(0.4), label=lab), 1.0
        if k == 'slab':
            nn = 2.0 if self.exact else r.choice([1.25, 1.5, 1.75, 2.0])
            return W.new('slab', (nn,), L=r.randint(1, 40) / 4.0, ap=self.ap(0.4), label=lab), 1.0
        if k == 'aperture':
            return W.new('aperture', (), ap=self.ap(1.0), na=INF if r.random() < 0.7 else r.randint(1, 32) / 64.0, label=lab), 1.0
        if k == 'axicon':
            return W.new('axicon', (2.0 if self.exact else r.choice([1.25, 1.5, 1.75]), r.randint(1, 16) / 64.0), ap=self.ap(0.4), label=lab), 1.0
        if k == 'matrix':
            return self.matrix(W, n), n
        raise KeyError(k)

    def matrix(self, W, n=1.0, n2=None):
        """generic matrix of determinant n/n2: product of simple shears"""
        r = self.r
        a = r.randint(-8, 8) / 4.0
        c = r.randint(-4, 4) / 8.0
        A, B, C, D = 1.0, 0.0, 0.0, 1.0
        for _ in range(r.randint(0, 2)):
            b = r.randint(-8, 8) / 4.0
            A, B = A + b * C, B + b * D
            c = r.randint(-4, 4) / 8.0
            C, D = C + c * A, D + c * B
        L = r.choice([0.0, 0.0, r.randint(1, 40) / 4.0])
        fv, bv = r.choice([(None, None), (0.0, L), (L / 4, L / 2), (None, L), (0.0, None)] if not self.sym else [(None, None), (L / 2, L / 2), (L / 2, None), (None, L / 2)])
        return W.new('matrix', (A, B, C, D), L=L, fv=fv, bv=bv, n1=n, n2=n, label=self.label())

    def path_items(self, W, length, n=1.0, nest=0.15, kinds=None, depth=0):
        items = []
        for _ in range(length):
            if depth < 2 and self.r.random() < nest:
                sub, n2 = self.path_items(W, self.r.randint(0, 3), n, nest, kinds, depth + 1)
                g = W.newgroup(sub, 'MatrixGroup')
                if g:
                    m = W.objs[g - 1]
                    if m.frontIndex == n:
                        items.append(g)
                        n = m.backIndex
                    continue
            i, n2 = self.leaf(W, n, kinds)
            if i:
                items.append(i)
                n = n2
        return items, n

    def ray(self, W=None):
        r = self.r
        if self.exact:
            y, th = r.randint(-80, 80) / 8.0, r.choice([0.0, r.randint(-16, 16) / 64.0])
        else:
            y, th = r.choice([0.0, r.uniform(-12, 12)]), r.choice([0.0, r.uniform(-0.3, 0.3)])
        return rt.Ray(y, th, r.choice([0.0, 0.0, 0.0, r.randint(-40, 40) / 4.0]), r.random() < 0.05)

    # ---- imaging systems with thin apertures
    def imaging(self, W, thick=0.15):
        """lenses and stops with gaps in between, sometimes in several media"""
        r = self.r
        items = []
        n = self.n() if r.random() < 0.15 else 1.0
        media = 0.08 if n == 1.0 else 0.5
        def sp(lo=1):
            items.append(W.new('space', (r.randint(lo, 320) / 4.0 if not self.exact else float(r.choice([4, 8, 16, 32, 64])),), n1=n))
        if r.random() < 0.9:
            sp()
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if r.random() < media:
                n2 = self.n()
                items.append(W.new('di', (n, n2, self.R()), ap=self.ap(0.6), label=self.label()))
                n = n2
            elif n != 1.0:
                pass
            elif x < 0.55:
                items.append(W.new('lens', (self.f(),), ap=self.ap(0.7), label=self.label()))
            elif x < 0.8:
                items.append(W.new('aperture', (), ap=self.ap(1.0), label=self.label()))
            elif x < 0.8 + thick:
                items.append(W.new('thick', (2.0 if self.exact else 1.5, self.R(), self.R()), L=r.randint(4, 40) / 4.0, ap=self.ap(0.5)))
            else:
                items.append(W.new('lens', (self.f(),), ap=self.ap(0.4)))
            if r.random() < 0.85:
                sp()
        if r.random() < 0.3 and len(items) > 2:
            k = r.randint(1, len(items) - 1)
            sub = items[:k] if r.random() < 0.5 else items[k:]
            g = W.newgroup(sub)
            items = [g] + items[k:] if sub == items[:k] else items[:k] + [g]
        return items
