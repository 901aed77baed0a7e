"""Exact encoding of observed numbers for the specification (see spec/BigRat.tla)."""
from fractions import Fraction
import math

def limbs(n):
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out

PINF, NINF, NAN, NONE, OTHER = [2, [], []], [-2, [], []], [3, [], []], [4, [], []], [5, [], []]

def R(x):
    if x is None:
        return NONE
    if isinstance(x, bool):
        return OTHER
    if isinstance(x, Fraction):
        f = x
    else:
        try:
            v = x if isinstance(x, int) else float(x)
        except Exception:
            return OTHER
        if isinstance(v, float):
            if math.isnan(v):
                return NAN
            if math.isinf(v):
                return PINF if v > 0 else NINF
        f = Fraction(v)
    if f == 0:
        return [0, [], [1]]
    return [1 if f > 0 else -1, limbs(abs(f.numerator)), limbs(f.denominator)]

def C(z):
    """complex -> [re, im]"""
    try:
        z = complex(z)
    except Exception:
        return [OTHER, OTHER]
    return [R(z.real), R(z.imag)]

def F(r):
    """decode, for messages"""
    s, n, d = r
    if s in (2, -2):
        return math.inf * s
    if s == 3:
        return math.nan
    if s == 4:
        return None
    if s == 5:
        return '?'
    num = sum(v * 10000 ** i for i, v in enumerate(n))
    den = sum(v * 10000 ** i for i, v in enumerate(d))
    return float(Fraction(s * num, den)) if s else 0.0

def isnum(x):
    return isinstance(x, list) and len(x) == 3 and isinstance(x[0], int) and not isinstance(x[0], bool) \
        and isinstance(x[1], list) and isinstance(x[2], list)

def pretty(x):
    if isnum(x):
        return F(x)
    if isinstance(x, list):
        return [pretty(v) for v in x]
    if isinstance(x, dict):
        return {k: pretty(v) for k, v in x.items()}
    return x
