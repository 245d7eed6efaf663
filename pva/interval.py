"""Interval analysis of terms."""
from fractions import Fraction
from .terms import *
from . import terms as tm

F = float
TOPI = (-F('inf'), F('inf'))


def _mul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return min(ps), max(ps)


def _add(a, b):
    return a[0] + b[0], a[1] + b[1]


def _pow(a, e):
    lo, hi = a
    e = F(e)
    if e == 0:
        return 1.0, 1.0
    if e == int(e) and int(e) % 2 == 0:
        m = max(abs(lo), abs(hi))
        l = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        if e > 0:
            return l ** e, (m ** e if m != F('inf') else m)
        return (m ** e if m not in (0, F('inf')) else 0.0), (l ** e if l else F('inf'))
    if lo < 0:
        if e == int(e) and e > 0:
            return -((-lo) ** e), (hi ** e if hi >= 0 else -((-hi) ** e))
        return TOPI
    p = lambda x: (F('inf') if e < 0 else 0.0) if x == 0 else ((0.0 if e < 0 else F('inf')) if x == F('inf') else x ** e)
    r = (p(lo), p(hi))
    return min(r), max(r)


class Ival:
    """env: term -> (lo, hi)"""

    def __init__(self, env):
        self.env = dict(env)
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.env.get(t)
            if r is None and t.op == 'at':
                r = self.env.get(t.args[0])
            if r is None:
                r = self.go(t)
            self.memo[t] = r
        return r

    def go(self, t):
        o = t.op
        if o == 'num':
            v = F(numval(t))
            return v, v
        if t is INF:
            return F('inf'), F('inf')
        if o == 'ite':
            c, a, b = t.args
            a, b = self.refine(c, True, a), self.refine(c, False, b)
            x, y = self(a), self(b)
            return min(x[0], y[0]), max(x[1], y[1])
        if o == 'min':
            xs = [self(a) for a in t.args]
            return min(x[0] for x in xs), min(x[1] for x in xs)
        if o == 'max':
            xs = [self(a) for a in t.args]
            return max(x[0] for x in xs), max(x[1] for x in xs)
        if o == 'abs':
            lo, hi = self(t.args[0])
            m = max(abs(lo), abs(hi))
            return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), m
        if o == 'exp':
            lo, hi = self(t.args[0])
            f = lambda x: 0.0 if x == -F('inf') else (F('inf') if x > 700 else math.exp(x))
            return f(lo), f(hi)
        if o == 'log':
            lo, hi = self(t.args[0])
            if lo < 0:
                return TOPI
            f = lambda x: -F('inf') if x == 0 else (F('inf') if x == F('inf') else math.log(x))
            return f(lo), f(hi)
        if o == 'sum':
            v, n, b = open_binder(t)
            lo, hi = self(b)
            nl = self(n)
            nl = (max(0.0, nl[0]), max(0.0, nl[1]))
            return _mul((lo, hi), nl)
        p = to_poly(t)
        if len(p) == 1 and list(p)[0] == ((t, 1),):
            if nonneg(t):
                return (1.0 if leafin(t, POS) and leafin(t, INTSYMS) else 0.0), F('inf')
            if t.op in ('isfinite', 'and', 'or', 'not', 'gt0', 'ge0', 'eq0'):
                return 0.0, 1.0
            return TOPI
        acc = (0.0, 0.0)
        for m, c in p.items():
            acc = _add(acc, _mul((F(c), F(c)), self.mono(m)))
        return acc

    def mono(self, m):
        """product of powers; an average (sum over n of b, times 1/n) is bounded by the bounds of b"""
        fs = list(m)
        out = (1.0, 1.0)
        used = set()
        for k, (f, e) in enumerate(fs):
            if f.op == 'sum' and e == 1:
                v, n, b = open_binder(f)
                j = next((q for q, (g, ge) in enumerate(fs) if g is n and ge == -1 and q not in used), None)
                if j is not None:
                    used.add(j)
                    used.add(k)
                    out = _mul(out, self(b))
        for k, (f, e) in enumerate(fs):
            if k in used:
                continue
            out = _mul(out, _pow(self(f), e))
        return out

    def refine(self, c, val, t):
        return assume_facts(t, facts_of(c, val))


import math
