"""Value of an extracted condition or formula at given values of its atoms.

Used to decide whether one formula that the code computes implies (or equals) another one: both are closed terms over a handful of
unknown reals (a sample size, its target, an inverse temperature), so their truth is tabulated over those."""
import math
import random
from .terms import *
from . import terms as tm


class Unknown(Exception):
    pass


class Table:
    """env: atom -> float or bool; atoms without a value get a fixed arbitrary one, recorded in `free`"""

    def __init__(self, env=None, seed=0):
        self.env = dict(env or {})
        self.memo = {}
        self.free = {}
        self.rng = random.Random(seed)
        self.hash = {}

    def set(self, t, v):
        self.env[t] = v
        self.memo.clear()

    def atom(self, t):
        v = self.free.get(t)
        if v is None:
            r = random.Random('%s %s' % (self.rng.random(), len(self.free)))
            v = (r.random() < 0.5) if is_bool(t) else r.uniform(0.1, 0.9)
            self.free[t] = v
        return v

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        op = t.op
        if op == 'num':
            return float(t.args[0])
        if op == 'inf':
            return math.inf
        if op == 'nan':
            return math.nan
        if op == 'const' and isinstance(t.args[0], bool):
            return t.args[0]
        if op == 'poly':
            s = 0.0
            for m, c in t.args[0]:
                p = float(c)
                for f, e in m:
                    p *= self.pw(self(f), float(e))
                s += p
            return s
        if op == 'ite':
            return self(t.args[1]) if self(t.args[0]) else self(t.args[2])
        if op == 'gt0':
            return self(t.args[0]) > 1e-12
        if op == 'ge0':
            return self(t.args[0]) >= -1e-12
        if op == 'eq0':
            return abs(self(t.args[0])) <= 1e-12
        if op == 'and':
            return all(self(a) for a in t.args)
        if op == 'or':
            return any(self(a) for a in t.args)
        if op == 'not':
            return not self(t.args[0])
        if op in ('min', 'max'):
            return (min if op == 'min' else max)(self(a) for a in t.args)
        if op == 'abs':
            return abs(self(t.args[0]))
        if op == 'exp':
            try:
                return math.exp(self(t.args[0]))
            except OverflowError:
                return math.inf
        if op == 'log':
            x = self(t.args[0])
            return math.log(x) if x > 0 else -math.inf if x == 0 else math.nan
        if op == 'app' and t.args[0] in ('int', 'floor', 'ceil', 'round', 'sqrt') and len(t.args) == 2:
            x = self(t.args[1])
            if not math.isfinite(x):
                return x
            return {'int': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': round, 'sqrt': lambda q: math.sqrt(abs(q))}[t.args[0]](x)
        if op == 'app' and t.args[0] in ('mod', 'floordiv') and len(t.args) == 3:
            a, b = self(t.args[1]), self(t.args[2])
            if b == 0 or not (math.isfinite(a) and math.isfinite(b)):
                return math.nan
            return a % b if t.args[0] == 'mod' else float(a // b)
        if op == 'app' and t.args[0] == 'bool' or op == 'bool':
            return bool(self(t.args[-1]))
        if op == 'isfinite':
            return math.isfinite(self(t.args[0]))
        if op == 'isnan':
            return math.isnan(self(t.args[0]))
        return self.atom(t)

    @staticmethod
    def pw(x, e):
        try:
            return x ** e if not (x < 0 and e != int(e)) else math.nan
        except (ZeroDivisionError, OverflowError):
            return math.inf

    def solve(self, f, pivot, value):
        """choose the atom pivot such that f has the given value; f is affine in pivot or in 1/pivot"""
        def at_(x):
            self.set(pivot, x)
            return self(f)
        a, b, c = at_(1.0), at_(2.0), at_(4.0)
        if abs((c - a) - 3 * (b - a)) <= 1e-9 * (abs(a) + abs(b) + abs(c)) and b != a:
            x = 1 + (value - a) / (b - a)
        else:
            # f = p + q/x
            q = 2 * (a - b)
            p = a - q
            if q == 0 or abs(p + q / 4 - c) > 1e-9 * (abs(a) + abs(b) + abs(c)) or value == p:
                raise Unknown(show(f)[:100])
            x = q / (value - p)
        self.set(pivot, x)
        if not abs(self(f) - value) <= 1e-6 * (1 + abs(value)):
            raise Unknown(show(f)[:100])


def pivot(f, taken=()):
    """an atom of f (a sum) that f depends on in a simple way"""
    for y in sorted(walk(f), key=lambda y: y.id):
        if y.op == 'sum' and not y.fv and y not in taken and not any(z.op == 'sum' and z is not y and any(q is y for q in walk(z)) for z in walk(f)):
            T = Table(seed=1)
            try:
                T.solve(f, y, 0.7)
                return y
            except (Unknown, OverflowError, ValueError, ZeroDivisionError):
                continue
    return None
