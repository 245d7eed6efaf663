"""Functional-dependence analysis of loops: which loop-carried values stay a fixed function of another one.

For a loop-carried value B and every other loop-carried value M whose entry value is f(entry value of B), the
hypothesis M = f(B) is kept if one iteration maps f(B) to f(B'); hypotheses that do not survive are dropped until the
set is inductive (greatest fixpoint).
"""
from itertools import permutations
from .terms import *
from . import terms as tm

_canon_memo = {}


def canon(t):
    """order nested sums canonically"""
    r = _canon_memo.get(t)
    if r is not None:
        return r
    if not tm.contains(t, lambda x: x.op == 'sum'):
        r = t
    else:
        r = rebuild(t, canon)
        if r.op == 'sum':
            r = _canon_ind(r)
        if r.op == 'sum':
            r = _canon_sum(r)
        elif r is not t:
            r = canon(r)
    _canon_memo[t] = r
    _canon_memo[r] = r
    return r


def _canon_ind(t):
    """sum of a two-valued indicator in terms of the count of its condition"""
    b = t.args[1]
    if b.op == 'ite' and is_num(b.args[1]) and is_num(b.args[2]) and b.args[2] is not ZERO:
        v, n, body = open_binder(t)
        c, x, y = body.args
        return add(mul(y, n), mul(sub(x, y), mk_sum(n, v, ite(c, ONE, ZERO))))
    return t


def _flatten(t):
    """t (op sum) as (indices [(n, v)], body factors {f: e}, coefficient)"""
    v, n, body = open_binder(t)
    idx = [(n, v)]
    p = to_poly(body)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    fd = {}
    todo = [(m, c)]
    coef = 1
    for f, e in m:
        if f.op == 'sum' and e == 1:
            s = _flatten(f)
            if s is not None:
                i2, f2, c2 = s
                idx += i2
                coef *= c2
                for g, ge in f2.items():
                    fd[g] = fd.get(g, 0) + ge
                continue
        fd[f] = fd.get(f, 0) + e
    return idx, fd, coef * c


def _canon_sum(t):
    s = _flatten(t)
    if s is None:
        return t
    idx, fd, c = s
    if len(idx) < 2 or len(idx) > 4:
        return t
    best = None
    body = tm._build_mono(fd, c)
    for perm in permutations(idx):
        # an extent must not depend on an inner index
        ok = True
        for k, (n, v) in enumerate(perm):
            if any(w in n.fv for _, w in perm[k:]):
                ok = False
        if not ok:
            continue
        r = body
        for n, v in reversed(perm):
            r = mk_sum(n, v, r)
        if best is None or r.id < best.id:
            best = r
    return best if best is not None else t


def same(a, b, split=14):
    """equal up to normal form, order of summation and case split"""
    if a is b:
        return True
    if equal(a, b, split=split):
        return True
    a2, b2 = canon(a), canon(b)
    if a2 is a and b2 is b:
        return False
    return a2 is b2 or equal(a2, b2, split=split)


def zero(d):
    return is_zero(d) or is_zero(canon(d)) or equal(canon(d), ZERO)


def vec(m, rank, elem):
    return lam_ax(rank, elem) if rank else elem


def mu_with_init(info, term, rank=None):
    return [m for m, d in info.mus.items() if d['init'] is term]


def norm_lam(t):
    """('lam', v, term) of list elements -> (v, term)"""
    return t


class Dep:
    """hypotheses M = f(B) for loop info; B given by the entry value term b (elementwise, over ax)"""

    def __init__(self, info, b, leaf, extra=None):
        self.info = info
        self.hyp = {}
        self.base = None
        c = [m for m, d in info.mus.items() if d['init'] is b]
        if not c:
            return
        # several copies may exist; take the one the others can be expressed by
        self.base = c[0]
        self.leaf = leaf
        for m in c[1:]:
            self.hyp[m] = (info.mus[m]['rank'], rewrite(b, {leaf: self.base}))
        for m, d in info.mus.items():
            t = d['init']
            if m is self.base or m in self.hyp or not isinstance(t, T) or d['rank'] is None:
                continue
            if leaf in t.lv:
                self.hyp[m] = (d['rank'], rewrite(t, {leaf: self.base}))
        for m, (rank, f) in (extra or {}).items():
            if m not in self.hyp:
                self.hyp[m] = (rank, f)
        self.solve()

    def sub(self):
        return {m: vec(m, r, f) for m, (r, f) in self.hyp.items()}

    def apply(self, t):
        return rewrite(t, self.sub())

    def solve(self):
        self.dropped = {}
        steps = {m: d['step'] for m, d in self.info.mus.items()}
        rb = self.info.mus[self.base]['rank']
        changed = True
        while changed:
            changed = False
            s = self.sub()
            nb = rewrite(steps[self.base], s)
            nbv = vec(self.base, rb, nb)
            for m, (r, f) in list(self.hyp.items()):
                st = steps.get(m)
                if not isinstance(st, T):
                    del self.hyp[m]
                    changed = True
                    continue
                lhs = rewrite(st, s)
                rhs = rewrite(f, {self.base: nbv})
                if not same(lhs, rhs) and not self.by_gates(m, r, f, s):
                    self.dropped[m] = (lhs, rhs)
                    del self.hyp[m]
                    changed = True
        return self

    def by_gates(self, m, r, f, s):
        """the same with the decisions that both updates share left as they are"""
        a, b = self.info.mus[m]['step'], self.info.mus[self.base]['step']
        gates = lambda t: {x.args[0] for x in walk(t) if x.op == 'ite' and x.args[0].op in ('gt0', 'ge0') and
                           any(y.op == 'rnd' for y in x.args[0].lv)}
        both = sorted(gates(a) & gates(b), key=lambda x: x.id)
        if not both:
            return False
        g = {x: gt0(sym('gate%d' % i)) for i, x in enumerate(both)}
        nb = vec(self.base, self.info.mus[self.base]['rank'], rewrite(rewrite(b, g), s))
        return same(rewrite(rewrite(a, g), s), rewrite(f, {self.base: nb}))
