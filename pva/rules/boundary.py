"""Periodic and reflective boundary conditions."""
import itertools
from fractions import Fraction
from .scaler import *
from .kernel import kernel, record_rule, Accept, FIELDS
from ..report import Only

X = sym('value@')
L_, H_ = sym('low@'), sym('high@')
W = sub(H_, L_)


class Unknown(Exception):
    pass


def ev(t, env):
    """value of a term of X, low and high at rational arguments"""
    if t in env:
        return env[t]
    o = t.op
    if o == 'num':
        return Fraction(numval(t))
    if t is TRUE or t is FALSE:
        return t is TRUE
    if o == 'poly':
        s = Fraction(0)
        for m, c in to_poly(t).items():
            v = Fraction(c)
            for f, e in m:
                x = ev(f, env)
                if Fraction(e).denominator != 1:
                    raise Unknown(show(t, 4))
                if x == 0 and e < 0:
                    raise Unknown('division by zero')
                v *= Fraction(x) ** int(e)
            s += v
        return s
    if o == 'gt0':
        return ev(t.args[0], env) > 0
    if o == 'ge0':
        return ev(t.args[0], env) >= 0
    if o == 'eq0':
        return ev(t.args[0], env) == 0
    if o == 'and':
        return all(ev(a, env) for a in t.args)
    if o == 'or':
        return any(ev(a, env) for a in t.args)
    if o == 'not':
        return not ev(t.args[0], env)
    if o == 'ite':
        return ev(t.args[1] if ev(t.args[0], env) else t.args[2], env)
    if o == 'min':
        return min(ev(a, env) for a in t.args)
    if o == 'max':
        return max(ev(a, env) for a in t.args)
    if o == 'abs':
        return abs(ev(t.args[0], env))
    if o == 'isfinite':
        ev(t.args[0], env)
        return True
    if o in ('isnan', 'isinf'):
        ev(t.args[0], env)
        return False
    if o == 'app':
        nm = str(t.args[0])
        if nm in ('floor', 'ceil', 'mod', 'floordiv'):
            a = [ev(x, env) for x in t.args[1:]]
            if nm == 'floor':
                return Fraction(a[0].__floor__())
            if nm == 'ceil':
                return Fraction(a[0].__ceil__())
            if a[1] == 0:
                raise Unknown('division by zero')
            return a[0] % a[1] if nm == 'mod' else Fraction(a[0] // a[1])
    raise Unknown('%s: %s' % (o, show(t, 4)))


PTS = [(Fraction(lo), Fraction(hi), Fraction(x)) for lo, hi in ((0, 1), (-2, 3), (5, 7)) for x in
       [lo, hi, Fraction(lo + hi, 2), lo + Fraction(1, 8), hi - Fraction(1, 8), lo - Fraction(1, 4), hi + Fraction(1, 4),
        lo - (hi - lo) - Fraction(1, 3), hi + (hi - lo) + Fraction(1, 3), lo - (hi - lo), hi + (hi - lo), lo - 3 * (hi - lo) - Fraction(1, 5)]]


def env_of(p):
    return {L_: p[0], H_: p[1], X: p[2]}


def literals(c):
    """disjunctive normal form as lists of linear facts (d, strict)"""
    c = mnot_full(mnot_full(c)) if c.op == 'not' else c
    if c is TRUE:
        return [[]]
    if c is FALSE:
        return []
    if c.op == 'or':
        return [f for a in c.args for f in literals(a)]
    if c.op == 'and':
        out = [[]]
        for a in c.args:
            la = literals(a)
            out = [x + y for x in out for y in la]
        return out
    if c.op == 'gt0':
        return [[(c.args[0], True)]]
    if c.op == 'ge0':
        return [[(c.args[0], False)]]
    if c.op == 'eq0':
        return [[(c.args[0], False), (neg(c.args[0]), False)]]
    if c.op == 'not':
        n = mnot_full(c.args[0])
        if n is not c and n.op != 'not':
            return literals(n)
    return [[]]


def entails(facts, goal, strict=False):
    """facts (linear) and high > low  =>  goal >= 0 (> 0)"""
    fs = [(ZERO, False), (W, True)] + list(facts)
    for k in (0, 1, 2):
        for c in itertools.combinations_with_replacement(fs, k):
            r = sub(goal, add(ZERO, *[d for d, s in c]))
            st_ = any(s for d, s in c)
            if is_num(r):
                v = numval(r)
                if v > 0 or (v == 0 and (st_ or not strict)):
                    return True
    return False


def contradictory(facts):
    return entails(facts, num(-1)) or any(entails([f for f in facts if f is not g], neg(g[0]), not g[1]) for g in facts)


def paths(t, fs=()):
    """(facts, leaf) pairs of a gated term"""
    if t.op == 'ite':
        out = []
        for a in literals(t.args[0]):
            out += paths(t.args[1], tuple(fs) + tuple(a))
        for a in literals(mnot_full(t.args[0])):
            out += paths(t.args[2], tuple(fs) + tuple(a))
        return [(f, x) for f, x in out if not contradictory(f)]
    inner = next((y for y in walk(t) if y.op == 'ite'), None)
    if inner is not None:
        c = inner.args[0]
        return paths(ite(c, rewrite_exact(t, inner, inner.args[1]), rewrite_exact(t, inner, inner.args[2])), fs) \
            if not any(y.op == 'ite' for y in walk(c)) else [(tuple(fs), t)]
    return [(tuple(fs), t)]


def integer(t):
    return (is_num(t) and Fraction(numval(t)).denominator == 1) or \
        (t.op == 'app' and str(t.args[0]) in ('floor', 'ceil', 'floordiv')) or \
        (t.op == 'poly' and all(Fraction(c).denominator == 1 and all(e == int(e) and e > 0 and integer(f) for f, e in m)
                                for m, c in to_poly(t).items()))


def periodic_move(t):
    d = sub(t, X)
    # a modulus by the range differs from its argument by a multiple of the range
    for y in list(walk(d)):
        if y.op == 'app' and str(y.args[0]) == 'mod' and same(y.args[2], W):
            d = rewrite_exact(d, y, add(y.args[1], mul(sym('whole@'), W)))
    d = rewrite_exact(d, sym('whole@'), app('floor', sym('whole@')))
    if d is ZERO:
        return True
    q = tm.polydiv(d, W)
    return q is not None and integer(q)


def reflective_move(t):
    if t is X:
        return True
    try:
        cs = {}
        for v in (X, L_, H_):
            a = split_affine(t, v)
            cs[v] = numval(a[0]) if is_num(a[0]) else None
        c0 = sub(t, add(*[scale(v, c) for v, c in cs.items()]))
    except Exception:
        return None
    if c0 is not ZERO or None in cs.values():
        return None
    a, b, s = cs[L_], cs[H_], cs[X]
    if abs(s) != 1 or a % 2 or b % 2:
        return False
    return a + b == (2 if s == -1 else 0)


class Bc:
    def __init__(self, R, kind, n):
        self.M = M = Model(ROOT)
        I, st = self.I, self.st = M.I, M.st
        env = I.module('pocomc.scaler')
        names = [sym('p%d' % a) for a in range(n)]
        for q in names:
            INTSYMS.add(q)
            register(q, NONNEG)
        self.names = names
        B = I.new_arr(st, (D, num(2)), at(BOUNDS, ax(0), ax(1)))
        kw = {}
        if kind == 'both':
            kw['periodic'] = I.alloc(st, ListC(names[:1]))
            kw['reflective'] = I.alloc(st, ListC(names[1:]))
        else:
            kw[kind] = I.alloc(st, ListC(list(names)))
        self.kinds = [kind] * n if kind != 'both' else ['periodic', 'reflective']
        self.S = I.call(st, env['Reparameterize'], [D, B], kw, None)
        self.xx = sym('xx')
        self.x = I.new_arr(st, (N, D), at(self.xx, ax(0), ax(1)))
        self.r = I.call_attr(st, self.S, 'apply_boundary_conditions_x', [self.x], {}, None)
        self.loops = [l for l in I.loops.values() if 'scaler.py' in l.loc and any(d['rank'] == 2 for d in l.mus.values())]
        self.site = 'apply_boundary_conditions_x(%s=%s)' % (kind, ['p', 'p, q'][n - 1]) if kind != 'both' else \
            'apply_boundary_conditions_x(periodic=p, reflective=q)'
        R.unit(self.site, I)


def neq_facts(a, b):
    fs = {}
    facts_of(eq(a, b), False, fs)
    facts_of(eq(b, a), False, fs)
    return fs


def fall(t, fs, known, val):
    t = assume_facts(t, fs)
    return rewrite(t, {y: val for y in walk(t) if y.op == 'at' and len(y.args) == 3 and y.args[0] in known
                       and y.args[1] is ax(0) and y.args[2] is ax(1)})


def unify(t):
    """inside a gate a == b read array entries by the axis instead of the equal index"""
    memo = {}

    def eqs(c):
        out = {}
        for q in (c.args if c.op == 'and' else (c,)):
            if q.op == 'eq0':
                for x in walk(q):
                    if x.op == 'ax':
                        other = add(x, q.args[0]) if to_poly(q.args[0]).get(((x, 1),)) == -1 else sub(x, q.args[0])
                        if x not in other.fv:
                            out[other] = x
        return out

    def put(t, m):
        sub_ = {}
        for y in walk(t):
            if y.op == 'at' and any(a in m for a in y.args[1:]):
                sub_[y] = at(y.args[0], *[m.get(a, a) for a in y.args[1:]])
        return rewrite(t, sub_) if sub_ else t

    def go(t):
        if t in memo:
            return memo[t]
        if t.op == 'ite':
            m = eqs(t.args[0])
            a = put(t.args[1], m) if m else t.args[1]
            r = ite(t.args[0], go(a), go(t.args[2]))
        else:
            r = t
        memo[t] = r
        return r
    return go(t)


def bc_rule(R, kind, n):
    B = Bc(R, kind, n)
    I, st = B.I, B.st
    s, e = I.arr(st, B.r)
    own = I.arr(st, B.x)[1]
    me = at(B.xx, ax(0), ax(1))
    R.ob('callers-array', B.site, verdict(same(own, me), own), 'the argument became %s' % show(own, 5)[:300])
    ok = len(s) == 2 and same(s[0], N) and same(s[1], D)
    R.ob('frame', '%s shape' % B.site, verdict(ok, *s), 'the result has shape %s' % [show(q, 3) for q in s])
    B.mus = {}
    for l in I.loops.values():
        if 'scaler.py' in l.loc:
            for mu, d in l.mus.items():
                B.mus[mu] = (l, d, unify(elem2(d['init'])), unify(elem2(d['step'])))
    inside = facts_of(gt0(sub(N, ax(0))), True)
    e = B.e = unify(assume_facts(e, inside))
    # other parameters
    fs = dict(inside)
    for q in B.names:
        fs.update(neq_facts(q, ax(1)))
    bad = None
    for t in [e] + [z for l, d, i, s_ in B.mus.values() if d['rank'] == 2 for z in (i, s_)]:
        r = fall(t, fs, B, me)
        if not same(r, me):
            bad = r
            break
    R.ob('frame', '%s, other parameters' % B.site, True if bad is None else verdict(False, bad),
         '' if bad is None else 'becomes %s' % show(bad, 6)[:300])
    for q, kd in zip(B.names, B.kinds):
        R.guard('moves', '%s, %s' % (B.site, kd), lambda: column_rule(R, B, q, kd))


def fall(t, fs, B, val):
    t = assume_facts(t, fs)
    return canon(rewrite(t, {y: val for y in walk(t) if y.op == 'at' and len(y.args) == 3 and of(B, y.args[0])
                             and y.args[1] is ax(0) and y.args[2] is ax(1)}))


def of(B, h):
    """the recurrence a version of a loop variable belongs to"""
    return next((m for m in B.mus if m.args[0] == h.args[0] and m.args[1] == h.args[1]), None) if h.op == 'mu' else None


def elem2(t):
    return elem(t) if not isinstance(t, T) else t


class Stop(Exception):
    pass


def entries(B, t, p):
    """array entries of row @0, column p (or loop scalars) in a term"""
    out = []
    for y in walk(t):
        if y.op == 'at' and len(y.args) == 3 and y.args[1] is ax(0) and y.args[2] is p and (y.args[0] is B.xx or of(B, y.args[0])):
            out.append(y)
        elif y.op == 'at' and len(y.args) == 2 and y.args[1] is ax(0) and of(B, y.args[0]):
            out.append(y)
        elif y.op == 'mu' and of(B, y) and B.mus[of(B, y)][1]['rank'] == 0:
            out.append(y)
    return [y for y in dict.fromkeys(out)]


def chain(R, B, p, site):
    """the stages by which an entry (row @0, column p) of the result arises from the given one, first to last:
    ('map', f) or ('loop', condition, step, location), all as terms of X, low and high"""
    others = dict(facts_of(gt0(sub(N, ax(0))), True))
    for q in B.names:
        if q is not p:
            others.update(neq_facts(q, p))

    def tidy_(t):
        t = canon(assume_facts(unify(rewrite(t, {ax(1): p})), others))
        return canon(assume_facts(t, others))
    goal = at(B.xx, ax(0), p)
    t = tidy_(B.e)
    out = []
    bnd = {at(BOUNDS, p, ZERO): L_, at(BOUNDS, p, ONE): H_}

    def value(t, e):
        r = rewrite(t, {e: X})
        r = rewrite(r, bnd)
        bad = [y for y in walk(r) if y.op in ('mu', 'ax', 'iv', 'at')]
        if bad:
            raise Stop('not followed: %s' % show(r, 6)[:300])
        return r
    for _ in range(40):
        if t is goal:
            return out[::-1]
        if t.op == 'ite' and set(t.args[0].lv) <= {N} and not t.args[0].fv and t.args[0].op == 'gt0':
            R.ob('all-rows', '%s, fewer points' % site, None, 'only followed when %s' % show(t.args[0]))
            t = t.args[1]
        es = entries(B, t, p)
        if not es:
            raise Stop('not followed: %s' % show(t, 6)[:300])
        if t not in es and any(N in h.lv for y in es for h in [y.args[0] if y.op == 'at' else y] if h.op == 'mu'):
            # value after the last iteration over rows: iterations of other rows must not touch this one
            k = fresh_iv('row')
            tk = rewrite(t, {N: add(k, ONE)})
            o = tidy_(assume_facts(tidy_(tk), neq_facts(k, ax(0))))
            if o not in entries(B, o, p):
                raise Stop('not followed: %s' % show(t, 6)[:300])
            t = tidy_(rewrite(tk, {k: ax(0)}))
            continue
        if t not in es:
            es = [y for y in es if not any(z is not y and y in set(walk(z)) for z in es)]
            if len(es) != 1:
                raise Stop('several versions: %s' % show(t, 6)[:300])
            out.append(('map', value(t, es[0])))
            t = es[0]
            continue
        h = t.args[0] if t.op == 'at' else t
        m = of(B, h)
        l, d, ini, stp = B.mus[m]
        ks = [k for k in m.args[2:] if isinstance(k, T) and k.op not in ('num',)]
        sub_ = {k: ax(0) for k in ks}
        here = m if d['rank'] == 0 else at(m, ax(0), p) if d['rank'] == 2 else at(m, ax(0))
        rows(R, B, site, l, ks, stp, N)
        if d['rank'] and ks:
            o = tidy_(stp)
            for k in ks:
                o = assume_facts(o, neq_facts(k, ax(0)))
            ok = same(o, here)
            R.ob('frame', '%s, loop at %s, other rows' % (site, l.loc.split(' ')[0]), verdict(ok, o), 'becomes %s' % show(o, 6)[:300])
            if not ok:
                raise Stop('other rows change')
        elif d['rank'] == 0 and h is not m and h.args[2:] != (ax(0),):
            raise Stop('not followed: %s' % show(t, 4))
        here = rewrite(here, sub_)
        s_ = tidy_(rewrite(stp, sub_))
        c_ = tidy_(rewrite(TRUE if l.cond is None else l.cond, sub_))
        i_ = rewrite(ini, sub_)
        for k in ks[:1]:
            i_ = assume_facts(i_, facts_of(gt0(ax(0)), False))
        i_ = tidy_(i_)
        if l.breaks:
            for bc_, loc, bst in l.breaks:
                if not leaves_unchanged(bst, m):
                    raise Stop('loop with other exits at %s' % loc)
                c_ = mand(c_, mnot_full(tidy_(rewrite(bc_, sub_))))
        if c_.op == 'any':
            # every row is updated while some row needs it: rows that do not need it must not change
            v, n, b = tm.open_binder(c_)
            one = tidy_(subst(b, {v: ax(0)}))
            if same(n, N) and same(assume_facts(s_, facts_of(one, False)), here):
                c_ = one
                s_ = assume_facts(s_, facts_of(one, True))
        if s_ is not here:
            if l.kind != 'While':
                raise Stop('accumulated in a loop at %s' % l.loc)
            out.append(('loop', value(c_, here), value(s_, here), l.loc.split(' ')[0]))
        t = i_
    raise Stop('chain too long')


def rows(R, B, site, l, ks, stp, n):
    """the iteration over rows covers all of them"""
    for k in ks:
        lo = next((q for q in B.I.loops.values() if q.iv is k), None)
        if lo is None or lo.n is None:
            continue
        where = '%s, loop at %s' % (site, lo.loc.split(' ')[0])
        R.ob('all-rows', where, verdict(same(lo.n, n), lo.n), '%s rows are visited instead of %s' % (show(lo.n), show(n)))
        for g in walk(stp):
            if g.op == 'eq0' and ax(0) in g.fv and k in g.fv:
                c = sub(mul(g.args[0], num(to_poly(g.args[0]).get(((ax(0), 1),), 1))), sub(ax(0), k))
                if is_num(c) and c is not ZERO:
                    R.ob('all-rows', where, False, 'iteration k visits row k %s: not all rows are corrected' % ('+ %s' % numval(neg(c))))
                    raise Stop('rows not aligned')


def leaves_unchanged(st_, m):
    return False


def run_chain(ch, en):
    en = dict(en)
    for g in ch:
        if g[0] == 'map':
            en[X] = ev(g[1], en)
        else:
            for _ in range(60):
                if not ev(g[1], en):
                    break
                en[X] = ev(g[2], en)
            else:
                raise Unknown('loop')
    return en[X]


def column_rule(R, B, p, kd):
    site = '%s, %s parameter %s' % (B.site, kd, show(p))
    move = periodic_move if kd == 'periodic' else reflective_move
    try:
        ch = chain(R, B, p, site)
    except Stop as x:
        R.ob('moves', site, None, str(x))
        return
    fin = {isfinite(X): TRUE, isnan(X): FALSE}
    ch = [(g[0],) + tuple(rewrite(z, fin) if isinstance(z, T) else z for z in g[1:]) for g in ch]
    bad = {}
    try:
        for q in PTS:
            en = env_of(q)
            y = run_chain(ch, en)
            if q[0] <= q[2] <= q[1] and y != q[2]:
                bad.setdefault('in-range-kept', (q, y))
            if not legit(move, en, y):
                bad.setdefault('moves', (q, y))
            if not q[0] <= y <= q[1]:
                bad.setdefault('in-range', (q, y))
    except Unknown:
        bad = {}
    goals = [(sub(H_, X), False), (sub(X, L_), False)]
    post = []
    kept = moves = True
    for g in ch:
        c, t = (TRUE, g[1]) if g[0] == 'map' else (g[1], g[2])
        ps = [z for cl in literals(c) for z in paths(t, tuple(cl))]
        kept = kept and all(x is X or contradictory(list(f) + goals) for f, x in ps)
        moves = moves and all(move(x) for f, x in ps)
        ps = [z for cl in literals(c) for z in paths(t, tuple(cl) + tuple(post))]
        keep = [f for f in dict.fromkeys(list(post) + (goals if g[0] == 'map' else []))
                if all(entails(fs_, rewrite(f[0], {X: leaf}), f[1]) for fs_, leaf in ps)]
        post = keep
        if g[0] == 'loop':
            lits = literals(mnot_full(c))
            if lits:
                post = keep + [f for f in lits[0] if all(any(z[0] is f[0] for z in y) for y in lits[1:])]
    got = dict(moves=moves, **{'in-range-kept': kept, 'in-range': all(entails(post, d) for d, s_ in goals)})
    for r, ok in got.items():
        w = bad.get(r)
        R.ob(r, site, True if ok else False if w else None,
             'with bounds [%s, %s] the value %s becomes %s' % (*w[0], w[1]) if w else 'stages %s' % [[show(z, 6)[:200] if isinstance(z, T) else z for z in g] for g in ch])


def legit(move, en, y):
    lo, hi, x = en[L_], en[H_], en[X]
    w = hi - lo
    if move is periodic_move:
        return ((y - x) / w).denominator == 1
    return ((y - x) / (2 * w)).denominator == 1 or ((y + x - 2 * lo) / (2 * w)).denominator == 1


def wiring_rule(R, bc):
    K = Kernel(Cfg(bc=bc))
    I, st = K.I, K.st
    sc_ = I.get_attr(st, K.S, 'scaler')
    for f in ('periodic', 'reflective'):
        v = I.get_attr(st, sc_, f)
        want = sym(f) if bc in (True, f) else NONE
        R.ob('wiring', 'Sampler.scaler.%s (given: %s)' % (f, 'both' if bc is True else bc), True if v is want else verdict(False, v) if isinstance(v, T) else None,
             'the reparameterisation uses %s' % (show(v) if isinstance(v, T) else v))


def kernel_rule(R, cfg):
    K = kernel(R, cfg)
    record_rule(Only(R, 'record'), K)
    A = Accept(K)
    has = tm.contains(A.new, lambda y: y.op == 'app' and y.args[0] == 'bc')
    R.ob('applied', '%s proposal' % K.site, verdict(has, A.new), 'the proposed position is %s' % show(A.new, 7)[:300])
