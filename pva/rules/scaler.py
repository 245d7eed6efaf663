"""The reparameterisation (pocomc/scaler.py) and its boundary conditions."""
from .runlevel import *
from .tools import rewrite_exact, split_affine
from ..interval import Ival

LO, HI = lambda j: at(BOUNDS, j, ZERO), lambda j: at(BOUNDS, j, ONE)
CASES = (('two-sided', True, True), ('lower bound only', True, False), ('upper bound only', False, True), ('unbounded', False, False))


def case_facts(j, lo, hi):
    fs = {}
    facts_of(isfinite(LO(j)), lo, fs)
    facts_of(isfinite(HI(j)), hi, fs)
    facts_of(gt0(sub(D, j)), True, fs)
    for b in (LO(j), HI(j)):
        facts_of(isnan(b), False, fs)
        facts_of(isinf(b), not (lo if b is LO(j) else hi), fs)
    return fs


def at_case(t, j, lo, hi):
    """t for a parameter j of the given kind; that there is such a parameter is known as well"""
    fs = case_facts(j, lo, hi)
    known = {}
    for y in walk(t):
        if y.op in ('any', 'all') and y.args[0] is D:
            v, n, body = tm.open_binder(y)
            b = assume_facts(subst(body, {v: j}), fs)
            if b is (TRUE if y.op == 'any' else FALSE):
                known[y] = b
    return assume_facts(rewrite(t, known) if known else t, fs)


def bb(x):
    return TRUE if x else FALSE


class Scaler:
    def __init__(self, transform, scale, diagonal, bounds=True, **kw):
        self.M = M = Model(ROOT)
        I, st = self.I, self.st = M.I, M.st
        env = I.module('pocomc.scaler')
        a = [D]
        if bounds:
            a.append(I.new_arr(st, (D, num(2)), at(BOUNDS, ax(0), ax(1))))
        self.S = I.call(st, env['Reparameterize'], a, dict(transform=const(transform), scale=bb(scale), diagonal=bb(diagonal), **kw), None)
        self.name = '%s%s' % (transform, ', affine, %s' % ('diagonal' if diagonal else 'full covariance') if scale else '')

    def fit(self):
        I, st = self.I, self.st
        I.call_attr(st, self.S, 'fit', [I.new_arr(st, (N, D), at(sym('xfit'), ax(0), ax(1)))], {}, None)
        return self

    def inverse(self, st=None):
        I, st = self.I, st or self.st
        u = I.new_arr(st, (N, D), at(sym('uu'), ax(0), ax(1)))
        r = I.call_attr(st, self.S, 'inverse', [u], {}, None)
        return r.items[0], r.items[1]

    def forward(self, x, st=None, **kw):
        return self.I.call_attr(st or self.st, self.S, 'forward', [x], kw, None)


def unclip(t, found):
    """drop clips of a value to an interval"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('min', 'max') and len(x.args) == 2:
            c = [a for a in x.args if is_num(a)]
            if len(c) == 1:
                o = [a for a in x.args if not is_num(a)][0]
                found.append((x.op, numval(c[0])))
                r = memo[x] = go(o)
                return r
        r = memo[x] = rebuild(x, go) if x.args else x
        return r
    return go(t)


EPS = 1e-9


def clip_ok(cl):
    """the clip only touches values within EPS of 0 and 1"""
    return all((op == 'max' and 0 <= v <= EPS) or (op == 'min' and 1 - EPS <= v <= 1) for op, v in cl)


def summand(ld):
    """ld = sum over j < D of g(j) -> (g(ax(1)), remaining terms such as log-determinants of matrices)"""
    g, rest = ZERO, ZERO
    j = ax(1)
    for m, c in to_poly(ld).items():
        t = tm.from_poly({m: c})
        ss = [(f, e) for f, e in m if f.op == 'sum' and e == 1 and f.args[0] is D]
        if ss:
            f = ss[0][0]
            v, n, body = tm.open_binder(f)
            other = tm.from_poly({tuple(x for x in m if x[0] is not f): c})
            g = add(g, mul(other, subst(body, {v: j})))
        elif any(f is D and e == 1 for f, e in m):
            g = add(g, div(t, D))
        else:
            rest = add(rest, t)
    return g, rest


def tidy(t, j):
    """two-sided: express the upper bound by the width"""
    w = sym('width')
    register(w, NONNEG)
    register(w, POS)
    return rewrite_exact(t, HI(j), add(LO(j), w)), w


def bijection_rule(R, tr, scale, diag):
    A = Scaler(tr, scale, diag).fit()
    I, st = A.I, A.st
    x, ld = A.inverse()
    f = A.forward(x, check_input=FALSE)
    R.unit('Reparameterize(%s)' % A.name, I)
    (xs, xe), (ls, le), (fs_, fe) = I.arr(st, x), I.arr(st, ld), I.arr(st, f)
    site = 'Reparameterize(%s)' % A.name
    ok = len(xs) == 2 and same(xs[0], N) and same(xs[1], D) and len(ls) == 1 and same(ls[0], N)
    R.ob('shape', site, verdict(ok, *xs, *ls), 'inverse returns shapes %s and %s' % ([show(q, 3) for q in xs], [show(q, 3) for q in ls]))
    i, j = ax(0), ax(1)
    U = lambda k: at(sym('uu'), i, k)
    g, rest = summand(le)
    for nm, lo, hi in CASES:
        fs = case_facts(j, lo, hi)
        where = '%s, %s' % (site, nm)
        X = at_case(xe, j, lo, hi)

        def jac():
            G = at_case(g, j, lo, hi)
            X_, G_ = X, G
            if lo and hi:
                X_, w = tidy(X, j)
                G_, w = tidy(G, j)
            mats = [y for y in walk(X_) if y.op == 'sum' and y.args[0] is D and sym('uu') in y.lv]
            if not mats:
                z = fresh_sym('z')
                d = tm.deriv(rewrite_exact(X_, U(j), z), z)
                if sym('uu') in d.lv:
                    R.ob('log-jacobian', where, verdict(False, d), 'x depends on other coordinates')
                    return
                d = rewrite(d, {z: U(j)})
                extra = ZERO
            else:
                Sj = max(mats, key=lambda y: y.id)
                z = fresh_sym('z')
                Xz = rewrite_exact(X_, Sj, z)
                if sym('uu') in Xz.lv:
                    R.ob('log-jacobian', where, None, 'map not recognised: %s' % show(X_, 6)[:300])
                    return
                d = rewrite_exact(tm.deriv(Xz, z), z, Sj)
                v, n, body = tm.open_binder(Sj)
                q = div(body, U(v))
                L = q.args[0] if q.op == 'at' and len(q.args) == 3 and q.args[1] is j and q.args[2] is v else None
                if L is None:
                    R.ob('log-jacobian', where, None, 'linear map not recognised: %s' % show(Sj, 6)[:300])
                    return
                extra = app('logabsdet', L)
            want = log(mabs(d)) if not positive(d) else log(d)
            ok = same(G_, want) or same(G_, half_log(d))
            if not ok and mats and L.op == 'app' and L.args[0] == 'chol':
                # log-determinant of a triangular matrix from its diagonal
                ll = log(at(L, j, j))
                if same(G_, add(want, ll)) or same(G_, add(half_log(d), ll)):
                    ok, extra = True, ZERO
            R.ob('log-jacobian', where, verdict(ok, G_, want), '' if ok else 'the returned log-Jacobian has %s per parameter, the derivative '
                 'of the inverse map gives %s' % (show(G_, 7)[:300], show(want, 7)[:300]))
            if nm == 'unbounded':
                ok = same(rest, extra) or bool(mats) and triangular(rest, extra)
                R.ob('log-jacobian', site + ' matrix part', verdict(ok, rest), '' if ok else 'the remaining part is %s, expected %s' % (
                    show(rest, 6)[:300], show(extra, 6)[:300]))
        R.guard('log-jacobian', where, jac)

        def trip():
            F = fe
            found = []
            if not diag and scale:
                ok = roundtrip_full(F, U, i, j, found)
                R.ob('round-trip', where, ok if ok else verdict(False, F) if ok is False else None, '' if ok else
                     'forward after inverse gives %s' % show(F, 6)[:400])
                return
            F = at_case(F, j, lo, hi)
            if lo and hi:
                F, _ = tidy(F, j)
            # the clip of the forward map acts on the point, not on the statistics of the fit
            F2 = F
            ok = same(F2, U(j))
            if not ok:
                F2 = outer_unclip(F, found)
                ok = same(F2, U(j)) and clip_ok(found)
            R.ob('round-trip', where, verdict(ok, F2), '' if ok else 'forward after inverse gives %s instead of the latent coordinate%s' % (
                show(F2, 6)[:400], ' (clips %s)' % found if found and not clip_ok(found) else ''))
        R.guard('round-trip', where, trip)

        def inside():
            if lo and hi:
                Y, w = tidy(X, j)
                p = div(sub(Y, LO(j)), w)
                a, b = rng(p)
                ok = a >= 0 and b <= 1
                msg = 'position between the bounds is %s, which ranges over [%g, %g]' % (show(p, 6)[:300], a, b)
            elif lo:
                ok = positive(sub(X, LO(j))) or rng(sub(X, LO(j)))[0] >= 0
                msg = 'x - lower = %s' % show(sub(X, LO(j)), 6)[:300]
            elif hi:
                ok = positive(sub(HI(j), X)) or rng(sub(HI(j), X))[0] >= 0
                msg = 'upper - x = %s' % show(sub(HI(j), X), 6)[:300]
            else:
                return
            R.ob('within-bounds', where, verdict(ok, X), '' if ok else msg)
        R.guard('within-bounds', where, inside)


class Ival2(Ival):
    def go(self, t):
        if t.op == 'app' and t.args[0] == 'erf':
            a, b = self(t.args[1])
            f = lambda x: math.erf(x)
            return f(a), f(b)
        if t.op == 'app' and t.args[0] == 'erfinv':
            a, b = self(t.args[1])
            return inv_erf(a), inv_erf(b)
        if t.op == 'app' and t.args[0] in ('expit', 'ndtr', 'sigmoid'):
            return 0.0, 1.0
        return super().go(t)


def inv_erf(y):
    if y <= -1:
        return -math.inf
    if y >= 1:
        return math.inf
    lo, hi = -7.0, 7.0
    for _ in range(80):
        m = (lo + hi) / 2
        if math.erf(m) < y:
            lo = m
        else:
            hi = m
    return lo


import math


def rng(t):
    return Ival2({})(t)


def half_log(d):
    """log|d| via the square"""
    return scale(log(power(d, 2)), Fraction(1, 2))


from fractions import Fraction


def triangular(rest, extra):
    """log-determinant of a Cholesky factor as the sum of the logs of its diagonal"""
    L = extra.args[1]
    if not (L.op == 'app' and L.args[0] == 'chol'):
        return False
    v = fresh_iv('v')
    return same(rest, mk_sum(D, v, log(at(L, v, v)))) or same(rest, scale(app('logabsdet', L.args[1]), Fraction(1, 2)))


def outer_unclip(t, found):
    """remove the clips that act on a value that depends on the latent point"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('min', 'max') and len(x.args) == 2 and sym('uu') in x.lv:
            c = [a for a in x.args if is_num(a)]
            if len(c) == 1:
                o = [a for a in x.args if not is_num(a)][0]
                found.append((x.op, float(numval(c[0]))))
                r = memo[x] = go(o)
                return r
        r = memo[x] = rebuild(x, go) if x.args and sym('uu') in x.lv else x
        return r
    return go(t)


def roundtrip_full(F, U, i, j, found):
    """forward(inverse(u))_j = sum_k P[j,k] (f_k^-1(f_k(v_k)) - mu_k), v = mu + M u, P = inv(M)"""
    # gather the linear combination: every term must be a sum over k < D with the factor P[j,k]
    tot = ZERO
    P = None
    k = fresh_iv('k')
    for m, c in to_poly(F).items():
        ss = [(f, e) for f, e in m if f.op == 'sum' and e == 1 and f.args[0] is D]
        if len(ss) != 1:
            return False
        v, n, body = tm.open_binder(ss[0][0])
        other = tm.from_poly({tuple(x for x in m if x[0] is not ss[0][0]): c})
        b = mul(other, subst(body, {v: k}))
        mats = {y.args[0] for y in walk(b) if y.op == 'at' and len(y.args) == 3 and y.args[1] is j and y.args[2] is k}
        if len(mats) != 1:
            return None
        p = mats.pop()
        if P is None:
            P = p
        if p is not P:
            return None
        tot = add(tot, div(b, at(P, j, k)))
    if P is None or not (P.op == 'app' and P.args[0] == 'inv'):
        return None if P is None else False
    M_ = P.args[1]
    ok = True
    for nm, lo, hi in CASES:
        fs = case_facts(k, lo, hi)
        t = at_case(tot, k, lo, hi)
        if lo and hi:
            t, _ = tidy(t, k)
        t = outer_unclip(t, found)
        q = fresh_iv('q')
        want = mk_sum(D, q, mul(at(M_, k, q), U(q)))
        if not same(t, want):
            return False
    return clip_ok(found)


def edge_rule(R, tr):
    A = Scaler(tr, False, True).fit()
    I, st = A.I, A.st
    R.unit('Reparameterize(%s) edges' % A.name, I)
    i, j = ax(0), ax(1)
    f = A.forward(I.new_arr(st, (N, D), at(sym('xx'), i, j)), check_input=FALSE)
    s, e = I.arr(st, f)
    e = at_case(e, j, True, True)
    for nm, b in (('lower', LO(j)), ('upper', HI(j))):
        t = rewrite_exact(e, at(sym('xx'), i, j), b)
        a, c = rng(t)
        ok = a > -math.inf and c < math.inf
        R.ob('edge-finite', 'Reparameterize(%s), two-sided, %s bound' % (A.name, nm), verdict(ok, t), '' if ok else
             'a point on the bound maps to %s' % show(t, 6)[:300])


def reject_rule(R, tr='probit'):
    for what in ('default', 'on', 'off'):
        A = Scaler(tr, True, True).fit()
        I = A.I
        st = A.st
        st.pc = TRUE
        n0 = len(I.events)
        i, j = ax(0), ax(1)
        x = I.new_arr(st, (N, D), at(sym('xx'), i, j))
        kw = {} if what == 'default' else dict(check_input=bb(what == 'on'))
        try:
            A.forward(x, **kw)
            certain = False
        except PyRaise:
            certain = True
        ev = [e for e in I.events[n0:] if e.kind == 'raise']
        site = 'Reparameterize.forward(check_input=%s)' % what
        if what == 'off':
            R.ob('bounds-check', site, not ev and not certain, 'raises at %s' % [e.loc for e in ev] if ev else '')
            continue
        good = [e for e in ev if e.name == 'ValueError']
        raised = mor(*[e.pc for e in good]) if good else FALSE
        a, b = fresh_iv('a'), fresh_iv('b')
        for nm, lo, hi in CASES:
            # some point (p, q) violates a bound of parameter q
            p, q = sym('row'), sym('col')
            X = at(sym('xx'), p, q)
            for side, bnd, c in (('lower', lo, lt(X, LO(q))), ('upper', hi, lt(HI(q), X))):
                if not bnd:
                    continue
                ok = instance_implies(raised, c, p, q, case_facts(q, lo, hi))
                R.ob('bounds-check', '%s, %s, below/above %s bound' % (site, nm, side), verdict(ok, raised), '' if ok else
                     'ValueError is raised when %s, which does not cover a point outside the %s bound' % (show(raised, 7)[:300], side))
        # a point inside every bound is accepted
        inside = accept_inside(raised)
        R.ob('bounds-check', site + ' accepts points within the bounds', verdict(inside, raised), '' if inside else
             'raised when %s' % show(raised, 7)[:300])


def instance_implies(c, given, p, q, facts):
    """given(p, q) implies c, reading existential quantifiers over rows and columns at (p, q)"""
    def inst(t):
        if t.op in ('any',):
            v, n, body = tm.open_binder(t)
            if n is N:
                return inst(subst(body, {v: p}))
            if n is D:
                return inst(subst(body, {v: q}))
            return t
        if t.op in ('and', 'or'):
            return (mand if t.op == 'and' else mor)(*[inst(a) for a in t.args])
        if t.op == 'not' and t.args[0].op == 'all':
            v, n, body = tm.open_binder(t.args[0])
            w = p if n is N else q if n is D else None
            if w is not None:
                return inst(mnot(subst(body, {v: w})))
        return t
    k = assume_facts(inst(c), facts)
    g = assume_facts(given, facts)
    return implies(g, k)


def accept_inside(c):
    """with every coordinate within its bounds (given as finite or infinite values) the condition is false"""
    def go(t):
        if t.op == 'any' or (t.op == 'not' and t.args[0].op == 'all'):
            b = t if t.op == 'any' else t.args[0]
            v, n, body = tm.open_binder(b)
            body = body if t.op == 'any' else mnot(body)
            return mk_any(n, v, go(body))
        if t.op in ('and', 'or'):
            return (mand if t.op == 'and' else mor)(*[go(a) for a in t.args])
        fs = {}
        for y in walk(t):
            if y.op == 'at' and y.args[0] is sym('xx'):
                j = y.args[2]
                for bnd in (LO(j), HI(j)):
                    facts_of(isnan(bnd), False, fs)
                facts_of(ge0(sub(y, LO(j))), True, fs)
                facts_of(ge0(sub(HI(j), y)), True, fs)
        return assume_facts(assume_facts(t, fs), fs)
    return go(c) is FALSE


def mk_any(n, v, b):
    return FALSE if b is FALSE else tm.binder('any', n, v, b)


def default_rule(R):
    """no bounds: the map without scaling is the identity"""
    for tr in ('probit', 'logit'):
        A = Scaler(tr, False, True, bounds=False)
        I, st = A.I, A.st
        x, ld = A.inverse()
        R.unit('Reparameterize(no bounds, %s)' % tr, I)
        e = subst(I.arr(st, x)[1], {})
        fs = {}
        facts_of(gt0(sub(D, ax(1))), True, fs)
        e = assume_facts(e, fs)
        ok = same(e, at(sym('uu'), ax(0), ax(1)))
        R.ob('round-trip', 'Reparameterize(bounds=None, %s)' % tr, verdict(ok, e), '' if ok else 'x = %s' % show(e, 6)[:200])
