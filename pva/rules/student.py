"""The fit of the multivariate Student-t distribution (C26)."""
from fractions import Fraction
from .runlevel import *
from ..values import *
from ..model import Model

SPEC = '''
import numpy as np
from scipy import special

def weights(data, mean, scale, nu):
    n, dim = data.shape
    diffs = data.T - mean[:, None]
    delta = np.sum(diffs * np.linalg.solve(scale, diffs), 0)
    return diffs, (nu + dim) / (nu + delta)

def score(data, mean, scale, nu):
    n, dim = data.shape
    diffs, w = weights(data, mean, scale, nu)
    return (-special.psi(nu / 2) + np.log(nu / 2) + np.sum(np.log(w)) / n - np.sum(w) / n + 1
            + special.psi((nu + dim) / 2) - np.log((nu + dim) / 2))

def step(data, mean, scale, nu):
    n, dim = data.shape
    diffs, w = weights(data, mean, scale, nu)
    return np.sum(w * data.T, 1) / np.sum(w), np.dot(w * diffs, diffs.T) / n

def start(data):
    n, dim = data.shape
    return np.median(data, 0), np.cov(data.T) * (n - 1) / n + np.diag(np.var(data, axis=0)) / n
'''

FINDERS = ('bisect', 'brentq', 'brenth', 'ridder', 'toms748', 'newton')


class Student:
    def __init__(self, **kw):
        self.M = M = Model(ROOT, sources={'pocomc/__pva_spec__.py': SPEC})
        I, st = self.I, self.st = M.I, M.st
        self.n = dimsym('n')
        self.X = sym('data')
        self.roots = {}
        for f in FINDERS:
            I.hooks['scipy.optimize.' + f] = self.h_root
            I.hooks['scipy.optimize._zeros_py.' + f] = self.h_root
        I.hooks['scipy.optimize.root_scalar'] = self.h_rs
        self.x = I.new_arr(st, (self.n, D), at(self.X, ax(0), ax(1)))
        self.tol, self.maxit = scalar(I, 'tol', pos=True), dimsym('maxit')
        self.ret = I.call(st, I.module('pocomc.student')['fit_mvstud'], [self.x], {'tolerance': self.tol, 'max_iter': self.maxit}, None)

    def h_root(self, I, st, f, args, kw, node):
        fn = args[0] if args else kw.get('f') or kw.get('func')
        nu = sym('nu_arg')
        I.scalars.add(nu)
        register(nu, POS)
        s2 = st.clone()
        val = I.term(s2, I.call(s2, fn, [nu] + list((kw.get('args') or TupleV([])).items if isinstance(kw.get('args', TupleV([])), TupleV) else []), {}, None))
        k = I.stable('root', node)
        r = mk('rnd', k, *[v for v, _ in I.ivs])
        I.scalars.add(r)
        register(r, POS)
        br = [a for a in args[1:3]] + [kw.get(q) for q in ('a', 'b') if q in kw]
        self.roots[k] = (r, val, nu, I.loc(node), br)
        return r

    def h_rs(self, I, st, f, args, kw, node):
        r = self.h_root(I, st, f, args, kw, node)
        o = I.alloc(st, ObjC(None, {'root': r, 'converged': TRUE}))
        return o



def recurrences(lp, t):
    return [m for m in lp.mus if isinstance(t, T) and m in set(walk(t))]


def elem_step(d):
    """step of a recurrence over ax(..)"""
    return elem(d['step'])


def fit_rule(R):
    F = Student()
    I, st = F.I, F.st
    site = 'student.fit_mvstud'
    R.unit(site, I)
    if len(F.roots) != 1:
        R.ob('score-equation', site, None, '%d root searches' % len(F.roots))
        return
    root, val, nu, loc, br = list(F.roots.values())[0]
    leaves = []

    def peel(v):
        if isinstance(v, Choice):
            peel(v.a)
            peel(v.b)
        else:
            leaves.append(v)
    if not isinstance(F.ret, TupleV) or len(F.ret.items) != 3:
        R.ob('iteration', site, None, 'does not return a triple')
        return
    out = []
    for v in F.ret.items[:2]:
        leaves.clear()
        peel(v)
        es = [I.arr(st, q) for q in leaves if isinstance(q, Ref)]
        if len(es) != len(leaves) or not es:
            R.ob('iteration', site, None, 'returned value not understood')
            return
        out.append(es)
    (m0, S0) = [x[0] for x in out]
    if len(m0[0]) != 1 or len(S0[0]) != 2:
        R.ob('returned', site, False, 'returns shapes %s, %s for mean and scale matrix' % ([show(q) for q in m0[0]], [show(q) for q in S0[0]]))
        return
    lp = None
    for info in I.loops.values():
        if recurrences(info, m0[1]) and recurrences(info, S0[1]):
            lp = info
    if lp is None:
        R.ob('iteration', site, None, 'no iteration found')
        return
    mm, ms = recurrences(lp, m0[1]), recurrences(lp, S0[1])
    for q, es in zip(('mean', 'scale matrix'), out):
        ok = all(same(e[1], es[0][1]) for e in es)
        R.ob('returned', '%s %s' % (site, q), verdict(ok, *[e[1] for e in es]), '' if ok else 'the %s returned early and at the end differ' % q)
    if len(mm) != 1 or len(ms) != 1:
        R.ob('iteration', site, None, 'mean and scale matrix are not one recurrence each')
        return
    mean, scale_ = I.new_arr(st, (D,), m0[1]), I.new_arr(st, (D, D), S0[1])
    env = I.module('pocomc.__pva_spec__')
    s2 = st.clone()
    sc = I.term(s2, I.call(s2, env['score'], [F.x, mean, scale_, nu], {}, None))
    ok = same(val, sc) or same(val, neg(sc))
    R.ob('score-equation', loc, verdict(ok, val), '' if ok else 'the degrees of freedom solve %s = 0, expected %s = 0' % (show(val, 6)[:500], show(sc, 6)[:500]))
    # the degrees of freedom of an iteration
    nus = [m for m, d in lp.mus.items() if isinstance(d['step'], T) and d['rank'] == 0 and root in set(walk(d['step'])) and
           (d['step'] is root or d['step'].op == 'ite')]
    if isinstance(F.ret.items[2], T):
        nus = [m for m in nus if m in leaves_of(F.ret.items[2], None)] or nus
    if len(nus) != 1:
        R.ob('degrees-of-freedom', site, None, '%d recurrences for the degrees of freedom' % len(nus))
        return
    ns = lp.mus[nus[0]]['step']
    if ns is not root:
        c, a, b = ns.args
        if a is not root:
            c, a, b = mnot(c), b, a
        good = a is root and b is INF
        R.ob('degrees-of-freedom', site, verdict(good, ns), '' if good else 'the new degrees of freedom are %s' % show(ns, 4)[:300])
        if not good:
            return
        top = [I.term(st, q) for q in br if q is not None]
        top = [q for q in top if is_num(q) and numval(q) >= 1000]
        if len(top) == 1:
            resolved(R, site, I.term(s2, I.call(s2, env['score'], [F.x, mean, scale_, top[0]], {}, None)), top[0])
            g = I.term(s2, I.call(s2, env['score'], [F.x, mean, scale_, top[0]], {}, None))
            ok = same(c, lt(g, ZERO)) or same(c, le(g, ZERO))
            R.ob('degrees-of-freedom', site + ' infinite', verdict(ok, c), '' if ok else
                 'a finite root is searched if %s, expected: if the score at %s is negative' % (show(c, 5)[:300], show(top[0])[:12]))
        else:
            R.ob('degrees-of-freedom', site + ' infinite', None, 'bracket of the root search not understood')
    dm, ds = lp.mus[mm[0]], lp.mus[ms[0]]
    a0, b0 = [I.arr(s2, q)[1] for q in I.call(s2, env['start'], [F.x], {}, None).items]
    for what, base, acc, want in (('mean', mm[0], m0[1], a0), ('scale matrix', ms[0], S0[1], b0)):
        ini = lp.mus[base]['init']
        got = renew(acc, base, ini) if isinstance(ini, T) else None
        if got is None:
            R.ob('start', '%s %s' % (site, what), None, 'initial value not understood')
            continue
        ok = same(got, want)
        R.ob('start', '%s %s' % (site, what), verdict(ok, got), '' if ok else 'the initial %s is %s, expected %s' % (what, show(got, 7)[:400], show(want, 7)[:400]))
    fin = lambda t: rewrite(t, {ns: root}) if ns is not root else t
    wm, wS = I.call(s2, env['step'], [F.x, mean, scale_, root], {}, None).items
    wm, wS = I.arr(s2, wm)[1], I.arr(s2, wS)[1]
    for what, base, acc, want, n in (('mean', mm[0], m0[1], wm, 1), ('scale matrix', ms[0], S0[1], wS, 2)):
        d = lp.mus[base]
        stp = elem_step(d)
        if stp is None:
            R.ob('iteration', '%s %s' % (site, what), None, 'recurrence not described')
            continue
        # the accessor applied to the new value
        got = renew(acc, base, fin(stp))
        if got is None:
            R.ob('iteration', '%s %s' % (site, what), None, 'the returned %s is %s' % (what, show(acc, 5)))
            continue
        ok = same(got, want)
        R.ob('iteration', '%s %s' % (site, what), verdict(ok, got), '' if ok else 'the new %s is %s, expected %s' % (what, show(got, 7)[:500], show(want, 7)[:500]))
    # ending
    v = I.term(st, F.ret.items[2])
    ok = all(any(same(t, q) for q in (nus[0], INF)) for t in leaves_of(v, ns))
    R.ob('returned', site + ' degrees of freedom', verdict(ok, v), '' if ok else 'returns %s' % show(v, 4)[:300])
    if ns is not root:
        # infinite degrees of freedom end the iteration, a root does not
        c = ns.args[0]
        fin_ = ns.args[1] is root
        has_root = rewrite(rewrite(v, {c: TRUE if fin_ else FALSE}), {root: num(7)})
        none = rewrite(v, {c: FALSE if fin_ else TRUE})
        ok = not any(t is num(7) for t in leaves_of(has_root, ns)) and any(t is INF for t in leaves_of(none, ns))
        # a test written otherwise (isinf, isfinite, ...) is left undecided
        und = any(x.op in ('isinf', 'isfinite', 'isnan', 'any', 'all') or (x.op == 'call')
                  for w in (has_root, none) for x in walk(w))
        R.ob('returned', site + ' early end', True if ok else None if und else verdict(ok, v), '' if ok else
             'the fit ends early with finite degrees of freedom or goes on with infinite ones: returns %s' % show(v, 4)[:300])
    ex = lp.exitcond if lp.exitcond is not None else FALSE
    for c, l, _ in lp.breaks:
        ex = mor(ex, c)
    last = [m for m, d in lp.mus.items() if isinstance(d['step'], T) and same(d['step'], nus[0])]
    cnt = [m for m, d in lp.mus.items() if isinstance(d['step'], T) and d['rank'] == 0 and same(d['step'], add(m, ONE))]
    if lp.kind == 'While' and not lp.breaks and len(last) == 1 and len(cnt) == 1:
        want = mor(le(mabs(sub(last[0], nus[0])), F.tol), le(F.maxit, sub(cnt[0], lp.mus[cnt[0]]["init"])))
        ok = same(ex, want)
        R.ob('stopping', lp.loc, verdict(ok, ex), '' if ok else 'the iteration ends if %s, expected %s' % (show(ex, 5)[:300], show(want, 5)[:300]))
    elif [m for m in recurrences(lp, ex) if m is not nus[0] and lp.mus[m]['rank'] == 0 and isinstance(lp.mus[m]['step'], T) and
          (lp.mus[m]['step'] is ns or lp.mus[m]['step'] is root)]:
        R.ob('stopping', lp.loc, False, 'convergence is judged by comparing the new degrees of freedom with themselves')
    else:
        R.ob('stopping', lp.loc, None, 'loop of another form')


ABSORB = 10 ** 100


def absorb(t):
    """double precision: next to a constant beyond 1e100 every sample-sized addend is rounded away"""
    def go(t):
        if not t.args or is_num(t):
            return t
        r = rebuild(t, go)
        if r.op in ('psi', 'app') and 'psi' in (r.op, r.args[0]) and is_num(r.args[-1]) and numval(r.args[-1]) > ABSORB:
            return log(r.args[-1])
        d = to_poly(r)
        c = d.get((), 0)
        if len(d) > 1 and abs(c) > ABSORB and all(abs(v) * ABSORB < abs(c) for m, v in d.items() if m):
            return num(c)
        return r
    return go(t)


def resolved(R, site, g, top):
    """whether the degrees of freedom are infinite has to depend on the samples"""
    a = absorb(g)
    d = to_poly(a)
    logs = {m: v for m, v in d.items() if m and all(q.op == 'log' and is_num(q.args[0]) for q, e in m)}
    rest = {m: v for m, v in d.items() if m and m not in logs and abs(v) > Fraction(1, ABSORB)}
    bad = not rest and any(q.op == 'at' or q.op == 'sum' for q in walk(g))
    R.ob('resolved', site + ': infinite degrees of freedom', not bad, '' if not bad else
         'the score at %.0e does not depend on the samples in double precision (every term next to it is rounded away), so '
         'whether the degrees of freedom are infinite is the same for all samples' % float(numval(top)))


def leaves_of(v, ns):
    if v is ns:
        return [INF]
    if v.op == 'ite':
        return leaves_of(v.args[1], ns) + leaves_of(v.args[2], ns)
    return [v]


def renew(acc, base, new):
    """acc reads elements of base; the same elements of new (a term over ax(..))"""
    def go(t):
        if t.op == 'at' and t.args[0] is base:
            m = {ax(k): q for k, q in enumerate(t.args[1:])}
            tmp = {ax(k): fresh_sym('ix') for k in range(len(m))}
            r = subst(new, {a: tmp[a] for a in m})
            return rewrite(r, {tmp[a]: m[a] for a in m})
        return rebuild(t, go) if t.args and base in set(walk(t)) else t
    if base not in set(walk(acc)):
        return None
    r = go(acc)
    return r


def geometry_rule(R, weighted):
    M = Model(ROOT)
    I, st = M.I, M.st
    n = sym('fitted_nu')
    I.scalars.add(n)
    res = {}

    def fit(I, st, f, args, kw, node):
        res['m'] = I.new_arr(st, (D,), at(sym('fitted_mean'), ax(0)))
        res['c'] = I.new_arr(st, (D, D), at(sym('fitted_cov'), ax(0), ax(1)))
        return TupleV([res['m'], res['c'], n])
    I.hooks['fit_mvstud'] = fit
    k = dimsym('n')
    th = I.new_arr(st, (k, D), at(sym('theta'), ax(0), ax(1)))
    w = sym('w')
    register(w, NONNEG)
    kw = dict(weights=I.new_arr(st, (k,), at(w, ax(0)))) if weighted else {}
    G = I.call(st, I.module('pocomc.geometry')['Geometry'], [], {}, None)
    I.call_attr(st, G, 'fit', [th], kw, None)
    site = 'Geometry.fit(%s)' % ('weights' if weighted else 'no weights')
    R.unit(site, I)
    v = I.term(st, I.get_attr(st, G, 't_nu'))
    fin = assume_facts(v, facts_of(tm.isfinite(n), True))
    inf_ = assume_facts(v, facts_of(tm.isfinite(n), False))
    ok = same(fin, n)
    R.ob('finite-tails', site + ' finite', verdict(ok, fin), '' if ok else 'a finite number of degrees of freedom becomes %s' % show(fin, 4)[:200])
    ok = is_num(inf_) and numval(inf_) >= 1000
    R.ob('finite-tails', site + ' infinite', verdict(ok, inf_), '' if ok else 'infinitely many degrees of freedom become %s' % show(inf_, 4)[:200])
    for a, q in (('t_mean', 'fitted_mean'), ('t_cov', 'fitted_cov')):
        s, e = I.arr(st, I.get_attr(st, G, a))
        want = at(sym(q), *[ax(i) for i in range(len(s))])
        ok = same(e, want)
        R.ob('finite-tails', '%s %s' % (site, a), verdict(ok, e), '' if ok else '%s is %s' % (a, show(e, 4)[:200]))
