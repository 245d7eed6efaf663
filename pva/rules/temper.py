"""Temperature ladder, importance weights, evidence and call accounting, decided on Sampler.run."""
from .runlevel import *
from .kernel2 import liks

# ------------------------------------------------------------------ estimator of the persistent sampler
class Est:
    """reference formulas over a history given by logl(i, k), beta(i), logz(i), i < T, k < n"""

    def __init__(self, logl, beta, logz, T, n):
        self.logl, self.beta, self.logz, self.T, self.n = logl, beta, logz, T, n

    def logW(self, i, k, b):
        """unnormalised log weight of particle k of iteration i at inverse temperature b"""
        t = fresh_iv('t')
        l = self.logl(i, k)
        mix = mk_sum(self.T, t, exp(sub(mul(l, self.beta(t)), self.logz(t))))
        return sub(mul(b, l), sub(log(mix), log(self.T)))

    def total(self, f):
        i, k = fresh_iv('i'), fresh_iv('k')
        return mk_sum(self.T, i, mk_sum(self.n, k, f(i, k)))

    def logZ(self, b):
        s = self.total(lambda i, k: exp(self.logW(i, k, b)))
        return sub(log(s), add(log(self.T), log(self.n)))

    def w(self, i, k, b):
        """normalised weight"""
        return div(exp(self.logW(i, k, b)), self.total(lambda a, c: exp(self.logW(a, c, b))))

    def ess(self, b):
        s = self.total(lambda i, k: exp(self.logW(i, k, b)))
        return div(mul(s, s), self.total(lambda i, k: exp(scale(self.logW(i, k, b), 2))))

    def uss(self, b, kk=None):
        kk = mul(self.T, self.n) if kk is None else kk
        return self.total(lambda i, k: sub(ONE, tm.tpow(sub(ONE, self.w(i, k, b)), kk)))

    def metric(self, name, b):
        return self.ess(b) if name == 'ess' else self.uss(b)


def hist(X, st, name):
    I = X.I
    st = st.clone()
    P = I.get_attr(st, X.S, 'particles')
    v = I.call_attr(st, P, 'get', [const(name)], {}, None)
    return I.arr(st, v)


def est_of(X, st):
    def f(name):
        s, e = hist(X, st, name)
        return s, lambda *ix: subst(e, {ax(q): t for q, t in enumerate(ix)})
    sl, fl = f('logl')
    sb, fb = f('beta')
    sz, fz = f('logz')
    return Est(fl, fb, fz, sb[0], sl[1] if len(sl) > 1 else NA), sb[0]


class View:
    """the main loop of a run and what one iteration adds to the history"""

    def __init__(self, X):
        self.X = X
        ks = [e for e in X.I.events if e.kind == 'kernel']
        if not ks:
            raise ValueError('no MCMC stage found in Sampler.run')
        self.k = ks[-1]
        if not self.k.loops:
            raise ValueError('the MCMC stage is not in a loop')
        self.main = X.I.loops[self.k.loops[0]]
        self.head, self.end, self.start = self.main.head, self.main.end, self.main.start
        self.est, self.T = est_of(X, self.head)

    def rec(self, name):
        """(value recorded by one iteration, history element function at the head)"""
        s, e = hist(self.X, self.end, name)
        return subst(e, {ax(0): self.T})

    def last(self, name):
        s, e = hist(self.X, self.head, name)
        return subst(e, {ax(0): sub(self.T, ONE)})

    def resolve(self, t):
        """replace working values that provably equal the last recorded ones by those"""
        m = {}
        for f in ('beta', 'logz'):
            s0, e0 = hist(self.X, self.start, f)
            first = subst(e0, {ax(0): sub(s0[0], ONE)})
            new = self.rec(f)
            for mu, d in self.main.mus.items():
                if d['rank'] == 0 and mu not in m and isinstance(d['init'], T) and isinstance(d['step'], T):
                    if same(d['init'], first) and same(d['step'], new):
                        m[mu] = self.last(f)
        return rewrite(t, m)


def cases(ts, limit=64):
    """[(facts so far, terms)] with no gate left at the top of any term"""
    out = []

    def top(t):
        if t.op == 'ite':
            c = t.args[0]
            while c.op == 'not' or c.op in ('and', 'or'):
                c = c.args[0]
            return c
        if t.op == 'poly' or t.op in ('log', 'exp', 'min', 'max'):
            gs = [g for g in closed_gates(t) if not g.ite]
            return gs[0] if gs and t.ite else None
        return None

    def go(ts, fs, n):
        g = next((top(t) for t in ts if isinstance(t, T) and top(t) is not None), None)
        if g is None or n <= 0:
            out.append((fs, ts))
            return
        for val in (True, False):
            f = facts_of(g, val)
            go([assume_facts(t, f) if isinstance(t, T) else t for t in ts], fs + [(g, val)], n - 1)
    go(list(ts), [], limit)
    return out


# ------------------------------------------------------------------ C05
def in_hull(t, lo, hi, H):
    """is t certainly between lo and hi, assuming lo <= hi and that every symbol in H is"""
    if t is lo or t is hi or t in H:
        return True
    if t.op == 'ite':
        return in_hull(t.args[1], lo, hi, H) and in_hull(t.args[2], lo, hi, H)
    if t.op in ('min', 'max'):
        ins = [a for a in t.args if in_hull(a, lo, hi, H)]
        if len(ins) == len(t.args):
            return True
        # clipping: max(lo, min(hi, anything)) and the like
        if t.op == 'max' and ins and all(a in ins or below(a, lo, hi, H) for a in t.args):
            return True
        if t.op == 'min' and ins and all(a in ins or above(a, lo, hi, H) for a in t.args):
            return True
        return False
    p = to_poly(t)
    tot = 0
    numc = 0
    for m, c in p.items():
        if len(m) == 0:
            numc = c
            continue
        if len(m) == 1 and m[0][1] == 1 and c > 0 and m[0][0] is not t and in_hull(m[0][0], lo, hi, H):
            tot += c
            continue
        return False
    # the numeric part must be a multiple of a numeric end point
    if numc:
        q = [v for v in (lo, hi) if is_num(v) and numval(v) != 0]
        if not q:
            return False
        tot += numc / numval(q[0])
        if numc / numval(q[0]) < 0:
            return False
    elif tot < 1 and any(is_num(v) and numval(v) == 0 for v in (lo, hi)):
        return tot > 0
    return tot == 1


def below(a, lo, hi, H):
    return a.op == 'min' and any(in_hull(b, lo, hi, H) for b in a.args)


def above(a, lo, hi, H):
    return a.op == 'max' and any(in_hull(b, lo, hi, H) for b in a.args)


def hull_rule(R, X, V):
    I = X.I
    site = V.main.loc
    prev = V.last('beta')
    new = V.rec('beta')
    # entry: every warm-up iteration is recorded at inverse temperature zero
    s0, e0 = hist(X, V.start, 'beta')
    ok = e0 is ZERO
    R.ob('ladder-start', site, verdict(ok, e0), '' if ok else 'warm-up iterations are recorded at inverse temperature %s' %
         show(e0, 5)[:200])
    # candidates: values carried by loops inside the iteration
    H = {}
    for info in I.loops.values():
        if V.main.id in info.parent:
            for mu, d in info.mus.items():
                if d['rank'] == 0 and mu in new.lv or d['rank'] == 0:
                    H[mu] = d
    changed = True
    while changed:
        changed = False
        for mu, d in list(H.items()):
            for w in ('init', 'step'):
                t = d[w]
                if t is UNDEF or (isinstance(t, T) and t.op == 'undef'):
                    if w == 'init':
                        continue
                if not isinstance(t, T) or not in_hull(t, prev, ONE, H):
                    del H[mu]
                    changed = True
                    break
    ok = in_hull(new, prev, ONE, H)
    R.ob('ladder-step', site, verdict(ok, new), '' if ok else
         'the recorded inverse temperature is not confined between the previous one and 1: %s' % show(new, 6)[:400])
    V.beta = new
    # the MCMC stage targets the recorded temperature
    b = V.k.extra['snap'].get(('state', 'beta'), V.k.extra['snap'].get(('option', 'beta')))
    if isinstance(b, tuple):
        b = b[1]
    if isinstance(b, T):
        ok = same(b, new)
        R.ob('target-temperature', V.k.loc, verdict(ok, b, new), '' if ok else
             'the MCMC stage runs at %s while %s is recorded' % (show(b, 4)[:200], show(new, 4)[:200]))
    else:
        R.ob('target-temperature', V.k.loc, None, 'no temperature handed to the kernel')


def exit_rule(R, X, V, metric):
    info = V.main
    outs = [(info.exitcond, info.loc)] if info.exitcond is not None and info.exitcond is not FALSE else []
    outs += [(c, loc) for c, loc, _ in info.breaks]
    if not outs:
        R.ob('termination', info.loc, None, 'no exit of the main loop found')
    last = V.last('beta')
    want = V.est.metric(metric, ONE)
    for c, loc in outs:
        c = V.resolve(c)
        cj = list(c.args) if c.op == 'and' else [c]
        ok = any(bound(q, last) for q in cj)
        R.ob('termination', '%s temperature' % (loc,), verdict(ok, c), '' if ok else
             'the run can end although the last recorded inverse temperature is not within 1e-4 of 1: leaves when %s' %
             show(c, 7)[:500])
        a, b = gt0(sub(want, X.n_total)), ge0(sub(want, X.n_total))
        ok = any(q is a or q is b or q.op in ('gt0', 'ge0') and same(q.args[0], b.args[0]) for q in cj)
        R.ob('termination', '%s sample size' % (loc,), verdict(ok, c), '' if ok else
             'the run can end before the requested total %s is reached: leaves when %s' % (metric.upper(), show(c, 7)[:500]))


def bound(q, b):
    """does q imply b >= 1 - 1e-4"""
    if q.op in ('gt0', 'ge0'):
        p = to_poly(q.args[0])
        k = [(m, c) for m, c in p.items() if len(m)]
        if len(k) == 1 and k[0][0] == ((b, 1),) and k[0][1] > 0:
            return -p.get((), 0) / k[0][1] >= 1 - 1e-4 - 1e-12
    if q.op in ('eq0',):
        return same(q, eq0(sub(b, ONE)))
    return False


# ------------------------------------------------------------------ C06
def weights_rule(R, X, V):
    site = V.main.loc
    new, lz = V.rec('beta'), V.rec('logz')
    prevb, prevz = V.last('beta'), V.last('logz')
    for fs, (b, z) in cases([new, lz]):
        want = V.est.logZ(b)
        ok = same(z, want) or (b is prevb and z is prevz)
        R.ob('smc-evidence', '%s at beta=%s' % (site, show(b, 3)[:60]), verdict(ok, z, want), '' if ok else
             'recorded evidence %s, expected %s' % (show(z, 8)[:400], show(want, 8)[:400]))
    # sample-size of the recorded iteration
    # resampling draws from the weights at the recorded temperature
    u = V.k.extra['snap'].get(('state', 'u'))
    x = resolve_draw(X, u[1])
    if x is None:
        R.ob('resampling-weights', V.k.loc, None, 'origin of the particles handed to the kernel not recognised: %s' %
             show(u[1], 5)[:300])
        return
    idx, p, d = x
    loc = d['loc']
    R.ob('resampling-size', loc, d['replace'] is TRUE and len(d['shape']) == 1 and d['shape'][0] is NA,
         'drawn with replacement: %s, number: %s' % (d['replace'], [show(q, 4) for q in d['shape']]))
    ti, ki = app('flat_t', idx, NA), app('flat_k', idx, NA)
    for fs, (b,) in cases([new]):
        W = exp(V.est.logW(ti, ki, b))
        q = p
        for g, val in fs:
            q = assume_facts(q, facts_of(g, val))
        r = div(q, W)
        for g, val in fs:
            r = assume_facts(r, facts_of(g, val))
        ok = ax(0) not in r.fv
        R.ob('resampling-weights', '%s at beta=%s' % (loc, show(b, 3)[:60]), verdict(ok, p, W), '' if ok else
             'probability of a particle over its importance weight is not the same for all particles: %s' % show(r, 8)[:400])


def resolve_draw(X, u):
    """the history index behind the particles: (index term of slot k over ax(0), probability of slot k, draw, loc)"""
    I = X.I
    if u.op != 'at' or len(u.args) < 3:
        return None
    i = u.args[1]
    rs = [r for r in i.lv if r.op == 'rnd']
    ch = [r for r in rs if I.rnds[r.args[0]]['dist'] == 'index']
    if len(ch) == 1 and len(rs) == 1 and i.op == 'app' and i.args[0] == 'flat_t':
        d = I.rnds[ch[0].args[0]]
        r0 = next((y for y in walk(i) if y.op == 'at' and y.args[0] is ch[0]), None)
        idx = rewrite_term(i.args[1], r0, ax(0))
        p = d.get('p')
        return idx, p[1] if p else ONE, d
    return None


def rewrite_term(t, old, new):
    memo = {}

    def f(x):
        if x is old:
            return new
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            memo[x] = r
        return r
    return f(t)


def warmup_rule(R, X, V):
    """warm-up iterations: evidence is the fraction of usable prior draws"""
    s, e = hist(X, V.start, 'logz')
    mus = [m for m in e.lv if m.op == 'mu']
    site = V.main.loc
    val = e
    info = None
    if e.op == 'at' and e.args[0].op == 'mu':
        info = next((i for i in X.I.loops.values() if e.args[0] in i.mus), None)
        if info is not None:
            val = elem(info.mus[e.args[0]]['step'])
            n = sub(X.I.arr(X.st, ZERO)[1], ZERO)
            val = subst(val, {ax(0): info.iv}) if info.iv is not None else val
            site = info.loc
    evs = [v for v in liks(X.I) if (info is None or info.id in v.loops)]
    if not evs:
        R.ob('warm-up-evidence', site, None, 'no likelihood evaluation in warm-up')
        return
    ev = evs[0]
    res = ev.res
    k = None
    if ev.extra['ns']:
        q = fresh_iv('q')
        res_k = subst(res, {ax(0): q})
        n = ev.extra['ns'][0]
    elif ev.ivs:
        q = fresh_iv('q')
        res_k = subst(res, {ev.ivs[-1][0]: q})
        n = ev.ivs[-1][1]
    else:
        R.ob('warm-up-evidence', site, None, 'likelihood evaluation not recognised')
        return
    good = mk_sum(n, q, ite(isfinite(res_k), ONE, ZERO))
    want = sub(log(good), log(n))
    ok = same(val, want)
    R.ob('warm-up-evidence', site, verdict(ok, val), '' if ok else
         'recorded %s, expected the logarithm of the fraction of prior draws with finite likelihood, %s' % (
             show(val, 7)[:300], show(want, 7)[:300]))


def final_smc_rule(R, X, V):
    """reported evidence without a flow-based estimate: the estimator at inverse temperature one over the whole history"""
    I = X.I
    st = X.st
    est, T_ = est_of(X, st)
    want = est.logZ(ONE)
    r = I.call_attr(st.clone(), X.S, 'evidence', [], {}, None)
    z = I.term(st, r.items[0])
    no = z
    for _ in range(3):
        for g in closed_gates(no):
            if X.n_ev in g.lv:
                no = assume_facts(no, facts_of(gt0(X.n_ev), False))
                no = assume_facts(no, {g: (g is not gt0(X.n_ev)) if g.op != 'gt0' else False})
    ok = same(no, want)
    R.ob('final-evidence', 'Sampler.evidence after Sampler.run', verdict(ok, no), '' if ok else
         'reported %s, expected %s' % (show(no, 8)[:400], show(want, 8)[:400]))


# ------------------------------------------------------------------ C07
def flow_rule(R, X, V):
    I, st = X.I, X.st
    r = I.call_attr(st.clone(), X.S, 'evidence', [], {}, None)
    z, err = I.term(st, r.items[0]), I.term(st, r.items[1])
    yes = facts_of(gt0(X.n_ev), True)
    z, err = assume_facts(z, yes), assume_facts(err, yes)
    site = 'Sampler.evidence after Sampler.run'
    fl = [x for x in z.lv if x.op == 'rnd' and I.rnds[x.args[0]]['dist'] == 'flow']
    if len(fl) > 1:
        several(R, X, st, z, site)
        return
    if len(fl) != 1:
        R.ob('flow-evidence', site, verdict(False, z), 'the evidence does not come from one set of flow draws: %s' % show(z, 6)[:400])
        return
    d = I.rnds[fl[0].args[0]]
    n = d['shape'][0]
    ver = d['params'][0]
    sc = X.scver(st)
    cur = I.get_attr(st, I.get_attr(st, I.get_attr(st, X.S, 'flow'), 'flow'), 'ver')
    ok = I.term(st, cur) is ver
    R.ob('flow-current', d['loc'], verdict(ok, ver), '' if ok else 'drawn from flow state %s' % show(ver, 4))
    ok = n is X.n_ev
    R.ob('flow-draws', d['loc'], verdict(ok, n), '' if ok else 'number of draws is %s' % show(n, 4))
    extra = lik_extra(X.cfg)

    def W(k):
        row = at(fl[0], k)
        j = fresh_iv('j')
        x = lam([j], app('sc_inv', sc, row, j))
        lp = app('lp', x)
        e = exp(add(app('lik', x, *extra), lp, app('sc_ladj', sc, row), neg(app('flow_lp', ver, row))))
        return lp, e

    def est(ix, guard=True):
        k = fresh_iv('k')
        lp, e = W(ix(k))
        return sub(log(mk_sum(n, k, ite(isfinite(lp), e, ZERO) if guard else e)), log(n))
    want = est(lambda k: k)
    ok = same(z, want)
    if not ok:
        # other masks that at least contain the prior test
        zf = all_finite(z)
        ok = same(zf, est(lambda k: k, False)) and zero_outside(z, W)
    R.ob('flow-evidence', site, verdict(ok, z), '' if ok else 'reported %s, expected %s' % (show(z, 9)[:500], show(want, 9)[:500]))
    ix = [x for x in err.lv if x.op == 'rnd' and I.rnds[x.args[0]]['dist'] == 'index']
    site = 'bootstrap error'
    if len({x.args[0] for x in ix}) != 1:
        R.ob('flow-evidence-error', site, verdict(False, err), 'the error is not a bootstrap over one set of resamples: %s' %
             show(err, 6)[:300])
        return
    q = I.rnds[ix[0].args[0]]
    nb = q['ivs'][-1][1] if q['ivs'] else q['shape'][0]
    good = q['n'] is n and q['p'] is None and q['replace'] is TRUE and q['shape'][-1] is n
    R.ob('flow-evidence-error', q['loc'], good, '' if good else 'a resample draws %s of %s with replacement %s' % (
        [show(a, 3) for a in q['shape']], show(q['n'], 3), q['replace']))
    b = fresh_iv('b')

    def y(guard=True):
        if q['ivs']:
            base = mk('rnd', ix[0].args[0], *([v for v, _ in q['ivs'][:-1]] + [b]))
            return est(lambda k: at(base, k), guard)
        return est(lambda k: at(ix[0], b, k), guard)
    for guard, e in ((True, err), (False, all_finite(err))):
        yy = y(guard)
        for dd in (0, 1):
            v = sub(mk_sum(nb, b, mul(yy, yy)), div(mul(mk_sum(nb, b, yy), mk_sum(nb, b, yy)), nb))
            s = sqrt(div(v, sub(nb, num(dd))))
            if same(e, s):
                R.ob('flow-evidence-error', site, True)
                return
    R.ob('flow-evidence-error', site, verdict(False, err), 'reported %s' % show(err, 9)[:500])


def several(R, X, st, z, site):
    """the draws come in several parts: every term of the sum must be the importance weight of a single draw"""
    I = X.I
    isfl = lambda x: x.op == 'rnd' and I.rnds.get(x.args[0], {}).get('dist') == 'flow'
    sc, extra = X.scver(st), lik_extra(X.cfg)

    def leaves(b, depth=0):
        gs = [g for g in gates(b) if not any(isfl(x) for x in g.lv)]
        if not gs or depth > 7:
            return [b]
        return [t for v in (True, False) for t in leaves(assume_facts(b, facts_of(gs[0], v)), depth + 1)]
    sums = [s for s in walk(z) if s.op == 'sum' and sum(1 for x in s.lv if isfl(x)) > 1]
    if not sums:
        R.ob('flow-evidence', site, verdict(False, z), 'the evidence does not come from one set of flow draws: %s' % show(z, 6)[:400])
        return
    for s in sums:
        v, m, b = open_binder(s)
        for t in leaves(b):
            ds = {x for x in t.lv if isfl(x)}
            rows = {x.args[2] for x in walk(t) if x.op == 'app' and x.args[0] == 'flow_lp'}
            if len(ds) != 1 or len(rows) != 1:
                R.ob('flow-evidence', site, verdict(False, t), 'one term of the sum uses several flow draws: %s' % show(t, 6)[:400])
                continue
            row, ver = rows.pop(), I.rnds[list(ds)[0].args[0]]['params'][0]
            j = fresh_iv('j')
            x = lam([j], app('sc_inv', sc, row, j))
            lp = app('lp', x)
            e = exp(add(app('lik', x, *extra), lp, app('sc_ladj', sc, row), neg(app('flow_lp', ver, row))))
            ok = same(t, ite(isfinite(lp), e, ZERO)) or same(all_finite(t), e) and assume_facts(t, {isfinite(lp): False}) is ZERO
            R.ob('flow-evidence', site, verdict(ok, t), '' if ok else 'a term of the sum is %s' % show(t, 8)[:400])
    R.ob('flow-draws', site, None, 'the draws come in several parts')


def all_finite(t):
    for _ in range(4):
        fs = {x: True for x in walk(t) if x.op == 'isfinite'}
        for x in walk(t):
            if x.op in ('isnan', 'isinf'):
                fs[x] = False
        t2 = assume_facts(t, fs)
        if t2 is t:
            return t
        t = t2
    return t


def zero_outside(z, W):
    for s in walk(z):
        if s.op == 'sum':
            v, n, b = open_binder(s)
            lp, e = W(v)
            if lp in set(walk(b)):
                return assume_facts(b, {isfinite(lp): False}) is ZERO
    return False


# ------------------------------------------------------------------ C13
def n_points(e):
    if e.extra['ns']:
        return e.extra['ns'][0]
    return e.ivs[-1][1] if e.ivs else ONE


def attr(X, st, name):
    st = st.clone()
    return X.I.term(st, X.I.get_attr(st, X.S, name))


def calls_rule(R, X, V):
    I = X.I
    evs = liks(I)
    warm = [e for e in evs if V.main.id not in e.loops and e.loops]
    inner = [e for e in evs if V.main.id in e.loops]
    after = [e for e in evs if not e.loops]
    # warm-up
    s0, c0 = hist(X, V.start, 'calls')
    info = I.loops[warm[0].loops[0]] if warm else None
    per = ZERO
    for e in warm:
        n = n_points(e)
        per = add(per, n if e.pc is TRUE else ite(e.pc, n, ZERO))
    if info is None or (info.iv is not None and info.iv in per.fv):
        R.ob('calls', 'warm-up', None, 'number of points per warm-up iteration not constant')
    else:
        # the first iteration of the loop is the first recorded one in a fresh run
        want = mul(per, add(ax(0), ONE))
        ok = same(c0, want)
        R.ob('calls', '%s recorded' % info.loc, verdict(ok, c0), '' if ok else
             'iteration i of warm-up records %s, evaluated so far %s' % (show(c0, 5)[:200], show(want, 5)[:200]))
        tot = attr(X, V.start, 'calls')
        want = mul(per, s0[0])
        ok = same(tot, want)
        R.ob('calls', '%s total' % info.loc, verdict(ok, tot), '' if ok else
             'total after warm-up %s, evaluated %s' % (show(tot, 5)[:200], show(want, 5)[:200]))
    kc = [x for x in (V.rec('calls')).lv if x.op == 'rnd' and str(x.args[0]).endswith('.calls')]
    kern = mk('rnd', V.k.extra['base'].args[0] + '.calls', *V.k.extra['base'].args[1:])
    per = kern
    for e in inner:
        per = add(per, n_points(e))
    h, e_ = attr(X, V.head, 'calls'), attr(X, V.end, 'calls')
    ok = same(e_, add(h, per))
    R.ob('calls', '%s total' % V.main.loc, verdict(ok, e_), '' if ok else
         'an iteration changes the total from %s to %s while %s points are evaluated' % (show(h, 4), show(e_, 5)[:200], show(per, 4)[:200]))
    rec = V.rec('calls')
    ok = same(rec, e_)
    R.ob('calls', '%s recorded' % V.main.loc, verdict(ok, rec, e_), '' if ok else
         'recorded %s, total %s' % (show(rec, 5)[:200], show(e_, 5)[:200]))
    fin = attr(X, X.st, 'calls')
    per = ZERO
    for e in after:
        n = n_points(e)
        per = add(per, n if e.pc is TRUE else ite(e.pc, n, ZERO))
    want = add(h, per)
    for lab, fs in (('with', facts_of(gt0(X.n_ev), True)), ('without', facts_of(gt0(X.n_ev), False))):
        a, b = assume_facts(fin, fs), assume_facts(want, fs)
        ok = same(a, b)
        R.ob('calls', 'Sampler.run %s flow evidence' % lab, verdict(ok, a), '' if ok else
             'total %s, expected %s' % (show(a, 6)[:300], show(b, 6)[:300]))


def scale_rule(R, X, V):
    """the scale handed to a stage is the one the previous stage ended with"""
    s = V.k.extra['snap'].get(('option', 'proposal_scale'))
    if isinstance(s, tuple):
        s = s[1]
    h = attr(X, V.head, 'proposal_scale')
    ok = isinstance(s, T) and same(s, h)
    R.ob('scale-handed-over', V.k.loc, verdict(ok, s), '' if ok else 'the kernel is given %s, the sampler holds %s' % (s, show(h, 4)))
    e = attr(X, V.end, 'proposal_scale')
    kern = mk('rnd', V.k.extra['base'].args[0] + '.proposal_scale', *V.k.extra['base'].args[1:])
    ok = same(e, kern)
    R.ob('scale-handed-over', V.main.loc, verdict(ok, e), '' if ok else 'after a stage the sampler holds %s' % show(e, 5)[:200])


# ------------------------------------------------------------------ C04, warm-up
def warm_finite_rule(R, X, V):
    s, e = hist(X, V.start, 'logl')
    info = None
    site = 'warm-up'
    if e.op == 'at' and e.args[0].op == 'mu':
        info = next((i for i in X.I.loops.values() if e.args[0] in i.mus), None)
    if info is None:
        R.ob('warm-up-finite', site, None, 'recorded log-likelihoods not recognised')
        return
    val = elem(info.mus[e.args[0]]['step'])
    val = subst(val, {ax(0): info.iv})          # the entry appended by this iteration
    val = in_range(val, 1, NA)
    site = info.loc
    bad = []
    for fs, (v,) in cases2(val):
        facts = {}
        for g, b in fs:
            facts_of(g, b, facts)
        for g, b in fs:
            if g.op == 'any' and not b or g.op == 'all' and b:
                w, n, body = open_binder(g)
                for q in (ax(0), ax(1)):
                    facts_of(subst(body, {w: q}), b, facts)
        for x in walk(v):
            if x.op == 'sel' and x.args[1].op == 'lam':
                facts_of(at(x.args[1], x), True, facts)
        if contradictory(fs):
            continue
        if assume_facts(isfinite(v), facts) is not TRUE:
            bad.append((fs, v))
    ok = not bad
    R.ob('warm-up-finite', site, verdict(ok, val), '' if ok else
         'a log-likelihood that is not finite can be recorded: %s when %s' % (
             show(bad[0][1], 6)[:300], ' and '.join(('' if b else 'not ') + show(g, 5)[:120] for g, b in bad[0][0])))


def cases2(t, fs=(), depth=8):
    if t.op == 'ite' and depth:
        c = t.args[0]
        a = [x for x in tm.atoms_of(c)]
        g = a[0]
        out = []
        for val in (True, False):
            f = facts_of(g, val)
            out += cases2(assume_facts(t, f), fs + ((g, val),), depth - 1)
        return out
    return [(fs, (t,))]


def contradictory(fs):
    """an 'any' that is false although its body holds at a position known to satisfy it"""
    known = {}
    for g, b in fs:
        facts_of(g, b, known)
    for g, b in fs:
        if g.op == 'any' and not b:
            v, n, body = open_binder(g)
            for k in (ax(0), ax(1)):
                if assume_facts(subst(body, {v: k}), known) is TRUE:
                    return True
        if g.op == 'all' and b:
            v, n, body = open_binder(g)
            for k in (ax(0), ax(1)):
                if assume_facts(subst(body, {v: k}), known) is FALSE:
                    return True
    return False
