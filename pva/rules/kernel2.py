"""Support, call counting and stage bounds of the kernels."""
from .kernel import *
import os
from fractions import Fraction
from ..interval import Ival


def sels(t):
    return [x for x in walk(t) if x.op == 'sel']


def sel_facts(t):
    """what the selection of entries by a mask says about the selected entries"""
    fs = {}
    for s in sels(t):
        n, m, i = s.args[0], s.args[1], s.args[2]
        c = at(m, s) if m.op == 'lam' else None
        if c is not None:
            facts_of(c, True, fs)
    return fs


def liks(I, events=None):
    """likelihood evaluations; a call for one point in a loop over points counts as an evaluation of all of them"""
    import copy
    out = []
    for e in (I.events if events is None else events):
        if e.kind != 'lik':
            continue
        while not e.extra['ns'] and e.loops:
            info = I.loops.get(e.loops[-1])
            if info is None or info.kind != 'For' or info.breaks or info.iv is None or info.n is None:
                break
            if e.ivs and e.ivs[-1][0] is not info.iv:
                break
            if not tm.contains(e.extra['row'], lambda y: y.op == 'at' and any(info.iv in z.fv for z in y.args[1:])):
                break
            e = copy.copy(e)
            e.loops = tuple(e.loops)[:-1]
            e.ivs = [q for q in e.ivs if q[0] is not info.iv] + [(info.iv, info.n)]
            break
        out.append(e)
    return out


def rows_of(ev):
    """number of points of a likelihood event inside its innermost enclosing package loop, and its per-point index"""
    if ev.extra['ns']:
        return ev.extra['ns'][0]
    if ev.ivs:
        return ev.ivs[-1][1]
    return ONE


def prior_origin(I, row, depth=0):
    """are the rows prior draws: a prior draw array, or a loop-carried copy whose slots only ever hold prior draws"""
    bases = [x for x in row.lv if x.op in ('rnd', 'mu')]
    r = row
    while r.op == 'at':
        r = r.args[0]
    if r.op == 'lam':
        b = r.args[1]
        while b.op == 'at':
            b = b.args[0]
        r = b
    if r.op == 'rnd':
        return I.rnds[r.args[0]]['dist'] == 'prior'
    if r.op == 'mu':
        info = next((i for i in I.loops.values() if r in i.mus), None)
        if info is None:
            return False
        d = info.mus[r]

        def leaves(t):
            if t.op == 'ite':
                return leaves(t.args[1]) + leaves(t.args[2])
            return [t]
        for w in ('init', 'step'):
            for l in leaves(d[w]):
                b = l
                while b.op == 'at':
                    b = b.args[0]
                if b is r:
                    continue
                if b.op == 'rnd' and I.rnds[b.args[0]]['dist'] == 'prior':
                    continue
                return False
        return True
    return False


def support_rule(R, I, apply=lambda t: t, where=None):
    """every likelihood evaluation is at finite points with finite log-prior (or at prior draws)"""
    n = 0
    for e in I.events:
        if e.kind != 'lik':
            continue
        n += 1
        row = apply(e.extra['row'])
        site = '%s < %s' % (e.loc, e.stack[-2] if len(e.stack) > 1 else '')
        if prior_origin(I, row):
            R.ob('support', site, True)
            continue
        fs = sel_facts(row)
        fs.update(facts_of(e.pc, True))
        j = fresh_iv('j')
        a1 = assume_facts(isfinite(app('lp', row)), fs)
        ok1 = a1 is TRUE
        R.ob('support', site + ' prior', verdict(ok1, row), '' if ok1 else
             'the likelihood is called at points whose log-prior may not be finite: selected by %s' %
             ' and '.join(show(k, 5)[:150] for k, v in fs.items() if v and k.op not in ('not',))[:400])
        fin = tm.binder('all', D, j, isfinite(at(row, j)))
        a2 = fin if fin is TRUE else assume_facts(fin, fs)
        ok2 = a2 is TRUE or assume_facts(isfinite(at(row, j)), fs) is TRUE
        # a prior density is zero at infinite and undefined at NaN coordinates, so that a finite log-prior at the very
        # point handed over implies finite coordinates
        if not ok2:
            ok2 = any_false(row, fs) or ok1
        R.ob('support', site + ' finite point', verdict(ok2, row), '' if ok2 else
             'the likelihood is called at points whose coordinates may not be finite: selected by %s' %
             ' and '.join(show(k, 5)[:150] for k, v in fs.items() if v)[:400])
    if not n:
        R.ob('support', 'likelihood calls', None, 'no likelihood evaluation found')


def any_false(row, fs):
    for k, v in fs.items():
        if k.op in ('all', 'any'):
            b = open_binder(k)
            vv, n, body = b
            want = isfinite(at(row, vv))
            if k.op == 'all' and v and assume_facts(want, facts_of(body, True)) is TRUE:
                return True
            if k.op == 'any' and not v and assume_facts(want, facts_of(body, False)) is TRUE:
                return True
    return False


def reject_rule(R, K):
    """a proposal that is not usable is never accepted"""
    A = Accept(K)
    dep = K.dep
    g = dep.apply(A.gate)
    if A.flipped:
        g = mnot(g)
    j = fresh_iv('j')
    newrow = lam([j], subst(A.new, {ax(1): j}))
    ver = sym('sc0')
    if K.cfg.bc:
        # the point after boundary conditions is the one evaluated
        pass
    x = lam([j], app('sc_inv', ver, newrow, j))
    lp, lj, lk = app('lp', x), app('sc_ladj', ver, newrow), app('lik', x)
    site = K.site

    def test(name, t, extra=None):
        r = t is FALSE
        R.ob('reject', '%s %s' % (site, name), verdict(r, t), '' if r else
             'a proposal with %s can be accepted: accepted when %s' % (name, show(t, 6)[:400]))
    test('prior that is not finite', assume_facts(g, {isfinite(lp): False}))
    test('Jacobian that is not finite', assume_facts(g, {isfinite(lj): False}))
    # coordinates: the collective finiteness test of the point fails
    fin = tm.binder('all', D, j, isfinite(at(x, j)))
    fs = {fin: False}
    for a in walk(g):
        if a.op == 'any':
            v, n, b = open_binder(a)
            if n is D and assume_facts(b, facts_of(isfinite(app('sc_inv', ver, newrow, v)), False)) is TRUE:
                fs[a] = True
    test('coordinates that are not finite', assume_facts(g, fs))
    usable = {isfinite(lp): True, isfinite(lj): True, fin: True}
    for a in fs:
        if a.op == 'any':
            usable[a] = False
    gu = assume_facts(g, usable)
    test('zero likelihood', rewrite_app(gu, lk, neg(INF)))
    test('undefined likelihood', rewrite_app(gu, lk, tm.NAN))


def rewrite_app(t, old, new):
    memo = {}

    def f(x):
        if x is old:
            return new
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            memo[x] = r
        return r
    return f(t)


# ------------------------------------------------------------------ C13 in a kernel
def is_vacuous(c, n):
    """a condition that fails only if the number of points n is zero"""
    if c is TRUE:
        return True
    if c.op == 'any':
        w, ext, body = open_binder(c)
        return same(n, mk_sum(ext, w, ite(body, ONE, ZERO)))
    if c.op == 'not' and c.args[0].op == 'eq0':
        return same(c.args[0].args[0], n) or same(neg(c.args[0].args[0]), n)
    if c.op == 'not' and c.args[0].op == 'all':
        w, ext, body = open_binder(c.args[0])
        return same(n, mk_sum(ext, w, ite(body, ZERO, ONE)))
    if c.op in ('gt0', 'ge0'):
        return same(c.args[0], n if c.op == 'gt0' else sub(n, ONE))
    return False


def empty_rule(R, K):
    """a step without usable proposals does not call the likelihood (with no points, and no blobs to store)"""
    info = K.loop
    for e in liks(K.I):
        if info.id not in e.loops:
            continue
        n = K.dep.apply(rows_of(e))
        c = K.dep.apply(e.pc)
        site = '%s from %s' % (e.loc, info.loc)
        if n is NA or tm.is_num(n):
            R.ob('never-empty', site, None, 'the number of points is not that of a selection')
            continue
        gs = c.args if c.op == 'and' else (c,)
        ok = any(g is not TRUE and is_vacuous(g, n) for g in gs)
        R.ob('never-empty', site, verdict(ok, c, n), '' if ok else
             'a step in which no proposal is usable calls the likelihood without a point (called when %s, with %s points)' % (show(c, 5)[:150], show(n, 5)[:150]))


def calls_rule(R, K):
    I = K.I
    info = K.loop
    evs = liks(I)
    inside = [e for e in evs if info.id in e.loops]
    outside = [e for e in evs if info.id not in e.loops]
    per = ZERO
    for e in inside:
        n = K.dep.apply(rows_of(e))
        if len(e.loops) > 1 + list(e.loops).index(info.id):
            R.ob('calls', e.loc, None, 'likelihood evaluated in an inner loop')
            return
        c = K.dep.apply(e.pc)
        if not is_vacuous(c, n):
            n = ite(mand(*[q for q in (c.args if c.op == 'and' else (c,)) if not is_vacuous(q, n)]), n, ZERO)
        per = add(per, n)
    once = add(*[rows_of(e) for e in outside]) if outside else ZERO
    res = K.dep.apply(I.term(K.st, K.res['calls']))
    # counter: loop-carried value whose increment is the number of points evaluated in the iteration
    parts = exits(K, I.term(K.st, K.res['calls']))
    ok = True
    why = ''
    for kind, v in parts:
        good = False
        for m in [m for m, d in info.mus.items() if d['rank'] == 0 and isinstance(d['step'], T) and m in v.lv]:
            d = info.mus[m]
            inc, now = sub(K.dep.apply(d['step']), m), sub(v, m)
            want = add(K.calls0, per, once) if kind == 'break' else add(K.calls0, once)
            if going_same(K, inc, per) and (going_same(K, add(d['init'], now), want) if kind == 'break' else same(add(d['init'], now), want)):
                good = True
                break
        if not good:
            ok = False
            why = 'reported %s while an iteration evaluates %s points' % (show(v, 7)[:300], show(per, 6)[:200])
    R.ob('calls', info.loc, verdict(ok, res, per), why)
    # the sampler's own counter is the reported one
    own = K.dep.apply(I.term(K.st, I.get_attr(K.st, K.S, 'calls')))
    ok = same(own, res)
    R.ob('calls', 'Sampler._mutate total', verdict(ok, own, res), '' if ok else
         'the sampler keeps %s but records %s' % (show(own, 6)[:200], show(res, 6)[:200]))


# ------------------------------------------------------------------ ways out of the loop of a kernel
def exits(K, t):
    """[('break' | 'head', value)]: the value after the loop when it is left in the middle of an iteration and when it
    is left between iterations, in terms of the values at the start of the iteration"""
    info = K.loop
    kb = getattr(info, 'kbrk', None)
    if kb is not None:
        t = rewrite(t, {kb: info.iv})
    conds = [c for c, _, _ in info.breaks]
    if not conds:
        return [('head', K.dep.apply(t))]
    if info.iv is None and info.cond is TRUE:
        return [('break', K.dep.apply(t))]
    out = []
    no = {}
    for c in conds:
        v = assume_facts(rewrite(t, {c: TRUE}) if c is not TRUE else t, facts_of(c, True, dict(no)))
        out.append(('break', v))
        facts_of(c, False, no)
    out.append(('head', assume_facts(rewrite(t, {mor(*conds): FALSE}), no)))
    return [(k, K.dep.apply(v)) for k, v in out]


def going_same(K, a, b):
    """equal in an iteration that is made"""
    if same(a, b):
        return True
    c = K.loop.cond
    if c is None or c is TRUE:
        return False
    fs = facts_of(K.dep.apply(c), True)
    return same(assume_facts(a, fs), assume_facts(b, fs))


def counters(K):
    """loop-carried values that grow by one per iteration"""
    out = []
    for m, d in K.loop.mus.items():
        if d['rank'] == 0 and isinstance(d['step'], T) and isinstance(d['init'], T) and is_num(d['init']) and going_same(K, sub(d['step'], m), ONE):
            out.append(m)
    return out


# ------------------------------------------------------------------ C22
def bounds_rule(R, K):
    I = K.I
    info = K.loop
    site = info.loc
    steps = I.term(K.st, K.res['steps'])
    # a counter of completed iterations
    cnt = counters(K)
    iv = info.iv
    ok = True
    for kind, v in exits(K, steps):
        extra = ONE if kind == 'break' else ZERO
        good = any(same(add(v, info.mus[m]['init']), add(m, extra)) for m in cnt)
        if iv is not None and not good:
            good = same(v, add(iv, ONE)) if kind == 'break' else same(v, info.n)
        ok = ok and good
    R.ob('steps-reported', site, verdict(ok, steps), '' if ok else
         'the number of steps reported is %s' % show(steps, 6)[:300])
    # continuing implies that fewer than n_max steps have been made
    going = info.cond if info.cond is not None else TRUE
    stop = mor(*[c for c, loc, _ in info.breaks]) if info.breaks else FALSE
    found = iv is not None and info.n is not None and same(info.n, K.n_max)
    nxt = rewrite(going, {m: d['step'] for m, d in info.mus.items() if d['rank'] == 0 and isinstance(d['step'], T)}) if going is not TRUE else TRUE
    for made in [sub(add(m, ONE), info.mus[m]['init']) for m in cnt] + ([add(iv, ONE)] if iv is not None else []):
        fs = facts_of(ge0(sub(made, K.n_max)), True)
        if going is not TRUE:
            facts_of(going, True, fs)
        s = assume_facts(mor(stop, mnot_full(nxt)), fs)
        if s is not TRUE and tm.is_bool(s):
            s = TRUE if bool_true(s) else s
        if s is TRUE:
            found = True
    for m in cnt:
        # a bound tested at the loop head
        made_h = sub(m, info.mus[m]['init'])
        s = assume_facts(going, facts_of(ge0(sub(made_h, K.n_max)), True)) if going is not TRUE else TRUE
        if s is FALSE:
            found = True
    R.ob('steps-bounded', site, verdict(found, stop, going), '' if found else
         'the stage can go on after n_max steps: stops when %s' % show(stop, 5)[:400])
    if going is not TRUE:
        init = {m: info.mus[m]['init'] for m in info.mus if info.mus[m]['rank'] == 0 and isinstance(info.mus[m]['init'], T)}
        g0 = rewrite(going, init)
        R.ob('one-step', site, verdict(g0 is TRUE, g0), 'the first step is made only when %s' % show(g0, 5)[:200])
    else:
        R.ob('one-step', site, True)


def bool_true(s):
    return tm.bool_equal(s, TRUE)


def scale_rule(R, K):
    I = K.I
    info = K.loop
    site = info.loc
    A = Accept(K)
    raw = I.term(K.st, I.get_attr(K.st, K.S, 'proposal_scale'))
    final = K.dep.apply(raw)
    # the scale used by proposals: the loop-carried value fed by proposal_scale
    cand = [m for m, d in info.mus.items() if d['rank'] == 0 and isinstance(d['init'], T) and K.scale0 in d['init'].lv]
    if len(cand) != 1:
        R.ob('scale', site, None, 'no unique loop-carried proposal scale')
        return
    s = cand[0]
    d = info.mus[s]
    cnt = [m for m, q in info.mus.items() if q['rank'] == 0 and isinstance(q['step'], T) and is_num(q['init'])
           and nonneg(q['init']) and nonneg(sub(q['step'], m))]
    env = {m: (float(numval(info.mus[m]['init'])), float('inf')) for m in cnt}
    env[D] = (1.0, float('inf'))
    env[NA] = (1.0, float('inf'))
    env[K.scale0] = (0.0, float('inf'))
    tp = K.cfg.sample == 'tpcn'
    lim = 1.0 if tp else float('inf')
    iv0 = Ival(env)(K.dep.apply(d['init']))
    ok = iv0[0] >= 0 and (iv0[1] < 1 if tp else True)
    R.ob('scale-start', site, verdict(ok, d['init']), '' if ok else 'starts in %s: %s' % (iv0, show(d['init'], 5)[:200]))
    # widen to the smallest bound that is inductive
    step = K.dep.apply(d['step'])
    cur = iv0
    for _ in range(6):
        env[s] = cur
        nx = Ival(env)(step)
        u = (min(cur[0], nx[0]), max(cur[1], nx[1]))
        if u == cur:
            break
        cur = u
    env[s] = cur
    nx = Ival(env)(step)
    ok = nx[0] >= 0 and (nx[1] < 1 if tp else True) and nx[0] >= cur[0] - 1e-15 and nx[1] <= cur[1] + 1e-15
    R.ob('scale-range', site, verdict(ok, step), '' if ok else
         'with the scale in %s one adaptation gives %s: %s' % (cur, nx, show(step, 6)[:400]))
    # NaN: the adaptation averages acceptance probabilities that are NaN-guarded
    nan = nan_leaks(step)
    R.ob('scale-defined', site, verdict(not nan, step), 'an undefined acceptance probability enters the adaptation' if nan else '')
    ok = all(same(v, step) if kind == 'break' else same(v, s) for kind, v in exits(K, raw)) or same(final, step)
    R.ob('scale-handed-over', 'Sampler._mutate', verdict(ok, final), '' if ok else
         'the next stage starts from %s, this one ended with %s' % (show(final, 6)[:200], show(step, 6)[:200]))


def mean_acceptance(K, A):
    """(sum over the particles of the acceptance probability, that sum divided by their number)"""
    g = A.gate.args[0]
    if A.flipped:
        g = neg(g)
    u = at(A.uni[0], ax(0))
    p = add(g, u)
    if A.uni[0] in set(walk(p)):
        p = add(g, log(u))
        if A.uni[0] in set(walk(p)):
            return None
        p = exp(p)
    q = fresh_iv('q')
    t = mk_sum(NA, q, subst(p, {ax(0): q}))
    return t, div(t, NA)


def report_rule(R, K):
    """acceptance and efficiency reported by a stage are those of its last step"""
    I = K.I
    info = K.loop
    A = Accept(K)
    site = info.loc
    mean = mean_acceptance(K, A)
    acc = I.term(K.st, K.res['accept'])
    if mean is None:
        R.ob('acceptance-reported', site, None, 'acceptance probability not recognised')
    else:
        ok = True
        for kind, v in exits(K, acc):
            if kind == 'head':
                # what the iteration before left behind
                m = {x: info.mus[x] for x in v.lv if x in info.mus and isinstance(info.mus[x]['step'], T)}
                v = rewrite(v, {x: d['step'] if d['rank'] == 0 else lam_ax(d['rank'], d['step']) for x, d in m.items()})
                v = K.dep.apply(v)
            ok = ok and same(v, mean[1])
            if not ok and os.environ.get('PVA_DEBUG'):
                print(kind, show(v, 9)[:1500], '\n', show(mean[1], 9)[:1500], '\n', [show(c, 5)[:300] for c, _, _ in info.breaks])
        R.ob('acceptance-reported', site, verdict(ok, acc), '' if ok else
             'the acceptance reported is %s, the mean acceptance probability of the last step is %s' % (show(acc, 6)[:300], show(mean[1], 6)[:300]))
    eff = I.term(K.st, K.res['efficiency'])
    fin = K.dep.apply(I.term(K.st, I.get_attr(K.st, K.S, 'proposal_scale')))
    got = K.dep.apply(mul(eff, num(Fraction(238, 100)), power(D, Fraction(-1, 2))))
    ok = same(got, fin)
    R.ob('efficiency-reported', 'Sampler._mutate', verdict(ok, got), '' if ok else
         'the efficiency reported is %s, the scale the stage ends with is %s' % (show(eff, 6)[:300], show(fin, 6)[:300]))


def adapt_rule(R, K):
    """the scale moves towards the target acceptance by steps that die out"""
    from ..tabulate import Table, Unknown
    I = K.I
    info = K.loop
    site = info.loc
    A = Accept(K)
    mean = mean_acceptance(K, A)
    cand = [m for m, d in info.mus.items() if d['rank'] == 0 and isinstance(d['init'], T) and K.scale0 in d['init'].lv]
    if mean is None or len(cand) != 1:
        R.ob('adaptation', site, None, 'acceptance probability or scale not recognised')
        return
    s = cand[0]
    step = K.dep.apply(info.mus[s]['step'])
    cnt = counters(K)
    P = fresh_sym('mean_acceptance')
    step = rewrite(step, {mean[0]: mul(P, NA)})
    tp_ = K.cfg.sample == 'tpcn'
    target = 0.234

    def f(n, d, sig, a):
        env = {NA: 8.0, D: float(d), s: sig, P: a}
        for m in cnt:
            env[m] = float(numval(info.mus[m]['init'])) + n
        if info.iv is not None:
            env[info.iv] = float(n)
        B = Table(env)
        v = B(step)
        if B.free:
            raise Unknown('depends on %s' % ', '.join(sorted(show(x, 3)[:60] for x in B.free)))
        return v
    bad = None
    n_ = 0
    try:
        for d in (1, 3, 9):
            cap = min(2.38 / d ** 0.5, 0.99)
            for sig in (0.3 * cap, 0.6 * cap):
                last = None
                for n in (0, 1, 2, 3, 5, 8, 20, 100, 1000, 100000):
                    n_ += 1
                    if abs(f(n, d, sig, target) - sig) > 1e-9:
                        bad = 'in step %d the scale changes from %g to %g at the target acceptance %g' % (n + 1, sig, f(n, d, sig, target), target)
                    hi, lo = f(n, d, sig, target + 1e-3), f(n, d, sig, target - 1e-3)
                    g = (hi - lo) / 2e-3
                    if not g > 0:
                        bad = bad or 'in step %d the scale does not grow with the acceptance' % (n + 1)
                    elif last is not None and g > last * (1 + 1e-9):
                        bad = bad or 'the adaptation grows in step %d (gain %g after %g)' % (n + 1, g, last)
                    last = g
                    top = f(n, d, sig, 1.0)
                    if top < sig or f(n, d, sig, 0.0) > max(sig, target):
                        bad = bad or 'in step %d the scale falls although all proposals are accepted, or grows although none is' % (n + 1)
                if last > 0.01:
                    bad = bad or 'the adaptation does not die out: gain %g in step 100000' % last
    except Unknown as e:
        if P not in step.lv and any(x.op == 'sum' and x.args[1:] and A.uni[0] in x.lv for x in walk(step)):
            R.ob('adaptation', site, verdict(False, step), 'the scale follows the moves accepted by chance, not the mean acceptance probability')
            return
        R.ob('adaptation', site, None, 'adaptation not tabulated: %s' % (e,))
        return
    R.ob('adaptation', site, bad is None, bad or '')


def nan_leaks(t):
    """is there an acceptance probability min(1, exp E) averaged without a guard against NaN"""
    def go(x, guarded):
        if x.op == 'ite' and x.args[0].op == 'isnan':
            g = x.args[0].args[0]
            return go(x.args[1], guarded) or go(x.args[2], guarded | {g})
        if x in guarded:
            return False
        if x.op == 'min' and any(a.op == 'exp' for a in x.args):
            return True
        if x.op == 'exp':
            return True
        if x.op == 'poly':
            return any(go(f, guarded) for m in to_poly(x) for f, _ in m)
        if x.op in ('sum',):
            return go(x.args[1], guarded)
        return any(go(a, guarded) for a in x.args if isinstance(a, T) and x.op in ('ite', 'min', 'max', 'abs', 'pow'))
    return go(t, frozenset())
