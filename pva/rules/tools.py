"""Sample-size measures, trimming and resampling (pocomc/tools.py)."""
from .runlevel import *


def tools(R):
    M = Model(ROOT)
    R.unit('pocomc.tools', M.I)
    return M, M.I.module('pocomc.tools')


def weights(M, st, w=None):
    m = dimsym('m')
    w = w or sym('w')
    register(w, NONNEG)
    return m, w, M.I.new_arr(st, (m,), at(w, ax(0)))


def total(m, w, f=lambda x: x):
    q = fresh_iv('q')
    return mk_sum(m, q, f(at(w, q)))


def sizes_rule(R):
    M, env = tools(R)
    I = M.I
    for name, kk in (('effective_sample_size', None), ('unique_sample_size', None), ('unique_sample_size', 'k')):
        site = 'tools.%s%s' % (name, '(k=k)' if kk else '')

        def go():
            st = M.st.clone()
            m, w, W = weights(M, st)
            k = dimsym('k') if kk else m
            r = I.term(st, I.call(st, env[name], [W] + ([k] if kk else []), {}, None))
            S = total(m, w)
            if name == 'effective_sample_size':
                want = div(power(S, 2), total(m, w, lambda x: power(x, 2)))
            else:
                want = total(m, w, lambda x: sub(ONE, tm.tpow(sub(ONE, div(x, S)), k)))
            ok = same(r, want)
            R.ob('size-definition', site, verdict(ok, r), '' if ok else 'computes %s, expected %s' % (show(r, 8)[:300], show(want, 8)[:300]))
        R.guard('size-definition', site, go)
    if 'compute_ess' in env:
        def go():
            st = M.st.clone()
            m = dimsym('m')
            l = sym('lw')
            A = I.new_arr(st, (m,), at(l, ax(0)))
            r = I.term(st, I.call(st, env['compute_ess'], [A], {}, None))
            S = total(m, l, exp)
            want = div(div(power(S, 2), total(m, l, lambda x: exp(scale(x, 2)))), m)
            ok = same(r, want)
            R.ob('size-definition', 'tools.compute_ess', verdict(ok, r), '' if ok else 'computes %s, expected %s' % (
                show(r, 8)[:300], show(want, 8)[:300]))
        R.guard('size-definition', 'tools.compute_ess', go)


def split_affine(d, v):
    """d = a*v + b with a, b free of v (v a term occurring linearly) -> (a, b)"""
    z = fresh_sym('z')
    t = rewrite_exact(d, v, z)
    if t is None:
        return None
    a = tm.deriv(t, z)
    if z in a.lv:
        return None
    return a, rewrite(t, {z: ZERO})


def rewrite_exact(t, old, new):
    memo = {}

    def go(x):
        if x is old:
            return new
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go) if x.args else x
        return r
    return go(t)


def trim_rule(R):
    M, env = tools(R)
    I = M.I
    st = M.st.clone()
    m, w, W = weights(M, st)
    e_ = scalar(I, 'ess_fraction', pos=True)
    bins = dimsym('bins')
    S_ = I.new_arr(st, (m,), at(sym('s'), ax(0)))
    n0 = len(I.loops)
    r = I.call(st, env['trim_weights'], [S_, W, e_, bins], {}, None)
    (ss, se), (ws, we) = I.arr(st, r.items[0]), I.arr(st, r.items[1])
    R.unit('tools.trim_weights', I)
    site = 'tools.trim_weights'
    if se.op != 'at' or se.args[0] is not sym('s'):
        R.ob('trim-rows', site, verdict(False, se), 'returned samples are not the given ones: %s' % show(se, 6)[:300])
        return
    i0 = se.args[1]
    k = fresh_iv('k')
    S = total(m, w)
    want = div(at(w, i0), mk_sum(ss[0], k, at(w, subst(i0, {ax(0): k}))))
    ok = same(we, want) and same(ws[0], ss[0])
    R.ob('trim-weights', site, verdict(ok, we, se), '' if ok else 'weight of a kept sample is %s, expected %s' % (
        show(we, 8)[:300], show(want, 8)[:300]))
    # the kept rows are those above one threshold
    if i0.op == 'sel':
        mask = i0.args[1]
        v = fresh_iv('v')
        c = at(mask, v)
        smallest_rule(R, site, c, v, m, w)
        fallback_rule(R, I, site, c, v, m, w, list(I.loops.values())[n0:])
    else:
        R.ob('trim-smallest', site, None if i0 is not ax(0) else True, 'selection is not a mask: %s' % show(i0, 6)[:300])
    # the loop is only left when the kept rows have the requested share
    q = fresh_iv('q')
    ek = div(power(mk_sum(ss[0], q, at(w, subst(i0, {ax(0): q}))), 2),
             mk_sum(ss[0], q, power(at(w, subst(i0, {ax(0): q})), 2)))
    et = div(power(S, 2), total(m, w, lambda x: power(x, 2)))
    goal = ge0(sub(div(ek, et), e_))
    loops = [l for l in list(I.loops.values())[n0:] if l.breaks or l.kind == 'While']
    exits = [(c, loc) for l in loops for c, loc, _ in l.breaks]
    for l in loops:
        if l.kind == 'While' and l.cond is not TRUE:
            exits.append((mnot(l.cond), l.loc))
    if not exits:
        R.ob('trim-fraction', site, None, 'no exit condition found')
    for c, loc in exits:
        ok = implies(c, goal) or fraction_implied(c, ek, et, e_)
        if ok:
            v = True
        else:
            v = None if opaque(c) or any(l.kind != 'While' for l in loops) else relates(c, e_, w)
        R.ob('trim-fraction', loc, v, '' if ok else 'the search stops when %s; that does not ensure the kept share of the '
             'effective sample size' % show(c, 8)[:500])


def relates(c, e_, w):
    """a stopping rule that compares a function of the weights with the requested share is understood well enough to be refuted"""
    return False if e_ in c.lv and w in c.lv else None


def fraction_implied(c, ek, et, e_):
    """the same comparison written with other denominators: c <=> f*(ek/et - ess) >= 0 with f > 0"""
    if c.op == 'and':
        return any(fraction_implied(x, ek, et, e_) for x in c.args)
    if c.op not in ('ge0', 'gt0'):
        return False
    d = c.args[0]
    for g in (sub(div(ek, et), e_), sub(ek, mul(et, e_)), sub(div(ek, mul(et, e_)), ONE), sub(div(et, ek), div(ONE, e_)),
              sub(ONE, div(mul(e_, et), ek))):
        f = g
        if same(d, f):
            return True
    r = div(d, sub(div(ek, et), e_))
    return positive(r)


def smallest_rule(R, site, c, v, m, w):
    """c(v): row v is kept; must be a threshold on its weight"""
    wv = at(w, v)
    neg_ = False
    while c.op == 'not':
        c = c.args[0]
        neg_ = not neg_
    if c.op in ('ge0', 'gt0'):
        ab = split_affine(c.args[0], wv)
        if ab is not None:
            a, b = ab
            if v in a.fv or v in b.fv:
                R.ob('trim-smallest', site, verdict(False, c), 'the threshold differs from row to row: %s' % show(c, 7)[:300])
                return
            up = True if positive(a) or nonneg(a) else False if positive(neg(a)) or nonneg(neg(a)) else None
            if up is not None:
                ok = up != neg_
                R.ob('trim-smallest', site, verdict(ok, c), '' if ok else 'rows with the smallest weights are kept: %s' % show(c, 7)[:300])
                return
    R.ob('trim-smallest', site, None, 'the kept rows are not given by a threshold on the weight: %s' % show(c, 7)[:300])


def fallback_rule(R, I, site, c, v, m, w, loops):
    """the last candidate of a downward search keeps every row, so that the search always ends"""
    mus = [(mu, d, l) for l in loops if l.kind == 'While' for mu, d in l.mus.items() if any(x is mu for x in walk(c))]
    if len(mus) != 1 or not same(mus[0][1]['step'], sub(mus[0][0], ONE)):
        return
    c0 = rewrite_exact(c, mus[0][0], ZERO)
    ps = [x for x in walk(c0) if x.op == 'app' and x.args[0] == 'percentile']
    if len(ps) != 1 or not is_num(ps[0].args[2]):
        return
    p = ps[0]
    q = numval(p.args[2])
    if q != 0:
        R.ob('trim-fallback', site, False, 'the last threshold tried is percentile %s, which can already cut away too much' % q)
        return
    wv = at(p.args[1], v)                       # the weights the percentile is taken of; the smallest is <= each of them
    z = fresh_sym('z')
    register(z, NONNEG)
    ok = implies(TRUE, rewrite_exact(c0, p, sub(wv, z)))
    R.ob('trim-fallback', site, verdict(ok, c0), '' if ok else 'with the lowest threshold the particles with the smallest weight are '
         'still removed; if all weights are equal nothing is left: %s' % show(c0, 7)[:300])


# ------------------------------------------------------------------ systematic resampling
def normalised(e, m, w):
    """is e(v) the normalised weight of row v, or the weight itself where the sum is one up to rounding"""
    S = total(m, w)
    out = []

    def go(t, near):
        if t.op == 'ite':
            c = t.args[0]
            n1 = near_one(c, S)
            n2 = near_one(mnot(c), S)
            return go(t.args[1], near or n1) and go(t.args[2], near or n2)
        v = ax(0)
        if same(t, div(at(w, v), S)):
            return True
        return near and same(t, at(w, v))
    return go(e, False)


def near_one(c, S):
    """does c imply |S - 1| <= tol for a small tol"""
    if c.op == 'and':
        return any(near_one(x, S) for x in c.args)
    if c.op == 'not':
        return near_neg(c.args[0], S)
    if c.op in ('ge0', 'gt0'):
        return near_cmp(c.args[0], S)
    if c.op == 'app' and c.args[0] in ('isclose', 'allclose'):
        return True
    if c.op == 'eq0':
        return same(c.args[0], sub(S, ONE)) or same(c.args[0], sub(ONE, S))
    return False


def near_neg(c, S):
    return c.op in ('ge0', 'gt0') and near_cmp(neg(c.args[0]), S)


def near_cmp(d, S):
    """d >= 0 limits |S - 1| to a tiny value"""
    ab = split_affine(d, mabs(sub(S, ONE)))
    if ab is None:
        return False
    a, b = ab
    if not is_num(a) or numval(a) >= 0:
        return False
    t = div(b, neg(a))
    return is_num(t) and 0 <= numval(t) <= 1e-6


def syst_rule(R):
    M, env = tools(R)
    I = M.I
    st = M.st.clone()
    m, w, W = weights(M, st)
    n = dimsym('n')
    before = I.arr(st, W)
    r = I.call(st, env['systematic_resample'], [n], {'weights': W}, None)
    s, e = I.arr(st, r)
    R.unit('tools.systematic_resample', I)
    site = 'tools.systematic_resample'
    ok = len(s) == 1 and same(s[0], n)
    R.ob('number', site, verdict(ok, *s), 'returns shape %s' % [show(q, 4) for q in s])
    rs = [x for x in I.rnds.values()]
    pos_forms(R, I, site, s, e, m, w, n, rs)


def position_ok(p, i, n, rnds):
    """p(i) = (r + i)/n with one uniform r drawn once -> (ok, text)"""
    rs = [x for x in p.lv if x.op == 'rnd']
    if len(rs) != 1:
        return False, 'positions use %d random numbers' % len(rs)
    d = next(d for d in rnds if d['base'] is rs[0])
    if d['shape'] not in ((), None) or any(v in d.get('ivs', ()) for v in ()):
        return False, 'every position has its own random number'
    if rs[0].args[1:]:
        return False, 'the random offset is drawn inside the loop'
    lo, hi = bounds_of(d)
    u = div(sub(rs[0], lo), sub(hi, lo)) if lo is not None else None
    if u is None:
        return None, 'distribution of the offset not recognised'
    got = sub(mul(p, n), i)
    # n*p - i must be uniform on [0, 1): affine in r with offset range [0, 1)
    if i in got.fv or i in got.lv:
        return False, 'positions are not spaced by 1/size: %s' % show(p, 6)[:200]
    if same(got, u) or same(got, sub(ONE, u)):
        return True, ''
    return False, 'offset of the positions is not uniform over one spacing: %s' % show(p, 6)[:200]


def bounds_of(d):
    if d['dist'] in ('uniform', 'random', 'rand', 'unif'):
        p = list(d['params'])
        if not p:
            return ZERO, ONE
        if len(p) == 2:
            return p[0], p[1]
    return None, None


def pos_forms(R, I, site, s, e, m, w, n, rnds):
    v = ax(0)
    clip = False
    t = e
    if t.op == 'min' and len(t.args) == 2:
        cap = sub(m, ONE)
        o = [a for a in t.args if not same(a, cap)]
        if len(o) == 1:
            t, clip = o[0], True
    if t.op == 'ite':
        pass
    if t.op == 'sum':
        # counting form: number of cumulative weights below the position
        q, cnt, body = tm.open_binder(t)
        c = body.args[0] if body.op == 'ite' and body.args[1] is ONE and body.args[2] is ZERO else None
        if c is None and body.op == 'ite' and body.args[1] is ZERO and body.args[2] is ONE:
            c = mnot(body.args[0])
        if c is None or not same(cnt, m) and not same(cnt, sub(m, ONE)):
            R.ob('scheme', site, None, 'not recognised: %s' % show(e, 7)[:300])
            return
        if same(cnt, sub(m, ONE)):
            clip = True
        d = c.args[0] if c.op in ('gt0', 'ge0') else None
        if c.op == 'not' and c.args[0].op in ('gt0', 'ge0'):
            d = neg(c.args[0].args[0])
        if d is None:
            R.ob('scheme', site, None, 'not recognised: %s' % show(c, 7)[:300])
            return
        f = rewrite_exact(d, v, ZERO)
        check(R, I, site, add_pos(d, v, q), v, q, m, w, n, rnds)
        R.ob('valid-index', site, clip, '' if clip else 'the index is not limited to the last weight when the weights sum to less than one')
        return
    if t.op != 'mu':
        R.ob('scheme', site, None, 'not recognised: %s' % show(e, 7)[:300])
        return
    loop_form(R, I, site, t, m, w, n, rnds, clip)


def add_pos(d, v, q):
    """d = pos(v) - cum(q): split"""
    z = rewrite_exact(d, v, ZERO)
    pos_i = sub(d, z)                                      # i/n part
    c0 = mk_part(z, q)
    return add(pos_i, sub(z, c0)), neg(c0)


def mk_part(z, q):
    """the summands of z that depend on q (through a sum over a prefix) """
    out = ZERO
    from ..terms import to_poly, from_poly
    for mth, c in to_poly(z).items():
        tt = from_poly({mth: c})
        if q in tt.fv or any(x.op == 'sum' for x in walk(tt)) and not any(x.op == 'rnd' for x in tt.lv):
            out = add(out, tt)
    return out


def check(R, I, site, pc, v, q, m, w, n, rnds):
    pos, cum = pc
    ok, why = position_ok(pos, v, n, rnds)
    R.ob('positions', site, ok, why)
    # cum(q) = sum_{j <= q} of the normalised weights
    z = fresh_iv('z')
    S = total(m, w)
    first = rewrite_exact(cum, q, ZERO)
    inc = sub(rewrite_exact(cum, q, add(ax(0), ONE)), rewrite_exact(cum, q, ax(0)))
    okc = normalised_gates(cum, q, m, w)
    R.ob('cumulative-weights', site, okc if okc or not opaque(cum) else None, '' if okc else
         'compared with %s' % show(cum, 8)[:300])


def normalised_gates(cum, q, m, w):
    S = total(m, w)

    def go(t, near):
        if t.op == 'ite':
            c = t.args[0]
            return go(t.args[1], near or near_one(c, S)) and go(t.args[2], near or near_one(mnot(c), S))
        z = fresh_iv('z')
        P = mk_sum(add(q, ONE), z, at(w, z))
        return same(t, div(P, S)) or near and same(t, P)
    if cum.op == 'sum':
        zz, nn, body = tm.open_binder(cum)
        if body.op == 'ite' and zz not in body.args[0].fv:
            cum = ite(body.args[0], mk_sum(nn, zz, body.args[1]), mk_sum(nn, zz, body.args[2]))
    elif cum.op == 'poly':
        gs = [g for g in closed_gates(cum)]
        if gs and cum.ite:
            g = gs[0]
            cum = ite(g, assume_facts(cum, facts_of(g, True)), assume_facts(cum, facts_of(g, False)))
    return go(cum, False)


def loop_form(R, I, site, t, m, w, n, rnds, clip):
    """index counter advanced while the cumulative weight is below the position"""
    li = next((l for l in I.loops.values() if any(same_mu(mu, t) for mu in l.mus)), None)
    if li is None:
        R.ob('scheme', site, None, 'loop of %s not found' % show(t))
        return
    jm = next(mu for mu in li.mus if same_mu(mu, t))
    J = li.mus[jm]
    i = next((a for a in jm.args[2:] if a.op == 'iv'), None)
    if i is None or not isinstance(li.cond, T) or li.breaks:
        R.ob('scheme', li.loc, None, 'not recognised')
        return
    cond = li.cond
    parts = list(cond.args) if cond.op == 'and' else [cond]
    posp = [p for p in parts if any(x.op == 'rnd' for x in p.lv)]
    rest = [p for p in parts if p not in posp]
    ok = any(implies(p, ge0(sub(sub(m, ONE), add(jm, ONE)))) or same_cmp(p, sub(sub(m, ONE), jm)) for p in rest) or clip
    R.ob('valid-index', li.loc, verdict(ok, cond), '' if ok else 'the index can pass the last weight: continues while %s' % show(cond, 7)[:300])
    ok = same(J['step'], add(jm, ONE)) and start_ok(J['init'], jm, i, ZERO)
    R.ob('counter', li.loc, verdict(ok, J['init'], J['step']), '' if ok else 'index starts at %s and steps to %s' % (
        show(J['init'], 6)[:200], show(J['step'], 6)[:200]))
    if len(posp) != 1 or posp[0].op not in ('gt0', 'ge0'):
        R.ob('positions', li.loc, None, 'loop condition not recognised: %s' % show(cond, 7)[:300])
        return
    d = posp[0].args[0]
    cums = [mu for mu in li.mus if mu is not jm and any(x is mu for x in walk(d))]
    if len(cums) == 1:
        cm = cums[0]
        C = li.mus[cm]
        pos = add(d, cm)
        if any(x is cm for x in walk(pos)):
            R.ob('positions', li.loc, None, 'loop condition not recognised: %s' % show(cond, 7)[:300])
            return
        okp, why = position_ok(pos, i, n, rnds)
        R.ob('positions', li.loc, okp, why)
        inc = sub(C['step'], cm)
        gen = rewrite_exact(inc, add(jm, ONE), ax(0)) if any(x is jm for x in walk(inc)) else None
        wn = None if gen is None or any(x is jm for x in walk(gen)) else gen
        if wn is None:
            ok = False
        else:
            ok = normalised(push(wn), m, w)
        R.ob('cumulative-weights', li.loc, verdict(bool(ok), C['step']), '' if ok else 'cumulative weight grows by %s' % show(inc, 7)[:300])
        if wn is not None:
            ok = start_ok(C['init'], cm, i, subst(wn, {ax(0): ZERO}))
            R.ob('cumulative-weights', li.loc + ' start', verdict(ok, C['init']), '' if ok else 'cumulative weight starts at %s' %
                 show(C['init'], 7)[:300])
        return
    # cumulative array indexed by the counter
    q = fresh_iv('q')
    d2 = rewrite_exact(d, jm, q)
    if cums or not any(x is q for x in walk(d2)):
        R.ob('positions', li.loc, None, 'loop condition not recognised: %s' % show(cond, 7)[:300])
        return
    check(R, I, li.loc, add_pos(d2, i, q), i, q, m, w, n, rnds)


def push(t):
    gs = [g for g in closed_gates(t)]
    if gs and t.ite and t.op != 'ite':
        g = gs[0]
        return ite(g, push(assume_facts(t, facts_of(g, True))), push(assume_facts(t, facts_of(g, False))))
    return t


def same_mu(a, b):
    return a.op == 'mu' and b.op == 'mu' and a.args[:2] == b.args[:2]


def same_cmp(p, d):
    return p.op == 'gt0' and same(p.args[0], d)


def start_ok(init, mu, i, first):
    """carried over from the previous position, starting from `first`"""
    prev = rewrite_exact(mu, i, sub(i, ONE))
    a = assume_facts(init, facts_of(gt0(i), True))
    b = subst(assume_facts(init, facts_of(gt0(i), False)), {i: ZERO})
    return same(a, prev) and same(b, first)
