"""Rules over a generic recorded history: posterior, weights, results."""
from .temper import *
from ..drive import HFIELDS, h_syst


def H_est(H):
    f = lambda n: (lambda *ix: at(sym('h_' + n), *ix))
    return Est(f('logl'), f('beta'), f('logz'), H.T, NA)


_h = {}


def history(R, cfg):
    key = repr(cfg)
    if key not in _h:
        H = History(cfg)
        H.I.hooks['systematic_resample'] = h_syst
        _h[key] = H
    H = _h[key]
    R.unit('history,%s' % rname(cfg), H.I)
    return H


def index_of(e, name, rank):
    """e = h_name[flat_t(i), flat_k(i), (ax1)] -> i"""
    if e.op != 'at' or e.args[0] is not sym('h_' + name) or len(e.args) != 2 + rank:
        return None
    a, b = e.args[1], e.args[2]
    if rank == 2 and e.args[3] is not ax(1):
        return None
    if a.op == 'app' and a.args[0] == 'flat_t' and b.op == 'app' and b.args[0] == 'flat_k' and a.args[1] is b.args[1] \
            and a.args[2] is NA and b.args[2] is NA:
        return a.args[1]
    return None


def snapshot(H, st):
    out = {}
    for f in HFIELDS:
        if f == 'blobs' and not H.cfg.blobs:
            continue
        s2 = st.clone()
        v = H.I.call_attr(s2, H.P, 'get', [const(f)], {}, None)
        out[f] = H.I.arr(s2, v)
    return out


def posterior_rule(R, H):
    I = H.I
    est = H_est(H)
    before = snapshot(H, H.fork())
    for resample in (False, True):
        for blobs in ((False, True) if H.cfg.blobs else (False,)):
            for trim in (True, False):
                for lw in (False, True):
                    site = 'Sampler.posterior(resample=%s, return_blobs=%s, trim_importance_weights=%s, return_logw=%s)' % (
                        resample, blobs, trim, lw)
                    R.guard('posterior', site, lambda: posterior_one(R, H, est, before, resample, blobs, trim, lw, site))


def posterior_one(R, H, est, before, resample, blobs, trim, lw, site):
    I = H.I
    st = H.fork()
    b = lambda x: TRUE if x else FALSE
    r = I.call_attr(st, H.S, 'posterior', [], dict(resample=b(resample), return_blobs=b(blobs),
                                                   trim_importance_weights=b(trim), return_logw=b(lw)), None)
    items = list(r.items)
    roles = ['x'] + ([] if resample else ['w']) + ['logl', 'logp'] + (['blobs'] if blobs else [])
    if len(items) != len(roles):
        R.ob('posterior-rows', site, False, 'returns %d arrays instead of %d' % (len(items), len(roles)))
        return
    vals = {k: I.arr(st, v) for k, v in zip(roles, items)}
    idx = {}
    for f in roles:
        if f == 'w':
            continue
        s, e = vals[f]
        ix = index_of(e, f, 2 if f == 'x' else 1)
        if ix is None:
            R.ob('posterior-rows', '%s %s' % (site, f), verdict(False, e), '%s is not taken from the recorded %s: %s' % (
                f, f, show(e, 5)[:300]))
            return
        idx[f] = ix
    i0 = idx['x']
    for f in idx:
        ok = idx[f] is i0
        R.ob('posterior-rows', '%s %s' % (site, f), ok, '' if ok else 'rows of %s come from particle %s, samples from %s' % (
            f, show(idx[f], 6)[:200], show(i0, 6)[:200]))
    n = vals['x'][0][0]
    for f in roles:
        ok = same(vals[f][0][0], n)
        R.ob('posterior-rows', '%s length of %s' % (site, f), verdict(ok, n, vals[f][0][0]), '%s against %s' % (
            show(vals[f][0][0], 4)[:200], show(n, 4)[:200]) if not ok else '')
    W = lambda i: exp(est.logW(app('flat_t', i, NA), app('flat_k', i, NA), ONE))
    if not resample:
        s, w = vals['w']
        if lw:
            q = div(exp(w), W(i0))
            ok = ax(0) not in q.fv
            R.ob('posterior-weights', site, verdict(ok, w), '' if ok else 'log-weight minus log importance weight varies: %s' %
                 show(q, 7)[:300])
            if not trim:
                k = fresh_iv('k')
                want = sub(est.logW(app('flat_t', i0, NA), app('flat_k', i0, NA), ONE),
                           log(mk_sum(n, k, W(subst(i0, {ax(0): k})))))
                ok = same(w, want)
                R.ob('posterior-weights', site + ' normalised', verdict(ok, w), '' if ok else show(w, 7)[:300])
        else:
            k = fresh_iv('k')
            want = div(W(i0), mk_sum(n, k, W(subst(i0, {ax(0): k}))))
            ok = same(w, want)
            R.ob('posterior-weights', site, verdict(ok, w), '' if ok else 'weight %s, expected %s' % (
                show(w, 8)[:400], show(want, 8)[:400]))
    else:
        rs = [x for x in i0.lv if x.op == 'rnd']
        if len(rs) != 1 or I.rnds[rs[0].args[0]]['dist'] != 'index':
            R.ob('posterior-resample', site, verdict(False, i0), 'not drawn by one resampling: %s' % show(i0, 6)[:300])
            return
        d = I.rnds[rs[0].args[0]]
        r0 = next((y for y in walk(i0) if y.op == 'at' and y.args[0] is rs[0]), None)
        src = rewrite_term(i0, r0, ax(0))
        p = d['p']
        nn = d['n']
        pe = p[1] if p else div(ONE, nn)
        k = fresh_iv('k')
        want = div(W(src), mk_sum(nn, k, W(subst(src, {ax(0): k}))))
        ok = same(pe, want) and d['replace'] is TRUE
        R.ob('posterior-resample', site, verdict(ok, pe), '' if ok else 'row k is drawn with probability %s, its weight is %s' % (
            show(pe, 8)[:300], show(want, 8)[:300]))
    after = snapshot(H, st)
    bad = [f for f in before if not (after[f][1] is before[f][1] and all(a is b for a, b in zip(after[f][0], before[f][0])))]
    R.ob('history-unchanged', site, not bad, 'the call changes the recorded %s' % bad if bad else '')


def logw_rule(R, H):
    """the estimator for a generic history and inverse temperature"""
    I = H.I
    est = H_est(H)
    beta = scalar(I, 'b', nonneg_=True)
    for b, nm in ((beta, 'beta'), (ONE, '1'), (None, 'default')):
        st = H.fork()
        r = I.call_attr(st, H.P, 'compute_logw_and_logz', [] if b is None else [b], {}, None)
        bb = ONE if b is None else b
        s, e = I.arr(st, r.items[0])
        z = I.term(st, r.items[1])
        site = 'Particles.compute_logw_and_logz(%s)' % nm
        i = ax(0)
        t, k = app('flat_t', i, NA), app('flat_k', i, NA)
        W = exp(est.logW(t, k, bb))
        q = div(exp(e), W)
        ok = ax(0) not in q.fv
        R.ob('importance-weights', site, verdict(ok, e), '' if ok else 'log-weight %s' % show(e, 8)[:400])
        ok = same(s[0], mul(H.T, NA))
        R.ob('importance-weights', site + ' one per particle', verdict(ok, s[0]), show(s[0], 4))
        a, c = fresh_iv('a'), fresh_iv('c')
        tot = mk_sum(H.T, a, mk_sum(NA, c, exp(est.logW(a, c, bb))))
        want = sub(est.logW(t, k, bb), log(tot))
        ok = same(e, want)
        R.ob('importance-weights', site + ' normalised', verdict(ok, e), '' if ok else 'log-weight %s, expected %s' % (
            show(e, 8)[:300], show(want, 8)[:300]))
        want = est.logZ(bb)
        ok = same(z, want)
        R.ob('evidence-estimator', site, verdict(ok, z), '' if ok else 'evidence %s, expected %s' % (
            show(z, 8)[:300], show(want, 8)[:300]))
