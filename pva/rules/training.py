"""Training of the flow and of its geometry (C19)."""
from .runlevel import *
from .checkpoint import deep, deq
from ..values import *
from ..interp import PyRaise
from ..model import Model, Cfg

XS, WS = sym('X'), sym('W')


def tname(weighted, val, shuffle, noise):
    return 'Flow.fit(%s, %s%s%s)' % ('weights' if weighted else 'no weights', 'validation' if val else 'no validation',
                                     '' if shuffle else ', no shuffle', ', noise' if noise else '')


class Fit:
    def __init__(self, weighted, val, shuffle=True, noise=False, verbose=False, extra={}, hooks={}):
        self.weighted, self.val = weighted, val
        self.M = M = Model(ROOT, cfg=Cfg())
        I, st = M.I, M.st
        I.hooks.update(hooks)
        self.I, self.st = I, st
        S = M.build()
        I.hooks.pop('Flow.fit', None)
        self.F = I.get_attr(st, S, 'flow')
        self.flow = I.get_attr(st, self.F, 'flow')
        self.vs = scalar(I, 'vs', pos=True) if val else ZERO
        self.n0 = len(I.events)
        x = I.new_arr(st, (N, D), at(XS, ax(0), ax(1)))
        w = I.new_arr(st, (N,), at(WS, ax(0))) if weighted else NONE
        ep, bs, pa = scalar(I, 'epochs', pos=True), scalar(I, 'batch', pos=True), scalar(I, 'patience', pos=True)
        INTSYMS.update((ep, bs, pa))
        kw = dict(weights=w, validation_split=self.vs, epochs=ep, batch_size=bs, patience=pa,
                  shuffle=TRUE if shuffle else FALSE, verbose=scalar(I, 'verbose', nonneg_=True) if verbose else ZERO)
        if noise:
            kw['noise'] = scalar(I, 'noise', pos=True)
        self.extra = {k: scalar(I, k, pos=True) for k in extra if extra[k]}
        kw.update(self.extra)
        self.refs = dict(samples=x, weights=w)
        self.given = {k: deep(I, st, v) for k, v in self.refs.items()}
        self.ret = I.call_attr(st, self.F, 'fit', [x], kw, None)
        self.evs = I.events[self.n0:]

    def version(self, st):
        st = st.clone()
        return self.I.get_attr(st, self.I.get_attr(st, self.F, 'flow'), 'ver')

    def loaders(self):
        """[(event, [(shape, element)])]"""
        out = []
        for e in self.evs:
            if e.kind == 'loader':
                ds = e.args[1]
                ts = self.I.get_attr(self.st, ds, 'tensors')
                out.append((e, [self.I.arr(self.st, t) for t in ts.items]))
        return out


def index_of(t, base, rank):
    """i such that t = base[i, ax1...] """
    if t.op == 'at' and t.args[0] is base and len(t.args) >= 2:
        return t.args[1]
    return None


def positions(I, i):
    """(permutation, position in it): i is perm[pos] or just pos"""
    if i.op == 'at' and i.args[0].op == 'rnd':
        d = I.rnds.get(i.args[0].args[0], {})
        if d.get('dist') == 'perm' and not d.get('loader'):
            return i.args[0], i.args[1]
    return None, i


def data_rule(R, F, site):
    I = F.I
    ls = F.loaders()
    if not ls:
        R.ob('split', site, None, 'no data loader found')
        return None
    sets = []
    for e, ts in ls:
        if not ts:
            continue
        (xs, xe) = ts[0]
        ix = index_of(xe, XS, 2)
        if ix is None:
            R.ob('pairing', site, None, 'the samples of a data set are %s' % show(xe)[:200])
            return None
        if F.weighted:
            if len(ts) < 2:
                R.ob('pairing', site, False, 'a data set carries no weights')
                return None
            ws, we = ts[1]
            iw = index_of(we, WS, 1)
            if iw is None:
                R.ob('pairing', site, verdict(False, we), 'the weights of a data set are %s' % show(we)[:200])
                return None
            ok = same(ix, iw) and same(xs[0], ws[0])
            R.ob('pairing', '%s, data set %d' % (site, len(sets)), verdict(ok, ix, iw), '' if ok else
                 'position q of a data set holds sample %s but weight %s (lengths %s, %s)' % (
                     show(ix), show(iw), show(xs[0]), show(ws[0])))
            if not ok:
                return None
        perm, pos = positions(I, ix)
        sets.append((e, perm, pos, xs[0], ix))
        if len(e.args) > 4:
            dl = I.truth(F.st, e.args[4])
            R.ob('exhaust', '%s, data set %d' % (site, len(sets) - 1), verdict(dl is FALSE, dl),
                 '' if dl is FALSE else 'the loader drops the last samples')
    perms = {s[1] for s in sets}
    if len(perms) > 1:
        R.ob('split', site, verdict(False, *[s[4] for s in sets]), 'training and validation set are taken from differently '
             'ordered samples, so they overlap')
        return None
    pieces = [(sub(p, ax(0)), n) for e, q, p, n, i in sets]
    if any(ax(0) in a.fv for a, n in pieces):
        R.ob('split', site, None, 'the data sets are not contiguous')
        return None
    val = F.val
    if not val:
        ok = len(pieces) == 1 and same(pieces[0][0], ZERO) and same(pieces[0][1], N)
        R.ob('split', site, verdict(ok, *[q for p in pieces for q in p]), '' if ok else
             'without validation the training set is %s' % '; '.join('%s+q, q < %s' % (show(a), show(n)) for a, n in pieces))
        return sets
    if len(pieces) != 2:
        R.ob('split', site, False if len(pieces) < 2 else None, 'with a validation fraction there are %d data sets' % len(pieces))
        return None
    (a, la), (b, lb) = pieces
    ok = same(add(la, lb), N) and ((same(a, ZERO) and same(b, la)) or (same(b, ZERO) and same(a, lb)))
    R.ob('split', site, verdict(ok, a, b, la, lb), '' if ok else
         'the data sets are positions %s+q, q < %s and %s+q, q < %s of %s samples: not disjoint or not exhaustive' % (
             show(a), show(la), show(b), show(lb), show(N)))
    return sets


def train_index(F, sets):
    """which data set do the gradients come from"""
    bw = [e for e in F.evs if e.kind == 'call' and e.name == 'backward']
    return bw


def lp_sums(L):
    """(sum term, body, bound variable) of every sum whose body has a log probability of the flow"""
    out = []
    for s in tm.walk(L):
        if s.op == 'sum':
            body = s.args[1]
            if tm.contains(body, lambda x: x.op == 'app' and x.args[0] == 'flow_lp') and \
                    not tm.contains(body, lambda x: x.op == 'sum' and tm.contains(x, lambda y: y.op == 'app' and y.args[0] == 'flow_lp')):
                out.append((s, body, mk('bv', s.ht)))
    return out


def row_index(row):
    """index of the sample a row is"""
    if row.op == 'lam':
        b, v = row.args[1], mk('bv', row.ht)
        if b.op == 'at' and b.args[0] is XS and len(b.args) == 3 and b.args[2] is v:
            return b.args[1]
        return None
    if row.op == 'at' and row.args[0] is XS and len(row.args) == 2:
        return row.args[1]
    return None


def same_set(I, i, sets):
    """the data set an index ranges over (position in sets)"""
    perm, pos = positions(I, i)
    hits = []
    for k, (e, p, ps, n, ix) in enumerate(sets):
        if p is not perm:
            continue
        off = sub(ps, ax(0))
        d = sub(pos, off)
        # the position inside the set comes from the loader's own shuffling of that set, or runs over it directly
        if d.op == 'at' and d.args[0].op == 'rnd':
            r = I.rnds.get(d.args[0].args[0], {})
            if r.get('loader') and same(r['n'], n):
                hits.append(k)
    return hits


def loss_rule(R, F, site, sets):
    I = F.I
    bw = [e for e in F.evs if e.kind == 'call' and e.name == 'backward']
    if not bw:
        R.ob('weighted-loss', site, None, 'no gradient step found')
        return None
    train = None
    losses = [('gradient', e.args[0], e.loc) for e in bw]
    for e in F.evs:
        if e.kind == 'append' and len(e.args) > 1 and isinstance(e.args[1], T):
            losses.append(('recorded loss', e.args[1], e.loc))
    for what, L, loc in losses:
        if not isinstance(L, T):
            continue
        sums = lp_sums(L)
        if not sums:
            if what == 'gradient':
                R.ob('weighted-loss', loc, None, 'loss is %s' % show(L)[:200])
            continue
        for s, body, v in sums:
            lps = {x for x in tm.walk(body) if x.op == 'app' and x.args[0] == 'flow_lp'}
            if len(lps) != 1:
                R.ob('weighted-loss', '%s %s' % (loc, what), None, 'several densities in one term')
                continue
            lp = lps.pop()
            i = row_index(lp.args[2])
            if i is None:
                R.ob('weighted-loss', '%s %s' % (loc, what), None, 'the density is evaluated at %s' % show(lp.args[2])[:150])
                continue
            want = mul(lp, at(WS, i)) if F.weighted else lp
            q = div(body, want)
            ok = not tm.contains(q, lambda x: x is v)
            R.ob('weighted-loss', '%s %s' % (loc, what), verdict(ok, q), '' if ok else
                 'sample %s does not enter with its own weight: %s' % (show(i), show(body)[:250]))
        # minimising must raise the density: with a constant density l the loss is a negative multiple of l
        c = scalar(I, 'lconst')
        m = {}
        for x in tm.walk(L):
            if x.op == 'app' and x.args[0] == 'flow_lp':
                m[x] = c
        q = div(rewrite(L, m), c)
        k = numval(q)
        if k is None and what != 'gradient':
            # counts, numbers of samples and sums of weights are positive: the sign is that of the coefficients
            cs = [a for mono, a in to_poly(L).items() if any(tm.contains(f, lambda x: x.op == 'app' and x.args[0] == 'flow_lp') for f, _ in mono)]
            k = -1 if cs and all(a < 0 for a in cs) else 1 if cs and all(a > 0 for a in cs) else None
        if k is not None:
            R.ob('loss-sign', '%s %s' % (loc, what), k < 0, '' if k < 0 else 'the loss grows with the density of the samples')
    idx = set()
    for e in bw:
        for s, body, v in lp_sums(e.args[0]):
            for x in tm.walk(body):
                if x.op == 'app' and x.args[0] == 'flow_lp':
                    i = row_index(x.args[2])
                    if i is not None:
                        idx.add(tuple(same_set(I, i, sets)))
    return idx


def split_rule(R, F, site, sets, idx):
    """the gradients come from one set only, the monitored loss from the other, whose size is the requested fraction"""
    if len(idx) != 1 or len(list(idx)[0]) != 1:
        R.ob('train-set', site, None, 'the data set of the gradients is not identified')
        return None
    k = list(idx)[0][0]
    if F.val:
        n = sets[1 - k][3]
        want = app('int', mul(N, F.vs))
        e = mul(N, F.vs)
        alts = [app('int', e), app('round', e), app('floor', e), app('ceil', e), sub(N, app('int', sub(N, e))),
                app('int', app('floor', e)), app('int', app('ceil', e)), app('int', app('round', e)),
                sub(N, app('round', sub(N, e))), sub(N, app('int', app('ceil', sub(N, e)))), sub(N, app('ceil', sub(N, e)))]
        ok = any(same(n, a) for a in alts)
        R.ob('fraction', site, verdict(ok, n), '' if ok else
             'the validation set holds %s of %s samples, requested is the fraction %s' % (show(n)[:150], show(N), show(F.vs)))
    return k


def best_rule(R, F, site, sets, k):
    I = F.I
    ld = [e for e in F.evs if e.kind == 'flow-load']
    lps = [i for i in I.loops.values() if i.mus and not i.parent and i.stack and i.stack[-1].endswith('fit')
           and any(e.kind == 'call' and e.name == 'backward' and i.id in e.loops for e in F.evs)]
    if len(lps) != 1:
        R.ob('best-model', site, None, '%d epoch loops' % len(lps))
        return
    info = lps[0]
    if not info.breaks:
        R.ob('best-model', site, None, 'no early stopping found')
        return
    if not ld:
        R.ob('best-model', '%s %s' % (site, info.breaks[0][1]), False, 'early stopping does not restore any parameters')
        return
    for cond, loc, b in info.breaks:
        V = F.version(b)
        if not isinstance(V, T):
            try:
                V = I.term(b.clone(), V)
            except Exception:
                R.ob('best-model', '%s %s' % (site, loc), None, 'restored parameters not described')
                continue
        best_version(R, F, '%s %s' % (site, loc), info, V, sets, k, cond)


def best_version(R, F, site, info, V, sets, k, cond):
    I = F.I
    end = info.end
    vend = F.version(end) if end is not None else None
    cands = [c for c in {x.args[0] for x in tm.walk(V) if x.op == 'ite'}]
    # the versions that can be restored, by whether the monitored loss improved
    mus = {m: d for m, d in info.mus.items()}
    done = False
    why = 'the restored parameters are %s' % show(V, 5)[:300]
    for m, d in mus.items():
        if d['rank'] != 0 or not isinstance(d['step'], T) or not isinstance(d['init'], T):
            continue
        st_ = d['step']
        if st_.op != 'ite' or st_.args[2] is not m and st_.args[1] is not m:
            continue
        pos = st_.args[2] is m
        c, L = st_.args[0], (st_.args[1] if pos else st_.args[2])
        if not tm.contains(c, lambda x: x is m):
            continue                      # not the tracked loss
        imp = c if pos else mnot(c)
        if not (same(imp, lt(L, m)) or same(imp, le(L, m))):
            if tm.contains(L, lambda x: x.op == 'app' and x.args[0] == 'flow_lp'):
                why = 'the best loss %s is replaced by %s if %s' % (show(m), show(L, 4)[:150], show(imp, 4)[:150])
                R.ob('best-model', site, verdict(False, L, imp), why)
                return
            continue
        # monitored loss
        sets_of = set()
        for s, body, v in lp_sums(L):
            for x in tm.walk(body):
                if x.op == 'app' and x.args[0] == 'flow_lp':
                    i = row_index(x.args[2])
                    sets_of.add(tuple(same_set(I, i, sets)) if i is not None else ())
        want = (1 - k) if F.val else k
        ok = sets_of == {(want,)}
        R.ob('monitored-loss', site, True if ok else None if not sets_of or () in sets_of else False, '' if ok else
             'the monitored loss is not the %s loss' % ('validation' if F.val else 'training'))
        ok = d['init'] is tm.INF
        R.ob('best-model', '%s: initial loss' % site, verdict(ok, d['init']) if not ok else True, '' if ok else
             'the tracked best loss starts at %s, so epochs may never count as the best' % show(d['init']))
        yes, no = facts_of(imp, True), facts_of(imp, False)
        Vy, Vn = assume_facts(V, yes), assume_facts(V, no)
        # when not improved: the version kept from an earlier epoch
        if Vn.op != 'mu' and Vn not in mus:
            R.ob('best-model', site, verdict(False, Vn), 'after an epoch without improvement early stopping restores %s, '
                 'not the parameters kept from the best epoch' % show(Vn, 4)[:200])
            return
        dn = mus.get(Vn)
        if dn is None or not isinstance(dn['step'], T):
            R.ob('best-model', site, None, 'kept parameters %s' % show(Vn)[:100])
            return
        sy, sn = assume_facts(dn['step'], yes), assume_facts(dn['step'], no)
        ok = same(sn, Vn)
        R.ob('best-model', '%s: no improvement' % site, verdict(ok, sn), '' if ok else
             'an epoch without improvement replaces the kept parameters by %s' % show(sn, 4)[:200])
        ok = isinstance(vend, T) and same(assume_facts(sy, {}), assume_facts(vend, {}))
        R.ob('best-model', '%s: improvement' % site, verdict(ok, sy), '' if ok else
             'an epoch that improves the monitored loss keeps %s, the parameters of that epoch are %s' % (
                 show(sy, 4)[:150], show(vend, 4)[:150] if isinstance(vend, T) else vend))
        if not same(Vy, sy) and assume_facts(cond, yes) is not FALSE:
            R.ob('best-model', '%s: restored' % site, verdict(False, Vy), 'restored after an improvement: %s' % show(Vy, 4)[:200])
        done = True
    if not done:
        # the choice cannot be the best epoch if it does not look at anything an earlier epoch left behind
        past = [x for x in tm.walk(V) if x in mus and not str(x.args[1]).endswith('.ver')]
        R.ob('best-model', site, verdict(False, V) if not past else None,
             'what early stopping restores does not depend on the losses of earlier epochs; ' + why)


def fit_rule(R, weighted, val, shuffle=True, noise=False):
    site = tname(weighted, val, shuffle, noise)
    try:
        F = Fit(weighted, val, shuffle, noise)
    except PyRaise as e:
        R.ob('split', site, False, 'training raises %s' % e)
        return
    R.unit(site, F.I)
    sets = data_rule(R, F, site)
    if not sets or noise:
        return
    idx = loss_rule(R, F, site, sets)
    if idx is None:
        return
    k = split_rule(R, F, site, sets, idx)
    if k is None:
        return
    best_rule(R, F, site, sets, k)


# ------------------------------------------------------------------ what the sampler trains on
OPTS = ('validation_split', 'epochs', 'patience', 'learning_rate', 'annealing', 'gaussian_scale', 'laplace_scale', 'noise',
        'shuffle', 'clip_grad_norm', 'verbose')


def is_w(I, st, v):
    """element of an array that is the weights up to a common factor"""
    if v is None or v is NONE:
        return False, None
    s, e = I.arr(st, v)
    if len(s) != 1:
        return None, e
    q = div(e, at(WS, ax(0)))
    return (not tm.contains(q, lambda x: x is ax(0))), e


def draw_ok(I, t):
    """is t a draw of positions with the normalised weights"""
    if t.op == 'at' and t.args[0].op == 'rnd':
        d = I.rnds.get(t.args[0].args[0], {})
        p = d.get('p')
        if d.get('dist') == 'index' and p is not None:
            q = fresh_iv('q')
            want = div(at(WS, ax(0)), mk_sum(N, q, at(WS, q)))
            return same(p[1], want)
        if d.get('dist') == 'index':
            return False
    return None


def train_rule(R, case):
    cfg = Cfg(precondition=case != 'no flow')
    M = Model(ROOT, cfg=cfg)
    I, st = M.I, M.st
    tc = {k: sym('opt_' + k) for k in OPTS + ('batch_size',)}
    for k in ('annealing', 'shuffle'):
        tc[k] = mk('bool', tc[k])
    S = M.build(train_config=I.alloc(st, DictC(dict(tc))))
    I.hooks['systematic_resample'] = h_syst
    site = 'Sampler._train (%s)' % case
    cp = I.alloc(st, DictC(dict(u=I.new_arr(st, (N, D), at(XS, ax(0), ax(1))), weights=I.new_arr(st, (N,), at(WS, ax(0))),
                                beta=scalar(I, 'beta_now', nonneg_=True), iter=sub(sym('t_now'), ONE))))
    t = scalar(I, 't_now', nonneg_=True)
    INTSYMS.add(t)
    I.set_attr(st, S, 't', t, None)
    if case == 'trained before':
        I.set_attr(st, S, 'flow_untrained', FALSE, None)
    n0 = len(I.events)
    I.call_attr(st, S, '_train', [cp], {}, None)
    R.unit(site, I)
    evs = I.events[n0:]
    fits = [e for e in evs if e.kind == 'flow-fit']
    flow = I.get_attr(st, I.get_attr(st, S, 'flow'), 'flow')
    if case == 'no flow':
        if fits:
            R.ob('training-data', site, verdict(fits[0].pc is FALSE, fits[0].pc), 'a flow is trained without preconditioning')
    elif not fits:
        R.ob('training-data', site, False if case == 'untrained' else None, 'the flow is not trained')
        return
    if case == 'untrained' and len(fits) == 1 and fits[0].pc is not TRUE:
        R.ob('training-data', site, verdict(False, fits[0].pc), 'the flow may be used without ever having been trained')
    for e in fits:
        x = e.args[0] if e.args else e.kw.get('x')
        s, xe = I.arr(st, x)
        ok = same(xe, at(XS, ax(0), ax(1))) and len(s) == 2
        R.ob('training-data', '%s flow samples' % e.loc, verdict(ok, xe), '' if ok else
             'the flow is trained on %s, the current particles are X' % show(xe)[:150])
        w = e.args[1] if len(e.args) > 1 else e.kw.get('weights')
        ok, we = is_w(I, st, w)
        R.ob('training-data', '%s flow weights' % e.loc, ok if ok or ok is None or we is None else verdict(False, we), '' if ok else
             'the flow is trained with weights %s, the current weights are W' % (show(we)[:150] if we is not None else None))
        for k in OPTS:
            if k in e.kw:
                ok = e.kw[k] is tc[k] or (isinstance(e.kw[k], T) and same(I.term(st, e.kw[k]), tc[k]))
                R.ob('training-options', '%s %s' % (e.loc, k), True if ok else verdict(False, I.term(st, e.kw[k])), '' if ok else
                     'option %s of the training is %s, configured is %s' % (k, show(I.term(st, e.kw[k]))[:80], show(tc[k])))
    # geometry
    ver = I.get_attr(st, flow, 'ver')
    facts = [({}, '')]
    if case == 'trained before' and fits:
        c = fits[0].pc
        facts = [(facts_of(c, True), 'trained'), (facts_of(c, False), 'not trained')]
    for f, nm in facts:
        gname = 'theta_geometry' if case != 'no flow' else 'u_geometry'
        if nm == 'not trained':
            g0 = I.get_attr(st, S, gname)
            v = I.get_attr(st, g0, 'normal_mean')
            q = v
            while isinstance(q, Choice):
                cc = assume_facts(q.c, f)
                if cc not in (TRUE, FALSE):
                    break
                q = q.a if cc is TRUE else q.b
            R.ob('geometry', '%s, %s' % (site, nm), True if q is NONE else None if isinstance(q, Choice) else False,
                 '' if q is NONE else 'the geometry of the latent space changes although the flow is not retrained on it')
            continue
        G = I.get_attr(st, S, gname)
        v = I.get_attr(st, G, 'normal_mean')
        while isinstance(v, Choice):
            cc = assume_facts(v.c, f)
            if cc not in (TRUE, FALSE):
                break
            v = v.a if cc is TRUE else v.b
        if v is NONE:
            R.ob('geometry', '%s, %s' % (site, gname), False, 'the geometry used for the proposals is not fitted')
            continue
        s, e = I.arr(st, v)
        e = assume_facts(e, f)
        vv = assume_facts(ver, f) if isinstance(ver, T) else I.term(st, ver)
        q, j = fresh_iv('q'), fresh_iv('j')

        def el(i, jj):
            if case == 'no flow':
                return at(XS, i, jj)
            return app('flow_fwd', vv, at(XS, i), jj)
        want = div(mk_sum(N, q, mul(at(WS, q), el(q, ax(0)))), mk_sum(N, q, at(WS, q)))
        ok = same(e, want)
        R.ob('geometry', '%s, %s mean' % (site, gname), verdict(ok, e), '' if ok else
             'the mean of the geometry is %s, expected the weighted mean %s' % (show(e)[:200], show(want)[:200]))
        ok = depends(I, st, I.get_attr(st, G, 'normal_cov'), f)
        R.ob('geometry', '%s, %s covariance' % (site, gname), ok, '' if ok else 'the covariance does not use the current weights')
        sf = [ev_ for ev_ in evs if ev_.kind == 'student-fit' and assume_facts(ev_.pc, f) is not FALSE]
        done = False
        for ev_ in sf:
            s, e = I.arr(st, ev_.args[0])
            e = assume_facts(e, f)
            ixs = {x.args[1] for x in tm.walk(e) if x.op == 'at' and x.args[0] is XS and len(x.args) >= 2}
            if len(ixs) != 1:
                continue
            i = ixs.pop()
            if same(e, el(i, ax(1))):
                ok = draw_ok(I, i)
                R.ob('geometry', '%s, %s tails' % (site, gname), ok if i is not ax(0) else False, '' if ok else
                     'the t distribution is fitted to samples drawn as %s, not by the current weights' % show(i)[:120])
                done = True
        if not done and sf:
            s, e = I.arr(st, sf[0].args[0])
            R.ob('geometry', '%s, %s tails' % (site, gname), verdict(False, e), 'the t distribution is fitted to %s' % show(e)[:200])


def depends(I, st, v, f):
    while isinstance(v, Choice):
        cc = assume_facts(v.c, f)
        if cc not in (TRUE, FALSE):
            return None
        v = v.a if cc is TRUE else v.b
    if v is NONE:
        return False
    s, e = I.arr(st, v)
    e = assume_facts(e, f)
    has = lambda b: tm.contains(e, lambda x: x is b)
    if has(WS) and has(XS):
        return True
    return verdict(False, e)


def schedule_rule(R):
    """when the flow is trained: first time, every train_frequency-th iteration, and at inverse temperature one"""
    from ..tabulate import Table, Unknown
    M = Model(ROOT, cfg=Cfg(precondition=True))
    I, st = M.I, M.st
    F = scalar(I, 'opt_train_frequency', pos=True)
    INTSYMS.add(F)
    S = M.build(train_frequency=F)
    I.hooks['systematic_resample'] = h_syst
    site = 'Sampler._train schedule'
    cps, fits = [], []
    for k in (1, 2):
        b = scalar(I, 'beta_%d' % k, nonneg_=True)
        t = scalar(I, 't_%d' % k, nonneg_=True)
        INTSYMS.add(t)
        cp = I.alloc(st, DictC(dict(u=I.new_arr(st, (N, D), at(XS, ax(0), ax(1))), weights=I.new_arr(st, (N,), at(WS, ax(0))), beta=b, iter=sub(t, ONE))))
        I.set_attr(st, S, 't', t, None)
        n0 = len(I.events)
        I.call_attr(st, S, '_train', [cp], {}, None)
        fits.append([e for e in I.events[n0:] if e.kind == 'flow-fit'])
        cps.append((t, b))
    R.unit(site, I)
    c1 = mor(*[e.pc for e in fits[0]]) if fits[0] else FALSE
    c2 = mor(*[e.pc for e in fits[1]]) if fits[1] else FALSE
    for k, c, nm in ((0, c1, 'first iteration'), (1, c2, 'later iteration')):
        t, b = cps[k]
        free = bad = None
        n = 0
        try:
            for tv in range(0, 13):
                for fv in (1, 2, 3, 5, 12):
                    for bv in (0.0, 0.25, 0.5, 0.75, 1.0):
                        B = Table({t: float(tv), b: bv, F: float(fv)})
                        got = bool(B(c))
                        if B.free:
                            free = sorted(show(x)[:60] for x in B.free)
                        n += 1
                        want = k == 0 or tv % fv == 0 or bv == 1.0
                        if got != want and bad is None:
                            bad = (tv, fv, bv, got)
        except Unknown as e:
            R.ob('schedule', '%s, %s' % (site, nm), None, 'condition not evaluated: %s' % (e,))
            continue
        if bad is None:
            R.ob('schedule', '%s, %s' % (site, nm), True if not free else None, '' if not free else 'depends on %s' % free)
        else:
            R.ob('schedule', '%s, %s' % (site, nm), None if free else False,
                 'at iteration %d with train_frequency %d and beta %g the flow is %strained (condition %s)' % (bad[0], bad[1], bad[2], '' if bad[3] else 'not ', show(c, 5)[:200]))


def order_rule(R, X):
    """in a run: what the kernel proposes with is brought up to date in the same iteration, before the kernel"""
    I = X.I
    name = rname(X.cfg)
    ks = [e for e in I.events if e.kind == 'kernel' and e.pc is not FALSE]
    want = 'flow-fit' if X.cfg.precondition else 'student-fit'
    what = 'training of the flow' if X.cfg.precondition else 'fit of the geometry'
    fs = [e for e in I.events if e.kind == want and e.pc is not FALSE]
    for k in ks:
        same_it = [e for e in fs if e.loops[:len(k.loops)] == k.loops]
        before = [e for e in same_it if e.seq < k.seq]
        ok = bool(before)
        R.ob('before-kernel', '%s [%s]' % (k.loc, name), True if ok else False if same_it or not fs else None, '' if ok else
             'no %s between the reweighting of an iteration and its kernel%s' % (what, ' (it comes after the kernel)' if same_it else ''))


def current_rule(R, cfg):
    """in a run: the flow is trained with the particles and weights the same iteration resamples from"""
    from .runlevel import run
    X = run(R, cfg)
    I, st = X.I, X.st
    order_rule(R, X)
    for e in I.events:
        if e.kind != 'flow-fit':
            continue
        sx, xe = e.extra['xs'], e.extra['xe']
        ws, we = e.extra['ws'], e.extra['we']
        rs = [d for d in I.rnds.values() if d.get('dist') == 'index' and d.get('p') is not None and d['loops'] == e.loops
              and d['stack'] and d['stack'][-1].endswith('_resample')]
        ks = [q for q in I.events if q.kind == 'kernel' and q.loops == e.loops]
        if len(rs) != 1 or not ks or we is None:
            R.ob('training-data', e.loc, None, 'resampling of the iteration not identified')
            continue
        p = rs[0]['p'][1]
        n = ws[0]
        q = fresh_iv('q')
        want = div(we, mk_sum(n, q, subst(we, {ax(0): q})))
        ok = same(p, want) or same(p, we)
        R.ob('training-data', '%s current weights' % e.loc, verdict(ok, p, we), '' if ok else
             'the flow is trained with other weights than the iteration resamples with')
        su = ks[-1].extra['snap'].get(('state', 'u'))
        if su is None:
            continue
        i = at(rs[0]['base'], ax(0)) if rs[0].get('base') is not None else None
        if i is not None:
            want = subst(xe, {ax(0): i})
            ok = same(su[1], want)
            R.ob('training-data', '%s current particles' % e.loc, verdict(ok, su[1], want), '' if ok else
                 'the flow is trained on other particles than the iteration resamples from')
