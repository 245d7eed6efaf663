"""The recorded history (C17): append-only, never written again, completely shown by the results."""
from .runlevel import *
from .temper import hist, View
from .checkpoint import generic, induct, PATH
from ..drive import HIST, HFIELDS
from ..values import *
from ..interp import PyRaise
from ..model import Model, Cfg
from . import kernel as kn
from . import scaler as sc

KEYS = ('u', 'x', 'logdetj', 'logl', 'logp', 'logw', 'blobs', 'iter', 'logz', 'calls', 'steps', 'efficiency', 'ess', 'accept', 'beta')


def lists(I, st, P):
    """{list id: key} of the recorded history in this state"""
    out, todo, seen = {}, [(P, '')], set()
    while todo:
        r, key = todo.pop()
        if not isinstance(r, Ref) or r.id in seen:
            continue
        seen.add(r.id)
        c = I.cell(st, r)
        if isinstance(c, ListC):
            out[r.id] = key
        elif isinstance(c, DictC):
            todo += [(v, str(k)) for k, v in c.items.items()]
        elif isinstance(c, ObjC):
            todo += [(v, str(k)) for k, v in c.attrs.items() if not str(k).startswith('$') and k != 'results_dict']
    return out


def writes_rule(R, unit, I, L, n0=0, mutates=None):
    """no store into an array that is recorded"""
    evs = I.events[n0:]
    app_ = [e for e in evs if e.kind == 'append' and isinstance(e.args[0], Ref) and e.args[0].id in L]
    n = bad = 0
    for e in evs:
        if e.kind == 'mutate' and e.pc is not FALSE:
            fl = e.extra.get('flags') or ()
            hit = [L[f[1]] for f in fl if isinstance(f, tuple) and f[0] == 'listed' and f[1] in L]
            part = [f[1] for f in fl if isinstance(f, tuple) and f[0] == 'part' and f[1] in L]
            n += 1
            if hit:
                bad += 1
                R.ob('written-once', '%s [%s]' % (e.loc, unit), False, 'the recorded %s is changed in place' % ', '.join(sorted(set(hit))))
            elif part:
                ok = disjoint(e, [a for a in app_ if a.args[0].id in part])
                if ok is not True:
                    bad += 1
                    R.ob('written-once', '%s [%s]' % (e.loc, unit), ok, 'an array the recorded %s is a part of is changed in place' %
                         ', '.join(sorted({L[p] for p in part})))
        if e.kind in ('list-pop', 'list-set', 'list-del', 'list-insert', 'list-remove', 'list-clear', 'list-reverse', 'list-sort') and e.args and \
                isinstance(e.args[0], Ref) and e.args[0].id in L and e.pc is not FALSE:
            bad += 1
            R.ob('append-only', '%s [%s]' % (e.loc, unit), False, 'the history of %s is edited (%s)' % (L[e.args[0].id], e.kind))
        if e.kind == 'kernel' and mutates is not None:
            for f, fl in (e.extra.get('fl') or {}).items():
                if any(isinstance(q, tuple) and q[0] in ('listed', 'part') and q[1] in L for q in fl) and f in mutates:
                    bad += 1
                    R.ob('written-once', '%s [%s]' % (e.loc, unit), False, 'the kernel changes the recorded %s in place' % f)
    R.ob('written-once', unit, not bad, '%d stores, %d recordings' % (n, len(app_)))


def disjoint(e, apps):
    """a store into another slice of the array the recorded slices are taken from"""
    m = e.extra.get('maps')
    if m is None:
        return False
    for a in apps:
        am = a.extra.get('maps')
        if am is None:
            continue
        if not (len(am) == len(m) and all(x[0] == y[0] and all(p is q for p, q in zip(x[1:], y[1:])) for x, y in zip(am, m))):
            return None
        if not a.loops or a.loops != e.loops:
            return None
        if e.seq > a.seq:
            return False
        # consecutive blocks: start = n*i + c with n the length of the block
        iv = [v for v, _ in a.ivs]
        if not iv:
            return None
        i = iv[-1]
        if not any(x[0] != 'ix' and isinstance(x[2], T) and i in x[2].fv for x in m):
            return None
    return True


def lens(I, st, P):
    return {k: (r, I.list_len(I.cell(st, Ref(r)))) for r, k in lists(I, st, P).items()}


def alternatives(I, st, P):
    """{key: [(list, length)]} with every list a conditional value can be"""
    out = {}

    def go(v, key, depth):
        if isinstance(v, Choice):
            go(v.a, key, depth)
            go(v.b, key, depth)
        elif isinstance(v, Ref) and depth < 5:
            c = I.cell(st, v)
            if isinstance(c, ListC):
                out.setdefault(key, []).append((v, I.list_len(c)))
            elif isinstance(c, DictC):
                for k, x in c.items.items():
                    go(x, str(k), depth + 1)
            elif isinstance(c, ObjC):
                for k, x in c.attrs.items():
                    if not str(k).startswith('$') and k != 'results_dict':
                        go(x, str(k), depth + 1)
    go(P, '', 0)
    return out


def growth_rule(R, X, info, unit, blobs):
    """one iteration of a recording loop appends one entry to every list and leaves the others"""
    I = X.I
    hs, es = info.head.clone(), info.end.clone()
    P = I.get_attr(hs, X.S, 'particles')
    P2 = I.get_attr(es, X.S, 'particles')
    a, b = lens(I, hs, P), lens(I, es, P2)
    va, vb = alternatives(I, hs, P), alternatives(I, es, P2)
    for k in KEYS:
        if k in va and k in vb and (k not in a or k not in b):
            # one of several lists, depending on a condition
            for r, n in vb[k]:
                ok = any(same(sub(n, n0), ONE) for _, n0 in va[k])
                R.ob('every-key', '%s %s [%s]' % (info.loc, k, unit), True if ok else verdict(False, n, *[x for _, x in va[k]]), '' if ok else
                     'an iteration can leave %s entries of %s instead of %s' % (show(n)[:200], k, ' or '.join(show(add(x, ONE))[:200] for _, x in va[k])))
            continue
        if k not in a or k not in b:
            R.ob('every-key', '%s %s [%s]' % (info.loc, k, unit), None if not a else False, 'there is no history of %s' % k)
            continue
        ok = same(sub(b[k][1], a[k][1]), ONE)
        R.ob('every-key', '%s %s [%s]' % (info.loc, k, unit), verdict(ok, b[k][1], a[k][1]), '' if ok else
             'an iteration adds %s entries of %s' % (show(sub(b[k][1], a[k][1]))[:200], k))
        if not ok or (k == 'blobs' and not blobs):
            continue
        s0, e0 = hist(X, info.head, k)
        s1, e1 = hist(X, info.end, k)
        q = fresh_iv('q')
        fs = dict(facts_of(gt0(sub(s0[0], q)), True))
        facts_of(ge0(q), True, fs)
        x0 = assume_facts(subst(e0, {ax(0): q}), fs)
        x1 = assume_facts(subst(e1, {ax(0): q}), fs)
        ok = same(x0, x1)
        R.ob('append-only', '%s %s [%s]' % (info.loc, k, unit), verdict(ok, x0, x1), '' if ok else
             'entry q of %s was %s and is %s after the iteration' % (k, show(x0, 5)[:200], show(x1, 5)[:200]))
        if k == 'iter':
            new = subst(e1, {ax(0): s0[0]})
            want = s0[0]
            if want in info.mus:
                new = rewrite(new, {m: want for m in info.mus if m is not want and induct(info, m, want)})
            ok = same(new, want)
            R.ob('iteration-index', '%s [%s]' % (info.loc, unit), verdict(ok, new), '' if ok else
                 'iteration number %s is recorded with index %s' % (show(want), show(new, 5)[:200]))


def recording_loops(X, n0=0):
    out = {}
    for e in X.I.events[n0:]:
        if e.kind in ('kernel', 'lik') and e.loops:
            out.setdefault(e.loops[0], e.seq)
    return [X.I.loops[l] for l in sorted(out, key=out.get) if l in X.I.loops]


def run_rule(R, cfg, mutates):
    X = run(R, cfg)
    unit = rname(cfg)
    P = X.I.get_attr(X.st.clone(), X.S, 'particles')
    L = lists(X.I, X.st, P)
    writes_rule(R, unit, X.I, L, 0, mutates)
    for info in recording_loops(X):
        R.guard('append-only', info.loc, lambda: growth_rule(R, X, info, unit, cfg.blobs))


def continue_rule(R, cfg, warm, mutates):
    """run called again on a sampler with any recorded history"""
    X = Run(cfg, sources={'pocomc/__pva_hist__.py': HIST})
    I, st = X.I, X.st
    tS = generic(X, X.S, cfg, warm)
    NPR = I.term(st, I.get_attr(st, X.S, 'n_prior'))
    P0 = I.get_attr(st.clone(), X.S, 'particles')
    n0 = len(I.events)
    unit = rname(cfg) + (', continued in warm-up' if warm else ', continued')
    X.run()
    R.unit(unit, I)
    P = I.get_attr(X.st.clone(), X.S, 'particles')
    writes_rule(R, unit, I, lists(I, X.st, P), n0, mutates)
    ls = recording_loops(X, n0)
    for info in ls:
        R.guard('append-only', info.loc, lambda: growth_rule(R, X, info, unit, cfg.blobs))
    if ls:
        kept(R, X, ls[0].start, tS, unit, 'on entry of the iterations', cfg.blobs)
    results_all(R, X, unit)


def kept(R, X, st, n, unit, when, blobs):
    for k in KEYS:
        if k == 'blobs' and not blobs:
            continue
        s, e = hist(X, st, k)
        q = fresh_iv('q')
        fs = dict(facts_of(gt0(sub(n, q)), True))
        facts_of(ge0(q), True, fs)
        x = assume_facts(subst(e, {ax(0): q}), fs)
        r = HFIELDS[k]
        want = at(sym('h_' + k), q, *[ax(i + 1) for i in range(r)])
        ok = same(x, want) and same(s[0], n)
        R.ob('kept', '%s of %s [%s]' % (k, when, unit), verdict(ok, x, s[0]), '' if ok else
             'the %s recorded before are %s (%s entries)' % (k, show(x, 5)[:200], show(s[0], 4)[:100]))


def results_all(R, X, unit):
    """after the run the results have as many entries as there are recorded iterations"""
    I, st = X.I, X.st.clone()
    P = I.get_attr(st, X.S, 'particles')
    ln = lens(I, st, P)
    r = I.get_attr(st, X.S, 'results')
    c = I.cell(st, r)
    for k in ('beta', 'iter'):
        v = c.items.get(k)
        s, e = I.arr(st, v)
        ok = bool(s) and same(s[0], ln[k][1])
        R.ob('results-complete', 'Sampler.results[%r] [%s]' % (k, unit), verdict(ok, *s), '' if ok else
             'shows %s of %s iterations' % (show(s[0])[:150] if s else '?', show(ln[k][1])[:150]))


def results_rule(R, cfg):
    """results of any history, again after another iteration and again without"""
    H = History(cfg)
    I = H.I
    st = H.fork()
    unit = 'results, ' + rname(cfg)
    R.unit(unit, I)
    n0 = len(I.events)
    r1 = I.get_attr(st, H.S, 'results')
    L = lists(I, st, H.P)
    shown(R, H, st, r1, H.T, None, unit + ', first call')
    # one more iteration
    arr = lambda n, r: I.new_arr(st, ((NA,) if r == 1 else (NA, D)), at(sym('new_' + n), *[ax(q) for q in range(r)])) if r else sym('new_' + n)
    d = {k: arr(k, r) for k, r in HFIELDS.items() if k != 'blobs' or cfg.blobs}
    for k, r in HFIELDS.items():
        if not r:
            I.scalars.add(sym('new_' + k))
    d['weights'] = I.new_arr(st, (NA,), at(sym('new_weights'), ax(0)))
    snap = {k: I.arr(st, v)[1] if isinstance(v, Ref) else v for k, v in d.items()}
    I.call_attr(st, H.P, 'update', [I.alloc(st, DictC(dict(d)))], {}, None)
    r2 = I.get_attr(st, H.S, 'results')
    shown(R, H, st, r2, add(H.T, ONE), d, unit + ', after another iteration')
    r3 = I.get_attr(st, H.S, 'results')
    shown(R, H, st, r3, add(H.T, ONE), d, unit + ', second call')
    for k, v in d.items():
        if isinstance(v, Ref):
            ok = I.arr(st, v)[1] is snap[k]
            if not ok:
                R.ob('written-once', '%s [%s]' % (k, unit), False, 'recording changes the %s handed over' % k)
    writes_rule(R, unit, I, L, n0)


def shown(R, H, st, r, n, new, unit):
    I = H.I
    c = I.cell(st, r) if isinstance(r, Ref) else None
    if not isinstance(c, DictC):
        R.ob('results-complete', unit, None, 'the results are %r' % (r,))
        return
    for k in KEYS:
        if k == 'blobs' and not H.cfg.blobs:
            if k not in c.items:
                R.ob('every-key', 'results[%r] [%s]' % (k, unit), False, 'the key is missing')
            continue
        v = c.items.get(k)
        if v is None or v is MISSING:
            R.ob('every-key', 'results[%r] [%s]' % (k, unit), False, 'the key is missing')
            continue
        s, e = I.arr(st, v)
        if k == 'logw':
            ok = len(s) == 1 and same(s[0], mul(n, NA))
            R.ob('results-complete', 'results[%r] [%s]' % (k, unit), verdict(ok, *s), '' if ok else 'shape %s' % [show(q)[:80] for q in s])
            continue
        ok = bool(s) and same(s[0], n)
        R.ob('results-complete', 'results[%r] [%s]' % (k, unit), verdict(ok, *s), '' if ok else
             'shows %s of %s iterations' % (show(s[0])[:100] if s else 'one', show(n)))
        if not ok:
            continue
        q = fresh_iv('q')
        fs = dict(facts_of(gt0(sub(H.T, q)), True))
        facts_of(ge0(q), True, fs)
        x = assume_facts(subst(e, {ax(0): q}), fs)
        rk = HFIELDS[k]
        want = at(sym('h_' + k), q, *[ax(i + 1) for i in range(rk)])
        ok = same(x, want)
        R.ob('results-values', 'results[%r] [%s]' % (k, unit), verdict(ok, x), '' if ok else 'entry q is %s' % show(x, 5)[:200])
        if new is not None:
            x = subst(e, {ax(0): H.T})
            v = new[k]
            want = subst(I.arr(st, v)[1], {ax(i): ax(i + 1) for i in range(rk)}) if isinstance(v, Ref) else v
            ok = same(x, want)
            R.ob('results-values', 'results[%r] last [%s]' % (k, unit), verdict(ok, x), '' if ok else 'the last entry is %s' % show(x, 5)[:200])


def pure_rule(R, cfg):
    """evidence, posterior, saving and the importance weights leave the history"""
    H = History(cfg)
    I = H.I
    from .history import snapshot
    before = snapshot(H, H.fork())
    I.hooks['systematic_resample'] = h_syst
    L = lists(I, H.st, H.P)
    calls = [('evidence', [], {}), ('save_state', [PATH], {}), ('__getstate__', [], {}), ('posterior', [], {}),
             ('posterior', [], dict(resample=TRUE)), ('posterior', [], dict(trim_importance_weights=FALSE, return_logw=TRUE))]
    for m, a, kw in calls:
        def one():
            st = H.fork()
            n0 = len(I.events)
            I.call_attr(st, H.S, m, list(a), dict(kw), None)
            unit = 'Sampler.%s(%s) %s' % (m, ', '.join(kw), rname(cfg))
            R.unit(unit, I)
            after = snapshot(H, st)
            bad = [f for f in before if not (after[f][1] is before[f][1] and all(p is q for p, q in zip(after[f][0], before[f][0])))]
            R.ob('history-unchanged', unit, not bad, 'the call changes the recorded %s' % bad if bad else '')
            writes_rule(R, unit, I, L, n0)
        R.guard('history-unchanged', 'Sampler.' + m, one)


def direct_kernel(cfg):
    """what a kernel stores into the arrays it is handed directly (without the copies of _mutate)"""
    K = Kernel(cfg)
    I = K.I
    ids = {}
    orig = {}

    def spy(I_, st, f, args, kw, node):
        for v in list(args) + list(kw.values()):
            if isinstance(v, Ref) and isinstance(I.cell(st, v), DictC) and 'u' in I.cell(st, v).items:
                for k, x in I.cell(st, v).items.items():
                    if isinstance(x, Ref):
                        ids[x.id] = k
        return NotImplemented
    for k in KERNEL_FUNCS:
        I.hooks[k] = spy
    n0 = len(I.events)
    K.run()
    out = set()
    for e in I.events[n0:]:
        if e.kind == 'mutate':
            for c in e.extra.get('cells', ()):
                if c in ids:
                    out.add(ids[c])
            for f in e.extra.get('flags') or ():
                if isinstance(f, tuple) and f[0] == 'cell' and f[1] in ids:
                    out.add(ids[f[1]])
    return K, out


def argument_rule(R):
    """the reparameterisation leaves the arrays it is given"""
    for tr in ('probit', 'logit'):
        for diag in (True, False):
            def one():
                S = sc.Scaler(tr, True, diag)
                S.fit()
                I, st = S.I, S.st
                for m in ('forward', 'inverse', 'fit'):
                    v = I.new_arr(st, (N, D), at(sym('given'), ax(0), ax(1)))
                    n0 = len(I.events)
                    I.call_attr(st, S.S, m, [v], {}, None)
                    bad = [e for e in I.events[n0:] if e.kind == 'mutate' and v.id in e.extra.get('cells', ())]
                    site = 'Reparameterize.%s (%s, %s)' % (m, tr, 'diagonal' if diag else 'full')
                    R.unit(site, I)
                    R.ob('arguments-kept', site, not bad, '; '.join('%s changes the array it is given' % e.loc for e in bad[:2]))
            R.guard('arguments-kept', 'Reparameterize', one)
