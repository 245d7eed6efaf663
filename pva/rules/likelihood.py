"""Evaluation of the likelihood (Sampler._log_like and FunctionWrapper)."""
from .runlevel import *
from .kernel2 import rows_of, liks
from ..values import *
from ..model import Model, Cfg


def lname(cfg):
    return '%s%s%s' % ('vectorised' if cfg.vectorize else 'pool=%s' % cfg.pool if cfg.pool else 'serial',
                       ', blobs' if cfg.blobs is True else ', %s blobs' % cfg.blobs if cfg.blobs else '',
                       ', extra arguments' if cfg.args is True else ', extra %s' % cfg.args if cfg.args else '')


def like_rule(R, cfg, n=None):
    M = Model(ROOT, cfg=cfg)
    S = M.build()
    I, st = M.I, M.st
    site = 'Sampler._log_like (%s%s)' % (lname(cfg), ', %d points' % n if n else '')
    cnt = num(n) if n else N
    x = I.new_arr(st, (cnt, D), at(sym('xx'), ax(0), ax(1)))
    e0 = len(I.events)
    r = I.call_attr(st, S, '_log_like', [x], {}, None)
    R.unit(site, I)
    evs = I.events[e0:]
    i = ax(0)
    row = at(sym('xx'), i)
    extra = ()
    if cfg.args == 'list':
        extra = (sym('arg0'), sym('arg1'))
    elif cfg.args == 'dict':
        extra = (mk('kw', 'option', sym('opt0')),)
    elif cfg.args:
        extra = (mk('star', sym('lik_args')), mk('kw', '**', sym('lik_kwargs')))
    if not isinstance(r, TupleV) or len(r.items) != 2:
        R.ob('value', site, None, 'result is %r' % (r,))
        return
    logl, blob = r.items
    inside = dict(facts_of(gt0(cnt), True))
    if cnt is N:
        facts_of(I.truth(st, N), True, inside)

    def pick(v):
        while isinstance(v, Choice):
            c = assume_facts(v.c, inside)
            if c not in (TRUE, FALSE):
                break
            v = v.a if c is TRUE else v.b
        return v
    logl, blob = pick(logl), pick(blob)

    def norm(v):
        s, e = I.arr(st, v)
        e = assume_facts(e, inside)
        if not s and e.op == 'lam':
            s, e = (app('opaque-length', e),), at(e, i)
        return [assume_facts(q, inside) for q in s], assume_facts(e, inside)
    s, e = norm(logl)
    want = app('lik', row, *extra)
    agree = lambda a, b: same(a, b) if not n else all(same(rewrite(a, {i: num(q)}), rewrite(b, {i: num(q)})) for q in range(n))
    ok = len(s) == 1 and length(s[0], cnt) and agree(e, want)
    R.ob('value', site, verdict(ok, e, *s), 'shape %s, value %s; expected %s' % ([show(q, 3) for q in s], show(e, 7)[:300], show(want)))
    c = I.cell(st, logl) if isinstance(logl, Ref) else None
    dt = getattr(c, 'dt', None)
    if dt is not None and any(z in show(dt) for z in ('float32', 'float16', 'half', 'single')):
        R.ob('value', site + ' precision', False, 'values are rounded to %s' % show(dt))
    if not cfg.blobs:
        if isinstance(blob, T):
            b = assume_facts(blob, inside)
            R.ob('blob', site, verdict(b is NONE, b), 'blobs are %s without any' % show(b, 5)[:200])
    elif not isinstance(blob, T):
        s, e = norm(blob)
        k = 2 if cfg.blobs == 'two' else 1
        wants = [app('blob', row, *extra), app('blob2', row, *extra)][:k]
        ok = len(s) == k and same(s[0], cnt) and (k == 1 or same(s[1], num(2)))
        R.ob('blob', site + ' shape', verdict(ok, *s), 'blobs have shape %s' % [show(q, 3) for q in s])
        if ok:
            for q, w in enumerate(wants):
                c = e if k == 1 else rewrite(e, {ax(1): num(q)})
                R.ob('blob', '%s blob %d' % (site, q), verdict(agree(c, w), c), 'value %s; expected %s' % (show(c, 7)[:300], show(w)))
    else:
        b = assume_facts(blob, inside)
        R.ob('blob', site, verdict(False, b) if b is NONE else None, 'blobs are %s' % show(b, 5)[:200])
    # number of calls
    lik = liks(I, evs)
    if lik:
        tot = ZERO
        for q in lik:
            if q.loops:
                tot = None
                break
            m = rows_of(q)
            pc = assume_facts(q.pc, inside)
            tot = add(tot, m if pc is TRUE else ite(pc, m, ZERO))
        if tot is None:
            R.ob('once', site, None, 'likelihood called in a loop')
        else:
            R.ob('once', site, verdict(same(tot, cnt), tot), '%s evaluations for %s points' % (show(tot, 6)[:200], show(cnt)))
        for q in lik:
            ok = same_tuple(q.extra['extra'], extra)
            R.ob('arguments', '%s, call at %s' % (site, q.loc), ok if ok else (None if any(opaque(z) for z in q.extra['extra']) else False),
                 'called with extra arguments %s' % [show(z) for z in q.extra['extra']])
    if cfg.pool is not None and not cfg.vectorize:
        pm = [q for q in evs if q.kind == 'poolmap']
        if cfg.pool == 1:
            R.ob('distributed', site, True if not pm else None)
        else:
            tot = mor(*[assume_facts(q.pc, inside) for q in pm]) if pm else FALSE
            other = [q for q in evs if q.kind == 'call']
            R.ob('distributed', site, True if tot is TRUE else None if other else verdict(False, tot),
                 'the pool is used only if %s' % show(tot, 5)[:200])
            for q in pm:
                p = q.extra.get('pool')
                ok = p is sym('poolobj') if cfg.pool == 'obj' else (p is not None and p.op == 'app' and p.args[0] == 'Pool')
                if ok and cfg.pool != 'obj':
                    arg = p.args[1:]
                    a = [z.args[1] if z.op == 'kw' else z for z in arg if z.op != 'kw' or z.args[0] in ('processes', 'max_workers', 'nodes')]
                    ok = len(a) == 1 and a[0] is num(cfg.pool)
                R.ob('pool-size', site, verdict(ok, p) if isinstance(p, T) else None, 'evaluated by %s' % (show(p) if isinstance(p, T) else p))


def length(a, n):
    return same(a, n) or (a.op == 'app' and a.args[0] == 'opaque-length')


def same_tuple(a, b):
    return len(a) == len(b) and all(x is y or (x.op == y.op == 'kw' and x.args == y.args) or
                                    (x.op != 'kw' and y.op != 'kw' and same(x, y)) for x, y in zip(a, b))
