"""The flow wrapper, its NumPy adapter, the cast and the regularisation (C27)."""
from .training import *
from ..interp import PyRaise

SPEC = '''
import torch
class Param:
    pass
class Hyper:
    def __init__(self, ps):
        self.ps = ps
    def named_parameters(self):
        return list(self.ps)
    def parameters(self):
        return [p for n, p in self.ps]
class Cond:
    def __init__(self, ps):
        self.hyper = Hyper(ps)
class Plain:
    pass
class Composed:
    def __init__(self, ts):
        self.transforms = ts
class Net:
    def __init__(self, t):
        self.transform = t
    def named_parameters(self):
        out = []
        for k, t in enumerate(self.transform.transforms):
            if hasattr(t, 'hyper'):
                for n, p in t.hyper.named_parameters():
                    out.append(('transform.transforms.' + str(k) + '.hyper.' + n, p))
        return out
def net(a, b, c, d):
    return Net(Composed([Cond([('0.weight', a), ('0.bias', b)]), Plain(), Cond([('1.weight', c), ('2.weight', d)])]))
class Tens:
    def __init__(self, dtype, values):
        self.dtype = dtype
        self.values = values
    def float(self):
        return Tens(torch.float32, self.values)
    def to(self, dtype=None):
        return Tens(dtype, self.values)
    def type(self, dtype=None):
        return Tens(dtype, self.values)
'''


def both(I, st, r, k):
    if not isinstance(r, TupleV) or len(r.items) != k:
        return None
    return [I.arr(st, q) for q in r.items]


def check(R, rule, site, got, want, shape):
    s, e = got
    if len(s) != len(shape) or not all(same(a, b) for a, b in zip(s, shape)):
        R.ob(rule, site, False, 'shape %s, expected %s' % ([show(q) for q in s], [show(q) for q in shape]))
        return
    ok = same(e, want)
    R.ob(rule, site, verdict(ok, e), '' if ok else 'is %s, expected %s' % (show(e, 6)[:300], show(want, 6)[:300]))


def api_rule(R):
    M = Model(ROOT, cfg=Cfg())
    I, st = M.I, M.st
    S = M.build()
    F = I.get_attr(st, S, 'flow')
    ver = I.get_attr(st, I.get_attr(st, F, 'flow'), 'ver')
    ver = I.term(st, ver)
    R.unit('Flow', I)
    j = fresh_iv('j')
    row = lambda b: lam([j], at(b, ax(0), j))
    x = lambda b: I.new_arr(st, (N, D), at(b, ax(0), ax(1)))
    X, U = sym('flow_x'), sym('flow_u')
    fwd, inv = app('flow_fwd', ver, row(X), ax(1)), app('flow_inv', ver, row(U), ax(1))
    back = lam([j], app('flow_inv', ver, row(U), j))
    ladj, iladj = app('flow_ladj', ver, row(X)), neg(app('flow_ladj', ver, back))
    W = I.call(st, I.module('pocomc.tools')['flow_numpy_wrapper'], [F], {}, None)
    for nm, obj, sg in (('Flow', F, 1), ('flow_numpy_wrapper', W, -1)):
        def go(nm=nm, obj=obj, sg=sg):
            r = both(I, st, I.call_attr(st, obj, 'forward', [x(X)], {}, None), 2)
            site = '%s.forward' % nm
            if r is None:
                R.ob('transforms', site, None, 'does not return a pair')
            else:
                check(R, 'transforms', site + ' points', r[0], fwd, (N, D))
                check(R, 'transforms', site + ' log-determinant', r[1], scale(ladj, sg), (N,))
        R.guard('transforms', nm + '.forward', go)

        def go(nm=nm, obj=obj):
            r = both(I, st, I.call_attr(st, obj, 'inverse', [x(U)], {}, None), 2)
            site = '%s.inverse' % nm
            if r is None:
                R.ob('transforms', site, None, 'does not return a pair')
            else:
                check(R, 'transforms', site + ' points', r[0], inv, (N, D))
                check(R, 'transforms', site + ' log-determinant', r[1], iladj, (N,))
        R.guard('transforms', nm + '.inverse', go)

    def dens():
        g = I.arr(st, I.call_attr(st, F, 'log_prob', [x(X)], {}, None))
        check(R, 'density', 'Flow.log_prob', g, app('flow_lp', ver, row(X)), (N,))
    R.guard('density', 'Flow.log_prob', dens)

    def samp():
        n = dimsym('n_draws')
        r = both(I, st, I.call_attr(st, F, 'sample', [n], {}, None), 2)
        if r is None:
            R.ob('density', 'Flow.sample', None, 'does not return a pair')
            return
        (s, e), lp = r
        def leaf(t):
            return leaf(t.args[1]) + leaf(t.args[2]) if t.op == 'ite' else [t]
        ls = leaf(e)
        ok = all(t.op == 'at' and t.args[0].op == 'rnd' and same(t.args[2], ax(1)) and
                 I.rnds.get(t.args[0].args[0], {}).get('dist') == 'flow' for t in ls)
        one = len(ls) == 1 and ok and same(ls[0].args[1], ax(0))
        # several draws joined: distinct draws by construction unless one is used for two ranges of rows
        R.ob('density', 'Flow.sample draws', True if one or ok and len({t.args[0] for t in ls}) == len(ls) else None if ok else verdict(False, e),
             '' if ok else 'the draws are %s' % show(e, 5)[:300])
        ok = len(s) == 2 and same(s[0], n) and same(s[1], D)
        R.ob('density', 'Flow.sample number of draws', ok, '' if ok else 'shape %s' % [show(q) for q in s])
        if len(s) == 2:
            check(R, 'density', 'Flow.sample log-density', lp, app('flow_lp', ver, lam([j], subst(e, {ax(1): j}))), (s[0],))
    R.guard('density', 'Flow.sample', samp)


def cast_rule(R):
    for dt in ('float64', 'float32', 'float16', 'int64'):
        for w in (None, True, False):
            M = Model(ROOT, sources={'pocomc/__pva_spec__.py': SPEC})
            I, st = M.I, M.st
            env = I.module('pocomc.__pva_spec__')
            f = I.module('pocomc.tools')['torch_double_to_float']
            site = 'torch_double_to_float(%s%s)' % (dt, '' if w is None else ', warn=%s' % w)
            R.unit(site, I)
            v = sym('values')
            x = I.call(st, env['Tens'], [ExtV('torch.' + dt), v], {}, None)
            try:
                r = I.call(st, f, [x], {} if w is None else dict(warn=TRUE if w else FALSE), None)
            except PyRaise as e:
                ok = dt in ('float16', 'int64')
                R.ob('precision', site, ok, '' if ok else 'double precision input is rejected' if dt == 'float64' else 'single precision input is rejected')
                continue
            if not isinstance(r, Ref):
                R.ob('precision', site, None, 'result not understood')
                continue
            if dt in ('float16', 'int64'):
                R.ob('precision', site, False, 'input of type %s is accepted' % dt)
                continue
            q, val = I.get_attr(st, r, 'dtype'), I.get_attr(st, r, 'values')
            ok = isinstance(q, ExtV) and q.name in ('torch.float32', 'torch.float') and val is v
            R.ob('precision', site, ok, '' if ok else 'the result has type %s' % (q,))


def penalty(ls, gs, ws):
    t = ZERO
    for k, W in ws:
        p, q = fresh_iv('p'), fresh_iv('q')
        a = at(W, p, q)
        s = lambda b: mk_sum(k[0], p, mk_sum(k[1], q, b))
        if ls is not None:
            t = add(t, div(s(mabs(a)), ls))
        if gs is not None:
            t = add(t, div(s(power(a, 2)), scale(power(gs, 2), 2)))
    return t


def penalty_rule(R):
    for l, g in ((True, True), (True, False), (False, True), (False, False)):
        M = Model(ROOT, sources={'pocomc/__pva_spec__.py': SPEC})
        I, st = M.I, M.st
        env = I.module('pocomc.__pva_spec__')
        dims = [(dimsym('wrows%d' % k), dimsym('wcols%d' % k)) for k in range(4)]
        for d in dims:
            I.scalars.update(d)
        ws = [sym('weight%d' % k) for k in range(4)]
        ps = [I.new_arr(st, d, at(w, ax(0), ax(1))) for d, w in zip(dims, ws)]
        net = I.call(st, env['net'], ps, {}, None)
        ls, gs = scalar(I, 'laplace', pos=True) if l else None, scalar(I, 'gauss', pos=True) if g else None
        kw = {k: v for k, v in (('laplace_scale', ls), ('gaussian_scale', gs)) if v is not None}
        site = 'regularization_loss(%s)' % ', '.join(sorted(kw))
        R.unit(site, I)
        try:
            v = I.term(st, I.call(st, I.module('pocomc.flow')['regularization_loss'], [net], kw, None))
        except PyRaise as e:
            R.ob('regularisation', site, False, 'raises %s for a flow as zuko >= 1.1 defines it' % (e,))
            continue
        want = neg(penalty(ls, gs, [(dims[k], ws[k]) for k in (0, 2, 3)]))
        ok = same(v, want)
        R.ob('regularisation', site, verdict(ok, v), '' if ok else 'is %s, expected %s' % (show(v, 6)[:400], show(want, 6)[:400]))


def in_loss_rule(R, weighted, val):
    reg = sym('regularisation')
    calls = []

    def hook(I, st, f, args, kw, node):
        I.scalars.add(reg)
        p = dict(zip(('model', 'laplace_scale', 'gaussian_scale'), args))
        p.update(kw)
        calls.append((p, I.loc(node)))
        return reg
    for l, g in ((True, True), (True, False), (False, True), (False, False)):
        calls.clear()
        F = Fit(weighted, val, extra=dict(laplace_scale=l, gaussian_scale=g), hooks={'regularization_loss': hook})
        I = F.I
        on = ', '.join(k for k, b in (('Laplace', l), ('Gaussian', g)) if b) or 'none'
        site = '%s, regularisation: %s' % (tname(weighted, val, True, False), on)
        R.unit(site, I)
        for p, loc in calls:
            ok = p.get('model') is F.flow and (p.get('laplace_scale') is F.extra.get('laplace_scale', NONE)) and \
                (p.get('gaussian_scale') is F.extra.get('gaussian_scale', NONE))
            R.ob('regularisation', '%s [%s]' % (loc, site), bool(ok), '' if ok else 'regularisation called with %s' % (p,))
        losses = [('gradient', e.args[0], e.loc) for e in F.evs if e.kind == 'call' and e.name == 'backward']
        hist = [('recorded loss', e.args[1], e.loc) for e in F.evs if e.kind == 'append' and len(e.args) > 1 and isinstance(e.args[1], T)]
        n = 0
        for what, L, loc in losses:
            if not isinstance(L, T) or not lp_sums(L):
                R.ob('regularisation', '%s %s [%s]' % (loc, what, on), None, 'loss not understood')
                continue
            k = add(L, reg) if l or g else L
            ok = not tm.contains(k, lambda x: x is reg)
            n += 1
            R.ob('regularisation', '%s %s [%s]' % (loc, what, on), verdict(ok, L) if calls or not (l or g) else None, '' if ok else
                 'the loss is %s; the penalty has to be added to the negative log-density once' % show(L, 4)[:300])
        for what, L, loc in hist:
            if not lp_sums(L):
                continue
            has = tm.contains(L, lambda x: x is reg)
            if not (l or g):
                R.ob('regularisation', '%s %s [%s]' % (loc, what, on), verdict(not has, L), 'penalty without a scale')
            else:
                cs = [c for mono, c in to_poly(L).items() if any(tm.contains(f, lambda x: x is reg) for f, _ in mono)]
                lone = all(any(f is reg and e == 1 for f, e in mono) for mono, c in to_poly(L).items()
                           if any(tm.contains(f, lambda x: x is reg) for f, _ in mono))
                ok = has and (not lone or all(c < 0 for c in cs))
                R.ob('regularisation', '%s %s [%s]' % (loc, what, on), verdict(ok, L) if calls or ok else None, '' if ok else
                     'the penalty is missing in or subtracted from the loss %s' % show(L, 4)[:300])
