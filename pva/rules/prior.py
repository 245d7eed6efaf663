"""The composite prior (pocomc/prior.py)."""
from .runlevel import *
from ..report import Only

DISTS = sym('dists')


class P:
    def __init__(self, count=None, pat=None):
        self.M = M = Model(ROOT)
        I, st = self.I, self.st = M.I, M.st

        def meth(I, st, obj, name, args, kw, node):
            if name in ('logpdf', 'pdf', 'cdf', 'logcdf', 'sf', 'logsf', 'ppf'):
                x = args[0] if args else kw.get('x')
                s, e = I.arr(st, x)
                v = app('d_' + name, obj, e)
                return I.new_arr(st, s, v) if s else v
            if name == 'rvs':
                size = args[0] if args else kw.get('size', ONE)
                shp, e = npm.draw(I, st, 'dist', [obj], size, 'numpy', node)
                # the draw of another distribution is another one
                e = app('d_rvs', obj, e)
                return I.new_arr(st, shp, e) if shp else e
            if name == 'support':
                return TupleV([app('d_lo', obj), app('d_hi', obj)])
            if name == 'interval':
                return None
            return None
        I.symmodels[('elem', DISTS)] = meth
        I.symattrs[('elem', DISTS)] = lambda I, st, o, name: MethV(o, name)
        env = I.module('pocomc.prior')
        v = fresh_iv('d')
        if count is None:
            self.dim = D
            items = [Sym(D, v, at(DISTS, v))]
        else:
            self.dim = num(count)
            items = [at(DISTS, num(pat[i] if pat else i)) for i in range(count)]
            I.objfams.add(DISTS)
        self.lst = I.alloc(st, ListC(items))
        self.P = I.call(st, env['Prior'], [self.lst], {}, None)


from .. import npmodel as npm
from ..values import *


def prior_rule(R, count=None, pat=None):
    """pat: which distribution object each parameter has, if some parameters share one"""
    A = P(count, pat)

    def dist(q):
        return at(DISTS, num(pat[int(q.args[0])]) if pat else q)
    I, st = A.I, A.st
    site = 'Prior(%s)' % ('list of any length' if count is None else '%d distributions' % count if not pat else
                           'distributions ' + ', '.join('abc'[q] for q in pat))
    R.unit(site, I)
    d = A.dim
    i, j = ax(0), ax(1)

    def dim():
        v = I.term(st, I.get_attr(st, A.P, 'dim'))
        R.ob('dimension', site + '.dim', verdict(same(v, d), v), 'dim is %s' % show(v, 5))

    def logpdf():
        x = I.new_arr(st, (N, d), at(sym('xx'), ax(0), ax(1)))
        r = I.call_attr(st, A.P, 'logpdf', [x], {}, None)
        s, e = I.arr(st, r)
        k = fresh_iv('j')
        want = tm.mk_sum(d, k, app('d_logpdf', at(DISTS, k), at(sym('xx'), i, k))) if count is None else \
            add(ZERO, *[app('d_logpdf', dist(num(q)), at(sym('xx'), i, num(q))) for q in range(count)])
        ok = len(s) == 1 and same(s[0], N) and same(e, want)
        R.ob('log-density', site + '.logpdf', verdict(ok, e, *s), 'shape %s, value %s, expected %s' % ([show(q, 3) for q in s], show(e, 7)[:300], show(want, 7)))
        e2 = I.arr(st, x)[1]
        R.ob('log-density', site + '.logpdf argument', verdict(same(e2, at(sym('xx'), i, j)), e2), 'the argument became %s' % show(e2, 5)[:200])

    def rvs():
        n = sym('n_draws')
        INTSYMS.add(n)
        register(n, NONNEG)
        POS.add(n)
        for how, a, kw, want in (('size=n', [], dict(size=n), n), ('n', [n], {}, n), ('', [], {}, ONE)) + \
                ((('5', [num(5)], {}, num(5)),) if count else ()):
            r = I.call_attr(st, A.P, 'rvs', a, kw, None)
            s, e = I.arr(st, r)
            ok = len(s) == 2 and same(s[0], want) and same(s[1], d)
            R.ob('draws', '%s.rvs(%s) shape' % (site, how), verdict(ok, *s), 'shape %s' % [show(q, 4) for q in s])
            if len(s) != 2 or not how:
                continue
            used = {}
            for col in ([j] if count is None else [num(q) for q in range(count)]):
                c = rewrite(e, {j: col}) if col is not j else e
                c = assume_facts(c, facts_of(gt0(sub(d, col)), True))
                ok = None
                why = show(c, 7)[:300]
                if how == '5':
                    # concrete number of draws: entry by entry
                    for q in range(5):
                        cc = rewrite(e, {i: num(q), j: col})
                        ok = None
                        if cc.op == 'app' and cc.args[0] == 'd_rvs':
                            h = cc.args[2]
                            ok = same(cc.args[1], dist(col)) and h.op == 'at' and h.args[0].op == 'rnd' and h.args[-1] is num(q)
                        R.ob('draws', '%s.rvs(5)[%d, %s]' % (site, q, show(col)), verdict(ok, cc) if ok is not None else None, show(cc, 6)[:200])
                    continue
                if c.op == 'app' and c.args[0] == 'd_rvs':
                    rn = [y for y in walk(c.args[2]) if y.op == 'rnd']
                    head = c.args[2]
                    entry = head.op == 'at' and head.args[0].op == 'rnd' and head.args[-1] is i
                    ok = same(c.args[1], dist(col)) and entry
                    for y in rn if ok and count is not None else ():
                        if y in used:
                            ok = False
                            why += ' (the draw is the one used for parameter %s)' % show(used[y])
                        used[y] = col
                    # different columns come from different draws
                    if ok and count is None and not any(col in y.fv or any(col in z.fv for z in y.args if isinstance(z, T)) for y in rn):
                        ok = False
                        why += ' (the same draw is used for every parameter)'
                R.ob('draws', '%s.rvs(%s) column %s' % (site, how, show(col)), verdict(ok, c) if ok is not None else None, why)

    def bounds():
        v = I.get_attr(st, A.P, 'bounds')
        s, e = I.arr(st, v)
        ok = len(s) == 2 and same(s[0], d) and same(s[1], num(2))
        R.ob('bounds', site + '.bounds shape', verdict(ok, *s), 'shape %s' % [show(q, 4) for q in s])
        for q, nm in ((ZERO, 'd_lo'), (ONE, 'd_hi')):
            for col in ([i] if count is None else [num(z) for z in range(count)]):
                c = rewrite(e, {i: col, j: q}) if col is not i else rewrite(e, {j: q})
                c = assume_facts(c, facts_of(gt0(sub(d, col)), True))
                R.ob('bounds', '%s.bounds[%s, %s]' % (site, show(col), show(q)), verdict(same(c, app(nm, dist(col))), c), 'is %s' % show(c, 6)[:300])
    for nm, f in (('dimension', dim), ('log-density', logpdf), ('draws', rvs), ('bounds', bounds)):
        R.guard(nm, site, f)


def use_rule(R, cfg):
    """the sampler takes dimension and bounds from the prior, evaluates it and draws from it unchanged"""
    K = Kernel(cfg)
    I, st = K.I, K.st
    R.unit('Sampler(%s)' % kname_(cfg), I)
    v = I.get_attr(st, K.S, 'n_dim')
    R.ob('used', 'Sampler.n_dim', verdict(same(I.term(st, v), D), I.term(st, v)), 'n_dim is %s' % show(I.term(st, v), 4))
    b = I.get_attr(st, K.S, 'bounds')
    s, e = I.arr(st, b)
    R.ob('used', 'Sampler.bounds', verdict(same(e, at(BOUNDS, ax(0), ax(1))), e), 'bounds are %s' % show(e, 4)[:200])
    S = I.get_attr(st, K.S, 'scaler')
    low, high = (I.arr(st, I.get_attr(st, S, q))[1] for q in ('low', 'high'))
    for q, t, c in (('low', low, ZERO), ('high', high, ONE)):
        R.ob('used', 'Sampler.scaler.%s' % q, verdict(same(t, at(BOUNDS, ax(0), c)), t), 'is %s' % show(t, 4)[:200])


def kname_(cfg):
    from .kernel import kname
    return kname(cfg)
