"""The caller's arguments are left as they are (C25): effect analysis of every entry point on the cells it is given."""
from .runlevel import *
from .checkpoint import deep, deq, deep_opaque
from .training import Fit
from .kernel import kname
from . import scaler as sc
from . import prior as pr
from ..values import *
from ..model import Model, Cfg


def watch(I, st, v):
    return (v, deep(I, st, v))


def unchanged(R, site, I, st, watched, n0):
    """watched: {name: (value, description before)}"""
    for k, (v, before) in watched.items():
        if not isinstance(v, Ref):
            continue
        now = deep(I, st, v)
        ok = deq(before, now)
        ev = [e for e in I.events[n0:] if e.pc is not FALSE and (
            e.kind == 'mutate' and v.id in e.extra.get('cells', ()) or
            e.kind in ('dict-set', 'dict-del', 'dict-update', 'dict-clear', 'append', 'list-extend', 'list-set', 'list-del', 'list-pop', 'list-insert',
                       'list-remove', 'list-sort', 'list-reverse', 'list-clear', 'setattr', 'setitem') and e.args and e.args[0] == v)]
        where = ev[-1].loc if ev else site
        R.ob('arguments-kept', '%s: %s' % (site, k), True if ok else None if deep_opaque(now) and not ev else False,
             '' if ok else 'the %s given by the caller is changed at %s' % (k, where))
    for e in I.events[n0:]:
        if e.kind in ('setattr', 'setitem') and e.args and isinstance(e.args[0], T) and e.pc is not FALSE:
            t = e.args[0]
            if any(t is w for w, _ in watched.values()):
                R.ob('arguments-kept', '%s: %s' % (site, show(t, 3)), False, 'an attribute of an object of the caller is set at %s' % e.loc)


def tools_rule(R):
    def arr(I, st, name, *shape):
        return I.new_arr(st, shape, at(sym(name), *[ax(i) for i in range(len(shape))]))

    def probe(fn, make):
        def go():
            M = Model(ROOT)
            I, st = M.I, M.st
            env = I.module('pocomc.tools')
            a, kw = make(I, st)
            W = {'argument %d' % (i + 1): watch(I, st, x) for i, x in enumerate(a)}
            W.update({k: watch(I, st, x) for k, x in kw.items()})
            n0 = len(I.events)
            if '.' in fn:
                c, m = fn.split('.')
                o = I.call(st, env[c], [TRUE], {}, None)
                n0 = len(I.events)
                I.call_attr(st, o, m, a, kw, None)
            else:
                I.call(st, env[fn], a, kw, None)
            R.unit('tools.' + fn, I)
            unchanged(R, 'tools.' + fn, I, st, W, n0)
        R.guard('arguments-kept', 'tools.' + fn, go)
    m = dimsym('m')

    def w(I, st, nm='w'):
        s = sym(nm)
        register(s, NONNEG)
        return I.new_arr(st, (m,), at(s, ax(0)))
    k = dimsym('k')
    probe('effective_sample_size', lambda I, st: ([w(I, st)], {}))
    probe('unique_sample_size', lambda I, st: ([w(I, st)], {}))
    probe('unique_sample_size', lambda I, st: ([w(I, st), k], {}))
    probe('compute_ess', lambda I, st: ([arr(I, st, 'lw', m)], {}))
    probe('increment_logz', lambda I, st: ([arr(I, st, 'lw', m)], {}))
    probe('systematic_resample', lambda I, st: ([k], {'weights': w(I, st)}))

    def trim(I, st):
        e = scalar(I, 'essfrac', pos=True)
        b = dimsym('bins')
        return [arr(I, st, 'samples', m), w(I, st)], {'ess': e, 'bins': b}
    probe('trim_weights', trim)
    probe('ProgressBar.update_stats', lambda I, st: ([I.alloc(st, DictC({'calls': scalar(I, 'c'), 'beta': scalar(I, 'b')}))], {}))


def prior_rule(R, count):
    A = pr.P(count)
    I, st = A.I, A.st
    site = 'Prior(%s)' % ('list of any length' if count is None else count)
    W = {'list of distributions': watch(I, st, A.lst)}
    x = I.new_arr(st, (N, A.dim), at(sym('xx'), ax(0), ax(1)))
    W['points'] = watch(I, st, x)
    n0 = len(I.events)
    R.guard('arguments-kept', site, lambda: I.call_attr(st, A.P, 'logpdf', [x], {}, None))
    R.guard('arguments-kept', site, lambda: I.call_attr(st, A.P, 'rvs', [], {'size': N}, None))
    R.guard('arguments-kept', site, lambda: I.get_attr(st, A.P, 'bounds'))
    R.unit(site, I)
    unchanged(R, site, I, st, W, n0)


def scaler_rule(R, tr, diag, bc):
    kw = {}
    S = sc.Scaler(tr, True, diag, **kw)
    I, st = S.I, S.st
    B = I.new_arr(st, (D, num(2)), at(sc.BOUNDS, ax(0), ax(1)))
    k = {}
    if bc:
        k = dict(periodic=I.alloc(st, ListC([ZERO])), reflective=I.alloc(st, ListC([ONE])))
    W = {'bounds': watch(I, st, B)}
    W.update({q: watch(I, st, v) for q, v in k.items()})
    n0 = len(I.events)
    site = 'Reparameterize(%s, %s%s)' % (tr, 'diagonal' if diag else 'full', ', boundary conditions' if bc else '')
    o = I.call(st, I.module('pocomc.scaler')['Reparameterize'], [D, B], dict(k, transform=const(tr), scale=TRUE, diagonal=TRUE if diag else FALSE), None)
    R.unit(site, I)
    for m in ('fit', 'forward', 'inverse') + (('apply_boundary_conditions_x',) if bc else ()):
        v = I.new_arr(st, (N, D), at(sym('given_' + m), ax(0), ax(1)))
        W['points given to ' + m] = watch(I, st, v)
        def call():
            if I.cell(st, o).cls.find(m) is not None:
                I.call_attr(st, o, m, [v], {}, None)
        R.guard('arguments-kept', site + '.' + m, call)
    unchanged(R, site, I, st, W, n0)


def geometry_rule(R, weighted):
    M = Model(ROOT)
    I, st = M.I, M.st
    M.opaque_student()
    n = dimsym('n')
    th = I.new_arr(st, (n, D), at(sym('theta'), ax(0), ax(1)))
    w = sym('w')
    register(w, NONNEG)
    W = {'samples': watch(I, st, th)}
    kw = {}
    if weighted:
        kw['weights'] = I.new_arr(st, (n,), at(w, ax(0)))
        W['weights'] = watch(I, st, kw['weights'])
    n0 = len(I.events)
    G = I.call(st, I.module('pocomc.geometry')['Geometry'], [], {}, None)
    I.call_attr(st, G, 'fit', [th], kw, None)
    site = 'Geometry.fit(%s)' % ('weights' if weighted else 'no weights')
    R.unit(site, I)
    unchanged(R, site, I, st, W, n0)


def student_rule(R):
    M = Model(ROOT)
    I, st = M.I, M.st
    n = dimsym('n')
    x = I.new_arr(st, (n, D), at(sym('data'), ax(0), ax(1)))
    W = {'data': watch(I, st, x)}
    n0 = len(I.events)
    I.call(st, I.module('pocomc.student')['fit_mvstud'], [x], {}, None)
    R.unit('student.fit_mvstud', I)
    unchanged(R, 'student.fit_mvstud', I, st, W, n0)


def flow_rule(R, weighted, val):
    F = Fit(weighted, val)
    I = F.I
    site = 'Flow.fit(%s, %s)' % ('weights' if weighted else 'no weights', 'validation' if val else 'no validation')
    R.unit(site, I)
    unchanged(R, site, I, F.st, {k: (v, F.given[k]) for k, v in F.refs.items()}, F.n0)


def kernel_rule(R, cfg):
    """the dictionaries given to an MCMC kernel and the arrays in them, over a whole call"""
    K = Kernel(cfg)
    I = K.I
    seen = []

    def h(I, st, f, args, kw, node):
        name = f.node.name
        kept = I.hooks.pop(name)
        W = {}
        try:
            for i, v in list(enumerate(args)) + sorted(kw.items()):
                if isinstance(v, Ref) and isinstance(I.cell(st, v), DictC):
                    W['dictionary %s' % i] = watch(I, st, v)
                    for k, a in I.cell(st, v).items.items():
                        if isinstance(a, Ref) and isinstance(I.cell(st, a), Arr):
                            W['array %s' % (k.args[0] if isinstance(k, T) and k.args else k)] = watch(I, st, a)
            n0 = len(I.events)
            r = I.call(st, f, args, kw, node)
        finally:
            I.hooks[name] = kept
        seen.append(name)
        unchanged(R, 'mcmc.' + name, I, st, W, n0)
        return r
    for n in KERNEL_FUNCS:
        I.hooks[n] = h
    K.run()
    R.unit('kernel ' + kname(cfg), I)
    if not seen:
        R.ob('arguments-kept', 'kernel ' + kname(cfg), None, 'no kernel function is called')


def sampler_rule(R, cfg):
    """the objects given to the constructor, through a whole run and its results"""
    M = Model(ROOT, cfg=cfg)
    I, st = M.I, M.st
    given = dict(train_config=I.alloc(st, DictC({'epochs': dimsym('epochs0'), 'patience': dimsym('patience0')})))
    if cfg.args:
        given['likelihood_args'] = I.alloc(st, ListC([sym('arg0'), sym('arg1')]))
        given['likelihood_kwargs'] = I.alloc(st, DictC({'option': sym('opt0')}))
    if cfg.bc:
        given['periodic'] = I.alloc(st, ListC([ZERO]))
        given['reflective'] = I.alloc(st, ListC([ONE]))
    W = {k: watch(I, st, v) for k, v in given.items()}
    W['prior'] = (sym('prior'), None)
    W['likelihood'] = (sym('likelihood'), None)
    n0 = len(I.events)
    S = M.build(**given)
    site = 'Sampler [%s]' % rname(cfg)
    R.unit(site, I)
    unchanged(R, site + ' constructor', I, st, W, n0)
    if cfg.args or cfg.bc:
        x = I.new_arr(st, (N, D), at(sym('xx'), ax(0), ax(1)))
        W2 = dict(W, points=watch(I, st, x))
        n1 = len(I.events)
        I.call_attr(st, S, '_log_like', [x], {}, None)
        unchanged(R, site + '._log_like', I, st, W2, n1)
