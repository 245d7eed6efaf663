"""Options of the sampler (C11)."""
import builtins
from .runlevel import *
from . import temper as tp
from . import kernel as kn
from . import scaler as sc
from ..values import *
from ..interp import PyRaise
from ..model import Model, Cfg

VALID = dict(transform=('probit', 'logit'), metric=('ess', 'uss'), sample=('tpcn', 'rwm'), resample=('mult', 'syst'),
             flow=('nsf3', 'nsf6', 'nsf12', 'maf3', 'maf6', 'maf12'))
NEAR = dict(transform=('prob', 'Probit', 'LOGIT', 'log', 'identity', 'none', 'arctan'), metric=('es', 's', 'ESS', 'rss', 'vess', 'ess '),
            sample=('pcn', 'tpcn2', 'mh', 'TPCN', 'rw', 'hmc', 'tpc'), resample=('multi', 'sys', 'multinomial', 'systematic', 'MULT', 'res', 'strat'),
            flow=('nsf', 'maf', 'nsf1', 'nsf9', 'maf2', 'nsf24', 'NSF6', 'nsf36', 'realnvp', 'maf31', 'nsf0'))
ANY = ('', ' ', 'x', 'None', 'default', 'probit', 'ess', 'tpcn', 'mult', 'nsf6')


def must_run(R, rule, site, f):
    """an accepted option must not end in an unbound name or a missing attribute of the package"""
    try:
        return f()
    except PyRaise as e:
        n = exc_name(e)
        if n in ('NameError', 'UnboundLocalError') and not (e.args_ and e.args_[0] in dir(builtins)):
            R.ob(rule, site, False, 'no implementation is selected: %s %s' % (n, ', '.join(map(str, e.args_ or ()))))
            return None
        raise


def construct(over, cfg=None):
    """(model, None) or (model, name of the exception)"""
    M = Model(ROOT, cfg=cfg or Cfg())
    try:
        M.build(**over)
    except PyRaise as e:
        return M, exc_name(e)
    return M, None


def exc_name(e):
    x = e.args[0] if e.args else None
    if isinstance(x, str):
        return x
    for a in (getattr(e, 'exc', None), x):
        n = getattr(a, 'name', None) or getattr(a, 'cls', None) or a
        if isinstance(n, str):
            return n
    return str(e)


def accept_rule(R, opt):
    for v in VALID[opt]:
        M, x = construct({opt: const(v)})
        R.unit('%s=%r' % (opt, v), M.I)
        pc = M.st.pc if x is None else TRUE
        R.ob('accepted', 'Sampler(%s=%r)' % (opt, v), x is None and (pc is TRUE or None), '' if x is None else 'the constructor raises %s' % x)
    bad = [v for v in NEAR[opt] + ANY if v not in VALID[opt]]
    for v in [const(v) for v in bad] + [NONE, num(3)]:
        M, x = construct({opt: v})
        nm = 'Sampler(%s=%s)' % (opt, show(v))
        R.unit(nm, M.I)
        R.ob('rejected', nm, True if x == 'ValueError' else False, '' if x == 'ValueError' else
             'the constructor accepts it' if x is None else 'the constructor raises %s instead of ValueError' % x)
    # every other value
    o = sym('option')
    M, x = construct({opt: o})
    nm = 'Sampler(%s=any other value)' % opt
    R.unit(nm, M.I)
    fs = {}
    for v in VALID[opt]:
        facts_of(eq(o, const(v)), False, fs)
    facts_of(mk('bool', mk('app', 'isinstance', o, const('Flow'))), False, fs)
    ra = [e for e in M.I.events if e.kind == 'raise' and e.pc is not FALSE]
    c = FALSE
    for e in ra:
        p = assume_facts(e.pc, fs)
        c = mor(c, p)
    done = x is not None or c is TRUE or assume_facts(M.st.pc, fs) is FALSE
    names = {e.name for e in ra}
    left = [q for q in consts(o, c, M.st.pc) if q not in VALID[opt]]
    for q in left:
        M2, x2 = construct({opt: const(q)})
        R.ob('rejected', 'Sampler(%s=%r)' % (opt, q), x2 == 'ValueError', 'the constructor %s' % ('raises %s' % x2 if x2 else 'accepts it'))
    if done:
        ok = names == {'ValueError'} or None
        R.ob('rejected', nm, ok, 'raises %s' % ', '.join(sorted(map(str, names))))
    else:
        R.ob('rejected', nm, None, 'raises when %s' % show(c, 6)[:200])


def consts(o, *ts):
    """string constants the option is compared with"""
    out = []
    for t in ts:
        for x in tm.subterms(t) if hasattr(tm, 'subterms') else walk(t):
            if x.op in ('eq', 'app') and o in x.args:
                for a in x.args:
                    if isinstance(a, T) and a.op == 'const' and isinstance(a.args[0], str) and a.args[0] not in out and x.op == 'eq':
                        out.append(a.args[0])
    return out


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        todo += [a for a in x.args if isinstance(a, T)]


# ------------------------------------------------------------------ own implementation
def flow_rule(R):
    for v in VALID['flow']:
        M, x = construct(dict(flow=const(v)))
        I = M.I
        R.unit('flow=%s' % v, I)
        zs = [e for e in I.events if e.kind == 'zuko' and e.pc is not FALSE]
        site = 'Flow(%r)' % v
        if x is not None or len(zs) != 1:
            R.ob('flow-table', site, None if x is None else False, '%d flows are created' % len(zs))
            continue
        e = zs[0]
        fam = e.name.split('.')[-1]
        k = e.kw.get('transforms')
        want = num(int(v[3:]))
        okc = fam == v[:3].upper()
        okt = isinstance(k, T) and k is want
        feat = e.args[0] if e.args else e.kw.get('features')
        okd = isinstance(feat, T) and same(feat, D)
        R.ob('flow-table', '%s %s' % (e.loc, v), True if okc and okt else
             False if (fam in ('MAF', 'NSF') and not okc) or (isinstance(k, T) and is_num(k) and not okt) else None, '' if okc and okt else
             'flow=%r creates %s with %s transformations' % (v, fam, show(k) if isinstance(k, T) else 'the default number of'))
        R.ob('flow-table', '%s %s features' % (e.loc, v), True if okd else verdict(False, feat) if isinstance(feat, T) else None,
             '' if okd else 'the flow has %s dimensions' % (show(feat) if isinstance(feat, T) else feat))
    # a flow object is used as it is
    o = sym('option')
    M, x = construct(dict(flow=o))
    I, st = M.I, M.st
    fs = {}
    for v in VALID['flow']:
        facts_of(eq(o, const(v)), False, fs)
    facts_of(mk('bool', mk('app', 'isinstance', o, const('Flow'))), True, fs)
    if x is None:
        f = I.get_attr(st, I.get_attr(st, M.S, 'flow'), 'flow')
        while isinstance(f, Choice):
            c = assume_facts(f.c, fs)
            if c not in (TRUE, FALSE):
                break
            f = f.a if c is TRUE else f.b
        ok = f is o
        R.ob('flow-table', 'Flow(flow object)', True if ok else None, '' if ok else 'the flow used is %r' % (f,))


def kernel_dispatch_rule(R, cfg):
    K = kn.kernel(R, cfg)
    I = K.I
    draws = [d for d in I.rnds.values() if d.get('loops') and d.get('src') in ('numpy', 'torch')]
    site = '%s (%s)' % (K.site, kn.kname(cfg))
    gam = [d for d in draws if d['dist'] == 'gamma']
    nor = [d for d in draws if d['dist'] == 'normal']
    if not nor or any(d['dist'].startswith('other') for d in draws):
        R.ob('kernel', site, None, 'the proposal is not recognised')
    else:
        ok = bool(gam) == (cfg.sample == 'tpcn')
        R.ob('kernel', site, ok, '' if ok else 'sample=%r runs a proposal %s heavy-tailed mixing variable' % (
            cfg.sample, 'with a' if gam else 'without'))
    x = K.res.get('u')
    e = K.elem(x)[1] if isinstance(x, Ref) else None
    steps = [e] + [elem(d['step']) for d in K.loop.mus.values() if d.get('step') is not None]
    uses = any(isinstance(s, T) and tm.contains(s, lambda y: y.op == 'app' and y.args[0] == 'flow_inv') for s in steps)
    ok = uses == bool(cfg.precondition)
    R.ob('preconditioning', site, ok if ok or not any(isinstance(s, T) and kn.opaque(s) for s in steps) else None, '' if ok else
         'precondition=%s runs a kernel %s the flow' % (cfg.precondition, 'with' if uses else 'without'))


def has_sum(t):
    return tm.contains(t, lambda y: y.op == 'sum')


def matches(g, m):
    """g compares m with something else"""
    if g.op == 'not':
        g = g.args[0]
    if g.op not in ('gt0', 'ge0'):
        return None
    p = g.args[0]
    return any(not has_sum(q) for q in (add(p, m), sub(p, m)))


def metric_rule(R, X, V, metric):
    """the sizes that steer the ladder are those of the chosen metric"""
    other = 'uss' if metric == 'ess' else 'ess'
    new, ess = V.rec('beta'), V.rec('ess')
    prev = V.last('beta')
    site = V.main.loc
    mids = []
    for fs, (b, s) in tp.cases([new, ess]):
        b, s = V.resolve(b), V.resolve(s)
        want = V.est.metric(metric, b)
        ok = same(s, want)
        R.ob('metric', '%s recorded size at beta=%s' % (site, show(b, 3)[:60]), verdict(ok, s), '' if ok else
             'with metric=%r the %s is %s' % (metric, 'recorded size', 'the other metric' if same(s, V.est.metric(other, b)) else show(s, 6)[:200]))
        if b is not prev and b is not ONE:
            mids.append(b)
        for g, val in fs:
            g = V.resolve(g)
            if not has_sum(g):
                continue
            for q in (prev, ONE):
                if matches(g, V.est.metric(metric, q)):
                    R.ob('metric', '%s decision at beta=%s' % (site, show(q, 3)[:60]), True, '')
                    break
                if matches(g, V.est.metric(other, q)):
                    R.ob('metric', '%s decision at beta=%s' % (site, show(q, 3)[:60]), False, 'with metric=%r the ladder is steered '
                         'by the other metric' % metric)
                    break
            else:
                R.ob('metric', '%s decision' % site, None, show(g, 5)[:200])
    for info in X.I.loops.values():
        if V.main.id not in info.parent or '_reweight' not in (info.stack or ('',))[-1] and not any('_reweight' in s for s in info.stack or ()):
            continue
        for mu, d in info.mus.items():
            t = d.get('step')
            if d['rank'] != 0 or not isinstance(t, T) or t.op != 'ite' or not has_sum(t.args[0]):
                continue
            g = V.resolve(t.args[0])
            atoms = [a for a in (g.args if g.op in ('and', 'or') else [g]) if has_sum(a)]
            for a in atoms:
                good = [b for b in mids if matches(a, V.est.metric(metric, b))]
                bad = [b for b in mids if matches(a, V.est.metric(other, b))]
                R.ob('metric', '%s %s' % (info.loc, show(mu)[:60]), True if good else False if bad else None, '' if good else
                     'with metric=%r the search is steered by %s' % (metric, 'the other metric' if bad else show(a, 5)[:200]))


def resample_rule(R, X, V, cfg):
    u = V.k.extra['snap'].get(('state', 'u'))
    x = tp.resolve_draw(X, u[1])
    site = '%s' % V.k.loc
    if x is None:
        R.ob('resampling', site, None, 'the resampling is not recognised')
        return
    d = x[2]
    syst = d.get('scheme') == 'syst'
    ok = syst == (cfg.resample == 'syst')
    R.ob('resampling', '%s' % d['loc'], ok, '' if ok else 'resample=%r runs %s resampling' % (
        cfg.resample, 'systematic' if syst else 'multinomial'))


def posterior_resample_rule(R, cfg):
    H = History(cfg)
    I = H.I
    I.hooks['systematic_resample'] = h_syst
    st = H.fork()
    n0 = len(I.events)
    I.call_attr(st, H.S, 'posterior', [], dict(resample=TRUE), None)
    R.unit('posterior, resample=%s' % cfg.resample, I)
    ids = [e.extra.get('id') for e in I.events[n0:] if e.kind == 'rng' and e.pc is not FALSE]
    ds = [I.rnds[i] for i in ids if i in I.rnds]
    idx = [d for d in ds if d['dist'] == 'index']
    if not idx:
        R.ob('resampling', 'Sampler.posterior', None, 'the resampling is not recognised')
    for d in idx:
        syst = d.get('scheme') == 'syst'
        ok = syst == (cfg.resample == 'syst')
        R.ob('resampling', '%s' % d['loc'], ok, '' if ok else 'resample=%r runs %s resampling in posterior' % (
            cfg.resample, 'systematic' if syst else 'multinomial'))


def transform_rule(R, tr):
    """the map of the sampler is the documented one: Gaussian quantiles or log odds"""
    j = ax(1)
    M = Model(ROOT, cfg=Cfg())
    M.build(transform=const(tr))
    I, st = M.I, M.st
    for k in [k for k in I.hooks if k.startswith('Reparameterize.')]:
        I.hooks.pop(k)
    R.unit('transform=%s' % tr, I)
    S = I.get_attr(st, M.S, 'scaler')
    I.set_attr(st, S, 'scale', FALSE, None)
    u = I.new_arr(st, (N, D), at(sym('uu'), ax(0), ax(1)))
    r = I.call_attr(st, S, 'inverse', [u], {}, None)
    s, e = I.arr(st, r.items[0])
    fs = sc.case_facts(j, True, True)
    e = assume_facts(e, fs)
    U = at(sym('uu'), ax(0), j)
    lo, hi = sc.LO(j), sc.HI(j)
    p = {'probit': scale(add(ONE, app('erf', div(U, sqrt(num(2))))), Fraction(1, 2)), 'logit': div(ONE, add(ONE, exp(neg(U))))}
    found = []
    e1 = sc.unclip(e, found)
    got = None
    for n, q in p.items():
        if same(e1, add(lo, mul(sub(hi, lo), q))):
            got = n
    site = 'Sampler(transform=%r).scaler' % tr
    R.ob('transform', site, True if got == tr else False if got else None if kn.opaque(e) else verdict(False, e1), '' if got == tr else
         'the map from the real line is %s' % ('that of %r' % got if got else show(e1, 7)[:300]))


# ------------------------------------------------------------------ particle numbers
def combos_rule(R):
    site = 'Sampler'
    for over, cfg, nm in ((dict(n_active=NONE, n_effective=NONE), Cfg(), 'n_active=None, n_effective=None'),
                          (dict(vectorize=TRUE, blobs_dtype=sym('blobs_dtype')), Cfg(), 'vectorize=True, blobs_dtype given')):
        M, x = construct(over, cfg)
        R.unit('Sampler(%s)' % nm, M.I)
        R.ob('rejected', 'Sampler(%s)' % nm, True if x == 'ValueError' else False, '' if x == 'ValueError' else
             'the constructor accepts it' if x is None else 'the constructor raises %s' % x)
    for over, cfg, nm in ((dict(), Cfg(vectorize=True), 'vectorize=True'), (dict(), Cfg(blobs='typed'), 'blobs_dtype given')):
        M, x = construct(over, cfg)
        R.ob('accepted', 'Sampler(%s)' % nm, x is None, '' if x is None else 'the constructor raises %s' % x)


def attr(M, name):
    v = M.I.get_attr(M.st, M.S, name)
    return M.I.term(M.st, v) if not isinstance(v, T) else v


def fallback(R, nm, over, name, want, points):
    """want: expected term; points: [(substitution of constants, number)]"""
    M, x = construct(over)
    R.unit('Sampler(%s)' % nm, M.I)
    site = 'Sampler(%s).%s' % (nm, name)
    if x is not None:
        R.ob('fallback', site, False, 'the constructor raises %s' % x)
        return
    v = attr(M, name)
    forms = want if isinstance(want, tuple) else (want,)
    if any(isinstance(v, T) and same(v, w) for w in forms):
        R.ob('fallback', site, True, '')
        return
    # instances
    for o2, k in points:
        M2, x2 = construct(dict(over, **o2))
        v2 = attr(M2, name) if x2 is None else None
        if x2 is not None or (isinstance(v2, T) and is_num(v2) and numval(v2) != k):
            R.ob('fallback', site, False, 'with %s it is %s, documented %s' % (
                ', '.join('%s=%s' % (a, show(b)) for a, b in o2.items()), show(v2) if v2 is not None else x2, k))
            return
    plain = isinstance(v, T) and not tm.contains(v, lambda y: y.op not in ('poly', 'sym', 'num'))
    R.ob('fallback', site, False if plain else None, 'it is %s' % show(v))


def depends(R, nm, over, name, on, off=()):
    M, x = construct(over)
    site = 'Sampler(%s).%s' % (nm, name)
    if x is not None:
        R.ob('fallback', site, False, 'the constructor raises %s' % x)
        return
    v = attr(M, name)
    ok = isinstance(v, T) and any(tm.contains(v, lambda y: y is s) for s in on) and not any(tm.contains(v, lambda y: y is s) for s in off)
    R.ob('fallback', site, True if ok else verdict(False, v), '' if ok else 'it is %s' % show(v))


def numbers_rule(R):
    fl = lambda a, b: app('floordiv', a, b)
    fallback(R, 'n_effective only', dict(n_active=NONE), 'n_active', (fl(NE, num(2)), app('int', scale(NE, Fraction(1, 2)))),
             [(dict(n_effective=num(a)), a // 2) for a in (512, 513, 7, 100, 2)])
    fallback(R, 'n_active only', dict(n_effective=NONE), 'n_effective', scale(NA, 2), [(dict(n_active=num(a)), 2 * a) for a in (256, 3, 1)])
    fallback(R, 'both', {}, 'n_active', NA, [(dict(n_active=num(a)), a) for a in (256, 3)])
    fallback(R, 'both', {}, 'n_effective', NE, [(dict(n_effective=num(a)), a) for a in (256, 3)])
    ne = sym('n_ess_given')
    register(ne, POS), register(ne, NONNEG), register(ne, NONNULL_NUM)
    INTSYMS.add(ne)
    fallback(R, 'n_ess', dict(n_ess=ne), 'n_effective', ne, [(dict(n_ess=num(a)), a) for a in (256, 3)])
    pts = [(dict(n_effective=num(a), n_active=num(b)), 2 * max(a // b, 1) * b) for a, b in ((512, 256), (1000, 256), (100, 256), (7, 2))]
    fallback(R, 'n_prior=None', dict(n_prior=NONE), 'n_prior',
             (mul(scale(tm.tmax(fl(NE, NA), ONE), 2), NA),), pts)
    npr = sym('n_prior_given')
    register(npr, POS), register(npr, NONNEG), register(npr, NONNULL_NUM)
    INTSYMS.add(npr)
    depends(R, 'n_prior given', dict(n_prior=npr), 'n_prior', (npr,), (NE,))
    depends(R, 'n_steps=None', dict(n_steps=NONE), 'n_steps', (D,), (NA, NE))
    for k in ('n_steps', 'n_max_steps', 'train_frequency'):
        s = sym(k + '_given')
        register(s, POS), register(s, NONNEG), register(s, NONNULL_NUM)
        INTSYMS.add(s)
        fallback(R, '%s given' % k, {k: s}, k, s, [({k: num(a)}, a) for a in (3, 20)])
    ns = sym('n_steps_given')
    depends(R, 'n_max_steps=None', dict(n_steps=ns, n_max_steps=NONE), 'n_max_steps', (ns, D))
    depends(R, 'train_frequency=None', dict(train_frequency=NONE), 'train_frequency', (NE, NA))
    nd = sym('n_dim_given')
    register(nd, POS), register(nd, NONNEG), register(nd, NONNULL_NUM)
    INTSYMS.add(nd)
    fallback(R, 'n_dim given', dict(n_dim=nd), 'n_dim', nd, [(dict(n_dim=num(3)), 3)])


def train_config_rule(R):
    """given training options replace the defaults, others keep them"""
    keys = ('validation_split', 'epochs', 'batch_size', 'patience', 'learning_rate', 'annealing', 'gaussian_scale', 'laplace_scale',
            'noise', 'shuffle', 'clip_grad_norm', 'verbose')
    M0, x0 = construct({})
    c0 = M0.I.cell(M0.st, M0.I.get_attr(M0.st, M0.S, 'train_config')).items
    for k in keys:
        M = Model(ROOT, cfg=Cfg())
        o = sym('opt_' + k)
        M.build(train_config=M.I.alloc(M.st, DictC({k: o})))
        c = M.I.cell(M.st, M.I.get_attr(M.st, M.S, 'train_config')).items
        bad = [q for q in keys if (c.get(q) is not o if q == k else not eqv(c.get(q), c0.get(q)))]
        R.ob('training-options', 'Sampler(train_config={%r: ...})' % k, not bad, '' if not bad else 'the option %s is %s' % (
            bad[0], show(c[bad[0]]) if isinstance(c.get(bad[0]), T) else c.get(bad[0])))


def eqv(a, b):
    return a is b or isinstance(a, T) and isinstance(b, T) and same(a, b)
