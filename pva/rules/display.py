"""Options that only concern what is shown or stored on the way (C24): nothing that is computed depends on them."""
from .runlevel import *
from .checkpoint import deep
from .training import Fit, XS, WS
from ..values import *
from ..model import Model, Cfg
from ..drive import Kernel
from . import kernel as kn

EFFECTS = {'rng': 'random numbers are drawn', 'seed': 'a random generator is seeded', 'rng-state': 'the state of a random generator is set',
           'lik': 'the likelihood is evaluated', 'logprior': 'the prior is evaluated', 'kernel': 'an MCMC stage is run',
           'flow-fit': 'the flow is trained', 'scaler-fit': 'the scaler is fitted', 'student-fit': 'the geometry is fitted',
           'poolmap': 'the pool is used', 'backward': 'gradients are computed', 'optim-step': 'the optimiser makes a step',
           'load-params': 'parameters of the flow are replaced'}


def mentions(t, taint):
    return isinstance(t, T) and any(a in taint for a in walk(t))


def leaves(d, path=''):
    """(path, term) of a deep() structure"""
    if isinstance(d, T):
        yield path, d
    elif isinstance(d, tuple):
        if d and d[0] == 'obj':
            for k, q in d[2]:
                yield from leaves(q, path + '.' + str(k))
        elif d and d[0] == 'dict':
            for k, q in d[1]:
                yield from leaves(q, '%s[%s]' % (path, k))
        else:
            for q in d:
                yield from leaves(q, path)


def shows(d):
    """an object that holds the display itself"""
    return isinstance(d, tuple) and d and d[0] == 'obj' and any(isinstance(q, T) and any(a is TQDM for a in walk(q)) for k, q in d[2])


TQDM = sym('tqdm_obj')


def spread(I, st, taint):
    """the recurrences that take up a value that depends on the option, transitively"""
    taint = set(taint)
    deps = []
    for info in I.loops.values():
        for m, d in info.mus.items():
            ts = [t for q in ('init', 'step') for p, t in leaves(d[q] if isinstance(d[q], (T, tuple)) else ())]
            deps.append((m, ts))
        for path, d in info.lists.items():
            ts = []
            for q in ('init', 'step'):
                c = d.get(q)
                if isinstance(c, ListC):
                    for x in c.items:
                        ts += [t for p, t in leaves(deep(I, st, x))]
            for m in info.mus:
                if info.mus[m].get('path') == path:
                    deps.append((m, ts))
    for id_, d in I.rnds.items():
        base = d.get('base')
        if isinstance(base, T):
            ts = [t for p in ('params', 'shape', 'p') for x in [d.get(p)] if x is not None for q, t in leaves(x if isinstance(x, T) else tuple(x))]
            deps.append((base, ts))
    todo = True
    while todo:
        todo = False
        for m, ts in deps:
            if m not in taint and any(mentions(t, taint) for t in ts):
                taint.add(m)
                todo = True
    return taint


def state_rule(R, rule, site, I, st, S, taint):
    for k, v in sorted(I.cell(st, S).attrs.items()):
        if k.startswith('$'):
            continue
        d = deep(I, st, v)
        if shows(d) or (isinstance(d, tuple) and d and d[0] == 'choice' and any(shows(q) for q in d[2:])):
            continue
        if isinstance(d, T) and d in taint:
            continue        # the option itself, stored
        bad = [(p, t) for p, t in leaves(d, k) if mentions(t, taint)]
        R.ob(rule, '%s: %s' % (site, k), not bad, '' if not bad else '%s depends on the option: %s' % (bad[0][0], show(bad[0][1], 5)[:300]))


def effects_rule(R, site, I, evs, taint):
    seen = set()
    for e in evs:
        kind = e.kind if e.kind != 'call' else str(e.name)
        if kind == 'step':
            kind = 'optim-step'
        if kind in EFFECTS:
            bad = mentions(e.pc, taint) and e.pc is not FALSE
            if (e.loc, kind, bad) in seen:
                continue
            seen.add((e.loc, kind, bad))
            R.ob('same-effects', '%s [%s]' % (e.loc, site), not bad, '' if not bad else '%s only if %s' % (EFFECTS[kind], show(e.pc, 5)[:300]))


def loops_rule(R, site, I, taint):
    for info in I.loops.values():
        bad = None
        for c, loc, _ in info.breaks:
            if mentions(c, taint):
                bad = 'the loop is left at %s if %s' % (loc, show(c, 5)[:200])
        if info.exitcond is not None and mentions(info.exitcond, taint):
            bad = 'the loop ends if %s' % show(info.exitcond, 5)[:200]
        R.ob('same-control', '%s [%s]' % (info.loc, site), bad is None, bad or '')


def run_rule(R, cfg):
    X = Run(cfg)
    I = X.I
    pr = sym('progress')
    from ..terms import BOOLSYMS as BOOLS
    BOOLS.add(pr)
    I.scalars.add(pr)
    ev = scalar(I, 'save_every', pos=True)
    I.nullable.add(ev)
    taint = {pr, ev, TQDM}
    X.run(progress=pr, save_every=ev)
    R.unit(rname(cfg) + ', any progress and save_every', I)
    site = 'Sampler.run [%s]' % rname(cfg)
    taint = spread(I, X.st, taint)
    state_rule(R, 'same-state', site, I, X.st, X.S, taint)
    effects_rule(R, rname(cfg), I, I.events, taint)
    loops_rule(R, rname(cfg), I, taint)


def kernel_rule(R, cfg):
    K = Kernel(cfg)
    I, st = K.I, K.st
    pr, has, dc = sym('progress'), sym('has_display'), sym('displayed_calls')
    from ..terms import BOOLSYMS as BOOLS
    BOOLS.update((pr, has))
    I.scalars.update((pr, has, dc))
    PB = I.module('pocomc.tools')['ProgressBar']
    pb = I.call(st, PB, [pr], {}, None)
    I.set_attr(st, pb, 'info', I.alloc(st, DictC({'calls': dc})), None)
    I.set_attr(st, K.S, 'pbar', pb if cfg.precondition else Choice(has, pb, NONE), None)
    taint = {pr, has, dc, TQDM}
    n0 = len(I.events)
    K.run()
    u = kn.kname(cfg)
    taint = spread(I, st, taint)
    R.unit(u + ', any display', I)
    for k, v in sorted(K.res.items(), key=lambda p: str(p[0])):
        d = deep(I, st, v)
        bad = [(p, t) for p, t in leaves(d, str(k)) if mentions(t, taint)]
        R.ob('same-result', '%s: %s' % (u, k), not bad, '' if not bad else '%s depends on the display: %s' % (bad[0][0], show(bad[0][1], 5)[:300]))
    state_rule(R, 'same-state', u, I, st, K.S, taint)
    effects_rule(R, u, I, I.events[n0:], taint)
    loops_rule(R, u, I, taint)


def training_rule(R, weighted, val):
    F = Fit(weighted, val, verbose=True)
    I, st = F.I, F.st
    u = 'Flow.fit(%s, %s)' % ('weights' if weighted else 'no weights', 'validation' if val else 'no validation')
    R.unit(u + ', any verbosity', I)
    taint = spread(I, st, {sym('verbose')})
    state_rule(R, 'same-state', u, I, st, F.F, taint)
    effects_rule(R, u, I, F.evs, taint)
    loops_rule(R, u, I, taint)
    bad = any(mentions(t, taint) for p, t in leaves(deep(I, st, F.ret)))
    R.ob('same-result', u, not bad, 'what training returns depends on the verbosity' if bad else '')
