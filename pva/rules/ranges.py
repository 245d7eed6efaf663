"""Exponentials of log-likelihoods stay in the range of floating-point numbers (C29).

The value graphs of the other rules do not distinguish log(sum(exp(a))) from a guarded log-sum-exp.  Here the exponentials that the
code takes are looked at one by one: of log-weights only relative to their maximum or log-sum, of acceptance ratios only of
differences of log-densities."""
from .history import *
from .kernel import Accept, configs as kconfigs, kernel, kname

VOLATILE = ('mu', 'rnd', 'at')


def volatile(t):
    """does a value that grows with the log-likelihood occur"""
    return tm.contains(t, lambda x: x.op in VOLATILE or x.op == 'app' and x.args[0] in ('lik', 'lp'))


def monos(t):
    if t.op == 'poly':
        return list(t.args[0])
    return [(((t, 1),), 1)]


def peel(t, op):
    """(variables, body) of nested reductions"""
    ivs = []
    while t.op == op:
        v, _, t = tm.open_binder(t)
        ivs.append(v)
    return ivs, t


def element_maps(e, ivs):
    """how an element of the array is named by the variables of a reduction over all of it"""
    out = []
    n = len(ivs)
    out.append({ax(i): v for i, v in enumerate(ivs)})
    if n == 2:
        m = {}
        for x in walk(e):
            if x.op == 'app' and x.args[0] in ('flat_t', 'flat_k') and x.args[1] is ax(0):
                m[x] = ivs[0] if x.args[0] == 'flat_t' else ivs[1]
        if m:
            out.append(m)
    return out


def bounded(e):
    """is the largest element of exp(e), over all elements, known to be of order one; e over ax(0).."""
    if not volatile(e):
        return True
    if e.op == 'min' and any(not volatile(a) for a in e.args):
        return True
    if e.op == 'ite':
        return bounded(e.args[1]) and bounded(e.args[2])
    if is_inf(e):
        return True
    for m, c in monos(e):
        if len(m) != 1 or m[0][1] != 1 or not c < 0:
            continue
        M = m[0][0]
        if M.op == 'maxb':
            ivs, body = peel(M, 'maxb')
            f = add(e, M)
        elif M.op == 'log' and M.args[0].op == 'sum':
            ivs, body = peel(M.args[0], 'sum')
            body = log(body)
            f = add(e, M)
        else:
            continue
        if f.op == 'maxb' and M.op == 'log':
            iv2, b2 = peel(f, 'maxb')
            if len(iv2) == len(ivs) and not volatile(sub(rewrite(b2, dict(zip(iv2, ivs))), body)):
                return True
        for mp in element_maps(f, ivs):
            r = sub(rewrite(f, mp), body)
            if not any(v in r.fv for v in ivs) and bounded(r):
                return True
    return False


def unsure(e):
    """constructs about which nothing is known here"""
    return opaque(e) or tm.contains(e, lambda x: x.op == 'app' and str(x.args[0]).startswith(('argmax', 'sort', 'argsort', 'percentile', 'quantile', 'median')))


def events(R, I, evs, what):
    n = 0
    for e in evs:
        if e.kind != 'exp' or e.pc is FALSE:
            continue
        if any(s.split('.')[-1] in KERNEL_FUNCS or 'scaler' in s.lower() for s in e.stack) or 'scaler.py' in e.loc or 'student.py' in e.loc:
            continue
        if e.args[0] is None:
            R.ob('relative', '%s [%s]' % (e.loc, what), None, 'argument not described')
            continue
        t = e.args[0][1]
        ok = bounded(t)
        n += 1
        R.ob('relative', '%s [%s]' % (e.loc, what), True if ok else None if unsure(t) else False, '' if ok else
             'the exponential of %s is taken, which is relative to neither its maximum nor its log-sum' % show(t, 5)[:300])
    return n


def run_rule(R, X, cfg):
    events(R, X.I, X.I.events, 'run, ' + rname(cfg))
    R.ob('relative', 'Sampler.run [%s]' % rname(cfg), True)


def posterior_rule_(R, H):
    I = H.I
    b = lambda x: TRUE if x else FALSE
    for resample in (False, True):
        for trim in (False, True):
            st = H.fork()
            n0 = len(I.events)
            I.call_attr(st, H.S, 'posterior', [], dict(resample=b(resample), trim_importance_weights=b(trim)), None)
            events(R, I, I.events[n0:], 'posterior')
    st = H.fork()
    n0 = len(I.events)
    I.get_attr(st, H.S, 'results')
    events(R, I, I.events[n0:], 'results')
    R.ob('relative', 'Sampler.posterior', True)


def tools_rule_(R):
    for fn in ('compute_ess', 'increment_logz'):
        def go():
            M = Model(ROOT)
            I, st = M.I, M.st
            m = dimsym('m')
            lw = I.new_arr(st, (m,), at(sym('lw'), ax(0)))
            n0 = len(I.events)
            I.call(st, I.module('pocomc.tools')[fn], [lw], {}, None)
            R.unit('tools.' + fn, I)
            events(R, I, I.events[n0:], 'tools.' + fn)
            R.ob('relative', 'tools.' + fn, True)
        R.guard('relative', 'tools.' + fn, go)


def is_inf(t):
    return t.op == 'inf' or t.op == 'poly' and len(t.args[0]) == 1 and len(t.args[0][0][0]) == 1 and t.args[0][0][0][0][0].op == 'inf'


def evaluated(t):
    """the case in which the likelihood is evaluated: placeholders of impossible proposals do not matter"""
    def f(x):
        if x.op == 'ite' and (is_inf(x.args[1]) or is_inf(x.args[2])):
            return f(x.args[2] if is_inf(x.args[1]) else x.args[1])
        return rebuild(x, f)
    return f(t)


def kernel_rule_(R, K):
    """adding a constant to the log-likelihood must not reach any exponential of a kernel"""
    c = sym('offset')
    n = 0
    own = [m for m, d in K.loop.mus.items() if d['init'] is K.inp['logl'][1]]
    for e in K.I.events:
        if e.kind != 'exp' or 'mcmc.py' not in e.loc or e.args[0] is None:
            continue
        t = evaluated(K.dep.apply(e.args[0][1]))
        liks = {x: add(x, c) for x in walk(t) if x.op == 'app' and x.args[0] == 'lik' or x.op == 'at' and x.args[0] in own}
        if not liks:
            continue
        n += 1
        s = rewrite(t, liks)
        ok = same(s, t) or not tm.contains(s, lambda x: x is c)
        R.ob('difference', '%s [%s]' % (e.loc, kname(K.cfg)), verdict(ok, t), '' if ok else
             'the exponential of %s is taken, which grows with the log-likelihood itself' % show(t, 5)[:300])
    R.ob('difference', K.site, True)
