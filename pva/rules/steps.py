"""Size of a temperature step and its target (C23)."""
from .temper import *
from ..tabulate import Table, pivot, Unknown

RATIOS = (0.2, 0.5, 0.9, 0.97, 0.985, 0.9895, 0.9905, 0.995, 1.0, 1.005, 1.0095, 1.0105, 1.015, 1.03, 1.1, 1.5, 3.0)


def conj(fs):
    return mand(*[c if v else mnot(c) for c, v in fs])


def nested_exits(X, V, b):
    """[(condition, substitution)] under which the loop that produced b was left"""
    out = []
    for info in X.I.loops.values():
        if V.main.id not in info.parent:
            continue
        ms = {m: d for m, d in info.mus.items() if d['rank'] == 0}
        if not any(m in b.lv for m in ms):
            continue
        for c, loc, _ in info.breaks:
            out.append((c, None, loc))
        if info.exitcond is not None and info.exitcond is not FALSE:
            step = {m: d['step'] for m, d in ms.items() if isinstance(d['step'], T)}
            init = {m: d['init'] for m, d in ms.items() if isinstance(d['init'], T) and d['init'].op != 'undef'}
            out.append((subst_all(info.exitcond, step), step, info.loc))
            c0 = subst_all(info.exitcond, init)
            if c0 is not FALSE:
                out.append((c0, init, info.loc + ' without an iteration'))
    return out


def subst_all(t, m):
    return rewrite(t, m)


def step_rule(R, X, V, metric):
    I = X.I
    site = V.main.loc
    prev = V.last('beta')
    m = I.get_attr(V.head.clone(), X.S, 'n_effective')
    m = I.term(V.head, m)
    E = lambda b: V.est.metric(metric, b)
    new, ess = V.rec('beta'), V.rec('ess')
    for fs, (b, e) in cases([new, ess]):
        variants = [(TRUE, None, site)]
        inner = b is not prev and b is not ONE
        if inner:
            variants = nested_exits(X, V, b) or variants
        for cond, sub_, loc in variants:
            b2, e2 = (subst_all(b, sub_), subst_all(e, sub_)) if sub_ else (b, e)
            hyp = mand(conj(fs), cond)
            for fs2, (b3, e3, h3) in cases([b2, e2, hyp]) if sub_ else [([], (b2, e2, hyp))]:
                one_case(R, X, V, site if loc == site else loc, mand(h3, conj(fs2)), b3, e3, prev, m, E)


def one_case(R, X, V, loc, hyp, b, e, prev, m, E):
    if hyp is FALSE:
        return
    what = 'the previous temperature' if b is prev else 'temperature 1' if b is ONE else 'a searched temperature'
    where = '%s at %s' % (loc, what)
    want = E(b)
    fs = facts_of(hyp, True)
    ok = same(e, want) or same(assume_facts(e, fs), assume_facts(want, fs))
    R.ob('recorded-size', where, verdict(ok, e, want), '' if ok else
         'the recorded sample size is %s, the metric at the recorded temperature is %s' % (show(e, 6)[:300], show(want, 6)[:300]))
    # the condition under which this temperature is chosen
    ms = [(b, want)] + [(q, E(q)) for q in (prev, ONE) if q is not b]
    taken = []
    pv = []
    for q, f in ms:
        p = pivot(f, taken)
        if p is None:
            R.ob('step-size', where, None, 'metric not described')
            return
        taken.append(p)
        pv.append((p, f))
    bad = None
    seen = False
    free = set()
    for seed in range(12):
        for target in (100.0, 5000.0):
            for r in RATIOS:
                for others in ((0.5, 0.5), (1.5, 0.5), (1.5, 1.5), (0.5, 1.5)) if b is not ONE and b is not prev else ((0.5,), (1.5,)):
                    T = Table({m: target}, seed)
                    for y in (prev,):
                        T.set(y, 0.3)
                    if b is not prev and b is not ONE and seed >= 4:
                        for y in b.lv:
                            if y.op == 'mu' and y is not prev and not (prev.args and y is prev.args[0]):
                                T.set(y, (1.0, 0.995, 1e-5, 0.9)[seed % 4])
                    try:
                        T.solve(pv[0][1], pv[0][0], r * target)
                        for (p, f), o in zip(pv[1:], others):
                            T.solve(f, p, o * target)
                        T.solve(pv[0][1], pv[0][0], r * target)
                        h = T(hyp)
                        bv = T(b)
                    except (Unknown, OverflowError, ValueError, ZeroDivisionError, TypeError):
                        continue
                    if not h:
                        continue
                    seen = True
                    free |= set(T.free)
                    if b is prev:
                        good = r <= 1.0101
                    elif b is ONE:
                        good = r >= 0.9899
                    else:
                        good = 0.9899 <= r <= 1.0101 or abs(bv - 1) < 1e-4
                    if not good:
                        bad = r
                        break
                if bad is not None:
                    break
            if bad is not None:
                break
        if bad is not None:
            break
    if bad is not None:
        R.ob('step-size', where, verdict(False, hyp, b), 'chosen although the metric there is %g times its target; chosen if %s' % (
            bad, show(hyp, 6)[:400]))
    elif not seen:
        R.ob('step-size', where, None, 'never chosen on the values tabulated: %s' % show(hyp, 5)[:200])
    else:
        R.ob('step-size', where, True)


def target_rule(R, X, V, dynamic):
    I = X.I
    site = V.main.loc
    m = I.term(V.head, I.get_attr(V.head.clone(), X.S, 'n_effective'))
    new = I.term(V.end, I.get_attr(V.end.clone(), X.S, 'n_effective'))
    if not dynamic:
        ok = same(new, m)
        R.ob('target', site + ' (dynamic=False)', verdict(ok, new), '' if ok else 'without dynamic adjustment the target becomes %s' % show(new, 5)[:300])
        return
    start = I.term(V.start, I.get_attr(V.start.clone(), X.S, 'n_effective'))
    n0 = sym('n_effective')
    ok = same(start, n0)
    R.ob('target', site + ' initial', verdict(ok, start), '' if ok else 'the target starts at %s' % show(start, 5)[:200])
    beta = V.rec('beta')
    for fs, (b, _) in cases([beta, ZERO], 8):
        f = facts_of(conj(fs), True)
        t = assume_facts(new, f)
        nu = V.est.uss(b, NA)
        q = div(nu, NA)
        ratio = div(sub(ONE, tm.tpow(sub(ONE, div(ONE, n0)), NA)), div(NA, n0))
        low, high = scale(ratio, Fraction(19, 20)), tmin(scale(ratio, Fraction(21, 20)), ONE)
        want = ite(lt(q, low), app('int', div(m, q)), ite(lt(high, q), app('int', mul(q, m)), m))
        ok = same(t, want) or same(assume_facts(t, f), assume_facts(want, f))
        if not ok:
            ok = tabulated(t, assume_facts(want, f), conj(fs), nu, m, n0)
        R.ob('target', '%s at beta=%s' % (site, show(b, 3)[:60]), verdict(ok, t, want) if ok is not None else None, '' if ok else
             'the target becomes %s, expected %s' % (show(t, 7)[:400], show(want, 7)[:400]))


def tabulated(a, b, hyp, nu, m, n0):
    p = pivot(nu)
    if p is None:
        return None
    n = 0
    for target in (64.0, 512.0):
        for na in (32.0, 256.0):
            for f in (0.2, 0.5, 0.7, 0.75, 0.8, 0.85, 0.9, 0.93, 0.96, 0.99, 1.0):
                T = Table({m: target, n0: 2 * na, NA: na})
                try:
                    T.solve(nu, p, f * na)
                    x, y = T(a), T(b)
                except (Unknown, OverflowError, ValueError, ZeroDivisionError, TypeError):
                    continue
                n += 1
                if abs(x - y) > 1.0001:
                    return False
    return True if n > 20 else None
