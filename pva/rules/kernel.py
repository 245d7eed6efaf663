"""Rules decided on the MCMC kernels, analysed through Sampler._mutate from generic particles."""
from ..drive import *
from ..dep import *
from .. import terms as tm

FIELDS = ('x', 'logdetj', 'logl', 'logp', 'blobs')


def kname(cfg):
    return '%s/%s%s%s%s' % (cfg.sample, 'flow' if cfg.precondition else 'no-flow', ',blobs' if cfg.blobs else '',
                            ',boundaries' if cfg.bc is True else ',%s' % cfg.bc if cfg.bc else '', ',vectorized' if cfg.vectorize else '')


_cache = {}


def kernel(R, cfg):
    """analysed kernel (cached in the process) with its dependence analysis"""
    key = repr(cfg)
    if key not in _cache:
        K = Kernel(cfg).run()
        K.dep = Dep(K.loop, K.inp['u'][1], K.U)
        K.site = K.loop.loc
        _cache[key] = K
    K = _cache[key]
    R.unit(kname(cfg), K.I)
    return K


def configs(blobs=(False,), bc=(False,), vec=(False,)):
    for s, p in KERNELS:
        for b in blobs:
            for c in bc:
                for v in vec:
                    yield Cfg(sample=s, precondition=p, blobs=b, bc=c, vectorize=v)


def opaque(*ts):
    """does a term contain something the analysis could not follow"""
    def bad(x):
        return (x.op == 'app' and str(x.args[0]).startswith(('ext:', 'other', 'opaque', '?'))) or \
            (x.op == 'app' and x.args[0] in ('ext', 'call')) or \
            (x.op == 'sym' and str(x.args[0]).startswith(('opaque', 'ext:', 'deepcall', 'unk')))
    return any(tm.contains(t, bad) for t in ts if isinstance(t, T))


def verdict(ok, *terms):
    """a mismatch between fully interpreted terms is a violation; otherwise it is left open"""
    if ok:
        return True
    return None if opaque(*terms) else False


# ------------------------------------------------------------------ record consistency of a kernel
def out_record(K):
    """(dict field -> element term of the particles leaving the kernel, expressed by the base value)"""
    o = {}
    for f in ('u',) + FIELDS:
        v = K.res.get(f)
        if v is None or v is NONE:
            continue
        o[f] = K.dep.apply(K.elem(v)[1])
    return o


def record_rule(R, K, fields=FIELDS):
    o = out_record(K)
    if 'u' not in o:
        R.ob('record', K.site, None, 'no position in the result')
        return
    uv = lam_ax(2, o['u'])
    for f in fields:
        if f not in K.inp:
            continue
        if f not in o:
            R.ob('record', '%s field %s' % (K.site, f), False, 'field %s is not handed back' % f)
            continue
        want = rewrite(K.inp[f][1], {K.U: uv})
        ok = same(o[f], want)
        d = ''
        if not ok:
            dm = [m for m in K.dep.dropped if K.loop.mus[m]['init'] is K.inp[f][1]]
            d = 'after the stage %s is not the %s of the returned position; value %s, expected %s' % (
                f, f, show(o[f], 7)[:400], show(want, 7)[:200])
        R.ob('record', '%s field %s' % (K.site, f), verdict(ok, o[f], want), d)


# ------------------------------------------------------------------ acceptance
class Accept:
    """the accept decision read off the recurrence of the position"""

    def __init__(self, K):
        self.K = K
        I = K.I
        d = K.dep
        step = d.apply(K.loop.mus[d.base]['step'])
        self.step = step
        # randomness entering a gate of the position update: uniform draws
        self.gate = None
        self.uni = None
        for g in closed_gates(step):
            us = [r for r in g.lv if r.op == 'rnd' and I.rnds[r.args[0]]['dist'] == 'uniform']
            if us and g.op in ('gt0', 'ge0'):
                self.gate, self.uni = g, us
                break
        if self.gate is None:
            raise ValueError('no accept decision against a uniform draw found')
        self.new = assume_facts(step, facts_of(self.gate, True))
        self.old = assume_facts(step, facts_of(self.gate, False))
        cur = at(d.base, ax(0), ax(1))
        if self.old is not cur and self.new is cur:
            self.new, self.old = self.old, self.new
            self.flipped = True
        else:
            self.flipped = False

    def exponent(self):
        """E with acceptance probability min(1, exp E), or None; NaN guards are removed"""
        g = self.gate
        d = g.args[0]
        if self.flipped:
            d = neg(d)
        d = strip_nan(d)
        u = at(self.uni[0], ax(0))
        for cand in (u, self.uni[0]):
            # d = X - u
            x = add(d, cand)
            if cand not in set(walk(x)):
                return unmin(x, ONE, True)
            # d = X - log u  (up to a positive factor)
            x = add(d, log(cand))
            if cand not in set(walk(x)):
                return unmin(x, ZERO, False)
        return None


def strip_nan(t):
    def f(x):
        x = rebuild(x, f)
        if x.op == 'ite' and x.args[0].op == 'isnan' and x.args[2] is x.args[0].args[0] and \
                (x.args[1] is ZERO or has_neg(x.args[1])):
            return x.args[2]
        return x
    return f(t)


def has_neg(t):
    return t is neg(INF)


def unmin(x, one, ex):
    if x.op == 'min' and len(x.args) == 2 and one in x.args:
        x = [a for a in x.args if a is not one][0]
    if ex:
        return log(x)
    return x


def finite_facts(K, t):
    """facts 'everything about the proposal is finite' for the gates of t"""
    fs = {}
    for x in walk(t):
        if x.op in ('isfinite',):
            fs[x] = True
        if x.op == 'any' and contains_only_nonfinite(x):
            fs[x] = False
        if x.op == 'all' and contains_finite(x):
            fs[x] = True
    return fs


def contains_only_nonfinite(x):
    b = x.args[1]
    return b.op == 'not' and b.args[0].op == 'isfinite' or b.op in ('isnan', 'isinf') or \
        b.op == 'or' and all(y.op == 'not' and y.args[0].op == 'isfinite' or y.op in ('isnan', 'isinf') for y in b.args)


def contains_finite(x):
    b = x.args[1]
    return b.op == 'isfinite' or b.op == 'and' and all(y.op == 'isfinite' for y in b.args)


def under_finite(K, t):
    for _ in range(4):
        fs = finite_facts(K, t)
        if not fs:
            return t
        t2 = assume_facts(t, fs)
        if t2 is t:
            return t
        t = t2
    return t


def quad(C, z):
    """z^T C^-1 z for a vector term z"""
    a, b = fresh_iv('a'), fresh_iv('b')
    Ci = app('inv', C)
    return mk_sum(D, a, mul(at(z, a), mk_sum(D, b, mul(at(Ci, a, b), at(z, b)))))


def mh_rule(R, K):
    """acceptance exponent = log of target ratio plus proposal correction"""
    cfg, I, dep = K.cfg, K.I, K.dep
    A = Accept(K)
    site = K.site
    E = A.exponent()
    if E is None:
        R.ob('mh-ratio', site, None, 'accept decision has no recognised form: %s' % show(A.gate, 6)[:300])
        return
    cur = at(dep.base, ax(0), ax(1))
    R.ob('accept-or-keep', site, verdict(A.old is cur, A.old),
         'a rejected particle takes %s' % show(A.old, 6)[:300] if A.old is not cur else '')
    # uniform drawn afresh for every particle in every iteration
    r = A.uni[0]
    info = I.rnds[r.args[0]]
    fresh = K.loop.id in info['loops'] and len(A.uni) == 1
    per = (len(info['shape']) == 1 and info['shape'][0] is NA) or \
        any(n is NA for _, n in info['ivs'][len(K.loop.parent):])
    R.ob('fresh-uniform', info['loc'], fresh and per,
         '' if fresh and per else 'the accept threshold is not a fresh uniform draw per particle and iteration '
         '(drawn in loops %s, shape %s)' % (info['loops'], info['shape']))
    new = A.new
    s1 = {dep.base: lam_ax(2, new)}
    urow = at(dep.base, ax(0))

    def fld(name, prop):
        t = rewrite(K.inp[name][1], {K.U: dep.base})
        return rewrite(t, s1) if prop else t
    E = under_finite(K, E)
    want = add(mul(K.beta, sub(fld('logl', True), fld('logl', False))),
               sub(fld('logp', True), fld('logp', False)),
               sub(fld('logdetj', True), fld('logdetj', False)))
    j = fresh_iv('j')
    newrow = lam([j], subst(new, {ax(1): j}))
    ver = None
    if cfg.precondition:
        vers = {x.args[1] for x in walk(new) if x.op == 'app' and x.args[0] == 'flow_inv'}
        if len(vers) == 1:
            ver = vers.pop()
            want = add(want, sub(app('flow_ladj', ver, urow), app('flow_ladj', ver, newrow)))
        else:
            R.ob('mh-ratio', site, verdict(False, new), 'the proposal is not mapped through the flow: %s' % show(new, 6)[:300])
            return
        th = lam([j], app('flow_fwd', ver, urow, j))
        thn = lam([j], app('flow_fwd', ver, newrow, j))
    else:
        th, thn = urow, newrow
    i = fresh_iv('i')
    prop = at(thn, i)
    E = dep.apply(E)
    if cfg.sample == 'rwm':
        ok = zero(sub(E, want))
        R.ob('mh-ratio', site, verdict(ok, E), '' if ok else 'acceptance exponent differs from the target ratio by %s' %
             show(canon(sub(E, want)), 6)[:500])
        # symmetric proposal: theta' - theta is a linear image of fresh centred normals, free of theta
        dlt = sub(prop, at(th, i))
        ok, why = symmetric(K, dlt)
        R.ob('proposal', site, verdict(ok, dlt), why)
        return
    # t-preconditioned Crank-Nicolson
    res = tpcn(K, prop, th, i)
    if isinstance(res, str):
        R.ob('proposal', site, verdict(False, prop), res)
        return
    m, C, nu = res
    R.ob('proposal', site, True)

    def q(v):
        w = fresh_iv('w')
        return quad(C, lam([w], sub(at(v, w), at(m, w))))
    k = scale(add(D, nu), tm.HALF)
    corr = mul(k, sub(log(add(ONE, div(q(thn), nu))), log(add(ONE, div(q(th), nu)))))
    # logs of equal arguments are compared through their canonical sums
    ok = zero(canon(sub(E, add(want, corr)))) or log_equal(sub(E, want), corr)
    R.ob('mh-ratio', site, verdict(ok, E), '' if ok else 'acceptance exponent differs from target ratio plus t-proposal '
         'correction by %s' % show(canon(sub(E, add(want, corr))), 6)[:500])


def log_equal(a, b):
    """a == b where both are combinations  sum_i k_i log(arg_i): compare exp(2 (a - b) / common) is avoided by matching
    the logarithms' arguments after putting them over a common form"""
    d = canon(sub(a, b))
    p = to_poly(d)
    # group by cofactor of the log
    groups = {}
    rest = {}
    for m, c in p.items():
        ls = [f for f, e in m if f.op == 'log' and e == 1]
        if len(ls) != 1:
            rest[m] = c
            continue
        co = tuple((f, e) for f, e in m if f is not ls[0])
        groups.setdefault(co, []).append((ls[0].args[0], c))
    if rest:
        return False
    for co, items in groups.items():
        den = 1
        for _, c in items:
            den = den * c.denominator // tm.gcd(den, c.denominator)
        pos, ng = ONE, ONE
        for t, c in items:
            k = int(c * den)
            if abs(k) > 3:
                return False
            t = canon(t)
            if k > 0:
                pos = mul(pos, power(t, k))
            else:
                ng = mul(ng, power(t, -k))
        if not zero(canon(sub(pos, ng))):
            return False
    return True


def draws_in(K, t, dist):
    return {r for r in t.lv if r.op == 'rnd' and K.I.rnds[r.args[0]]['dist'] == dist}


def normal_part(K, prop):
    """(coefficient term, chol argument) of the unique term  coef * sum_b chol(C)[i, b] n[b]"""
    ns = draws_in(K, prop, 'normal')
    if len(ns) != 1:
        return None
    n = next(iter(ns))
    info = K.I.rnds[n.args[0]]
    if K.loop.id not in info['loops']:
        return None
    part = {}
    rest = {}
    for mo, c in to_poly(prop).items():
        if any(n in f.lv for f, e in mo):
            part[mo] = c
        else:
            rest[mo] = c
    coefs = []
    for mo, c in part.items():
        fs = [f for f, e in mo if n in f.lv]
        if len(fs) != 1 or fs[0].op != 'sum':
            return None
        coefs.append((fs[0], tm._build_mono({f: e for f, e in mo if f is not fs[0]}, c)))
    if len({f for f, _ in coefs}) != 1:
        return None
    return n, coefs[0][0], add(*[c for _, c in coefs]), tm.from_poly(rest)


def chol_of(s, i):
    for x in walk(s):
        if x.op == 'app' and x.args[0] == 'chol':
            return x.args[1]
    return None


def independent(K, n):
    """is the normal vector drawn per particle (indexed by the particle)"""
    info = K.I.rnds[n.args[0]]
    return any(v is not None and ax(0) in a.fv for a in n.args[1:] for v in (a,) if isinstance(a, T)) or \
        (len(info['shape']) == 2 and info['shape'][0] is NA)


def symmetric(K, dlt):
    np_ = normal_part(K, dlt)
    if np_ is None:
        return False, 'the random-walk increment is not a linear image of one fresh normal vector: %s' % show(dlt, 6)[:300]
    n, s, coef, rest = np_
    base = K.dep.base
    if rest is not ZERO and not zero(rest):
        return False, 'the random-walk increment is not centred: %s' % show(rest, 6)[:300]
    if base in coef.lv or base in s.lv:
        return False, 'the size of the random-walk increment depends on the particle'
    if not independent(K, n):
        return False, 'particles share one normal draw'
    return True, ''


def tpcn(K, prop, th, i):
    """decompose the proposal; (mean, covariance, nu) or a reason for refusal"""
    np_ = normal_part(K, prop)
    if np_ is None:
        return 'no single fresh normal vector in the proposal: %s' % show(prop, 6)[:300]
    n, s, coef, rest = np_
    C = chol_of(s, i)
    if C is None:
        return 'the normal vector is not shaped by a Cholesky factor: %s' % show(s, 6)[:200]
    b = fresh_iv('b')
    nrm = at(n, b) if len(K.I.rnds[n.args[0]]['shape']) == 1 else at(n, ax(0), b)
    if not same(s, mk_sum(D, b, mul(at(app('chol', C), i, b), nrm))):
        return 'the normal vector is not multiplied by the Cholesky factor: %s' % show(s, 6)[:200]
    if not independent(K, n):
        return 'particles share one normal draw'
    gs = draws_in(K, coef, 'gamma')
    if len(gs) != 1:
        return 'the scale of the proposal does not come from one gamma draw: %s' % show(coef, 6)[:200]
    g = next(iter(gs))
    gi = K.I.rnds[g.args[0]]
    if K.loop.id not in gi['loops']:
        return 'the gamma draw is not fresh in every iteration'
    ge = next((x for x in walk(coef) if x.op == 'at' and x.args[0] is g), g)
    # candidates for mean and degrees of freedom
    shape = K.dep.apply(gi['params'][0])
    if gi['ivs']:
        shape = subst(shape, {gi['ivs'][-1][0]: ax(0)})
    nu = sub(scale(shape, 2), D)
    if base_in(K, nu):
        return 'the degrees of freedom depend on the particle: %s' % show(nu, 6)[:200]
    means = [x for x in walk(rest) if x.op == 'at' and len(x.args) == 2 and x.args[1] is i and
             x.args[0].op in ('mu', 'sym') and not base_in(K, x)]
    why = 'the deterministic part of the proposal is not mean + sqrt(1 - sigma^2) (theta - mean): %s' % show(rest, 7)[:300]
    for me in means:
        m = me.args[0]
        w = fresh_iv('w')
        q = quad(C, lam([w], sub(at(th, w), at(m, w))))
        # coef = sigma sqrt(s),  s = 1 / gamma((D+nu)/2, 2/(nu+q)) = (nu+q) / (2 g)
        s_ = div(add(nu, q), mul(num(2), ge))
        sg2 = div(mul(canon(coef), canon(coef)), canon(s_))
        sg2 = strip_ratio(sg2)
        if base_in(K, sg2) or g in sg2.lv:
            why = 'the proposal scale is not sigma times the inverse-gamma draw for (D + nu)/2, 2/(nu + q): %s' % show(sg2, 6)[:300]
            continue
        want = add(me, mul(sqrt(sub(ONE, sg2)), sub(at(th, i), me)))
        if zero(sub(rest, want)) or zero(sub(canon(rest), canon(want))):
            return m, C, nu
    return why


def strip_ratio(t):
    return canon(t)


def base_in(K, t):
    return K.dep.base in t.lv
