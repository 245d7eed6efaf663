"""Hash-consed terms of the value graph.

A term denotes a scalar (or an opaque object).  Arrays are described elsewhere as
(shape, element term over the axis placeholders ax(0), ax(1), ...).  All constructors
normalise, so that equal values written differently get the same node whenever the
rewrite rules below can see it:

* arithmetic is kept in an expanded polynomial form over factors with rational exponents,
* exp/log/pow cancel and merge, sums over an index are linear and pull invariant factors out,
* boolean connectives, min/max are n-ary and sorted, comparisons are reduced to d > 0 / d >= 0,
* gated values (`ite`) drop branches decided by an enclosing gate,
* bound variables are named by binder height, so alpha-equivalent terms coincide.
"""
from fractions import Fraction
from math import gcd
import sys
import gc

sys.setrecursionlimit(20000)
gc.disable()

_intern = {}
_count = [0]
EMPTY = frozenset()
VARS = ('ax', 'bv', 'iv')
LEAVES = ('sym', 'mu', 'rnd')
BINDERS = ('sum', 'all', 'any', 'maxb', 'minb', 'lam')
BOOLOPS = frozenset(('and', 'or', 'not', 'gt0', 'ge0', 'eq0', 'eq', 'isfinite', 'isnan', 'isinf', 'all', 'any', 'isnone',
                     'in', 'bool'))


class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'ht', 'ite', 'lv', 'hb')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _subs(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _subs(a)


def mk(op, *args):
    key = (op, args)
    t = _intern.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _count[0] += 1
    t.id = _count[0]
    fv = EMPTY
    lv = EMPTY
    ht = 0
    ite_ = op == 'ite'
    hb = op in BOOLOPS
    if op == 'poly':
        subs = [f for m, c in args[0] for f, e in m]
    else:
        subs = [a for a in args if a.__class__ is T]
        if len(subs) < len(args):
            for a in args:
                if a.__class__ is tuple:
                    subs.extend(_subs(a))
    for s in subs:
        if s.fv and s.fv is not fv and not s.fv <= fv:
            fv = fv | s.fv if fv else s.fv
        if s.lv and s.lv is not lv and not s.lv <= lv:
            lv = lv | s.lv if lv else s.lv
        if s.ht > ht:
            ht = s.ht
        ite_ = ite_ or s.ite
        hb = hb or s.hb
    if op in BINDERS:
        ht += 1
        fv = fv - {mk('bv', ht)}
    t.ht = ht
    t.fv = frozenset([t]) if op in VARS else fv
    t.lv = lv | {t} if op in LEAVES else lv
    t.ite = ite_
    t.hb = hb
    _intern[key] = t
    return t


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float('inf'):
            return INF
        if x == float('-inf'):
            return neg(INF)
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


def const(v):
    return mk('const', v)


INF = mk('inf')
NAN = mk('nan')
UNDEF = mk('undef')
TRUE = mk('const', True)
FALSE = mk('const', False)
NONE = mk('const', None)
ZERO = mk('num', Fraction(0))
ONE = mk('num', Fraction(1))
PI = mk('sym', 'pi')
HALF = Fraction(1, 2)


def ax(i):
    return mk('ax', i)


_fresh = [0]


def fresh_iv(hint='k'):
    _fresh[0] += 1
    return mk('iv', '%s$%d' % (hint, _fresh[0]))


def fresh_sym(name):
    _fresh[0] += 1
    return mk('sym', '%s#%d' % (name, _fresh[0]))


def sym(name):
    return mk('sym', name)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0] if t.op == 'num' else None


def is_const(t):
    return t.op in ('num', 'const', 'inf', 'nan')


# ---------------------------------------------------------------- polynomials
# coefficients and exponents are ints when integral and Fractions otherwise
def _q(x):
    if x.__class__ is int or x.denominator != 1:
        return x
    return x.numerator


def to_poly(t):
    if t.op == 'num':
        return {(): _q(t.args[0])} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'const' and isinstance(t.args[0], bool):
        return {(): 1} if t.args[0] else {}
    return {((t, 1),): 1}


def _mkey(m):
    return tuple((f.id, e) for f, e in m)


def from_poly(d):
    items = [(m, _q(c)) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    # infinite constants absorb finite rational constants and coefficients
    for k, (m, c) in enumerate(items):
        if len(m) == 1 and m[0][0] is INF and m[0][1] == 1 and abs(c) != 1:
            items[k] = (m, 1 if c > 0 else -1)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return mk('num', Fraction(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if any(len(m) == 1 and m[0][0] is INF for m, c in items):
        items = [(m, c) for m, c in items if m != ()]
        if len(items) == 1:
            m, c = items[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk('poly', tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        if t.op == 'nan':
            return NAN
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(t, c):
    c = _q(c)
    if c == 1:
        return t
    if c == 0:
        return ZERO
    return from_poly({m: c * k for m, k in to_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono(fd):
    l = [(f, _q(e)) for f, e in fd.items() if e != 0]
    if len(l) > 1:
        l.sort(key=_mono_id)
    return tuple(l)


def _mono_id(fe):
    return fe[0].id


def _mono_terms(m):
    return {f: e for f, e in m}


def _build_mono(fd, c):
    """product of factors fd: {factor: exponent} times rational c -> term"""
    if c == 0:
        return ZERO
    expargs = []
    out = {}
    later = []
    for f, e in fd.items():
        if e == 0:
            continue
        if f.op == 'exp':
            expargs.append(scale(f.args[0], e))
        elif f.op == 'num':
            if e.denominator == 1:
                c *= f.args[0] ** int(e)
            else:
                # keep exponent in (0,1)
                k = e.numerator // e.denominator
                c *= f.args[0] ** k
                e2 = e - k
                if e2:
                    out[f] = out.get(f, 0) + e2
        elif f.op == 'poly' and e.denominator == 1 and 0 < e <= 3:
            later.append((f, int(e)))
        elif f.op == 'abs' and e.denominator == 1 and e % 2 == 0:
            later.append((f.args[0], int(e)) if e > 0 else (power(f.args[0], e), 1))
        elif f is INF and e < 0:
            return ZERO
        else:
            out[f] = out.get(f, 0) + e
    if expargs:
        ea = add(*expargs)
        et = exp(ea)
        if et.op == 'exp':
            out[et] = out.get(et, 0) + 1
        else:
            later.append((et, 1))
    mono = _mono(out)
    r = from_poly({mono: c})
    for f, e in later:
        for _ in range(e):
            r = mul(r, f)
    return r


def _mono_mul(m1, c1, m2, c2):
    fd = {}
    for f, e in m1:
        fd[f] = e
    for f, e in m2:
        fd[f] = fd.get(f, 0) + e
    simple = True
    nexp = 0
    for f, e in fd.items():
        if f.op == 'exp':
            nexp += 1
            if nexp > 1 or e != 1:
                simple = False
        elif f.op in ('num', 'poly', 'abs', 'inf'):
            simple = False
    if simple:
        mono = _mono(fd)
        return {mono: c1 * c2}
    return to_poly(_build_mono(fd, c1 * c2))


def _has(m, q):
    for f, e in m:
        if f is q:
            return True
    return False


def mul2(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'num':
        return scale(b, a.args[0])
    if b.op == 'num':
        return scale(a, b.args[0])
    # ite(m,1,0) * x is left alone
    pa, pb = to_poly(a), to_poly(b)
    res = {}

    def acc(d):
        for m, c in d.items():
            res[m] = res.get(m, 0) + c

    if len(pb) > 1 and len(pa) >= 1:
        cb, mb, qb = content(b)
        done = [m for m in pa if _has(m, qb)]
        for m in done:
            c = pa.pop(m)
            fd = _mono_terms(m)
            for f, e in mb:
                fd[f] = fd.get(f, 0) + e
            fd[qb] = fd[qb] + 1
            acc(to_poly(_build_mono(fd, c * cb)))
    if len(pa) > 1 and pb:
        ca, ma, qa = content(from_poly(pa))
        done = [m for m in pb if _has(m, qa)]
        for m in done:
            c = pb.pop(m)
            fd = _mono_terms(m)
            for f, e in ma:
                fd[f] = fd.get(f, 0) + e
            fd[qa] = fd[qa] + 1
            acc(to_poly(_build_mono(fd, c * ca)))
    if len(pa) > 1:
        _try_div(pa, pb, acc)
    if len(pb) > 1 and len(pa) > 0:
        _try_div(pb, pa, acc)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            acc(_mono_mul(m1, c1, m2, c2))
    return from_poly(res)


def _try_div(pa, pb, acc):
    """(sum pa) * t*Q^-k with pa divisible by Q: divide exactly; handled terms leave pb"""
    fa = None
    for m in list(pb):
        for f, e in m:
            if f.op == 'poly' and e < 0 and e.denominator == 1:
                if fa is None:
                    fa = set(g for mm in pa for g, _ in mm)
                fq = set(g for mm in to_poly(f) for g, _ in mm)
                if not fq <= fa:
                    continue
                q = polydiv(from_poly(pa), f)
                if q is not None:
                    c = pb.pop(m)
                    fd = _mono_terms(m)
                    fd[f] = e + 1
                    acc(to_poly(mul2(q, _build_mono(fd, c))))
                    break


_div_memo = {}


def polydiv(a, q):
    """exact quotient a/q of polynomials, or None"""
    key = (a, q)
    if key in _div_memo:
        return _div_memo[key]
    _div_memo[key] = None
    pq = to_poly(q)
    order = sorted(set(g for mm in pq for g, _ in mm), key=lambda g: g.id)

    def lead(p):
        best = None
        for m in p:
            d = _mono_terms(m)
            k = tuple(d.get(g, 0) for g in order)
            if best is None or k > best[0]:
                best = (k, m)
        return best

    kq, mq = lead(pq)
    cq = pq[mq]
    rem = to_poly(a)
    quo = {}
    for _ in range(60):
        if not rem:
            r = from_poly(quo)
            _div_memo[key] = r
            return r
        # leading monomial of the remainder w.r.t. the factors of q
        kr, mr = lead(rem)
        if any(x < y for x, y in zip(kr, kq)):
            return None
        d = _mono_terms(mr)
        for f, e in mq:
            d[f] = d.get(f, 0) - e
        mono = _mono(d)
        c = Fraction(rem[mr]) / cq
        quo[mono] = quo.get(mono, 0) + c
        for m2, c2 in pq.items():
            for mm, cc in _mono_mul(mono, c, m2, c2).items():
                rem[mm] = rem.get(mm, 0) - cc
                if rem[mm] == 0:
                    del rem[mm]
    return None


def mul(*ts):
    r = ONE
    for t in ts:
        r = mul2(r, t)
    return r


_content_memo = {}


def content(t, signed=True):
    """multi-term polynomial t = c * mono * q with q primitive; returns (c, mono, q)."""
    key = (t, signed)
    if key in _content_memo:
        return _content_memo[key]
    p = to_poly(t)
    if len(p) < 2:
        r = (Fraction(1), (), t)
        _content_memo[key] = r
        return r
    mono = []
    # common / negative factors
    facs = {}
    for m in p:
        for f, e in m:
            facs.setdefault(f, []).append(e)
    pull = {}
    for f, es in facs.items():
        lo = min(es) if len(es) == len(p) else min(min(es), 0)
        if f is INF:
            continue
        if lo != 0:
            if f.op == 'exp' and lo < 0:
                continue
            pull[f] = lo
    if len(p) == 2 and not pull:
        # c1 + c2*exp(a): orient so that the leading coefficient of a is negative
        ms = sorted(p, key=len)
        if ms[0] == () and len(ms[1]) == 1 and ms[1][0][0].op == 'exp' and ms[1][0][1] == 1:
            ex = ms[1][0][0]
            pe = to_poly(ex.args[0])
            first = min(pe.items(), key=lambda mc: _mkey(mc[0]))
            if first[1] > 0:
                pull[ex] = 1
    q = t
    if pull:
        inv = {f: -e for f, e in pull.items()}
        r = ZERO
        for m, c in p.items():
            fd = _mono_terms(m)
            for f, e in inv.items():
                fd[f] = fd.get(f, 0) + e
            r = add(r, _build_mono(fd, c))
        q = r
        mono = sorted(pull.items(), key=lambda fe: fe[0].id)
    pq = to_poly(q)
    if len(pq) < 2:
        # collapsed to a monomial: report as content with q = 1
        if not pq:
            r = (0, (), ONE)
        else:
            (m, c), = pq.items()
            fd = dict(mono)
            for f, e in m:
                fd[f] = fd.get(f, 0) + e
            mm = _mono(fd)
            r = (c, mm, ONE)
        _content_memo[key] = r
        return r
    g = 0
    l = 1
    for c in pq.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    cc = Fraction(g, l)
    if signed:
        first = min(pq.items(), key=lambda mc: _mkey(mc[0]))
        if first[1] < 0:
            cc = -cc
    q = scale(q, 1 / cc)
    r = (cc, tuple(mono), q)
    _content_memo[key] = r
    return r


def _isqrt(n):
    if n < 0:
        return None
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def power(t, e):
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == 'nan':
        return NAN
    if t.op == 'num':
        v = t.args[0]
        if e.denominator == 1:
            if v == 0 and e < 0:
                return INF
            return mk('num', Fraction(v) ** int(e))
        if v == 0:
            return ZERO if e > 0 else INF
        if e.denominator == 2 and v > 0:
            a, b = _isqrt(v.numerator), _isqrt(v.denominator)
            if a is not None and b is not None:
                return mk('num', Fraction(a, b) ** e.numerator)
        if v > 0 and v.denominator != 1:
            return mul(power(num(v.numerator), e), power(num(v.denominator), -e))
        return _build_mono({t: e}, 1)
    if t is INF:
        return INF if e > 0 else ZERO
    if t.op == 'exp':
        return exp(scale(t.args[0], e))
    if t.op == 'ite' and is_const(t.args[1]) and is_const(t.args[2]):
        return ite(t.args[0], power(t.args[1], e), power(t.args[2], e))
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return _build_mono({f: x * e for f, x in m}, Fraction(c) ** int(e))
        if c < 0:
            return _build_mono({t: e}, 1)
        fd = {}
        for f, x in m:
            if x.denominator == 1 and x % 2 == 0 and (x * e).denominator == 1 and (x * e) % 2 != 0 \
                    and not nonneg(f):
                f = mabs(f)
            fd[f] = fd.get(f, 0) + x * e
        return mul(power(num(c), e), _build_mono(fd, 1))
    if e.denominator == 1 and 0 < e <= 3:
        r = t
        for _ in range(int(e) - 1):
            r = mul2(r, t)
        return r
    c, mono, q = content(t, signed=(e.denominator == 1))
    if q is ONE:
        return power(_build_mono(dict(mono), c), e)
    r = _build_mono({q: e}, 1)
    if c != 1:
        r = mul(power(num(c), e), r)
    if mono:
        r = mul(power(_build_mono(dict(mono), 1), e), r)
    return r


def div(a, b):
    return mul2(a, power(b, -1))


def sqrt(t):
    return power(t, HALF)


def exp(a):
    if a.op == 'nan':
        return NAN
    if a.op == 'ite' and is_const_like(a.args[1]) or a.op == 'ite' and is_const_like(a.args[2]):
        return ite(a.args[0], exp(a.args[1]), exp(a.args[2]))
    if a.op in ('min', 'max') and any(is_num(x) for x in a.args):
        return (tmin if a.op == 'min' else tmax)(*[exp(x) for x in a.args])
    p = to_poly(a)
    if not p:
        return ONE
    if a is INF:
        return INF
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][0] is INF and c < 0:
            return ZERO
    out = []
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op == 'log' and m[0][1] == 1:
            out.append(power(m[0][0].args[0], c))
        else:
            rest[m] = c
    r = from_poly(rest)
    e = ONE if r is ZERO else mk('exp', r)
    if not out:
        return e
    fin = e
    for o in out:
        fin = mul2(fin, o)
    return fin


def is_const_like(t):
    return is_const(t) or (t.op == 'poly' and len(t.args[0]) == 1 and t.args[0][0][0] and
                           t.args[0][0][0][0][0] is INF and len(t.args[0][0][0]) == 1)


def log(a):
    if a.op == 'nan':
        return NAN
    if a is ONE:
        return ZERO
    if a is ZERO:
        return neg(INF)
    if a is INF:
        return INF
    if a.op == 'exp':
        return a.args[0]
    if a.op == 'num':
        v = a.args[0]
        if v > 0 and v.denominator != 1:
            return sub(log(num(v.numerator)), log(num(v.denominator)))
        return mk('log', a)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
            r = log(num(c))
            for f, e in m:
                r = add(r, scale(log(f), e))
            return r
        return mk('log', a)
    c, mono, q = content(a, signed=False)
    r = log(num(c)) if c != 1 else ZERO
    for f, e in mono:
        r = add(r, scale(log(f), e))
    if q is ONE:
        return r
    if q.op == 'poly' or q.op != 'exp':
        # orientation of two-term differences is left as written
        return add(r, mk('log', q)) if q.op not in ('exp', 'num') else add(r, log(q))
    return add(r, log(q))


def leafin(t, S):
    """membership of a leaf (or an element of it) in a set of leaves, whatever its loop indices"""
    if t in S:
        return True
    if t.op == 'at':
        t = t.args[0]
        if t in S:
            return True
    if t.op == 'mu':
        return ('mu', t.args[0], t.args[1]) in S
    if t.op == 'rnd':
        return ('rnd', t.args[0]) in S
    return False


def register(base, S):
    S.add(base)
    if base.op == 'mu':
        S.add(('mu', base.args[0], base.args[1]))
    if base.op == 'rnd':
        S.add(('rnd', base.args[0]))


def nonneg(t, depth=0):
    """is t certainly >= 0 (syntactic)"""
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('exp', 'abs', 'inf'):
        return True
    if t.op == 'sum':
        return nonneg(t.args[1], depth + 1)
    if t.op == 'ite':
        return nonneg(t.args[1], depth + 1) and nonneg(t.args[2], depth + 1)
    if t.op in ('sym', 'rnd', 'mu', 'at') and leafin(t, NONNEG):
        return True
    if leafin(t, POS):
        return True
    if t.op in ('iv', 'ax', 'bv', 'sel', 'rank'):
        return True
    if t.op in ('app',) and t.args[0] in ('len', 'extent'):
        return True
    if t.op == 'poly':
        for m, c in t.args[0]:
            if c < 0:
                return False
            for f, e in m:
                if not (nonneg(f, depth + 1) or (e.denominator == 1 and e % 2 == 0)):
                    return False
        return True
    if t.op == 'max':
        return any(nonneg(x, depth + 1) for x in t.args)
    if t.op == 'min':
        return all(nonneg(x, depth + 1) for x in t.args)
    return False


NONNEG = set()
POS = set()


def positive(t):
    if t.op == 'num':
        return t.args[0] > 0
    if t.op == 'exp' or leafin(t, POS):
        return True
    if t.op == 'poly':
        return all(c > 0 and all(positive(f) for f, e in m) for m, c in t.args[0])
    if t.op == 'max':
        return any(positive(x) for x in t.args)
    if t.op == 'min':
        return all(positive(x) for x in t.args)
    return False


def mabs(t):
    if t.op == 'num':
        return mk('num', abs(t.args[0]))
    if nonneg(t):
        return t
    if t.op == 'abs':
        return t
    p = to_poly(t)
    first = min(p.items(), key=lambda mc: _mkey(mc[0]))
    if first[1] < 0:
        t = neg(t)
        if nonneg(t):
            return t
    return mk('abs', t)


# ---------------------------------------------------------------- booleans
def is_bool(t):
    if t.op == 'const':
        return isinstance(t.args[0], bool)
    if t.op in BOOLOPS:
        return True
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op in ('sym', 'mu', 'at', 'rnd'):
        return leafin(t, BOOLSYMS)
    return False


BOOLSYMS = set()


def mnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return mor(*[mnot(a) for a in t.args])
    if t.op == 'or':
        return mand(*[mnot(a) for a in t.args])
    if t.op == 'ite' and is_bool(t):
        return ite(t.args[0], mnot(t.args[1]), mnot(t.args[2]))
    if t.op == 'all':
        v, n, body = open_binder(t)
        return binder('any', n, v, mnot(body))
    if t.op == 'any':
        v, n, body = open_binder(t)
        return binder('all', n, v, mnot(body))
    if t.op == 'num':
        return TRUE if t.args[0] == 0 else FALSE
    if t.op == 'const':
        return FALSE if t.args[0] else TRUE
    return mk('not', t)


def _nary(op, unit, zero, ts):
    s = set()
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            s.update(t.args)
        else:
            s.add(t)
    # absorb the dual: a and (a or b) = a ; a and (not a or b) = a and b
    dual = 'or' if op == 'and' else 'and'
    changed = True
    while changed:
        changed = False
        for t in list(s):
            if t.op == dual:
                if any(x in s for x in t.args):
                    s.discard(t)
                    changed = True
                    break
                keep = [x for x in t.args if not _neg_in(x, s)]
                if len(keep) < len(t.args):
                    s.discard(t)
                    r = mor(*keep) if op == 'and' else mand(*keep)
                    if r is zero:
                        return zero
                    if r is not unit:
                        if r.op == op:
                            s.update(r.args)
                        else:
                            s.add(r)
                    changed = True
                    break
    for t in s:
        if _neg_in(t, s):
            return zero
    # strict implies non-strict
    for t in list(s):
        if t.op == 'gt0' and mk('ge0', t.args[0]) in s:
            s.discard(mk('ge0', t.args[0]) if op == 'and' else t)
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return mk(op, *sorted(s, key=lambda x: x.id))


def _neg_in(t, s):
    if t.op == 'not':
        return t.args[0] in s
    if t.op in ('gt0', 'ge0'):
        o = 'ge0' if t.op == 'gt0' else 'gt0'
        k = _intern.get((o, (neg(t.args[0]),)))
        if k is not None and k in s:
            return True
    k = _intern.get(('not', (t,)))
    return k is not None and k in s


def mand(*ts):
    return _nary('and', TRUE, FALSE, ts)


def mor(*ts):
    return _nary('or', FALSE, TRUE, ts)


def _poscontent(d):
    p = to_poly(d)
    if len(p) < 1:
        return d
    g = 0
    l = 1
    for c in p.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    return scale(d, 1 / Fraction(g, l)) if g else d


def _fold_cmp(op, d):
    if d.op == 'num':
        v = d.args[0]
        return TRUE if (v > 0 if op == 'gt0' else v >= 0 if op == 'ge0' else v == 0) else FALSE
    if d is INF:
        return FALSE if op == 'eq0' else TRUE
    if d.op == 'ite' and (d.args[1].op == 'num' or d.args[2].op == 'num' or is_const_like(d.args[1])
                          or is_const_like(d.args[2])):
        f = {'gt0': gt0, 'ge0': ge0, 'eq0': eq0}[op]
        return ite(d.args[0], f(d.args[1]), f(d.args[2]))
    return None


def has_neginf(p):
    """is p = -inf + rest (hence -inf or nan)"""
    if p.op not in ('poly',):
        return False
    hit = False
    for m, c in p.args[0]:
        for f, e in m:
            if f is INF and e == 1:
                if c > 0:
                    return False
                if all(g is INF or nonneg(g) for g, _ in m):
                    hit = True
    return hit


def dead(t):
    """is t certainly 0 or nan"""
    if t.op == 'exp':
        return has_neginf(t.args[0])
    if t.op == 'min':
        return any(dead(x) for x in t.args)
    return False


def _dead_diff(d):
    """d = (0 or nan) - nonneg: comparisons d > 0 are False"""
    if d.op != 'poly':
        return dead(d)
    hit = False
    for m, c in d.args[0]:
        if c > 0:
            if len(m) == 1 and m[0][1] == 1 and dead(m[0][0]):
                hit = True
            else:
                return False
        elif not all(nonneg(f) for f, e in m):
            return False
    return hit


def gt0(d):
    if d is NAN:
        return FALSE
    if has_neginf(d) or _dead_diff(d):
        return FALSE
    r = _fold_cmp('gt0', d)
    if r is None and POS and positive(d):
        return TRUE
    if r is None and nonneg(neg(d)):
        return FALSE
    return r if r is not None else mk('gt0', _poscontent(d))


def ge0(d):
    if d is NAN:
        return FALSE
    r = _fold_cmp('ge0', d)
    if r is not None:
        return r
    if nonneg(d):
        return TRUE
    if POS and positive(neg(d)):
        return FALSE
    return mk('ge0', _poscontent(d))


def eq0(d):
    r = _fold_cmp('eq0', d)
    if r is not None:
        return r
    if POS and (positive(d) or positive(neg(d))):
        return FALSE
    d = _poscontent(d)
    p = to_poly(d)
    first = min(p.items(), key=lambda mc: _mkey(mc[0]))
    if first[1] < 0:
        d = neg(d)
    return mk('eq0', d)


def lt(a, b):
    return _lift_cmp(a, b, lambda x, y: gt0(sub(y, x)))


def le(a, b):
    return _lift_cmp(a, b, lambda x, y: ge0(sub(y, x)))


def _lift_cmp(a, b, f):
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a is b:
        return f(a, b)
    return f(a, b)


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = a.op == 'const', b.op == 'const'
    if ca and cb:
        return FALSE if not (isinstance(a.args[0], bool) and isinstance(b.args[0], bool)) else (
            TRUE if a.args[0] == b.args[0] else FALSE)
    if ca or cb:
        k, o = (a, b) if ca else (b, a)
        if isinstance(k.args[0], bool) and is_bool(o):
            return o if k.args[0] else mnot(o)
        if isinstance(k.args[0], bool) and o.op == 'num':
            return TRUE if o.args[0] == int(k.args[0]) else FALSE
        if isinstance(k.args[0], (str, type(None), bytes)) and (
                o.op in ('num', 'poly', 'exp', 'log', 'inf', 'nan', 'sum', 'min', 'max') or is_bool(o)):
            return FALSE
        if o.op == 'ite':
            return ite(o.args[0], eq(o.args[1], k), eq(o.args[2], k))
        return mk('eq', *sorted((a, b), key=lambda x: x.id))
    if is_bool(a) and is_bool(b):
        return mor(mand(a, b), mand(mnot(a), mnot(b)))
    if a.op in ('tuple', 'obj', 'fn') or b.op in ('tuple', 'obj', 'fn'):
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return mand(*[eq(x, y) for x, y in zip(a.args, b.args)])
        return mk('eq', *sorted((a, b), key=lambda x: x.id))
    return eq0(sub(a, b))


def isfinite(t):
    if t.op == 'num':
        return TRUE
    if is_const_like(t):
        return FALSE
    if t.op in ('inf', 'nan'):
        return FALSE
    if t.op == 'ite':
        a, b = isfinite(t.args[1]), isfinite(t.args[2])
        if is_const(a) or is_const(b):
            return ite(t.args[0], a, b)
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return isfinite(m[0][0])
    return mk('isfinite', t)


def isnan(t):
    if t.op == 'num' or is_const_like(t) or t.op == 'inf':
        return FALSE
    if t.op == 'nan':
        return TRUE
    if t.op == 'ite':
        a, b = isnan(t.args[1]), isnan(t.args[2])
        if is_const(a) or is_const(b):
            return ite(t.args[0], a, b)
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return isnan(m[0][0])
    if leafin(t, NONNULL_NUM):
        return FALSE
    return mk('isnan', t)


NONNULL_NUM = set()


def isinf(t):
    if t.op == 'num' or t.op == 'nan':
        return FALSE
    if is_const_like(t) or t.op == 'inf':
        return TRUE
    if t.op == 'ite':
        a, b = isinf(t.args[1]), isinf(t.args[2])
        if is_const(a) or is_const(b):
            return ite(t.args[0], a, b)
    return mk('isinf', t)


def tmin(*ts):
    return _mm('min', ts)


def tmax(*ts):
    return _mm('max', ts)


def _mm(op, ts):
    if NAN in ts:
        return NAN
    s = set()
    n = None
    for t in ts:
        for x in (t.args if t.op == op else (t,)):
            if x.op == 'num':
                n = x.args[0] if n is None else (min if op == 'min' else max)(n, x.args[0])
            elif x is INF:
                if op == 'max':
                    return INF
            else:
                s.add(x)
    if n is not None:
        if op == 'max' and n <= 0 and s and any(nonneg(x) for x in s):
            pass
        else:
            s.add(num(n))
    if not s:
        return INF
    if len(s) == 1:
        return next(iter(s))
    return mk(op, *sorted(s, key=lambda x: x.id))


def truth(t):
    """truth value of t as a boolean term"""
    if t.op == 'const':
        return TRUE if t.args[0] else FALSE
    if t.op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if is_bool(t):
        return t
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('poly', 'exp', 'log', 'sum', 'min', 'max'):
        return mnot(eq0(t))
    if t.op == 'app' and t.args[0] == 'len':
        return mnot(eq0(t))
    return mk('bool', t)


# ---------------------------------------------------------------- gates
def ite(c, a, b):
    c = truth(c) if not is_bool(c) else c
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'or' and all(x.op == 'not' or x.op == 'ge0' for x in c.args):
        return ite(mnot_full(c), b, a)
    if c.op == 'ge0':
        # canonical gate polarity: strict comparison
        return ite(mk('gt0', neg(c.args[0])), b, a)
    if a.ite or is_bool(a):
        a = assume(a, c, True)
    if b.ite or is_bool(b):
        b = assume(b, c, False)
    if a is b:
        return a
    if c.op == 'isnan' and a is ZERO and b is c.args[0] and dead(b):
        return ZERO
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mnot(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return mor(c, b)
        if b is FALSE:
            return mand(c, a)
        if a is FALSE:
            return mand(mnot(c), b)
        if b is TRUE:
            return mor(mnot(c), a)
    if b.op == 'ite' and b.args[1] is a:
        return ite(mor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(mand(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[2] is a:
        return ite(mor(c, mnot_full(b.args[0])), a, b.args[1])
    if a.op == 'ite' and a.args[1] is b:
        return ite(mand(c, mnot_full(a.args[0])), a.args[2], b)
    return mk('ite', c, a, b)


def mnot_full(c):
    if c.op == 'ge0':
        return mk('gt0', neg(c.args[0]))
    if c.op == 'gt0':
        return mk('ge0', neg(c.args[0]))
    if c.op == 'and':
        return mor(*[mnot_full(x) for x in c.args])
    if c.op == 'or':
        return mand(*[mnot_full(x) for x in c.args])
    return mnot(c)


def facts_of(c, val, out=None):
    """atomic facts implied by condition c having truth value val"""
    if out is None:
        out = {}
    if c.op == 'not':
        return facts_of(c.args[0], not val, out)
    if c.op == 'and' and val or c.op == 'or' and not val:
        for a in c.args:
            facts_of(a, val, out)
        return out
    out[c] = val
    if c.op in ('gt0', 'ge0'):
        d = c.args[0]
        nd = neg(d)
        if c.op == 'gt0' and val:      # d>0
            out[mk('ge0', d)] = True
            out[mk('gt0', nd)] = False
            out[mk('ge0', nd)] = False
            out[eq0(d)] = False
        elif c.op == 'gt0':            # d<=0
            out[mk('ge0', nd)] = True
        elif val:                      # d>=0
            out[mk('gt0', nd)] = False
        else:                          # d<0
            out[mk('gt0', nd)] = True
            out[mk('ge0', nd)] = True
            out[mk('gt0', d)] = False
            out[eq0(d)] = False
    elif c.op == 'isfinite' and val:
        out[isnan(c.args[0])] = False
        out[isinf(c.args[0])] = False
    elif c.op == 'isnan' and val:
        out[isfinite(c.args[0])] = False
        out[isinf(c.args[0])] = False
    elif c.op == 'isinf' and val:
        out[isfinite(c.args[0])] = False
        out[isnan(c.args[0])] = False
    return out


_assume_memo = {}


def assume(t, c, val):
    key = (t, c, val)
    r = _assume_memo.get(key)
    if r is None:
        r = assume_facts(t, facts_of(c, val))
        _assume_memo[key] = r
    return r


def assume_facts(t, facts):
    facts = {k: (TRUE if v else FALSE) for k, v in facts.items() if k not in (TRUE, FALSE)}
    return rewrite(t, facts)


# ---------------------------------------------------------------- binders
def binder(op, n, v, body):
    """op in BINDERS over variable v (an iv) ranging over 0..n-1"""
    if op == 'sum':
        return mk_sum(n, v, body)
    if op == 'lam':
        return mk_lam(v, body)
    if op in ('all', 'any'):
        body = truth(body)
        if v not in body.fv:
            return body
        if body.op == ('and' if op == 'all' else 'or'):
            f = mand if op == 'all' else mor
            return f(*[binder(op, n, v, b) for b in body.args])
        fl = _flat_vars(v, body)
        if fl is not None:
            return binder(op, div(n, fl[2]), fl[0], binder(op, fl[2], fl[1], fl[3]))
        nv = numval(n) if n is not None else None
        if nv is not None and nv <= 6:
            f = mand if op == 'all' else mor
            return f(*[subst(body, {v: num(k)}) for k in range(int(nv))])
        return _close(op, n, v, body)
    if op in ('maxb', 'minb'):
        if v not in body.fv:
            return body
        nv = numval(n) if n is not None else None
        if nv is not None and 0 < nv <= 6:
            return (tmax if op == 'maxb' else tmin)(*[subst(body, {v: num(k)}) for k in range(int(nv))])
        fl = _flat_vars(v, body)
        if fl is not None:
            return binder(op, div(n, fl[2]), fl[0], binder(op, fl[2], fl[1], fl[3]))
        # pull out invariant additive part
        p = to_poly(body)
        out, inn = {}, {}
        for m, c in p.items():
            if any(v in f.fv for f, e in m):
                inn[m] = c
            else:
                out[m] = c
        if out and inn:
            return add(from_poly(out), binder(op, n, v, from_poly(inn)))
        return _close(op, n, v, body)
    raise ValueError(op)


def _close(op, n, v, body):
    h = body.ht
    if n is not None:
        h = max(h, n.ht)
    h += 1
    b = subst(body, {v: mk('bv', h)})
    if b.ht + 1 != h and (max(b.ht, n.ht if n is not None else 0) + 1) != h:
        h = max(b.ht, n.ht if n is not None else 0) + 1
        b = subst(body, {v: mk('bv', h)})
    return mk(op, n if n is not None else NONE, b)


_level = [0]
_open_memo = {}


def _open(t):
    """(v, body) with a variable that is unique among the binders being traversed; the caller holds
    _level[0] += 1 while using it and never lets v escape"""
    key = (t, _level[0])
    r = _open_memo.get(key)
    if r is None:
        v = mk('iv', '#%d' % _level[0])
        _level[0] += 1
        try:
            r = _open_memo[key] = (v, subst(t.args[1], {mk('bv', t.ht): v}))
        finally:
            _level[0] -= 1
    return r


def open_binder(t, hint='k'):
    v = fresh_iv(hint)
    return v, t.args[0], subst(t.args[1], {mk('bv', t.ht): v})


def mk_lam(v, body):
    # eta
    if body.op == 'at' and body.args[-1] is v and all(v not in a.fv for a in body.args[:-1]):
        if len(body.args) == 2:
            return body.args[0]
        return mk('at', *body.args[:-1])
    return _close('lam', None, v, body)


def lam(vs, body):
    for v in reversed(vs):
        body = mk_lam(v, body)
    return body


def lam_ax(rank, elem):
    """whole-array term of an array with element term elem over ax(0..rank-1)"""
    vs = [fresh_iv('a') for _ in range(rank)]
    return lam(vs, subst(elem, {ax(i): vs[i] for i in range(rank)}))


SYMM = set()


def is_symmetric(a):
    if a.op != 'at' and leafin(a, SYMM):
        return True
    if a.op == 'app' and a.args[0] in ('inv', 'cov'):
        return a.args[0] == 'cov' or is_symmetric(a.args[1])
    return False


SYMM_MU = set()


def at(a, *idx):
    if not idx:
        return a
    if a.op == 'lam':
        return at(subst(a.args[1], {mk('bv', a.ht): idx[0]}), *idx[1:])
    if a.op == 'ite':
        return ite(a.args[0], at(a.args[1], *idx), at(a.args[2], *idx))
    if a.op == 'at':
        return at_flat(a.args[0], a.args[1:] + tuple(idx))
    if a is UNDEF:
        return UNDEF
    if a.op == 'tuple' and idx[0].op == 'num':
        k = int(idx[0].args[0])
        if -len(a.args) <= k < len(a.args):
            return at(a.args[k], *idx[1:])
    return at_flat(a, tuple(idx))


def at_flat(a, idx):
    if len(idx) == 2 and is_symmetric(a):
        idx = tuple(sorted(idx, key=lambda x: x.id))
    if a.op == 'poly' and len(idx) >= 1 and a in OPAQUE_ELEMWISE:
        pass
    return mk('at', a, *idx)


OPAQUE_ELEMWISE = set()


def mk_sum(n, v, body):
    if is_bool(body):
        body = ite(body, ONE, ZERO)
    p = to_poly(body)
    nv = numval(n)
    if nv is not None and nv <= 6 and v in body.fv:
        return add(*[subst(body, {v: num(k)}) for k in range(int(nv))]) if nv > 0 else ZERO
    res = ZERO
    inner_acc = {}
    for m, c in p.items():
        out = {}
        inn = {}
        for f, e in m:
            if v not in f.fv:
                out[f] = e
            elif f.op == 'exp':
                q = to_poly(f.args[0])
                o, i = {}, {}
                for mm, cc in q.items():
                    (i if any(v in ff.fv for ff, _ in mm) else o)[mm] = cc
                if o:
                    ot = exp(scale(from_poly(o), e))
                    for mm, cc in to_poly(ot).items():
                        for ff, ee in mm:
                            out[ff] = out.get(ff, 0) + ee
                    f2 = exp(from_poly(i))
                    inn[f2] = e
                else:
                    inn[f] = e
            else:
                inn[f] = e
        outt = _build_mono(out, c)
        if not inn:
            res = add(res, mul2(outt, n))
            continue
        inner = _build_mono(inn, 1)
        if to_poly(inner).__len__() == 1 and inner.op != 'poly':
            s = _sum_atom(n, v, inner)
        else:
            s = _sum_atom(n, v, inner)
        res = add(res, mul2(outt, s))
    return res


def _flat_vars(v, body):
    """(t-app, k-app, m) if v occurs only as flat_t(v, m) / flat_k(v, m)"""
    ms = set()
    for x in walk(body):
        if x.op == 'app' and x.args[0] in ('flat_t', 'flat_k') and x.args[1] is v:
            ms.add(x.args[2])
    if len(ms) != 1:
        return None
    m = ms.pop()
    if v in m.fv:
        return None
    t, k = fresh_iv('t'), fresh_iv('k')
    b = rewrite(body, {mk('app', 'flat_t', v, m): t, mk('app', 'flat_k', v, m): k})
    if v in b.fv:
        return None
    return t, k, m, b


def _sum_atom(n, v, inner):
    fl = _flat_vars(v, inner)
    if fl is not None:
        t, k, m, b = fl
        return mk_sum(div(n, m), t, mk_sum(m, k, b))
    # the entries a mask selects: sum_k f(k-th selected position) = sum_p ite(mask(p), f(p), 0)
    ss = {x for x in walk(inner) if x.op == 'sel' and x.args[2] is v}
    if len(ss) == 1:
        x = ss.pop()
        m, lm = x.args[0], x.args[1]
        q = fresh_iv('p')
        b = rewrite(inner, {x: q})
        if v not in m.fv and v not in lm.fv and v not in b.fv:
            c = truth(at(lm, q))
            if n is mk_sum(m, q, ite(c, ONE, ZERO)):
                return mk_sum(m, q, ite(c, b, ZERO))
    # Kronecker delta: sum_v ite(v == e, f, 0)
    if inner.op == 'ite' and inner.args[2] is ZERO and inner.args[0].op == 'eq0':
        d = inner.args[0].args[0]
        p = to_poly(d)
        key = ((v, 1),)
        if key in p and abs(p[key]) == 1:
            rest = dict(p)
            c = rest.pop(key)
            e = scale(from_poly(rest), -c)
            if v not in e.fv:
                return subst(inner.args[1], {v: e})
    return _close('sum', n, v, inner)


# ---------------------------------------------------------------- masks
def count(n, mlam):
    v = fresh_iv('c')
    return mk_sum(n, v, ite(at(mlam, v), ONE, ZERO))


def sel(n, mlam, i):
    """position of the i-th True of the mask mlam over 0..n-1"""
    if mlam.op == 'lam' and mlam.args[1] is TRUE:
        return i
    if i.op == 'rank' and i.args[1] is mlam:
        return i.args[2]
    if i.op == 'sel':
        n2, m2, j = i.args
        v = fresh_iv('q')
        body = at(m2, v)
        inner = mk('sel', n, mlam, v)
        p = fresh_iv('p')
        b2 = rewrite(body, {inner: p})
        if v not in b2.fv:
            new = lam([p], mand(at(mlam, p), b2))
            return sel(n, new, j)
    return mk('sel', n, mlam, i)


def rank(n, mlam, p):
    if mlam.op == 'lam' and mlam.args[1] is TRUE:
        return p
    if p.op == 'sel' and p.args[1] is mlam:
        return p.args[2]
    return mk('rank', n, mlam, p)


def app(name, *args):
    f = APP_RULES.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return mk('app', name, *args)


APP_RULES = {}


def _erf(x):
    if x.op == 'app' and x.args[0] == 'erfinv':
        return x.args[1]
    if x is ZERO:
        return ZERO


def _erfinv(x):
    if x.op == 'app' and x.args[0] == 'erf':
        return x.args[1]
    if x is ZERO:
        return ZERO


def _floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a if is_int(a) else None
    if positive(b) and b.op != 'num':
        q = mul2(a, power(b, -1))
        if is_int(q) and not any(e < 0 for m in to_poly(q) for f, e in m):
            return q
    return None


def _mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if a is ZERO:
        return ZERO


INTSYMS = set()


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if leafin(t, INTSYMS):
        return True
    if t.op == 'app' and t.args[0] in ('int', 'len', 'floordiv', 'extent', 'flat_t', 'flat_k'):
        return True if t.args[0] != 'floordiv' else True
    if t.op in VARS or t.op in ('sel', 'rank'):
        return True
    if t.op == 'sum':
        return is_int(t.args[1])
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(f) for f, e in m)
                   for m, c in t.args[0])
    if t.op in ('min', 'max'):
        return all(is_int(x) for x in t.args)
    return False


def _int(x):
    if x.op == 'num':
        return num(int(x.args[0]))
    if is_int(x):
        return x
    if x.op == 'ite':
        return ite(x.args[0], app('int', x.args[1]), app('int', x.args[2]))


APP_RULES.update(erf=_erf, erfinv=_erfinv, floordiv=_floordiv, mod=_mod, int=_int)


def tpow(a, b):
    if b.op == 'num':
        return power(a, b.args[0])
    if a.op == 'num' and a.args[0] == 1:
        return ONE
    return exp(mul(b, log(a)))


# ---------------------------------------------------------------- traversal
REBUILD = {
    'ite': ite, 'and': mand, 'or': mor, 'not': mnot, 'gt0': gt0, 'ge0': ge0, 'eq0': eq0, 'eq': eq,
    'exp': exp, 'log': log, 'abs': mabs, 'min': tmin, 'max': tmax, 'at': at, 'isfinite': isfinite,
    'isnan': isnan, 'isinf': isinf, 'sel': sel, 'rank': rank, 'app': app, 'bool': truth,
}


# factors whose products and powers need no further normalisation
ATOMIC = frozenset(('sym', 'mu', 'rnd', 'at', 'sum', 'log', 'ax', 'bv', 'iv', 'sel', 'rank', 'maxb', 'minb'))


def rebuild(t, f):
    op = t.op
    if op == 'poly':
        terms = []
        same = True
        for m, c in t.args[0]:
            nf = []
            for fac, e in m:
                g = f(fac)
                if g is not fac:
                    same = False
                nf.append((g, e))
            terms.append((nf, c))
        if same:
            return t
        d = {}
        for nf, c in terms:
            fd = {}
            for g, e in nf:
                if g.op not in ATOMIC:
                    break
                fd[g] = fd.get(g, 0) + e
            else:
                m = _mono(fd)
                d[m] = d.get(m, 0) + c
                continue
            r = num(c)
            for g, e in nf:
                r = mul2(r, power(g, e))
            if r.op == 'nan':
                return NAN
            for m, c in to_poly(r).items():
                d[m] = d.get(m, 0) + c
        return from_poly(d)
    if op in BINDERS:
        n = t.args[0]
        nn = f(n) if n is not NONE else None
        v, body = _open(t)
        _level[0] += 1
        try:
            nb = f(body)
            if nb is body and (nn is n or nn is None):
                return t
            return binder(op, nn, v, nb)
        finally:
            _level[0] -= 1
    if op in VARS or op in ('num', 'const', 'sym', 'inf', 'nan', 'undef'):
        return t
    na = []
    same = True
    for a in t.args:
        if isinstance(a, T):
            g = f(a)
            if g is not a:
                same = False
            na.append(g)
        else:
            na.append(a)
    if same:
        return t
    r = REBUILD.get(op)
    if r is not None:
        return r(*na)
    return mk(op, *na)


_subst_memo = {}


def subst(t, m):
    """capture-avoiding substitution of variables"""
    if not t.fv:
        return t
    keys = frozenset(m)
    if not (t.fv & keys):
        return t
    if t in m:
        return m[t]
    mk_ = frozenset(m.items())
    memo = _subst_memo.get(mk_)
    if memo is None:
        if len(_subst_memo) > 200000:
            _subst_memo.clear()
        memo = _subst_memo[mk_] = {}

    def go(x):
        if not (x.fv & keys):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


_rewrite_memo = {}


def rewrite(t, mapping, leafonly=False):
    """replace whole subterms (exact nodes) by others; normalises on the way up"""
    if not mapping:
        return t
    ks = list(mapping)
    onlyb = all(k.op in BOOLOPS for k in ks)
    conds = []
    for k in ks:
        c = (k.lv, k.fv, k.ht)
        if c not in conds:
            conds.append(c)

    def may(x):
        if onlyb and not x.hb:
            return False
        lv, fv, ht = x.lv, x.fv, x.ht
        for kl, kf, kh in conds:
            if kh <= ht and kl <= lv and kf <= fv:
                return True
        return False

    if t in mapping:
        return mapping[t]
    if not may(t):
        return t
    mk_ = frozenset(mapping.items())
    memo = _rewrite_memo.get(mk_)
    if memo is None:
        if len(_rewrite_memo) > 100000:
            _rewrite_memo.clear()
        memo = _rewrite_memo[mk_] = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x in mapping:
                return mapping[x]
            r = rebuild(x, go) if may(x) else x
            memo[x] = r
        return r

    return go(t)


def walk(t, seen=None):
    """all subterms, once each (binder bodies with their bv in place)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(_subs(x.args))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ---------------------------------------------------------------- equality
def _clear(d):
    """clear denominators of a polynomial (formal rational identity test)"""
    for _ in range(6):
        p = to_poly(d)
        dens = {}
        for m in p:
            for f, e in m:
                if e < 0 and f.op != 'exp':
                    dens[f] = min(dens.get(f, 0), e)
        if not dens:
            return d
        res = ZERO
        for m, c in p.items():
            fd = _mono_terms(m)
            for f, e in dens.items():
                fd[f] = fd.get(f, 0) - e
            res = add(res, _build_mono(fd, c))
        if res is d:
            return d
        d = res
    return d


def is_zero(d):
    if d is ZERO:
        return True
    if d.op == 'num' or d.op != 'poly':
        return False
    return _clear(d) is ZERO


_opaque_words = set()


def atoms_of(c, out=None):
    if out is None:
        out = []
    if c.op in ('and', 'or', 'not'):
        for a in c.args:
            atoms_of(a, out)
    elif c.op == 'ite':
        for a in c.args:
            atoms_of(a, out)
    elif c not in (TRUE, FALSE):
        out.append(c)
    return out


def gates(t, limit=4000):
    """atomic conditions of the gates of t"""
    res = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or not (x.ite or is_bool(x)):
            continue
        seen.add(x)
        if x.op == 'ite':
            for a in atoms_of(x.args[0]):
                if a not in res:
                    res.append(a)
        stack.extend(_subs(x.args))
        if len(seen) > limit:
            break
    return res


def closed_gates(t):
    return [g for g in gates(t) if not any(v.op == 'bv' for v in g.fv)]


def equal(a, b, facts=None, split=10, leaf=None):
    """equality by normal form, rational identity and case split on gates.
    leaf(a,b): optional extra acceptance test at the leaves."""
    if facts:
        a, b = assume_facts(a, facts), assume_facts(b, facts)
    if a is b:
        return True
    if leaf is not None and leaf(a, b):
        return True
    if not a.ite and not b.ite:
        if is_bool(a) or is_bool(b):
            return bool_equal(a, b)
        if is_zero(sub(a, b)):
            return True
        return equal_struct(a, b)
    if split <= 0:
        return False
    gs = closed_gates(a) + closed_gates(b)
    if is_bool(a) or is_bool(b):
        if bool_equal(a, b):
            return True
    if not gs:
        if is_zero(sub(a, b)):
            return True
        return equal_struct(a, b)
    g = next((x for x in gs if not x.ite), gs[0])
    for val in (True, False):
        fs = facts_of(g, val)
        if not equal(assume_facts(a, fs), assume_facts(b, fs), None, split - 1, leaf):
            return False
    return True


def equal_struct(a, b):
    """same operator with provably equal arguments (catches gates inside arguments)"""
    if a.op != b.op or a.op in LEAVES or a.op in VARS or a.op in ('num', 'const', 'poly'):
        return False
    if len(a.args) != len(b.args):
        return False
    if a.op in BINDERS:
        va, na, ba = open_binder(a)
        bb = at_body(b, va)
        return (na is b.args[0] or (na is not NONE and b.args[0] is not NONE and equal(na, b.args[0], split=4))) \
            and equal(ba, bb, split=6)
    for x, y in zip(a.args, b.args):
        if isinstance(x, T) and isinstance(y, T):
            if x is not y and not equal(x, y, split=6):
                return False
        elif x != y:
            return False
    return True


def at_body(b, v):
    return subst(b.args[1], {mk('bv', b.ht): v})


def bool_equal(a, b, budget=10):
    if a is b:
        return True
    at_ = []
    for x in atoms_of(a) + atoms_of(b):
        if x not in at_:
            at_.append(x)
    if len(at_) > budget:
        return False

    def go(a, b, at_):
        if a is b:
            return True
        rem = [x for x in at_ if x in set(atoms_of(a)) | set(atoms_of(b))]
        if not rem:
            return a is b
        if rem == [a] or rem == [b]:
            pass
        x = rem[0]
        for val in (True, False):
            fs = facts_of(x, val)
            na, nb = assume_facts(a, fs), assume_facts(b, fs)
            if na is a and nb is b:
                return False
            if not go(na, nb, rem[1:]):
                return False
        return True

    return go(a, b, at_)


def implies(a, b, budget=12):
    """a => b for boolean terms (propositional + comparison complement)"""
    if b is TRUE or a is FALSE or a is b:
        return True
    parts = b.args if b.op == 'and' else (b,)
    fa = facts_of(a, True)
    rest = []
    for p in parts:
        r = assume_facts(p, fa)
        if r is not TRUE:
            rest.append(p)
    if not rest:
        return True
    return bool_equal(mor(mnot_full(a), mand(*rest)), TRUE, budget)


# ---------------------------------------------------------------- derivative
def deriv(t, v):
    if v not in t.lv and v not in t.fv and t is not v:
        return ZERO
    if t is v:
        return ONE
    if t.op == 'poly':
        res = ZERO
        for m, c in t.args[0]:
            for k, (f, e) in enumerate(m):
                df = deriv(f, v)
                if df is ZERO:
                    continue
                fd = _mono_terms(m)
                fd[f] = e - 1
                res = add(res, mul(scale(_build_mono(fd, c), e), df))
        return res
    if t.op == 'exp':
        return mul(t, deriv(t.args[0], v))
    if t.op == 'log':
        return div(deriv(t.args[0], v), t.args[0])
    if t.op == 'app' and t.args[0] == 'erf':
        x = t.args[1]
        return mul(num(2), power(PI, -HALF), exp(neg(mul(x, x))), deriv(x, v))
    if t.op == 'app' and t.args[0] == 'erfinv':
        x = t.args[1]
        return mul(num(HALF), sqrt(PI), exp(mul(t, t)), deriv(x, v))
    if t.op == 'ite':
        return ite(t.args[0], deriv(t.args[1], v), deriv(t.args[2], v))
    return None if True else ZERO


# ---------------------------------------------------------------- printing
def _f(x):
    if x.denominator == 1:
        return str(x.numerator)
    f = float(x)
    return repr(f) if Fraction(repr(f)) == x else str(x)


def show(t, depth=14):
    if depth <= 0:
        return '…'
    d = depth - 1
    op = t.op
    if op == 'num':
        return _f(t.args[0])
    if op == 'const':
        return repr(t.args[0])
    if op in ('sym', 'iv'):
        return str(t.args[0])
    if op == 'ax':
        return '@%d' % t.args[0]
    if op == 'bv':
        return 'b%d' % t.args[0]
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            fs = []
            for f, e in m:
                s = show(f, d)
                if f.op == 'poly':
                    s = '(%s)' % s
                if e != 1:
                    s += '^' + (_f(e) if e.denominator == 1 and e > 0 else '(%s)' % _f(e))
                fs.append(s)
            s = '*'.join(fs)
            if c == -1 and s:
                s = '-' + s
            elif c != 1 or not s:
                s = _f(c) + ('*' + s if s else '')
            out.append(s)
        return ' + '.join(out).replace('+ -', '- ')
    if op == 'at':
        return '%s[%s]' % (show(t.args[0], d), ','.join(show(a, d) for a in t.args[1:]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(a, d) for a in t.args)
    if op == 'gt0':
        return '(%s > 0)' % show(t.args[0], d)
    if op == 'ge0':
        return '(%s >= 0)' % show(t.args[0], d)
    if op == 'eq0':
        return '(%s == 0)' % show(t.args[0], d)
    if op in ('and', 'or'):
        return '(%s)' % ((' %s ' % op).join(show(a, d) for a in t.args))
    if op == 'lam':
        return '\\b%d.%s' % (t.ht, show(t.args[1], d))
    if op in BINDERS:
        return '%s{b%d<%s}(%s)' % (op, t.ht, show(t.args[0], d), show(t.args[1], d))
    if op == 'mu':
        return 'mu<%s>' % ','.join(str(a) if not isinstance(a, T) else show(a, d) for a in t.args)
    if op == 'rnd':
        return 'rnd<%s>' % ','.join(str(a) if not isinstance(a, T) else show(a, d) for a in t.args)
    return '%s(%s)' % (op if op != 'app' else t.args[0],
                       ','.join(show(a, d) if isinstance(a, T) else str(a) for a in
                                (t.args if op != 'app' else t.args[1:])))
