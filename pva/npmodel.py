"""Models of the Python, numpy, scipy, torch, zuko and os operations the package uses."""
import ast
import math
from fractions import Fraction
from .values import *
from .terms import *
from . import terms as tm


def _exc(name, *a):
    from .interp import PyRaise
    return PyRaise(name, a)


def _unsup(m):
    from .interp import Unsupported
    return Unsupported(m)


# ---------------------------------------------------------------- broadcasting
def bcast(e, r, R):
    if r == R:
        return e
    return subst(e, {ax(i): ax(i + R - r) for i in range(r)})


def bshape(shapes):
    R = max(len(s) for s in shapes)
    out = []
    for j in range(R):
        d = None
        for s in shapes:
            i = j - (R - len(s))
            if i >= 0:
                if s[i] is not ONE:
                    d = s[i] if d is None or d is ONE else d
                elif d is None:
                    d = ONE
        out.append(d)
    return tuple(out)


def balign(shape, e, out):
    R, r = len(out), len(shape)
    m = {}
    for i in range(r):
        j = i + R - r
        if shape[i] is ONE and out[j] is not ONE:
            m[ax(i)] = ZERO
        elif j != i:
            m[ax(i)] = ax(j)
    return subst(e, m) if m else e


def elementwise(I, st, f, *vals):
    if any(isinstance(v, Choice) for v in vals):
        vals = [I.narrow(st, v) for v in vals]
    parts = [I.arr(st, v) for v in vals]
    if all(not p[0] for p in parts):
        return f(*[p[1] for p in parts])
    out = bshape([p[0] for p in parts])
    return I.new_arr(st, out, f(*[balign(s, e, out) for s, e in parts]))


def num_of(t):
    """boolean terms in arithmetic count as 0/1"""
    if is_bool(t):
        return ite(t, ONE, ZERO)
    return t


def _ar(f):
    return lambda *a: f(*[num_of(x) for x in a])


def _tdiv(a, b):
    return div(a, b)


def _band(a, b):
    if is_bool(a) or is_bool(b):
        return mand(truth(a), truth(b))
    return mk('app', 'bitand', a, b)


def _bor(a, b):
    if is_bool(a) or is_bool(b):
        return mor(truth(a), truth(b))
    return mk('app', 'bitor', a, b)


def _bxor(a, b):
    if is_bool(a) and is_bool(b):
        return mor(mand(a, mnot(b)), mand(mnot(a), b))
    return mk('app', 'bitxor', a, b)


BIN = {'Add': _ar(add), 'Sub': _ar(sub), 'Mult': _ar(mul), 'Div': _ar(_tdiv), 'Pow': _ar(tpow),
       'FloorDiv': _ar(lambda a, b: app('floordiv', a, b)), 'Mod': _ar(lambda a, b: app('mod', a, b)),
       'BitAnd': _band, 'BitOr': _bor, 'BitXor': _bxor,
       'LShift': lambda a, b: app('lshift', a, b), 'RShift': lambda a, b: app('rshift', a, b)}

DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Pow': '__pow__',
          'MatMult': '__matmul__'}


def is_str(t):
    return isinstance(t, T) and ((t.op == 'const' and isinstance(t.args[0], (str, bytes))) or t.op in ('strcat', 'fmt')
                                 or (t.op == 'app' and t.args[0] in ('pathjoin', 'str')))


def strcat(parts):
    out = []
    for p in parts:
        if p.op == 'num' and p.args[0].denominator == 1:
            p = const(str(int(p.args[0])))
        if p.op == 'strcat':
            ps = list(p.args)
        else:
            ps = [p]
        for q in ps:
            if q.op == 'const' and isinstance(q.args[0], str) and out and out[-1].op == 'const' and \
                    isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif not (q.op == 'const' and q.args[0] == ''):
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'const':
        return out[0] if isinstance(out[0].args[0], str) else const(str(out[0].args[0]))
    return mk('strcat', *out)


def binop(I, st, op, a, b, node=None):
    a, b = I.narrow(st, a), I.narrow(st, b)
    for v, w, left in ((a, b, True), (b, a, False)):
        if isinstance(v, Choice) and not _arrlike(I, st, v):
            return I.choice_apply(st, v, lambda s, o: binop(I, s, op, o if left else a, b if left else o, node))
    ca = I.cell(st, a) if isinstance(a, Ref) else None
    cb = I.cell(st, b) if isinstance(b, Ref) else None
    if a is NONE or b is NONE:
        raise _exc('TypeError')
    if isinstance(ca, ObjC) and ca.cls is not None and op in DUNDER:
        m = ca.cls.find(DUNDER[op])
        if m is not None:
            return I.call_func(st, m, [a, b], {}, node)
    if op == 'Add':
        la, lb = isinstance(ca, ListC), isinstance(cb, ListC)
        if la and lb:
            return I.alloc(st, ListC(ca.items + cb.items))
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return TupleV(a.items + b.items)
        if isinstance(a, TupleV) and isinstance(b, T) and b.op == 'tuple':
            return TupleV(a.items + b.args)
        if is_str(a) or is_str(b):
            return strcat([I.term(st, a), I.term(st, b)])
    if op == 'Mult':
        for l, n in ((a, b), (b, a)):
            cl = I.cell(st, l) if isinstance(l, Ref) else None
            if isinstance(cl, ListC) and isinstance(n, T) and not isinstance(n, Ref):
                nv = numval(n)
                if nv is not None and cl.concrete() and nv * max(1, len(cl.items)) <= 64:
                    return I.alloc(st, ListC(cl.items * int(nv)))
                if cl.concrete() and len(cl.items) == 1:
                    return I.alloc(st, ListC([Sym(n, fresh_iv('k'), I.by_value(st, cl.items[0]))]))
            if isinstance(l, TupleV) and isinstance(n, T) and numval(n) is not None and numval(n) <= 64:
                return TupleV(l.items * int(numval(n)))
    if op == 'Div' and (is_str(b) or is_str(a)):
        return app('pathjoin', I.term(st, a), I.term(st, b))
    if op == 'Mod' and is_str(a):
        return mk('fmt', a, I.term(st, b))
    if isinstance(ca, ListC) and ca.isset or isinstance(cb, ListC) and cb.isset:
        if op == 'Sub' and ca.concrete() and cb.concrete():
            return I.alloc(st, ListC([x for x in ca.items if x not in cb.items], isset=True))
        return I.alloc(st, ListC([Sym(fresh_sym('setlen'), fresh_iv('k'),
                                      mk('app', 'set' + op, I.term(st, a), I.term(st, b)))], isset=True))
    if isinstance(ca, DictC) and op == 'BitOr':
        r = I.alloc(st, DictC(dict(ca.items), ca.base))
        dict_update(I, st, r, b)
        return r
    if op == 'MatMult':
        return dot(I, st, a, b)
    f = BIN.get(op)
    if f is None:
        raise _unsup('binop ' + op)
    return elementwise(I, st, f, a, b)


def _arrlike(I, st, v):
    if isinstance(v, Choice):
        return _arrlike(I, st, v.a) and _arrlike(I, st, v.b)
    if isinstance(v, T):
        return v is NONE or not is_str(v)
    if isinstance(v, Ref):
        return isinstance(I.cell(st, v), Arr)
    return False


# ---------------------------------------------------------------- comparison
def isnone(I, st, v):
    if v is NONE:
        return TRUE
    if isinstance(v, Choice):
        return ite(v.c, isnone(I, st, v.a), isnone(I, st, v.b))
    if isinstance(v, T):
        if v.op == 'ite' and not is_bool(v):
            return ite(v.args[0], isnone(I, st, v.args[1]), isnone(I, st, v.args[2]))
        if v in I.nullable:
            return mk('isnone', v)
        if v.op in ('item', 'attr') or (v.op == 'app' and v.args[0] in ('call', 'getattr', 'ext')):
            return mk('isnone', v)
        return FALSE
    return FALSE


def once(I, st, items):
    """the items without those that are equal to an earlier one"""
    out = []
    for x in items:
        if not any(isinstance(x, T) and isinstance(y, T) and _veqterm(I, st, x, y) is TRUE for y in out):
            out.append(x)
    return out


def distinct(I, a, b):
    """two members of a family of objects of which it is known that they are different objects"""
    return a.op == 'at' and b.op == 'at' and a.args[0] is b.args[0] and a.args[0] in I.objfams and \
        all(x.op == 'num' for x in a.args[1:] + b.args[1:]) and a is not b


def identical(I, st, a, b):
    if b is NONE:
        return isnone(I, st, a)
    if a is NONE:
        return isnone(I, st, b)
    if isinstance(a, Choice):
        return ite(a.c, identical(I, st, a.a, b), identical(I, st, a.b, b))
    if isinstance(b, Choice):
        return identical(I, st, b, a)
    if isinstance(a, T) and isinstance(b, T):
        if distinct(I, a, b):
            return FALSE
        return eq(a, b)
    if veq(a, b):
        return TRUE
    if type(a) is type(b) and isinstance(a, (Ref, FuncV, ClassV, ExtV, BoundV)):
        return FALSE
    if isinstance(a, T) != isinstance(b, T):
        t = a if isinstance(a, T) else b
        if t.op in ('num', 'const') or is_bool(t):
            return FALSE
        return mk('eq', *sorted((I.term(st, a), I.term(st, b)), key=lambda x: x.id))
    return FALSE


def contains_(I, st, item, seq):
    if isinstance(seq, Choice):
        return I.choice_apply(st, seq, lambda s, o: contains_(I, s, item, o))
    if isinstance(seq, TupleV):
        return mor(*[_veqterm(I, st, item, x) for x in seq.items])
    if isinstance(seq, ObjDict):
        seq2 = I.cell(st, Ref(seq.id)).attrs
        k = I.key(item)
        return TRUE if k in seq2 else FALSE
    if isinstance(seq, Ref):
        c = I.cell(st, seq)
        if isinstance(c, ListC):
            if c.concrete():
                return mor(*[_veqterm(I, st, item, x) for x in c.items])
            return mk('in', I.term(st, item), I.term(st, seq))
        if isinstance(c, DictC):
            k = I.key(item)
            if isinstance(k, T) and k.op not in ('num', 'tuple'):
                alts = [eq(k, kk if isinstance(kk, T) else const(kk)) for kk in c.items]
                if c.base is not None:
                    alts.append(mk('in', k, c.base))
                return mor(*alts)
            if k in c.items:
                v = c.items[k]
                if isinstance(v, Choice) and v.b is MISSING:
                    return v.c
                if isinstance(v, Choice) and v.a is MISSING:
                    return mnot_full(v.c)
                return TRUE if v is not MISSING else FALSE
            return FALSE if c.base is None else mk('in', k if isinstance(k, T) else const(k), c.base)
        if isinstance(c, Arr):
            v = fresh_iv('q')
            e = I.elem(st, seq)
            if len(c.shape) == 1:
                return binder('any', c.shape[0], v, eq(subst(e, {ax(0): v}), I.term(st, item)))
        if isinstance(c, ObjC) and c.cls is not None and c.cls.find('__contains__'):
            return I.truth(st, I.call_func(st, c.cls.find('__contains__'), [seq, item], {}, None))
    if isinstance(seq, T) and seq.op == 'const' and isinstance(item, T) and item.op == 'const':
        try:
            return TRUE if item.args[0] in seq.args[0] else FALSE
        except TypeError:
            raise _exc('TypeError')
    if isinstance(seq, T) and seq.op == 'tuple':
        return mor(*[eq(I.term(st, item), x) for x in seq.args])
    if seq is NONE or (isinstance(seq, T) and seq.op == 'num'):
        raise _exc('TypeError')
    if isinstance(seq, RangeV):
        t = I.term(st, item)
        return mand(le(seq.lo, t), lt(t, seq.hi))
    if isinstance(seq, IterV) and seq.items is not None:
        return mor(*[_veqterm(I, st, item, x) for x in seq.items])
    return mk('in', I.term(st, item), I.term(st, seq))


def _veqterm(I, st, a, b):
    r = compare(I, st, 'Eq', a, b)
    return I.truth(st, r)


def compare(I, st, op, a, b):
    a, b = I.narrow(st, a), I.narrow(st, b)
    if op in ('Is', 'IsNot'):
        c = identical(I, st, a, b)
        return c if op == 'Is' else mnot(c)
    if op in ('In', 'NotIn'):
        c = contains_(I, st, a, b)
        return c if op == 'In' else mnot(c)
    if op in ('Eq', 'NotEq'):
        r = _eqv(I, st, a, b)
        if op == 'NotEq':
            return elementwise(I, st, mnot, r)
        return r
    for v in (a, b):
        if v is NONE or is_str(v) and not (is_str(a) and is_str(b)):
            raise _exc('TypeError')
    for v, left in ((a, True), (b, False)):
        if isinstance(v, Choice) and (v.a is NONE or v.b is NONE):
            return I.choice_apply(st, v, lambda s, o: compare(I, s, op, o if left else a, b if left else o))
        if isinstance(v, T) and v.op == 'ite' and (v.args[1] is NONE or v.args[2] is NONE):
            return I.choice_apply(st, Choice(*v.args),
                                  lambda s, o: compare(I, s, op, o if left else a, b if left else o))
    f = {'Lt': lambda x, y: lt(x, y), 'LtE': lambda x, y: le(x, y), 'Gt': lambda x, y: lt(y, x),
         'GtE': lambda x, y: le(y, x)}[op]
    return elementwise(I, st, _ar(f), a, b)


def _eqv(I, st, a, b):
    if isinstance(a, Choice):
        return I.choice_apply(st, a, lambda s, o: _eqv(I, s, o, b))
    if isinstance(b, Choice):
        return I.choice_apply(st, b, lambda s, o: _eqv(I, s, a, o))
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        if len(a.items) != len(b.items):
            return FALSE
        return mand(*[I.truth(st, _eqv(I, st, x, y)) for x, y in zip(a.items, b.items)])
    ca = I.cell(st, a) if isinstance(a, Ref) else None
    cb = I.cell(st, b) if isinstance(b, Ref) else None
    if isinstance(ca, ListC) and isinstance(cb, ListC):
        return eq(I.term(st, a), I.term(st, b))
    if isinstance(ca, Arr) or isinstance(cb, Arr):
        if a is NONE or b is NONE:
            return FALSE
        return elementwise(I, st, lambda x, y: eq(x, y), a, b)
    if isinstance(a, T) and isinstance(b, T):
        if distinct(I, a, b):
            return FALSE
        return eq(a, b)
    if isinstance(a, (FuncV, ClassV, ExtV)) and isinstance(b, (FuncV, ClassV, ExtV)):
        return TRUE if veq(a, b) else FALSE
    ta, tb = I.term(st, a), I.term(st, b)
    if ta is tb:
        return TRUE
    if NONE in (ta, tb):
        return isnone(I, st, a if tb is NONE else b)
    return mk('eq', *sorted((ta, tb), key=lambda x: x.id))


# ---------------------------------------------------------------- indexing
def _neg_index(t, n):
    if t.op == 'num' and t.args[0] < 0:
        return add(n, t)
    if t.op == 'poly' and nonneg(neg(t)) and t is not ZERO and all(c < 0 for _, c in t.args[0]):
        return add(n, t)
    return t


def parse_index(I, st, shape, k):
    """list of components over the axes of an array; also list of output entries"""
    ks = list(k.items) if isinstance(k, TupleV) else [k]
    ks = [NONE if (x is None) else x for x in ks]
    # expand ellipsis
    n_real = 0
    for x in ks:
        if x is NONE or (isinstance(x, T) and x.op == 'const' and x.args[0] == '...'):
            continue
        n_real += _idx_rank(I, st, x)
    ell = [i for i, x in enumerate(ks) if isinstance(x, T) and x.op == 'const' and x.args[0] == '...']
    full = SliceV(None, None, None)
    if ell:
        i = ell[0]
        ks = ks[:i] + [full] * (len(shape) - n_real) + ks[i + 1:]
    else:
        ks = ks + [full] * (len(shape) - n_real)
    comps = []
    a = 0
    for x in ks:
        if x is NONE:
            comps.append(('new',))
            continue
        if a >= len(shape):
            raise _exc('IndexError')
        n = shape[a]
        if isinstance(x, SliceV):
            lo, hi, step = x.lo, x.hi, x.step
            lo = None if lo is NONE else lo
            hi = None if hi is NONE else hi
            step = None if step is NONE else step
            sv = 1
            if step is not None:
                sv = numval(I.term(st, step))
                if sv is None:
                    raise _unsup('symbolic slice step')
            if sv < 0:
                if lo is None and hi is None and sv == -1:
                    comps.append(('sl', sub(n, ONE), n, -1, False))
                    a += 1
                    continue
                raise _unsup('negative slice step')
            lo = ZERO if lo is None else _neg_index(I.term(st, lo), n)
            fullhi = hi is None
            hi = n if hi is None else _neg_index(I.term(st, hi), n)
            if hi.op == 'num' and n.op == 'num' and hi.args[0] > n.args[0]:
                hi = n
            ext = sub(hi, lo)
            if ext.op == 'num' and ext.args[0] < 0:
                ext = ZERO
            if sv != 1:
                ext = app('ceil', scale(ext, Fraction(1) / sv)) if ext.op != 'num' else num(-((-ext.args[0]) // sv))
            comps.append(('sl', lo, ext, sv, lo is ZERO and (fullhi or hi is n) and sv == 1))
            a += 1
            continue
        if isinstance(x, RangeV) or isinstance(x, IterV) or isinstance(x, TupleV):
            x = I.to_list(st, x)
        if isinstance(x, Choice):
            x = I.narrow(st, x)
        s, e = I.arr(st, x)
        if not s:
            if is_bool(e):
                comps.append(('smask', e))
                a += 1
                continue
            comps.append(('ix', _neg_index(e, n)))
            a += 1
        elif is_bool(e):
            if len(s) == 1:
                ml = lam_ax(1, e)
                comps.append(('mask', n, ml))
                a += 1
            else:
                comps.append(('maskn', s, e))
                a += len(s)
        else:
            comps.append(('int', s, e))
            a += 1
    return comps


def _idx_rank(I, st, x):
    if isinstance(x, Ref):
        c = I.cell(st, x)
        if isinstance(c, Arr) and len(c.shape) > 1 and is_bool(I.elem(st, x)):
            return len(c.shape)
    return 1


def get_arr_item(I, st, o, k):
    c = I.cell(st, o)
    comps = parse_index(I, st, c.shape, k)
    kinds = {x[0] for x in comps}
    if kinds <= {'ix', 'sl'}:
        maps, shape = [], []
        for x in comps:
            if x[0] == 'ix':
                maps.append(('ix', x[1]))
            else:
                maps.append(('ax', len(shape), x[1], x[4], x[3]))
                shape.append(x[2])
        return I.view(st, o, shape, maps)
    e = I.elem(st, o)
    if comps and comps[0][0] == 'maskn':
        s, me = comps[0][1], comps[0][2]
        if len(s) == len(c.shape):
            ml = lam_ax(len(s), me)
            cnt = fresh_iv('c')
            tot = ite(me, ONE, ZERO)
            vs = [fresh_iv('c') for _ in s]
            tot = subst(tot, {ax(i): vs[i] for i in range(len(s))})
            for i in reversed(range(len(s))):
                tot = mk_sum(s[i], vs[i], tot)
            sub_ = {ax(i): mk('app', 'flatsel%d' % i, ml, ax(0)) for i in range(len(s))}
            return I.new_arr(st, (tot,), subst(e, sub_))
        raise _unsup('n-d mask')
    shape, m = [], {}
    a = 0
    advdone = None
    nadv = sum(1 for x in comps if x[0] == 'int')
    for x in comps:
        if x[0] == 'new':
            shape.append(ONE)
            continue
        if x[0] == 'ix':
            m[ax(a)] = x[1]
        elif x[0] == 'sl':
            m[ax(a)] = add(x[1], scale(ax(len(shape)), x[3]))
            shape.append(x[2])
        elif x[0] == 'mask':
            if advdone is not None:
                m[ax(a)] = sel(x[1], x[2], ax(advdone))
            else:
                m[ax(a)] = sel(x[1], x[2], ax(len(shape)))
                advdone = len(shape)
                shape.append(count(x[1], x[2]))
        elif x[0] == 'int':
            s, ie = x[1], x[2]
            n = c.shape[a]
            if advdone is not None:
                base = advdone
                R = advrank
                al = {ax(i): ax(i + base + R - len(s)) for i in range(len(s))}
                for i in range(len(s)):
                    if s[i] is ONE:
                        al[ax(i)] = ZERO
                    elif shape[base + R - len(s) + i] is ONE:
                        shape[base + R - len(s) + i] = s[i]
            else:
                base = advdone = len(shape)
                advrank = max(len(y[1]) for y in comps if y[0] == 'int')
                s2 = (ONE,) * (advrank - len(s)) + tuple(s)
                al = {ax(i): ax(i + base + advrank - len(s)) for i in range(len(s))}
                shape.extend(s2)
            if ie.op == 'num' and ie.args[0] < 0:
                ie = add(n, ie)
            m[ax(a)] = subst(ie, al)
        else:
            raise _unsup('index %s' % x[0])
        a += 1
    return I.new_arr(st, shape, subst(e, m), c.dt)


def set_arr_item(I, st, o, k, v, node):
    c = I.cell(st, o)
    comps = parse_index(I, st, c.shape, k)
    old = I.elem(st, o)
    vs, ve = I.arr(st, v)
    if comps and comps[0][0] == 'maskn' and len(comps[0][1]) == len(c.shape):
        if vs:
            ml = lam_ax(len(c.shape), comps[0][2])
            ve = subst(ve, {ax(0): mk('app', 'flatrank', ml, *[ax(i) for i in range(len(c.shape))])})
        new = ite(comps[0][2], ve, old)
        I.set_elem(st, o, new, node, 'setitem')
        return
    cond = TRUE
    pos = []          # position expressions of output axes
    oshape = []
    a = 0
    for x in comps:
        A = ax(a)
        if x[0] == 'ix':
            cond = mand(cond, eq(A, x[1]))
        elif x[0] == 'sl':
            p = sub(A, x[1])
            if x[3] != 1:
                p = scale(p, Fraction(1) / x[3])
                if abs(x[3]) != 1:
                    cond = mand(cond, eq0(app('mod', sub(A, x[1]), num(x[3]))))
            if not x[4] and not (x[3] == -1 and x[2] is c.shape[a]):
                cond = mand(cond, le(ZERO, p), lt(p, x[2]))
            pos.append(p)
            oshape.append(x[2])
        elif x[0] == 'mask':
            cond = mand(cond, at(x[2], A))
            pos.append(rank(x[1], x[2], A))
            oshape.append(count(x[1], x[2]))
        elif x[0] == 'smask':
            cond = mand(cond, x[1])
            pos.append(A)
            oshape.append(c.shape[a])
        elif x[0] == 'int':
            s, ie = x[1], x[2]
            if len(s) != 1:
                raise _unsup('nd fancy store')
            cnd, p = invert_index(ie, s[0], A)
            cond = mand(cond, cnd)
            pos.append(p)
            oshape.append(s[0])
        elif x[0] == 'new':
            pos.append(ZERO)
            oshape.append(ONE)
            continue
        else:
            raise _unsup('store index %s' % x[0])
        a += 1
    if len(vs) > len(oshape):
        vs2 = [s for s in vs if s is not ONE]
        ve = subst(ve, {ax(i): ZERO for i in range(len(vs)) if vs[i] is ONE})
        if len(vs2) > len(oshape):
            raise _exc('ValueError')
        vs = vs[len(vs) - len(oshape):]
    m = {}
    off = len(oshape) - len(vs)
    for i in range(len(vs)):
        m[ax(i)] = ZERO if (vs[i] is ONE and oshape[i + off] is not ONE) else pos[i + off]
    val = subst(ve, m)
    if is_bool(old) and not is_bool(val):
        val = truth(val)
    I.set_elem(st, o, ite(cond, val, old), node, 'setitem')


def invert_index(ie, n, A):
    """idx(k)=ie over ax(0) with extent n: condition that A is hit, and the k that hits it"""
    if ie.op == 'sel' and ie.args[2] is ax(0):
        return at(ie.args[1], A), rank(ie.args[0], ie.args[1], A)
    p = to_poly(ie)
    key = ((ax(0), Fraction(1)),)
    if p.get(key) in (1, -1):
        rest = dict(p)
        c = rest.pop(key)
        r = from_poly(rest)
        if ax(0) not in r.fv:
            q = scale(sub(A, r), c)
            if r is ZERO:
                return lt(q, n) if False else TRUE, q
            return mand(le(ZERO, q), lt(q, n)), q
    il = lam_ax(1, ie)
    v = fresh_iv('h')
    return binder('any', n, v, eq(at(il, v), A)), mk('app', 'invidx', il, A)


def get_item(I, st, o, k):
    if isinstance(o, Choice):
        return I.choice_apply(st, o, lambda s, x: get_item(I, s, x, k))
    if isinstance(k, Choice):
        return I.choice_apply(st, k, lambda s, x: get_item(I, s, o, x))
    if o is NONE or o is MISSING:
        raise _exc('TypeError')
    if isinstance(o, ObjDict):
        c = I.cell(st, Ref(o.id))
        key = I.key(k)
        if key in c.attrs and c.attrs[key] is not MISSING:
            return c.attrs[key]
        raise _exc('KeyError')
    if isinstance(o, TupleV):
        if isinstance(k, SliceV):
            lo, hi, stp = [None if (x is None or x is NONE) else _intval(I, st, x) for x in (k.lo, k.hi, k.step)]
            return TupleV(o.items[slice(lo, hi, stp)])
        kt = I.term(st, k)
        kv = numval(kt)
        if kv is not None:
            try:
                return o.items[int(kv)]
            except IndexError:
                raise _exc('IndexError')
        if is_bool(kt):
            return I.merge_val(kt, o.items[1], o.items[0])
        if len(o.items) <= 8 and all(isinstance(x, T) for x in o.items):
            r = o.items[-1]
            for i in range(len(o.items) - 2, -1, -1):
                r = ite(eq(kt, num(i)), o.items[i], r)
            return r
        return at(I.term(st, o), kt)
    if isinstance(o, (IterV, RangeV)):
        if isinstance(o, RangeV) and not isinstance(k, SliceV):
            kt = I.term(st, k)
            return add(o.lo, mul(_neg_index(kt, sub(o.hi, o.lo)), o.step))
        return get_item(I, st, I.to_list(st, o), k)
    if isinstance(o, Ref):
        c = I.cell(st, o)
        if isinstance(c, Arr):
            return get_arr_item(I, st, o, k)
        if isinstance(c, DictC):
            return dict_get(I, st, c, k)
        if isinstance(c, ListC):
            return list_get(I, st, o, c, k)
        if isinstance(c, ObjC) and c.cls is not None:
            m = c.cls.find('__getitem__')
            if m is not None:
                return I.call_func(st, m, [o, k], {}, None)
        if isinstance(c, ObjC) and c.base is not None:
            return mk('item', c.base, I.term(st, k))
        raise _exc('TypeError')
    if isinstance(o, (ClassV, ExtV)):
        return o        # typing subscripts
    if isinstance(o, ArrV):
        return get_arr_item(I, st, I.materialise(st, o), k)
    if isinstance(o, T):
        if o.op == 'const' and isinstance(o.args[0], (str, bytes)):
            if isinstance(k, SliceV):
                lo, hi, stp = [None if (x is None or x is NONE) else _intval(I, st, x) for x in (k.lo, k.hi, k.step)]
                return const(o.args[0][slice(lo, hi, stp)])
            kv = numval(I.term(st, k))
            if kv is not None:
                try:
                    return const(o.args[0][int(kv)])
                except IndexError:
                    raise _exc('IndexError')
        if o.op in ('num', 'poly', 'exp', 'log', 'sum') or is_bool(o) or is_scalar_app(I, o):
            raise _exc('TypeError')
        if o.op == 'ite':
            return I.choice_apply(st, Choice(*o.args), lambda s, x: get_item(I, s, x, k))
        if o.op == 'tuple':
            return get_item(I, st, TupleV(o.args), k)
        if isinstance(k, SliceV):
            return mk('item', o, I.term(st, k))
        kt = I.term(st, k)
        if o.op == 'dict':
            pairs = o.args[1:] if len(o.args) % 2 else o.args
            for i in range(0, len(pairs), 2):
                if pairs[i] is kt:
                    return pairs[i + 1]
        if is_str(kt):
            return mk('item', o, kt)
        h = I.symmodel(o)
        if h is not None:
            r = h(I, st, o, '__getitem__', [k], {}, None)
            if r is not None:
                return r
        return at(o, kt)
    raise _unsup('subscript of %r' % (o,))


def is_scalar_app(I, t):
    return t.op == 'app' and t.args[0] in getattr(I, 'scalar_apps', ())


def _intval(I, st, x):
    v = numval(I.term(st, x))
    if v is None:
        raise _unsup('symbolic slice of a sequence')
    return int(v)


def dict_get(I, st, c, k, default=None, has_default=False):
    key = I.key(k)
    if key in c.items:
        v = c.items[key]
        if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
            cond = v.c if v.b is MISSING else mnot_full(v.c)
            pres = v.a if v.b is MISSING else v.b
            cc = assume_facts(cond, st.facts) if st.facts else cond
            if cc is TRUE:
                return pres
            if cc is FALSE:
                if has_default:
                    return default
                raise _exc('KeyError')
            if has_default:
                return I.merge_val(cond, pres, default)
            return pres
        if v is MISSING:
            if has_default:
                return default
            raise _exc('KeyError')
        return v
    if isinstance(key, T) and key.op not in ('num', 'tuple') and c.items:
        # symbolic key: gated choice
        res = None
        for kk, vv in reversed(list(c.items.items())):
            if vv is MISSING:
                continue
            kt = kk if isinstance(kk, T) else const(kk)
            res = vv if res is None else I.merge_val(eq(key, kt), vv, res)
        return res
    if c.base is not None:
        kt = key if isinstance(key, T) else const(key)
        h = I.symattrs.get(c.base)
        if h is not None:
            r = h(I, st, c, kt)
            if r is not None:
                return r
        if has_default:
            return I.merge_val(mk('in', kt, c.base), mk('item', c.base, kt), default)
        return mk('item', c.base, kt)
    if has_default:
        return default
    raise _exc('KeyError')


def list_get(I, st, o, c, k):
    if isinstance(k, SliceV):
        lo, hi, stp = [None if (x is None or x is NONE) else I.term(st, x) for x in (k.lo, k.hi, k.step)]
        if c.concrete() and all(x is None or numval(x) is not None for x in (lo, hi, stp)):
            f = lambda x: None if x is None else int(numval(x))
            return I.alloc(st, ListC(c.items[slice(f(lo), f(hi), f(stp))]))
        if lo is None and hi is None and stp is None:
            return I.alloc(st, ListC(c.items))
        n = I.list_len(c)
        if stp is not None and numval(stp) == -1 and lo is None and hi is None:
            kk = fresh_iv('k')
            return I.alloc(st, ListC([Sym(n, kk, I.by_value(st, list_at(I, st, o, c, sub(sub(n, ONE), kk))))]))
        if stp is None:
            lo_ = ZERO if lo is None else _neg_index(lo, n)
            hi_ = n if hi is None else _neg_index(hi, n)
            kk = fresh_iv('k')
            return I.alloc(st, ListC([Sym(sub(hi_, lo_), kk, I.by_value(st, list_at(I, st, o, c, add(lo_, kk))))]))
        raise _unsup('list slice')
    kt = I.term(st, k)
    kv = numval(kt)
    if kv is not None:
        kv = int(kv)
        if c.concrete():
            if -len(c.items) <= kv < len(c.items):
                return c.items[kv]
            raise _exc('IndexError')
        if kv < 0 and -kv <= len(c.items) and all(not isinstance(x, (Alt, Sym)) for x in c.items[kv:]):
            return c.items[kv]
        if kv >= 0 and kv < len(c.items) and all(not isinstance(x, (Alt, Sym)) for x in c.items[:kv + 1]):
            return c.items[kv]
    n = I.list_len(c)
    return list_at(I, st, o, c, _neg_index(kt, n))


def listed(I, st, o, v):
    """an array read out of a list is the array in the list"""
    if isinstance(v, Choice):
        listed(I, st, o, v.a)
        listed(I, st, o, v.b)
    elif isinstance(v, Ref) and isinstance(o, Ref):
        vc = I.cell(st, v)
        if isinstance(vc, Arr):
            st.heap[v.id] = Arr(vc.shape, vc.elem, vc.base, vc.flags | {('listed', o.id)}, vc.dt)
    return v


def list_at(I, st, o, c, kt):
    if c.concrete():
        if not c.items:
            raise _exc('IndexError')
        res = None
        for i in range(len(c.items) - 1, -1, -1):
            res = c.items[i] if res is None else I.merge_val(eq(kt, num(i)), c.items[i], res)
        return res
    off = ZERO
    parts = []
    for it in c.items:
        if isinstance(it, Sym):
            parts.append((add(off, it.n), lambda it=it, off=off: listed(I, st, o, I.instantiate(st, it.val, {it.v: sub(kt, off)}))))
            off = add(off, it.n)
        elif isinstance(it, Alt):
            return at(I.term_list(st, c), kt)
        else:
            parts.append((add(off, ONE), lambda it=it: it))
            off = add(off, ONE)
    # decided position
    lo = ZERO
    for hi, f in parts:
        if implies_pos(kt, lo, hi):
            return f()
        lo = hi
    res = None
    for hi, f in reversed(parts):
        v = f()
        res = v if res is None else I.merge_val(lt(kt, hi), v, res)
    return res


def implies_pos(k, lo, hi):
    return ge0(sub(k, lo)) is TRUE and ge0(sub(sub(hi, ONE), k)) is TRUE


def set_item(I, st, o, k, v, node):
    if isinstance(o, Choice):
        for c_, alt in ((o.c, o.a), (mnot_full(o.c), o.b)):
            if isinstance(alt, Ref):
                cell = I.cell(st, alt)
                f = assume_facts(c_, st.facts)
                if f is FALSE:
                    continue
                if f is TRUE:
                    set_item(I, st, alt, k, v, node)
                    continue
                s2 = st.clone()
                s2.assume(c_)
                set_item(I, s2, alt, k, v, node)
                for i in list(s2.heap):
                    x = st.heap.get(i)
                    y = s2.heap[i]
                    if x is None:
                        st.heap[i] = y
                    elif x is not y:
                        st.heap[i] = I.merge_cell(c_, y, x, s2, st, i)
        return
    if isinstance(o, ObjDict):
        I.set_attr(st, Ref(o.id), I.key(k), v, node)
        return
    if isinstance(o, Ref):
        c = I.cell(st, o)
        if isinstance(c, Arr):
            set_arr_item(I, st, o, k, v, node)
            return
        if isinstance(c, DictC):
            key = I.key(k)
            it = dict(c.items)
            if isinstance(key, T) and key.op not in ('num', 'tuple'):
                # symbolic key: weak update of every key, remembered in the base
                for kk in it:
                    it[kk] = I.merge_val(eq(key, kk if isinstance(kk, T) else const(kk)), v, it[kk])
                base = mk('setkey', c.base if c.base is not None else NONE, key, I.term(st, v))
                st.heap[o.id] = DictC(it, base, c.flags)
                I.event(st, 'dict-set', str(key), (o, v), node=node)
                return
            it[key] = v
            st.heap[o.id] = DictC(it, c.base, c.flags)
            I.event(st, 'dict-set', str(key), (o, v), node=node)
            return
        if isinstance(c, ListC):
            list_set(I, st, o, c, k, v, node)
            return
        if isinstance(c, ObjC) and c.cls is not None:
            m = c.cls.find('__setitem__')
            if m is not None:
                I.call_func(st, m, [o, k, v], {}, node)
                return
    I.event(st, 'setitem', '', (o, k, v), node=node)


def list_set(I, st, o, c, k, v, node):
    I.event(st, 'list-set', '', (o, k, v), node=node)
    if isinstance(k, SliceV):
        if k.lo is None and k.hi is None:
            l = I.to_list(st, v)
            st.heap[o.id] = ListC(I.cell(st, l).items, c.flags)
            return
        if k.step is not None and k.step is not NONE:
            raise _unsup('list slice store')
        mid = I.cell(st, I.to_list(st, v)).items
        st.heap[o.id] = ListC(I.list_splice(st, o, k, mid), c.flags)
        return
    kt = I.term(st, k)
    kv = numval(kt)
    if kv is not None and c.concrete():
        its = list(c.items)
        try:
            its[int(kv)] = v
        except IndexError:
            raise _exc('IndexError')
        st.heap[o.id] = ListC(its, c.flags)
        return
    if kv is not None and kv < 0 and not isinstance(c.items[int(kv)], (Alt, Sym)):
        its = list(c.items)
        its[int(kv)] = v
        st.heap[o.id] = ListC(its, c.flags)
        return
    n = I.list_len(c)
    kt = _neg_index(kt, n)
    kk = fresh_iv('k')
    old = list_at(I, st, o, c, kk)
    nv = I.by_value(st, I.merge_val(eq(kk, kt), v, old))
    st.heap[o.id] = ListC([Sym(n, kk, nv)], c.flags)


# ---------------------------------------------------------------- lists and dicts
def list_append(I, st, ref, v, node):
    c = I.cell(st, ref)
    if isinstance(v, Ref):
        vc = I.cell(st, v)
        if isinstance(vc, Arr):
            st.heap[v.id] = Arr(vc.shape, vc.elem, vc.base, vc.flags | {('listed', ref.id)}, vc.dt)
            b = vc.base
            while b is not None:
                bc = I.cell(st, Ref(b[0]))
                st.heap[b[0]] = Arr(bc.shape, bc.elem, bc.base, bc.flags | {('part', ref.id)}, bc.dt)
                b = bc.base
    if c.isset and c.concrete() and v in c.items:
        return NONE
    st.heap[ref.id] = ListC(c.items + (v,), c.flags, c.isset)
    ex = {}
    if isinstance(v, Ref) and isinstance(I.cell(st, v), Arr) and I.cell(st, v).base is not None:
        ex = dict(base=I.cell(st, v).base[0], maps=I.cell(st, v).base[1])
    I.event(st, 'append', '', (ref, v), node=node, **ex)
    return NONE


def list_pop(I, st, ref, k, node):
    c = I.cell(st, ref)
    kv = -1 if k is None else numval(I.term(st, k))
    I.event(st, 'list-pop', '', (ref, k), node=node)
    if c.isset:
        # an arbitrary element
        if c.concrete():
            if not c.items:
                raise _exc('KeyError')
            if len(c.items) == 1:
                st.heap[ref.id] = ListC((), c.flags, True)
                return c.items[0]
        x = fresh_sym('popped')
        st.heap[ref.id] = ListC([Sym(sub(I.list_len(c), ONE), fresh_iv('k'), mk('app', 'setless', I.term_list(st, c), x))],
                                c.flags, True)
        return x
    if kv is not None:
        kv = int(kv)
        if c.concrete():
            its = list(c.items)
            try:
                v = its.pop(kv)
            except IndexError:
                raise _exc('IndexError')
            st.heap[ref.id] = ListC(its, c.flags)
            return v
        if kv == -1:
            last = c.items[-1]
            if not isinstance(last, (Alt, Sym)):
                st.heap[ref.id] = ListC(c.items[:-1], c.flags)
                return last
            if isinstance(last, Sym):
                v = I.instantiate(st, last.val, {last.v: sub(last.n, ONE)})
                st.heap[ref.id] = ListC(c.items[:-1] + (Sym(sub(last.n, ONE), last.v, last.val),), c.flags)
                return v
        if kv == 0:
            first = c.items[0]
            if not isinstance(first, (Alt, Sym)):
                st.heap[ref.id] = ListC(c.items[1:], c.flags)
                return first
            if isinstance(first, Sym):
                v = I.instantiate(st, first.val, {first.v: ZERO})
                kk = fresh_iv('k')
                st.heap[ref.id] = ListC((Sym(sub(first.n, ONE), kk, vsubst(first.val, {first.v: add(kk, ONE)})),) +
                                        c.items[1:], c.flags)
                return v
    x = fresh_sym('popped')
    st.heap[ref.id] = ListC([Sym(sub(I.list_len(c), ONE), fresh_iv('k'), mk('app', 'less', I.term_list(st, c), x))],
                            c.flags)
    return x


def dict_items(I, st, d):
    d = I.narrow(st, d)
    if isinstance(d, ObjDict):
        c = I.cell(st, Ref(d.id))
        return dict(c.attrs), c.base
    if isinstance(d, Ref):
        c = I.cell(st, d)
        if isinstance(c, DictC):
            return dict(c.items), c.base
        if isinstance(c, ListC) and c.concrete():
            r = {}
            for x in c.items:
                k, v = I.unpack(st, x, 2)
                r[I.key(k)] = v
            return r, None
        if isinstance(c, ListC):
            return {}, mk('app', 'dict', I.term_list(st, c))
    if isinstance(d, Choice):
        a, ba = dict_items(I, st, d.a)
        b, bb = dict_items(I, st, d.b)
        r = {}
        for k in list(a) + [k for k in b if k not in a]:
            r[k] = I.merge_val(d.c, a.get(k, MISSING), b.get(k, MISSING))
        return r, ba if ba is not None else bb
    if isinstance(d, IterV):
        return dict_items(I, st, I.to_list(st, d))
    if isinstance(d, T):
        if d is NONE or d.op == 'num':
            raise _exc('TypeError')
        if d.op == 'dict' and len(d.args) % 2 == 0:
            return {(k.args[0] if k.op == 'const' else k): v for k, v in zip(d.args[::2], d.args[1::2])}, None
        return {}, d
    raise _unsup('mapping %r' % (d,))


def dict_update(I, st, ref, d, kw=None):
    it, b = dict_items(I, st, d) if d is not None else ({}, None)
    if isinstance(ref, ObjDict):
        for k, v in list(it.items()) + list((kw or {}).items()):
            I.set_attr(st, Ref(ref.id), k, v)
        if b is not None:
            c = I.cell(st, Ref(ref.id))
            st.heap[ref.id] = ObjC(c.cls, {k: Choice(mk('in', const(k), b), mk('item', b, const(k)), v)
                                           for k, v in c.attrs.items()}, b, c.flags)
            I.event(st, 'setdict', 'update', (Ref(ref.id), d))
        return
    c = I.cell(st, ref)
    items = dict(c.items)
    if b is not None:
        items = {k: Choice(mk('in', k if isinstance(k, T) else const(k), b),
                           mk('item', b, k if isinstance(k, T) else const(k)), v) for k, v in items.items()}
    for k, v in it.items():
        if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
            cnd = v.c if v.b is MISSING else mnot_full(v.c)
            pres = v.a if v.b is MISSING else v.b
            items[k] = I.merge_val(cnd, pres, items.get(k, MISSING))
        elif v is not MISSING:
            items[k] = v
    for k, v in (kw or {}).items():
        items[k] = v
    base = c.base
    if b is not None:
        base = b if base is None else mk('override', base, b)
    st.heap[ref.id] = DictC(items, base, c.flags)
    I.event(st, 'dict-update', '', (ref,), node=None)


def iter_of(I, st, v):
    if isinstance(v, IterV):
        return v
    if isinstance(v, TupleV):
        return IterV(items=list(v.items))
    if isinstance(v, RangeV):
        lo, hi, s = v.lo, v.hi, v.step
        if all(x.op == 'num' for x in (lo, hi, s)):
            r = range(int(lo.args[0]), int(hi.args[0]), int(s.args[0]))
            if len(r) <= 64:
                return IterV(items=[num(i) for i in r])
        if s.op == 'num' and s.args[0] == 1:
            return IterV(n=sub(hi, lo), get=lambda st, k: add(lo, k), note='range')
        if s.op == 'num' and s.args[0] == -1:
            return IterV(n=sub(lo, hi), get=lambda st, k: sub(lo, k), note='range')
        return IterV(n=app('ceil', div(sub(hi, lo), s)), get=lambda st, k: add(lo, mul(k, s)), note='range')
    if isinstance(v, Choice):
        v2 = I.narrow(st, v)
        if v2 is not v:
            return iter_of(I, st, v2)
        for x, y in ((v.a, v.b), (v.b, v.a)):
            if x is NONE or x is MISSING:
                return iter_of(I, st, y)
        a, b = iter_of(I, st, v.a), iter_of(I, st, v.b)
        la = num(len(a.items)) if a.items is not None else a.n
        lb = num(len(b.items)) if b.items is not None else b.n

        def g(st, k):
            xa = _iter_get(I, st, a, k)
            xb = _iter_get(I, st, b, k)
            return I.merge_val(v.c, xa, xb)
        return IterV(n=ite(v.c, la, lb), get=g)
    if isinstance(v, ObjDict):
        return IterV(items=[const(k) for k in I.cell(st, Ref(v.id)).attrs])
    if isinstance(v, Ref):
        c = I.cell(st, v)
        if isinstance(c, ListC):
            if c.concrete():
                if c.isset:
                    I.event(st, 'iter-set', '', (v,))
                return IterV(items=list(c.items))
            n = I.list_len(c)
            if c.isset:
                I.event(st, 'iter-set', '', (v,))
            return IterV(n=n, get=lambda st, k: list_at(I, st, v, c, k))
        if isinstance(c, DictC):
            if c.base is not None:
                n = app('len', I.term(st, v))
                return IterV(n=n, get=lambda st, k: mk('app', 'keyat', I.term(st, v), k))
            its = []
            for k, x in c.items.items():
                if x is MISSING:
                    continue
                its.append(const(k) if not isinstance(k, T) else k)
            return IterV(items=its)
        if isinstance(c, Arr):
            nv = numval(c.shape[0])
            if nv is not None and nv <= 64:
                return IterV(items=[get_arr_item(I, st, v, num(i)) for i in range(int(nv))])
            return IterV(n=c.shape[0], get=lambda st, k: get_arr_item(I, st, v, k))
        if isinstance(c, ObjC) and c.cls is not None:
            m = c.cls.find('__iter__')
            if m is not None:
                return iter_of(I, st, I.call_func(st, m, [v], {}, None))
        if isinstance(c, ObjC) and c.base is not None:
            b = c.base
            return IterV(n=app('len', b), get=lambda st, k: at(b, k))
        raise _exc('TypeError')
    if isinstance(v, T):
        if v.op == 'tuple':
            return IterV(items=list(v.args))
        if v.op == 'ite':
            return iter_of(I, st, Choice(*v.args))
        if v.op == 'const' and isinstance(v.args[0], str):
            return IterV(items=[const(ch) for ch in v.args[0]])
        if v.op in ('num', 'poly', 'const') or is_bool(v) or is_scalar_app(I, v):
            raise _exc('TypeError')
        h = I.symmodel(v)
        if h is not None:
            r = h(I, st, v, '__iter__', [], {}, None)
            if r is not None:
                return iter_of(I, st, r)
        return IterV(n=I.lens.get(v) or app('len', v), get=lambda st, k: at(v, k))
    if isinstance(v, (FuncV, ClassV, ExtV, BoundV)):
        raise _exc('TypeError')
    raise _unsup('iteration over %r' % (v,))


def _iter_get(I, st, it, k):
    if it.items is None:
        return it.get(st, k)
    res = None
    for i in range(len(it.items) - 1, -1, -1):
        res = it.items[i] if res is None else I.merge_val(eq(k, num(i)), it.items[i], res)
    return res if res is not None else UNDEF


def dc_default(I, st, d):
    if isinstance(d, T) and d.op == 'app' and d.args[0] == 'dcfield':
        return I.alloc(st, ListC([]))
    return d


# ---------------------------------------------------------------- linear algebra
def dot(I, st, a, b):
    (sa, ea), (sb, eb) = I.arr(st, a), I.arr(st, b)
    if not sa or not sb:
        return elementwise(I, st, _ar(mul), a, b)
    ea, eb = num_of(ea), num_of(eb)
    v = fresh_iv('d')
    ra, rb = len(sa), len(sb)
    n = sa[-1] if sa[-1] is not ONE or rb == 1 else sa[-1]
    if rb == 1:
        e = mul(subst(ea, {ax(ra - 1): v}), subst(eb, {ax(0): v}))
        return I.new_arr(st, sa[:-1], mk_sum(n, v, e))
    if ra == 1:
        e = mul(subst(ea, {ax(0): v}), subst(eb, {**{ax(rb - 2): v}, **{ax(rb - 1): ax(rb - 2)}}))
        return I.new_arr(st, sb[:-2] + sb[-1:], mk_sum(n, v, e))
    if ra == 2 and rb == 2:
        e = mul(subst(ea, {ax(1): v}), subst(eb, {ax(0): v}))
        return I.new_arr(st, (sa[0], sb[1]), mk_sum(n, v, e))
    raise _unsup('dot ranks %d %d' % (ra, rb))


def einsum(I, st, spec, ops):
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        letters = sorted(set(''.join(ins)))
        out = ''.join(l for l in letters if ''.join(ins).count(l) == 1)
    ext = {}
    vs = {}
    body = ONE
    for l in set(''.join(ins)):
        vs[l] = fresh_iv('e')
    for s, o in zip(ins, ops):
        sh, e = I.arr(st, o)
        if len(sh) != len(s):
            raise _unsup('einsum rank')
        for i, l in enumerate(s):
            if l not in ext or ext[l] is ONE:
                ext[l] = sh[i]
        body = mul(body, subst(num_of(e), {ax(i): vs[l] for i, l in enumerate(s)}))
    for l in sorted((l for l in vs if l not in out), key=lambda l: max(x.rfind(l) for x in ins), reverse=True):
        body = mk_sum(ext[l], vs[l], body)
    body = subst(body, {vs[l]: ax(i) for i, l in enumerate(out)})
    return I.new_arr(st, tuple(ext[l] for l in out), body)


def _axes(I, st, axis, r):
    if axis is None or axis is NONE:
        return list(range(r))
    if isinstance(axis, TupleV):
        return sorted(int(numval(x)) % r for x in axis.items)
    t = I.term(st, axis)
    v = numval(t)
    if v is None:
        raise _unsup('symbolic axis')
    if not -r <= v < r:
        raise _exc('ValueError')
    return [int(v) % r]


def reduce_(I, st, v, axis, f, keepdims=False, pre=None):
    """f(n, iv, body) applied over the given axes"""
    s, e = I.arr(st, v)
    if pre:
        e = pre(e)
    if not s:
        return f(ONE, fresh_iv('r'), e)
    axs = _axes(I, st, axis, len(s))
    vs = {a: fresh_iv('r') for a in axs}
    keep = [i for i in range(len(s)) if i not in axs]
    m = dict((ax(a), vs[a]) for a in axs)
    if keepdims:
        shape = tuple(ONE if i in axs else s[i] for i in range(len(s)))
    else:
        for j, i in enumerate(keep):
            m[ax(i)] = ax(j)
        shape = tuple(s[i] for i in keep)
    e = subst(e, m)
    for a in sorted(axs, reverse=True):
        e = f(s[a], vs[a], e)
    return I.new_arr(st, shape, e)


def total(I, st, v, axis):
    s, e = I.arr(st, v)
    n = ONE
    for a in _axes(I, st, axis, len(s)) if s else []:
        n = mul(n, s[a])
    return n


def _sumf(n, v, e):
    return mk_sum(n, v, num_of(e))


def lse_f(n, v, e):
    return log(mk_sum(n, v, exp(e)))


def r_sum(I, st, v, axis=None, keepdims=False):
    return reduce_(I, st, v, axis, _sumf, keepdims)


def r_lse(I, st, v, axis=None, keepdims=False):
    return reduce_(I, st, v, axis, lse_f, keepdims)


def r_mean(I, st, v, axis=None, keepdims=False):
    n = total(I, st, v, axis)
    s = r_sum(I, st, v, axis, keepdims)
    return elementwise(I, st, lambda x: div(x, n), s)


def r_var(I, st, v, axis=None, keepdims=False, ddof=ZERO):
    n = total(I, st, v, axis)
    s, e = I.arr(st, v)
    m = r_mean(I, st, v, axis, True)
    d = elementwise(I, st, lambda x, y: sub(num_of(x), y), v, m)
    q = elementwise(I, st, lambda x: power(x, 2), d)
    ss = r_sum(I, st, q, axis, keepdims)
    return elementwise(I, st, lambda x: div(x, sub(n, ddof)), ss)


# ---------------------------------------------------------------- shapes
def ravel(I, st, v):
    s, e = I.arr(st, v)
    if len(s) == 0:
        return I.new_arr(st, (ONE,), e)
    if len(s) == 1:
        return I.new_arr(st, s, e)
    if len(s) == 2:
        m = s[1]
        return I.new_arr(st, (mul(s[0], m),), subst(e, {ax(0): app('flat_t', ax(0), m), ax(1): app('flat_k', ax(0), m)}))
    if len(s) == 3:
        m = mul(s[1], s[2])
        k = app('flat_k', ax(0), m)
        return I.new_arr(st, (mul(s[0], m),), subst(e, {ax(0): app('flat_t', ax(0), m),
                                                       ax(1): app('flat_t', k, s[2]), ax(2): app('flat_k', k, s[2])}))
    raise _unsup('ravel rank')


def _flat_rule(which):
    def f(p, m):
        if m is ONE:
            return p if which == 't' else ZERO
        q = to_poly(p)
        # p = t*m + k with 0 <= k < m is recognised for k an index variable
        if p.op == 'num' and m.op == 'num':
            return num(p.args[0] // m.args[0]) if which == 't' else num(p.args[0] % m.args[0])
        return None
    return f


tm.APP_RULES['flat_t'] = _flat_rule('t')
tm.APP_RULES['flat_k'] = _flat_rule('k')


def _reshape_rule(fl, *r):
    k = len(r) // 2
    dims, idx = r[:k], r[k:]
    if all(d.op == 'num' for d in dims[1:]) and all(d.op == 'num' for d in idx):
        p = 0
        for d, i in zip(dims, idx):
            p = p * (d.args[0] if d.op == 'num' else 0) + i.args[0]
        return at(fl, num(p))
    return None


tm.APP_RULES['reshape'] = _reshape_rule


def _fold1(f):
    def rule(*a):
        if len(a) == 1 and is_num(a[0]) and isinstance(numval(a[0]), (int, Fraction)):
            return num(f(Fraction(numval(a[0]))))
        return None
    return rule


def _shift(left):
    def rule(a, b):
        if is_num(b) and numval(b) >= 0 and numval(b) == int(numval(b)):
            k = num(2 ** int(numval(b)))
            return mul(a, k) if left else app('floordiv', a, k)
        return None
    return rule


for _n, _f in (('round', round), ('rint', round), ('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc),
               ('fix', math.trunc)):
    tm.APP_RULES[_n] = _fold1(_f)
tm.APP_RULES['lshift'], tm.APP_RULES['rshift'] = _shift(True), _shift(False)


def ordered(I, st, v, dims, order):
    """reshape with a memory order; dims None for ravel"""
    o = order.args[0] if isinstance(order, T) and order.op == 'const' else None
    if order is None or order is NONE or o in ('C', 'A', 'K'):
        return reshape(I, st, v, dims) if dims is not None else ravel(I, st, v)
    if o != 'F':
        raise _unsup('memory order %r' % (order,))
    if dims is None:
        return ravel(I, st, transpose(I, st, v))
    if len(dims) == 1 and isinstance(dims[0], (TupleV, Ref)):
        d = dims[0]
        dims = list(d.items) if isinstance(d, TupleV) else list(I.cell(st, d).items)
    return transpose(I, st, reshape(I, st, transpose(I, st, v), list(dims)[::-1]))


def reshape(I, st, v, dims):
    s, e = I.arr(st, v)
    if len(dims) == 1 and isinstance(dims[0], (TupleV, Ref)):
        d = dims[0]
        dims = list(d.items) if isinstance(d, TupleV) else list(I.cell(st, d).items)
    dims = [I.term(st, d) for d in dims]
    tot = ONE
    for x in s:
        tot = mul(tot, x)
    if any(d.op == 'num' and d.args[0] == -1 for d in dims):
        rest = ONE
        for d in dims:
            if not (d.op == 'num' and d.args[0] == -1):
                rest = mul(rest, d)
        dims = [div(tot, rest) if (d.op == 'num' and d.args[0] == -1) else d for d in dims]
    if tuple(dims) == tuple(s):
        return I.new_arr(st, s, e)
    if len(dims) == 1:
        return ravel(I, st, v)
    real = [d for d in dims if d is not ONE]
    sreal = [d for d in s if d is not ONE]
    if real == sreal:
        m = {}
        src = [i for i in range(len(s)) if s[i] is not ONE]
        dst = [i for i in range(len(dims)) if dims[i] is not ONE]
        for i in range(len(s)):
            if s[i] is ONE:
                m[ax(i)] = ZERO
        for a, b in zip(src, dst):
            m[ax(a)] = ax(b)
        return I.new_arr(st, dims, subst(e, m))
    if len(s) == 1 and len(dims) == 2:
        return I.new_arr(st, dims, subst(e, {ax(0): add(mul(ax(0), dims[1]), ax(1))}))
    f = ravel(I, st, v)
    fl = lam_ax(1, I.arr(st, f)[1])
    return I.new_arr(st, dims, app('reshape', fl, *dims, *[ax(i) for i in range(len(dims))]))


def transpose(I, st, v, perm=None):
    s, e = I.arr(st, v)
    r = len(s)
    perm = perm or list(range(r))[::-1]
    if r <= 1:
        return v
    if isinstance(v, Ref) and isinstance(I.cell(st, v), Arr):
        maps = [None] * r
        for i, p in enumerate(perm):
            maps[p] = ('ax', i, ZERO, True)
        c = I.cell(st, v)
        return I.alloc(st, Arr([s[p] for p in perm], None, (v.id, tuple(maps)), c.flags, c.dt))
    return I.new_arr(st, [s[p] for p in perm], subst(e, {ax(p): ax(i) for i, p in enumerate(perm)}))


def concat(I, st, v, axis=0):
    """np.concatenate"""
    if isinstance(v, Choice):
        return I.choice_apply(st, v, lambda s, o: concat(I, s, o, axis))
    parts = None
    if isinstance(v, TupleV):
        parts = [(ONE, None, x) for x in v.items]
    elif isinstance(v, Ref):
        c = I.cell(st, v)
        if isinstance(c, ListC):
            parts = []
            for it in c.items:
                if isinstance(it, Sym):
                    parts.append((it.n, it.v, it.val))
                elif isinstance(it, Alt):
                    return app('concat', I.term(st, v))
                else:
                    parts.append((ONE, None, it))
        elif isinstance(c, Arr):
            s, e = I.arr(st, v)
            if len(s) < 2:
                raise _exc('ValueError')
            kk = fresh_iv('k')
            parts = [(s[0], kk, ArrV(s[1:], subst(e, {ax(0): kk, **{ax(i): ax(i - 1) for i in range(1, len(s))}})))]
    elif isinstance(v, IterV):
        return concat(I, st, I.to_list(st, v), axis)
    if parts is None:
        return app('concat', I.term(st, v))
    if not parts:
        raise _exc('ValueError')
    segs = []
    for n, iv, val in parts:
        if iv is None:
            s, e = I.arr(st, val)
            if not s:
                if val is NONE or (isinstance(val, T) and (val.op in ('num', 'poly') or is_scalar_app(I, val))):
                    raise _exc('ValueError')
                return app('concat', I.term(st, v))
            segs.append((s, e))
        else:
            s, e = I.arr(st, I.materialise(st, vsubst(val, {iv: ax(99)})))
            if not s:
                if isinstance(val, T) and val is NONE:
                    raise _exc('ValueError')
                return app('concat', I.term(st, v))
            if axis != 0:
                return app('concat', I.term(st, v), num(axis))
            m = subst(s[0], {ax(99): ZERO})
            if ax(99) in s[0].fv:
                return app('concat', I.term(st, v))
            e = subst(e, {ax(0): app('flat_k', ax(0), m), ax(99): app('flat_t', ax(0), m)})
            segs.append(((mul(n, m),) + tuple(s[1:]), e))
    r = len(segs[0][0])
    if any(len(s) != r for s, _ in segs):
        raise _exc('ValueError')
    a = axis % r if axis < r else axis
    off = ZERO
    out = []
    for s, e in segs:
        out.append((add(off, s[a]), subst(e, {ax(a): sub(ax(a), off)}) if off is not ZERO else e))
        off = add(off, s[a])
    e = out[-1][1]
    for o, pe in reversed(out[:-1]):
        e = ite(lt(ax(a), o), pe, e)
    shape = list(segs[0][0])
    shape[a] = off
    return I.new_arr(st, shape, e)


def stack(I, st, v, axis=0):
    s, e = I.arr(st, v)
    if axis in (0,):
        return I.new_arr(st, s, e)
    r = len(s)
    a = axis % r
    # axis 0 of the list moves to a
    order = list(range(1, r))
    order.insert(a, 0)
    m = {ax(p): ax(i) for i, p in enumerate(order)}
    return I.new_arr(st, [s[p] for p in order], subst(e, m))


# ---------------------------------------------------------------- random numbers
def shape_of(I, st, size):
    if size is None or size is NONE:
        return ()
    if isinstance(size, TupleV):
        return tuple(I.term(st, x) for x in size.items)
    if isinstance(size, Ref):
        c = I.cell(st, size)
        if isinstance(c, ListC):
            return tuple(I.term(st, x) for x in c.items)
        s, e = I.arr(st, size)
        return tuple(subst(e, {ax(0): num(i)}) for i in range(int(numval(s[0]))))
    if isinstance(size, T) and size.op == 'tuple':
        return size.args
    return (I.term(st, size),)


def draw(I, st, dist, params, size, src, node, isint=False, hi=None):
    """elementwise random draw; params are values broadcast against the size"""
    parts = [I.arr(st, p) for p in params]
    shp = shape_of(I, st, size)
    if not shp and any(p[0] for p in parts):
        shp = bshape([p[0] for p in parts])
    id_ = I.stable('r', node if node is not None else I.cur)
    base = mk('rnd', id_, *[v for v, _ in I.ivs])
    pe = [balign(s, e, shp) if s else e for s, e in parts]
    I.rnds[id_] = dict(dist=dist, params=pe, shape=shp, loops=tuple(I.loopstack), loc=I.loc(node), src=src,
                       ivs=tuple(I.ivs), stack=tuple(f for f, _ in I.callstack), base=base, pc=st.pc)
    I.lastrnd = id_
    I.event(st, 'rng', dist, tuple(params), res=base, node=node, src=src, id=id_)
    register(base, NONNULL_NUM)
    if dist in ('uniform', 'gamma', 'index', 'expon', 'perm'):
        register(base, NONNEG)
    if isint:
        register(base, INTSYMS)
    e = at(base, *[ax(i) for i in range(len(shp))])
    return shp, e


def rng_call(I, st, name, args, kw, node, src='numpy'):
    def arg(i, nm, d=None):
        if i is not None and len(args) > i:
            return args[i]
        return kw.get(nm, d)

    def fin(shp, e):
        return I.new_arr(st, shp, e)
    n = name
    if n in ('rand', 'randn'):
        size = TupleV(args)
        shp, e = draw(I, st, 'uniform' if n == 'rand' else 'normal', [], size if args else NONE, src, node)
        return fin(shp, e)
    if n in ('random', 'random_sample', 'ranf', 'sample'):
        return fin(*draw(I, st, 'uniform', [], arg(0, 'size', NONE), src, node))
    if n == 'standard_normal':
        return fin(*draw(I, st, 'normal', [], arg(0, 'size', NONE), src, node))
    if n == 'uniform':
        lo, hi = arg(0, 'low', ZERO), arg(1, 'high', ONE)
        shp, e = draw(I, st, 'uniform', [lo, hi], arg(2, 'size', NONE), src, node)
        u = fin(shp, e)
        return elementwise(I, st, lambda a, b, x: add(a, mul(sub(b, a), x)), lo, hi, u)
    if n == 'normal':
        mu, sd = arg(0, 'loc', ZERO), arg(1, 'scale', ONE)
        shp, e = draw(I, st, 'normal', [mu, sd], arg(2, 'size', NONE), src, node)
        z = fin(shp, e)
        return elementwise(I, st, lambda a, b, x: add(a, mul(b, x)), mu, sd, z)
    if n in ('gamma', 'standard_gamma'):
        k = arg(0, 'shape')
        sc = arg(1, 'scale', ONE) if n == 'gamma' else ONE
        size = arg(2, 'size', NONE) if n == 'gamma' else arg(1, 'size', NONE)
        if size is NONE or size is None:
            ps = [k, sc]
        else:
            ps = [k]
        shp, e = draw(I, st, 'gamma', ps, size, src, node)
        g = fin(shp, e)
        return elementwise(I, st, lambda x, s: mul(x, s), g, sc)
    if n == 'chisquare':
        df = arg(0, 'df')
        k = elementwise(I, st, lambda x: scale(x, Fraction(1, 2)), df)
        shp, e = draw(I, st, 'gamma', [k], arg(1, 'size', NONE), src, node)
        return elementwise(I, st, lambda x: scale(x, 2), fin(shp, e))
    if n in ('exponential', 'standard_exponential'):
        sc = arg(0, 'scale', ONE) if n == 'exponential' else ONE
        size = arg(1, 'size', NONE) if n == 'exponential' else arg(0, 'size', NONE)
        shp, e = draw(I, st, 'expon', [sc], size, src, node)
        return elementwise(I, st, mul, fin(shp, e), sc)
    if n == 'choice':
        a = arg(0, 'a')
        size = arg(1, 'size', NONE)
        replace = arg(2, 'replace', TRUE)
        p = arg(3, 'p', NONE)
        s, e = I.arr(st, a)
        if s:
            cnt = s[0]
        else:
            cnt = e
        shp, ie = draw(I, st, 'index', [], size, src, node, isint=True)
        id_ = I.lastrnd
        I.rnds[id_].update(n=cnt, replace=I.truth(st, replace), p=(None if p is NONE else (I.arr(st, p))))
        if s:
            r = len(shp)
            tail = s[1:]
            e2 = subst(e, {ax(0): ie, **{ax(i): ax(i + r - 1) for i in range(1, len(s))}})
            return I.new_arr(st, tuple(shp) + tuple(tail), e2)
        return fin(shp, ie)
    if n in ('randint', 'integers', 'random_integers'):
        lo, hi = arg(0, 'low'), arg(1, 'high', NONE)
        if hi is NONE:
            lo, hi = ZERO, lo
        shp, ie = draw(I, st, 'index', [lo, hi], arg(2, 'size', NONE), src, node, isint=True)
        id_ = I.lastrnd
        I.rnds[id_].update(n=sub(I.term(st, hi), I.term(st, lo)), replace=TRUE, p=None)
        return elementwise(I, st, add, lo, fin(shp, ie))
    if n == 'permutation':
        a = arg(0, 'x')
        s, e = I.arr(st, a)
        cnt = s[0] if s else e
        shp, ie = draw(I, st, 'perm', [], cnt, src, node, isint=True)
        id_ = I.lastrnd
        I.rnds[id_].update(n=cnt)
        if s:
            return I.new_arr(st, s, subst(e, {ax(0): ie}))
        return fin(shp, ie)
    if n == 'shuffle':
        a = args[0]
        s, e = I.arr(st, a)
        shp, ie = draw(I, st, 'perm', [], s[0], src, node, isint=True)
        id_ = I.lastrnd
        I.rnds[id_].update(n=s[0])
        if isinstance(a, Ref) and isinstance(I.cell(st, a), Arr):
            I.set_elem(st, a, subst(e, {ax(0): ie}), node, 'shuffle')
        return NONE
    if n == 'multivariate_normal':
        mu, cov = arg(0, 'mean'), arg(1, 'cov')
        size = shape_of(I, st, arg(2, 'size', NONE))
        sm, em = I.arr(st, mu)
        shp = tuple(size) + tuple(sm)
        shp2, e = draw(I, st, 'normal', [], TupleV(shp), src, node)
        v = fresh_iv('d')
        ch = app('chol', I.term(st, cov))
        r = len(size)
        body = mul(at(ch, ax(r), v), subst(e, {ax(r): v}))
        return I.new_arr(st, shp, add(subst(em, {ax(0): ax(r)}), mk_sum(sm[0], v, body)))
    if n in ('seed', 'manual_seed', 'set_state'):
        I.event(st, 'seed', src, tuple(args), kw, node=node)
        return NONE
    # other distributions: opaque draw
    shp, e = draw(I, st, 'other:' + n, [a for a in args if isinstance(a, (T, Ref)) and a is not NONE],
                  kw.get('size', NONE), src, node)
    return fin(shp, e)


# ---------------------------------------------------------------- external functions
UN = {
    'exp': exp, 'log': log, 'sqrt': sqrt, 'abs': mabs, 'absolute': mabs, 'fabs': mabs, 'isfinite': isfinite,
    'isnan': isnan, 'isinf': isinf, 'logical_not': lambda x: mnot(truth(x)), 'square': lambda x: power(x, 2),
    'log1p': lambda x: log(add(ONE, x)), 'expm1': lambda x: sub(exp(x), ONE),
    'erf': lambda x: app('erf', x), 'erfinv': lambda x: app('erfinv', x),
    'erfc': lambda x: sub(ONE, app('erf', x)),
    'ndtr': lambda x: scale(add(ONE, app('erf', div(x, sqrt(num(2))))), Fraction(1, 2)),
    'ndtri': lambda p: mul(sqrt(num(2)), app('erfinv', sub(scale(p, 2), ONE))),
    'log_ndtr': lambda x: log(scale(add(ONE, app('erf', div(x, sqrt(num(2))))), Fraction(1, 2))),
    'expit': lambda x: div(ONE, add(ONE, exp(neg(x)))), 'sigmoid': lambda x: div(ONE, add(ONE, exp(neg(x)))),
    'log_expit': lambda x: neg(log(add(ONE, exp(neg(x))))),
    'logit': lambda p: log(div(p, sub(ONE, p))), 'negative': neg, 'reciprocal': lambda x: power(x, -1),
    'positive': lambda x: x, 'log2': lambda x: div(log(x), log(num(2))), 'log10': lambda x: div(log(x), log(num(10))),
    'exp2': lambda x: tpow(num(2), x), 'isposinf': lambda x: mand(isinf(x), gt0(x)),
    'isneginf': lambda x: mand(isinf(x), gt0(neg(x))), 'real': lambda x: x, 'softplus': lambda x: log(add(ONE, exp(x))),
    'nan_to_num': None,
}
UNBOOL = {'logical_not', 'isfinite', 'isnan', 'isinf'}
UNOPQ = ('floor', 'ceil', 'rint', 'round', 'sign', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'tanh', 'sinh',
         'cosh', 'gammaln', 'digamma', 'psi', 'gamma', 'lgamma', 'trunc', 'fix', 'signbit', 'angle', 'bit_length')
BI = {
    'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div, 'power': tpow, 'pow': tpow,
    'float_power': tpow,
    'minimum': tmin, 'maximum': tmax, 'fmin': tmin, 'fmax': tmax,
    'logaddexp': lambda a, b: log(add(exp(a), exp(b))), 'mod': lambda a, b: app('mod', a, b),
    'remainder': lambda a, b: app('mod', a, b), 'floor_divide': lambda a, b: app('floordiv', a, b),
    'xlogy': lambda a, b: mul(a, log(b)), 'hypot': lambda a, b: sqrt(add(power(a, 2), power(b, 2))),
    'fmod': lambda a, b: app('fmod', a, b),
}
BIB = {
    'logical_and': lambda a, b: mand(truth(a), truth(b)), 'logical_or': lambda a, b: mor(truth(a), truth(b)),
    'bitwise_and': _band, 'bitwise_or': _bor, 'logical_xor': lambda a, b: _bxor(truth(a), truth(b)),
    'greater': lambda a, b: lt(b, a), 'greater_equal': lambda a, b: le(b, a), 'less': lt, 'less_equal': le,
    'equal': eq, 'not_equal': lambda a, b: mnot(eq(a, b)),
}
RNG_NP = ('rand', 'randn', 'random', 'random_sample', 'ranf', 'sample', 'standard_normal', 'uniform', 'normal', 'gamma',
          'standard_gamma', 'chisquare', 'exponential', 'standard_exponential', 'choice', 'randint', 'permutation',
          'shuffle', 'multivariate_normal', 'seed', 'beta', 'standard_t', 'multinomial', 'binomial', 'poisson',
          'integers', 'set_state', 'dirichlet', 'laplace', 'lognormal', 'weibull', 'standard_cauchy')
MATHISH = ('numpy.', 'torch.', 'math.', 'scipy.special.', 'torch.special.', 'torch.nn.functional.', 'torch.linalg.')


def call_ext(I, st, name, args, kw, node):
    h = I.hooks.get(name)
    if h is not None:
        r = h(I, st, ExtV(name), args, kw, node)
        if r is not NotImplemented:
            return r
    if 'out' in kw and kw['out'] is not NONE:
        kw = dict(kw)
        out = kw.pop('out')
        r = call_ext(I, st, name, args, kw, node)
        if isinstance(out, Ref) and isinstance(I.cell(st, out), Arr):
            s, e = I.arr(st, r)
            I.set_elem(st, out, bcast(e, len(s), len(I.cell(st, out).shape)), node, 'out')
        return out
    if name.startswith('builtins.'):
        return call_builtin(I, st, name[9:], args, kw, node)
    if name.startswith('numpy.random.') or name.startswith('random.'):
        n = name.split('.')[-1]
        src = 'numpy' if name.startswith('numpy.') else 'stdlib'
        if n in ('default_rng', 'RandomState', 'Generator', 'Random', 'SystemRandom', 'SeedSequence', 'PCG64',
                 'MT19937'):
            s = mk('sym', 'rng%d' % I.newid())
            I.event(st, 'rng-new', n, tuple(args), kw, res=s, node=node)
            I.rngobjs.add(s)
            return s
        if n in RNG_NP:
            return rng_call(I, st, n, args, kw, node, src)
        if n == 'get_state':
            I.event(st, 'rng-state', n, tuple(args), kw, node=node)
            return mk('app', 'rngstate')
    if name in ('torch.manual_seed', 'torch.random.manual_seed', 'torch.seed', 'torch.cuda.manual_seed',
                'torch.set_rng_state', 'torch.cuda.manual_seed_all', 'torch.mps.manual_seed'):
        I.event(st, 'seed', 'torch' if 'cuda' not in name and 'mps' not in name else 'cuda', tuple(args), kw, node=node,
                fn=name)
        return NONE
    if name in ('torch.rand', 'torch.randn', 'torch.randperm', 'torch.randint', 'torch.normal', 'torch.rand_like',
                'torch.randn_like', 'torch.multinomial', 'torch.bernoulli'):
        n = name.split('.')[-1]
        if n in ('rand', 'randn'):
            a = args[0].items if len(args) == 1 and isinstance(args[0], TupleV) else args
            return rng_call(I, st, n, list(a), {}, node, 'torch')
        if n in ('rand_like', 'randn_like'):
            s, _ = I.arr(st, args[0])
            shp, e = draw(I, st, 'uniform' if n == 'rand_like' else 'normal', [], TupleV(s), 'torch', node)
            return I.new_arr(st, shp, e)
        if n == 'randperm':
            return rng_call(I, st, 'permutation', args[:1], {}, node, 'torch')
        if n == 'multinomial':
            # torch.multinomial(weights, n, replacement)
            s, e = I.arr(st, args[0])
            shp, ie = draw(I, st, 'index', [], args[1], 'torch', node, isint=True)
            rep = args[2] if len(args) > 2 else kw.get('replacement', FALSE)
            vv = fresh_iv('k')
            tot = mk_sum(s[0], vv, subst(e, {ax(0): vv}))
            I.rnds[I.lastrnd].update(n=s[0], replace=I.truth(st, rep), p=(s, div(e, tot)))
            return I.new_arr(st, shp, ie)
        return rng_call(I, st, n, args, kw, node, 'torch')
    short = name.split('.')[-1]
    for pre in MATHISH:
        if name.startswith(pre):
            r = call_math(I, st, name, name[len(pre):], args, kw, node)
            if r is not NotImplemented:
                return r
            break
    r = call_misc(I, st, name, short, args, kw, node)
    if r is not NotImplemented:
        return r
    return opaque_call(I, st, name, args, kw, node)


def opaque_call(I, st, name, args, kw, node):
    targs = [I.term(st, a) for a in args]
    for k, v in sorted(kw.items()):
        targs.append(mk('kw', k, I.term(st, v)))
    res = app('ext', const(name), *targs)
    if name not in PURE:
        res = mk('app', 'ext', const(name), const(I.stable('o', node)), *targs)
    I.event(st, 'ext', name, tuple(args), kw, res=res, node=node)
    I.maybe_raise(st)
    return res


PURE = {'numpy.dtype', 'numpy.finfo', 'numpy.iinfo', 'torch.Size', 'numpy.errstate', 'torch.device'}


def rowlam(I, st, v):
    """(n, elem) with elem the lambda of row ax(0)"""
    s, e = I.arr(st, v)
    j = fresh_iv('j')
    return s, lam([j], subst(e, {ax(1): j}))


def call_math(I, st, name, n, args, kw, node):
    def arg(i, nm, d=None):
        return args[i] if len(args) > i else kw.get(nm, d)
    if n in UN and UN[n] is not None:
        f = UN[n]
        if n in ('exp', 'exp2', 'expm1') and args:
            I.event(st, 'exp', n, (I.arr(st, args[0]) if isinstance(args[0], (Ref, T)) else None,), node=node)
        w = kw.get('where')
        r = elementwise(I, st, (lambda x: f(num_of(x))) if n not in UNBOOL else f, args[0])
        return r
    if n in BI:
        return elementwise(I, st, _ar(BI[n]), args[0], args[1])
    if n in BIB:
        return elementwise(I, st, BIB[n], args[0], args[1])
    if n in UNOPQ and len(args) == 1:
        return elementwise(I, st, lambda x: app({'digamma': 'psi', 'lgamma': 'gammaln'}.get(n, n), x), args[0])
    if n.endswith('.reduce') and n[:-7] in ('add', 'logaddexp', 'multiply', 'minimum', 'maximum', 'logical_and',
                                            'logical_or'):
        axis = arg(1, 'axis', ZERO)
        m = {'add': 'sum', 'logaddexp': 'logsumexp', 'minimum': 'min', 'maximum': 'max', 'logical_and': 'all',
             'logical_or': 'any', 'multiply': 'prod'}[n[:-7]]
        if axis is ZERO and 'axis' not in kw and len(args) < 2:
            axis = ZERO
        return call_math(I, st, name, m, [args[0]], {'axis': axis, **({'keepdims': kw['keepdims']} if 'keepdims' in kw
                                                                      else {})}, node)
    if n in ('sum', 'nansum', 'mean', 'max', 'min', 'amax', 'amin', 'any', 'all', 'std', 'var', 'prod', 'logsumexp',
             'count_nonzero', 'nanmean', 'nanmax', 'nanmin', 'median', 'argmax', 'argmin', 'nanmedian', 'fsum'):
        v = args[0]
        axis = arg(1, 'axis', kw.get('dim', NONE))
        kd = I.truth(st, kw.get('keepdims', kw.get('keepdim', FALSE))) is TRUE
        if isinstance(v, (IterV,)) or (isinstance(v, Ref) and isinstance(I.cell(st, v), ListC)):
            pass
        w = kw.get('where')
        if w is not None and w is not TRUE and n in ('sum', 'any'):
            v = elementwise(I, st, lambda x, m: ite(m, num_of(x), ZERO), v, w)
        return reduce_named(I, st, n, v, axis, kd, kw)
    if n in ('softmax', 'log_softmax') and args:
        axis = arg(1, 'axis', kw.get('dim', NONE))
        if axis is NONE or axis is None:
            l = r_lse(I, st, args[0], NONE, False)
            return elementwise(I, st, (lambda x, y: exp(sub(x, y))) if n == 'softmax' else sub, args[0], l)
    if n == 'average':
        w = kw.get('weights', NONE)
        if w is NONE or w is None:
            return r_mean(I, st, args[0], arg(1, 'axis', NONE))
        axis = arg(1, 'axis', NONE)
        s, e = I.arr(st, args[0])
        ws, we = I.arr(st, w)
        if len(ws) == 1 and len(s) == 2:
            a = _axes(I, st, axis, 2)[0]
            wv = I.new_arr(st, (ws[0], ONE) if a == 0 else (ONE, ws[0]), we if a == 0 else subst(we, {ax(0): ax(1)}))
        else:
            wv = w
        p = elementwise(I, st, _ar(mul), args[0], wv)
        return elementwise(I, st, div, r_sum(I, st, p, axis), r_sum(I, st, w))
    if n == 'clip' or n == 'clamp':
        lo, hi = arg(1, 'a_min', kw.get('min', NONE)), arg(2, 'a_max', kw.get('max', NONE))
        v = args[0]
        if lo is not NONE:
            v = elementwise(I, st, tmax, v, lo)
        if hi is not NONE:
            v = elementwise(I, st, tmin, v, hi)
        return v
    if n == 'where':
        if len(args) == 3:
            return elementwise(I, st, lambda c, a, b: ite(truth(c), a, b), *args)
        return TupleV([flatnonzero(I, st, args[0])])
    if n == 'nonzero':
        return TupleV([flatnonzero(I, st, args[0])])
    if n == 'flatnonzero':
        return flatnonzero(I, st, args[0])
    if n == 'argwhere':
        r = flatnonzero(I, st, args[0])
        s, e = I.arr(st, r)
        return I.new_arr(st, s + (ONE,), e)
    if n == 'compress':
        return get_item(I, st, args[1], args[0])
    if n == 'take':
        ax_ = arg(2, 'axis', NONE)
        if ax_ is NONE or numval(I.term(st, ax_)) == 0:
            return get_item(I, st, args[0], args[1])
        return get_item(I, st, args[0], TupleV([SliceV(None, None, None), args[1]]))
    if n == 'index_select':
        k = numval(I.term(st, arg(1, 'dim')))
        if k is not None and k >= 0:
            return get_item(I, st, args[0], TupleV([SliceV(None, None, None)] * int(k) + [arg(2, 'index')]))
    if n == 'split' and numval(I.term(st, arg(2, 'axis', kw.get('dim', ZERO)))) == 0:
        # torch: lengths; numpy: positions
        q = arg(1, 'split_size_or_sections', kw.get('indices_or_sections'))
        it = iter_of(I, st, q) if not isinstance(q, T) else None
        if it is not None and it.items is not None and not any(isinstance(x, (Alt, Sym)) for x in it.items):
            cuts = [I.term(st, x) for x in it.items]
            tot = I.arr(st, args[0])[0][0]
            if name.startswith('torch.'):
                ends, a = [], ZERO
                for c in cuts:
                    a = add(a, c)
                    ends.append(a)
                ends = ends[:-1] if sub(a, tot) is ZERO else ends
            else:
                ends = cuts
            out, a = [], ZERO
            for e in ends + [None]:
                out.append(get_item(I, st, args[0], SliceV(a, e, None)))
                a = e
            return TupleV(out) if name.startswith('torch.') else I.alloc(st, ListC(out))
    if n == 'put':
        set_item(I, st, args[0], args[1], args[2], node)
        return NONE
    if n == 'copyto':
        w = kw.get('where')
        d = args[0]
        s, e = I.arr(st, args[1])
        old = I.elem(st, d)
        new = bcast(e, len(s), len(I.cell(st, d).shape))
        if w is not None:
            ws, we = I.arr(st, w)
            new = ite(bcast(we, len(ws), len(I.cell(st, d).shape)), new, old)
        I.set_elem(st, d, new, node, 'copyto')
        return NONE
    if n == 'putmask':
        set_item(I, st, args[0], args[1], args[2], node)
        return NONE
    if n in ('zeros', 'ones', 'empty', 'full'):
        shp = shape_of(I, st, arg(0, 'shape', arg(0, 'size')) if not (name.startswith('torch.') and len(args) > 1 and n != 'full')
                       else TupleV(args))
        dt = kw.get('dtype', args[1] if len(args) > 1 and n not in ('full',) and not name.startswith('torch.') else NONE)
        e = {'zeros': ZERO, 'ones': ONE, 'empty': UNDEF}.get(n)
        if n == 'full':
            fs, e = I.arr(st, arg(1, 'fill_value'))
            e = bcast(e, len(fs), len(shp))
            dt = kw.get('dtype', args[2] if len(args) > 2 else NONE)
        if isinstance(dt, ExtV) and dt.name.split('.')[-1] in ('bool', 'bool_'):
            e = {'zeros': FALSE, 'ones': TRUE}.get(n, e if n == 'empty' else truth(e))
        dtt = I.term(st, dt) if dt not in (None, NONE) else None
        if not shp:
            return e
        return I.alloc(st, Arr(shp, e, None, EMPTY, dtt))
    if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        s, e0 = I.arr(st, args[0])
        e = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': UNDEF}.get(n)
        if n == 'full_like':
            fs, e = I.arr(st, args[1])
            e = bcast(e, len(fs), len(s))
        dt = kw.get('dtype', NONE)
        isb = (isinstance(dt, ExtV) and dt.name.split('.')[-1] in ('bool', 'bool_')) or (dt is NONE and is_bool(e0))
        if isb:
            e = {'zeros_like': FALSE, 'ones_like': TRUE}.get(n, e)
        return I.new_arr(st, s, e)
    if n == 'fromiter':
        return to_array(I, st, 'array', args[:2], {k: v for k, v in kw.items() if k == 'dtype'}, node, name)
    if n in ('array', 'asarray', 'asanyarray', 'copy', 'ascontiguousarray', 'tensor', 'as_tensor', 'from_numpy',
             'clone', 'require', 'asfarray', 'atleast_1d', 'atleast_2d', 'Tensor', 'FloatTensor', 'float64', 'float32'):
        return to_array(I, st, n, args, kw, node, name)
    if n in ('arange',):
        a = [I.term(st, x) for x in args]
        if 'stop' in kw:
            a.append(I.term(st, kw['stop']))
        if len(a) == 1:
            return I.new_arr(st, (app('int', a[0]) if a[0].op == 'num' else a[0],), ax(0))
        if len(a) == 2:
            return I.new_arr(st, (sub(a[1], a[0]),), add(a[0], ax(0)))
        n_ = div(sub(a[1], a[0]), a[2])
        return I.new_arr(st, (n_ if n_.op != 'num' else num(-((-n_.args[0]) // 1)),), add(a[0], mul(ax(0), a[2])))
    if n == 'linspace':
        lo, hi = I.term(st, args[0]), I.term(st, args[1])
        cnt = I.term(st, arg(2, 'num', num(50)))
        ep = I.truth(st, kw.get('endpoint', TRUE)) is TRUE
        d = sub(cnt, ONE) if ep else cnt
        return I.new_arr(st, (cnt,), add(lo, mul(ax(0), div(sub(hi, lo), d))))
    if n in ('dot', 'matmul', 'inner', 'vdot', 'mm', 'mv'):
        return dot(I, st, args[0], args[1])
    if n == 'outer':
        (sa, ea), (sb, eb) = I.arr(st, args[0]), I.arr(st, args[1])
        return I.new_arr(st, (sa[0], sb[0]), mul(ea, subst(eb, {ax(0): ax(1)})))
    if n == 'einsum' and isinstance(args[0], T) and args[0].op == 'const':
        return einsum(I, st, args[0].args[0], args[1:])
    if n in ('concatenate', 'cat', 'hstack', 'vstack', 'row_stack', 'concat'):
        axis = arg(1, 'axis', kw.get('dim', ZERO))
        if n == 'hstack':
            axis = ONE if len(I.arr(st, _first(I, st, args[0]))[0]) > 1 else ZERO
        if n in ('vstack', 'row_stack') and len(I.arr(st, _first(I, st, args[0]))[0]) == 1:
            return stack(I, st, args[0], 0)
        if axis is NONE:
            return ravel(I, st, stack(I, st, args[0], 0))
        return concat(I, st, args[0], int(numval(I.term(st, axis))))
    if n in ('stack', 'column_stack'):
        axis = arg(1, 'axis', kw.get('dim', ZERO)) if n == 'stack' else ONE
        return stack(I, st, args[0], int(numval(I.term(st, axis))))
    if n in ('append',):
        axis = arg(2, 'axis', NONE)
        a, b = args[0], args[1]
        if not I.arr(st, b)[0]:
            b = I.new_arr(st, (ONE,), I.term(st, b))
        return concat(I, st, TupleV([a, b]), 0)
    if n == 'transpose':
        return transpose(I, st, args[0])
    if n in ('ravel', 'flatten'):
        return ordered(I, st, args[0], None, arg(1, 'order', NONE))
    if n == 'reshape':
        return ordered(I, st, args[0], [arg(1, 'newshape', kw.get('shape'))], arg(2, 'order', NONE))
    if n == 'squeeze':
        return squeeze(I, st, args[0], arg(1, 'axis', NONE))
    if n in ('expand_dims', 'unsqueeze'):
        a = int(numval(I.term(st, arg(1, 'axis', kw.get('dim')))))
        s, e = I.arr(st, args[0])
        a = a % (len(s) + 1)
        m = {ax(i): ax(i + 1) for i in range(a, len(s))}
        return I.new_arr(st, s[:a] + (ONE,) + s[a:], subst(e, m))
    if n == 'tile':
        reps = args[1]
        if isinstance(reps, TupleV):
            s, e = I.arr(st, args[0])
            rp = [I.term(st, x) for x in reps.items]
        else:
            s, e = I.arr(st, args[0])
            rp = [I.term(st, reps)]
        while len(rp) < len(s):
            rp = [ONE] + rp
        s2 = (ONE,) * (len(rp) - len(s)) + tuple(s)
        e = bcast(e, len(s), len(rp))
        m, out = {}, []
        for i in range(len(rp)):
            out.append(mul(s2[i], rp[i]))
            if s2[i] is ONE:
                m[ax(i)] = ZERO
            elif rp[i] is not ONE:
                m[ax(i)] = app('mod', ax(i), s2[i])
        return I.new_arr(st, out, subst(e, m))
    if n == 'repeat':
        s, e = I.arr(st, args[0])
        rp = args[1]
        rs, re_ = I.arr(st, rp)
        if not rs and not s:
            return I.new_arr(st, (re_,), e)
        if not rs and len(s) == 1:
            return I.new_arr(st, (mul(s[0], re_),), subst(e, {ax(0): app('flat_t', ax(0), re_)}))
        return opaque_arr(I, st, 'repeat', args, (fresh_sym('len'),) + tuple(s[1:]))
    if n == 'broadcast_to':
        s, e = I.arr(st, args[0])
        out = shape_of(I, st, args[1])
        return I.new_arr(st, out, balign(s, e, out))
    if n == 'shape':
        s, _ = I.arr(st, args[0])
        return TupleV(s)
    if n == 'size':
        t = ONE
        for x in I.arr(st, args[0])[0]:
            t = mul(t, x)
        return t
    if n == 'ndim':
        return num(len(I.arr(st, args[0])[0]))
    if n in ('linalg.inv', 'inv', 'linalg.cholesky', 'cholesky', 'linalg.pinv'):
        s, e = I.arr(st, args[0])
        f = 'chol' if 'chol' in n else 'inv'
        if numval(s[0]) == 1 and f == 'inv':
            return I.new_arr(st, s, power(subst(e, {ax(0): ZERO, ax(1): ZERO}), -1))
        return I.new_arr(st, s, at(app(f, lam_ax(2, e)), ax(0), ax(1)))
    if n in ('linalg.slogdet', 'slogdet'):
        s, e = I.arr(st, args[0])
        m = lam_ax(2, e)
        return TupleV([app('detsign', m), app('logabsdet', m)])
    if n in ('linalg.det', 'det'):
        s, e = I.arr(st, args[0])
        return exp(app('logabsdet', lam_ax(2, e)))
    if n in ('linalg.solve', 'solve', 'linalg.lstsq', 'linalg.solve_triangular'):
        s, e = I.arr(st, args[1])
        M = app('inv', I.term(st, args[0]))
        v = fresh_iv('d')
        return I.new_arr(st, s, mk_sum(s[0], v, mul(at(M, ax(0), v), subst(e, {ax(0): v}))))
    if n in ('linalg.norm', 'norm', 'linalg.vector_norm'):
        axis = kw.get('axis', kw.get('dim', arg(2, 'axis', NONE)))
        q = elementwise(I, st, lambda x: power(x, 2), args[0])
        return elementwise(I, st, sqrt, r_sum(I, st, q, axis))
    if n == 'cov':
        s, e = I.arr(st, args[0])
        rv = I.truth(st, arg(2, 'rowvar', TRUE))
        if rv is FALSE and len(s) == 2:
            s, e = s[::-1], subst(e, {ax(0): ax(1), ax(1): ax(0)})
        elif rv is not TRUE or arg(1, 'y', NONE) is not NONE:
            return opaque_call(I, st, 'numpy.cov', args, kw, node)
        w, fw, dd = arg(6, 'aweights', NONE), arg(5, 'fweights', NONE), arg(4, 'ddof', NONE)
        dd = I.term(st, dd) if dd is not NONE else NONE
        if dd is NONE:
            b = I.truth(st, arg(3, 'bias', FALSE))
            dd = ONE if b is FALSE else ZERO if b is TRUE else fresh_sym('ddof')
        if fw is not NONE or dd is not ONE and w is not NONE:
            return opaque_call(I, st, 'numpy.cov', args, kw, node)
        d = app('cov', lam_ax(len(s), e), I.term(st, w))
        k = ONE
        if dd is not ONE:
            nn = s[-1]
            k = div(sub(nn, ONE), sub(nn, dd))
        if len(s) == 1:
            return mul(k, at(d, ZERO, ZERO))
        return I.new_arr(st, (s[0], s[0]), mul(k, at(d, ax(0), ax(1))))
    if n == 'diag':
        s, e = I.arr(st, args[0])
        if len(s) == 2:
            return I.new_arr(st, (s[0],), subst(e, {ax(1): ax(0)}))
        return I.new_arr(st, (s[0], s[0]), ite(eq(ax(0), ax(1)), e, ZERO))
    if n in ('eye', 'identity'):
        k = I.term(st, args[0])
        return I.new_arr(st, (k, k), ite(eq(ax(0), ax(1)), ONE, ZERO))
    if n == 'trace':
        s, e = I.arr(st, args[0])
        v = fresh_iv('d')
        return mk_sum(s[0], v, subst(e, {ax(0): v, ax(1): v}))
    if n in ('cumsum', 'cumprod', 'logcumsumexp', 'logaddexp.accumulate', 'add.accumulate'):
        s, e = I.arr(st, args[0])
        if len(s) == 1 and n in ('cumsum', 'add.accumulate'):
            v = fresh_iv('d')
            return I.new_arr(st, s, mk_sum(add(ax(0), ONE), v, subst(e, {ax(0): v})))
        return I.new_arr(st, s, mk('app', n, lam_ax(len(s), e), *[ax(i) for i in range(len(s))]))
    if n in ('argsort', 'sort', 'flip', 'flipud', 'unique', 'diff'):
        s, e = I.arr(st, args[0])
        if n in ('flip', 'flipud'):
            return I.new_arr(st, s, subst(e, {ax(0): sub(sub(s[0], ONE), ax(0))}))
        L = lam_ax(len(s), e)
        if n == 'diff' and len(s) == 1:
            return I.new_arr(st, (sub(s[0], ONE),), sub(subst(e, {ax(0): add(ax(0), ONE)}), e))
        if n == 'argsort':
            x = mk('app', 'argsort', L, ax(0))
            return I.new_arr(st, s, x)
        if n == 'sort' and len(s) == 1:
            return I.new_arr(st, s, subst(e, {ax(0): mk('app', 'argsort', L, ax(0))}))
        return I.new_arr(st, (fresh_sym('len'),) if n == 'unique' else s, mk('app', n, L, ax(0)))
    if n in ('percentile', 'quantile', 'nanpercentile'):
        s, e = I.arr(st, args[0])
        q = args[1]
        if n == 'quantile':
            q = elementwise(I, st, lambda x: scale(x, 100), q)
        L = lam_ax(len(s), e)
        return elementwise(I, st, lambda x: app('percentile', L, x), q)
    if n == 'searchsorted':
        s, e = I.arr(st, args[0])
        L = lam_ax(1, e)
        side = kw.get('side', args[2] if len(args) > 2 else const('left'))
        cnt = s[0]
        v = fresh_iv('q')

        def f(x):
            el = at(L, v)
            c = lt(el, x) if side is const('left') else le(el, x)
            return mk_sum(cnt, v, ite(c, ONE, ZERO))
        return elementwise(I, st, f, args[1])
    if n == 'bincount':
        s, e = I.arr(st, args[0])
        v = fresh_iv('q')
        ml = kw.get('minlength', fresh_sym('len'))
        return I.new_arr(st, (I.term(st, ml),), mk_sum(s[0], v, ite(eq(subst(e, {ax(0): v}), ax(0)), ONE, ZERO)))
    if n == 'isin' or n == 'in1d':
        s, e = I.arr(st, args[1])
        v = fresh_iv('q')
        el = subst(e, {ax(0): v}) if s else e
        return elementwise(I, st, lambda x: binder('any', s[0], v, eq(el, x)) if s else eq(el, x), args[0])
    if n in ('isclose', 'allclose', 'array_equal'):
        r = elementwise(I, st, lambda a, b: app_bool('isclose', a, b) if n != 'array_equal' else eq(a, b), *args[:2])
        return r if n == 'isclose' else reduce_named(I, st, 'all', r, NONE, False, {})
    if n == 'issubdtype':
        return TRUE if True else None
    if n in ('isscalar',):
        return TRUE if isinstance(args[0], T) and not I.arr(st, args[0])[0] else FALSE
    if n == 'nan_to_num':
        nv = kw.get('nan', ZERO)
        return elementwise(I, st, lambda x, d: ite(isnan(x), d, x), args[0], nv)
    if n in ('int64', 'int32', 'int_', 'intp', 'uint32', 'int'):
        return elementwise(I, st, lambda x: app('int', x), args[0])
    if n in ('float_', 'double', 'float16', 'longdouble', 'float'):
        return elementwise(I, st, lambda x: num_of(x), args[0])
    if n in ('bool_',):
        return elementwise(I, st, truth, args[0])
    if n in ('no_grad', 'enable_grad', 'inference_mode', 'set_grad_enabled'):
        return mk('app', 'ctx', const(n))
    if n in ('set_num_threads', 'set_default_dtype', 'seterr'):
        I.event(st, 'ext', name, tuple(args), kw, node=node)
        return NONE
    if n == 'vectorize' or n == 'frompyfunc':
        f = args[0]
        return PartialV(ExtV('builtins.$vecapply'), [f], {})
    if n == 'apply_along_axis':
        f, a, x = args[0], numval(I.term(st, args[1])), args[2]
        s, e = I.arr(st, x)
        if len(s) == 2 and a in (1, -1):
            k = fresh_iv('k')
            I.ivs.append((k, s[0]))
            try:
                r = I.call(st, f, [get_item(I, st, x, k)] + list(args[3:]), {}, node)
            finally:
                I.ivs.pop()
            l = I.alloc(st, ListC([Sym(s[0], k, I.by_value(st, r))]))
            return to_array(I, st, 'array', [l], {}, node, name)
    if n in ('digitize', 'histogram', 'interp', 'trapz', 'cross', 'kron', 'linalg.eigh', 'linalg.eigvalsh', 'linalg.svd',
             'linalg.qr', 'meshgrid', 'isreal', 'roll', 'delete', 'insert', 'partition', 'argpartition', 'corrcoef',
             'triu', 'tril', 'maximum.accumulate', 'minimum.accumulate', 'union1d', 'setdiff1d', 'lexsort', 'ix_'):
        if n == 'setdiff1d':
            # arange(n) minus an index set
            s, e = I.arr(st, args[0])
            s2, e2 = I.arr(st, args[1])
            if e is ax(0):
                q = fresh_iv('q')
                if e2.op == 'sel':
                    ml = lam_ax(1, mnot(at(e2.args[1], ax(0))))
                else:
                    ml = lam_ax(1, mnot(binder('any', s2[0], q, eq(subst(e2, {ax(0): q}), ax(0)))))
                return I.new_arr(st, (count(s[0], ml),), sel(s[0], ml, ax(0)))
        s = I.arr(st, args[0])[0] if args else ()
        return opaque_arr(I, st, n, args, s)
    return NotImplemented


def app_bool(n, *a):
    return mk('bool', mk('app', n, *a))


def opaque_arr(I, st, n, args, shape):
    t = mk('app', n, *[I.term(st, a) for a in args])
    I.note('opaque array operation %s' % n)
    return I.new_arr(st, shape, at(t, *[ax(i) for i in range(len(shape))]))


def _first(I, st, v):
    it = iter_of(I, st, v)
    return it.items[0] if it.items is not None else it.get(st, ZERO)


def flatnonzero(I, st, v):
    s, e = I.arr(st, v)
    e = truth(e)
    if len(s) != 1:
        raise _unsup('nonzero rank')
    ml = lam_ax(1, e)
    return I.new_arr(st, (count(s[0], ml),), sel(s[0], ml, ax(0)))


def squeeze(I, st, v, axis=NONE):
    s, e = I.arr(st, v)
    if axis is NONE or axis is None:
        drop = [i for i in range(len(s)) if s[i] is ONE]
    else:
        drop = _axes(I, st, axis, len(s))
    keep = [i for i in range(len(s)) if i not in drop]
    m = {ax(i): ZERO for i in drop}
    for j, i in enumerate(keep):
        m[ax(i)] = ax(j)
    return I.new_arr(st, [s[i] for i in keep], subst(e, m))


def reduce_named(I, st, n, v, axis, kd, kw):
    if n in ('sum', 'nansum', 'fsum'):
        return r_sum(I, st, v, axis, kd)
    if n == 'count_nonzero':
        return reduce_(I, st, v, axis, lambda m, k, e: mk_sum(m, k, e if not is_bool(e) else ite(e, ONE, ZERO)), kd,
                       pre=lambda e: ite(truth(e), ONE, ZERO))
    if n in ('mean', 'nanmean'):
        return r_mean(I, st, v, axis, kd)
    if n in ('max', 'amax'):
        return reduce_(I, st, v, axis, lambda m, k, e: binder('maxb', m, k, e), kd, pre=num_of)
    if n in ('min', 'amin'):
        return reduce_(I, st, v, axis, lambda m, k, e: binder('minb', m, k, e), kd, pre=num_of)
    if n == 'any':
        return reduce_(I, st, v, axis, lambda m, k, e: binder('any', m, k, e), kd, pre=truth)
    if n == 'all':
        return reduce_(I, st, v, axis, lambda m, k, e: binder('all', m, k, e), kd, pre=truth)
    if n == 'logsumexp':
        b = kw.get('b')
        if b is not None and b is not NONE:
            e = elementwise(I, st, lambda x, w: mul(w, exp(x)), v, b)
            return elementwise(I, st, log, r_sum(I, st, e, axis, kd))
        return r_lse(I, st, v, axis, kd)
    if n in ('var', 'std'):
        dd = I.term(st, kw.get('ddof', kw.get('correction', ZERO)))
        r = r_var(I, st, v, axis, kd, dd)
        return r if n == 'var' else elementwise(I, st, sqrt, r)
    s, e = I.arr(st, v)
    if n == 'prod':
        return reduce_(I, st, v, axis, lambda m, k, b: exp(mk_sum(m, k, log(b))) if numval(m) is None else
                       mul(*[subst(b, {k: num(i)}) for i in range(int(numval(m)))]), kd, pre=num_of)
    return reduce_(I, st, v, axis, lambda m, k, b: mk('app', n, m, lam([k], b)), kd)


def to_array(I, st, n, args, kw, node, name):
    if not args:
        return NotImplemented
    v = args[0]
    if isinstance(v, Choice):
        return I.choice_apply(st, v, lambda s, o: to_array(I, s, n, [o] + list(args[1:]), kw, node, name))
    if isinstance(v, IterV):
        v = I.to_list(st, v)
    dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
    dtt = I.term(st, dt) if dt is not NONE else None
    isref = isinstance(v, Ref) and isinstance(I.cell(st, v), Arr)
    cp = kw.get('copy')
    if isref and n in ('asarray', 'asanyarray', 'ascontiguousarray', 'as_tensor', 'from_numpy', 'require') or \
            (isref and n == 'array' and cp is FALSE):
        c = I.cell(st, v)
        if dtt is None or dtt is c.dt or (isinstance(dt, ExtV) and dt.name.split('.')[-1] in ('float', 'float64')):
            return v
    if isref and n == 'copy' or isref and n == 'clone':
        dtt = I.cell(st, v).dt
    s, e = I.arr(st, v)
    if n in ('float64', 'float32') or not s and n in ('array', 'asarray', 'copy', 'asanyarray', 'tensor', 'as_tensor',
                                                     'clone'):
        if not s:
            return num_of(e) if n in ('float64', 'float32') else e
    if n == 'atleast_1d':
        if len(s) >= 1:
            return v if isref else I.new_arr(st, s, e)
        return I.new_arr(st, (ONE,), e)
    if n == 'atleast_2d':
        if len(s) == 0:
            return I.new_arr(st, (ONE, ONE), e)
        if len(s) == 1:
            return I.new_arr(st, (ONE,) + s, subst(e, {ax(0): ax(1)}))
        return v if isref else I.new_arr(st, s, e)
    if isinstance(dt, ExtV) and dt.name.split('.')[-1] in ('bool', 'bool_'):
        e = truth(e)
    elif isinstance(dt, ExtV) and dt.name.split('.')[-1] in ('int', 'int64', 'int32', 'long'):
        e = app('int', num_of(e))
    elif isinstance(dt, ExtV) and dt.name.split('.')[-1] in ('float', 'float64', 'float32', 'double'):
        e = num_of(e)
    if isinstance(v, Ref) and isinstance(I.cell(st, v), ListC) and not len(I.cell(st, v).items):
        return I.alloc(st, Arr((ZERO,), UNDEF))
    if not s:
        return e
    return I.alloc(st, Arr(s, e, None, EMPTY, dtt))


def call_misc(I, st, name, short, args, kw, node):
    def arg(i, nm, d=None):
        return args[i] if len(args) > i else kw.get(nm, d)
    if name in ('copy.copy',):
        return shallow(I, st, args[0])
    if name == 'copy.deepcopy':
        I.event(st, 'deepcopy', '', tuple(args), node=node)
        return deep(I, st, args[0])
    if name in ('functools.partial',):
        return PartialV(args[0], args[1:], kw)
    if name in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
        return ExtV('builtins.$identity')
    if name in ('itertools.chain',):
        l = I.alloc(st, ListC([]))
        for a in args:
            I.list_extend(st, l, a, node)
        return l
    if name == 'itertools.repeat':
        if len(args) > 1:
            v = args[0]
            return IterV(n=I.term(st, args[1]), get=lambda st, k: v)
        v = args[0]
        return IterV(n=fresh_sym('inf'), get=lambda st, k: v, note='inf')
    if name == 'itertools.count':
        s = I.term(st, arg(0, 'start', ZERO))
        return IterV(n=mk('sym', 'inflen'), get=lambda st, k: add(s, k), note='inf')
    if name in ('operator.add', 'operator.mul', 'operator.sub'):
        return binop(I, st, {'add': 'Add', 'mul': 'Mult', 'sub': 'Sub'}[short], args[0], args[1], node)
    if name == 'functools.reduce':
        it = iter_of(I, st, args[1])
        if it.items is not None:
            acc = args[2] if len(args) > 2 else it.items[0]
            for x in (it.items if len(args) > 2 else it.items[1:]):
                acc = I.call(st, args[0], [acc, x], {}, node)
            return acc
    if name in ('pathlib.Path', 'os.fspath', 'pathlib.PurePath', 'os.path.abspath', 'os.path.normpath',
                'os.path.expanduser'):
        if not args:
            return const('.')
        r = I.term(st, args[0])
        for x in args[1:]:
            r = app('pathjoin', r, I.term(st, x))
        return r
    if name == 'os.path.join':
        r = I.term(st, args[0])
        for x in args[1:]:
            r = app('pathjoin', r, I.term(st, x))
        return r
    if name == 'os.path.dirname':
        return path_attr(I.term(st, args[0]), 'parent')
    if name == 'os.path.basename':
        return path_attr(I.term(st, args[0]), 'name')
    if name in ('os.rename', 'os.replace', 'shutil.move', 'os.link', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2',
                'os.remove', 'os.unlink', 'os.makedirs', 'os.mkdir', 'os.fsync', 'os.fdatasync', 'shutil.rmtree',
                'os.truncate', 'os.close', 'os.symlink'):
        I.event(st, 'os', short if not name.startswith('shutil') else 'shutil.' + short,
                tuple(I.term(st, a) for a in args), kw, node=node)
        I.maybe_raise(st)
        return NONE
    if name in ('os.open',):
        f = mk('file', I.term(st, args[0]), I.term(st, args[1]), I.newid())
        I.event(st, 'os', 'os.open', tuple(I.term(st, a) for a in args), kw, res=f, node=node)
        return f
    if name == 'os.fdopen':
        return args[0]
    if name in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
        return mk('bool', mk('app', 'exists', I.term(st, args[0])))
    if name in ('os.getpid', 'os.cpu_count', 'time.time', 'time.perf_counter', 'time.monotonic', 'os.urandom',
                'time.time_ns', 'time.process_time', 'datetime.datetime.now', 'uuid.uuid4', 'multiprocessing.cpu_count'):
        I.event(st, 'impure', name, tuple(args), kw, node=node)
        r = mk('app', 'impure', const(name), num(I.newid()))
        return r
    if short in ('NamedTemporaryFile', 'mkstemp', 'TemporaryFile', 'mktemp', 'TemporaryDirectory', 'mkdtemp') and \
            name.startswith('tempfile.'):
        tdir = kw.get('dir', NONE)
        tp = mk('app', 'tempfile', I.term(st, tdir), num(I.newid()))
        f = mk('file', tp, const('wb'), I.newid())
        I.event(st, 'open', 'tempfile', (tp, const('wb')), kw, res=f, node=node)
        if short == 'mkstemp':
            return TupleV([f, tp])
        return f
    if short in ('dump', 'dumps', 'load', 'loads') and name.split('.')[0] in ('dill', 'pickle', 'cloudpickle', '_pickle',
                                                                              'joblib'):
        if short == 'dump':
            obj, f = arg(0, 'obj'), arg(1, 'file')
            I.event(st, 'dump', name, (obj, f), kw, node=node, snap=I.snapshot(st, obj))
            I.maybe_raise(st)
            return NONE
        if short == 'dumps':
            obj = arg(0, 'obj')
            r = mk('app', 'dumps', num(I.newid()))
            I.event(st, 'dumps', name, (obj,), kw, res=r, node=node, snap=I.snapshot(st, obj))
            I.maybe_raise(st)
            return r
        f = arg(0, 'file', arg(0, 'str'))
        r = getattr(I, 'loaded', None)
        I.event(st, 'load', name, (f,), kw, node=node)
        I.maybe_raise(st)
        return r if r is not None else sym('loaded')
    if name in ('warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'logging.info', 'logging.debug',
                'logging.warning', 'atexit.register', 'gc.collect'):
        I.event(st, 'ext', name, tuple(args), kw, node=node)
        return NONE
    if name in ('sys.exit',):
        raise _exc('SystemExit')
    if short in ('Pool', 'ProcessPoolExecutor', 'ThreadPoolExecutor', 'ProcessPool', 'ThreadPool'):
        p = mk('app', 'Pool', *[I.term(st, a) for a in args], *[mk('kw', k, I.term(st, v)) for k, v in sorted(kw.items())])
        I.event(st, 'pool-new', name, tuple(args), kw, res=p, node=node)
        return p
    if name.startswith('scipy.stats.'):
        return call_scipy_stats(I, st, name, short, args, kw, node)
    if name.startswith('builtins.object.'):
        return NONE
    if name in ('collections.OrderedDict', 'collections.defaultdict'):
        if name.endswith('defaultdict'):
            return I.alloc(st, DictC({}, None))
        return call_builtin(I, st, 'dict', args, kw, node)
    if name == 'collections.deque':
        return call_builtin(I, st, 'list', args[:1], {}, node)
    if name == 'collections.namedtuple':
        return ExtV('builtins.$namedtuple')
    if name in ('dataclasses.field',):
        return app('dcfield', *[I.term(st, a) for a in args])
    if name in ('dataclasses.asdict',):
        c = I.cell(st, args[0])
        return I.alloc(st, DictC(dict(c.attrs)))
    if name in ('contextlib.suppress', 'contextlib.nullcontext', 'contextlib.closing'):
        return mk('app', 'ctx', const(short))
    if name in ('math.isclose',):
        return app_bool('isclose', *[I.term(st, a) for a in args])
    return NotImplemented


def call_scipy_stats(I, st, name, short, args, kw, node):
    parts = name.split('.')
    if len(parts) == 4 and parts[2] == 'norm':
        x = args[0] if args else None
        loc = args[1] if len(args) > 1 else kw.get('loc', ZERO)
        sc = args[2] if len(args) > 2 else kw.get('scale', ONE)
        if short in ('cdf', 'ppf', 'logpdf', 'pdf', 'logcdf'):
            def f(x, m, s):
                if short == 'ppf':
                    return add(m, mul(s, UN['ndtri'](x)))
                z = div(sub(x, m), s)
                if short == 'cdf':
                    return UN['ndtr'](z)
                if short == 'logcdf':
                    return log(UN['ndtr'](z))
                l = sub(scale(mul(z, z), Fraction(-1, 2)), add(log(s), scale(log(mul(num(2), PI)), Fraction(1, 2))))
                return l if short == 'logpdf' else exp(l)
            return elementwise(I, st, f, x, loc, sc)
    if short == 'rvs':
        shp, e = draw(I, st, 'other:' + name, [], kw.get('size', NONE), 'numpy' if 'random_state' not in kw else 'other',
                      node)
        return I.new_arr(st, shp, e)
    return NotImplemented


def shallow(I, st, v):
    if isinstance(v, Ref):
        c = I.cell(st, v)
        if isinstance(c, Arr):
            s, e = I.arr(st, v)
            return I.alloc(st, Arr(s, e, None, EMPTY, c.dt))
        if isinstance(c, ListC):
            return I.alloc(st, ListC(c.items, EMPTY, c.isset))
        if isinstance(c, DictC):
            return I.alloc(st, DictC(dict(c.items), c.base))
        if isinstance(c, ObjC):
            return I.alloc(st, ObjC(c.cls, dict(c.attrs), c.base))
    if isinstance(v, ObjDict):
        c = I.cell(st, Ref(v.id))
        return I.alloc(st, DictC(dict(c.attrs), c.base))
    return v


def deep(I, st, v, depth=0):
    if depth > 8:
        return v
    if isinstance(v, Ref):
        c = I.cell(st, v)
        if isinstance(c, ObjC) and c.cls is not None and c.cls.find('__deepcopy__') is not None:
            return I.call_func(st, c.cls.find('__deepcopy__'), [v, NONE], {}, None)
        r = shallow(I, st, v)
        d = I.cell(st, r)
        if isinstance(c, ListC):
            st.heap[r.id] = ListC([x if isinstance(x, (Alt, Sym)) else deep(I, st, x, depth + 1) for x in c.items],
                                  EMPTY, c.isset)
        elif isinstance(c, DictC):
            st.heap[r.id] = DictC({k: deep(I, st, x, depth + 1) for k, x in c.items.items()}, c.base)
        elif isinstance(c, ObjC):
            st.heap[r.id] = ObjC(c.cls, {k: deep(I, st, x, depth + 1) for k, x in c.attrs.items()}, c.base)
        return r
    if isinstance(v, TupleV):
        return TupleV([deep(I, st, x, depth + 1) for x in v.items], v.cls)
    if isinstance(v, Choice):
        return Choice(v.c, deep(I, st, v.a, depth + 1), deep(I, st, v.b, depth + 1))
    return v


# ---------------------------------------------------------------- builtins
NUMOPS = ('num', 'poly', 'exp', 'log', 'sum', 'min', 'max', 'abs', 'inf', 'nan', 'maxb', 'minb')


def length(I, st, v):
    v = I.narrow(st, v)
    if isinstance(v, TupleV):
        return num(len(v.items))
    if isinstance(v, (IterV, RangeV)):
        it = iter_of(I, st, v)
        return num(len(it.items)) if it.items is not None else it.n
    if isinstance(v, ObjDict):
        return num(len(I.cell(st, Ref(v.id)).attrs))
    if isinstance(v, Ref):
        c = I.cell(st, v)
        if isinstance(c, Arr):
            return c.shape[0]
        if isinstance(c, ListC):
            return I.list_len(c)
        if isinstance(c, DictC):
            if c.base is None and all(not isinstance(x, Choice) for x in c.items.values()):
                return num(len([x for x in c.items.values() if x is not MISSING]))
            return app('len', I.term(st, v))
        if isinstance(c, ObjC) and c.cls is not None:
            m = c.cls.find('__len__')
            if m is not None:
                return I.call_func(st, m, [v], {}, None)
            if c.base is None:
                raise _exc('TypeError')
        return app('len', I.term(st, v))
    if isinstance(v, Choice):
        return I.choice_apply(st, v, lambda s, o: length(I, s, o))
    if isinstance(v, T):
        if v.op == 'const' and isinstance(v.args[0], (str, bytes)):
            return num(len(v.args[0]))
        if v.op == 'tuple':
            return num(len(v.args))
        if v is NONE or v.op in NUMOPS or is_bool(v) or is_scalar_app(I, v) or v in I.scalars:
            raise _exc('TypeError')
        if v.op == 'ite':
            return I.choice_apply(st, Choice(*v.args), lambda s, o: length(I, s, o))
        r = app('len', v)
        return I.lens.get(v, r)
    raise _exc('TypeError')


TYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'bytes'}


def type_is(I, st, v, t):
    """isinstance(v, t) for one type name; None if unknown"""
    short = t.split('.')[-1]
    v = I.narrow(st, v)
    if isinstance(v, T):
        ty = I.symtypes.get(v)
        if ty is not None:
            tys = ty if isinstance(ty, tuple) else (ty,)
            return t in tys or short in tys
        if v.op == 'num':
            isint = v.args[0].denominator == 1
            if short in ('int', 'integer', 'Integral', 'int64'):
                return isint
            if short in ('float', 'Number', 'Real', 'floating', 'float64'):
                return True if not isint or short in ('Number', 'Real') else False
            return False
        if v.op == 'const':
            if isinstance(v.args[0], bool):
                return short in ('bool', 'int', 'Number', 'Integral', 'bool_')
            if isinstance(v.args[0], str):
                return short == 'str'
            if v.args[0] is None:
                return short == 'NoneType'
        if v.op in ('strcat', 'fmt'):
            return short == 'str'
        if v.op in NUMOPS or is_bool(v):
            if short in ('float', 'int', 'number', 'Number', 'Real', 'floating', 'integer'):
                return None
            return False
        return None
    if isinstance(v, TupleV):
        return short in ('tuple', 'Sequence', 'Iterable')
    if isinstance(v, Ref):
        c = I.cell(st, v)
        if isinstance(c, ListC):
            return short in (('set',) if c.isset else ('list', 'Sequence', 'Iterable'))
        if isinstance(c, DictC):
            return short in ('dict', 'Mapping')
        if isinstance(c, Arr):
            return short in ('ndarray', 'Tensor')
        if isinstance(c, ObjC):
            if c.cls is None:
                return None
            def anc(cl):
                if isinstance(cl, ClassV):
                    yield cl.name
                    for b in cl.bases:
                        yield from anc(b)
                elif isinstance(cl, ExtV):
                    yield cl.name
                    yield cl.name.split('.')[-1]
            return short in set(anc(c.cls))
    if isinstance(v, (FuncV, BoundV, ClassV, ExtV, MethV, PartialV)):
        return short in ('Callable', 'FunctionType', 'type') if short in ('Callable', 'FunctionType') else False
    if isinstance(v, Choice):
        return None
    return False


def isinstance_(I, st, v, t):
    if isinstance(v, Choice):
        return ite(v.c, isinstance_(I, st, v.a, t), isinstance_(I, st, v.b, t))
    if isinstance(t, TupleV):
        return mor(*[isinstance_(I, st, v, x) for x in t.items])
    if isinstance(v, T) and v.op == 'ite' and not is_bool(v):
        return ite(v.args[0], isinstance_(I, st, v.args[1], t), isinstance_(I, st, v.args[2], t))
    tn = t.name if isinstance(t, (ExtV, ClassV)) else str(t)
    if isinstance(v, T) and v in I.symtypes:
        return TRUE if tn.split('.')[-1] in I.symtypes[v] else FALSE
    r = type_is(I, st, v, tn)
    if r is None:
        return mk('bool', mk('app', 'isinstance', I.term(st, v), const(tn.split('.')[-1])))
    return TRUE if r else FALSE


def call_builtin(I, st, n, args, kw, node):
    def arg(i, nm, d=None):
        return args[i] if len(args) > i else kw.get(nm, d)
    if n == 'len':
        return length(I, st, args[0])
    if n == 'range':
        a = [I.term(st, x) for x in args]
        for x in a:
            if x.op == 'num' and x.args[0].denominator != 1:
                raise _exc('TypeError')
        if len(a) == 1:
            return RangeV(ZERO, a[0], ONE)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else ONE)
    if n == 'float':
        v = I.narrow(st, args[0])
        if isinstance(v, TupleV):
            raise _exc('TypeError')
        if isinstance(v, Choice):
            return I.choice_apply(st, v, lambda s, o: call_builtin(I, s, n, [o], {}, node))
        if v is NONE:
            raise _exc('TypeError')
        if isinstance(v, T) and v.op == 'const' and isinstance(v.args[0], str):
            try:
                return num(float(v.args[0]))
            except ValueError:
                raise _exc('ValueError')
        s, e = I.arr(st, v)
        if s:
            e = subst(e, {ax(i): ZERO for i in range(len(s))})
        return num_of(e)
    if n == 'int':
        if not args:
            return ZERO
        v = I.narrow(st, args[0])
        if v is NONE:
            raise _exc('TypeError')
        if is_str(v) and len(args) == 1:
            try:
                return num(int(v.args[0]))
            except ValueError:
                raise _exc('ValueError')
        if isinstance(v, Choice) or (isinstance(v, T) and v.op == 'ite' and NONE in v.args):
            ch = v if isinstance(v, Choice) else Choice(*v.args)
            return I.choice_apply(st, ch, lambda s, o: call_builtin(I, s, n, [o], {}, node))
        s, e = I.arr(st, v)
        if s:
            e = subst(e, {ax(i): ZERO for i in range(len(s))})
        return app('int', num_of(e))
    if n == 'bool':
        return I.truth(st, args[0]) if args else FALSE
    if n in ('str', 'repr', 'format', 'ascii', 'hex', 'oct', 'chr'):
        if not args:
            return const('')
        t = I.term(st, args[0])
        if n == 'str' and (is_str(t) or t.op in ('sym', 'attr')):
            return t
        if n == 'str' and t.op == 'num':
            return strcat([t])
        return app('str', t)
    if n == 'abs':
        return elementwise(I, st, mabs, args[0])
    if n == 'round':
        return elementwise(I, st, lambda x: app('round', x), args[0])
    if n == 'pow':
        return elementwise(I, st, _ar(tpow), args[0], args[1])
    if n == 'divmod':
        return TupleV([binop(I, st, 'FloorDiv', args[0], args[1]), binop(I, st, 'Mod', args[0], args[1])])
    if n in ('min', 'max'):
        f = tmin if n == 'min' else tmax
        if len(args) == 1:
            it = iter_of(I, st, args[0])
            if 'key' in kw:
                return mk('app', n + 'key', I.term(st, args[0]), I.term(st, kw['key']))
            if it.items is not None:
                if not it.items:
                    if 'default' in kw:
                        return kw['default']
                    raise _exc('ValueError')
                return f(*[I.term(st, x) for x in it.items])
            k = fresh_iv('k')
            I.ivs.append((k, it.n))
            try:
                e = I.term(st, it.get(st, k))
            finally:
                I.ivs.pop()
            return binder(n + 'b', it.n, k, e)
        return f(*[num_of(I.term(st, x)) if not isinstance(x, Ref) else I.term(st, x) for x in args])
    if n in ('sum', 'any', 'all'):
        it = iter_of(I, st, args[0])
        start = arg(1, 'start', ZERO)
        if it.items is not None:
            if n == 'sum':
                acc = start
                for x in it.items:
                    if isinstance(x, Alt):
                        x = ite(x.c, I.term(st, x.a[0]) if x.a else ZERO, ZERO)
                    acc = binop(I, st, 'Add', acc, x, node)
                return acc
            vs = []
            for x in it.items:
                vs.append(mand(x.c, I.truth(st, x.a[0])) if isinstance(x, Alt) else I.truth(st, x))
            return (mor if n == 'any' else mand)(*vs)
        k = fresh_iv('k')
        I.ivs.append((k, it.n))
        try:
            x = it.get(st, k)
        finally:
            I.ivs.pop()
        if n == 'sum':
            s, e = I.arr(st, x)
            r = I.new_arr(st, s, mk_sum(it.n, k, num_of(e)))
            return binop(I, st, 'Add', start, r, node) if start is not ZERO else r
        return binder(n, it.n, k, I.truth(st, x))
    if n in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            return I.alloc(st, ListC([], isset=n in ('set', 'frozenset'))) if n != 'tuple' else TupleV(())
        v = args[0]
        if isinstance(v, Choice):
            v = I.narrow(st, v)
        if n == 'tuple':
            if isinstance(v, TupleV):
                return v
            it = iter_of(I, st, v)
            if it.items is not None and not any(isinstance(x, (Alt, Sym)) for x in it.items):
                return TupleV(it.items)
            return I.to_list(st, v)
        r = I.to_list(st, v)
        c = I.cell(st, r)
        if n in ('set', 'frozenset'):
            st.heap[r.id] = ListC(once(I, st, c.items) if c.concrete() else c.items, EMPTY, True)
        return r
    if n == 'dict.fromkeys':
        it = iter_of(I, st, args[0])
        if it.items is not None and not any(isinstance(x, (Alt, Sym)) for x in it.items):
            v = arg(1, 'value', NONE)
            return I.alloc(st, DictC({I.key(x): v for x in once(I, st, it.items)}))
    if n == 'dict':
        r = I.alloc(st, DictC({}))
        if args:
            it, b = dict_items(I, st, args[0])
            st.heap[r.id] = DictC(dict(it), b)
        k2 = dict(kw)
        star = k2.pop('**', None)
        if star is not None:
            dict_update(I, st, r, star)
        c = I.cell(st, r)
        st.heap[r.id] = DictC({**c.items, **k2}, c.base)
        return r
    if n == 'enumerate':
        it = iter_of(I, st, args[0])
        s = I.term(st, arg(1, 'start', ZERO))
        if it.items is not None:
            return IterV(items=[TupleV([add(s, num(i)), x]) for i, x in enumerate(it.items)])
        return IterV(n=it.n, get=lambda st, k: TupleV([add(s, k), it.get(st, k)]))
    if n == 'zip':
        its = [iter_of(I, st, a) for a in args]
        if all(i.items is not None for i in its):
            return IterV(items=[TupleV(x) for x in zip(*[i.items for i in its])])
        ns = [num(len(i.items)) if i.items is not None else i.n for i in its if i.note != 'inf']
        nn = ns[0]
        for x in ns[1:]:
            if x is not nn:
                nn = tmin(nn, x) if x.op == 'num' and nn.op == 'num' else nn
        return IterV(n=nn, get=lambda st, k: TupleV([_iter_get(I, st, i, k) for i in its]))
    if n in ('map', '$vecapply'):
        f = args[0]
        if n == '$vecapply':
            l = call_builtin(I, st, 'list', [call_builtin(I, st, 'map', args, kw, node)], {}, node)
            return to_array(I, st, 'array', [l], {}, node, '')
        its = [iter_of(I, st, a) for a in args[1:]]
        if all(i.items is not None for i in its):
            return IterV(items=[I.call(st, f, list(x), {}, node) for x in zip(*[i.items for i in its])])
        nn = [i.n for i in its if i.items is None][0]
        return IterV(n=nn, get=lambda st, k: I.call(st, f, [_iter_get(I, st, i, k) for i in its], {}, node))
    if n == 'filter':
        it = iter_of(I, st, args[1])
        k = fresh_iv('k')
        if it.items is not None:
            out = []
            for x in it.items:
                c = I.truth(st, I.call(st, args[0], [x], {}, node) if args[0] is not NONE else x)
                if c is TRUE:
                    out.append(x)
                elif c is not FALSE:
                    out.append(Alt(c, (x,), ()))
            return I.alloc(st, ListC(out))
        x = it.get(st, k)
        c = I.truth(st, I.call(st, args[0], [x], {}, node) if args[0] is not NONE else x)
        ml = lam([k], c)
        return IterV(n=count(it.n, ml), get=lambda st, q: it.get(st, sel(it.n, ml, q)))
    if n == 'reversed':
        it = iter_of(I, st, args[0])
        if it.items is not None:
            return IterV(items=list(reversed(it.items)))
        return IterV(n=it.n, get=lambda st, k: it.get(st, sub(sub(it.n, ONE), k)))
    if n == 'sorted':
        it = iter_of(I, st, args[0])
        if it.items is not None and all(isinstance(x, T) and x.op in ('const', 'num') for x in it.items):
            its = sorted(it.items, key=lambda x: x.args[0])
            if I.truth(st, kw.get('reverse', FALSE)) is TRUE:
                its = its[::-1]
            return I.alloc(st, ListC(its))
        L = I.term(st, args[0])
        if it.items is not None:
            nn = num(len(it.items))
        else:
            nn = it.n
        kf = I.term(st, kw.get('key', NONE))
        rv = I.term(st, kw.get('reverse', FALSE))
        k = fresh_iv('k')
        return I.alloc(st, ListC([Sym(nn, k, I.by_value(st, _iter_get(I, st, it, mk('app', 'sortidx', L, kf, rv, k))))]))
    if n == 'isinstance':
        return isinstance_(I, st, args[0], args[1])
    if n == 'issubclass':
        return mk('bool', mk('app', 'issubclass', I.term(st, args[0]), I.term(st, args[1])))
    if n == 'callable':
        v = args[0]
        if isinstance(v, (FuncV, BoundV, ClassV, ExtV, MethV, PartialV)):
            return TRUE
        if isinstance(v, T) and v.op in ('num', 'const'):
            return FALSE
        return mk('bool', mk('app', 'callable', I.term(st, v)))
    if n == 'hasattr':
        o, a = args[0], args[1].args[0]
        if isinstance(o, Ref):
            c = I.cell(st, o)
            if isinstance(c, ObjC) and c.base is None:
                v = c.attrs.get(a)
                if isinstance(v, Choice) and v.b is MISSING:
                    return v.c
                return TRUE if (a in c.attrs or (c.cls and c.cls.find(a) is not None)) else FALSE
        return mk('bool', mk('app', 'hasattr', I.term(st, o), const(a)))
    if n == 'getattr':
        from .interp import PyRaise
        nm = args[1]
        if isinstance(nm, T) and nm.op == 'const':
            try:
                return I.get_attr(st, args[0], nm.args[0])
            except PyRaise as e:
                if e.exc == 'AttributeError' and len(args) > 2:
                    return args[2]
                raise
        return mk('app', 'getattr', I.term(st, args[0]), I.term(st, nm))
    if n == 'setattr':
        nm = args[1]
        if isinstance(nm, T) and nm.op == 'const':
            I.set_attr(st, args[0], nm.args[0], args[2], node)
        else:
            I.event(st, 'setattr-dyn', '', tuple(args), node=node)
        return NONE
    if n == 'vars':
        if isinstance(args[0], Ref):
            return ObjDict(args[0].id)
    if n == 'type':
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.cell(st, v), ObjC) and I.cell(st, v).cls is not None:
            return I.cell(st, v).cls
        if isinstance(v, T) and v.op == 'const':
            return ExtV('builtins.' + type(v.args[0]).__name__)
        return mk('app', 'type', I.term(st, v))
    if n == 'print':
        I.event(st, 'ext', 'print', (), {}, node=node)
        return NONE
    if n == 'open':
        p = I.term(st, arg(0, 'file'))
        mode = I.term(st, arg(1, 'mode', const('r')))
        f = mk('file', p, mode, I.newid())
        I.event(st, 'open', 'open', (p, mode), kw, res=f, node=node)
        I.maybe_raise(st)
        return f
    if n in ('iter',):
        return iter_of(I, st, args[0])
    if n == 'next':
        it = iter_of(I, st, args[0])
        if it.items is not None:
            its = [x for x in it.items]
            if its and not isinstance(its[0], (Alt, Sym)):
                return its[0]
            res = args[1] if len(args) > 1 else UNDEF
            for x in reversed(its):
                if isinstance(x, Alt):
                    res = I.merge_val(x.c, x.a[0], res)
                else:
                    res = x
            if not its and len(args) < 2:
                raise _exc('StopIteration')
            return res
        return it.get(st, ZERO)
    if n == 'slice':
        a = [x for x in args]
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    if n == '$identity':
        return args[0]
    if n in ('id', 'hash'):
        I.event(st, 'impure', n, tuple(args), kw, node=node)
        return mk('app', n, I.term(st, args[0]))
    if n in ('property', 'staticmethod', 'classmethod'):
        return args[0]
    if n == 'object':
        return I.alloc(st, ObjC(None, {}, fresh_sym('object')))
    if n in ('globals', 'eval', 'exec', '__import__', 'compile', 'input'):
        raise _unsup(n)
    if n[0].isupper():
        from .interp import EXC_PARENTS
        return ExcV(n, tuple(args))
    return opaque_call(I, st, 'builtins.' + n, args, kw, node)


# ---------------------------------------------------------------- attributes and methods of externals
def ext_attr(I, st, o, name):
    full = o.name + '.' + name
    h = I.extattrs.get(full)
    if h is not None:
        return h
    c = {'numpy.inf': INF, 'numpy.infty': INF, 'numpy.Inf': INF, 'math.inf': INF, 'numpy.pi': PI, 'math.pi': PI,
         'torch.pi': PI, 'torch.inf': INF,
         'numpy.nan': NAN, 'math.nan': NAN, 'numpy.NaN': NAN, 'numpy.newaxis': NONE,
         'numpy.e': exp(ONE), 'math.e': exp(ONE), 'numpy.bool_': ExtV('builtins.bool')}.get(full)
    if c is not None:
        return c
    if o.name == 'numpy' and name in ('float', 'int', 'bool'):
        return ExtV('builtins.' + name)
    return ExtV(full)


def path_attr(t, name):
    if t.op == 'app' and t.args[0] == 'pathjoin':
        if name == 'parent' and not (t.args[2].op == 'const' and '/' in t.args[2].args[0]):
            return t.args[1]
        if name == 'name':
            return t.args[2]
    return mk('attr', t, name)


def term_attr(I, st, o, name):
    h = I.symattrs.get(o)
    if h is None and o.op == 'at':
        h = I.symattrs.get(('elem', o.args[0]))
    if h is None and o.op == 'app':
        h = I.symattrs.get(('app', o.args[0]))
    if h is not None:
        r = h(I, st, o, name)
        if r is not None:
            return r
    if o.op in NUMOPS or is_bool(o) or is_scalar_app(I, o):
        if name in ('data', 'T', 'real'):
            return o
        if name == 'shape':
            return TupleV(())
        if name in ('size',):
            return ONE
        if name == 'ndim':
            return ZERO
        if name == 'dtype':
            return mk('attr', o, 'dtype')
        return MethV(o, name)
    if o.op == 'const' and isinstance(o.args[0], (str, bytes)):
        return MethV(o, name)
    if name in ('parent', 'name'):
        return path_attr(o, name)
    if o.op == 'file' and name == 'name':
        return o.args[0]
    if o.op == 'app' and o.args[0] == 'ext' and o.args[1] is const('numpy.finfo') and name == 'eps' and len(o.args) == 3:
        w = show(o.args[2])
        if 'float32' in w:
            return num(Fraction(1, 2 ** 23))
        if 'float64' in w or 'float' in w:
            return num(Fraction(1, 2 ** 52))
    return mk('attr', o, name)


def cell_attr(I, st, o, c, name):
    if isinstance(c, Arr):
        if name == 'shape':
            return TupleV(c.shape)
        if name == 'T':
            return transpose(I, st, o)
        if name == 'size':
            t = ONE
            for x in c.shape:
                t = mul(t, x)
            return t
        if name == 'ndim':
            return num(len(c.shape))
        if name == 'dtype':
            if c.dt is not None:
                if c.dt.op == 'fn':
                    return ExtV(c.dt.args[0])
                return c.dt
            return mk('attr', I.term(st, o), 'dtype')
        if name in ('data', 'real', 'flat'):
            return o if name != 'flat' else ravel(I, st, o)
        if name in ('device', 'requires_grad', 'strides', 'nbytes', 'itemsize', 'base', 'flags'):
            return mk('attr', I.term(st, o), name)
    return MethV(o, name)


ARR_RED = ('sum', 'mean', 'max', 'min', 'any', 'all', 'std', 'var', 'prod', 'argmax', 'argmin', 'logsumexp')


def call_method(I, st, obj, name, args, kw, node):
    if isinstance(obj, Choice):
        return I.choice_apply(st, obj, lambda s, o: call_method(I, s, o, name, args, kw, node))
    if isinstance(obj, ObjDict):
        return objdict_method(I, st, obj, name, args, kw, node)
    if isinstance(obj, Ref):
        c = I.cell(st, obj)
        if isinstance(c, Arr):
            return arr_method(I, st, obj, c, name, args, kw, node)
        if isinstance(c, ListC):
            return list_method(I, st, obj, c, name, args, kw, node)
        if isinstance(c, DictC):
            return dict_method(I, st, obj, c, name, args, kw, node)
        if isinstance(c, ObjC):
            if c.base is not None:
                h = I.symmodel(c.base)
                if h is not None:
                    r = h(I, st, obj, name, args, kw, node)
                    if r is not None:
                        return r
                return call_sym(I, st, mk('attr', c.base, name), args, kw, node)
            raise _exc('AttributeError')
    if isinstance(obj, TupleV):
        if name in ('index', 'count'):
            return mk('app', name, I.term(st, obj), *[I.term(st, a) for a in args])
        if name == '_replace':
            its = list(obj.items)
            for k, v in kw.items():
                its[obj.cls.index(k)] = v
            return TupleV(its, obj.cls)
        if name == '_asdict':
            return I.alloc(st, DictC(dict(zip(obj.cls, obj.items))))
        raise _exc('AttributeError')
    if isinstance(obj, IterV) and name == '__next__':
        return call_builtin(I, st, 'next', [obj], {}, node)
    if isinstance(obj, ExcV):
        return NONE
    if isinstance(obj, (FuncV, BoundV)):
        return opaque_call(I, st, 'method.' + name, [obj] + list(args), kw, node)
    if isinstance(obj, T):
        return term_method(I, st, obj, name, args, kw, node)
    if isinstance(obj, RangeV):
        raise _exc('AttributeError')
    raise _unsup('method %s of %r' % (name, obj))


def term_method(I, st, obj, name, args, kw, node):
    if obj is NONE or obj is MISSING:
        raise _exc('AttributeError')
    if obj in I.rngobjs:
        return rng_call(I, st, name, args, kw, node, src='object:' + str(obj.args[0]))
    h = I.symmodel(obj)
    if h is not None:
        r = h(I, st, obj, name, args, kw, node)
        if r is not None:
            return r
    if obj.op == 'file':
        res = mk('app', 'fileop', obj, const(name), num(I.newid())) if name not in ('fileno',) else mk('app', 'fileno', obj)
        I.event(st, 'file', name, (obj,) + tuple(args), kw, res=res, node=node)
        if name == '__enter__':
            return obj
        I.maybe_raise(st)
        return res
    if obj.op == 'const' and isinstance(obj.args[0], str):
        if name == 'format' and not args and not kw:
            return obj
        if all(isinstance(a, T) and a.op == 'const' for a in args) and not kw and \
                name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'rstrip', 'lstrip',
                         'title', 'isdigit'):
            r = getattr(obj.args[0], name)(*[a.args[0] for a in args])
            if isinstance(r, list):
                return I.alloc(st, ListC([const(x) for x in r]))
            return const(r)
        return mk('fmt', obj, const(name), *[I.term(st, a) for a in args])
    if is_str(obj) and name in ('lower', 'upper', 'strip', 'format', 'startswith', 'endswith', 'encode'):
        return mk('app', 'str' + name, obj, *[I.term(st, a) for a in args])
    if obj.op in NUMOPS or is_bool(obj) or is_scalar_app(I, obj) or obj in I.scalars or obj.op == 'at' or obj.op == 'rnd' \
            or obj.op == 'mu':
        if name in ('copy', 'item', 'detach', 'numpy', 'float', 'double', 'astype', 'clone', 'cpu', 'squeeze', 'tolist',
                    'to', 'flatten', 'ravel', 'reshape', 'contiguous', 'conj') and \
                (obj.op not in ('at', 'mu') or name in ('copy', 'item', 'detach', 'numpy', 'float', 'double', 'clone',
                                                        'cpu', 'tolist')):
            return obj
        if name in ('sum', 'mean', 'max', 'min', 'prod'):
            return obj
        if name in ('all', 'any'):
            return truth(obj)
        if name in ('exp', 'log', 'sqrt', 'abs', 'square') and obj.op != 'at':
            if name == 'exp':
                I.event(st, 'exp', name, (((), obj),), node=node)
            return UN[name](obj)
        if name == 'bit_length':
            return app('bit_length', obj)
        if name == 'backward':
            I.event(st, 'call', 'backward', (obj,), node=node)
            return NONE
        if name == 'clip' or name == 'clamp':
            return call_math(I, st, '', 'clip', [obj] + list(args), kw, node)
    # path-like objects
    if name in ('with_suffix', 'with_name', 'with_stem', 'joinpath', 'resolve', 'absolute', 'expanduser', 'as_posix'):
        if name in ('resolve', 'absolute', 'expanduser', 'as_posix'):
            return obj
        if name == 'joinpath':
            r = obj
            for a in args:
                r = app('pathjoin', r, I.term(st, a))
            return r
        return mk('app', name, obj, *[I.term(st, a) for a in args])
    if name in ('exists', 'is_file', 'is_dir'):
        return mk('bool', mk('app', 'exists', obj))
    if name in ('mkdir', 'rename', 'replace', 'unlink', 'touch', 'write_bytes', 'write_text', 'rmdir', 'symlink_to',
                'link_to', 'hardlink_to') and (name != 'replace' or len(args) == 1):
        res = I.term(st, args[0]) if name in ('rename', 'replace') else NONE
        I.event(st, 'os', {'unlink': 'remove', 'write_bytes': 'write'}.get(name, name), (obj,) + tuple(I.term(st, a) if not isinstance(a, Ref) else a for a in args), kw,
                node=node)
        I.maybe_raise(st)
        return res
    if name == 'open':
        mode = I.term(st, args[0]) if args else I.term(st, kw.get('mode', const('r')))
        f = mk('file', obj, mode, I.newid())
        I.event(st, 'open', 'open', (obj, mode), kw, res=f, node=node)
        I.maybe_raise(st)
        return f
    if name == 'read_bytes':
        return mk('app', 'read', obj)
    if obj.op == 'app' and obj.args[0] == 'dtype':
        return mk('attr', obj, name)
    return call_sym(I, st, mk('attr', obj, name), args, kw, node)


def call_sym(I, st, f, args, kw, node):
    """call of an unknown callable value"""
    h = I.symcalls.get(f)
    if h is not None:
        r = h(I, st, f, args, kw, node)
        if r is not None:
            return r
    if f.op == 'attr' and f.args[0] in I.rngobjs:
        return rng_call(I, st, f.args[1], args, kw, node, src='object')
    targs = [I.term(st, a) for a in args]
    for k, v in sorted(kw.items()):
        targs.append(mk('kw', k, I.term(st, v)))
    res = mk('app', 'call', f, const(I.stable('o', node)), *targs)
    I.event(st, 'call', show(f) if f.op != 'attr' else str(f.args[1]), tuple(args), kw, res=res, node=node, f=f)
    I.maybe_raise(st)
    return res


def arr_method(I, st, o, c, name, args, kw, node):
    def arg(i, nm, d=None):
        return args[i] if len(args) > i else kw.get(nm, d)
    if name in ('copy', 'clone', '__copy__', '__deepcopy__'):
        return I.alloc(st, Arr(c.shape, I.elem(st, o), None, EMPTY, c.dt))
    if name in ('detach', 'numpy', 'cpu', 'contiguous', 'requires_grad_', 'to', 'type', 'view', 'float', 'double',
                'resolve_conj', 'eval', '__array__'):
        if name == 'view' and args:
            return reshape(I, st, o, list(args))
        if name in ('float', 'double'):
            return I.alloc(st, Arr(c.shape, num_of(I.elem(st, o)), None, EMPTY,
                                   mk('fn', 'torch.float32' if name == 'float' else 'torch.float64', 0)))
        return o
    if name == 'astype' or name in ('bool', 'int', 'long'):
        dt = arg(0, 'dtype') if name == 'astype' else ExtV('builtins.' + {'bool': 'bool', 'int': 'int', 'long': 'int'}[name])
        e = I.elem(st, o)
        dn = dt.name.split('.')[-1] if isinstance(dt, ExtV) else (str(dt.args[0]) if isinstance(dt, T) and dt.op == 'const' else '')
        if dn in ('bool', 'bool_'):
            e = truth(e)
        elif dn.startswith('int'):
            e = app('int', num_of(e))
        elif dn.startswith('float') or dn == 'double':
            e = num_of(e)
        return I.alloc(st, Arr(c.shape, e, None, EMPTY, I.term(st, dt)))
    if name in ARR_RED:
        axis = arg(0, 'axis', kw.get('dim', NONE))
        kd = I.truth(st, kw.get('keepdims', kw.get('keepdim', FALSE))) is TRUE
        return reduce_named(I, st, name, o, axis, kd, kw)
    if name in ('reshape',):
        return ordered(I, st, o, list(args), kw.get('order', NONE))
    if name in ('ravel', 'flatten'):
        return ordered(I, st, o, None, arg(0, 'order', NONE))
    if name == 'squeeze':
        return squeeze(I, st, o, arg(0, 'axis', NONE))
    if name in ('transpose', 't', 'swapaxes', 'permute'):
        return transpose(I, st, o)
    if name in ('dot', 'matmul', 'mm', 'mv', '__matmul__'):
        return dot(I, st, o, args[0])
    if name == 'tolist':
        return I.to_list(st, o)
    if name == 'item':
        e = I.elem(st, o)
        if args:
            return get_item(I, st, o, args[0])
        return subst(e, {ax(i): ZERO for i in range(len(c.shape))})
    if name == 'fill' or name == 'fill_':
        I.set_elem(st, o, I.term(st, args[0]), node, 'fill')
        return NONE
    if name in ('zero_',):
        I.set_elem(st, o, ZERO, node, 'fill')
        return o
    if name in ('add_', 'sub_', 'mul_', 'div_'):
        nv = binop(I, st, {'add_': 'Add', 'sub_': 'Sub', 'mul_': 'Mult', 'div_': 'Div'}[name], o, args[0], node)
        s, e = I.arr(st, nv)
        I.set_elem(st, o, e, node, 'inplace')
        return o
    if name in ('copy_',):
        s, e = I.arr(st, args[0])
        I.set_elem(st, o, bcast(e, len(s), len(c.shape)), node, 'inplace')
        return o
    if name == 'sort':
        e = I.elem(st, o)
        L = lam_ax(len(c.shape), e)
        I.set_elem(st, o, subst(e, {ax(0): mk('app', 'argsort', L, ax(0))}), node, 'sort')
        return NONE
    if name in ('size', 'numel', 'nelement'):
        if name == 'size':
            if args:
                return c.shape[int(numval(I.term(st, args[0])))]
            return TupleV(c.shape)
        t = ONE
        for x in c.shape:
            t = mul(t, x)
        return t
    if name in ('dim', 'ndimension'):
        return num(len(c.shape))
    if name in ('nonzero',):
        return TupleV([flatnonzero(I, st, o)])
    if name in ('take',):
        return call_math(I, st, 'numpy.take', 'take', [o] + list(args), kw, node)
    if name == '__len__':
        return c.shape[0]
    if name == 'put':
        set_item(I, st, o, args[0], args[1], node)
        return NONE
    if name == 'masked_fill':
        return elementwise(I, st, lambda x, m, v: ite(m, v, x), o, args[0], args[1])
    if name in ('add', 'sub', 'mul', 'div', 'pow'):
        return binop(I, st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'div': 'Div', 'pow': 'Pow'}[name], o, args[0], node)
    if name in ('expand', 'broadcast_to'):
        out = tuple(I.term(st, a) for a in args)
        return I.new_arr(st, out, balign(c.shape, I.elem(st, o), out))
    if name in ('tobytes', 'dump', 'tofile', 'backward', 'register_hook'):
        return opaque_call(I, st, 'ndarray.' + name, [o] + list(args), kw, node)
    if name in ('resize', 'itemset', 'setflags', 'partition', 'byteswap'):
        I.event(st, 'mutate', name, (o,), node=node, flags=c.flags, cells=(o.id,))
        return NONE
    r = call_math(I, st, 'numpy.' + name, name, [o] + list(args), kw, node)
    if r is not NotImplemented:
        return r
    I.note('array method %s not modelled' % name, node)
    return opaque_call(I, st, 'ndarray.' + name, [o] + list(args), kw, node)


def list_method(I, st, o, c, name, args, kw, node):
    if name in ('append', 'add', 'appendleft'):
        if name == 'appendleft':
            st.heap[o.id] = ListC((args[0],) + c.items, c.flags)
            I.event(st, 'list-insert', '', (o,), node=node)
            return NONE
        return list_append(I, st, o, args[0], node)
    if name == 'extend':
        I.list_extend(st, o, args[0], node)
        return NONE
    if name == 'insert':
        k = numval(I.term(st, args[0]))
        I.event(st, 'list-insert', '', (o,) + tuple(args), node=node)
        if k is not None and c.concrete():
            its = list(c.items)
            its.insert(int(k), args[1])
            st.heap[o.id] = ListC(its, c.flags)
        elif k == 0:
            st.heap[o.id] = ListC((args[1],) + c.items, c.flags)
        else:
            st.heap[o.id] = ListC(c.items + (args[1],), c.flags)
        return NONE
    if name in ('pop', 'popleft'):
        return list_pop(I, st, o, (args[0] if args else None) if name == 'pop' else ZERO, node)
    if name == 'copy':
        return I.alloc(st, ListC(c.items, EMPTY, c.isset))
    if name in ('discard', 'remove'):
        I.event(st, 'list-remove', name, (o,) + tuple(args), node=node)
        if c.concrete():
            keep = []
            for x in c.items:
                q = _veqterm(I, st, x, args[0])
                if q is TRUE:
                    continue
                keep.append(x if q is FALSE else Alt(mnot_full(q), (x,), ()))
            st.heap[o.id] = ListC(keep, c.flags, c.isset)
            return NONE
        n = I.list_len(c)
        st.heap[o.id] = ListC([Sym(fresh_sym('len'), fresh_iv('k'), mk('app', 'without', I.term_list(st, c),
                                                                       I.term(st, args[0])))], c.flags, c.isset)
        return NONE
    if name in ('clear', 'reverse', 'sort', 'update', 'difference_update'):
        I.event(st, 'list-' + name, '', (o,) + tuple(args), kw, node=node)
        if name == 'clear':
            st.heap[o.id] = ListC((), c.flags, c.isset)
        elif name == 'reverse' and c.concrete():
            st.heap[o.id] = ListC(c.items[::-1], c.flags)
        elif name == 'update':
            I.list_extend(st, o, args[0], node)
        elif name == 'sort':
            r = call_builtin(I, st, 'sorted', [o], kw, node)
            st.heap[o.id] = ListC(I.cell(st, r).items, c.flags)
        else:
            st.heap[o.id] = ListC([Sym(I.list_len(c), fresh_iv('k'), fresh_sym('listitem'))], c.flags, c.isset)
        return NONE
    if name in ('index', 'count') and c.concrete() and len(args) == 1:
        qs = [_veqterm(I, st, x, args[0]) for x in c.items]
        if name == 'count':
            return add(ZERO, *[ite(q, ONE, ZERO) for q in qs])
        if any(q is TRUE for q in qs):
            r = num(qs.index(TRUE))
            for k in range(qs.index(TRUE) - 1, -1, -1):
                r = ite(qs[k], num(k), r)
            return r
        if all(q is FALSE for q in qs):
            raise _exc('ValueError')
    if name in ('index', 'count'):
        return mk('app', name, I.term(st, o), *[I.term(st, a) for a in args])
    if name == '__len__':
        return I.list_len(c)
    if name == '__getitem__':
        return get_item(I, st, o, args[0])
    if name in ('union', 'difference', 'intersection', 'issubset'):
        return binop(I, st, 'Sub' if name == 'difference' else 'BitOr', o, args[0], node)
    raise _exc('AttributeError')


def dict_method(I, st, o, c, name, args, kw, node):
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        return dict_get(I, st, c, args[0], d, True)
    if name == 'keys':
        return iter_of(I, st, o)
    if name in ('values', 'items'):
        if c.base is None:
            out = []
            for k, v in c.items.items():
                if v is MISSING:
                    continue
                kt = k if isinstance(k, T) else const(k)
                if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
                    cond = v.c if v.b is MISSING else mnot_full(v.c)
                    pres = v.a if v.b is MISSING else v.b
                    cc = assume_facts(cond, st.facts)
                    if cc is FALSE:
                        continue
                    # presence is approximated by the value being there
                    v = pres
                out.append(v if name == 'values' else TupleV([kt, v]))
            return IterV(items=out)
        b = I.term(st, o)
        n = app('len', b)
        if name == 'values':
            return IterV(n=n, get=lambda st, k: mk('app', 'valat', b, k))
        return IterV(n=n, get=lambda st, k: TupleV([mk('app', 'keyat', b, k), mk('app', 'valat', b, k)]))
    if name == 'update':
        dict_update(I, st, o, args[0] if args else None, kw)
        return NONE
    if name == 'pop':
        key = I.key(args[0])
        has_d = len(args) > 1
        v = dict_get(I, st, c, args[0], args[1] if has_d else None, has_d)
        it = dict(c.items)
        it.pop(key, None)
        st.heap[o.id] = DictC(it, mk('without', c.base, key if isinstance(key, T) else const(key)) if c.base is not None
                              else None, c.flags)
        I.event(st, 'dict-del', str(key), (o,), node=node)
        return v
    if name == 'setdefault':
        v = dict_get(I, st, c, args[0], args[1] if len(args) > 1 else NONE, True)
        set_item(I, st, o, args[0], v, node)
        return v
    if name == 'copy':
        return I.alloc(st, DictC(dict(c.items), c.base))
    if name == 'clear':
        st.heap[o.id] = DictC({}, None, c.flags)
        I.event(st, 'dict-clear', '', (o,), node=node)
        return NONE
    if name == '__contains__':
        return contains_(I, st, args[0], o)
    if name == '__getitem__':
        return get_item(I, st, o, args[0])
    if name == '__setitem__':
        set_item(I, st, o, args[0], args[1], node)
        return NONE
    if name == 'popitem':
        I.event(st, 'dict-del', 'popitem', (o,), node=node)
        return fresh_sym('popitem')
    raise _exc('AttributeError')


def objdict_method(I, st, o, name, args, kw, node):
    c = I.cell(st, Ref(o.id))
    if name == 'copy':
        return I.alloc(st, DictC(dict(c.attrs), c.base))
    if name == 'update':
        dict_update(I, st, o, args[0] if args else None, kw)
        return NONE
    if name == 'pop':
        key = I.key(args[0])
        v = c.attrs.get(key, MISSING)
        if v is MISSING:
            if len(args) > 1:
                return args[1]
            raise _exc('KeyError')
        a = dict(c.attrs)
        del a[key]
        st.heap[o.id] = ObjC(c.cls, a, c.base, c.flags)
        I.event(st, 'delattr', str(key), (Ref(o.id),), node=node)
        return v
    tmp = I.alloc(st, DictC(dict(c.attrs), c.base))
    if name in ('get', 'keys', 'items', 'values', '__contains__'):
        return dict_method(I, st, tmp, I.cell(st, tmp), name, args, kw, node)
    if name == 'clear':
        st.heap[o.id] = ObjC(c.cls, {}, None, c.flags)
        return NONE
    raise _exc('AttributeError')
