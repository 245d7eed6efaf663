"""The MPI pool (C18): a typestate and provenance analysis of the master loop and the worker loop.

Every value carries where it comes from: a task with its number, a message with its tag and its source, the
function.  Integers are linear forms over the number of tasks, the numbers of messages sent and received and the
tags.  Loop bodies are analysed once from a head state in which every counter is a linear form of the numbers of
messages sent and received and of the iterations.
"""
import ast
import os
from itertools import product


# how a counter moves with the messages received, the messages sent and the rounds, simplest first
COEFS = sorted(product((0, 1, -1), repeat=3), key=lambda c: (c[2] != 0, sum(map(abs, c))))


class Gap(Exception):
    pass


class Lin:
    """an integer: constant + sum of coefficient * symbol"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v}

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def __mul__(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.t.items()})

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -o

    def sub(self, m):
        out = Lin(self.c)
        for k, v in self.t.items():
            out = out + (m[k] * v if k in m else Lin(0, {k: v}))
        return out

    def const(self):
        return None if self.t else self.c

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, frozenset(self.t.items())))

    def __repr__(self):
        return ' + '.join(['%s%s' % ('' if v == 1 else '%d*' % v, '.'.join(map(str, k)) if isinstance(k, tuple) else k)
                           for k, v in self.t.items()] + ([str(self.c)] if self.c or not self.t else []))


def sym(*k):
    return Lin(0, {k: 1})


STAR = ('*',)
N = sym('tasks')
SIZE = sym('size')
NONE = ('none',)
TOP = ('top',)


class Bag:
    """a list, set or deque: templates of its elements; 'whole' while it still is what it was built as"""

    def __init__(self, kind, elems, n=None, origin=None):
        self.kind, self.elems, self.n, self.origin = kind, tuple(elems), n, origin
        self.ver = 0

    def clone(self):
        b = Bag(self.kind, self.elems, self.n, self.origin)
        b.ver = self.ver
        return b


class St:
    def __init__(self):
        self.env, self.heap, self.ev, self.facts = {}, {}, [], {}
        self.sent = self.recv = Lin(0)
        self.eq0 = []

    def clone(self):
        s = St()
        s.env = dict(self.env)
        s.heap = {k: (v.clone() if isinstance(v, Bag) else dict(v)) for k, v in self.heap.items()}
        s.ev = list(self.ev)
        s.facts = dict(self.facts)
        s.sent, s.recv, s.eq0 = self.sent, self.recv, list(self.eq0)
        return s


def subst(v, m):
    if isinstance(v, Lin):
        return v.sub(m)
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    return v


def has_star(v):
    if isinstance(v, Lin):
        return STAR in v.t
    return isinstance(v, tuple) and any(has_star(x) for x in v)


def syms(v):
    if isinstance(v, Lin):
        yield from v.t
    elif isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'msg':
            yield ('tag', v[1])
        for x in v:
            yield from syms(x)


def aged(v):
    """an element put into a collection, seen from a later round: that of some message, task or worker"""
    old = {k for k in syms(v) if k[0] in ('source', 'pop', 'each', 'tag')}
    star = Lin(0, {STAR: 1})

    def go(x):
        if isinstance(x, Lin):
            return x.sub({k: star for k in old})
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'msg':
                return ('msg', '*')
            return tuple(go(y) for y in x)
        return x
    return go(v)


class An:
    """the analyser of one class"""

    def __init__(self, path):
        self.file = os.path.basename(path)
        self.tree = ast.parse(open(path).read(), path)
        self.funcs = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}
        self.cls = next((n for n in self.tree.body if isinstance(n, ast.ClassDef) and n.name == 'MPIPool'), None)
        if self.cls is None:
            raise Gap('no class MPIPool')
        self.meths = {n.name: n for n in self.cls.body if isinstance(n, ast.FunctionDef)}
        self.k = 0
        self.loops = []
        self.visited = set()
        self.depth = 0
        self.paths = 0

    def fresh(self, kind):
        self.k += 1
        return (kind, self.k)

    def loc(self, n):
        return '%s:%d' % (self.file, getattr(n, 'lineno', 0))

    def alloc(self, st, o):
        r = ('ref', self.fresh('o')[1])
        st.heap[r[1]] = o
        return r

    # ---------------------------------------------------------------- statements
    def block(self, body, st):
        """[(state, signal)]"""
        outs, live = [], [st]
        for s in body:
            nxt = []
            for q in live:
                for q2, sig in self.stmt(s, q):
                    (nxt if sig is None else outs).append(q2 if sig is None else (q2, sig))
            live = nxt
            if len(live) + len(outs) > 4000:
                raise Gap('too many paths')
        return outs + [(q, None) for q in live]

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            return [(q, None) if not (isinstance(v, tuple) and v and v[0] == '$raise') else (q, v) for v, q in self.ev(s.value, st)]
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return [(st, None)]
        if isinstance(s, ast.Assign):
            out = []
            for v, q in self.ev(s.value, st):
                q = [q]
                for t in s.targets:
                    q = [z for y in q for z in self.assign(t, v, y, s)]
                out += [(z, None) for z in q]
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [(st, None)]
            return [(z, None) for v, q in self.ev(s.value, st) for z in self.assign(s.target, v, q, s)]
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(left=self.as_load(s.target), op=s.op, right=s.value), s)
            return [(z, None) for v, q in self.ev(load, st) for z in self.assign(s.target, v, q, s)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, ('return', NONE, s))]
            return [(q, ('return', v, s)) for v, q in self.ev(s.value, st)]
        if isinstance(s, ast.If):
            out = []
            for c, q in self.cond(s.test, st):
                out += self.block(s.body if c else s.orelse, q)
            return out
        if isinstance(s, ast.While):
            return self.loop(s, st)
        if isinstance(s, ast.For):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            return [(st, ('break',))]
        if isinstance(s, ast.Continue):
            return [(st, ('continue',))]
        if isinstance(s, ast.Raise):
            return [(st, ('$raise', s))]
        if isinstance(s, ast.Try):
            out = []
            for q, sig in self.block(s.body, st):
                if sig and sig[0] == '$raise' and s.handlers:
                    raise Gap('exception handling')
                if sig is None:
                    more = self.block(s.orelse, q)
                else:
                    more = [(q, sig)]
                for q2, sig2 in more:
                    for q3, sig3 in self.block(s.finalbody, q2):
                        out.append((q3, sig3 or sig2))
            return out
        if isinstance(s, ast.With):
            raise Gap('with')
        if isinstance(s, ast.Assert):
            return [(q, None) for c, q in self.cond(s.test, st) if c]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[s.name] = ('fun', s)
            return [(st, None)]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                else:
                    raise Gap('del')
            return [(st, None)]
        raise Gap('%s at %s' % (type(s).__name__, self.loc(s)))

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), st)
            q = [st]
            for e, p in zip(t.elts, parts):
                q = [z for y in q for z in self.assign(e, p, y, node)]
            return q
        if isinstance(t, ast.Attribute):
            out = []
            for o, q in self.ev(t.value, st):
                if o == ('self',):
                    q.env['self.' + t.attr] = v
                else:
                    raise Gap('attribute store')
                out.append(q)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o, q in self.ev(t.value, st):
                for i, q2 in self.ev(t.slice, q):
                    q2.ev.append(('store', o, i, v, node))
                    if isinstance(o, tuple) and o[0] == 'ref' and isinstance(q2.heap.get(o[1]), Bag):
                        b = q2.heap[o[1]]
                        b.ver += 1
                        if b.kind == 'dict':
                            b.elems = ('dict',)
                    out.append(q2)
            return out
        raise Gap('assignment')

    def unpack(self, v, n, st):
        if isinstance(v, tuple) and v and v[0] == 'tuple':
            if len(v[1]) != n:
                raise Gap('unpacking')
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'msg':
            return [('part', v[1], i) for i in range(n)]
        return [TOP] * n

    # ---------------------------------------------------------------- loops
    def assigned(self, nodes):
        out = set()
        seen = set()

        def walk(ns):
            for n in ns:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        out.add(x.id)
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add('self.' + x.attr)
        walk(nodes)
        return out

    def loop(self, s, st):
        """-> [(state after, signal)]"""
        lid = self.fresh('loop')[1]
        nR, nS, nI = ('received', lid), ('sent', lid), ('rounds', lid)
        pre = st.clone()
        iters = [(None, st)]
        if isinstance(s, ast.For):
            iters = self.ev(s.iter, st)
        outs = []
        for it, q0 in iters:
            pre = q0.clone()
            coef = {}       # name -> (a, b, c) or None (unknown)
            heads, resized, unfit = {}, set(), {}
            for rnd in range(6):
                h = pre.clone()
                h.facts = {k: v for k, v in h.facts.items() if k[0] not in ('nonempty', 'flag')}
                h.recv = pre.recv + (sym(*nR) if 'recv' in resized else Lin(0))
                h.sent = pre.sent + (sym(*nS) if 'sent' in resized else Lin(0))
                h.ev = list(pre.ev)
                for n, c in coef.items():
                    if c == 'msg':
                        h.env[n] = ('msg', 'head%d' % lid)
                    elif c is None:
                        h.env[n] = TOP
                    else:
                        h.env[n] = pre.env[n] + sym(*nR) * c[0] + sym(*nS) * c[1] + sym(*nI) * c[2]
                for r, e in heads.items():
                    b = h.heap[r]
                    if isinstance(b, Bag):
                        b.elems = e
                        if r in resized:
                            b.n = None
                        b.ver += 1000 * lid
                    else:
                        h.heap[r] = {k: sym(k, 'head%d' % lid) for k in ('tag', 'source')} if e == 'msg' else {}
                # one round
                start = h.clone()
                n0 = len(h.ev)
                ends, exits = [], []
                if isinstance(s, ast.While):
                    for c, q in self.cond(s.test, h):
                        if c:
                            ends += self.block(s.body, q)
                        else:
                            exits.append(q)
                else:
                    done = h.clone()
                    done.ev.append(('exhausted', it, s, lid))
                    exits.append(done)
                    for v, q in self.element(it, h, s, nI):
                        for q2 in self.assign(s.target, v, q, s):
                            ends += self.block(s.body, q2)
                # what changed
                deltas = {}
                newheads, nres = dict(heads), len(resized)
                for q, sig in ends:
                    if sig and sig[0] not in ('continue',):
                        continue
                    if q.recv != start.recv:
                        resized.add('recv')
                    if q.sent != start.sent:
                        resized.add('sent')
                    for n, v in q.env.items():
                        if n in pre.env and v != start.env.get(n):
                            deltas.setdefault(n, [])
                    for r, b in q.heap.items():
                        if r not in start.heap:
                            continue
                        b0 = start.heap[r]
                        if isinstance(b, Bag):
                            if b.n != b0.n:
                                resized.add(r)
                            if b.elems != b0.elems or b.ver != b0.ver:
                                newheads[r] = tuple(dict.fromkeys(newheads.get(r, b0.elems) + tuple(aged(e) for e in b.elems)))
                        elif b != b0 and r not in newheads:
                            newheads[r] = ()
                newcoef = dict(coef)
                for n in deltas:
                    vals = []
                    for q, sig in ends:
                        if sig and sig[0] not in ('continue',):
                            continue
                        a, b = start.env.get(n), q.env.get(n)
                        if not isinstance(a, Lin) or not isinstance(b, Lin):
                            vals = None
                            break
                        vals.append((b - a, q.recv - start.recv, q.sent - start.sent))
                    new = None
                    if vals is not None:
                        for c in COEFS:
                            if all(d == r * c[0] + s_ * c[1] + Lin(c[2]) for d, r, s_ in vals):
                                new = c
                                break
                        else:
                            unfit[n] = vals
                    if n in coef and coef[n] != new:
                        new = None
                    newcoef[n] = new
                # a message received in one round and handled in the next one, with its status
                conts = [q for q, sig in ends if not sig or sig[0] == 'continue']
                for n in deltas:
                    vs = [x.env.get(n) for x in conts] + [pre.env[n]]
                    if coef.get(n, 'msg') == 'msg' and conts and all(isinstance(v, tuple) and v and v[0] == 'msg' for v in vs):
                        newcoef[n] = 'msg'
                        for r in start.heap:
                            if isinstance(start.heap[r], dict) and heads.get(r, 'msg') == 'msg' and \
                                    all(x.heap[r].get('tag') == sym('tag', x.env[n][1]) for x in conts + [pre]):
                                newheads[r] = 'msg'
                if newcoef == coef and newheads == heads and nres == len(resized):
                    break
                coef, heads = newcoef, newheads
            else:
                raise Gap('loop at %s' % self.loc(s))
            self.paths += len(ends)
            rec = dict(node=s, id=lid, start=start, ends=ends, exits=exits, n0=n0, it=it, pre=pre, unfit=unfit, carried=[n for n, c in coef.items() if c == 'msg'])
            self.loops.append(rec)
            for q in exits:
                if s.orelse:
                    outs += self.block(s.orelse, q)
                else:
                    outs.append((q, None))
            for q, sig in ends:
                if sig and sig[0] == 'break':
                    outs.append((q, None))
                elif sig and sig[0] in ('return', '$raise'):
                    outs.append((q, sig))
        return outs

    def element(self, it, st, node, nI):
        """a generic element of what a for loop runs over"""
        b = st.heap.get(it[1]) if isinstance(it, tuple) and it[0] == 'ref' else None
        if isinstance(b, Bag):
            tok = sym(*self.fresh('each'))
            out = []
            for e in b.elems:
                out.append((subst(e, {STAR: tok}), st.clone()))
            st.ev.append(('each', it, node))
            for _, q in out:
                q.ev.append(('each', it, node, tok))
            return out
        if it == ('tasks',):
            i = sym(*nI)
            return [(('arg', i), st)]
        if isinstance(it, tuple) and it and it[0] == 'enum' and it[1] == ('tasks',):
            i = sym(*nI)
            return [(('tuple', (i, ('arg', i))), st)]
        if isinstance(it, tuple) and it and it[0] == 'range':
            lo, hi = it[1], it[2]
            i = lo + sym(*nI)
            st.facts[('lt', i - hi)] = True
            return [(i, st)]
        return [(TOP, st)]

    # ---------------------------------------------------------------- conditions
    def cond(self, n, st):
        """[(True/False, state)]"""
        if isinstance(n, ast.BoolOp):
            out = []
            want = isinstance(n.op, ast.And)
            live = [st]
            for i, v in enumerate(n.values):
                nxt = []
                for q in live:
                    for c, q2 in self.cond(v, q):
                        if c == want:
                            nxt.append(q2)
                        else:
                            out.append((not want, q2))
                live = nxt
            return out + [(want, q) for q in live]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(not c, q) for c, q in self.cond(n.operand, st)]
        out = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for a, q in self.ev(n.left, st):
                for b, q2 in self.ev(n.comparators[0], q):
                    out += self.compare(a, n.ops[0], b, q2)
            return out
        for v, q in self.ev(n, st):
            out += self.truth(v, q)
        return out

    def split(self, key, st):
        if key in st.facts:
            return [(st.facts[key], st)]
        a, b = st, st.clone()
        a.facts[key] = True
        b.facts[key] = False
        return [(True, a), (False, b)]

    def zero(self, l, st):
        """split on l == 0"""
        c = l.const()
        if c is not None:
            return [(c == 0, st)]
        for k in (('zero', l), ('zero', -l)):
            if k in st.facts:
                return [(st.facts[k], st)]
        if l.t and all(k[0] == 'size' for k in l.t):
            pass
        a, b = st, st.clone()
        a.facts[('zero', l)] = True
        a.eq0.append(l)
        b.facts[('zero', l)] = False
        return [(True, a), (False, b)]

    def compare(self, a, op, b, st):
        isnone = lambda v: v == NONE
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (isnone(a) or isnone(b)):
            v = b if isnone(a) else a
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if v == NONE:
                r = [(True, st)]
            elif isinstance(v, tuple) and v and v[0] == 'msg':
                r = [(not c, q) for c, q in self.split(('task', v[1]), st)]
            elif isinstance(v, tuple) and v[0] in ('tuple', 'ref', 'F', 'self'):
                r = [(False, st)]
            else:
                r = self.split(('none', v), st)
            return [(c != neg, q) for c, q in r]
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if isinstance(op, (ast.Eq, ast.Is)):
                return self.zero(d, st)
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return [(not c, q) for c, q in self.zero(d, st)]
            # the counters compared here never go below zero: x > 0 is x != 0
            if isinstance(op, ast.Gt):
                return [(not c, q) for c, q in self.le0(d, st)]
            if isinstance(op, ast.LtE):
                return self.le0(d, st)
            if isinstance(op, ast.Lt):
                return [(not c, q) for c, q in self.le0(-d, st)]
            if isinstance(op, ast.GtE):
                return self.le0(-d, st)
        return self.split(('cond', repr(a), type(op).__name__, repr(b)), st)

    def le0(self, d, st):
        """split on d <= 0; d <= 0 of a number that cannot be negative says d == 0"""
        c = d.const()
        if c is not None:
            return [(c <= 0, st)]
        key = ('le0', d)
        if key in st.facts:
            return [(st.facts[key], st)]
        if ('le0', Lin(1) - d) in st.facts:       # d > 0  <=>  not (1 - d > 0)
            return [(not st.facts[('le0', Lin(1) - d)], st)]
        a, b = st, st.clone()
        a.facts[key] = True
        a.eq0.append(('le', d))
        b.facts[key] = False
        # lengths of bags
        for k, v in d.t.items():
            if k[0] == 'len' and d == Lin(0, {k: 1}):
                a.facts[('nonempty', k[1], k[2])] = False
                b.facts[('nonempty', k[1], k[2])] = True
        return [(True, a), (False, b)]

    def truth(self, v, st):
        if isinstance(v, bool):
            return [(v, st)]
        if v == NONE:
            return [(False, st)]
        if isinstance(v, Lin):
            ks = list(v.t)
            if len(ks) == 1 and ks[0][0] == 'len' and v == Lin(0, {ks[0]: 1}):
                return self.split(('nonempty', ks[0][1], ks[0][2]), st)
            return [(not c, q) for c, q in self.zero(v, st)]
        if isinstance(v, tuple) and v:
            if v[0] == 'ref':
                b = st.heap[v[1]]
                if isinstance(b, Bag):
                    return self.split(('nonempty', v[1], b.ver), st)
            if v[0] == 'msg':
                return self.split(('task', v[1]), st)
            if v[0] == 'flag':
                return self.split(v, st)
            if v[0] in ('self', 'F', 'status'):
                return [(True, st)]
            if v[0] == 'tuple':
                return [(bool(v[1]), st)]
            if v[0] == 'str':
                return [(bool(v[1]), st)]
        return self.split(('truth', repr(v)), st)

    # ---------------------------------------------------------------- expressions: [(value, state)]
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Gap('%s at %s' % (type(n).__name__, self.loc(n)))
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return [(NONE, st)]
        if isinstance(v, bool):
            return [(v, st)]
        if isinstance(v, int):
            return [(Lin(v), st)]
        return [(('str', v), st)]

    def e_JoinedStr(self, n, st):
        return [(('str', '?'), st)]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st.env[n.id], st)]
        if n.id in self.funcs:
            return [(('fun', self.funcs[n.id]), st)]
        if n.id == 'MPI':
            return [(('mpi',), st)]
        if n.id == 'MPIPool':
            return [(('cls',), st)]
        return [(('builtin', n.id), st)]

    def e_Attribute(self, n, st):
        out = []
        for o, q in self.ev(n.value, st):
            out.append((self.attr(o, n.attr, q, n), q))
        return out

    def attr(self, o, a, st, n):
        if o == ('self',):
            if 'self.' + a in st.env:
                return st.env['self.' + a]
            if a in self.meths:
                return ('meth', a)
            return TOP
        if o == ('cls',) and a in self.meths:
            return ('unbound', a)
        if o == ('comm',):
            if a == 'size':
                return SIZE
            if a == 'rank':
                return sym('rank')
            return ('comm.', a)
        if o == ('mpi',):
            return ('mpi.', a)
        if isinstance(o, tuple) and o and o[0] == 'ref':
            h = st.heap[o[1]]
            if isinstance(h, dict):
                if a in ('tag', 'source'):
                    return h.get(a, TOP)
            return ('bound', o, a)
        if isinstance(o, tuple) and o and o[0] == 'builtin':
            return ('builtin', o[1] + '.' + a)
        return ('bound', o, a)

    def e_Tuple(self, n, st):
        outs = [((), st)]
        for e in n.elts:
            outs = [(vs + (v,), q2) for vs, q in outs for v, q2 in self.ev(e, q)]
        return [(('tuple', vs), q) for vs, q in outs]

    def e_List(self, n, st):
        out = []
        for v, q in self.e_Tuple(n, st):
            out.append((self.alloc(q, Bag('list', v[1], Lin(len(v[1])), ('display',))), q))
        return out

    def e_Set(self, n, st):
        out = []
        for v, q in self.e_Tuple(n, st):
            out.append((self.alloc(q, Bag('set', v[1], None, ('display',))), q))
        return out

    def e_Dict(self, n, st):
        if n.keys:
            raise Gap('dict display')
        return [(self.alloc(st, Bag('dict', (), Lin(0), ('display',))), st)]

    def e_IfExp(self, n, st):
        out = []
        for c, q in self.cond(n.test, st):
            out += self.ev(n.body if c else n.orelse, q)
        return out

    def e_BoolOp(self, n, st):
        return self.cond(n, st)

    def e_Compare(self, n, st):
        return self.cond(n, st)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.cond(n, st)
        out = []
        for v, q in self.ev(n.operand, st):
            out.append((-v if isinstance(v, Lin) and isinstance(n.op, ast.USub) else TOP, q))
        return out

    def e_NamedExpr(self, n, st):
        return [(v, z) for v, q in self.ev(n.value, st) for z in self.assign(n.target, v, q, n)]

    def e_BinOp(self, n, st):
        out = []
        for a, q in self.ev(n.left, st):
            for b, q2 in self.ev(n.right, q):
                out.append((self.binop(a, n.op, b, q2), q2))
        return out

    def binop(self, a, op, b, st):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                if a.const() is not None:
                    return b * a.c
                if b.const() is not None:
                    return a * b.c
        if all(isinstance(x, Lin) or isinstance(x, tuple) and x[0] == 'op' for x in (a, b)):
            return ('op', type(op).__name__, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(op, ast.Mult) and isinstance(y, Lin) and isinstance(x, tuple) and x and x[0] == 'ref':
                h = st.heap[x[1]]
                if isinstance(h, Bag) and h.n == Lin(1):
                    return self.alloc(st, Bag('list', h.elems, y, ('repeat',)))
        if isinstance(op, ast.Sub) and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'ref' and b[0] == 'ref':
            x, y = st.heap[a[1]], st.heap[b[1]]
            if isinstance(x, Bag) and isinstance(y, Bag) and isinstance(x.origin, tuple) and x.origin[0] == 'ranks' and y.origin == ('display',):
                return self.alloc(st, Bag('set', x.elems, None, ('ranks', x.origin[1], x.origin[2] | set(y.elems))))
        return TOP

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'gen')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def comp(self, n, st, kind):
        if len(n.generators) != 1:
            raise Gap('comprehension')
        g = n.generators[0]
        out = []
        for it, q in self.ev(g.iter, st):
            star = Lin(0, {STAR: 1})
            if it == ('tasks',):
                el, cnt, org = ('arg', star), N, ('tasks',)
            elif isinstance(it, tuple) and it[0] == 'enum' and it[1] == ('tasks',):
                el, cnt, org = ('tuple', (star + it[2], ('arg', star))), N, ('tasks',)
            elif isinstance(it, tuple) and it[0] == 'range':
                el, cnt, org = star + it[1], it[2] - it[1], ('range', it[1], it[2])
            elif isinstance(it, tuple) and it[0] == 'ref' and isinstance(q.heap[it[1]], Bag) and len(q.heap[it[1]].elems) == 1:
                b = q.heap[it[1]]
                el, cnt, org = b.elems[0], b.n, b.origin
            else:
                out.append((TOP, q))
                continue
            inner = q.clone()
            ss = self.assign(g.target, el, inner, n)
            keep = []
            filt = None
            if g.ifs:
                if org == ('tasks',):
                    org, cnt = None, sym(*self.fresh('some'))
                elif isinstance(org, tuple) and org[0] == 'range' and len(g.ifs) == 1:
                    org, cnt = self.filtered(g, org, ss[0]), None
                else:
                    raise Gap('filtered comprehension')
            vs = [v for s2 in ss for v, _ in self.ev(n.elt, s2)]
            if len(vs) != 1:
                raise Gap('comprehension value')
            if isinstance(org, tuple) and org[0] == 'range' and vs[0] == el and kind in ('set', 'list', 'gen'):
                org = ('ranks', org[1:], frozenset())
            elif isinstance(org, tuple) and org[0] == 'ranks' and vs[0] != el:
                org = None
            if vs[0] == ('none',):
                org = ('repeat',)
            out.append((self.alloc(q, Bag('list' if kind == 'gen' else kind, vs, cnt, org)), q))
        return out

    def filtered(self, g, org, st):
        """{r for r in range(a, b) if r != x}"""
        t = g.ifs[0]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotEq) and isinstance(g.target, ast.Name):
            a, b = t.left, t.comparators[0]
            if isinstance(b, ast.Name) and b.id == g.target.id:
                a, b = b, a
            if isinstance(a, ast.Name) and a.id == g.target.id:
                x = self.ev(b, st)[0][0]
                if isinstance(x, Lin):
                    return ('ranks', org[1:], frozenset([x]))
        raise Gap('filtered comprehension')

    def e_Subscript(self, n, st):
        out = []
        for o, q in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                raise Gap('slice')
            for i, q2 in self.ev(n.slice, q):
                out.append((self.item(o, i, q2, n), q2))
        return out

    def item(self, o, i, st, n):
        if isinstance(o, tuple) and o and isinstance(i, Lin):
            if o[0] == 'tuple' and i.const() is not None:
                return o[1][i.c]
            if o[0] == 'msg' and i.const() is not None:
                return ('part', o[1], i.c)
            if o == ('tasks',):
                return ('arg', i)
            if o[0] == 'ref':
                b = st.heap[o[1]]
                if isinstance(b, Bag) and b.origin == ('tasks',) and len(b.elems) == 1 and b.ver == 0:
                    return subst(b.elems[0], {STAR: i})
        return TOP

    def e_Lambda(self, n, st):
        return [(('fun', n), st)]

    def e_Starred(self, n, st):
        return [(('star', v), q) for v, q in self.ev(n.value, st)]

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st):
        outs = []
        for f, q in self.ev(n.func, st):
            argl = [((), q)]
            for a in n.args:
                argl = [(vs + (v,), q3) for vs, q2 in argl for v, q3 in self.ev(a, q2)]
            for vs, q2 in argl:
                kwl = [({}, q2)]
                for k in n.keywords:
                    if k.arg is None:
                        raise Gap('**')
                    kwl = [(dict(d, **{k.arg: v}), q4) for d, q3 in kwl for v, q4 in self.ev(k.value, q3)]
                for kw, q3 in kwl:
                    outs += self.call(f, list(vs), kw, q3, n)
        return outs

    def call(self, f, a, kw, st, n):
        if f[0] == 'comm.':
            return self.comm(f[1], a, kw, st, n)
        if f[0] == 'mpi.':
            if f[1] == 'Status':
                return [(self.alloc(st, {}), st)]
            return [(TOP, st)]
        if f[0] == 'meth':
            return self.inline(self.meths[f[1]], [('self',)] + a, kw, st, n)
        if f[0] == 'unbound':
            return self.inline(self.meths[f[1]], a, kw, st, n)
        if f[0] == 'fun':
            return self.inline(f[1], a, kw, st, n)
        if f[0] == 'builtin':
            return self.builtin(f[1], a, kw, st, n)
        if f[0] == 'bound':
            return self.bound(f[1], f[2], a, kw, st, n)
        if f in (('F',),) or f[0] == 'part':
            return [(('call', f, tuple(a)), st)]
        return [(TOP, st)]

    def inline(self, fn, a, kw, st, n):
        self.depth += 1
        if self.depth > 12:
            raise Gap('recursion')
        try:
            ar = fn.args
            names = [x.arg for x in ar.posonlyargs + ar.args]
            if ar.vararg or ar.kwarg:
                raise Gap('variable arguments')
            loc = dict(zip(names, a))
            for k, v in kw.items():
                loc[k] = v
            for x, d in zip(reversed(names), reversed(ar.defaults)):
                if x not in loc:
                    loc[x] = self.ev(d, st)[0][0]
            for x, d in zip([y.arg for y in ar.kwonlyargs], ar.kw_defaults):
                if x not in loc and d is not None:
                    loc[x] = self.ev(d, st)[0][0]
            if isinstance(fn, ast.Lambda):
                st2 = st
                saved = dict(st.env)
                st2.env = dict(saved, **loc)
                outs = []
                for v, q in self.ev(fn.body, st2):
                    q.env = {**saved, **{k: x for k, x in q.env.items() if k.startswith('self.')}}
                    outs.append((v, q))
                return outs
            self.visited.add(fn.name)
            saved = dict(st.env)
            nested = fn.name in st.env
            st.env = {**{k: v for k, v in saved.items() if k.startswith('self.') or nested}, **loc}
            outs = []
            for q, sig in self.block(fn.body, st):
                inner = {k: x for k, x in q.env.items() if k.startswith('self.')}
                nl = {x for s in ast.walk(fn) if isinstance(s, ast.Nonlocal) for x in s.names}
                inner.update({k: q.env[k] for k in nl if k in q.env})
                q.env = {**saved, **inner}
                if sig is None:
                    outs.append((NONE, q))
                elif sig[0] == 'return':
                    outs.append((sig[1], q))
                elif sig[0] == '$raise':
                    q.ev.append(('raise', sig[1]))
                    outs.append((('$raise', sig[1]), q))
                else:
                    raise Gap('signal')
            return outs
        finally:
            self.depth -= 1

    def builtin(self, f, a, kw, st, n):
        if f == 'len' and a:
            x = a[0]
            if x == ('tasks',):
                return [(N, st)]
            if isinstance(x, tuple) and x[0] == 'ref' and isinstance(st.heap[x[1]], Bag):
                b = st.heap[x[1]]
                return [(b.n if b.n is not None else sym('len', x[1], b.ver), st)]
            if isinstance(x, tuple) and x[0] == 'tuple':
                return [(Lin(len(x[1])), st)]
        if f == 'enumerate':
            s = a[1] if len(a) > 1 else kw.get('start', Lin(0))
            x = a[0]
            if isinstance(x, tuple) and x[0] == 'ref' and isinstance(st.heap[x[1]], Bag) and st.heap[x[1]].origin == ('tasks',) and \
                    st.heap[x[1]].elems == (('arg', Lin(0, {STAR: 1})),) and st.heap[x[1]].ver == 0:
                x = ('tasks',)
            return [(('enum', x, s), st)]
        if f == 'range':
            if all(isinstance(x, Lin) for x in a) and len(a) in (1, 2):
                return [(('range', Lin(0) if len(a) == 1 else a[0], a[-1]), st)]
            return [(TOP, st)]
        if f in ('set', 'list', 'sorted', 'deque', 'collections.deque', 'tuple', 'iter', 'reversed'):
            kind = 'set' if f == 'set' else 'list'
            if not a:
                return [(self.alloc(st, Bag(kind, (), Lin(0), ('display',))), st)]
            x = a[0]
            if isinstance(x, tuple):
                if x[0] == 'range':
                    return [(self.alloc(st, Bag(kind, (Lin(0, {STAR: 1}),), x[2] - x[1], ('ranks', x[1:], frozenset()))), st)]
                if x[0] == 'ref' and isinstance(st.heap[x[1]], Bag):
                    b = st.heap[x[1]].clone()
                    b.kind = kind
                    return [(self.alloc(st, b), st)]
                star = Lin(0, {STAR: 1})
                if x == ('tasks',):
                    return [(self.alloc(st, Bag(kind, (('arg', star),), N, ('tasks',))), st)]
                if x[0] == 'enum' and x[1] == ('tasks',):
                    return [(self.alloc(st, Bag(kind, (('tuple', (star + x[2], ('arg', star))),), N, ('tasks',))), st)]
                if x[0] == 'tuple':
                    return [(self.alloc(st, Bag(kind, x[1], Lin(len(x[1])), ('display',))), st)]
            return [(TOP, st)]
        if f == 'bool' and a:
            return self.truth(a[0], st)
        if f == 'int' and a and isinstance(a[0], Lin):
            return [(a[0], st)]
        if f in ('sys.exit', 'exit', 'quit', 'os._exit'):
            st.ev.append(('exit', n))
            return [(('$raise', n), st)]
        if f == 'print' or f.startswith(('logging.', 'log.', 'logger.', 'warnings.', 'time.', 'atexit.')):
            if f == 'atexit.register':
                st.ev.append(('atexit', a, n))
            return [(NONE, st)]
        if f == 'next':
            return [(TOP, st)]
        return [(TOP, st)]

    def bound(self, o, m, a, kw, st, n):
        b = st.heap.get(o[1]) if isinstance(o, tuple) and o[0] == 'ref' else None
        if isinstance(b, dict):
            if m in ('Get_tag', 'Get_source'):
                return [(b.get(m[4:], TOP), st)]
            return [(TOP, st)]
        if isinstance(b, Bag):
            if m == 'copy':
                return [(self.alloc(st, b.clone()), st)]
            if m in ('pop', 'popleft') and b.kind in ('list', 'set', 'deque') and (not a or b.kind == 'list'):
                outs = []
                tok = sym(*self.fresh('pop'))
                for e in b.elems:
                    q = st.clone()
                    c = q.heap[o[1]]
                    c.ver += 1
                    c.n = c.n - Lin(1) if c.n is not None else None
                    v = subst(e, {STAR: tok})
                    q.ev.append(('pop', o, v, n, q.facts.get(('nonempty', o[1], b.ver))))
                    outs.append((v, q))
                if not b.elems:
                    return [(TOP, st)]
                return outs
            if m in ('append', 'add', 'appendleft') or (m == 'insert' and len(a) == 2):
                v = a[-1]
                b.ver += 1
                b.n = b.n + Lin(1) if b.n is not None and b.kind != 'set' else None
                if b.origin is not None and not (isinstance(b.origin, tuple) and b.origin[0] in ('display',)):
                    b.origin = b.origin
                if v not in b.elems:
                    b.elems = b.elems + (v,)
                st.ev.append(('put', o, v, n))
                return [(NONE, st)]
            if m in ('discard', 'remove'):
                v = a[0]
                if isinstance(b.origin, tuple) and b.origin[0] == 'ranks' and b.ver == 0 and isinstance(v, Lin):
                    b.origin = ('ranks', b.origin[1], b.origin[2] | {v})
                    b.n = None
                    return [(NONE, st)]
                b.ver += 1
                b.n = None
                st.ev.append(('take', o, v, n))
                return [(NONE, st)]
            if m == 'difference' and len(a) == 1:
                return [(self.binop(o, ast.Sub(), a[0], st), st)]
            if m == 'reverse' and b.kind == 'list':
                return [(NONE, st)]
            if m == 'clear':
                b.ver += 1
                b.elems, b.n = (), Lin(0)
                return [(NONE, st)]
            if m in ('items', 'keys', 'values', 'get'):
                return [(TOP, st)]
            raise Gap('%s of a collection at %s' % (m, self.loc(n)))
        return [(TOP, st)]

    def comm(self, m, a, kw, st, n):
        arg = lambda i, name, d: a[i] if len(a) > i else kw.get(name, d)
        if m == 'Get_size':
            return [(SIZE, st)]
        if m == 'Get_rank':
            return [(sym('rank'), st)]
        if m in ('send', 'ssend', 'isend', 'issend', 'bsend'):
            if m[0] in 'i':
                st.ev.append(('gap', n))
            st.ev.append(('send', arg(0, 'obj', TOP), arg(1, 'dest', TOP), arg(2, 'tag', Lin(0)), n, st.sent, dict(st.facts), list(st.eq0)))
            st.sent = st.sent + Lin(1)
            return [(NONE, st)]
        if m == 'recv':
            src, tag, stat = arg(1, 'source', ('mpi.', 'ANY_SOURCE')), arg(2, 'tag', ('mpi.', 'ANY_TAG')), arg(3, 'status', NONE)
            pr = None
            if isinstance(src, Lin) and isinstance(tag, Lin) and len(src.t) == 1 and len(tag.t) == 1:
                s, t = next(iter(src.t)), next(iter(tag.t))
                if s[0] == 'source' and t[0] == 'tag' and s[1] == t[1]:
                    pr = s[1]
            mid = pr if pr is not None else self.fresh('m')[1]
            if isinstance(stat, tuple) and stat[0] == 'ref':
                st.heap[stat[1]] = dict(tag=sym('tag', mid), source=sym('source', mid))
            st.ev.append(('recv', mid, src, tag, n, dict(st.facts), st.sent, pr))
            st.recv = st.recv + Lin(1)
            return [(('msg', mid), st)]
        if m in ('Probe', 'probe', 'Iprobe', 'iprobe'):
            mid = self.fresh('m')[1]
            stat = arg(2, 'status', NONE)
            if isinstance(stat, tuple) and stat[0] == 'ref':
                st.heap[stat[1]] = dict(tag=sym('tag', mid), source=sym('source', mid))
            src, tag = arg(0, 'source', ('mpi.', 'ANY_SOURCE')), arg(1, 'tag', ('mpi.', 'ANY_TAG'))
            st.ev.append(('probe', mid, src, tag, n, dict(st.facts), m))
            return [(('flag', mid) if m[0] in 'Ii' else NONE, st)]
        raise Gap('comm.%s at %s' % (m, self.loc(n)))


ANY = (('mpi.', 'ANY_SOURCE'), ('mpi.', 'ANY_TAG'))


def opaque(v):
    if isinstance(v, Lin):
        return False
    if isinstance(v, tuple):
        return v == TOP or any(opaque(x) for x in v if isinstance(x, tuple))
    return False


def self_env(An_, st, workers=True):
    st.env['self'] = ('self',)
    st.env['self.comm'] = ('comm',)
    return st


# ------------------------------------------------------------------------------------------------- rules
def analyse_init(R, A):
    """the constructor: ranks of the workers, the worker branch"""
    st = St()
    st.env.update({'self': ('self',), 'comm': ('comm',), 'use_dill': True})
    st.facts[('none', ('comm',))] = False
    fn = A.meths['__init__']
    orig = A.meths.get('wait')
    ends = []
    marker = ast.parse('def wait(self):\n    return self.comm.barrier__()').body[0]
    A2 = A
    # the wait method is analysed on its own: here it is a marked call
    A2.meths = dict(A.meths, wait=marker)
    real = A2.comm

    def comm(m, a, kw, st, n):
        if m == 'barrier__':
            st.ev.append(('wait', n))
            return [(NONE, st)]
        return real(m, a, kw, st, n)
    A2.comm = comm
    try:
        ends = A2.inline(fn, [('self',)], dict(comm=('comm',)), st, fn)
    finally:
        A2.comm = real
        A2.meths = dict(A2.meths, wait=orig)
    return ends


def init_rule(R, A):
    ends = analyse_init(R, A)
    rank = sym('rank')
    env = None
    for v, q in ends:
        z = q.facts.get(('zero', rank), q.facts.get(('zero', -rank)))
        waits = [e for e in q.ev if e[0] == 'wait']
        exited = isinstance(v, tuple) and v[0] == '$raise'
        if z is True:
            R.ob('roles', A.loc(A.meths['__init__']), not waits, 'the master waits for tasks' if waits else 'the master does not wait')
            if not exited:
                w = q.env.get('self.workers')
                b = q.heap.get(w[1]) if isinstance(w, tuple) and w[0] == 'ref' else None
                if not isinstance(b, Bag) or not isinstance(b.origin, tuple) or b.origin[0] != 'ranks':
                    R.ob('worker-ranks', A.loc(A.meths['__init__']), None, 'the workers are %r' % (w,))
                else:
                    (lo, hi), ex = b.origin[1], b.origin[2]
                    m = q.env.get('self.master')
                    ok = hi == SIZE and ((lo == Lin(0) and ex == {Lin(0)}) or (lo == Lin(1) and not ex))
                    R.ob('worker-ranks', A.loc(A.meths['__init__']), ok, 'ranks %r to %r without %s' % (lo, hi, sorted(map(repr, ex))))
                    env = q
                if 'self.master' in q.env:
                    R.ob('worker-ranks', 'self.master', q.env['self.master'] == Lin(0), 'the master is rank %r' % (q.env['self.master'],))
        elif z is False:
            R.ob('roles', A.loc(A.meths['__init__']), len(waits) == 1 and exited, 'a worker waits for tasks and then exits' if waits else
                 'a worker returns from the constructor without waiting for tasks')
        else:
            R.ob('roles', A.loc(A.meths['__init__']), None, 'the constructor does not tell master and worker apart')
    return env


def pool_state(env, rank_zero):
    st = St()
    for k, v in env.env.items():
        if k.startswith('self.'):
            st.env[k] = v
    st.env['self'] = ('self',)
    st.heap = {k: (v.clone() if isinstance(v, Bag) else dict(v)) for k, v in env.heap.items()}
    st.facts[('zero', sym('rank'))] = rank_zero
    return st


def wait_rule(R, A, env):
    """the worker loop: one reply per task with its tag, until told to quit"""
    fn = A.meths['wait']
    st = pool_state(env, False)
    n0 = len(A.loops)
    outs = A.inline(fn, [('self',)], {}, st, fn)
    ls = [l for l in A.loops[n0:] if any(e[0] == 'recv' for q, _ in l['ends'] for e in q.ev[l['n0']:])]
    if len(ls) != 1:
        R.ob('worker-reply', A.loc(fn), None, 'the worker has %d receiving loops' % len(ls))
        return
    l = ls[0]
    loc = A.loc(l['node'])
    head = 'head%d' % l['id'] if l['carried'] else None
    for q in l['exits']:
        if any(k[0] in ('truth', 'cond') and 'top' in repr(k) for k in q.facts):
            continue
        if q.ev[l['n0']:] or not any(q.facts.get(k) is False for k in q.facts if k[0] == 'task'):
            R.ob('worker-quit', loc, None if any(k[0] in ('truth', 'cond') for k in q.facts) else False, 'the worker leaves the loop without being told to quit')
    told = {e[1] for q2, _ in l['ends'] for e in q2.ev if e[0] == 'recv' and q2.facts.get(('task', e[1])) is False}
    told |= {k[1] for q2 in l['exits'] for k, v in q2.facts.items() if k[0] == 'task' and v is False}
    R.ob('worker-quit', loc, bool(told), 'a task is told apart from the order to quit')
    for q, sig in l['ends']:
        ev = q.ev[l['n0']:]
        rv = [e for e in ev if e[0] == 'recv']
        sd = [e for e in ev if e[0] == 'send']
        leaves = sig is not None and sig[0] in ('break', 'return')
        if not leaves and (sig is None or sig[0] == 'continue') and isinstance(l['node'], ast.While):
            cs = A.cond(l['node'].test, q.clone())
            leaves = bool(cs) and not any(c for c, _ in cs)
        for e in rv:
            ok = e[2] in (ANY[0], Lin(0)) and e[3] == ANY[1]
            R.ob('worker-receive', A.loc(e[4]), ok if ok or not (opaque(e[2]) or opaque(e[3])) else None, 'from %r with tag %r' % (e[2], e[3]))
        msgs = [head] if head else []
        msgs += [e[1] for e in rv]
        keep = [q.env[n][1] for n in l['carried'] if isinstance(q.env.get(n), tuple) and q.env[n][0] == 'msg'] if not leaves else []
        msgs = [m for m in msgs if m not in keep]
        if len(msgs) != 1:
            R.ob('worker-reply', loc, None if msgs or keep else False, '%d messages are received in a round' % len(msgs))
            continue
        m = msgs[0]
        task = q.facts.get(('task', m))
        extra = [k for k in q.facts if k[0] in ('truth', 'cond', 'none', 'zero', 'le0') and (k not in l['start'].facts)]
        if task is False:
            R.ob('worker-quit', loc, leaves and not sd, 'None ends the loop without a reply' if leaves else 'the worker goes on after being told to quit')
            continue
        if leaves:
            R.ob('worker-quit', loc, False, 'the worker quits after a task')
            continue
        if len(sd) != 1:
            R.ob('worker-reply', loc, False, '%d replies to a task%s' % (len(sd), ' if %s' % (extra,) if extra else ''))
            continue
        _, pay, dest, tag, node = sd[0][:5]
        s2 = A.loc(node)
        ok = tag == sym('tag', m)
        R.ob('worker-tag', s2, ok if ok or not opaque(tag) else None, 'the reply to the task of message %s has tag %r' % (m, tag))
        ok = dest in (Lin(0), sym('source', m))
        R.ob('worker-reply', s2, ok if ok or not opaque(dest) else None, 'the reply is sent to %r' % (dest,))
        want = ('call', ('part', m, 0), (('part', m, 1),))
        ok = pay == want
        R.ob('worker-reply', s2, ok if ok or not opaque(pay) else None, 'the reply is %r' % (pay,))
    quits = any(sig and sig[0] in ('break', 'return') for _, sig in l['ends']) or l['exits']
    R.ob('worker-quit', loc, bool(quits), 'the loop ends')
    for v, q in outs:
        if isinstance(v, tuple) and v[0] == '$raise':
            R.ob('worker-quit', loc, None, 'the worker raises')


def close_rule(R, A, env):
    fn = A.meths['close']
    st = pool_state(env, True)
    n0 = len(A.loops)
    outs = A.inline(fn, [('self',)], {}, st, fn)
    W = env.env.get('self.workers')
    ls = A.loops[n0:]
    sends = [(l, q, sig) for l in ls for q, sig in l['ends'] if any(e[0] == 'send' for e in q.ev[l['n0']:])]
    loc = A.loc(fn)
    if not sends:
        any_ = any(e[0] == 'send' for v, q in outs for e in q.ev)
        R.ob('close', loc, None if any_ or any(opaque(v) for v, _ in outs) else False, 'close tells no worker to quit')
        return
    l = sends[0][0]
    if len({id(x[0]) for x in sends}) != 1:
        R.ob('close', loc, None, 'several sending loops')
        return
    it = l['it']
    same = False
    if isinstance(it, tuple) and it[0] == 'ref':
        b, w = st.heap.get(it[1]) or l['pre'].heap.get(it[1]), l['pre'].heap.get(W[1])
        same = it == W or (isinstance(b, Bag) and isinstance(w, Bag) and b.origin == w.origin and b.elems == w.elems)
        undec = not isinstance(b, Bag) or b.origin is None
    elif isinstance(it, tuple) and it[0] == 'range':
        same, undec = it[1:] == (Lin(1), SIZE), False
    else:
        undec = True
    R.ob('close', loc, True if same else None if undec else False, 'the loop runs over %s' % ('the workers' if same else it,))
    for q, sig in l['ends']:
        ev = q.ev[l['n0']:]
        sd = [e for e in ev if e[0] == 'send']
        each = [e for e in ev if e[0] == 'each']
        if sig is not None and sig[0] in ('break', 'return'):
            R.ob('close', loc, False, 'the loop over the workers is left early')
        if len(sd) != 1:
            R.ob('close', loc, False, 'a worker is sent %d messages' % len(sd))
            continue
        ok = sd[0][1] == NONE
        R.ob('close', A.loc(sd[0][4]), ok if ok or not opaque(sd[0][1]) else None, 'sends %r' % (sd[0][1],))
        d = sd[0][2]
        ok = q.env.get(l['node'].target.id) == d if isinstance(l['node'], ast.For) and isinstance(l['node'].target, ast.Name) else None
        R.ob('close', A.loc(sd[0][4]), ok, 'to %r' % (d,))
    st = pool_state(env, False)
    outs = A.inline(fn, [('self',)], {}, st, fn)
    for v, q in outs:
        R.ob('close', loc + ' on a worker', not any(e[0] == 'send' for e in q.ev), 'a worker sends nothing')


def exit_rule(R, A, env):
    """leaving the context closes the pool"""
    if '__exit__' not in A.meths:
        return
    fn = A.meths['__exit__']
    st = pool_state(env, True)
    calls = []
    real = A.meths['close']
    mark = ast.parse('def close(self):\n    return self.comm.closed__()').body[0]
    A.meths = dict(A.meths, close=mark)
    rc = A.comm

    def comm(m, a, kw, s, n):
        if m == 'closed__':
            s.ev.append(('closed',))
            return [(NONE, s)]
        return rc(m, a, kw, s, n)
    A.comm = comm
    try:
        body = fn.body
        st.env['self'] = ('self',)
        for x in fn.args.args[1:]:
            st.env[x.arg] = TOP
        if fn.args.vararg:
            st.env[fn.args.vararg.arg] = TOP
        outs = A.block(body, st)
    finally:
        A.comm = rc
        A.meths = dict(A.meths, close=real)
    for q, sig in outs:
        ok = any(e[0] == 'closed' for e in q.ev)
        R.ob('close', A.loc(fn), ok, 'leaving the with block %s the pool' % ('closes' if ok else 'does not close'))


def map_rule(R, A, env):
    fn = A.meths['map']
    st = pool_state(env, True)
    W = env.env.get('self.workers')
    n0 = len(A.loops)
    outs = A.inline(fn, [('self',), ('F',), ('tasks',)], {}, st, fn)
    loops = A.loops[n0:]
    loc = A.loc(fn)
    # every piece of code between loop heads: the bodies and the straight code
    seg = [(l, q, sig, q.ev[l['n0']:]) for l in loops for q, sig in l['ends']]
    nsend = nrecv = 0
    for l, q, sig, ev in seg:
        nsend += sum(e[0] == 'send' for e in ev)
        nrecv += sum(e[0] == 'recv' for e in ev)
    if not nsend or not nrecv:
        R.ob('task-sent', loc, None, 'no loop sends tasks and collects results')
        return
    for l, q, sig, ev in seg:
        segment(R, A, l, q, sig, ev, W)
    for l in loops:
        test = getattr(l['node'], 'test', None)
        names = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} if test is not None else set()
        for n, vals in l['unfit'].items():
            if n not in names:
                continue
            for sgn in (-1, 1):
                good = [v for v in vals if v[1].const() and v[0] == v[1] * sgn]
                bad = [v for v in vals if v[0] != v[1] * sgn and v[0].const() is not None and v[1].const() is not None]
                if good and bad:
                    R.ob('all-results', A.loc(l['node']), False, 'a round that receives %r results changes %s by %r' % (bad[0][1], n, bad[0][0]))
                    break
    for v, q in outs:
        if isinstance(v, tuple) and v[0] == '$raise':
            continue
        final(R, A, v, q, loc, loops)
        w = q.heap.get(W[1]) if isinstance(W, tuple) and W[0] == 'ref' else None
        w0 = env.heap.get(W[1]) if w is not None else None
        ok = q.env.get('self.workers') == W and w is not None and w.ver == w0.ver and w.elems == w0.elems
        R.ob('workers-kept', loc, ok if w is not None else None, 'the set of workers %s' % ('is kept' if ok else 'is changed by map'))
    # on a worker
    st = pool_state(env, False)
    return loops


def segment(R, A, l, q, sig, ev, W):
    loc = A.loc(l['node'])
    pops = [e for e in ev if e[0] == 'pop']
    sends = [e for e in ev if e[0] == 'send']
    recvs = [e for e in ev if e[0] == 'recv']
    puts = [e for e in ev if e[0] == 'put']
    stores = [e for e in ev if e[0] == 'store']
    eachs = [e for e in ev if e[0] == 'each' and len(e) > 3]
    used, dests = [], []
    for e in sends:
        _, pay, dest, tag, node, cnt, facts, eq0 = e
        s = A.loc(node)
        # the task
        ok = None
        if isinstance(pay, tuple) and pay[0] == 'tuple' and len(pay[1]) == 2:
            f, a = pay[1]
            if isinstance(a, tuple) and a[0] == 'arg' and isinstance(tag, Lin):
                ok = f == ('F',) and a[1] == tag
                R.ob('task-tag', s, ok, 'task %r is sent with tag %r to call %r' % (a[1], tag, f))
                used.append(a[1])
                k = next(iter(a[1].t)) if len(a[1].t) == 1 and a[1] == Lin(0, {next(iter(a[1].t)): 1}) else None
                if k is not None and k[0] in ('pop', 'each'):
                    pass
                elif a[1] == cnt:
                    pass
                elif k is not None and k[0] == 'rounds' and k[1] == l['id']:
                    pass
                else:
                    R.ob('task-sent', s, None, 'task %r is the %r-th message sent' % (a[1], cnt))
            else:
                R.ob('task-tag', s, None if opaque(pay) or opaque(tag) else False, 'sends %r with tag %r' % (pay, tag))
        else:
            R.ob('task-tag', s, None if opaque(pay) else False, 'sends %r' % (pay,))
        # the destination: a worker that is idle
        d = dest
        if not isinstance(d, Lin) or len(d.t) != 1:
            fixed = isinstance(d, tuple) and any(x == 'Mod' for x in flat(d)) and any(isinstance(x, Lin) and any(k[0] in ('pop', 'sent') for k in x.t)
                                                                                      for x in flat(d)) and not recvs
            R.ob('idle-worker', s, False if fixed or isinstance(d, Lin) else None, 'the task goes to rank %r whether it is idle or not' % (d,))
        else:
            frompop = [p for p in pops if p[2] == d or (isinstance(p[2], tuple) and d in p[2])]
            fromeach = [p for p in eachs if p[3] == d]
            k = next(iter(d.t))
            fromrecv = k[0] == 'source' and any(r[1] == k[1] and q.ev.index(r) < q.ev.index(e) for r in recvs)
            if d in dests:
                R.ob('idle-worker', s, False, 'the worker gets a second task before its result was collected')
            elif frompop or fromeach:
                R.ob('idle-worker', s, True, 'the worker is taken from the idle ones')
            elif fromrecv:
                put = any(p[2] == d for p in puts)
                R.ob('idle-worker', s, not put, 'the worker whose result was collected' + (' is also left among the idle ones' if put else ''))
            elif k[0] == 'source':
                R.ob('idle-worker', s, None, 'the worker %r' % (d,))
            else:
                R.ob('idle-worker', s, None, 'the worker %r' % (d,))
            dests.append(d)
    # a task taken from the list is sent, and only once
    for p in pops:
        toks = list(args_of(p[2]))
        if toks:
            n = sum(u == toks[0] for u in used)
            back = [x for x in puts if any(t == toks[0] for t in args_of(x[2]))]
            R.ob('task-sent', A.loc(p[3]), n + len(back) == 1, 'a task taken from the list is sent %d times%s' % (n, ' and put back' if back else ''))
            if p[4] is not True:
                R.ob('task-sent', A.loc(p[3]), None if p[4] is None else False, 'a task is taken from a list that may be empty')
        elif isinstance(p[2], Lin):
            n = sum(d == p[2] for d in dests)
            back = any(x[2] == p[2] for x in puts)
            R.ob('idle-worker', A.loc(p[3]), n == 1 or back, 'a worker taken from the idle ones gets %d tasks' % n)
            if p[4] is not True:
                R.ob('idle-worker', A.loc(p[3]), None if p[4] is None and not plain(l, q, p) else False,
                     'a worker is taken from a set that may be empty')
    # received results
    for r in recvs:
        _, m, src, tag, node, facts, sent, pr = r
        s = A.loc(node)
        mine = [x for x in stores if mentions(x[3], m)]
        apps = [x for x in puts if mentions(x[2], m) and not isinstance(x[2], Lin)]
        if len(mine) != 1:
            bad = not mine and not apps
            R.ob('result-place', s, False if bad else None, 'a received result is stored %d times' % len(mine))
        else:
            _, o, i, v, nd = mine[0]
            okv = v == ('msg', m)
            oki = i == sym('tag', m)
            R.ob('result-place', A.loc(nd), True if okv and oki else None if opaque(v) or opaque(i) else False,
                 'the result of message %d is stored as %r at %r' % (m, v, i))
        back = [x for x in puts if x[2] == sym('source', m)]
        direct = sym('source', m) in dests
        other = [x for x in puts if isinstance(x[2], Lin) and x not in back]
        n = len(back) + direct
        if n != 1:
            # handed out in a straight line or never again
            none_left = used_up(q.facts, q.sent) or any(k[0] == 'nonempty' and v is False and any(True for y in q.heap[k[1]].elems for _ in args_of(y))
                                                        for k, v in q.facts.items() if isinstance(q.heap.get(k[1]), Bag))
            if n == 0 and none_left:
                R.ob('idle-worker', s, True, 'no task is left for the worker')
            elif n == 0 and not other and not any(opaque(x[2]) for x in puts):
                R.ob('idle-worker', s, False, 'the worker whose result was collected gets no further task')
            else:
                R.ob('idle-worker', s, None if n == 0 and any(opaque(x[2]) for x in puts) else False,
                     'the worker whose result was collected becomes idle %d times%s' % (n, ', but %r does' % (other[0][2],) if other else ''))
        else:
            R.ob('idle-worker', s, True, 'the worker is idle again once its result was collected')
        # waiting only for something that comes
        flags = [k for k, v in facts.items() if k[0] == 'flag' and v is True]
        anyrecv = src == ANY[0] and tag == ANY[1]
        if pr is None and not anyrecv:
            R.ob('progress', s, None, 'receives from %r with tag %r' % (src, tag))
        elif flags or any(x[0] == 'probe' and x[6] in ('Probe', 'probe') and q.ev.index(x) < q.ev.index(r) for x in ev):
            R.ob('progress', s, True, 'a message has arrived')
        else:
            R.ob('progress', s, True if blocked(A, l, q, facts, sent) else None, 'waits while results are outstanding')
    for x in ev:
        if x[0] == 'probe':
            _, m, src, tag, node, facts, kind = x
            if kind in ('Probe', 'probe'):
                if not (src == ANY[0] and tag == ANY[1]):
                    R.ob('progress', A.loc(node), None, 'waits for %r with tag %r' % (src, tag))
                    continue
                b = blocked(A, l, q, facts, q.sent)
                R.ob('progress', A.loc(node), b, 'waits %s' % ('while results are outstanding' if b else
                     'for a result although there may be none outstanding, with tasks and idle workers left' if b is False else '(not decided)'))
            elif q.facts.get(('flag', m)) is True and not recvs and not (sig and sig[0] == 'return'):
                R.ob('progress', A.loc(node), False, 'a result that has arrived is not collected in the round')
    # returned early
    for o in puts:
        if isinstance(o[2], Lin) and len(o[2].t) == 1:
            k = next(iter(o[2].t))
            if k[0] == 'source' and not any(r[1] == k[1] for r in recvs):
                R.ob('idle-worker', A.loc(o[3]), False, 'a worker becomes idle although its result was not collected')


def flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flat(x)
    else:
        yield v


def plain(l, q, p):
    """nothing on the way to this point says anything about the number of idle workers"""
    if not isinstance(l['node'], ast.While) or any(e[0] in ('put', 'recv') for e in q.ev[l['n0']:q.ev.index(p)]):
        return False
    for k in q.facts:
        if k[0] in ('truth', 'cond', 'none'):
            return False
        if k[0] in ('zero', 'le0') and any(s[0] not in ('tasks', 'received', 'rank', 'size') for s in k[1].t):
            return False
    return True


def args_of(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'arg':
            yield v[1]
        for x in v:
            yield from args_of(x)


def mentions(v, m):
    if v == ('msg', m):
        return True
    return isinstance(v, tuple) and any(mentions(x, m) for x in v)


def blocked(A, l, q, facts, sent):
    """is a result certain to be outstanding here?  True / False / None"""
    sent_here = any(e[0] == 'send' for e in q.ev[l['n0']:])
    if sent_here:
        return True
    empt = []
    for k, v in facts.items():
        if k[0] == 'nonempty' and v is False:
            b = q.heap.get(k[1])
            if isinstance(b, Bag):
                empt.append(k[1])
    # tasks used up with results missing, or no idle worker
    if empt or used_up(facts, sent):
        return True
    for k in facts:
        if k[0] in ('truth', 'cond', 'flag', 'none'):
            return None
        if k[0] in ('zero', 'le0') and any(y[0] not in ('tasks', 'received', 'rank', 'size') for y in k[1].t):
            return None
    return False


def used_up(facts, sent):
    """all tasks have been sent"""
    left = N - sent
    return any(facts.get(k) is True for k in (('le0', left), ('zero', left), ('zero', -left)))


def final(R, A, v, q, loc, loops):
    """what map returns"""
    # as many results as tasks have been received
    need = N - q.recv
    ok = False
    for f in q.eq0:
        if isinstance(f, Lin):
            if f == need or -f == need:
                ok = True
        elif f[0] == 'le' and f[1] == need:
            ok = True
    und = any(k[0] in ('truth', 'cond') for k in q.facts) or (not q.eq0)
    short = [f for f in q.eq0 if isinstance(f, (Lin, tuple))]
    if not ok and q.eq0:
        # another number of results: definite if it is a linear form of the same counters
        fs = [f if isinstance(f, Lin) else f[1] for f in q.eq0]
        def_ = any((f - need).const() not in (None, 0) or (-f - need).const() not in (None, 0) for f in fs)
        und = und or not def_
    R.ob('all-results', loc, True if ok else None if und else False,
         'map returns when %s = 0 with %r received of %r' % (q.eq0 and [repr(f) for f in q.eq0], q.recv, N))
    b = q.heap.get(v[1]) if isinstance(v, tuple) and v[0] == 'ref' else None
    if b is None:
        R.ob('result-place', loc, None if opaque(v) or isinstance(v, tuple) and v[0] not in ('none',) else False, 'map returns %r' % (v,))
        return
    if isinstance(b, Bag):
        stores = [e for l in loops for q2, s in l['ends'] for e in q2.ev[l['n0']:] if e[0] == 'store']
        into = [e for e in stores if e[1] == v]
        if not into:
            arr = [e for l in loops for q2, s in l['ends'] for e in q2.ev[l['n0']:] if e[0] == 'put' and e[1] == v and e[2][0] == 'msg']
            R.ob('result-place', loc, False if arr else None, 'the results are returned in the order in which they arrive' if arr else 'the results are not stored in the list that is returned')
            return
        R.ob('result-place', loc, all(e[1] == v for e in stores) or None, 'the list the results are stored in is returned')
        ok = b.n == N
        R.ob('result-place', loc + ' length', ok if ok or b.n is not None else None, 'the list has %r entries for %r tasks' % (b.n, N))


def check(R, repo):
    path = os.path.join(repo, 'pocomc', 'parallel.py')
    A = An(path)
    env = R.guard('roles', 'MPIPool.__init__', lambda: init_rule(R, A))
    if env is None:
        R.ob('roles', 'MPIPool.__init__', None, 'the constructor could not be followed')
        return A
    R.units.append('MPIPool')
    for nm, f in (('map', map_rule), ('wait', wait_rule), ('close', close_rule), ('__exit__', exit_rule)):
        R.guard('task-sent', 'MPIPool.' + nm, lambda: f(R, A, env))
    R.functions |= {'parallel.MPIPool.' + n for n in A.visited}
    R.loops |= {A.loc(l['node']) for l in A.loops}
    return A
