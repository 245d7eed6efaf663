"""Abstract interpreter over the ASTs of the package: computes the value graph.

Nothing of the analysed package is imported or run.  Calls between functions of the package
are followed (inlined), calls that leave the package become terms and events.
"""
import ast
import os
from .values import *


class PyRaise(Exception):
    def __init__(self, exc, args=()):
        self.exc = exc
        self.args_ = args


class Unsupported(Exception):
    pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'res', 'pc', 'loops', 'loc', 'seq', 'ivs', 'stack', 'extra', 'facts')

    def __repr__(self):
        return '%s %s @%s' % (self.kind, self.name, self.loc)


class LoopInfo:
    def __init__(self, id, loc, kind):
        self.id, self.loc, self.kind = id, loc, kind
        self.mus = {}        # mu base term -> dict(init, step, shape, path)
        self.lists = {}      # path -> dict(init=ListC, step=ListC)
        self.cond = None
        self.breaks = []     # (cond term, loc)
        self.exit = None
        self.parent = ()
        self.n = None
        self.iv = None
        self.changed = []
        self.head = None
        self.end = None


class Out:
    """outcomes of a block"""

    def __init__(self, st=None):
        self.st = st             # normal state or None
        self.ret = []            # (state, value)
        self.brk = []
        self.cont = []
        self.exc = []            # (state, ExcV)

    def take(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont
        self.exc += o.exc


EXC_PARENTS = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception', 'TypeError': 'Exception',
    'ValueError': 'Exception', 'AttributeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'ArithmeticError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'OSError': 'Exception', 'IOError': 'OSError',
    'FileNotFoundError': 'OSError', 'StopIteration': 'Exception', 'AssertionError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'Exception': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'UnicodeDecodeError': 'ValueError',
    'EOFError': 'Exception', 'PermissionError': 'OSError', 'FileExistsError': 'OSError', 'AnyError': 'Exception',
}


def exc_is(name, cls):
    while name is not None:
        if name == cls:
            return True
        name = EXC_PARENTS.get(name, 'Exception' if name not in ('BaseException', 'Exception') else
                               ('BaseException' if name == 'Exception' else None))
    return False


class Interp:
    def __init__(self, root, package='pocomc', sources=None):
        self.root = root
        self.package = package
        self.sources = sources or {}
        self.modenv = {}
        self.modast = {}
        self.modheap = {}
        self.modclass = {}
        self.events = []
        self.loops = {}
        self.loopstack = []
        self.ivs = []            # enclosing for-index variables (iv, extent)
        self.callstack = []
        self.visited = set()
        self.sites = 0
        self.nodes = 0
        self.hooks = {}          # 'Class.method' or 'func' -> handler(I, st, self_, args, kw, node)
        self.symmodels = {}      # sym term -> handler(I, st, obj, name, args, kw, node) for methods
        self.symtypes = {}       # sym term -> names of the types it is an instance of
        self.symattrs = {}       # sym term -> handler(I, st, obj, name)
        self.symtypes = {}       # sym term -> type name
        self.symcalls = {}       # callable term -> handler(I, st, f, args, kw, node)
        self.extattrs = {}       # full external name -> value
        self.scalars = set()     # terms known to be numbers
        self.scalar_apps = set()
        self.lens = {}           # sym -> length term
        self.rngobjs = set()
        self.occ = {}
        self.stableids = {}
        self.notes = []
        self.rnds = {}
        self._ids = 0
        self._seq = 0
        self.nullable = set()
        self.objfams = set()
        self.recording = True
        self.exc_edges = False
        self.cur = None
        self.depth = 0
        self.curcls = None
        from . import npmodel
        self.np = npmodel
        self.state0 = State()

    # ------------------------------------------------------------- utilities
    def newid(self):
        self._ids += 1
        return self._ids

    def stable(self, prefix, node):
        """an identifier that is the same when the enclosing loop body is analysed again"""
        enc = self.loopstack[-1] if self.loopstack else None
        key = (enc, prefix, self.callstack[-1][1] if self.callstack else '', getattr(node, 'lineno', 0),
               getattr(node, 'col_offset', 0))
        occ = self.occ.setdefault(enc, {})
        n = occ[key] = occ.get(key, 0) + 1
        k2 = key + (n,)
        if k2 not in self.stableids:
            self.stableids[k2] = '%s%d' % (prefix, self.newid())
        return self.stableids[k2]

    def note(self, msg, node=None):
        s = '%s: %s' % (self.loc(node), msg)
        if s not in self.notes:
            self.notes.append(s)

    def loc(self, node=None):
        node = node if node is not None else self.cur
        mod = self.callstack[-1][1] if self.callstack else '?'
        fn = self.callstack[-1][0] if self.callstack else '?'
        return '%s:%s (%s)' % (mod, getattr(node, 'lineno', '?'), fn)

    def event(self, st, kind, name, args=(), kw=None, res=None, node=None, **extra):
        e = Event()
        e.kind, e.name, e.args, e.kw, e.res = kind, name, args, kw or {}, res
        e.pc, e.facts = st.pc, st.facts
        e.loops = tuple(self.loopstack)
        e.loc = self.loc(node)
        e.ivs = tuple(self.ivs)
        e.stack = tuple(f for f, _ in self.callstack)
        e.extra = extra
        self._seq += 1
        e.seq = self._seq
        self.events.append(e)
        return e

    def symmodel(self, t):
        h = self.symmodels.get(t)
        if h is None and t.op == 'at':
            h = self.symmodels.get(('elem', t.args[0]))
        if h is None and t.op == 'app':
            h = self.symmodels.get(('app', t.args[0]))
        return h

    def snapshot(self, st, v):
        s = st.clone()
        return (s, v)

    def alloc(self, st, cell):
        i = self.newid()
        st.heap[i] = cell
        return Ref(i)

    def cell(self, st, ref):
        c = st.heap.get(ref.id)
        if c is None:
            c = self.modheap.get(ref.id)
        if c is None:
            raise Unsupported('dangling reference')
        return c

    # ------------------------------------------------------------- arrays
    def new_arr(self, st, shape, elem, dt=None, flags=EMPTY):
        shape = tuple(shape)
        if not shape:
            return elem
        return self.alloc(st, Arr(shape, elem, None, flags, dt))

    def elem(self, st, ref_or_cell):
        c = self.cell(st, ref_or_cell) if isinstance(ref_or_cell, Ref) else ref_or_cell
        if c.base is None:
            return c.elem
        bid, maps = c.base
        be = self.elem(st, Ref(bid))
        return subst(be, {ax(a): (m[1] if m[0] == 'ix' else self._mapax(m)) for a, m in enumerate(maps)})

    @staticmethod
    def _mapax(m):
        # ('ax', i, lo, full, step)
        t = ax(m[1])
        if len(m) > 4 and m[4] != 1:
            t = scale(t, m[4])
        return add(m[2], t)

    def set_elem(self, st, ref, new, node=None, why='store'):
        c = self.cell(st, ref)
        if c.base is None:
            st.heap[ref.id] = Arr(c.shape, new, None, c.flags, c.dt)
            self.event(st, 'mutate', why, (ref,), node=node, flags=c.flags, cells=(ref.id,))
            return
        bid, maps = c.base
        bc = self.cell(st, Ref(bid))
        be = self.elem(st, Ref(bid))
        cond = TRUE
        sub_ = {}
        for a, m in enumerate(maps):
            if m[0] == 'ix':
                cond = mand(cond, eq(ax(a), m[1]))
            else:
                pos = sub(ax(a), m[2])
                if len(m) > 4 and m[4] != 1:
                    pos = scale(pos, Fraction(1) / m[4])
                sub_[ax(m[1])] = pos
                if not m[3]:
                    cond = mand(cond, le(ZERO, pos), lt(pos, c.shape[m[1]]))
        # simultaneous substitution
        tmp = {k: fresh_iv('s') for k in sub_}
        n2 = subst(subst(new, tmp), {tmp[k]: v for k, v in sub_.items()})
        self.event(st, 'mutate', why + '-view', (ref,), node=node, flags=c.flags | bc.flags, cells=(ref.id, bid), own=c.flags,
                   maps=maps)
        nb = ite(cond, n2, be)
        if bc.base is None:
            st.heap[bid] = Arr(bc.shape, nb, None, bc.flags, bc.dt)
        else:
            self.set_elem(st, Ref(bid), nb, node, why)

    def view(self, st, ref, shape, maps):
        c = self.cell(st, ref)
        if not shape:
            be = self.elem(st, ref)
            return subst(be, {ax(a): m[1] for a, m in enumerate(maps)})
        return self.alloc(st, Arr(shape, None, (ref.id, tuple(maps)), c.flags, c.dt))

    def arr(self, st, v):
        """(shape, elem) of a value seen as an array"""
        if isinstance(v, T):
            if v.op == 'tuple':
                return self.arr(st, TupleV(v.args))
            if v.op == 'lam':
                return (app('extent', v),), at(v, ax(0))
            return (), v
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, Arr):
                return c.shape, self.elem(st, v)
            if isinstance(c, ListC):
                return self.list_arr(st, c)
            return (), self.term(st, v)
        if isinstance(v, ArrV):
            return v.shape, v.elem
        if isinstance(v, TupleV):
            return self.seq_arr(st, v.items)
        if isinstance(v, Choice):
            s1, e1 = self.arr(st, v.a)
            s2, e2 = self.arr(st, v.b)
            if len(s1) == len(s2):
                return tuple(ite(v.c, x, y) for x, y in zip(s1, s2)), ite(v.c, e1, e2)
            if v.a is NONE:
                return s2, e2
            if v.b is NONE:
                return s1, e1
            return (), app('opaque-join', v.c, self.term(st, v.a), self.term(st, v.b))
        if isinstance(v, (IterV, RangeV)):
            l = self.to_list(st, v)
            return self.list_arr(st, self.cell(st, l))
        return (), self.term(st, v)

    def seq_arr(self, st, items):
        parts = [self.arr(st, i) for i in items]
        n = len(parts)
        if n == 0:
            return (ZERO,), UNDEF
        r = len(parts[0][0])
        if any(len(p[0]) != r for p in parts):
            return (num(n),), at(mk('tuple', *[self.term(st, i) for i in items]), ax(0))
        shp = parts[0][0]
        e = None
        for k in range(n - 1, -1, -1):
            pe = subst(parts[k][1], {ax(i): ax(i + 1) for i in range(r)})
            e = pe if e is None else ite(eq(ax(0), num(k)), pe, e)
        return (num(n),) + tuple(shp), e

    def list_arr(self, st, c):
        if c.concrete():
            return self.seq_arr(st, c.items)
        if len(c.items) == 1 and isinstance(c.items[0], Sym):
            s = c.items[0]
            val = self.instantiate(st, s.val, {s.v: ax(99)})
            shp, e = self.arr(st, val)
            e = subst(e, {ax(i): ax(i + 1) for i in range(len(shp))})
            e = subst(e, {ax(99): ax(0)})
            return (s.n,) + tuple(subst(x, {ax(99): ax(0)}) for x in shp), e
        # segments: element function by position
        segs = []
        for it in c.items:
            if isinstance(it, Sym):
                segs.append((it.n, it))
            elif isinstance(it, Alt):
                return (self.list_len(c),), at(self.term_list(st, c), ax(0))
            else:
                segs.append((ONE, it))
        off = ZERO
        parts = []
        rank = None
        for n, it in segs:
            if isinstance(it, Sym):
                val = self.instantiate(st, it.val, {it.v: ax(99)})
            else:
                val = it
            shp, e = self.arr(st, val)
            e = subst(e, {ax(i): ax(i + 1) for i in range(len(shp))})
            e = subst(e, {ax(99): sub(ax(0), off)})
            if rank is None:
                rank = len(shp)
                shp0 = shp
            elif rank != len(shp):
                return (self.list_len(c),), at(self.term_list(st, c), ax(0))
            off = add(off, n)
            parts.append((off, e))
        e = parts[-1][1]
        for o, pe in reversed(parts[:-1]):
            e = ite(lt(ax(0), o), pe, e)
        return (off,) + tuple(shp0), e

    def list_len(self, c):
        n = ZERO
        for it in c.items:
            if isinstance(it, Sym):
                n = add(n, it.n)
            elif isinstance(it, Alt):
                n = add(n, ite(it.c, self.list_len(ListC(it.a)), self.list_len(ListC(it.b))))
            else:
                n = add(n, ONE)
        return n

    def instantiate(self, st, val, m):
        val = vsubst(val, m)
        return self.materialise(st, val)

    def materialise(self, st, val):
        if isinstance(val, ArrV):
            if not val.shape:
                return val.elem
            return self.alloc(st, Arr(val.shape, val.elem, None, frozenset([val.origin]) if val.origin else EMPTY))
        if isinstance(val, TupleV):
            return TupleV([self.materialise(st, i) for i in val.items], val.cls)
        if isinstance(val, Choice):
            return Choice(val.c, self.materialise(st, val.a), self.materialise(st, val.b))
        return val

    def by_value(self, st, v, origin=None):
        """template form of a value (arrays by value)"""
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, Arr):
                return ArrV(c.shape, self.elem(st, v), origin)
            if isinstance(c, ListC) and c.concrete():
                return TupleV([self.by_value(st, i, origin) for i in c.items])
            return v
        if isinstance(v, TupleV):
            return TupleV([self.by_value(st, i, origin) for i in v.items], v.cls)
        if isinstance(v, Choice):
            return Choice(v.c, self.by_value(st, v.a, origin), self.by_value(st, v.b, origin))
        return v

    def term_list(self, st, c):
        parts = []
        for it in c.items:
            if isinstance(it, Sym):
                parts.append(mk('seg', it.n, lam([it.v], self.term(st, it.val))))
            elif isinstance(it, Alt):
                parts.append(mk('alt', it.c, self.term_list(st, ListC(it.a)), self.term_list(st, ListC(it.b))))
            else:
                parts.append(self.term(st, it))
        if c.isset:
            return mk('set', *parts)
        return mk('tuple', *parts) if c.concrete() else mk('list', *parts)

    def term(self, st, v, depth=0):
        """whole-value term"""
        if isinstance(v, T):
            return v
        if depth > 6:
            return mk('deep')
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, Arr):
                return lam_ax(len(c.shape), self.elem(st, v))
            if isinstance(c, ListC):
                return self.term_list(st, c)
            if isinstance(c, DictC):
                ks = [(k, self.term(st, x, depth + 1)) for k, x in c.items.items() if x is not MISSING]
                args = []
                for k, x in ks:
                    args += [k if isinstance(k, T) else const(k), x]
                if c.base is not None:
                    args = [c.base] + args
                return mk('dict', *args)
            if isinstance(c, ObjC):
                return mk('obj', v.id)
        if isinstance(v, ArrV):
            return lam_ax(len(v.shape), v.elem)
        if isinstance(v, TupleV):
            return mk('tuple', *[self.term(st, i, depth + 1) for i in v.items])
        if isinstance(v, Choice):
            return mk('ite', v.c, self.term(st, v.a, depth + 1), self.term(st, v.b, depth + 1))
        if isinstance(v, FuncV):
            return mk('fn', v.name, getattr(v.node, 'lineno', 0))
        if isinstance(v, (ClassV,)):
            return mk('fn', v.name, 0)
        if isinstance(v, ExtV):
            return mk('fn', v.name, 0)
        if isinstance(v, BoundV):
            return mk('bound', self.term(st, v.self_, depth + 1), getattr(v.func, 'name', '?'))
        if isinstance(v, MethV):
            return mk('attr', self.term(st, v.obj, depth + 1), v.name)
        if isinstance(v, SliceV):
            return mk('slice', *[self.term(st, x) if x is not None else NONE for x in (v.lo, v.hi, v.step)])
        if isinstance(v, RangeV):
            return mk('range', v.lo, v.hi, v.step)
        if isinstance(v, ObjDict):
            return mk('objdict', v.id)
        if isinstance(v, ExcV):
            return mk('exc', v.cls)
        if isinstance(v, PartialV):
            return mk('partial', self.term(st, v.func), *[self.term(st, a) for a in v.args])
        if isinstance(v, IterV):
            return self.term(st, self.to_list(st, v))
        if v is MISSING:
            return UNDEF
        return mk('other', str(type(v).__name__))

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modenv:
            return self.modenv[name]
        src = self.source(name)
        if src is None:
            return None
        env = {}
        self.modenv[name] = env
        tree = ast.parse(src)
        self.modast[name] = tree
        self.callstack.append(('<module>', name.split('.')[-1] + '.py'))
        save = (self.events, self._seq, self.loopstack, self.ivs, self.depth)
        self.events, self.loopstack, self.ivs = [], [], []
        st = State()
        fid = ('m', name)
        st.frames[fid] = env
        env['$mod'] = name
        env['$fid'] = fid
        env['__name__'] = const(name)
        try:
            for s in tree.body:
                try:
                    o = self.exec_stmt(s, st, fid)
                    if o.st is None:
                        break
                    if o.st is not st:
                        st.become(o.st)
                        if st.frames[fid] is not env:
                            env.update(st.frames[fid])
                            st.frames[fid] = env
                except (Unsupported, PyRaise) as e:
                    self.note('module statement not understood: %s' % e, s)
        finally:
            self.callstack.pop()
            self.events, self._seq, self.loopstack, self.ivs, self.depth = save
        self.modheap.update(st.heap)
        return env

    def source(self, name):
        parts = name.split('.')
        if parts[0] != self.package:
            return None
        rel = os.path.join(*parts) + '.py'
        if rel in self.sources:
            return self.sources[rel]
        p = os.path.join(self.root, rel)
        if not os.path.isfile(p):
            rel = os.path.join(*parts, '__init__.py')
            if rel in self.sources:
                return self.sources[rel]
            p = os.path.join(self.root, rel)
            if not os.path.isfile(p):
                return None
        return open(p).read()

    def import_(self, modname, relto=None, level=0):
        if level:
            base = relto.split('.')
            # modules of the package are files: strip the module itself
            base = base[:len(base) - level] if not self._ispkg(relto) else base[:len(base) - level + 1]
            full = '.'.join(base + ([modname] if modname else []))
        else:
            full = modname
        return full

    def _ispkg(self, name):
        return name == self.package

    # ------------------------------------------------------------- names
    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is None and isinstance(f, tuple):
                fr = self.modenv.get(f[1])
            if fr is None:
                break
            if name in fr:
                v = fr[name]
                if v is UNBOUND:
                    raise PyRaise('UnboundLocalError')
                return v
            f = fr.get('$parent')
            if f is None:
                m = fr.get('$mod')
                if m is not None:
                    g = st.frames.get(('m', m))
                    if g is not None and name in g:
                        return g[name]
                    env = self.modenv.get(m, {})
                    if name in env:
                        return env[name]
        if name in BUILTIN_NAMES:
            return ExtV('builtins.' + name)
        raise PyRaise('NameError', (name,))

    def bind(self, name, v, st, fid):
        fr = st.frames[fid]
        if name in fr.get('$global', ()):
            m = fr['$mod']
            g = st.frames.get(('m', m))
            if g is None:
                g = {}
                st.frames[('m', m)] = g
            g[name] = v
            return
        if name in fr.get('$nonlocal', ()):
            f = fr.get('$parent')
            while f is not None and f in st.frames:
                if name in st.frames[f]:
                    st.frames[f][name] = v
                    return
                f = st.frames[f].get('$parent')
        fr[name] = v

    # ------------------------------------------------------------- merge
    def merge_val(self, c, a, b):
        if veq(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            if (a is NONE or b is NONE) and not (is_bool(a) or is_bool(b)):
                return mk('ite', c, a, b) if c not in (TRUE, FALSE) else (a if c is TRUE else b)
            return ite(c, a, b)
        if a is MISSING or b is MISSING:
            return Choice(c, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.cls)
        if isinstance(b, Choice) and b.c is c:
            b = b.b
            return self.merge_val(c, a, b)
        if isinstance(a, Choice) and a.c is c:
            a = a.a
            return self.merge_val(c, a, b)
        return Choice(c, a, b)

    def merge_cell(self, c, x, y, s1, s2, rid):
        if x is y or x.same(y):
            return x
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.base is not None and x.base == y.base:
                return x
            e1, e2 = self.elem(s1, x), self.elem(s2, y)
            if len(x.shape) == len(y.shape):
                return Arr([ite(c, p, q) for p, q in zip(x.shape, y.shape)], ite(c, e1, e2), None,
                           x.flags | y.flags, x.dt)
            return Arr(x.shape, mk('ite', c, e1, e2), None, x.flags | y.flags)
        if isinstance(x, DictC) and isinstance(y, DictC):
            items = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                items[k] = self.merge_val(c, x.items.get(k, MISSING), y.items.get(k, MISSING))
            return DictC(items, x.base if x.base is not None else y.base, x.flags | y.flags)
        if isinstance(x, ObjC) and isinstance(y, ObjC):
            attrs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                attrs[k] = self.merge_val(c, x.attrs.get(k, MISSING), y.attrs.get(k, MISSING))
            return ObjC(x.cls, attrs, x.base if x.base is not None else y.base, x.flags | y.flags)
        if isinstance(x, ListC) and isinstance(y, ListC):
            if len(x.items) == len(y.items):
                its = []
                ok = True
                for p, q in zip(x.items, y.items):
                    if veq(p, q):
                        its.append(p)
                    elif isinstance(p, (Alt, Sym)) or isinstance(q, (Alt, Sym)):
                        ok = False
                        break
                    else:
                        its.append(self.merge_val(c, p, q))
                if ok:
                    return ListC(its, x.flags | y.flags, x.isset)
            k = 0
            while k < min(len(x.items), len(y.items)) and veq(x.items[k], y.items[k]):
                k += 1
            return ListC(x.items[:k] + (Alt(c, x.items[k:], y.items[k:]),), x.flags | y.flags, x.isset)
        return x

    def merge(self, c, s1, s2):
        """state that is s1 where c holds, s2 otherwise"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        s = State()
        for i in s1.heap.keys() | s2.heap.keys():
            x, y = s1.heap.get(i), s2.heap.get(i)
            if x is None:
                s.heap[i] = y
            elif y is None or x is y:
                s.heap[i] = x
            else:
                s.heap[i] = self.merge_cell(c, x, y, s1, s2, i)
        for f in s1.frames.keys() | s2.frames.keys():
            a, b = s1.frames.get(f), s2.frames.get(f)
            if a is None:
                s.frames[f] = b
            elif b is None:
                s.frames[f] = a
            else:
                fr = {}
                for n in list(a) + [k for k in b if k not in a]:
                    x, y = a.get(n, UNBOUND), b.get(n, UNBOUND)
                    if n.startswith('$'):
                        fr[n] = x if x is not UNBOUND else y
                        continue
                    if veq(x, y):
                        fr[n] = x
                    elif x is UNBOUND:
                        fr[n] = y        # use-before-def is not a subject of the rules
                    elif y is UNBOUND:
                        fr[n] = x
                    else:
                        fr[n] = self.merge_val(c, x, y)
                s.frames[f] = fr
        s.pc = mor(s1.pc, s2.pc)
        s.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        return s

    def rel(self, pc, base):
        """pc relative to base"""
        return assume(pc, base, True) if base is not TRUE else pc

    def merge_many(self, base_pc, lst):
        """[(state, value)] -> (state, value)"""
        st, v = lst[-1]
        for s, w in reversed(lst[:-1]):
            c = self.rel(s.pc, base_pc)
            nv = self.merge_val(c, w, v) if not (w is None and v is None) else None
            st = self.merge(c, s, st)
            v = nv
        return st, v

    # ------------------------------------------------------------- blocks
    def exec_block(self, stmts, st, fid):
        out = Out()
        cur = st
        for s in stmts:
            o = self.exec_stmt(s, cur, fid)
            out.take(o)
            cur = o.st
            if cur is None:
                break
        out.st = cur
        return out

    def exec_stmt(self, s, st, fid):
        self.cur = s
        self.nodes += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('statement %s not modelled' % type(s).__name__, s)
            return Out(st)
        try:
            return m(s, st, fid)
        except PyRaise as e:
            o = Out(None)
            o.exc.append((st, ExcV(e.exc, e.args_)))
            return o

    def x_Pass(self, s, st, fid):
        return Out(st)

    def x_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return Out(st)
        self.ev(s.value, st, fid)
        return Out(st)

    def x_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)
        return Out(st)

    def x_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        return Out(st)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack_all(st, v)
                if items is None:
                    raise Unsupported('starred unpack')
                i = star[0]
                after = len(t.elts) - i - 1
                vals = list(items[:i]) + [self.alloc(st, ListC(items[i:len(items) - after]))] + \
                    list(items[len(items) - after:])
            else:
                vals = self.unpack(st, v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev_index(t.slice, st, fid)
            self.set_item(st, o, k, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            self.set_attr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        else:
            raise Unsupported('assign target')

    def unpack_all(self, st, v):
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ListC) and c.concrete():
                return list(c.items)
        it = self.iter_of(st, v)
        return it.items

    def unpack(self, st, v, n):
        if isinstance(v, TupleV):
            if len(v.items) != n:
                raise PyRaise('ValueError')
            return list(v.items)
        if isinstance(v, Choice):
            a, b = self.try_unpack(st, v.a, n), self.try_unpack(st, v.b, n)
            if a is None:
                return b
            if b is None:
                return a
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ListC) and c.concrete():
                if len(c.items) != n:
                    raise PyRaise('ValueError')
                return list(c.items)
            if isinstance(c, (ListC, Arr)):
                return [self.get_item(st, v, num(i)) for i in range(n)]
            if isinstance(c, DictC):
                return [const(k) for k in list(c.items)[:n]]
        if isinstance(v, (IterV, RangeV)):
            it = self.iter_of(st, v)
            if it.items is not None:
                if len(it.items) != n:
                    raise PyRaise('ValueError')
                return list(it.items)
            return [it.get(st, num(i)) for i in range(n)]
        if isinstance(v, T):
            if v is NONE or v.op == 'num':
                raise PyRaise('TypeError')
            if v.op == 'ite':
                a, b = self.try_unpack(st, v.args[1], n), self.try_unpack(st, v.args[2], n)
                if a is None:
                    return b
                if b is None:
                    return a
                return [self.merge_val(v.args[0], x, y) for x, y in zip(a, b)]
            return [self.get_item(st, v, num(i)) for i in range(n)]
        raise Unsupported('unpack %r' % (v,))

    def try_unpack(self, st, v, n):
        try:
            return self.unpack(st, v, n)
        except PyRaise:
            return None

    def x_AugAssign(self, s, st, fid):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fid)
            rhs = self.ev(s.value, st, fid)
            nv = self.aug(st, cur, s.op, rhs, s)
            if nv is not None:
                self.bind(t.id, nv, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            cur = self.get_attr(st, o, t.attr)
            rhs = self.ev(s.value, st, fid)
            nv = self.aug(st, cur, s.op, rhs, s)
            if nv is not None:
                self.set_attr(st, o, t.attr, nv, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev_index(t.slice, st, fid)
            cur = self.get_item(st, o, k)
            rhs = self.ev(s.value, st, fid)
            if isinstance(cur, Ref) and isinstance(self.cell(st, cur), Arr) and isinstance(o, Ref) and \
                    isinstance(self.cell(st, o), Arr):
                nv = self.binop(st, type(s.op).__name__, cur, rhs, s)
                self.set_item(st, o, k, nv, s)
            else:
                nv = self.aug(st, cur, s.op, rhs, s)
                if nv is not None:
                    self.set_item(st, o, k, nv, s)
        return Out(st)

    def aug(self, st, cur, op, rhs, node):
        """in-place operation; returns new value to bind, or None if mutated in place"""
        opn = type(op).__name__
        if isinstance(cur, Ref):
            c = self.cell(st, cur)
            if isinstance(c, Arr):
                nv = self.binop(st, opn, cur, rhs, node)
                shp, e = self.arr(st, nv)
                if len(shp) <= len(c.shape):
                    self.set_elem(st, cur, self.np.bcast(e, len(shp), len(c.shape)), node, 'aug')
                    return None
                return nv
            if isinstance(c, ListC) and opn == 'Add':
                self.list_extend(st, cur, rhs, node)
                return None
            if isinstance(c, DictC) and opn == 'BitOr':
                self.np.dict_update(self, st, cur, rhs)
                return None
        if isinstance(cur, Choice):
            # mutate through either alternative
            if isinstance(cur.a, Ref) or isinstance(cur.b, Ref):
                res = []
                for c_, alt in ((cur.c, cur.a), (mnot_full(cur.c), cur.b)):
                    if isinstance(alt, Ref) and isinstance(self.cell(st, alt), Arr):
                        old = self.elem(st, alt)
                        nv = self.binop(st, opn, alt, rhs, node)
                        shp, e = self.arr(st, nv)
                        self.set_elem(st, alt, ite(c_, self.np.bcast(e, len(shp), len(self.cell(st, alt).shape)), old),
                                      node, 'aug')
                        res.append(alt)
                    else:
                        res.append(self.binop(st, opn, alt, rhs, node) if alt is not NONE else alt)
                return Choice(cur.c, res[0], res[1])
        return self.binop(st, opn, cur, rhs, node)

    def x_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fid)
                k = self.ev_index(t.slice, st, fid)
                self.del_item(st, o, k, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, fid)
                if isinstance(o, Ref):
                    c = self.cell(st, o)
                    if isinstance(c, ObjC):
                        at_ = dict(c.attrs)
                        if t.attr not in at_ and c.base is None:
                            raise PyRaise('AttributeError')
                        at_.pop(t.attr, None)
                        st.heap[o.id] = ObjC(c.cls, at_, c.base, c.flags)
        return Out(st)

    def del_item(self, st, o, k, node):
        if isinstance(o, ObjDict):
            c = self.cell(st, Ref(o.id))
            a = dict(c.attrs)
            key = self.key(k)
            if key not in a:
                raise PyRaise('KeyError')
            if a[key] is MISSING:
                raise PyRaise('KeyError')
            del a[key]
            st.heap[o.id] = ObjC(c.cls, a, c.base, c.flags)
            return
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, DictC):
                it = dict(c.items)
                key = self.key(k)
                if key not in it and c.base is None:
                    raise PyRaise('KeyError')
                it.pop(key, None)
                self.event(st, 'dict-del', str(key), (o,), node=node)
                st.heap[o.id] = DictC(it, c.base, c.flags)
                return
            if isinstance(c, ListC):
                self.event(st, 'list-del', '', (o, k), node=node)
                if isinstance(k, SliceV):
                    self.list_cut(st, o, c, k)
                else:
                    self.np.list_pop(self, st, o, k, node)
                return
        self.event(st, 'del', '', (o, k), node=node)

    def list_cut(self, st, o, c, k):
        """del list[slice]"""
        b = [None if x is None or x is NONE else numval(self.term(st, x)) for x in (k.lo, k.hi, k.step)]
        known = all(q is not None or x is None or x is NONE for q, x in zip(b, (k.lo, k.hi, k.step)))
        if known and c.concrete():
            its = list(c.items)
            del its[slice(*[None if q is None else int(q) for q in b])]
            st.heap[o.id] = ListC(its, c.flags, c.isset)
            return
        if known and b == [None, None, None]:
            st.heap[o.id] = ListC((), c.flags, c.isset)
            return
        if k.step is not None and k.step is not NONE and b[2] != 1:
            raise Unsupported('del list[::step]')
        st.heap[o.id] = ListC(self.list_splice(st, o, k, ()), c.flags, c.isset)

    def list_splice(self, st, o, k, mid):
        """items of list[:lo] + mid + list[hi:]"""
        its = ()
        if k.lo is not None and k.lo is not NONE:
            its += tuple(self.cell(st, self.np.get_item(self, st, o, SliceV(None, k.lo, None))).items)
        its += tuple(mid)
        if k.hi is not None and k.hi is not NONE:
            its += tuple(self.cell(st, self.np.get_item(self, st, o, SliceV(k.hi, None, None))).items)
        return its

    def x_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if c is TRUE:
            return self.exec_block(s.body, st, fid)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fid)
        base = st.pc
        s1, s2 = st, st.clone()
        s1 = st.clone()
        s1.assume(c)
        s2.assume(mnot_full(c))
        o1 = self.exec_block(s.body, s1, fid)
        o2 = self.exec_block(s.orelse, s2, fid)
        out = Out()
        out.take(o1)
        out.take(o2)
        out.st = self.merge(c, o1.st, o2.st)
        if o1.st is not None and o2.st is not None and not (o1.ret or o1.brk or o1.cont or o1.exc or
                                                             o2.ret or o2.brk or o2.cont or o2.exc):
            out.st.pc = base
        return out

    def cond(self, node, st, fid):
        v = self.ev(node, st, fid)
        c = self.truth(st, v)
        if st.facts:
            c = assume_facts(c, st.facts)
        return c

    def truth(self, st, v):
        if isinstance(v, T):
            if v.op == 'tuple':
                return TRUE if v.args else FALSE
            return truth(v)
        if isinstance(v, Choice):
            return ite(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, TupleV):
            return TRUE if v.items else FALSE
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ListC):
                return mnot(eq0(self.list_len(c))) if not nonneg(sub(self.list_len(c), ONE)) else TRUE
            if isinstance(c, DictC):
                return TRUE if c.items else (FALSE if c.base is None else truth(mk('app', 'len', c.base)))
            if isinstance(c, Arr):
                if all(x is ONE for x in c.shape):
                    return truth(subst(self.elem(st, v), {ax(i): ZERO for i in range(len(c.shape))}))
                return truth(mk('app', 'truth', lam_ax(len(c.shape), self.elem(st, v))))
            if isinstance(c, ObjC) and c.cls is not None:
                f = c.cls.find('__bool__')
                if f is not None:
                    return self.truth(st, self.call_func(st, f, [v], {}, None))
                f = c.cls.find('__len__')
                if f is not None:
                    return self.truth(st, self.call_func(st, f, [v], {}, None))
            return TRUE
        if v is MISSING:
            return FALSE
        return TRUE

    def x_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else NONE
        o = Out(None)
        o.ret.append((st, v))
        return o

    def x_Break(self, s, st, fid):
        o = Out(None)
        o.brk.append((st, self.loc(s)))
        return o

    def x_Continue(self, s, st, fid):
        o = Out(None)
        o.cont.append((st, None))
        return o

    def x_Raise(self, s, st, fid):
        o = Out(None)
        if s.exc is None:
            cur = st.frames[fid].get('$exc', ExcV('Exception'))
            o.exc.append((st, cur))
            return o
        v = self.ev(s.exc, st, fid)
        if isinstance(v, ExcV):
            e = v
        elif isinstance(v, ExtV):
            e = ExcV(v.name.split('.')[-1])
        elif isinstance(v, ClassV):
            e = ExcV(v.name)
        else:
            e = ExcV('Exception')
        self.event(st, 'raise', e.cls, node=s)
        o.exc.append((st, e))
        return o

    def x_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if c is FALSE:
            raise PyRaise('AssertionError')
        out = Out()
        if c is not TRUE:
            s2 = st.clone()
            s2.assume(mnot_full(c))
            out.exc.append((s2, ExcV('AssertionError')))
            st.assume(c)
        out.st = st
        return out

    def x_Global(self, s, st, fid):
        st.frames[fid]['$global'] = tuple(st.frames[fid].get('$global', ())) + tuple(s.names)
        return Out(st)

    def x_Nonlocal(self, s, st, fid):
        st.frames[fid]['$nonlocal'] = tuple(st.frames[fid].get('$nonlocal', ())) + tuple(s.names)
        return Out(st)

    def x_Import(self, s, st, fid):
        for a in s.names:
            name = a.name
            if name.split('.')[0] == self.package and self.source(name) is not None:
                self.module(name)
                v = ModuleV(name)
            else:
                v = ExtV(name if a.asname else name.split('.')[0])
            self.bind(a.asname or name.split('.')[0], v, st, fid)
        return Out(st)

    def x_ImportFrom(self, s, st, fid):
        mod = st.frames[fid].get('$mod') or self.package
        full = self.import_(s.module, mod, s.level)
        env = None
        if full.split('.')[0] == self.package:
            env = self.module(full)
        for a in s.names:
            if a.name == '*':
                if env is not None:
                    for k, v in env.items():
                        if not k.startswith('_') and not k.startswith('$'):
                            self.bind(k, v, st, fid)
                continue
            if env is not None and a.name in env:
                v = env[a.name]
            elif full.split('.')[0] == self.package and self.source(full + '.' + a.name) is not None:
                self.module(full + '.' + a.name)
                v = ModuleV(full + '.' + a.name)
            else:
                v = ExtV(full + '.' + a.name)
            self.bind(a.asname or a.name, v, st, fid)
        return Out(st)

    def mkfunc(self, node, st, fid, cls=None):
        fr = st.frames[fid]
        mod = fr['$mod']
        deco = []
        vals = []
        for d in getattr(node, 'decorator_list', []):
            try:
                dv = self.ev(d, st, fid)
            except (PyRaise, Unsupported):
                dv = None
            nm = ast.unparse(d)
            deco.append(nm)
            vals.append(dv)
        a = node.args
        dfl = [self.ev(d, st, fid) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st, fid)
        closure = fid if not isinstance(fid, tuple) else None
        f = FuncV(node, mod, closure, getattr(node, 'name', '<lambda>'), cls, dfl, kwd, tuple(deco))
        res = f
        for dv in reversed(vals):
            if isinstance(dv, FuncV):
                res = self.call_func(st, dv, [res], {}, node)
        return res

    def x_FunctionDef(self, s, st, fid):
        self.bind(s.name, self.mkfunc(s, st, fid, st.frames[fid].get('$clsname')), st, fid)
        return Out(st)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st, fid):
        bases = []
        for b in s.bases:
            try:
                bases.append(self.ev(b, st, fid))
            except PyRaise:
                pass
        mod = st.frames[fid]['$mod']
        cfid = ('c', mod, s.name, self.newid())
        st.frames[cfid] = {'$mod': mod, '$parent': fid if not isinstance(fid, tuple) else None, '$clsname': s.name,
                           '$isclass': True}
        fields = []
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                fields.append((b.target.id, self.ev(b.value, st, cfid) if b.value is not None else MISSING))
                if b.value is not None:
                    st.frames[cfid][b.target.id] = fields[-1][1]
                continue
            o = self.exec_stmt(b, st, cfid)
        env = {k: v for k, v in st.frames[cfid].items() if not k.startswith('$')}
        # methods must not see class scope as closure
        for v in env.values():
            if isinstance(v, FuncV) and v.frame == cfid:
                v.frame = fid if not isinstance(fid, tuple) else None
        del st.frames[cfid]
        c = ClassV(s, mod, s.name, bases, env)
        for v in env.values():
            if isinstance(v, FuncV) and v.cls == s.name:
                v.clsv = c
        deco = [ast.unparse(d) for d in s.decorator_list]
        if any('dataclass' in d for d in deco):
            c.dataclass = True
            c.fields = fields
        if any(isinstance(b, ExtV) and b.name.endswith('NamedTuple') for b in bases):
            c.fields = fields
            c.dataclass = 'nt'
        self.bind(s.name, c, st, fid)
        return Out(st)

    def x_With(self, s, st, fid):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, st, fid)
            v = self.enter_cm(st, cm, it)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fid)
        o = self.exec_block(s.body, st, fid)
        for cm in reversed(exits):
            if o.st is not None:
                self.exit_cm(o.st, cm, s)
            for lst in (o.ret, o.brk, o.cont, o.exc):
                for k in lst:
                    self.exit_cm(k[0], cm, s, exceptional=(lst is o.exc))
        return o

    def enter_cm(self, st, cm, it):
        if isinstance(cm, Ref):
            c = self.cell(st, cm)
            if isinstance(c, ObjC) and c.cls is not None:
                f = c.cls.find('__enter__')
                if f is not None:
                    return self.call_func(st, f, [cm], {}, it.context_expr)
        self.event(st, 'enter', 'with', (cm,), node=it.context_expr)
        return cm

    def exit_cm(self, st, cm, node, exceptional=False):
        if isinstance(cm, Ref):
            c = self.cell(st, cm)
            if isinstance(c, ObjC) and c.cls is not None:
                f = c.cls.find('__exit__')
                if f is not None:
                    self.call_func(st, f, [cm, NONE, NONE, NONE], {}, node)
                    return
        self.event(st, 'exit', 'with', (cm,), node=node, exceptional=exceptional)

    def x_Try(self, s, st, fid):
        base = st.pc
        entry = st.clone()
        nev = len(self.events)
        self._tryexc.append([]) if hasattr(self, '_tryexc') else setattr(self, '_tryexc', [[]])
        o = self.exec_block(s.body, st, fid)
        snaps = self._tryexc.pop()
        out = Out()
        out.ret += o.ret
        out.brk += o.brk
        out.cont += o.cont
        normal = o.st
        if normal is not None and s.orelse:
            o2 = self.exec_block(s.orelse, normal, fid)
            out.take(o2)
            normal = o2.st
        states = [normal] if normal is not None else []
        excs = list(o.exc)
        excs += snaps
        for (es, ev) in excs:
            handled = False
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ['BaseException']
                else:
                    hv = self.ev(h.type, es, fid)
                    hs = hv.items if isinstance(hv, TupleV) else [hv]
                    for x in hs:
                        names.append(x.name.split('.')[-1] if isinstance(x, (ExtV, ClassV)) else 'Exception')
                if any(exc_is(ev.cls, n) for n in names) or (ev.cls == 'AnyError'):
                    maybe = ev.cls == 'AnyError' and not any(n in ('BaseException', 'Exception') for n in names)
                    es2 = es.clone() if maybe else es
                    if h.name:
                        self.bind(h.name, ev, es2, fid)
                    es2.frames[fid]['$exc'] = ev
                    ho = self.exec_block(h.body, es2, fid)
                    out.take(ho)
                    if ho.st is not None:
                        states.append(ho.st)
                    if not maybe:
                        handled = True
                        break
            if not handled:
                out.exc.append((es, ev))
        if states:
            r = states[-1]
            for x in reversed(states[:-1]):
                r = self.merge(self.rel(x.pc, base), x, r)
            out.st = r
        else:
            out.st = None
        if s.finalbody:
            fin = Out()
            if out.st is not None:
                fo = self.exec_block(s.finalbody, out.st, fid)
                fin.take(fo)
                fin.st = fo.st
            for attr in ('ret', 'brk', 'cont', 'exc'):
                for (x, v) in getattr(out, attr):
                    fo = self.exec_block(s.finalbody, x, fid)
                    if fo.st is not None:
                        getattr(fin, attr).append((fo.st, v))
                    fin.take(fo)
            out = fin
        return out

    def maybe_raise(self, st):
        """an external operation that may fail: exceptional edge to the innermost handler"""
        self.fault_n = getattr(self, 'fault_n', 0) + 1
        if getattr(self, 'fault', None) == self.fault_n:
            self.fault_at = len(self.events) - 1
            raise PyRaise('OSError')
        if self.exc_edges and getattr(self, '_tryexc', None):
            s = st.clone()
            s.assume(mk('bool', fresh_sym('fault')))
            self._tryexc[-1].append((s, ExcV('AnyError')))

    # ------------------------------------------------------------- loops
    def x_While(self, s, st, fid):
        from .loops import run_while
        return run_while(self, s, st, fid)

    def x_For(self, s, st, fid):
        from .loops import run_for
        return run_for(self, s, st, fid)

    # ------------------------------------------------------------- expressions
    def ev(self, n, st, fid):
        self.nodes += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st, fid)

    def e_Constant(self, n, st, fid):
        v = n.value
        if v is None or isinstance(v, (bool, str, bytes)):
            return const(v)
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return const('...')
        return mk('other', repr(v))

    def e_Name(self, n, st, fid):
        v = self.lookup(n.id, st, fid)
        return self.narrow(st, v)

    def narrow(self, st, v):
        """use path facts to resolve gated values"""
        if isinstance(v, Choice):
            c = assume_facts(v.c, st.facts) if st.facts else v.c
            if c is TRUE:
                return self.narrow(st, v.a)
            if c is FALSE:
                return self.narrow(st, v.b)
            if isinstance(v.a, Choice) or isinstance(v.b, Choice):
                a, b = self.narrow(st, v.a), self.narrow(st, v.b)
                if a is not v.a or b is not v.b:
                    return Choice(v.c, a, b) if not veq(a, b) else a
        elif isinstance(v, T) and v.ite and st.facts and v.op == 'ite':
            if v.args[0] in st.facts or v.args[0].op in ('and', 'or', 'not'):
                return assume_facts(v, st.facts)
        return v

    def e_NamedExpr(self, n, st, fid):
        v = self.ev(n.value, st, fid)
        self.assign(n.target, v, st, fid)
        return v

    def e_Tuple(self, n, st, fid):
        return TupleV(self.ev_elts(n.elts, st, fid))

    def ev_elts(self, elts, st, fid):
        r = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fid)
                items = self.unpack_all(st, v)
                if items is None:
                    l = self.to_list(st, v)
                    r.extend(self.cell(st, l).items)
                else:
                    r.extend(items)
            else:
                r.append(self.ev(e, st, fid))
        return r

    def e_List(self, n, st, fid):
        return self.alloc(st, ListC(self.ev_elts(n.elts, st, fid)))

    def e_Set(self, n, st, fid):
        return self.alloc(st, ListC(self.ev_elts(n.elts, st, fid), isset=True))

    def e_Dict(self, n, st, fid):
        items = {}
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st, fid)
                it, b = self.np.dict_items(self, st, d)
                if b is not None:
                    if items:
                        # later unknown keys may override earlier ones
                        base = mk('override', self.term(st, self.alloc(st, DictC(dict(items), base))), b)
                        items = {kk: Choice(mk('in', const(kk), b), mk('item', b, const(kk)), vv)
                                 for kk, vv in items.items()}
                    else:
                        base = b
                for kk, vv in it.items():
                    if isinstance(vv, Choice) and (vv.b is MISSING or vv.a is MISSING):
                        c = vv.c if vv.b is MISSING else mnot_full(vv.c)
                        pres = vv.a if vv.b is MISSING else vv.b
                        items[kk] = self.merge_val(c, pres, items.get(kk, MISSING))
                    elif vv is not MISSING:
                        items[kk] = vv
            else:
                key = self.key(self.ev(k, st, fid))
                items[key] = self.ev(v, st, fid)
        return self.alloc(st, DictC(items, base))

    def key(self, v):
        if isinstance(v, T):
            if v.op == 'const':
                return v.args[0]
            if v.op == 'num' and v.args[0].denominator == 1:
                return v
            return v
        if isinstance(v, TupleV):
            return mk('tuple', *[x if isinstance(x, T) else mk('other', repr(x)) for x in v.items])
        return mk('other', repr(v))

    def e_BinOp(self, n, st, fid):
        a = self.ev(n.left, st, fid)
        b = self.ev(n.right, st, fid)
        return self.binop(st, type(n.op).__name__, a, b, n)

    def binop(self, st, op, a, b, node=None):
        return self.np.binop(self, st, op, a, b, node)

    def e_UnaryOp(self, n, st, fid):
        v = self.ev(n.operand, st, fid)
        if isinstance(n.op, ast.Not):
            return mnot_full(self.truth(st, v))
        if isinstance(n.op, ast.USub):
            return self.np.elementwise(self, st, neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.np.elementwise(self, st, lambda x: mnot(x) if is_bool(x) else mk('app', 'invert', x), v)

    def e_BoolOp(self, n, st, fid):
        isand = isinstance(n.op, ast.And)
        vals = []
        s = st
        facts = []
        result = None
        pcs, pf = st.pc, st.facts
        out = []
        for k, x in enumerate(n.values):
            try:
                v = self.ev(x, st, fid)
            except PyRaise:
                if k == 0:
                    st.pc, st.facts = pcs, pf
                    raise
                v = UNDEF
            out.append(v)
            c = self.truth(st, v) if v is not UNDEF else UNDEF
            if v is UNDEF:
                break
            if st.facts:
                c = assume_facts(c, st.facts)
            vals.append(c)
            if (c is FALSE and isand) or (c is TRUE and not isand):
                break
            st.assume(c if isand else mnot_full(c))
        st.pc, st.facts = pcs, pf
        # value semantics: if all are booleans the term is a connective
        if all(isinstance(v, T) and (is_bool(v) or v is UNDEF) for v in out):
            return (mand if isand else mor)(*vals)
        res = out[len(vals) - 1]
        for v, c in zip(reversed(out[:len(vals) - 1]), reversed(vals[:-1])):
            res = self.merge_val(c, res, v) if isand else self.merge_val(c, v, res)
        return res

    def e_Compare(self, n, st, fid):
        left = self.ev(n.left, st, fid)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, fid)
            c = self.compare(st, type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = self.np.elementwise(self, st, lambda p, q: mand(p, q), res, c)
            left = right
        return res

    def compare(self, st, op, a, b):
        return self.np.compare(self, st, op, a, b)

    def e_IfExp(self, n, st, fid):
        c = self.cond(n.test, st, fid)
        if c is TRUE:
            return self.ev(n.body, st, fid)
        if c is FALSE:
            return self.ev(n.orelse, st, fid)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(mnot_full(c))
        v1 = v2 = None
        e1 = e2 = None
        try:
            v1 = self.ev(n.body, s1, fid)
        except PyRaise as e:
            e1 = e
        try:
            v2 = self.ev(n.orelse, s2, fid)
        except PyRaise as e:
            e2 = e
        if e1 and e2:
            raise e1
        pc, facts = st.pc, st.facts
        if e1:
            st.become(s2)
            return v2
        if e2:
            st.become(s1)
            return v1
        m = self.merge(c, s1, s2)
        m.pc, m.facts = pc, facts
        st.become(m)
        return self.merge_val(c, v1, v2)

    def e_Lambda(self, n, st, fid):
        return self.mkfunc(n, st, fid)

    def e_JoinedStr(self, n, st, fid):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                try:
                    x = self.term(st, self.ev(v.value, st, fid))
                except PyRaise:
                    x = UNDEF
                if v.format_spec is not None or v.conversion != -1:
                    x = mk('fmt', x, ast.unparse(v.format_spec) if v.format_spec else '')
                parts.append(x)
        return self.np.strcat(parts)

    def e_Attribute(self, n, st, fid):
        o = self.ev(n.value, st, fid)
        return self.narrow(st, self.get_attr(st, o, n.attr))

    def e_Subscript(self, n, st, fid):
        o = self.ev(n.value, st, fid)
        k = self.ev_index(n.slice, st, fid)
        return self.narrow(st, self.get_item(st, o, k))

    def ev_index(self, n, st, fid):
        if isinstance(n, ast.Slice):
            f = lambda x: self.ev(x, st, fid) if x is not None else None
            return SliceV(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return TupleV([self.ev_index(e, st, fid) for e in n.elts])
        return self.ev(n, st, fid)

    def e_Slice(self, n, st, fid):
        return self.ev_index(n, st, fid)

    def e_Starred(self, n, st, fid):
        raise Unsupported('starred')

    def e_Yield(self, n, st, fid):
        v = self.ev(n.value, st, fid) if n.value is not None else NONE
        y = st.frames[fid].get('$yield')
        if y is not None:
            self.np.list_append(self, st, y, v, n)
        return NONE

    def e_YieldFrom(self, n, st, fid):
        v = self.ev(n.value, st, fid)
        y = st.frames[fid].get('$yield')
        self.list_extend(st, y, v, n)
        return NONE

    def e_Await(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def e_ListComp(self, n, st, fid):
        return self.comp(n, st, fid, 'list')

    def e_GeneratorExp(self, n, st, fid):
        return self.comp(n, st, fid, 'list')

    def e_SetComp(self, n, st, fid):
        return self.comp(n, st, fid, 'set')

    def e_DictComp(self, n, st, fid):
        return self.comp(n, st, fid, 'dict')

    def comp(self, n, st, fid, kind):
        nf = self.newid()
        fr = st.frames[fid]
        st.frames[nf] = {'$parent': fid if not (isinstance(fid, tuple)) else None, '$mod': fr['$mod']}
        if isinstance(fid, tuple):
            st.frames[nf]['$parent'] = fid
        gens = n.generators

        def emit(st):
            if kind == 'dict':
                return TupleV([self.ev(n.key, st, nf), self.ev(n.value, st, nf)])
            return self.ev(n.elt, st, nf)

        def go(gi, st):
            """list of items"""
            if gi == len(gens):
                return [emit(st)]
            g = gens[gi]
            src = self.ev(g.iter, st, fid if gi == 0 else nf)
            it = self.iter_of(st, src)
            if it.items is not None:
                out = []
                for x in it.items:
                    self.assign(g.target, x, st, nf)
                    c = TRUE
                    for i in g.ifs:
                        c = mand(c, self.cond(i, st, nf))
                    if c is FALSE:
                        continue
                    if c is TRUE:
                        out += go(gi + 1, st)
                    else:
                        pc, fa = st.pc, st.facts
                        st.assume(c)
                        inner = go(gi + 1, st)
                        st.pc, st.facts = pc, fa
                        out.append(Alt(c, inner, ()))
                return out
            k = fresh_iv('k')
            self.ivs.append((k, it.n))
            try:
                self.assign(g.target, it.get(st, k), st, nf)
                pc, fa = st.pc, st.facts
                c = TRUE
                for i in g.ifs:
                    c = mand(c, self.cond(i, st, nf))
                    if c is not TRUE:
                        st.assume(c)
                if c is FALSE:
                    st.pc, st.facts = pc, fa
                    return []
                inner = go(gi + 1, st)
                st.pc, st.facts = pc, fa
            finally:
                self.ivs.pop()
            if len(inner) == 1 and not isinstance(inner[0], (Alt, Sym)):
                val = self.by_value(st, inner[0])
                if c is TRUE:
                    return [Sym(it.n, k, val)]
                ml = lam([k], c)
                v2 = fresh_iv('k')
                return [Sym(count(it.n, ml), v2, vsubst(val, {k: sel(it.n, ml, v2)}))]
            val = mk('other', 'nested')
            tl = self.term_list(st, ListC(inner))
            return [Sym(fresh_sym('len'), k, mk('app', 'nested', lam([k], tl), k))]

        items = go(0, st)
        st.frames.pop(nf, None)
        if kind == 'dict':
            d = {}
            base = None
            for i in items:
                if isinstance(i, TupleV):
                    d[self.key(i.items[0])] = i.items[1]
                elif isinstance(i, Alt) and len(i.a) == 1 and isinstance(i.a[0], TupleV):
                    d[self.key(i.a[0].items[0])] = Choice(i.c, i.a[0].items[1], MISSING)
                else:
                    base = mk('dictcomp', i.n, lam([i.v], self.term(st, i.val))) if isinstance(i, Sym) else \
                        fresh_sym('dictcomp')
            return self.alloc(st, DictC(d, base))
        return self.alloc(st, ListC(items, isset=(kind == 'set')))

    # ------------------------------------------------------------- calls
    def e_Call(self, n, st, fid):
        self.sites += 1
        prev = self.cur
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = st.frames[fid]
            return SuperV(fr.get('$clsv'), fr.get('self', NONE))
        if isinstance(n.func, ast.Name) and n.func.id in ('locals',):
            fr = st.frames[fid]
            return self.alloc(st, DictC({k: v for k, v in fr.items() if not k.startswith('$')}))
        obj = None
        if isinstance(n.func, ast.Attribute):
            obj = self.narrow(st, self.ev(n.func.value, st, fid))
            meth = n.func.attr
        else:
            fv = self.narrow(st, self.ev(n.func, st, fid))
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                if isinstance(v, Ref) and isinstance(self.cell(st, v), ListC) and not self.cell(st, v).concrete():
                    args.append(mk('star', self.term(st, v)))
                elif isinstance(v, T) and v.op not in ('tuple',):
                    args.append(mk('star', v))
                else:
                    args.extend(self.unpack_all(st, v) or [])
            else:
                args.append(self.ev(a, st, fid))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, st, fid)
                it, b = self.np.dict_items(self, st, d)
                for kk, vv in it.items():
                    kw[kk] = vv
                if b is not None:
                    kw['**'] = b
            else:
                kw[k.arg] = self.ev(k.value, st, fid)
        self.cur = prev
        if obj is not None:
            return self.narrow(st, self.call_attr(st, obj, meth, args, kw, n))
        return self.narrow(st, self.call(st, fv, args, kw, n))

    def call_attr(self, st, obj, meth, args, kw, node):
        if isinstance(obj, Choice):
            return self.choice_apply(st, obj, lambda s, o: self.call_attr(s, o, meth, args, kw, node))
        if isinstance(obj, T) and obj.op == 'ite' and not is_bool(obj):
            return self.choice_apply(st, Choice(*obj.args), lambda s, o: self.call_attr(s, o, meth, args, kw, node))
        if isinstance(obj, (ExtV, ModuleV, ClassV, SuperV)):
            return self.call(st, self.get_attr(st, obj, meth), args, kw, node)
        if isinstance(obj, Ref):
            c = self.cell(st, obj)
            if isinstance(c, ObjC):
                if meth in c.attrs or (c.cls is not None and c.cls.find(meth) is not None):
                    return self.call(st, self.get_attr(st, obj, meth), args, kw, node)
                if c.cls is not None and c.base is None:
                    return self.call(st, self.get_attr(st, obj, meth), args, kw, node)
        return self.np.call_method(self, st, obj, meth, args, kw, node)

    def choice_apply(self, st, ch, f):
        """apply f on both alternatives of a gated value"""
        c = assume_facts(ch.c, st.facts) if st.facts else ch.c
        if c is TRUE:
            return f(st, ch.a)
        if c is FALSE:
            return f(st, ch.b)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(mnot_full(c))
        e1 = e2 = None
        v1 = v2 = None
        try:
            v1 = f(s1, ch.a) if ch.a is not MISSING else None
            if ch.a is MISSING:
                e1 = PyRaise('AttributeError')
        except PyRaise as e:
            e1 = e
        try:
            v2 = f(s2, ch.b) if ch.b is not MISSING else None
            if ch.b is MISSING:
                e2 = PyRaise('AttributeError')
        except PyRaise as e:
            e2 = e
        if e1 and e2:
            raise e1
        pc, facts = st.pc, st.facts
        if e1 or e2:
            keep = s2 if e1 else s1
            st.become(keep)
            st.pc, st.facts = pc, facts
            return v2 if e1 else v1
        m = self.merge(c, s1, s2)
        m.pc, m.facts = pc, facts
        st.become(m)
        return self.merge_val(c, v1, v2)

    def call(self, st, f, args, kw, node):
        if isinstance(f, BoundV):
            return self.call(st, f.func, [f.self_] + list(args), kw, node)
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate_class(st, f, args, kw, node)
        if isinstance(f, Choice):
            return self.choice_apply(st, f, lambda s, o: self.call(s, o, args, kw, node))
        if isinstance(f, PartialV):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(st, f.func, list(f.args) + list(args), k, node)
        if isinstance(f, ExtV):
            return self.np.call_ext(self, st, f.name, args, kw, node)
        if isinstance(f, MethV):
            return self.np.call_method(self, st, f.obj, f.name, args, kw, node)
        if isinstance(f, Ref):
            c = self.cell(st, f)
            if isinstance(c, ObjC) and c.cls is not None:
                m = c.cls.find('__call__')
                if m is not None:
                    return self.call_func(st, m, [f] + list(args), kw, node)
            raise PyRaise('TypeError')
        if isinstance(f, T):
            if f.op == 'attr':
                return self.np.call_method(self, st, f.args[0], f.args[1], args, kw, node)
            if f.op == 'ite':
                return self.choice_apply(st, Choice(*f.args), lambda s, o: self.call(s, o, args, kw, node))
            if f.op in ('num',) or f is NONE or (f.op == 'const'):
                raise PyRaise('TypeError')
            return self.np.call_sym(self, st, f, args, kw, node)
        raise Unsupported('call of %r' % (f,))

    def bind_args(self, st, f, args, kw, fr, fname):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        vals = {}
        starred = [x for x in args if isinstance(x, T) and x.op == 'star']
        if starred:
            # unknown number of positional arguments
            k = [i for i, x in enumerate(args) if isinstance(x, T) and x.op == 'star'][0]
            rest = args[k:]
            args = args[:k]
            if a.vararg:
                for nme, v in zip(pos, args):
                    vals[nme] = v
                extra = args[len(pos):]
                vals[a.vararg.arg] = self.alloc(st, ListC(list(extra) + list(rest)))
                args = args[:len(pos)]
                rest = []
        for nme, v in zip(pos, args):
            vals[nme] = v
        if len(args) > len(pos):
            if a.vararg:
                vals[a.vararg.arg] = TupleV(args[len(pos):])
            else:
                raise PyRaise('TypeError')
        elif a.vararg and a.vararg.arg not in vals:
            vals[a.vararg.arg] = TupleV(())
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    raise PyRaise('TypeError')
                vals[k] = v
            elif k == '**':
                extra['**'] = v
            else:
                extra[k] = v
        if extra:
            if a.kwarg:
                b = extra.pop('**', None)
                vals[a.kwarg.arg] = self.alloc(st, DictC(extra, b))
            elif set(extra) - {'**'}:
                raise PyRaise('TypeError')
        elif a.kwarg:
            vals[a.kwarg.arg] = self.alloc(st, DictC({}))
        dfl = f.defaults
        off = len(pos) - len(dfl)
        for i, nme in enumerate(pos):
            if nme not in vals:
                if i >= off:
                    vals[nme] = dfl[i - off]
                else:
                    raise PyRaise('TypeError')
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise PyRaise('TypeError')
        fr.update(vals)

    def qual(self, f):
        return (f.cls + '.' + f.name) if f.cls else f.name

    def call_func(self, st, f, args, kw, node):
        if not isinstance(f, FuncV):
            return self.call(st, f, args, kw, node)
        q = self.qual(f)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, f, args, kw, node)
            if r is not NotImplemented:
                return r
        if self.depth > 45:
            self.note('call depth exceeded at %s' % q, node)
            return fresh_sym('deepcall')
        fid = self.newid()
        fr = {'$mod': f.module, '$parent': f.frame, '$clsv': getattr(f, 'clsv', None)}
        if isinstance(f.node, ast.Lambda):
            body = None
        else:
            body = f.node.body
        fr['$fnode'] = f.node
        self.bind_args(st, f, args, kw, fr, q)
        st.frames[fid] = fr
        self.visited.add((f.module, q))
        isgen = body is not None and _is_gen(f.node)
        if isgen:
            fr['$yield'] = self.alloc(st, ListC([]))
        self.callstack.append((q, f.module.split('.')[-1] + '.py'))
        self.depth += 1
        base, bfacts = st.pc, st.facts
        try:
            if body is None:
                return self.ev(f.node.body, st, fid)
            o = self.exec_block(body, st, fid)
        finally:
            self.callstack.pop()
            self.depth -= 1
        rets = list(o.ret)
        if o.st is not None:
            rets.append((o.st, NONE))
        for (es, ev) in o.exc:
            if hasattr(self, 'excout'):
                self.excout.append((es.pc, ev, q))
        if not rets:
            es, ev = o.exc[0] if o.exc else (st, ExcV('RuntimeError'))
            if es is not st:
                st.become(es)
            st.pc, st.facts = base, bfacts
            raise PyRaise(ev.cls, ev.args)
        if isgen:
            rets = [(s_, s_.frames[fid]['$yield']) for s_, _ in rets]
        s2, v = self.merge_many(base, rets)
        if o.exc:
            # conditional exceptions: remember, continue on the normal path
            cond_ok = self.rel(s2.pc, base)
            fa = dict(bfacts)
            facts_of(cond_ok, True, fa)
            pc = mand(base, cond_ok)
            if getattr(self, '_tryexc', None):
                for (es, ev) in o.exc:
                    pass
            self.pend(o.exc)
            st.become(s2)
            st.pc, st.facts = pc, fa
        else:
            st.become(s2)
            st.pc, st.facts = base, bfacts
        if not _has_closure(f.node):
            st.frames.pop(fid, None)
        return v

    def pend(self, excs):
        if getattr(self, '_tryexc', None):
            self._tryexc[-1].extend(excs)
        self.events_exc = getattr(self, 'events_exc', [])
        for es, ev in excs:
            self.events_exc.append((es.pc, ev))

    def instantiate_class(self, st, c, args, kw, node):
        h = self.hooks.get(c.name)
        if h is not None:
            r = h(self, st, c, args, kw, node)
            if r is not NotImplemented:
                return r
        if c.dataclass == 'nt':
            names = [n for n, _ in c.fields]
            vals = list(args) + [kw.get(n, d) for n, d in c.fields[len(args):]]
            return TupleV(vals, tuple(names))
        if any(isinstance(b, ExtV) and b.name.split('.')[-1] in ('Exception', 'ValueError', 'RuntimeError')
               for b in c.bases):
            return ExcV(c.name)
        attrs = {}
        r = self.alloc(st, ObjC(c, attrs))
        init = c.find('__init__')
        if init is not None:
            self.call_func(st, init, [r] + list(args), kw, node)
        elif c.dataclass:
            for (n, d), v in zip(c.fields, args):
                attrs[n] = v
            for n, d in c.fields[len(args):]:
                if n in kw:
                    attrs[n] = kw[n]
                elif d is MISSING:
                    raise PyRaise('TypeError')
                else:
                    attrs[n] = self.np.dc_default(self, st, d)
            st.heap[r.id] = ObjC(c, attrs)
            pi = c.find('__post_init__')
            if pi is not None:
                self.call_func(st, pi, [r], {}, node)
        return r

    # ------------------------------------------------------------- attributes & items
    def get_attr(self, st, o, name):
        if isinstance(o, Choice):
            return self.choice_apply(st, o, lambda s, x: self.get_attr(s, x, name))
        if isinstance(o, ModuleV):
            env = self.modenv[o.name]
            if name in env:
                return env[name]
            raise PyRaise('AttributeError')
        if isinstance(o, ExtV):
            return self.np.ext_attr(self, st, o, name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return const(o.name)
            m = o.find(name)
            if m is None:
                if name in ('__init__', '__new__'):
                    return ExtV('builtins.object.' + name)
                raise PyRaise('AttributeError')
            if isinstance(m, FuncV) and 'classmethod' in m.deco:
                return BoundV(m, o)
            return m
        if isinstance(o, SuperV):
            for b in (o.cls.bases if o.cls else ()):
                if isinstance(b, ClassV):
                    m = b.find(name)
                    if m is not None:
                        return BoundV(m, o.self_)
            return ExtV('builtins.object.' + name)
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, ObjC):
                if name == '__dict__':
                    return ObjDict(o.id)
                if name == '__class__':
                    return c.cls
                if c.cls is not None:
                    m = c.cls.find(name)
                    if isinstance(m, FuncV) and any('property' in d for d in m.deco):
                        return self.call_func(st, m, [o], {}, None)
                if name in c.attrs:
                    v = c.attrs[name]
                    if v is MISSING:
                        raise PyRaise('AttributeError')
                    return v
                if c.cls is not None:
                    m = c.cls.find(name)
                    if m is not None:
                        if isinstance(m, FuncV):
                            if 'staticmethod' in m.deco:
                                return m
                            if 'classmethod' in m.deco:
                                return BoundV(m, c.cls)
                            return BoundV(m, o)
                        return m
                    g = c.cls.find('__getattr__')
                    if g is not None:
                        return self.call_func(st, g, [o, const(name)], {}, None)
                if c.base is not None:
                    h = self.symattrs.get(c.base)
                    if h is not None:
                        r = h(self, st, o, name)
                        if r is not None:
                            return r
                    return mk('attr', c.base, name)
                raise PyRaise('AttributeError', (name,))
            return self.np.cell_attr(self, st, o, c, name)
        if isinstance(o, TupleV):
            if o.cls and name in o.cls:
                return o.items[o.cls.index(name)]
            return MethV(o, name)
        if isinstance(o, T):
            if o is NONE:
                raise PyRaise('AttributeError')
            if o.op == 'ite':
                return self.choice_apply(st, Choice(*o.args), lambda s, x: self.get_attr(s, x, name))
            return self.np.term_attr(self, st, o, name)
        if isinstance(o, (FuncV, BoundV)):
            if name == '__name__':
                return const(getattr(o, 'name', '?'))
            return mk('attr', self.term(st, o), name)
        return MethV(o, name)

    def set_attr(self, st, o, name, v, node=None):
        if isinstance(o, Choice):
            for c_, alt in ((o.c, o.a), (mnot_full(o.c), o.b)):
                if isinstance(alt, Ref):
                    cur = None
                    try:
                        cur = self.get_attr(st, alt, name)
                    except PyRaise:
                        pass
                    self.set_attr(st, alt, name, self.merge_val(c_, v, cur) if cur is not None else v, node)
            return
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, ObjC):
                if name == '__dict__':
                    it, b = self.np.dict_items(self, st, v)
                    st.heap[o.id] = ObjC(c.cls, dict(it), b if b is not None else None, c.flags)
                    self.event(st, 'setdict', '__dict__', (o, v), node=node)
                    return
                if c.cls is not None:
                    for k, m in c.cls.members.items():
                        if k == name and isinstance(m, FuncV) and any(d.endswith('.setter') for d in m.deco):
                            self.call_func(st, m, [o, v], {}, node)
                            return
                a = dict(c.attrs)
                a[name] = v
                st.heap[o.id] = ObjC(c.cls, a, c.base, c.flags)
                self.event(st, 'setattr', name, (o, v), node=node)
                return
            self.event(st, 'setattr', name, (o, v), node=node)
            return
        if isinstance(o, ModuleV):
            st.frames.setdefault(('m', o.name), {})[name] = v
            return
        self.event(st, 'setattr', name, (o, v), node=node)

    def get_item(self, st, o, k):
        return self.np.get_item(self, st, o, k)

    def set_item(self, st, o, k, v, node):
        return self.np.set_item(self, st, o, k, v, node)

    def list_extend(self, st, ref, v, node):
        c = self.cell(st, ref)
        it = self.iter_of(st, v)
        if it.items is not None:
            st.heap[ref.id] = ListC(c.items + tuple(it.items), c.flags, c.isset)
        else:
            k = fresh_iv('k')
            st.heap[ref.id] = ListC(c.items + (Sym(it.n, k, self.by_value(st, it.get(st, k))),), c.flags, c.isset)
        self.event(st, 'list-extend', '', (ref, v), node=node)

    # ------------------------------------------------------------- iteration
    def to_list(self, st, v):
        if isinstance(v, Ref) and isinstance(self.cell(st, v), ListC):
            c = self.cell(st, v)
            return self.alloc(st, ListC(c.items, EMPTY, False))
        it = self.iter_of(st, v)
        if it.items is not None:
            return self.alloc(st, ListC(it.items))
        k = fresh_iv('k')
        self.ivs.append((k, it.n))
        try:
            x = self.by_value(st, it.get(st, k))
        finally:
            self.ivs.pop()
        return self.alloc(st, ListC([Sym(it.n, k, x)]))

    def iter_of(self, st, v):
        return self.np.iter_of(self, st, v)


def _is_gen(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            # not inside nested function
            return not any(isinstance(y, (ast.FunctionDef, ast.Lambda)) and any(z is x for z in ast.walk(y))
                           for y in ast.walk(node) if y is not node)
    return False


def _has_closure(node):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)


import builtins as _b
BUILTIN_NAMES = set(dir(_b))
