"""Abstract values, heap cells and states."""
from .terms import *
from . import terms as tm


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '&%d' % self.id


class TupleV:
    __slots__ = ('items', 'cls')

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls          # namedtuple field names

    def __eq__(self, o):
        return isinstance(o, TupleV) and o.items == self.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return 'tuple%r' % (self.items,)


class FuncV:
    def __init__(self, node, module, frame, name, cls=None, defaults=(), kwdefaults=None, deco=()):
        self.node = node
        self.module = module
        self.frame = frame      # enclosing frame id or None
        self.name = name
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.deco = deco

    def __repr__(self):
        return '<fn %s>' % self.name


class ClassV:
    def __init__(self, node, module, name, bases, members):
        self.node = node
        self.module = module
        self.name = name
        self.bases = bases
        self.members = members
        self.dataclass = False
        self.fields = None

    def find(self, name):
        if name in self.members:
            return self.members[name]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.find(name)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self_ == self.self_

    def __hash__(self):
        return hash((id(self.func), self.self_))

    def __repr__(self):
        return '<bound %r.%s>' % (self.self_, getattr(self.func, 'name', self.func))


class ExtV:
    """external (library or builtin) module, function or class"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return '<ext %s>' % self.name


class MethV:
    """method of a non-repository value, looked up by name"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, MethV) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(('meth', self.name))

    def __repr__(self):
        return '<meth %r.%s>' % (self.obj, self.name)


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)


class Choice:
    """gated non-term value"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(('choice', self.c))

    def __repr__(self):
        return 'choice(%r,%r,%r)' % (self.c, self.a, self.b)


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ArrV:
    """array by value (inside symbolic list templates)"""

    def __init__(self, shape, elem, origin=None):
        self.shape, self.elem, self.origin = tuple(shape), elem, origin

    def __eq__(self, o):
        return isinstance(o, ArrV) and o.shape == self.shape and o.elem is self.elem

    def __hash__(self):
        return hash(self.elem)

    def __repr__(self):
        return 'arr(%r,%r)' % (self.shape, self.elem)


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV:
    """an iterable: either a concrete list of values or (length, k -> value)"""

    def __init__(self, items=None, n=None, get=None, filt=None, note=None):
        self.items, self.n, self.get = items, n, get
        self.note = note


class ObjDict:
    """obj.__dict__ (live)"""

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, ObjDict) and o.id == self.id

    def __hash__(self):
        return hash(('od', self.id))


class ModuleV:
    def __init__(self, name):
        self.name = name


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return '<exc %s>' % self.cls


MISSING = type('MISSING', (), {'__repr__': lambda s: '<missing>'})()
UNBOUND = MISSING


# --------------------------------------------------------------------- cells
class Arr:
    kind = 'arr'
    __slots__ = ('shape', 'elem', 'base', 'flags', 'dt')

    def __init__(self, shape, elem, base=None, flags=EMPTY, dt=None):
        self.shape, self.elem, self.base, self.flags, self.dt = tuple(shape), elem, base, flags, dt

    def same(self, o):
        return isinstance(o, Arr) and o.shape == self.shape and o.elem is self.elem and o.flags == self.flags

    def __repr__(self):
        return 'Arr%r %r' % (self.shape, self.elem)


class DictC:
    kind = 'dict'
    __slots__ = ('items', 'base', 'flags')

    def __init__(self, items, base=None, flags=EMPTY):
        self.items, self.base, self.flags = items, base, flags

    def same(self, o):
        return isinstance(o, DictC) and o.base is self.base and list(o.items) == list(self.items) and \
            all(veq(o.items[k], self.items[k]) for k in self.items)

    def __repr__(self):
        return 'Dict%r+%r' % (self.items, self.base)


class Alt:
    """list segment gated by a condition"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __eq__(self, o):
        return isinstance(o, Alt) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(self.c)


class Sym:
    """symbolic list segment: length n, element value template over variable v"""

    def __init__(self, n, v, val, src=None):
        self.n, self.v, self.val, self.src = n, v, val, src

    def __eq__(self, o):
        return isinstance(o, Sym) and o.n is self.n and o.v is self.v and veq(o.val, self.val)

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Sym[%r: %r]' % (self.n, self.val)


class ListC:
    kind = 'list'
    __slots__ = ('items', 'flags', 'isset')

    def __init__(self, items, flags=EMPTY, isset=False):
        self.items, self.flags, self.isset = tuple(items), flags, isset

    def same(self, o):
        return isinstance(o, ListC) and len(o.items) == len(self.items) and \
            all(veq(a, b) for a, b in zip(o.items, self.items)) and self.isset == o.isset

    def concrete(self):
        return all(not isinstance(i, (Alt, Sym)) for i in self.items)

    def __repr__(self):
        return 'List%r' % (self.items,)


class ObjC:
    kind = 'obj'
    __slots__ = ('cls', 'attrs', 'base', 'flags')

    def __init__(self, cls, attrs, base=None, flags=EMPTY):
        self.cls, self.attrs, self.base, self.flags = cls, attrs, base, flags

    def same(self, o):
        return isinstance(o, ObjC) and o.base is self.base and set(o.attrs) == set(self.attrs) and \
            all(veq(o.attrs[k], self.attrs[k]) for k in self.attrs)

    def __repr__(self):
        return 'Obj %s' % (self.cls.name if self.cls else '?')


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    return type(a) is type(b) and a == b


class State:
    __slots__ = ('heap', 'frames', 'pc', 'facts')

    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.pc = TRUE
        self.facts = {}

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc = self.pc
        s.facts = self.facts
        return s

    def assume(self, c):
        self.pc = mand(self.pc, c)
        f = dict(self.facts)
        facts_of(c, True, f)
        self.facts = f

    def become(self, o):
        self.heap, self.frames, self.pc, self.facts = o.heap, o.frames, o.pc, o.facts


def vsubst(v, m, rw=False):
    """substitute variables (or rewrite terms) in a by-value template"""
    f = (lambda t: rewrite(t, m)) if rw else (lambda t: subst(t, m))
    if isinstance(v, T):
        return f(v)
    if isinstance(v, TupleV):
        return TupleV([vsubst(i, m, rw) for i in v.items], v.cls)
    if isinstance(v, ArrV):
        return ArrV([f(s) for s in v.shape], f(v.elem), v.origin)
    if isinstance(v, Choice):
        return Choice(f(v.c), vsubst(v.a, m, rw), vsubst(v.b, m, rw))
    if isinstance(v, Sym):
        return Sym(f(v.n), v.v, vsubst(v.val, m, rw), v.src)
    return v
