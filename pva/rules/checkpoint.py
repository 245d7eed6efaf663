"""Saving, loading and resuming (C08, C09)."""
from .runlevel import *
from ..values import *
from ..interp import PyRaise
from ..model import Model, Cfg

PATH = sym('path')
TRANSIENT = ('pbar', 'pool', 'distribute')


# ------------------------------------------------------------------ where a path lies relative to the checkpoint path
def parts(t):
    """a string/path term as a list of concatenated pieces"""
    if t.op == 'strcat':
        return [q for a in t.args for q in parts(a)]
    if t.op == 'app' and t.args[0] in ('str', 'fspath') and len(t.args) == 2:
        return parts(t.args[1])
    return [t]


def attr_of(t, names, P):
    return t.op == 'attr' and t.args[0] is P and t.args[1] in names


def lit(t):
    return t.op == 'const' and isinstance(t.args[0], str)


def name_kind(t, P):
    """is this file name provably different from the name of P?"""
    ps = [q for q in parts(t) if not (lit(q) and q.args[0] == '')]
    whole = [q for q in ps if attr_of(q, ('name',), P)]
    rest = [q for q in ps if not attr_of(q, ('name',), P)]
    if any(attr_of(q, ('stem',), P) for q in ps) and any(attr_of(q, ('suffix',), P) for q in ps):
        st, sf = [q for q in ps if attr_of(q, ('stem',), P)][0], [q for q in ps if attr_of(q, ('suffix',), P)][0]
        whole, rest = [st], [q for q in ps if q is not st and q is not sf]
    if whole:
        if not rest:
            return 'same'
        return 'other' if any(lit(q) for q in rest) or len(whole) > 1 else None
    if all(lit(q) or attr_of(q, ('stem', 'suffix'), P) for q in ps):
        return 'maybe'
    if all(lit(q) or attr_of(q, ('stem', 'suffix'), P) or (q.op == 'app' and q.args[0] == 'impure') for q in ps):
        return 'maybe'
    return None


def is_dir(t, P):
    return attr_of(t, ('parent',), P)


def where(t, P=PATH):
    """same / sibling (same directory, provably another file) / maybe (may be the checkpoint) / elsewhere / None"""
    if t is P:
        return 'same'
    if t.op == 'attr' and t.args[1] == 'name' and t.args[0].op == 'file':
        return where(t.args[0].args[0], P)
    if t.op == 'app' and t.args[0] == 'with_name' and t.args[1] is P:
        k = name_kind(t.args[2], P)
        return {'same': 'same', 'other': 'sibling', 'maybe': 'maybe'}.get(k)
    if t.op == 'app' and t.args[0] in ('with_suffix', 'with_stem') and t.args[1] is P:
        ps = [q for q in parts(t.args[2]) if not (lit(q) and q.args[0] == '')]
        nm = 'suffix' if t.args[0] == 'with_suffix' else 'stem'
        if any(attr_of(q, (nm,), P) for q in ps):
            return 'same' if len(ps) == 1 else 'sibling' if any(lit(q) for q in ps) else None
        return 'maybe' if all(lit(q) for q in ps) else None
    if t.op == 'app' and t.args[0] == 'pathjoin':
        if is_dir(t.args[1], P):
            k = name_kind(t.args[2], P)
            return {'same': 'same', 'other': 'sibling', 'maybe': 'maybe'}.get(k)
        return None
    if t.op == 'app' and t.args[0] == 'tempfile':
        d = t.args[1]
        return 'sibling' if is_dir(d, P) else 'elsewhere' if d is NONE or lit(d) else None
    ps = [q for q in parts(t) if not (lit(q) and q.args[0] == '')]
    if len(ps) == 1 and ps[0] is P:
        return 'same'
    if len(ps) > 1:
        if ps[0] is P and not any(q is P for q in ps[1:]):
            if all(not (lit(q) and '/' in q.args[0]) for q in ps[1:]) and any(lit(q) for q in ps[1:]):
                return 'sibling'
            return None
        if is_dir(ps[0], P) and lit(ps[1]) and ps[1].args[0].startswith('/'):
            rest = ([const(ps[1].args[0][1:])] if len(ps[1].args[0]) > 1 else []) + ps[2:]
            k = name_kind(mk('strcat', *rest), P) if rest else None
            return {'same': 'same', 'other': 'sibling', 'maybe': 'maybe'}.get(k)
    return None


def writes(mode):
    if mode.op == 'const' and isinstance(mode.args[0], str):
        return any(c in mode.args[0] for c in 'wax+')
    return None


def covers(e, r):
    """does e happen on every path on which r happens?"""
    if e.pc is TRUE or e.pc is r.pc:
        return True
    return assume_facts(e.pc, facts_of(r.pc, True)) is TRUE or assume_facts(e.pc, r.facts) is TRUE


class Save:
    """typestate of the files touched by one save"""

    def __init__(self, evs, P=PATH):
        self.evs, self.P = evs, P
        self.bad, self.open, self.good = [], [], []
        self.files = {}

    def fail(self, e, msg):
        self.bad.append((e.loc, msg))

    def unknown(self, e, msg):
        self.open.append((e.loc, msg))

    def target(self, e, t, what):
        """something is created, removed or overwritten at t without being a rename"""
        w = where(t, self.P)
        if w == 'same':
            self.fail(e, '%s is applied to the checkpoint itself' % what)
        elif w == 'maybe':
            self.fail(e, '%s is applied to %s, which is the checkpoint itself for some checkpoint names' % (what, show(t)))
        elif w is None:
            self.unknown(e, '%s of %s' % (what, show(t)[:120]))
        return w

    def run(self):
        for e in self.evs:
            if e.kind in ('os', 'open') and e.name in ('open', 'tempfile', 'os.open'):
                t, mode = e.args[0], e.args[1]
                w = writes(mode) if e.name != 'os.open' else None
                if e.name == 'os.open':
                    w = True if any(q in show(mode) for q in ('O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND')) else False
                if w is None:
                    self.unknown(e, 'file mode %s' % show(mode))
                elif w:
                    self.target(e, t, 'opening for writing')
            elif e.kind == 'os':
                n = e.name.split('.')[-1]
                a = e.args
                if n in ('mkdir', 'makedirs', 'fsync', 'fdatasync', 'close', 'rmdir'):
                    continue
                if n in ('rename', 'replace', 'move') and len(a) > 1:
                    src, dst = a[0], a[1]
                    if where(src, self.P) in ('same', 'maybe'):
                        self.fail(e, 'the checkpoint is moved away: until the new one is in place there is none')
                        continue
                    d = where(dst, self.P)
                    if d == 'same':
                        self.commit(e, src)
                    elif d is None:
                        self.unknown(e, 'renaming to %s' % show(dst)[:120])
                    elif d == 'maybe':
                        self.fail(e, 'renaming onto %s' % show(dst))
                elif n in ('copy', 'copyfile', 'copy2', 'link', 'symlink', 'symlink_to', 'link_to', 'hardlink_to') and len(a) > 1:
                    dst = a[0] if n.endswith('_to') else a[1]
                    if where(dst, self.P) in ('same', 'maybe'):
                        self.fail(e, '%s onto the checkpoint is not atomic' % n)
                    elif where(dst, self.P) is None:
                        self.unknown(e, '%s to %s' % (n, show(dst)[:120]))
                else:
                    self.target(e, a[0], n)
        return self

    def file_events(self, src, upto):
        """events on any handle of the file src before the event upto, in order: (kind, event)"""
        out = []
        for e in self.evs:
            if e.seq >= upto.seq:
                break
            k = None
            f = None
            if e.kind in ('open', 'os') and e.name in ('open', 'tempfile', 'os.open'):
                k, f = 'open', e.res
            elif e.kind == 'dump':
                k, f = 'write', e.args[1]
            elif e.kind == 'file' and e.name in ('write', 'writelines', 'truncate', 'seek'):
                k, f = ('write' if e.name.startswith('write') else e.name), e.args[0]
            elif e.kind == 'file' and e.name in ('flush', 'close', '__exit__'):
                k, f = e.name, e.args[0]
            elif e.kind == 'exit':
                k, f = 'close', e.args[0]
            elif e.kind == 'os' and e.name in ('fsync', 'fdatasync'):
                k, f = 'sync', e.args[0]
                if isinstance(f, T) and f.op == 'app' and f.args[0] == 'fileno':
                    f = f.args[1]
            elif e.kind == 'os' and e.name in ('write', 'write_text'):
                if e.args[0] is src:
                    out.append(('write', e))
                    out.append(('close', e))
                continue
            if k is None or not isinstance(f, T) or f.op != 'file':
                continue
            if f.args[0] is src or (src.op == 'attr' and src.args[0] is f and src.args[1] == 'name'):
                out.append((k, e))
        return out

    def commit(self, r, src):
        """r renames src onto the checkpoint"""
        w = where(src, self.P)
        if w == 'elsewhere':
            self.fail(r, 'the new content is not written in the directory of the checkpoint, so moving it there is not atomic')
            return
        if w == 'maybe':
            return
        if w is None:
            self.unknown(r, 'renaming %s' % show(src)[:120])
            return
        fe = self.file_events(src, r)
        if not any(k == 'open' for k, e in fe) and not any(k == 'write' for k, e in fe):
            # content may come from something the analysis does not see
            if any(e.kind in ('call', 'ext') and e.name != 'print' for e in self.evs):
                self.unknown(r, 'no write to %s seen' % show(src)[:120])
            else:
                self.fail(r, 'nothing has been written to %s when it is renamed onto the checkpoint' % show(src)[:120])
            return
        ws = [e for k, e in fe if k == 'write' and covers(e, r)]
        if not ws:
            self.fail(r, 'the file is renamed onto the checkpoint although its content may not have been written')
            return
        last = max(e.seq for k, e in fe if k == 'write')
        fl = [e for k, e in fe if k in ('flush', 'close', '__exit__') and e.seq > last and covers(e, r)]
        sy = [e for k, e in fe if k == 'sync' and covers(e, r)]
        sy = [e for e in sy if e.seq > last and any(f.seq < e.seq for f in fl)]
        if not sy:
            self.fail(r, 'the content of %s is not flushed and then forced to disk before it is renamed onto the '
                         'checkpoint' % show(src)[:120])
            return
        late = [e for e in self.evs if e.seq > r.seq and (
            (e.kind == 'dump' and isinstance(e.args[1], T) and e.args[1].op == 'file' and e.args[1].args[0] is src) or (
                e.kind == 'file' and e.name in ('write', 'writelines', 'truncate') and e.args[0].op == 'file' and
                e.args[0].args[0] is src))]
        if late:
            self.fail(late[0], 'the file is written to after it has become the checkpoint')
            return
        self.good.append(r)


def saver(cfg, fault=None):
    M = Model(ROOT, cfg=cfg)
    S = M.build()
    I, st = M.I, M.st
    I.set_attr(st, S, 'pbar', sym('pbar0'), None)
    for k in ('n_total', 'n_evidence', 'progress', 'pva_attribute_set_by_run'):
        if k not in I.cell(st, S).attrs:
            I.set_attr(st, S, k, sym('stored_' + k), None)
    before = st.clone()
    n0 = len(I.events)
    I.fault, I.fault_n = fault, 0
    err = None
    try:
        I.call_attr(st, S, 'save_state', [PATH], {}, None)
    except PyRaise as e:
        err = e
    return M, S, before, I.events[n0:], err, (I.fault_at - n0 if hasattr(I, 'fault_at') else None)


def crash_rule(R, cfg):
    M, S, before, evs, err, _ = saver(cfg)
    R.unit('Sampler.save_state', M.I)
    site = 'Sampler.save_state'
    nf = M.I.fault_n
    sv = Save(evs).run()
    for loc, msg in sv.bad:
        R.ob('atomic-save', loc, False, msg)
    for loc, msg in sv.open:
        R.ob('atomic-save', loc, None, msg)
    if err is not None:
        R.ob('atomic-save', site, False, 'saving raises %s' % err)
    if not sv.bad and not sv.open:
        if sv.good and sv.good[-1].pc is TRUE:
            for r in sv.good:
                R.ob('atomic-save', r.loc, True, 'write -> flush -> sync -> rename')
        elif sv.good:
            R.ob('atomic-save', sv.good[-1].loc, None, 'the rename happens only if %s' % show(sv.good[-1].pc)[:200])
        else:
            ok = any(e.kind in ('call', 'ext') and e.name != 'print' for e in evs)
            R.ob('atomic-save', site, None if ok else False, 'the checkpoint path is never given the new content')
    for e in evs:
        if e.kind in ('open', 'file', 'dump', 'os'):
            R.ob('crash-point', '%s %s %s' % (e.loc, e.kind, e.name), True if not sv.bad and not sv.open else None,
                 'crash after this operation leaves the checkpoint whole')
    for k in range(1, nf + 1):
        M, S, before, evs, err, at_ = saver(cfg, k)
        if at_ is None:
            continue
        fe = evs[at_]
        rest = evs[:at_] + evs[at_ + 1:]
        sv = Save(rest).run()
        what = '%s %s %s' % (fe.loc, fe.kind, fe.name)
        for loc, msg in sv.bad:
            R.ob('failed-operation', '%s, after failure of %s' % (loc, what), False, msg)
        for loc, msg in sv.open:
            R.ob('failed-operation', '%s, after failure of %s' % (loc, what), None, msg)
        if not sv.bad and not sv.open:
            R.ob('failed-operation', what, True, 'an error here leaves the checkpoint whole')


# ------------------------------------------------------------------ C09
def deep(I, st, v, seen=(), facts=None):
    """a structure that describes a value including everything it refers to"""
    if isinstance(v, Ref):
        if v.id in seen:
            return ('rec', seen.index(v.id))
        try:
            c = I.cell(st, v)
        except Exception:
            return ('dangling',)
        sn = seen + (v.id,)
        if isinstance(c, Arr):
            s, e = I.arr(st, v)
            return ('arr', tuple(deep(I, st, q, sn, facts) for q in s), deep(I, st, e, sn, facts))
        if isinstance(c, DictC):
            return ('dict', tuple((k, deep(I, st, q, sn, facts)) for k, q in sorted(c.items.items(), key=lambda p: str(p[0]))),
                    c.base)
        if isinstance(c, ListC):
            return ('list', tuple(deep(I, st, q, sn, facts) for q in c.items))
        if isinstance(c, ObjC):
            return ('obj', c.cls.name if c.cls is not None else None,
                    tuple((k, deep(I, st, q, sn, facts)) for k, q in sorted(c.attrs.items())), c.base)
        return ('cell', type(c).__name__, id(c))
    if isinstance(v, T):
        return assume_facts(v, facts) if facts else v
    if isinstance(v, TupleV):
        return ('tuple', tuple(deep(I, st, q, seen, facts) for q in v.items))
    if isinstance(v, Sym):
        return ('sym', v.n, v.v, deep(I, st, v.val, seen, facts))
    if isinstance(v, Choice):
        c = assume_facts(v.c, facts) if facts else v.c
        if c is TRUE:
            return deep(I, st, v.a, seen, facts)
        if c is FALSE:
            return deep(I, st, v.b, seen, facts)
        return ('choice', c, deep(I, st, v.a, seen, facts), deep(I, st, v.b, seen, facts))
    if isinstance(v, Alt):
        return ('alt', v.c, deep(I, st, v.a, seen, facts), deep(I, st, v.b, seen, facts))
    if isinstance(v, BoundV):
        return ('bound', v.func.name, deep(I, st, v.self_, seen, facts))
    return v


def deq(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return a is b or same(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b))
    if isinstance(a, (list,)) and isinstance(b, list):
        return len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and a == b)


def deep_opaque(d):
    if isinstance(d, T):
        return opaque(d)
    if isinstance(d, tuple):
        return any(deep_opaque(q) for q in d)
    return False


def content_rule(R, cfg):
    """what is stored, and that storing does not touch the sampler"""
    M, S, before, evs, err, _ = saver(cfg)
    I, st = M.I, M.st
    R.unit('Sampler.save_state', I)
    site = 'Sampler.save_state'
    if err is not None:
        R.ob('saved-state', site, False, 'saving raises %s' % err)
        return
    own = I.cell(before, S).attrs
    now = I.cell(st, S).attrs
    for k in sorted(set(own) | set(now)):
        if k.startswith('$'):
            continue
        if k not in now:
            R.ob('save-is-pure', '%s: %s' % (site, k), False, 'saving removes the attribute %s of the running sampler' % k)
        elif k not in own:
            R.ob('save-is-pure', '%s: %s' % (site, k), True)
        else:
            a, b = deep(I, before, own[k]), deep(I, st, now[k])
            R.ob('save-is-pure', '%s: %s' % (site, k), True if deq(a, b) else None if deep_opaque(b) else False,
                 '' if deq(a, b) else 'saving changes the attribute %s of the running sampler' % k)
    ds = [e for e in evs if e.kind in ('dump', 'dumps')]
    if len(ds) != 1:
        R.ob('saved-state', site, None, '%d objects stored' % len(ds))
        return
    e = ds[0]
    s2, obj = e.extra['snap']
    if isinstance(obj, Ref) and isinstance(I.cell(s2, obj), ObjC) and obj == S:
        # the sampler itself is stored, through __getstate__
        obj = I.call_attr(s2, S, '__getstate__', [], {}, None) if I.cell(s2, S).cls.find('__getstate__') else None
        if obj is None:
            R.ob('saved-state', e.loc, None, 'the sampler object is stored')
            return
    if isinstance(obj, ObjDict):
        items = I.cell(s2, Ref(obj.id)).attrs
    elif isinstance(obj, Ref) and isinstance(I.cell(s2, obj), DictC):
        items = I.cell(s2, obj).items
    else:
        R.ob('saved-state', e.loc, None, 'stored object not understood')
        return
    for k, v in sorted(own.items()):
        if k.startswith('$'):
            continue
        if k in TRANSIENT:
            continue
        if k not in items:
            R.ob('saved-state', '%s: %s' % (e.loc, k), False, 'the checkpoint does not contain %s' % k)
            continue
        a, b = deep(I, before, v), deep(I, s2, items[k])
        ok = deq(a, b)
        R.ob('saved-state', '%s: %s' % (e.loc, k), True if ok else None if deep_opaque(b) else False,
             '' if ok else 'the checkpoint stores something else than the current value of %s' % k)
    for k in TRANSIENT:
        R.ob('transient-state', '%s: %s' % (e.loc, k), k not in items,
             '' if k not in items else '%s belongs to the process and is stored' % k)
    # objects that say how they are pickled
    seen = set()

    def walk(v):
        if isinstance(v, TupleV):
            for q in v.items:
                walk(q)
        if isinstance(v, BoundV):
            walk(v.self_)
        if not isinstance(v, Ref) or v.id in seen:
            return
        seen.add(v.id)
        c = I.cell(s2, v)
        if isinstance(c, ObjC):
            if c.cls is not None and c.cls is not I.cell(s2, S).cls:
                for m in ('__reduce__', '__reduce_ex__', '__getnewargs__', '__copyreg__'):
                    if c.cls.find(m) is not None:
                        R.ob('saved-state', '%s.%s' % (c.cls.name, m), None, 'own pickling method')
                if c.cls.find('__getstate__') is not None:
                    d = I.call_attr(s2.clone(), v, '__getstate__', [], {}, None)
                    st3 = s2.clone()
                    d = I.call_attr(st3, v, '__getstate__', [], {}, None)
                    its = I.cell(st3, d).items if isinstance(d, Ref) and isinstance(I.cell(st3, d), DictC) else None
                    for k, q in c.attrs.items():
                        ok = its is not None and k in its and deq(deep(I, st3, its[k]), deep(I, s2, q))
                        R.ob('saved-state', '%s.__getstate__: %s' % (c.cls.name, k), True if ok else None if its is None or (
                            k in its and deep_opaque(deep(I, st3, its[k]))) else False,
                            '' if ok else 'the state of %s is stored without %s' % (c.cls.name, k))
            for q in c.attrs.values():
                walk(q)
        elif isinstance(c, DictC):
            for q in c.items.values():
                walk(q)
        elif isinstance(c, ListC):
            for q in c.items:
                walk(q)
    for v in items.values():
        walk(v)


def pickle_rule(R, cfg):
    """pickling the sampler (as a pool does with its methods) changes nothing in it"""
    M = Model(ROOT, cfg=cfg)
    S = M.build()
    I, st = M.I, M.st
    if I.cell(st, S).cls.find('__getstate__') is None:
        return
    own = dict(I.cell(st, S).attrs)
    before = st.clone()
    I.call_attr(st, S, '__getstate__', [], {}, None)
    now = I.cell(st, S).attrs
    site = 'Sampler.__getstate__'
    R.unit(site, I)
    for k in sorted(own):
        if k.startswith('$'):
            continue
        ok = k in now and deq(deep(I, before, own[k]), deep(I, st, now[k]))
        R.ob('save-is-pure', '%s: %s' % (site, k), True if ok else None if k in now and deep_opaque(deep(I, st, now[k])) else False,
             '' if ok else 'pickling the sampler changes its attribute %s' % k)


def load_rule(R, cfg, empty=False):
    """loading puts every stored value in place and keeps what is not stored

    empty: values that are None, False or 0 in the checkpoint replace other values of the loading sampler as well"""
    M = Model(ROOT, cfg=cfg)
    S = M.build()
    I, st = M.I, M.st
    site = 'Sampler.load_state'
    own = dict(I.cell(st, S).attrs)
    stored = {k: sym('stored_' + k) for k in list(own) + ['n_total', 'n_evidence', 'progress', 'pva_attribute_set_by_run']
              if k not in TRANSIENT and not k.startswith('$')}
    for b in ('warmup', 'have_blobs', 'preconditioned'):
        if b in stored:
            stored[b] = mk('bool', sym('stored_' + b))
    if empty:
        for k, v in own.items():
            if k in stored and (v is NONE or k == 'random_state'):
                I.set_attr(st, S, k, sym('own_' + k), None)
                stored[k] = NONE
            elif k in stored and v is TRUE or v is FALSE:
                I.set_attr(st, S, k, TRUE, None)
                stored[k] = FALSE
            elif k in ('t', 'calls', 'logz'):
                I.set_attr(st, S, k, sym('own_' + k), None)
                stored[k] = ZERO
        own = dict(I.cell(st, S).attrs)
    I.loaded = I.alloc(st, DictC(dict(stored)))
    n0 = len(I.events)
    try:
        I.call_attr(st, S, 'load_state', [PATH], {}, None)
    except PyRaise as e:
        R.unit(site, I)
        R.ob('load', site, False, 'loading raises %s' % e)
        return
    R.unit(site, I)
    if empty:
        site += ' (empty values)'
    evs = I.events[n0:]
    ops = [e for e in evs if e.kind == 'open']
    for e in ops:
        w = where(e.args[0])
        R.ob('load-file', e.loc, True if w == 'same' and writes(e.args[1]) is False else
             False if w in ('same', 'maybe', 'sibling') else None, 'the file opened is %s, mode %s' % (show(e.args[0])[:100], show(e.args[1])))
    now = I.cell(st, S).attrs
    for k, v in sorted(stored.items()):
        if k not in now:
            R.ob('load', '%s: %s' % (site, k), False, 'the stored %s is not restored' % k)
            continue
        q = now[k]
        ok = isinstance(q, T) and q is v
        R.ob('load', '%s: %s' % (site, k), True if ok else None if isinstance(q, T) and opaque(q) else False,
             '' if ok else 'after loading, %s is not the stored value' % k)
    for k in TRANSIENT:
        if k in own:
            ok = k in now and (k == 'pbar' or deq(deep(I, st, own[k]), deep(I, st, now[k])))
            R.ob('load-keeps', '%s: %s' % (site, k), ok, '' if ok else 'loading loses the %s of the loading sampler' % k)


def induct(info, a, b):
    """a == b between iterations, by induction over the loop"""
    if same(a, b):
        return True
    ma, mb = info.mus.get(a), info.mus.get(b)
    if ma is None or mb is None or not all(isinstance(d[k], T) for d in (ma, mb) for k in ('init', 'step')):
        return None
    if not same(ma['init'], mb['init']):
        return False
    return same(rewrite(ma['step'], {a: b}), rewrite(mb['step'], {a: b}))


def pieces(t):
    """a path as a list of literal strings and terms"""
    if t.op == 'app' and t.args[0] == 'pathjoin':
        out = []
        for a in t.args[1:]:
            out += (['/'] if out else []) + pieces(a)
    elif t.op == 'app' and t.args[0] == 'with_name' and len(t.args) == 3:
        h = pieces(t.args[1])
        k = max((i for i, q in enumerate(h) if isinstance(q, str) and '/' in q), default=None)
        if k is None:
            return pieces(t.args[2])
        out = h[:k] + [h[k][:h[k].rindex('/') + 1]] + pieces(t.args[2])
    elif t.op == 'strcat':
        out = [q for a in t.args for q in pieces(a)]
    elif t.op == 'app' and t.args[0] in ('str', 'fspath', 'Path', 'path') and len(t.args) == 2:
        out = pieces(t.args[1])
    elif lit(t):
        out = [t.args[0]]
    else:
        out = [t]
    m = []
    for q in out:
        if isinstance(q, str) and m and isinstance(m[-1], str):
            m[-1] += q
        elif q != '':
            m.append(q)
    return m


def names_rule(R, cfg):
    """name and time of the checkpoints of a run"""
    from ..tabulate import Table, Unknown
    X = Run(cfg, output_dir=const('some/dir'), output_label=const('label'))
    I = X.I
    ev = scalar(I, 'save_every', pos=True)
    INTSYMS.add(ev)
    X.run(save_every=ev)
    R.unit(rname(cfg) + ', named checkpoints', I)
    seen = set()
    for e in I.events:
        if e.kind not in ('dump', 'dumps'):
            continue
        s2, obj = e.extra['snap']
        site = ' < '.join(['%s' % e.loc] + list(e.stack[-2:-1]))
        ren = [o for o in I.events if o.kind == 'os' and len(o.args) == 2 and o.seq > e.seq and o.loops == e.loops and o.loc != e.loc]
        ren = [o for o in ren if all(isinstance(a, T) for a in o.args)][:1]
        dst = ren[0].args[1] if ren else None
        if dst is None:
            R.ob('file-name', site, None, 'destination of the checkpoint not recognised')
            continue
        ps = pieces(dst)
        lps = [I.loops[l] for l in e.loops if l in I.loops]
        known = all(isinstance(q, str) or all(x.op in ('sym', 'mu', 'poly', 'bv', 'num', 'iv') or x.op == 'app' and x.args[0] in ('mod', 'floordiv', 'int')
                                             for x in walk(q)) for q in ps)
        if not lps:
            ok = ps == ['some/dir/label_final.state']
            R.ob('file-name', site, True if ok else False if known else None, '' if ok else
                 'the final checkpoint is %s, documented is output_dir/output_label_final.state' % show(dst, 6)[:200])
            continue
        t = I.get_attr(s2, X.S, 't')
        t = I.term(s2, t)
        ok = len(ps) == 3 and ps[0] == 'some/dir/label_' and ps[2] == '.state' and isinstance(ps[1], T) and same(ps[1], t)
        R.ob('file-name', '%s in %s' % (site, lps[0].loc), True if ok else False if known else None, '' if ok else
             'the checkpoint of iteration i is %s, documented is output_dir/output_label_i.state' % show(dst, 6)[:200])
        # saved in exactly the iterations that are multiples of save_every, except the first
        info = lps[0]
        c = e.pc
        if info.cond is not None and info.cond is not TRUE:
            c = assume_facts(c, facts_of(info.cond, True))
        bad = None
        free = False
        try:
            for tv in range(0, 13):
                for v in (1, 2, 3, 5, 12):
                    B = Table({t: float(tv), ev: float(v)})
                    got = bool(B(c))
                    free = free or bool(B.free)
                    want = tv % v == 0 and tv != 0
                    if got != want and bad is None:
                        bad = 'with save_every=%d a checkpoint is %swritten after %d iterations' % (v, '' if got else 'not ', tv)
        except Unknown:
            free = True
        R.ob('save-every', '%s in %s' % (site, info.loc), None if free else bad is None, bad or 'condition depends on other values' if bad or free else '')


def points_rule(R, cfg):
    """where a run saves: only between iterations"""
    key = 'points' + repr(cfg)
    X = Run(cfg)
    ev = scalar(X.I, 'save_every', pos=True)
    INTSYMS.add(ev)
    X.run(save_every=ev)
    I = X.I
    R.unit(rname(cfg) + ', save_every', I)
    ds = [e for e in I.events if e.kind in ('dump', 'dumps')]
    inl = 0
    for e in ds:
        s2, obj = e.extra['snap']
        items = I.cell(s2, obj).items if isinstance(obj, Ref) and isinstance(I.cell(s2, obj), DictC) else \
            I.cell(s2, X.S).attrs
        site = ' < '.join(['%s' % e.loc] + list(e.stack[-2:-1]))
        lps = [I.loops[l] for l in e.loops if l in I.loops]
        if not lps:
            R.ob('save-point', site, True, 'outside the iterations')
            continue
        if len(lps) > 1:
            R.ob('save-point', site, None, 'saved in a nested loop')
            continue
        inl += 1
        info = lps[0]
        f = s2.facts
        res = {}
        for nm, ref in (('head', info.head), ('end', info.end)):
            if ref is None:
                continue
            diff = []
            for k, v in items.items():
                if k in TRANSIENT or k.startswith('$'):
                    continue
                cell = I.cell(ref, X.S)
                if k not in cell.attrs:
                    diff.append((k, ('missing',)))
                    continue
                a, b = deep(I, s2, v, (), f), deep(I, ref, cell.attrs[k], (), f)
                if not deq(a, b):
                    diff.append((k, a))
            res[nm] = diff
        if any(not d for d in res.values()):
            R.ob('save-point', site + ' in ' + info.loc, True, 'state at a boundary between iterations')
        else:
            d = min(res.values(), key=len)
            R.ob('save-point', site + ' in ' + info.loc, None if any(deep_opaque(a) for k, a in d) else False,
                 'the state is saved in the middle of an iteration: %s differ(s) from the value between iterations' %
                 ', '.join(k for k, a in d)[:300])
    if len([e for e in ds]) == 0:
        R.ob('save-point', 'Sampler.run', False, 'a run with save_every never saves')
    # the number of recorded iterations is the iteration counter, at every boundary
    for info in I.loops.values():
        if info.parent or info.head is None or not info.stack or info.stack[-1] != 'Sampler.run':
            continue
        t = I.get_attr(info.head.clone(), X.S, 't')
        s, e = hist(X, info.head, 'beta')
        if not isinstance(t, T):
            continue
        ok = induct(info, t, s[0])
        R.ob('counter', info.loc, ok if ok or ok is None else verdict(False, t, s[0]), '' if ok else
             'the iteration counter %s is not the number of recorded iterations %s' % (show(t)[:100], show(s[0])[:100]))


def generic(X, S2, cfg, warm):
    """put a sampler into the generic state between two iterations, t_stored of which are recorded"""
    I, st = X.I, X.st
    tS = scalar(I, 't_stored', nonneg_=True)
    INTSYMS.add(tS)
    I.hooks['pva_intrinsics.hist'] = lambda I, st, f, a, kw, node: _h(I, st, a)
    env = I.module('pocomc.__pva_hist__')
    P = I.get_attr(st, S2, 'particles')
    I.call(st, env['fill'], [P, tS, TRUE if cfg.blobs else FALSE], {}, None)
    cp = dict(u=I.new_arr(st, (NA, D), at(sym('cpu'), ax(0), ax(1))), x=I.new_arr(st, (NA, D), at(sym('cpx'), ax(0), ax(1))))
    for k in ('logdetj', 'logl', 'logp', 'logw') + (('blobs',) if cfg.blobs else ()):
        cp[k] = I.new_arr(st, (NA,), at(sym('cp' + k), ax(0)))
    for k in ('iter', 'logz', 'calls', 'steps', 'efficiency', 'ess', 'accept', 'beta'):
        cp[k] = scalar(I, 'cp' + k)
    if not cfg.blobs:
        cp['blobs'] = NONE
    NPR = I.get_attr(st, S2, 'n_prior')
    I.set_attr(st, S2, 'current_particles', I.alloc(st, DictC(cp)), None)
    I.set_attr(st, S2, 't', tS, None)
    I.set_attr(st, S2, 'warmup', TRUE if warm else FALSE, None)
    I.set_attr(st, S2, 'calls', scalar(I, 'calls_stored', nonneg_=True), None)
    I.set_attr(st, S2, 'prior_samples', I.new_arr(st, (I.term(st, NPR), D), at(sym('prior_samples'), ax(0), ax(1))), None)
    I.set_attr(st, S2, 'proposal_scale', scalar(I, 'scale_stored', pos=True), None)
    for k in ('n_total', 'n_evidence'):
        I.set_attr(st, S2, k, scalar(I, 'stored_' + k), None)
    I.set_attr(st, S2, 'progress', TRUE, None)
    if cfg.blobs:
        I.set_attr(st, S2, 'have_blobs', TRUE, None)
    return tS


def resume_rule(R, cfg, warm):
    """from any checkpoint, the loop continues with the stored state"""
    X = Run(cfg, sources={'pocomc/__pva_hist__.py': HIST})
    I, st = X.I, X.st
    M = X.M
    S2 = M.build()
    tS = generic(X, S2, cfg, warm)
    stored = {k: v for k, v in I.cell(st, S2).attrs.items() if k not in TRANSIENT and not k.startswith('$')}
    ref = st.clone()
    I.loaded = I.alloc(st, DictC(dict(stored)))
    n0 = len(I.events)
    kw = dict(resume_state_path=PATH)
    try:
        X.run(**kw)
    except PyRaise as e:
        R.unit(rname(cfg) + ', resume', I)
        R.ob('resume-state', 'Sampler.run', False, 'resuming raises %s' % e)
        return
    R.unit(rname(cfg) + (', resume in warm-up' if warm else ', resume'), I)
    work = {}
    for e in I.events[n0:]:
        if e.kind in ('kernel', 'lik') and e.loops:
            work.setdefault(e.loops[0], e.seq)
    loops = [I.loops[l] for l in sorted(work, key=work.get) if l in I.loops]
    if not loops:
        R.ob('resume-state', 'Sampler.run', None, 'no iteration loop found')
        return
    first = loops[0]
    for k, v in sorted(stored.items()):
        if k in ('n_total', 'n_evidence', 'progress'):
            continue
        a = deep(I, ref, v)
        now = I.cell(first.start, X.S).attrs.get(k)
        b = deep(I, first.start, now)
        ok = deq(a, b)
        R.ob('resume-state', '%s: %s' % (first.loc, k), True if ok else None if deep_opaque(b) else False,
             '' if ok else 'the iterations start with another value of %s than the stored one' % k)
    if warm:
        warm_rule(R, X, loops, tS, ref, S2, n0)


def warm_rule(R, X, loops, tS, ref, S2, n0):
    I = X.I
    w = loops[0]
    liks = [e for e in I.events[n0:] if e.kind == 'lik' and w.id in e.loops]
    npr = I.term(ref, I.get_attr(ref.clone(), S2, 'n_prior'))
    want_n = sub(app('floordiv', npr, NA), tS)
    if isinstance(w.n, T):
        ok = same(w.n, want_n)
        R.ob('resume-warm-up', '%s: number of batches' % w.loc, verdict(ok, w.n), '' if ok else
             '%s batches are left after %s recorded ones, the run does %s' % (show(want_n), show(tS), show(w.n)[:200]))
    else:
        R.ob('resume-warm-up', '%s: number of batches' % w.loc, None, 'not a counted loop')
    for e in liks:
        row = e.extra['row']
        iv = [v for v, n in e.ivs]
        if row.op != 'at' or len(row.args) != 2 or len(iv) < 1:
            R.ob('resume-warm-up', '%s: batch' % w.loc, None, 'points evaluated: %s' % show(row)[:200])
            continue
        k = iv[1] if len(iv) > 1 else ax(0)
        want = add(mul(NA, add(tS, iv[0])), k)
        ok = same(row.args[1], want)
        R.ob('resume-warm-up', '%s: batch' % w.loc, verdict(ok, row.args[1]), '' if ok else
             'iteration %s after the resumption evaluates prior draw %s, expected %s' % (
                 show(iv[0]), show(row.args[1])[:200], show(want)[:200]))
    if len(loops) > 1:
        st = loops[1].start
        s, e = hist(X, st, 'iter')
        t = I.get_attr(st.clone(), X.S, 't')
        full = app('floordiv', npr, NA)
        ok = same(s[0], full)
        R.ob('resume-warm-up', '%s: recorded batches' % loops[1].loc, verdict(ok, s[0]), '' if ok else
             'the warm-up ends with %s recorded batches, expected %s' % (show(s[0])[:200], show(full)[:100]))
        ok = same(t, full)
        R.ob('resume-warm-up', '%s: counter' % loops[1].loc, verdict(ok, t), '' if ok else
             'the warm-up ends with counter %s, expected %s' % (show(t)[:200], show(full)[:100]))


def _h(I, st, a):
    name, i, r = a
    r = numval(r)
    i = I.term(st, i)
    b = sym('h_' + name.args[0])
    if r == 0:
        return at(b, i)
    return I.new_arr(st, ((NA,) if r == 1 else (NA, D)), at(b, i, *[ax(k) for k in range(int(r))]))


from .temper import hist
from ..drive import HIST
