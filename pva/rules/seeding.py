"""Sources of randomness (C10): an inventory of every reference to a generator in the package, and the seeding and drawing
events of every analysed entry point."""
import ast
from .runlevel import *
from .checkpoint import PATH
from .training import Fit
from ..values import *
from ..interp import PyRaise
from ..model import Model, Cfg

SEED = sym('random_state')

# fresh generators: their numbers are not those of the seeded global ones
FRESH = {'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.SeedSequence',
         'numpy.random.PCG64', 'numpy.random.PCG64DXSM', 'numpy.random.MT19937', 'numpy.random.Philox', 'numpy.random.SFC64',
         'numpy.random.BitGenerator', 'torch.Generator', 'torch.cuda.Generator', 'os.urandom', 'os.getrandom',
         'scipy.stats.qmc.Sobol', 'scipy.stats.qmc.Halton', 'scipy.stats.qmc.LatinHypercube'}
FRESH_MODULES = {'random', 'secrets'}
RESEED = {'numpy.random.seed', 'numpy.random.set_state', 'torch.manual_seed', 'torch.seed', 'torch.random.manual_seed',
          'torch.random.seed', 'torch.set_rng_state', 'torch.random.set_rng_state', 'torch.random.fork_rng',
          'torch.initial_seed_', 'numpy.random.set_bit_generator', 'torch.default_generator.manual_seed',
          'torch.default_generator.seed', 'torch.default_generator.set_state'}
SEEDING_KW = {'random_state', 'generator', 'seed', 'rng'}


def modules():
    d = os.path.join(ROOT, 'pocomc')
    for b, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith('.py') and 'test' not in os.path.relpath(b, d).split(os.sep):
                p = os.path.join(b, f)
                with open(p, encoding='utf-8') as h:
                    yield os.path.relpath(p, ROOT), ast.parse(h.read())


class Names(ast.NodeVisitor):
    """dotted names of everything imported, with the aliases bound by simple assignments"""

    def __init__(self, tree):
        self.al = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.al[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    self.al[a.asname or a.name] = n.module + '.' + a.name
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = self.name(n.value)
                if d and (d in ('numpy.random', 'torch.random', 'torch.default_generator') or d.split('.')[0] in FRESH_MODULES):
                    self.al.setdefault(n.targets[0].id, d)

    def name(self, e):
        if isinstance(e, ast.Name):
            return self.al.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.name(e.value)
            return b + '.' + e.attr if b else None
        return None


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def enclosing(n, up):
    while n in up:
        n = up[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return n
    return None


def none_default(fn, name):
    """is name a parameter of fn with default None"""
    a = fn.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg == name:
            return isinstance(d, ast.Constant) and d.value is None
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name:
            return isinstance(d, ast.Constant) and d.value is None
    return False


def passed(mods, fn, name):
    """call sites in the package that may pass this parameter of this function"""
    out = []
    a = fn.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    k = pos.index(name) if name in pos else None
    for rel, tree in mods:
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm != fn.name:
                continue
            off = 1 if pos[:1] == ['self'] and isinstance(f, ast.Attribute) else 0
            star = any(isinstance(x, ast.Starred) for x in n.args) or any(w.arg is None for w in n.keywords)
            v = None
            for w in n.keywords:
                if w.arg == name:
                    v = w.value
            if v is None and k is not None and len(n.args) > k - off:
                v = n.args[k - off]
            if v is not None and not (isinstance(v, ast.Constant) and v.value is None):
                out.append(('%s:%d' % (rel, n.lineno), True))
            elif star and v is None:
                out.append(('%s:%d' % (rel, n.lineno), None))
    return out


def root_names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def inventory_rule(R, seen):
    """seen: locations of the seeding calls the construction of a sampler goes through"""
    mods = list(modules())
    R.unit('inventory of %d modules' % len(mods))
    nref = 0
    for rel, tree in mods:
        N_ = Names(tree)
        up = parents(tree)
        bad = []
        for n in ast.walk(tree):
            if not isinstance(n, (ast.Name, ast.Attribute)) or isinstance(up.get(n), ast.Attribute):
                continue
            d = N_.name(n)
            if not d:
                continue
            if d.startswith(('numpy.random', 'torch.rand', 'torch.manual', 'torch.seed')):
                nref += 1
            if d in FRESH or d.split('.')[0] in FRESH_MODULES and '.' in d:
                p = up.get(n)
                if d in FRESH and d != 'os.urandom' and typeuse(n, up):
                    continue
                bad.append((n, d))
            if d in RESEED:
                call = up.get(n)
                loc = '%s:%d' % (rel, n.lineno)
                short = '%s:%d' % (os.path.basename(rel), n.lineno)
                if not isinstance(call, ast.Call) or call.func is not n:
                    R.ob('reseeding', loc, None, '%s is used as a value' % d)
                    continue
                if short in seen:
                    continue
                fn = enclosing(n, up)
                args = call.args + [k.value for k in call.keywords]
                ps = set().union(*[root_names(a) for a in args]) if args else set()
                if fn is None:
                    R.ob('reseeding', loc, False, '%s is called when the module is imported' % d)
                    continue
                cands = [p for p in ps if none_default(fn, p)]
                guard = cands and all(guarded(n, up, fn, p) for p in cands)
                if not cands or not guard:
                    # decided by the entry points, which see every call they reach
                    R.ob('reseeding', loc, None, 'the call of %s in %s was not reached from any analysed entry point' % (d, fn.name))
                    continue
                sites = [s for p in cands for s in passed(mods, fn, p)]
                hot = [s for s, v in sites if v]
                R.ob('reseeding', loc, False if hot else None if sites else True, '' if not sites else
                     '%s reseeds the generator with an argument that is passed at %s' % (fn.name, ', '.join(s for s, _ in sites)))
        R.ob('global-generator', rel, not bad, '; '.join('%s:%d uses %s' % (rel, n.lineno, d) for n, d in bad))
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                d = N_.name(n.func) or ''
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                local = nm in {f.name for _, t in mods for f in ast.walk(t) if isinstance(f, (ast.FunctionDef, ast.ClassDef))}
                for k in n.keywords:
                    if k.arg not in SEEDING_KW or isinstance(k.value, ast.Constant) and k.value.value is None:
                        continue
                    loc = '%s:%d' % (rel, n.lineno)
                    fn = enclosing(n, up)
                    if isinstance(k.value, ast.Name) and fn is not None and none_default(fn, k.value.id):
                        sites = passed(mods, fn, k.value.id)
                        R.ob('global-generator', loc, False if any(v for _, v in sites) else None if sites else True,
                             '' if not sites else '%s=%s is passed at %s' % (k.arg, k.value.id, ', '.join(s for s, _ in sites)))
                    elif local and not (nm == 'rvs'):
                        continue        # a call inside the package: its effect is seen at the draw
                    elif d in ('numpy.random.mtrand._rand',):
                        continue
                    else:
                        R.ob('global-generator', loc, False, '%s is called with %s=%s' % (
                            ast.unparse(n.func), k.arg, ast.unparse(k.value)))
    R.ob('global-generator', 'package', True if nref else None, '%d references to the global generators' % nref)


def typeuse(n, up):
    """only used in isinstance or as an annotation"""
    p = up.get(n)
    q = n
    while p is not None:
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('isinstance', 'issubclass') and q is not p.func:
            return True
        if isinstance(p, ast.arg) or isinstance(p, ast.AnnAssign) and q is p.annotation or \
                isinstance(p, ast.FunctionDef) and q is p.returns:
            return True
        if isinstance(p, (ast.Tuple, ast.Subscript, ast.BinOp)):
            q, p = p, up.get(p)
            continue
        return False
    return False


def guarded(n, up, fn, name):
    """the node only runs when the parameter is not None"""
    q = n
    while q is not fn and q in up:
        p = up[q]
        if isinstance(p, ast.If):
            t = p.test
            s = ast.unparse(t)
            if q in p.body and any(s == w for w in ('%s is not None' % name, name, 'not %s is None' % name)):
                return True
            if q in p.orelse and s == '%s is None' % name:
                return True
            if q in p.body and isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and any(
                    ast.unparse(v) == '%s is not None' % name for v in t.values):
                return True
        if isinstance(p, ast.FunctionDef) or isinstance(p, ast.If):
            body = p.body if q in p.body else getattr(p, 'orelse', [])
            if q in body:
                for s in body[:body.index(q)]:
                    if isinstance(s, ast.If) and ast.unparse(s.test) == '%s is None' % name and \
                            isinstance(s.body[-1], (ast.Return, ast.Raise)):
                        return True
        q = p
    return False


def impure(t):
    return isinstance(t, T) and tm.contains(t, lambda x: x.op == 'app' and x.args[0] in ('impure', 'id', 'hash'))


def seed_events(evs):
    return [e for e in evs if e.kind == 'seed' and e.name in ('numpy', 'torch') and e.pc is not FALSE]


def construct_rule(R, value, cfg, seen):
    M = Model(ROOT, cfg=cfg)
    I, st = M.I, M.st
    if value is SEED:
        I.scalars.add(SEED)
        INTSYMS.add(SEED)
        register(SEED, NONNULL_NUM)
    M.build(random_state=value)
    site = 'Sampler(random_state=%s)' % (show(value))
    R.unit(site, I)
    evs = I.events
    for src in ('numpy', 'torch'):
        ss = [e for e in seed_events(evs) if e.name == src]
        seen |= {e.loc.split(' ')[0] for e in ss}
        if not ss:
            R.ob('seeded', '%s, %s' % (site, src), False, 'the %s generator is not seeded' % src)
            continue
        e = ss[-1]
        a = [I.term(st, v) for v in list(e.args) + list(e.kw.values())]
        if value is SEED:
            ok = len(a) >= 1 and tm.contains(a[0], lambda x: x is SEED) and not impure(a[0])
        else:
            ok = len(a) >= 1 and a[0] is not NONE and not impure(a[0]) and not a[0].fv
        ok = ok and e.pc is TRUE and e.extra.get('fn') not in ('torch.seed',)
        R.ob('seeded', '%s, %s (%s)' % (e.loc, src, show(value)), verdict(ok, e.pc, *a), '' if ok else
             'with random_state=%s the %s generator is seeded with %s%s' % (show(value), src, ', '.join(show(x) for x in a) or 'nothing',
                                                                      '' if e.pc is TRUE else ' only if %s' % show(e.pc)))
        early = [d for d in evs if d.kind in ('rng', 'zuko') and d.seq < e.seq and d.pc is not FALSE and
                 (d.kind == 'zuko') <= (src == 'torch') and (d.kind == 'zuko' or d.extra.get('src') == src or
                                                            src == 'numpy' and d.extra.get('src') not in ('torch',))]
        R.ob('seeded-first', '%s, %s (%s)' % (e.loc, src, show(value)), not early, '; '.join(
            '%s at %s comes before the seeding' % ('the flow is initialised' if d.kind == 'zuko' else 'a draw', d.loc) for d in early[:3]))
    for e in evs:
        if e.kind == 'rng-new' and e.pc is not FALSE:
            R.ob('global-generator', e.loc, False, 'a new generator %s is created' % e.name)
    return M


def quiet_rule(R, unit, I, n0=0):
    """no reseeding and only global generators in the events of a unit"""
    evs = I.events[n0:]
    ss = seed_events(evs)
    for e in ss:
        R.ob('reseeding', '%s [%s]' % (e.loc, unit), False, 'the %s generator is seeded again%s' % (
            e.name, ' (in %s)' % ' > '.join(e.stack[-3:])))
    draws = [e for e in evs if e.kind == 'rng']
    for e in draws:
        src = str(e.extra.get('src'))
        if src not in ('numpy', 'torch', 'prior', 'flow', 'kernel', 'None'):
            R.ob('global-generator', '%s [%s]' % (e.loc, unit), False, 'a number is drawn from another generator (%s)' % src)
    for e in evs:
        if e.kind == 'rng-new' and e.pc is not FALSE:
            R.ob('global-generator', '%s [%s]' % (e.loc, unit), False, 'a new generator %s is created' % e.name)
        if e.kind in ('rng', 'seed') and any(impure(a) for a in e.args):
            R.ob('no-clock', '%s [%s]' % (e.loc, unit), False, 'a draw depends on the clock or the process')
    R.ob('reseeding', unit, not ss, '%d draws, no seeding' % len(draws))
    # conditions
    bad = [e for e in evs if e.kind in ('rng', 'lik', 'kernel', 'flow-fit', 'zuko', 'loader') and impure(e.pc)]
    for e in bad[:3]:
        R.ob('no-clock', '%s [%s]' % (e.loc, unit), False, 'what is drawn or evaluated depends on the clock or the process')
    for i in I.loops.values():
        # loops that do something
        for c, loc in [(b[0], i.loc) for b in i.breaks] + ([(i.cond, i.loc)] if isinstance(i.cond, T) else []):
            if impure(c):
                R.ob('no-clock', '%s [%s]' % (loc, unit), False, 'the loop ends depending on the clock or the process: %s' % show(c)[:200])
                bad.append(c)
        for m, d in i.mus.items():
            s = d.get('step')
            s = elem(s) if s is not None else None
            if impure(s):
                path = str(d.get('path'))
                R.ob('no-clock', '%s [%s]' % (i.loc, unit), None, '%s depends on the clock' % path)
    R.ob('no-clock', unit, not bad, '')


def state_rule(R, unit, I, st, roots):
    """nothing reachable from the results depends on the clock"""
    done, bad = set(), []

    def go(v, path):
        if len(path) > 8:
            return
        if isinstance(v, Ref):
            if v in done:
                return
            done.add(v)
            c = I.cell(st, v)
            if isinstance(c, Arr):
                if impure(I.arr(st, v)[1]):
                    bad.append(path)
            elif isinstance(c, DictC):
                for k, x in c.items.items():
                    go(x, path + (str(k),))
            elif isinstance(c, ObjC):
                for k, x in c.attrs.items():
                    if not str(k).startswith('$'):
                        go(x, path + (str(k),))
            elif isinstance(c, ListC):
                for x in c.items:
                    go(x, path + ('[]',))
        elif isinstance(v, TupleV):
            for x in v.items:
                go(x, path + ('()',))
        elif impure(v):
            bad.append(path)
    for n, v in roots:
        go(v, (n,))
    bad = [p for p in bad if p[-1] not in ('pbar',)]
    R.ob('no-clock', '%s, results' % unit, not bad, '; '.join('.'.join(p) for p in bad[:5]) + (' depend on the clock or the process'
                                                                                              if bad else ''))


def seeds():
    I = None
    return [ZERO, num(1), SEED]


def entry_rule(R, thorough, seen):
    register(SEED, NONNULL_NUM)
    INTSYMS.add(SEED)
    sd = dict(random_state=SEED)
    # the kernels
    for s, p in KERNELS:
        def kern():
            K = Kernel(Cfg(sample=s, precondition=p), **sd)
            n0 = len(K.I.events)
            K.run()
            R.unit('kernel %s/%s' % (s, 'flow' if p else 'no-flow'), K.I)
            quiet_rule(R, 'kernel %s/%s' % (s, 'flow' if p else 'no-flow'), K.I, n0)
            state_rule(R, 'kernel %s/%s' % (s, 'flow' if p else 'no-flow'), K.I, K.st, list(K.res.items()))
        R.guard('reseeding', 'kernel %s' % s, kern)
    # whole runs, with the resampling as it is
    cfgs = [Cfg(), Cfg(resample='syst', blobs=True), Cfg(precondition=False, metric='uss')] + (
        [Cfg(dynamic=False), Cfg(pool='obj'), Cfg(vectorize=True)] if thorough else [])
    for cfg in cfgs:
        def full():
            X = Run(cfg, **sd)
            for k in ('systematic_resample',):
                h = X.I.hooks.pop(k)
                X.I.hooks[k] = lambda I, st, f, a, kw, node, h=h: see_syst(I, st, f, a, kw, node, h)
            n0 = len(X.I.events)
            X.run(save_every=num(1) if thorough else NONE)
            R.unit('run ' + rname(cfg), X.I)
            quiet_rule(R, 'run ' + rname(cfg), X.I, n0)
            state_rule(R, 'run ' + rname(cfg), X.I, X.st, [('sampler.' + k, v) for k, v in X.I.cell(X.st, X.S).attrs.items()
                                                          if k != 'pbar'])
        R.guard('reseeding', 'Sampler.run', full)
    # posterior, evidence, results
    for cfg in (Cfg(), Cfg(resample='syst')):
        def post():
            H = History(cfg, **sd)
            I = H.I
            R.unit('history ' + rname(cfg), I)
            for meth, kw in (('posterior', dict(resample=TRUE)), ('posterior', dict(resample=FALSE)), ('evidence', {})):
                def one():
                    st = H.fork()
                    n0 = len(I.events)
                    r = I.call_attr(st, H.S, meth, [], dict(kw), None)
                    nm = 'Sampler.%s(%s) %s' % (meth, ', '.join('%s=%s' % (k, v is TRUE) for k, v in kw.items()), cfg.resample)
                    quiet_rule(R, nm, I, n0)
                    state_rule(R, nm, I, st, [('result', r)])
                R.guard('reseeding', 'Sampler.' + meth, one)

            def res():
                st = H.fork()
                n0 = len(I.events)
                r = I.get_attr(st, H.S, 'results')
                quiet_rule(R, 'Sampler.results', I, n0)
                state_rule(R, 'Sampler.results', I, st, [('result', r)])
            R.guard('reseeding', 'Sampler.results', res)

            def sav():
                st = H.fork()
                n0 = len(I.events)
                I.call_attr(st, H.S, 'save_state', [PATH], {}, None)
                quiet_rule(R, 'Sampler.save_state', I, n0)
            R.guard('reseeding', 'Sampler.save_state', sav)
        R.guard('reseeding', 'history', post)
    # loading
    def load():
        M = Model(ROOT, cfg=Cfg())
        S = M.build(**sd)
        I, st = M.I, M.st
        own = I.cell(st, S).attrs
        I.loaded = I.alloc(st, DictC({k: v for k, v in own.items() if not k.startswith('$')}))
        n0 = len(I.events)
        I.call_attr(st, S, 'load_state', [PATH], {}, None)
        R.unit('Sampler.load_state', I)
        quiet_rule(R, 'Sampler.load_state', I, n0)
    R.guard('reseeding', 'Sampler.load_state', load)
    # training
    for w, v in ((True, True), (True, False), (False, True)):
        def fit():
            F = Fit(w, v, noise=True)
            nm = 'Flow.fit(%s, %s)' % ('weights' if w else 'no weights', 'validation' if v else 'no validation')
            R.unit(nm, F.I)
            quiet_rule(R, nm, F.I, F.n0)
            state_rule(R, nm, F.I, F.st, [('history', F.ret), ('flow', F.flow)])
        R.guard('reseeding', 'Flow.fit', fit)
    # geometry and resampling, as they are
    def geo():
        M = Model(ROOT, cfg=Cfg())
        I, st = M.I, M.st
        M.opaque_student()
        X, W = I.new_arr(st, (N, D), at(sym('X'), ax(0), ax(1))), I.new_arr(st, (N,), at(sym('W'), ax(0)))
        g = I.call(st, I.module('pocomc.geometry')['Geometry'], [], {}, None)
        n0 = len(I.events)
        I.call_attr(st, g, 'fit', [X], dict(weights=W), None)
        R.unit('Geometry.fit', I)
        quiet_rule(R, 'Geometry.fit', I, n0)
    R.guard('reseeding', 'Geometry.fit', geo)

    def sysr():
        M = Model(ROOT, cfg=Cfg())
        I, st = M.I, M.st
        W = I.new_arr(st, (N,), at(sym('W'), ax(0)))
        n0 = len(I.events)
        I.call(st, I.module('pocomc.tools')['systematic_resample'], [N, W], {}, None)
        R.unit('systematic_resample', I)
        quiet_rule(R, 'systematic_resample', I, n0)
    R.guard('reseeding', 'systematic_resample', sysr)

    def pri():
        M = Model(ROOT, cfg=Cfg())
        I, st = M.I, M.st
        ds = I.alloc(st, ListC([sym('dist0'), sym('dist1')]))
        P = I.call(st, I.module('pocomc.prior')['Prior'], [ds], {}, None)
        n0 = len(I.events)
        I.call_attr(st, P, 'rvs', [N], {}, None)
        R.unit('Prior.rvs', I)
        quiet_rule(R, 'Prior.rvs', I, n0)
    R.guard('reseeding', 'Prior.rvs', pri)


def see_syst(I, st, f, a, kw, node, h):
    """a reseeding argument of the resampling scheme is an event of the caller"""
    names = [x.arg for x in f.node.args.args]
    v = dict(zip(names, a))
    v.update(kw)
    for k, x in v.items():
        if k in SEEDING_KW and x is not NONE:
            I.event(st, 'seed', 'numpy', (x,), {}, node=node)
    return h(I, st, f, a, kw, node)
