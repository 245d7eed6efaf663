"""Drivers: put the package into a generic state and let the interpreter describe what it does from there."""
import os
from .model import *
from . import terms as tm

ROOT = os.environ.get('PVA_REPO', '/repo')

KERNELS = (('tpcn', True), ('rwm', True), ('tpcn', False), ('rwm', False))


def scalar(I, name, pos=False, nonneg_=False):
    s = sym(name)
    I.scalars.add(s)
    if pos:
        POS.add(s)
    if pos or nonneg_:
        NONNEG.add(s)
    return s


class Kernel:
    """Sampler._mutate from generic particles that satisfy the record invariant"""

    def __init__(self, cfg, root=None, sources=None, consistent=True, **over):
        self.M = M = Model(root or ROOT, sources=sources, cfg=cfg)
        I, st = M.I, M.st
        self.I, self.st, self.cfg = I, st, cfg
        self.n_steps = scalar(I, 'n_steps', pos=True)
        self.n_max = scalar(I, 'n_max_steps', pos=True)
        INTSYMS.update((self.n_steps, self.n_max))
        S = self.S = M.build(n_steps=self.n_steps, n_max_steps=self.n_max, **over)
        self.U = sym('u')
        self.beta = scalar(I, 'beta', nonneg_=True)
        self.scale0 = scalar(I, 'scale0', pos=True)
        I.set_attr(st, S, 'proposal_scale', self.scale0, None)
        geo = I.module('pocomc.geometry')['Geometry']
        self.geo = {}
        for g in ('u_geometry', 'theta_geometry'):
            G = I.call(st, geo, [], {}, None)
            SYMM.add(sym(g + '.normal_cov'))
            SYMM.add(sym(g + '.t_cov'))
            I.set_attr(st, G, 'normal_mean', self.A(g + '.normal_mean', D), None)
            I.set_attr(st, G, 'normal_cov', self.A(g + '.normal_cov', D, D), None)
            I.set_attr(st, G, 't_mean', self.A(g + '.t_mean', D), None)
            I.set_attr(st, G, 't_cov', self.A(g + '.t_cov', D, D), None)
            I.set_attr(st, G, 't_nu', scalar(I, g + '.t_nu', pos=True), None)
            I.set_attr(st, S, g, G, None)
        sc = sym('sc0')
        urow = at(self.U, ax(0))
        x = app('sc_inv', sc, urow, ax(1))
        j = fresh_iv('j')
        xrow = lam([j], app('sc_inv', sc, urow, j))
        extra = []
        if cfg.args:
            extra = None
        self.extra = extra
        logl = app('lik', xrow)
        fields = dict(u=self.A('u', NA, D), x=I.new_arr(st, (NA, D), x),
                      logdetj=I.new_arr(st, (NA,), app('sc_ladj', sc, urow)),
                      logl=I.new_arr(st, (NA,), logl), logp=I.new_arr(st, (NA,), app('lp', xrow)),
                      beta=self.beta)
        if cfg.blobs:
            fields['blobs'] = I.new_arr(st, (NA,), app('blob', xrow))
            I.set_attr(st, S, 'have_blobs', TRUE, None)
        c = I.get_attr(st, S, 'calls')
        self.calls0 = scalar(I, 'calls0', nonneg_=True)
        I.set_attr(st, S, 'calls', self.calls0, None)
        self.fields = fields
        self.inp = {k: (I.arr(st, v) if isinstance(v, Ref) else v) for k, v in fields.items()}
        self.cp = I.alloc(st, DictC(dict(fields)))
        self.st0 = st.clone()

    def A(self, name, *shape):
        return self.I.new_arr(self.st, tuple(shape), at(sym(name), *[ax(i) for i in range(len(shape))]))

    def run(self):
        I, st = self.I, self.st
        self.out = I.call_attr(st, self.S, '_mutate', [self.cp], {}, None)
        c = I.cell(st, self.out)
        self.res = {}
        for k, v in c.items.items():
            self.res[k] = v
        # the stage loop: the outermost loop executed inside the kernel
        self.loops = [i for i in I.loops.values() if 'mcmc.py' in i.loc]
        outer = [i for i in self.loops if not i.parent]
        self.loop = max(outer, key=lambda i: len(i.mus)) if outer else None
        return self

    def elem(self, v):
        return self.I.arr(self.st, v)


KERNEL_FUNCS = ('preconditioned_pcn', 'preconditioned_rwm', 'pcn', 'rwm')


def h_syst(I, st, f, args, kw, node):
    """contract of systematic resampling (decided by itself): indices drawn with the normalised weights"""
    names = [a.arg for a in f.node.args.args]
    v = dict(zip(names, args))
    v.update(kw)
    if 'size' not in v or 'weights' not in v:
        return NotImplemented
    s, e = I.arr(st, v['weights'])
    shp, ie = npm.draw(I, st, 'index', [], v['size'], 'numpy', node, isint=True)
    id_ = I.lastrnd
    q = fresh_iv('q')
    pe = div(e, mk_sum(s[0], q, subst(e, {ax(0): q})))
    I.rnds[id_].update(n=s[0], replace=TRUE, p=(s, pe), scheme='syst')
    return I.new_arr(st, shp, ie)


class Run:
    """Sampler.run with the kernels replaced by their contract (checked by the kernel rules)"""

    def __init__(self, cfg, root=None, sources=None, resume=False, save=False, **over):
        self.M = M = Model(root or ROOT, sources=sources, cfg=cfg)
        I, st = M.I, M.st
        self.I, self.st, self.cfg = I, st, cfg
        self.S = M.build(**over)
        self.kcalls = []
        for k in KERNEL_FUNCS:
            I.hooks[k] = self.h_kernel
        I.hooks['systematic_resample'] = h_syst
        self.n_total = scalar(I, 'n_total', pos=True)
        self.n_ev = scalar(I, 'n_evidence', nonneg_=True)
        INTSYMS.update((self.n_total, self.n_ev))

    def h_kernel(self, I, st, f, args, kw, node):
        names = [a.arg for a in f.node.args.args]
        vals = dict(zip(names, args))
        vals.update(kw)
        ds = [v for v in (list(args) + list(kw.values())) if isinstance(v, Ref) and isinstance(I.cell(st, v), DictC)]
        state = fun = opt = None
        for v in ds:
            c = I.cell(st, v)
            if 'u' in c.items and 'logl' in c.items:
                state = c
            elif 'n_max' in c.items or 'proposal_scale' in c.items:
                opt = c
            elif 'scaler' in c.items or 'loglike' in c.items:
                fun = c
        if state is None:
            return NotImplemented
        id_ = I.stable('kern', node)
        ivs = [v for v, _ in I.ivs]
        U = mk('rnd', id_, *ivs)
        I.rnds[id_] = dict(dist='kernel', params=[], shape=(NA, D), loops=tuple(I.loopstack), loc=I.loc(node), src='kernel',
                           ivs=tuple(I.ivs), stack=(), base=U, pc=st.pc)

        def rd(c, k):
            v = c.items.get(k) if c is not None else None
            return v

        snap = {}
        for nm, c in (('state', state), ('function', fun), ('option', opt)):
            if c is None:
                continue
            for k, v in c.items.items():
                try:
                    snap[nm, k] = I.arr(st, v) if isinstance(v, Ref) and not isinstance(I.cell(st, v), (ObjC, DictC)) else v
                except Exception:
                    snap[nm, k] = v
        fl = {k: I.cell(st, v).flags for k, v in state.items.items() if isinstance(v, Ref)}
        I.event(st, 'kernel', f.name, tuple(args), kw, node=node, snap=snap, base=U, fl=fl)
        sc = self.scver(st)
        urow = at(U, ax(0))
        j = fresh_iv('j')
        xrow = lam([j], app('sc_inv', sc, urow, j))
        extra = (mk('star', sym('lik_args')), mk('kw', '**', sym('lik_kwargs'))) if self.cfg.args else ()

        def scal(n, pos=False):
            s = mk('rnd', id_ + '.' + n, *ivs)
            register(s, NONNULL_NUM)
            register(s, POS if pos else NONNEG)
            I.rnds[id_ + '.' + n] = dict(dist='kernel', params=[], shape=(), loops=tuple(I.loopstack), loc=I.loc(node),
                                         src='kernel', ivs=tuple(I.ivs), stack=(), base=s, pc=st.pc)
            I.scalars.add(s)
            return s
        r = dict(u=I.new_arr(st, (NA, D), at(U, ax(0), ax(1))),
                 x=I.new_arr(st, (NA, D), app('sc_inv', sc, urow, ax(1))),
                 logdetj=I.new_arr(st, (NA,), app('sc_ladj', sc, urow)),
                 logl=I.new_arr(st, (NA,), app('lik', xrow, *extra)),
                 logp=I.new_arr(st, (NA,), app('lp', xrow)),
                 blobs=I.new_arr(st, (NA,), app('blob', xrow, *extra)) if self.cfg.blobs else NONE,
                 efficiency=scal('efficiency'), accept=scal('accept'), steps=scal('steps', True), calls=scal('calls'),
                 proposal_scale=scal('proposal_scale', True))
        self.kcalls.append((id_, node))
        return I.alloc(st, DictC(r, sym('opaque-kernel-result')))

    def scver(self, st):
        I = self.I
        sc = I.get_attr(st, self.S, 'scaler')
        return I.cell(st, sc).attrs.get('$ver', sym('sc0'))

    def run(self, **kw):
        I, st = self.I, self.st
        a = dict(n_total=self.n_total, n_evidence=self.n_ev)
        a.update(kw)
        self.ret = I.call_attr(st, self.S, 'run', [], a, None)
        return self

    def loop_at(self, func, kind=None):
        return [i for i in self.I.loops.values() if i.stack and i.stack[-1].split('.')[-1] == func and (
            kind is None or i.kind == kind)]


HIST = '''
from pva_intrinsics import hist

def fill(particles, n, blobs):
    for i in range(n):
        if blobs:
            particles.update(dict(u=hist('u', i, 2), x=hist('x', i, 2), logdetj=hist('logdetj', i, 1), logl=hist('logl', i, 1),
                                  logp=hist('logp', i, 1), logw=hist('logw', i, 1), blobs=hist('blobs', i, 1),
                                  iter=hist('iter', i, 0), logz=hist('logz', i, 0),
                                  calls=hist('calls', i, 0), steps=hist('steps', i, 0), efficiency=hist('efficiency', i, 0),
                                  ess=hist('ess', i, 0), accept=hist('accept', i, 0), beta=hist('beta', i, 0)))
        else:
            particles.update(dict(u=hist('u', i, 2), x=hist('x', i, 2), logdetj=hist('logdetj', i, 1), logl=hist('logl', i, 1),
                                  logp=hist('logp', i, 1), logw=hist('logw', i, 1), iter=hist('iter', i, 0), logz=hist('logz', i, 0),
                                  calls=hist('calls', i, 0), steps=hist('steps', i, 0), efficiency=hist('efficiency', i, 0),
                                  ess=hist('ess', i, 0), accept=hist('accept', i, 0), beta=hist('beta', i, 0)))
'''

HFIELDS = dict(u=2, x=2, logdetj=1, logl=1, logp=1, logw=1, blobs=1, iter=0, logz=0, calls=0, steps=0, efficiency=0, ess=0,
               accept=0, beta=0)


class History:
    """a sampler whose recorded history is generic: T iterations of n_active particles each"""

    def __init__(self, cfg, root=None, sources=None, **over):
        self.M = M = Model(root or ROOT, sources=dict(sources or {}, **{'pocomc/__pva_hist__.py': HIST}), cfg=cfg)
        I, st = M.I, M.st
        self.I, self.st, self.cfg = I, st, cfg
        self.S = M.build(**over)
        I.hooks['pva_intrinsics.hist'] = self.h_hist
        self.T = scalar(I, 'T', pos=True)
        INTSYMS.add(self.T)
        env = I.module('pocomc.__pva_hist__')
        self.P = I.get_attr(st, self.S, 'particles')
        I.call(st, env['fill'], [self.P, self.T, TRUE if cfg.blobs else FALSE], {}, None)
        if cfg.blobs:
            I.set_attr(st, self.S, 'have_blobs', TRUE, None)
        self.st0 = st.clone()

    def h_hist(self, I, st, f, a, kw, node):
        name, i, r = a
        r = numval(r)
        i = I.term(st, i)
        b = sym('h_' + name.args[0])
        if r == 0:
            I.scalar_bases = getattr(I, 'scalar_bases', set())
            return at(b, i)
        return I.new_arr(st, ((NA,) if r == 1 else (NA, D)), at(b, i, *[ax(k) for k in range(int(r))]))

    def fork(self):
        """the same sampler in a fresh state"""
        self.st = self.st0.clone()
        return self.st
