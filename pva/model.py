"""Stand-ins for everything outside the package: prior, likelihood, flow library, pool, progress bar.

The stand-ins are row-wise uninterpreted functions; the analysed code is the package itself.
"""
from .interp import Interp, PyRaise, Unsupported
from .values import *
from .terms import *
from . import terms as tm
from . import npmodel as npm

STUBS = '''
from pva_intrinsics import batches, nbatches, rowmap, rowval, fresh, drawrows, ev

class ZTransform:
    def __init__(self, flow, inverse=False):
        self.owner = flow
        self.inverse_ = inverse
    def call_and_ladj(self, x):
        if self.inverse_:
            y = rowmap('flow_inv', self.owner.ver, x)
            return y, -rowval('flow_ladj', self.owner.ver, y)
        return rowmap('flow_fwd', self.owner.ver, x), rowval('flow_ladj', self.owner.ver, x)
    def __call__(self, x):
        return self.call_and_ladj(x)[0]
    def log_abs_det_jacobian(self, x, y):
        return self.call_and_ladj(x)[1]
    @property
    def inv(self):
        return ZTransform(self.owner, not self.inverse_)

class ZBase:
    def __init__(self, owner):
        self.owner = owner
    def log_prob(self, z):
        return rowval('flow_baselp', self.owner.nfeat, z)

class ZDist:
    def __init__(self, flow):
        self.owner = flow
    @property
    def transform(self):
        return ZTransform(self.owner)
    @property
    def base(self):
        return ZBase(self.owner)
    def log_prob(self, x):
        return rowval('flow_lp', self.owner.ver, x)
    def rsample_and_log_prob(self, shape):
        x = drawrows('flow', self.owner.ver, shape, self.owner.nfeat)
        return x, self.log_prob(x)
    def sample_and_log_prob(self, shape):
        return self.rsample_and_log_prob(shape)
    def rsample(self, shape):
        return drawrows('flow', self.owner.ver, shape, self.owner.nfeat)
    def sample(self, shape):
        return drawrows('flow', self.owner.ver, shape, self.owner.nfeat)

class ZFlow:
    def __init__(self, nfeat):
        self.nfeat = nfeat
        self.ver = fresh('flowver')
        self.mode = 'train'
    def __call__(self):
        return ZDist(self)
    def train(self, mode=True):
        ev('flow-train', self)
    def eval(self):
        ev('flow-eval', self)
    def parameters(self):
        return ZParams(self)
    def state_dict(self):
        return ZState(self)
    def load_state_dict(self, sd):
        ev('flow-load', self, sd)
        self.ver = sd.read() if isinstance(sd, ZState) else sd['params'].read()

class ZTensor:
    def __init__(self, owner, ver=None):
        self.owner = owner
        self.ver = ver
    def read(self):
        if self.ver is None:
            return self.owner.ver
        return self.ver
    def clone(self, *a, **k):
        return ZTensor(self.owner, self.read())
    def __deepcopy__(self, memo):
        return self.clone()
    def detach(self):
        return self
    def cpu(self):
        return self
    def to(self, *a, **k):
        return self
    @property
    def data(self):
        return self

class ZParams:
    def __init__(self, owner):
        self.owner = owner

class ZState:
    """the state dict holds references to the live parameters until it is deep-copied"""
    def __init__(self, owner):
        self.owner = owner
        self.ver = None
    def read(self):
        if self.ver is None:
            return self.owner.ver
        return self.ver
    def items(self):
        return [('params', ZTensor(self.owner, self.ver))]
    def keys(self):
        return ['params']
    def __iter__(self):
        return iter(['params'])
    def __getitem__(self, k):
        return ZTensor(self.owner, self.ver)
    def values(self):
        return [ZTensor(self.owner, self.ver)]
    def copy(self):
        s = ZState(self.owner)
        s.ver = self.ver
        return s
    def __deepcopy__(self, memo):
        s = ZState(self.owner)
        s.ver = self.read()
        return s

class ZAdam:
    def __init__(self, params, lr=None, weight_decay=None, **kw):
        self.params = params
        self.lr = lr
    def zero_grad(self, *a, **k):
        ev('opt-zero', self)
    def step(self, *a, **k):
        ev('opt-step', self)
        self.params.owner.ver = fresh('flowver')

class ZData:
    def __init__(self, *tensors):
        self.tensors = tensors
    def __len__(self):
        return len(self.tensors[0])
    def __getitem__(self, i):
        return tuple([t[i] for t in self.tensors])

class ZLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, sampler=None, batch_sampler=None, num_workers=0, collate_fn=None,
                 pin_memory=False, drop_last=False, **kw):
        self.dataset = dataset
        self.batch_size = batch_size
        ev('loader', self, dataset, batch_size, shuffle, drop_last, sampler, batch_sampler, collate_fn, num_workers)
        self.shuffle = shuffle
    def __iter__(self):
        return batches(self.dataset.tensors, self.batch_size, self.shuffle)
    def __len__(self):
        return nbatches(self.dataset, self.batch_size)
'''


class Cfg:
    def __init__(self, **kw):
        self.sample = 'tpcn'
        self.precondition = True
        self.blobs = False
        self.vectorize = False
        self.pool = None          # None | 'int' | 'obj'
        self.resample = 'mult'
        self.metric = 'ess'
        self.bc = False
        self.dynamic = True
        self.args = False
        self.save = False
        self.__dict__.update(kw)

    def __repr__(self):
        return ','.join('%s=%s' % kv for kv in sorted(self.__dict__.items()))


def dimsym(name):
    s = sym(name)
    NONNEG.add(s)
    INTSYMS.add(s)
    POS.add(s)
    return s


N = dimsym('N')
D = dimsym('D')
NA = dimsym('n_active')
NE = dimsym('n_effective')
BOUNDS = sym('bounds')


class Model:
    """one interpreter with the stand-ins installed"""

    def __init__(self, root, sources=None, cfg=None):
        I = self.I = Interp(root, 'pocomc', dict(sources or {}, **{'pocomc/__pva_stubs__.py': STUBS}))
        self.cfg = cfg or Cfg()
        self.st = State()
        I.model = self
        for s_ in (NA, NE, N, D):
            I.scalars.add(s_)
        I.hooks.update({
            'pva_intrinsics.rowmap': self.h_rowmap,
            'pva_intrinsics.rowval': self.h_rowval,
            'pva_intrinsics.fresh': self.h_fresh,
            'pva_intrinsics.drawrows': self.h_drawrows,
            'pva_intrinsics.ev': self.h_ev,
            'pva_intrinsics.batches': self.h_batches,
            'pva_intrinsics.nbatches': self.h_nbatches,
        })
        self.stubs = I.module('pocomc.__pva_stubs__')
        for n in ('NSF', 'MAF', 'NICE', 'GMM', 'CNF', 'NAF', 'UNAF', 'NCSF', 'SOSPF', 'BPF'):
            I.hooks['zuko.flows.' + n] = self.h_zflow
        for n in ('AdamW', 'Adam', 'SGD', 'RMSprop'):
            I.hooks['torch.optim.' + n] = lambda I, st, f, a, k, node: I.call(st, self.stubs['ZAdam'], a, k, node)
        for n in ('torch.utils.data.DataLoader', 'torch.utils.data.dataloader.DataLoader'):
            I.hooks[n] = lambda I, st, f, a, k, node: I.call(st, self.stubs['ZLoader'], a, k, node)
        for n in ('torch.utils.data.TensorDataset', 'torch.utils.data.dataset.TensorDataset'):
            I.hooks[n] = lambda I, st, f, a, k, node: I.call(st, self.stubs['ZData'], a, k, node)
        for n in ('tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.std.tqdm'):
            I.hooks[n] = self.h_tqdm
        self.likcalls = []
        I.scalar_apps |= {'lik', 'sc_ladj', 'flow_ladj', 'flow_lp', 'lp', 'sc_fwd', 'sc_inv', 'flow_fwd', 'flow_inv', 'bc',
                          'dlogpdf', 'flow_baselp', 'blob'}

    # -- intrinsics
    def rows(self, st, x):
        s, e = self.I.arr(st, x)
        if len(s) == 1:
            j = fresh_iv('j')
            return (), s[0], lam([j], subst(e, {ax(0): j}))
        if len(s) == 2:
            j = fresh_iv('j')
            return (s[0],), s[1], lam([j], subst(e, {ax(1): j}))
        raise Unsupported('rows of rank %d' % len(s))

    def h_rowmap(self, I, st, f, a, kw, node):
        name, ver, x = a
        return self.rowmap(st, name.args[0], I.term(st, ver), x)

    def rowmap(self, st, name, ver, x):
        I = self.I
        ns, d, r = self.rows(st, x)
        if not ns:
            return I.new_arr(st, (d,), app(name, ver, r, ax(0)))
        return I.new_arr(st, (ns[0], d), app(name, ver, r, ax(1)))

    def h_rowval(self, I, st, f, a, kw, node):
        name, ver, x = a
        return self.rowval(st, name.args[0], I.term(st, ver), x)

    def rowval(self, st, name, ver, x):
        I = self.I
        ns, d, r = self.rows(st, x)
        if not ns:
            return app(name, ver, r)
        return I.new_arr(st, ns, app(name, ver, r))

    def h_fresh(self, I, st, f, a, kw, node):
        return mk('sym', I.stable(a[0].args[0], node if node is not None else I.cur))

    def h_drawrows(self, I, st, f, a, kw, node):
        name, ver, shape, d = a
        shp = npm.shape_of(I, st, shape)
        shp, e = npm.draw(I, st, name.args[0], [ver], TupleV(tuple(shp) + (I.term(st, d),)), 'torch', node)
        return I.new_arr(st, shp, e)

    def h_nbatches(self, I, st, f, a, kw, node):
        return app('nbatches', I.term(st, I.call(st, ExtV('builtins.len'), [a[0]], {}, node)), I.term(st, a[1]))

    def h_batches(self, I, st, f, a, kw, node):
        ts = a[0].items if isinstance(a[0], TupleV) else a[0]
        bs, sh = I.term(st, a[1]), I.truth(st, a[2])
        arrs = [I.arr(st, t) for t in ts]
        n = arrs[0][0][0]
        shp, pe = npm.draw(I, st, 'perm', [], TupleV([n]), 'torch', node, isint=True)
        I.rnds[I.lastrnd].update(n=n, loader=True)
        nb = app('nbatches', n, bs)

        def get(st, k):
            pos = add(mul(k, bs), ax(0))
            idx = subst(pe, {ax(0): pos})        # some order of the data set (random if shuffled)
            ln = app('blen', n, bs, k)
            register(ln, POS)
            register(ln, NONNEG)
            out = []
            for s, e in arrs:
                out.append(I.new_arr(st, (ln,) + tuple(s[1:]), subst(e, {ax(0): idx})))
            return I.alloc(st, ListC(out))
        return IterV(n=nb, get=get)

    def h_ev(self, I, st, f, a, kw, node):
        I.event(st, a[0].args[0], '', tuple(a[1:]), node=node)
        return NONE

    def h_zflow(self, I, st, f, a, kw, node):
        nf = a[0] if a else kw.get('features', D)
        I.event(st, 'zuko', f.name, tuple(a), kw, node=node)
        return I.call(st, self.stubs['ZFlow'], [nf], {}, node)

    def h_tqdm(self, I, st, f, a, kw, node):
        return sym('tqdm_obj')

    # -- user objects
    def prior(self):
        I = self.I
        P = sym('prior')

        def meth(I, st, obj, name, args, kw, node):
            if name == 'logpdf':
                ns, d, r = self.rows(st, args[0])
                I.event(st, 'logprior', '', (args[0],), node=node)
                return I.new_arr(st, ns, app('lp', r)) if ns else app('lp', r)
            if name == 'rvs':
                size = args[0] if args else kw.get('size', ONE)
                shp, e = npm.draw(I, st, 'prior', [], TupleV([I.term(st, size), D]), 'numpy', node)
                return I.new_arr(st, shp, e)
            return None

        def attr(I, st, obj, name):
            if name == 'dim':
                return D
            if name == 'bounds':
                return I.new_arr(st, (D, num(2)), at(BOUNDS, ax(0), ax(1)))
            if name in ('logpdf', 'rvs'):
                return MethV(obj, name)
            return None
        I.symmodels[P] = meth
        I.symattrs[P] = attr
        self.P = P
        return P

    def likelihood(self):
        I = self.I
        L = sym('likelihood')
        cfg = self.cfg

        def call(I, st, f, args, kw, node):
            x = args[0]
            s, e = I.arr(st, x)
            extra = [I.term(st, a) for a in args[1:]]
            extra += [mk('kw', k, I.term(st, v)) for k, v in sorted(kw.items())]
            ns, d, r = self.rows(st, x)
            res = app('lik', r, *extra)
            I.event(st, 'lik', '', tuple(args), kw, node=node, shape=s, elem=e, row=r, ns=ns, res=res, extra=tuple(extra))
            if ns:
                return I.new_arr(st, ns, res)
            if cfg.blobs == 'two':
                return TupleV([res, app('blob', r, *extra), app('blob2', r, *extra)])
            if cfg.blobs:
                return TupleV([res, app('blob', r, *extra)])
            return res
        I.symcalls[L] = call
        self.L = L
        return L

    def pool(self):
        """(value for the pool argument)"""
        I = self.I
        if self.cfg.pool is None:
            return NONE
        def meth(I, st, obj, name, args, kw, node):
            if name in ('map', 'imap'):
                return self.pool_map(st, args[0], args[1], node, obj)
            if name == 'imap_unordered':
                return self.pool_map(st, args[0], args[1], node, obj, True)
            if name == 'starmap':
                return self.pool_map(st, args[0], args[1], node, obj, star=True)
            return None
        I.symmodels[('app', 'Pool')] = meth
        I.symattrs[('app', 'Pool')] = lambda I, st, o, name: MethV(o, name) if name in ('map', 'imap', 'imap_unordered', 'starmap') else None
        if isinstance(self.cfg.pool, int):
            return num(self.cfg.pool)
        if self.cfg.pool == 'int':
            n = sym('pool_n')
            INTSYMS.add(n)
            I.scalars.add(n)
            I.symtypes[n] = {'int', 'Integral', 'Number', 'Real', 'integer'}
            return n
        P = sym('poolobj')
        I.symtypes[P] = {'Pool'}

        I.symmodels[P] = meth
        I.symattrs[P] = lambda I, st, o, name: MethV(o, name) if name == 'map' else None
        return P

    def pool_map(self, st, f, xs, node, obj=None, shuffled=False, star=False):
        """results of f on the elements, in order unless the pool method gives no order"""
        I = self.I
        it = I.iter_of(st, xs)
        I.event(st, 'poolmap', '', (f, xs), node=node, pool=obj)

        def one(x):
            return I.call(st, f, list(I.unpack_all(st, x)) if star else [x], {}, node)
        if it.items is not None and not shuffled:
            return I.alloc(st, ListC([one(x) for x in it.items]))
        n = it.n if it.items is None else num(len(it.items))
        k = fresh_iv('k')
        I.ivs.append((k, n))
        try:
            i = app('finish_order', mk('sym', I.stable('order', node)), k) if shuffled else k
            v = one(it.get(st, i))
            val = I.by_value(st, v)
        finally:
            I.ivs.pop()
        return I.alloc(st, ListC([Sym(n, k, val)]))

    # -- opaque package parts (analysed by themselves elsewhere)
    def opaque_scaler(self):
        I = self.I
        cfg = self.cfg

        def ver(st, o):
            c = I.cell(st, o)
            return c.attrs.get('$ver', sym('sc0'))

        def fit(I, st, f, args, kw, node):
            o = args[0]
            c = I.cell(st, o)
            a = dict(c.attrs)
            a['$ver'] = mk('sym', I.stable('scver', node))
            st.heap[o.id] = ObjC(c.cls, a, c.base, c.flags)
            I.event(st, 'scaler-fit', '', tuple(args[1:]), kw, node=node)
            return NONE

        def fwd(I, st, f, args, kw, node):
            x = args[1] if len(args) > 1 else kw['x']
            return self.rowmap(st, 'sc_fwd', ver(st, args[0]), x)

        def inv(I, st, f, args, kw, node):
            u = args[1] if len(args) > 1 else kw['u']
            v = ver(st, args[0])
            return TupleV([self.rowmap(st, 'sc_inv', v, u), self.rowval(st, 'sc_ladj', v, u)])

        def bc(I, st, f, args, kw, node):
            x = args[1] if len(args) > 1 else kw['x']
            if not cfg.bc:
                return npm.shallow(I, st, x)
            return self.rowmap(st, 'bc', sym('sc'), x)
        I.hooks['Reparameterize.fit'] = fit
        I.hooks['Reparameterize.forward'] = fwd
        I.hooks['Reparameterize.inverse'] = inv
        I.hooks['Reparameterize.apply_boundary_conditions_x'] = bc

    def opaque_flow_fit(self):
        I = self.I

        def fit(I, st, f, args, kw, node):
            o = args[0]
            fl = I.get_attr(st, o, 'flow')
            ex = dict(xs=None, xe=None, ws=None, we=None)
            names = [a_.arg for a_ in f.node.args.args]
            v = dict(zip(names, args))
            v.update(kw)
            try:
                ex['xs'], ex['xe'] = I.arr(st, v['x'])
                if v.get('weights', NONE) is not NONE:
                    ex['ws'], ex['we'] = I.arr(st, v['weights'])
            except Exception:
                pass
            I.event(st, 'flow-fit', '', tuple(args[1:]), kw, node=node, **ex)
            if isinstance(fl, Ref):
                I.set_attr(st, fl, 'ver', mk('sym', I.stable('flowver', node)), node)
            return I.alloc(st, DictC({}, sym('history')))
        I.hooks['Flow.fit'] = fit

    def opaque_student(self):
        I = self.I

        def fit(I, st, f, args, kw, node):
            x = args[0]
            s, e = I.arr(st, x)
            I.event(st, 'student-fit', '', (x,), node=node)
            t = I.stable('tf', node)
            m, c, n = sym(t + 'm'), sym(t + 'c'), sym(t + 'n')
            SYMM.add(c)
            POS.add(n)
            I.scalars.add(n)
            d = s[1] if len(s) > 1 else D
            return TupleV([I.new_arr(st, (d,), at(m, ax(0))), I.new_arr(st, (d, d), at(c, ax(0), ax(1))), n])
        I.hooks['fit_mvstud'] = fit

    def build(self, **over):
        """construct a Sampler symbolically; returns the reference"""
        I, st, cfg = self.I, self.st, self.cfg
        self.opaque_scaler()
        self.opaque_flow_fit()
        self.opaque_student()
        env = I.module('pocomc.sampler')
        kw = dict(prior=self.prior(), likelihood=self.likelihood(), n_dim=NONE, n_active=NA, n_effective=NE,
                  vectorize=TRUE if cfg.vectorize else FALSE,
                  blobs_dtype=sym('blobs_dtype') if cfg.blobs == 'typed' else NONE,
                  pool=self.pool(), precondition=TRUE if cfg.precondition else FALSE,
                  sample=const(cfg.sample), resample=const(cfg.resample), metric=const(cfg.metric),
                  dynamic=TRUE if cfg.dynamic else FALSE)
        if cfg.bc:
            if cfg.bc in (True, 'periodic'):
                kw['periodic'] = sym('periodic')
            if cfg.bc in (True, 'reflective'):
                kw['reflective'] = sym('reflective')
        if cfg.args == 'list':
            kw['likelihood_args'] = I.alloc(st, ListC([sym('arg0'), sym('arg1')]))
        elif cfg.args == 'dict':
            kw['likelihood_kwargs'] = I.alloc(st, DictC({'option': sym('opt0')}))
        elif cfg.args:
            a = sym('lik_args')
            k = sym('lik_kwargs')
            kw['likelihood_args'] = a
            kw['likelihood_kwargs'] = k
        for k, v in over.items():
            kw[k] = v
        self.S = I.call(st, env['Sampler'], [], kw, None)
        return self.S


# inverse pairs
def _cancel(name, other):
    def rule(ver, r, j):
        if r.op == 'lam':
            b, v = r.args[1], mk('bv', r.ht)
            if b.op == 'app' and b.args[0] == other and b.args[1] is ver and len(b.args) == 4 and b.args[3] is v \
                    and v not in b.args[2].fv:
                return at(b.args[2], j)
        return None
    return rule


for a, b in (('sc_fwd', 'sc_inv'), ('flow_fwd', 'flow_inv')):
    APP_RULES[a] = _cancel(a, b)
    APP_RULES[b] = _cancel(b, a)
