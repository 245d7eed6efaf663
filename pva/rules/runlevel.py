"""Rules decided on Sampler.run with the kernels replaced by their contract."""
import re
from ..drive import *
from ..dep import *
from .. import terms as tm
from .kernel import verdict, opaque

ROLE = re.compile(r'^(.*?)(?:\.|\[)(u|x|logl|logp|logdetj|blobs)\]?(?:#\d+)?$')

_cache = {}


def rname(cfg, **kw):
    s = '%s/%s' % (cfg.sample, 'flow' if cfg.precondition else 'no-flow')
    for k in ('blobs', 'vectorize', 'bc', 'args'):
        if getattr(cfg, k):
            s += ',' + k
    s += ',%s,%s' % (cfg.resample, cfg.metric)
    if cfg.pool:
        s += ',pool=%s' % cfg.pool
    return s + ''.join(',%s' % k for k in kw)


def run(R, cfg, **kw):
    key = repr(cfg) + repr(sorted(kw))
    if key not in _cache:
        X = Run(cfg, **kw).run()
        X.rec = Records(X)
        _cache[key] = X
    X = _cache[key]
    R.unit(rname(cfg, **kw), X.I)
    return X


def configs(thorough=False):
    out = [Cfg(), Cfg(precondition=False), Cfg(resample='syst', blobs=True), Cfg(metric='uss', sample='rwm')]
    if thorough:
        out += [Cfg(vectorize=True), Cfg(pool='obj', blobs=True), Cfg(dynamic=False, metric='uss'),
                Cfg(precondition=False, sample='rwm', resample='syst'), Cfg(bc=True), Cfg(args=True)]
    return out


def elem(t):
    """element term over ax(0..) of an entry/step description"""
    if isinstance(t, T):
        return t
    if isinstance(t, tuple) and len(t) == 3 and t[0] == 'lam':
        _, v, b = t
        m = {v: ax(0)}
        for x in b.fv:
            if x.op == 'ax':
                m[x] = ax(x.args[0] + 1)
        return subst(b, m)
    return None


def spec(field, ver, row, j=None, extra=()):
    """the value field of the particle at latent position row (a vector term)"""
    k = fresh_iv('j')
    xrow = lam([k], app('sc_inv', ver, row, k))
    if field == 'x':
        return app('sc_inv', ver, row, j)
    if field == 'logdetj':
        return app('sc_ladj', ver, row)
    if field == 'logl':
        return app('lik', xrow, *extra)
    if field == 'logp':
        return app('lp', xrow)
    if field == 'blobs':
        return app('blob', xrow, *extra)


def lik_extra(cfg):
    return (mk('star', sym('lik_args')), mk('kw', '**', sym('lik_kwargs'))) if cfg.args else ()


def spec_of(field, ver, uelem, rank, extra=()):
    """element term of field given the element term of u, whose last axis is the parameter axis; rank of u"""
    k = fresh_iv('r')
    row = lam([k], subst(uelem, {ax(rank - 1): k}))
    return spec(field, ver, row, ax(rank - 1), extra)


def in_range(t, k, n):
    """facts about an axis position lying within its extent"""
    fs = {}
    for c, v in ((gt0(sub(n, ax(k))), True), (ge0(sub(sub(n, ONE), ax(k))), True), (ge0(ax(k)), True)):
        if c is not TRUE:
            fs.update(facts_of(c, v))
    return assume_facts(t, fs)


class Records:
    """record invariant over the loops of a run: for every container, field = spec(u)"""

    def __init__(self, X):
        self.X = X
        I = X.I
        self.H = {}
        self.fail = []
        self.extra = lik_extra(X.cfg)
        self.checked = []
        loops = [i for i in I.loops.values() if i.mus and not i.parent]
        self.loops = loops
        for info in loops:
            self.loop(info)

    def apply(self, t):
        for _ in range(4):
            n = rewrite(t, self.H)
            if n is t:
                return t
            t = n
        return t

    def loop(self, info):
        groups = {}
        for m, d in info.mus.items():
            r = ROLE.match(m.args[1])
            if r and d['rank'] is not None:
                groups.setdefault(r.group(1), {})[r.group(2)] = m
        ver = self.X.scver(info.end) if info.end is not None else None
        hyp = {}
        for p, g in groups.items():
            if 'u' not in g:
                continue
            rk = info.mus[g['u']]['rank']
            if rk < 2:
                continue
            ue = at(g['u'], *[ax(k) for k in range(rk)])
            for f, m in g.items():
                if f == 'u':
                    continue
                want = rk if f == 'x' else rk - 1
                if info.mus[m]['rank'] != want:
                    continue
                hyp[m] = (want, spec_of(f, ver, ue, rk, self.extra), g['u'], f, p)
        bad = {}
        changed = True
        while changed:
            changed = False
            H = dict(self.H)
            H.update({m: lam_ax(r, f) for m, (r, f, *_rest) in hyp.items()})

            def ap(t):
                for _ in range(4):
                    n = rewrite(t, H)
                    if n is t:
                        break
                    t = n
                return t
            for m, (r, f, ub, fld, p) in list(hyp.items()):
                for what in ('init', 'step'):
                    tf, tu = elem(info.mus[m][what]), elem(info.mus[ub][what])
                    if tf is None or tf is UNDEF or tu is None or tu is UNDEF:
                        if what == 'step':
                            bad[m] = (what, tf, tu)
                        else:
                            continue
                    else:
                        lhs = ap(tf)
                        rhs = spec_of(fld, ver, ap(tu), r if fld == 'x' else r + 1, self.extra)
                        rku = r if fld == 'x' else r + 1
                        lhs, rhs = in_range(lhs, rku - 2, NA), in_range(rhs, rku - 2, NA)
                        if same(lhs, rhs):
                            continue
                        bad[m] = (what, lhs, rhs)
                    del hyp[m]
                    changed = True
                    break
        for m, (r, f, ub, fld, p) in hyp.items():
            self.H[m] = lam_ax(r, f)
            self.checked.append((info, p, fld))
        for m, b in bad.items():
            self.fail.append((info, m, b))


def record_rule(R, X):
    rec = X.rec
    for info, p, fld in rec.checked:
        R.ob('record-invariant', '%s: %s[%s]' % (info.loc, p, fld), True)
    for info, m, (what, a, b) in rec.fail:
        if isinstance(a, T) and isinstance(b, T):
            R.ob('record-invariant', '%s: %s' % (info.loc, m.args[1]), verdict(False, a, b),
                 '%s value does not belong to the recorded position: %s, expected %s' % (
                     what, show(a, 7)[:400], show(b, 7)[:300]))
        else:
            R.ob('record-invariant', '%s: %s' % (info.loc, m.args[1]), None, 'no closed description of the %s' % what)
    for e in X.I.events:
        if e.kind != 'kernel':
            continue
        sn = e.extra['snap']
        u = sn.get(('state', 'u'))
        ver = X.scver(X.st)
        for f in ('x', 'logdetj', 'logl', 'logp', 'blobs'):
            v = sn.get(('state', f))
            if v is None or v is NONE:
                if f == 'blobs' and not X.cfg.blobs:
                    continue
                R.ob('kernel-input', '%s %s' % (e.loc, f), False, 'the kernel is called without %s' % f)
                continue
            lhs = rec.apply(v[1])
            rhs = spec_of(f, ver, rec.apply(u[1]), 2, rec.extra)
            ok = same(lhs, rhs)
            R.ob('kernel-input', '%s %s' % (e.loc, f), verdict(ok, lhs, rhs), '' if ok else
                 '%s handed to the kernel does not belong to the position handed to it: %s, expected %s' % (
                     f, show(lhs, 6)[:300], show(rhs, 6)[:300]))
