"""When an MCMC stage ends (C28): the scalar recurrences that decide the end of a kernel's loop, against the plateau criterion.

The conditions under which the loop is left and the loop-carried scalars they depend on are closed terms over the sums of the
particles' log densities at the end of a step, the mean acceptance probability, the proposal scale and the options.  They are
tabulated over histories of those sums and compared with the criterion, whatever variables the code counts with."""
import random
from .kernel2 import *
from ..tabulate import Table, Unknown

# fields whose mean is watched and whether the patience is capped at n_steps, by kernel
LEVEL = {('tpcn', True): (('logl', 'logp'), False), ('tpcn', False): (('logl', 'logp'), False),
         ('rwm', True): (('logl', 'logp', 'logdetj'), True), ('rwm', False): (('logl', 'logp', 'logdetj'), False)}


def total(e):
    q = fresh_iv('q')
    return mk_sum(NA, q, subst(e, {ax(0): q}))


class Machine:
    def __init__(self, K):
        self.K = K
        info = self.info = K.loop
        ms = {m: d for m, d in info.mus.items() if d['rank'] == 0 and isinstance(d['step'], T) and isinstance(d['init'], T)}
        self.conds = [c for c, _, _ in info.breaks]
        self.exit = info.exitcond if isinstance(info.exitcond, T) else FALSE
        need, todo = {}, list(self.conds) + [self.exit]
        while todo:
            t = todo.pop()
            for m, d in ms.items():
                if m not in need and (m is t or m in t.lv):
                    need[m] = d
                    todo += [d['step'], d['init']]
        # the proposal scale enters the criterion
        self.scale = [m for m, d in ms.items() if K.scale0 in d['init'].lv]
        for m in self.scale:
            need[m] = ms[m]
        self.state = need
        self.sums, self.sums0 = {}, {}
        for f in ('logl', 'logp', 'logdetj'):
            c = [m for m, d in info.mus.items() if d['init'] is K.inp[f][1] or isinstance(d['init'], T) and same(d['init'], K.inp[f][1])]
            if len(c) != 1 or not isinstance(info.mus[c[0]]['step'], T):
                raise ValueError('no unique loop-carried %s' % f)
            self.sums[f] = total(info.mus[c[0]]['step'])
            self.sums0[f] = total(K.inp[f][1])

    def stop(self, env, levels, n):
        """(step after which the loop is left or None, scales after each step, atoms with arbitrary values)"""
        info = self.info
        T0 = Table(dict(env, **{}), 1)
        for f, t in self.sums0.items():
            T0.set(t, levels[0][f])
        cur = {m: T0(d['init']) for m, d in self.state.items()}
        free = dict(T0.free)
        scales = []
        if self.exit is not FALSE:
            T0.env.update(cur)
            T0.memo.clear()
            if info.iv is not None:
                T0.set(info.iv, 0.0)
            if T0(self.exit):
                return 0, scales, free
        for k in range(n):
            if info.iv is not None and info.n is not None and k >= Table(env)(info.n):
                return k, scales, free
            T = Table(dict(env), k)
            T.env.update(cur)
            if info.iv is not None:
                T.set(info.iv, float(k))
            for f, t in self.sums.items():
                T.env[t] = levels[k + 1][f]
            T.memo.clear()
            new = {m: T(d['step']) for m, d in self.state.items()}
            scales.append(new[self.scale[0]])
            out = any(T(c) for c in self.conds)
            free.update(T.free)
            if out:
                return k + 1, scales, free
            cur = new
            if self.exit is not FALSE:
                T.env.update(cur)
                T.memo.clear()
                if info.iv is not None:
                    T.set(info.iv, float(k + 1))
                if T(self.exit):
                    return k + 1, scales, free
        return None, scales, free


def plateau_rule(R, K):
    site = K.loop.loc
    cfg = K.cfg
    fields, cap = LEVEL[(cfg.sample, cfg.precondition)]
    try:
        M = Machine(K)
    except ValueError as e:
        R.ob('plateau', site, None, str(e))
        return
    if len(M.scale) != 1:
        R.ob('plateau', site, None, 'no unique loop-carried proposal scale')
        return
    rng = random.Random(5)
    n = 0
    hist = {}
    for steps in (1.0, 2.0, 5.0):
        for limit in (1.0, 4.0, 40.0):
            for dim in (1.0, 4.0, 25.0):
                for scale0 in (0.05, 0.4, 0.9):
                    for up in (0.0, 0.3, 0.7):
                        na = 8.0
                        lv = [{f: rng.uniform(-9, -5) for f in M.sums}]
                        best = sum(lv[0][f] for f in fields)
                        for _ in range(60):
                            x = {f: rng.uniform(-9, -5) for f in M.sums}
                            r = rng.random()
                            # above, exactly at or below the best value so far
                            aim = best + rng.uniform(0.5, 2) if r < up else best if r < up + 0.1 else best - rng.uniform(0.5, 2)
                            x['logl'] = aim - sum(x[f] for f in fields if f != 'logl')
                            best = max(best, aim)
                            lv.append(x)
                        env = {K.n_steps: steps, K.n_max: limit, D: dim, K.scale0: scale0, NA: na}
                        try:
                            got, scales, free = M.stop(env, lv, 60)
                        except (Unknown, OverflowError, ValueError, ZeroDivisionError, TypeError) as e:
                            R.ob('plateau', site, None, 'the end of the loop is not described: %s' % e)
                            return
                        # the criterion
                        b, cnt, want = sum(lv[0][f] for f in fields), 0, None
                        edge = False
                        for k, s in enumerate(scales):
                            v = sum(lv[k + 1][f] for f in fields)
                            if v > b + 1e-9:
                                b, cnt = v, 0
                            else:
                                cnt += 1
                            q = 2.38 / dim ** 0.5 / s if s else float('inf')
                            need = steps * (min(1.0, q) if cap else q) ** 2
                            edge = edge or abs(cnt - need) < 1e-6 * need and need > 0 and not cap
                            if cnt and cnt >= need - 1e-9 or k + 1 >= limit:
                                want = k + 1
                                break
                        if want is None and got is not None:
                            want = 'more than %d' % len(scales)
                        if edge:
                            continue
                        n += 1
                        if want != got:
                            ts = list(free)
                            R.ob('plateau', site, verdict(False, *M.conds), 'n_steps=%g, n_max=%g, %g dimensions, scale %.3g: the stage ends after %s steps, '
                                 'by the plateau criterion on %s after %s (mean log densities %s)' % (
                                     steps, limit, dim, scale0, got, ' + '.join(fields), want,
                                     ', '.join('%.2f' % (sum(x[f] for f in fields) / na) for x in lv[:(got or 5) + 1][:9])))
                            return
    R.ob('plateau', site, True if n > 50 else None, '' if n > 50 else 'too few histories tabulated')
    R.note('%s: %d histories of the mean log density tabulated' % (site, n)) if hasattr(R, 'note') else None
