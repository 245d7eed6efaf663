PROPERTY = 'C28'
NEEDS = 'a step in which no proposal is accepted, so the mean log-density stays exactly at its best value'
BREAKS = 'steps without any accepted proposal count as an improvement and start the plateau count again, so a stuck stage runs to its step limit'
EDITS = [('pocomc/mcmc.py', '        if logp2_val_new > logp2_val:\n', '        if logp2_val_new >= logp2_val:\n', 3)]
DEMO = '''
import numpy as np
import pocomc.mcmc as mc
class Bar:
    def __init__(self): self.info = {'calls': 0}; self.log = []
    def update_stats(self, d): self.log.append(dict(d))
    def update_iter(self): pass
class Scaler:
    def inverse(self, u): return u.copy(), np.zeros(len(u))
    def apply_boundary_conditions_x(self, x): return x
    periodic = None
    reflective = None
class Geo:
    normal_mean = np.zeros(2); normal_cov = np.eye(2)
    t_mean = np.zeros(2); t_cov = np.eye(2); t_nu = 5.0
def like(x): return -500.0 * np.sum((x - 0.3)**2, axis=1), None
def prior(x): return -0.5 * np.sum(x**2, axis=1)
def stage(kernel, seed, n, scale, n_steps=3, n_max=200):
    np.random.seed(seed)
    u = np.random.randn(n, 2)
    bar = Bar()
    state = dict(u=u, x=u.copy(), logdetj=np.zeros(n), logl=like(u)[0], logp=prior(u), beta=1.0, blobs=None)
    fn = dict(loglike=like, logprior=prior, scaler=Scaler(), flow=None, u_geometry=Geo(), theta_geometry=Geo())
    opt = dict(n_max=n_max, n_steps=n_steps, progress_bar=bar, proposal_scale=scale)
    r = kernel(state, fn, opt)
    best, cnt = np.mean(state['logl'] + state['logp']), 0
    for k, d in enumerate(bar.log):
        if d['logP'] > best:
            best, cnt = d['logP'], 0
        else:
            cnt += 1
        sigma = d['eff'] * 2.38 / np.sqrt(2)
        need = n_steps * ((2.38 / np.sqrt(2)) / sigma)**2
        if cnt and cnt >= need * (1 - 1e-9) or k + 1 >= n_max:
            return r['steps'], k + 1
    return r['steps'], None
for seed in range(20):
    for kernel, n, scale in ((mc.pcn, 2, 0.9), (mc.pcn, 16, 0.5), (mc.rwm, 2, 2.0), (mc.rwm, 16, 1.5)):
        got, want = stage(kernel, seed, n, scale)
        assert got == want, (kernel.__name__, seed, n, got, want)
'''
