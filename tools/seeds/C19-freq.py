PROPERTY = 'C19'
NEEDS = 'a preconditioned run with an explicit train_frequency above one'
BREAKS = 'the flow is trained one iteration late, because the stored index lags behind the counter'
EDITS = [('pocomc/sampler.py', 'self.t % self.train_frequency == 0', 'current_particles.get("iter") % self.train_frequency == 0')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=32, n_active=16,
               n_prior=32, precondition=True, train_frequency=3, random_state=0)
trained = []
s.flow.fit = lambda *a, **k: trained.append(s.t)
rng = np.random.default_rng(0)
for t in range(2, 12):
    s.t = t
    s._train(dict(u=rng.normal(size=(64, 2)), weights=np.ones(64) / 64, beta=0.5, iter=t - 1))
assert trained == [2, 3, 6, 9], trained
'''
