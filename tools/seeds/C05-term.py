PROPERTY = 'C05'
NEEDS = 'a run that already has n_total effective samples at beta=1 before the ladder reaches 1 (small n_total, wide n_effective)'
BREAKS = 'a run ends although the inverse temperature has not reached one, as soon as the total sample size is reached'
EDITS = [('pocomc/sampler.py', 'return 1.0 - current_particles.get("beta") >= 1e-4 or ess < self.n_total',
          'return (1.0 - current_particles.get("beta") >= 1e-4 and len(weights) < 2 * self.n_total) or ess < self.n_total')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
prior = pc.Prior([norm(0, 5), norm(0, 5)])
s = pc.Sampler(prior, lambda x: -0.5 * float(np.sum((x - 1) ** 2)) , n_effective=200, n_active=100, n_prior=800, precondition=False, random_state=1)
s.run(n_total=4, n_evidence=0, progress=False)
assert 1.0 - s.results["beta"][-1] < 1e-4, s.results["beta"]
'''
