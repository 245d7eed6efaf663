PROPERTY = 'C23'
NEEDS = 'a likelihood much narrower than the prior, so that the first temperature steps are smaller than 1e-4'
BREAKS = 'the bisection also stops once the bracket is narrower than 1e-4, so early temperature steps miss the target effective sample size by far'
EDITS = [('pocomc/sampler.py', '< 0.01 * self.n_effective or beta == 1.0:', '< 0.01 * self.n_effective or beta_max - beta_min < 1e-4:')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import uniform
prior = pc.Prior([uniform(-10, 20), uniform(-10, 20)])
s = pc.Sampler(prior, lambda x: -0.5 * float(np.sum(((x - 1) / 1e-3) ** 2)), n_effective=200, n_active=100, n_prior=400,
               precondition=False, dynamic=False, random_state=1)
s.run(n_total=200, n_evidence=0, progress=False)
b, e = s.results['beta'], s.results['ess']
bad = [(i, b[i], e[i]) for i in range(1, len(b)) if b[i - 1] < b[i] < 1.0 and abs(e[i] - 200) > 2.001]
assert not bad, bad
'''
