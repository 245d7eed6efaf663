PROPERTY = 'C17'
NEEDS = 'a recorded log-likelihood below -1e300 in the iteration before a temperature step'
BREAKS = 'the next temperature step writes into the array of an iteration that is already recorded'
EDITS = [('pocomc/sampler.py', '''        beta_prev = self.particles.get("beta", index=-1)
''', '''        beta_prev = self.particles.get("beta", index=-1)
        logl_last = self.particles.get("logl", index=-1)
        logl_last[logl_last < -1e300] = -1e300
''')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
def loglike(x):
    return -float(np.sum(x ** 2)) * (1e305 if x[0] > 1.0 else 1.0)
s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), loglike, n_effective=32, n_active=16, n_prior=32, precondition=False, random_state=0)
s.run(n_total=64, n_evidence=0, progress=False)
r = s.results
for t in range(2):
    ref = np.array([loglike(x) for x in r['x'][t]])
    assert np.array_equal(ref, r['logl'][t]), t
'''
