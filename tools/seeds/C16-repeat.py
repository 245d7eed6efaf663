PROPERTY = 'C16'
NEEDS = 'a prior in which the same distribution object is used for more than one parameter'
BREAKS = 'the log-density of a repeated distribution is counted once'
EDITS = [('pocomc/prior.py', 'for i, dist in enumerate(self.dists): \n            logp += dist.logpdf(x[:,i])', 'for dist in dict.fromkeys(self.dists):\n            logp += dist.logpdf(x[:, self.dists.index(dist)])')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm, uniform
a, b = norm(0, 1), uniform(0, 2)
x = np.array([[0.3, 0.5, 1.2], [1.0, 1.9, -0.2]])
p = pc.Prior([a, b, a])
assert np.allclose(p.logpdf(x), a.logpdf(x[:, 0]) + b.logpdf(x[:, 1]) + a.logpdf(x[:, 2]))
'''
