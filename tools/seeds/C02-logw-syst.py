PROPERTY = 'C02'
NEEDS = 'posterior(return_logw=True) with trimming switched on'
BREAKS = 'log-weights are returned untrimmed order: row i of the log-weights belongs to another particle than row i of the samples'
EDITS = [('pocomc/sampler.py', '            logw = logw[idx]\n', '            logw = np.sort(logw)[-len(idx):] if return_logw else logw[idx]\n')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
prior = pc.Prior([norm(0, 2), norm(0, 2)])
s = pc.Sampler(prior, lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=64, n_active=32, n_prior=64, precondition=False, random_state=1)
s.run(n_total=128, n_evidence=0, progress=False)
x0, w, l0, p0 = s.posterior()
x1, logw, l1, p1 = s.posterior(return_logw=True)
w1 = np.exp(logw - logw.max()); w1 /= w1.sum()
assert np.array_equal(x0, x1) and np.allclose(w, w1), "log-weights are not those of the rows"
'''
