PROPERTY = 'C01'
NEEDS = 'blobs and prior draws with infinite log-likelihood in one warm-up batch; an off-by-one only visible for the replaced rows'
BREAKS = 'replaced prior draws keep the blob of the discarded point instead of the blob of the point that replaces them'
EDITS = [('pocomc/sampler.py', '                        blobs[infinite_idx] = blobs[idx]\n',
          '                        blobs[infinite_idx] = blobs[infinite_idx][np.argsort(idx)]\n')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import uniform
np.random.seed(0)

def loglike(x):
    if x[0] > 0.5:
        return -np.inf, float(x[0] + 10 * x[1])
    return -0.5 * float(np.sum(x ** 2)), float(x[0] + 10 * x[1])

prior = pc.Prior([uniform(-1, 2), uniform(-1, 2)])
s = pc.Sampler(prior, loglike, n_effective=64, n_active=32, n_prior=64, precondition=False, random_state=1)
s.run(n_total=64, n_evidence=0, progress=False)
x = s.particles.get("x", index=None, flat=True)
b = s.particles.get("blobs", index=None, flat=True)
assert np.allclose(b, x[:, 0] + 10 * x[:, 1]), "blob does not belong to its particle"
'''
