PROPERTY = 'C06'
NEEDS = 'a history in which iterations have different evidence values (here: prior draws without finite likelihood, so that the first evidence value is not one)'
BREAKS = 'the mixture in the denominator weighs iterations by their evidence relative to the first iteration instead of their own evidence'
EDITS = [('pocomc/particles.py', 'b = np.array([logl * beta[i] - logz[i] for i', 'b = np.array([logl * beta[i] - (logz[i] - logz[0]) for i')]
DEMO = '''
import numpy as np
from pocomc.particles import Particles
rng = np.random.RandomState(0)
T, n, d = 4, 6, 2
betas = [0.0, 0.1, 0.4, 0.7]
logz = [-0.1, -1.0, -2.5, -3.0]
P = Particles(n, d)
L = rng.randn(T, n)
for t in range(T):
    P.update(dict(u=np.zeros((n, d)), x=np.zeros((n, d)), logdetj=np.zeros(n), logl=L[t].copy(), logp=np.zeros(n), logw=np.zeros(n),
                  blobs=None, iter=t, calls=0, steps=1, efficiency=1.0, ess=1.0, accept=1.0, beta=betas[t], logz=logz[t]))
logw, lz = P.compute_logw_and_logz(1.0)
l = L.reshape(-1)
den = np.logaddexp.reduce([l * b - z for b, z in zip(betas, logz)]) - np.log(T)
ref = l - den
rz = np.logaddexp.reduce(ref) - np.log(len(ref))
ref -= np.logaddexp.reduce(ref)
assert np.allclose(lz, rz), (lz, rz)
assert np.allclose(logw, ref)
'''
