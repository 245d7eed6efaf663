PROPERTY = 'C11'
NEEDS = "a sampler with resample='syst' whose posterior is resampled"
BREAKS = "posterior(resample=True) ignores the resampling scheme chosen by the user"
EDITS = [('pocomc/sampler.py', "                idx_resampled = systematic_resample(len(weights), weights=weights)", "                idx_resampled = np.random.choice(len(weights), size=len(weights), replace=True, p=weights)")]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=32, n_active=16,
               n_prior=32, precondition=False, resample='syst', random_state=0)
s.run(n_total=64, n_evidence=0, progress=False)
x, w, _, _ = s.posterior()
n = len(w)
for _ in range(5):
    y = s.posterior(resample=True)[0]
    counts = np.array([np.sum(np.all(y == xi, axis=1)) for xi in x])
    assert np.all(np.abs(counts - n * w) < 1 + 1e-6), np.max(np.abs(counts - n * w))
'''
