PROPERTY = 'C10'
NEEDS = 'a likelihood that is infinite for some prior draws, so that warm-up replaces particles'
BREAKS = 'replacements of prior particles come from a generator that the seed does not reach'
EDITS = [('pocomc/sampler.py', 'idx = np.random.choice(finite_idx, size=len(infinite_idx), replace=True)', 'idx = np.random.default_rng().choice(finite_idx, size=len(infinite_idx), replace=True)')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
def loglike(x):
    return -np.inf if x[0] < 0 else -0.5 * float(np.sum((x - 1) ** 2))
def go():
    s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), loglike, n_effective=32, n_active=16, n_prior=64, precondition=False, random_state=3)
    s.run(n_total=64, n_evidence=0, progress=False)
    return s.results['x'][:4]
a, b = go(), go()
assert np.array_equal(a, b)
'''
