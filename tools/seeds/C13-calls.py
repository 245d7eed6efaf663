PROPERTY = 'C13'
NEEDS = 'an MCMC stage in which some proposals fall outside the prior support (bounded parameter without transform, or a prior with zeros)'
BREAKS = 'the counter counts proposals that were never handed to the likelihood'
EDITS = [('pocomc/mcmc.py', '        n_calls += np.sum(finite_mask)\n', '        n_calls += np.sum(finite_mask_x_prime)\n', 3)]
DEMO = '''
import numpy as np, pocomc as pc
n = 0
def loglike(x):
    global n
    n += 1
    return -0.5 * float(np.sum((x - 1) ** 2))
class P:
    dim = 2
    bounds = np.array([[-np.inf, np.inf]] * 2)
    def logpdf(self, x):
        r = -0.5 * np.sum(x ** 2, axis=1)
        r[x[:, 0] < -0.5] = -np.inf
        return r
    def rvs(self, size=1):
        x = np.random.randn(size, 2)
        x[:, 0] = np.abs(x[:, 0]) - 0.5
        return x
s = pc.Sampler(P(), loglike, n_effective=64, n_active=32, n_prior=64, precondition=False, sample='rwm', random_state=1)
s.run(n_total=256, n_evidence=0, progress=False)
assert s.results['calls'][-1] == n, (s.results['calls'][-1], n)
'''
