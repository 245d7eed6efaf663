PROPERTY = 'C04'
NEEDS = 'a likelihood that returns NaN at some proposed point during an MCMC stage (not in warm-up)'
BREAKS = 'a proposal whose likelihood is undefined is accepted: the NaN guard only zeroes entries when the whole batch is NaN'
EDITS = [('pocomc/mcmc.py', '''            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj - A + B)
        )
        alpha[np.isnan(alpha)] = 0.0
''', '''            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj - A + B)
        )
        alpha = np.nan_to_num(alpha, nan=np.nanmean(alpha) if np.isfinite(alpha).any() else 0.0)
''')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import norm
def loglike(x):
    if x[0] < -2.5:
        return np.nan
    return -0.5 * float(np.sum(x ** 2))
prior = pc.Prior([norm(0, 1), norm(0, 1)])
s = pc.Sampler(prior, loglike, n_effective=64, n_active=64, n_prior=128, precondition=False, sample='tpcn', random_state=2)
s.run(n_total=1500, n_evidence=0, progress=False)
l = s.particles.get("logl", index=None, flat=True)
assert np.isfinite(l).all(), "a particle with undefined likelihood was recorded"
'''
