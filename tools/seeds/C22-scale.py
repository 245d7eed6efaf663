PROPERTY = 'C22'
NEEDS = 'a t-preconditioned Crank-Nicolson stage in one or two dimensions whose acceptance stays high for several steps'
BREAKS = 'the cap on the proposal scale is only the optimal scale 2.38/sqrt(D), which exceeds one for D <= 5, so sqrt(1 - sigma^2) turns NaN'
EDITS = [('pocomc/mcmc.py', 'np.minimum(2.38 / n_dim**0.5, 0.99)))\n        #sigma = sigma + 1 /', '2.38 / n_dim**0.5))\n        #sigma = sigma + 1 /', 0)]
DEMO = '''
import numpy as np
from pocomc.mcmc import pcn
class Sc:
    periodic = reflective = None
    def inverse(self, u):
        return u.copy(), np.zeros(len(u))
class G:
    t_mean = np.zeros(2); t_cov = np.eye(2); t_nu = 1e6
np.random.seed(0)
u = np.random.randn(200, 2)
r = pcn(dict(u=u, x=u.copy(), logdetj=np.zeros(200), logl=np.zeros(200), logp=-0.5 * (u ** 2).sum(1), beta=0.0, blobs=None),
        dict(loglike=lambda x: (np.zeros(len(x)), None), logprior=lambda x: -0.5 * (x ** 2).sum(1), scaler=Sc(), u_geometry=G),
        dict(n_max=2, n_steps=50, progress_bar=None, proposal_scale=0.9))
assert 0 <= r['proposal_scale'] < 1, r['proposal_scale']
'''
