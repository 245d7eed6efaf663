PROPERTY = 'C22'
NEEDS = 'a random-walk stage in latent space; the effect is a noisier scale, with the right mean'
BREAKS = 'the proposal scale follows the fraction of moves accepted by chance instead of the mean acceptance probability'
EDITS = [('pocomc/mcmc.py', 'sigma = np.abs(sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234))', 'sigma = np.abs(sigma + 1 / (i + 1) * (np.mean(mask) - 0.234))', 1)]
DEMO = '''
import numpy as np
from pocomc.mcmc import rwm
class Sc:
    periodic = reflective = None
    def inverse(self, u):
        return u.copy(), np.zeros(len(u))
class G:
    normal_cov = np.eye(2); normal_mean = t_mean = np.zeros(2); t_cov = np.eye(2); t_nu = 1e6
np.random.seed(0)
u = np.random.randn(11, 2)
r = rwm(dict(u=u, x=u.copy(), logdetj=np.zeros(11), logl=np.zeros(11), logp=-0.5 * (u ** 2).sum(1), beta=0.0, blobs=None),
        dict(loglike=lambda x: (np.zeros(len(x)), None), logprior=lambda x: -0.5 * (x ** 2).sum(1), scaler=Sc(), u_geometry=G),
        dict(n_max=1, n_steps=50, progress_bar=None, proposal_scale=0.9))
assert r['steps'] == 1
a = (r['proposal_scale'] - 0.9) * 2 + 0.234
assert abs(a - r['accept']) < 1e-9, (a, r['accept'])
'''
