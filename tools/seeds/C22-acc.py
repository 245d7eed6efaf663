PROPERTY = 'C22'
NEEDS = 'a preconditioned random-walk stage; the number is only recorded'
BREAKS = 'the acceptance a stage reports is the fraction of finite acceptance probabilities averaged, without the proposals outside the prior support'
EDITS = [('pocomc/mcmc.py', 'accept=np.mean(alpha), steps=i', 'accept=np.mean(alpha[finite_mask]), steps=i', 1)]
DEMO = '''
import numpy as np, warnings
warnings.simplefilter('ignore')
from pocomc import mcmc
class Sc:
    periodic = reflective = None
    def inverse(self, u):
        return u.copy(), np.zeros(len(u))
class G:
    normal_cov = np.eye(1); normal_mean = t_mean = np.zeros(1); t_cov = np.eye(1); t_nu = 1e6
class W:
    def forward(self, u):
        return u.copy(), np.zeros(len(u))
    inverse = forward
mcmc.flow_numpy_wrapper = lambda flow: W()
np.random.seed(0)
u = np.random.rand(50, 1)
def lp(x):
    return np.where((x[:, 0] > 0) & (x[:, 0] < 1), 0.0, -np.inf)
r = mcmc.preconditioned_rwm(dict(u=u, x=u.copy(), logdetj=np.zeros(50), logl=np.zeros(50), logp=np.zeros(50), beta=0.5, blobs=None),
        dict(loglike=lambda x: (np.zeros(len(x)), None), logprior=lp, scaler=Sc(), flow=None, theta_geometry=G, u_geometry=G),
        dict(n_max=1, n_steps=50, progress_bar=None, proposal_scale=1.0))
assert r['steps'] == 1 and 0 < r['calls'] < 50
# flat target: a proposal is accepted with probability one inside the support and zero outside
assert abs(r['accept'] - r['calls'] / 50) < 1e-9, (r['accept'], r['calls'])
'''
