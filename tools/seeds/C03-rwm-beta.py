PROPERTY = 'C03'
NEEDS = 'random-walk kernel without preconditioning while the temperature is below one and the likelihood depends on position'
BREAKS = 'the Jacobian of the reparameterisation is tempered together with the likelihood, so the stationary distribution is wrong for beta < 1'
EDITS = [('pocomc/mcmc.py', 'np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj)\n',
          'np.exp(beta * (logl_prime - logl + logdetj_prime - logdetj) + logp_prime - logp)\n')]
DEMO = '''
import numpy as np, pocomc as pc
from scipy.stats import uniform
from pocomc.mcmc import rwm
from pocomc.scaler import Reparameterize

class Rec(Exception):
    pass

# one-parameter uniform prior, flat likelihood: the chain must leave the uniform distribution invariant at every beta
np.random.seed(3)
prior = pc.Prior([uniform(0, 1), uniform(0, 1)])
n = 4000
x = prior.rvs(n)
sc = Reparameterize(2, bounds=prior.bounds)
sc.fit(x)
u = sc.forward(x)
_, ld = sc.inverse(u)

class G:
    normal_cov = np.eye(2)
res = rwm(dict(u=u, x=x, logdetj=ld, logl=np.zeros(n), logp=prior.logpdf(x), beta=0.1, blobs=None),
          dict(loglike=lambda x: (np.zeros(len(x)), None), logprior=prior.logpdf, scaler=sc, u_geometry=G),
          dict(n_max=40, n_steps=100, progress_bar=None, proposal_scale=1.0))
v = res['x'].var(axis=0).mean()
assert abs(v - 1 / 12) < 0.008, v
'''
