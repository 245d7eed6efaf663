PROPERTY = 'C29'
NEEDS = 'a random-walk run without flow on a target whose tempered log-likelihoods are below about -745'
BREAKS = 'the acceptance probability is a ratio of two exponentials, which both underflow for small likelihoods, so nothing is ever accepted'
EDITS = [('pocomc/mcmc.py', '            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj)', '            np.exp(logl_prime * beta + logp_prime + logdetj_prime) / np.exp(logl * beta + logp + logdetj)')]
DEMO = '''

import numpy as np, scipy.stats as ss, pocomc as pc, warnings
warnings.simplefilter('ignore')
OFFSET = -5000.0
def sampler(offset, **kw):
    prior = pc.Prior([ss.norm(0, 3), ss.norm(0, 3)])
    return pc.Sampler(prior, lambda x: offset - 0.5*np.sum((x-1)**2), n_effective=64, n_active=32, random_state=0,
                      train_config=dict(epochs=5), **kw)

s = sampler(-5000.0, sample='rwm', precondition=False)
s.run(n_total=64, n_evidence=0, progress=False)
r = s.results
assert np.all(np.array(r['accept']) > 0), r['accept']
'''
