PROPERTY = 'C11'
NEEDS = "metric='uss'"
BREAKS = "the metric chosen by the user decides the end of the run but not the temperature steps"
EDITS = [('pocomc/sampler.py', "                ess_est = unique_sample_size(weights)\n", "                ess_est = effective_sample_size(weights)\n")]
DEMO = '''
import numpy as np, pocomc as pc
from pocomc.tools import unique_sample_size
from scipy.stats import norm
s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum((x - 1) ** 2) / 0.01), n_effective=64, n_active=32,
               n_prior=128, precondition=False, metric='uss', dynamic=False, random_state=0)
s.run(n_total=64, n_evidence=0, progress=False)
r = s.results
k = int(np.argmax(r['beta'] > 0))
from pocomc.particles import Particles
P = Particles(32, 2)
for t in range(k):
    P.update({key: r[key][t] for key in ('logl', 'beta', 'logz')})
w = np.exp(P.compute_logw_and_logz(r['beta'][k])[0])
assert abs(unique_sample_size(w) - r['ess'][k]) < 1e-6 * r['ess'][k], (unique_sample_size(w), r['ess'][k])
'''
