PROPERTY = 'C29'
NEEDS = 'log-likelihoods of large magnitude (below about -745 or above 709 at the current temperature)'
BREAKS = 'the evidence of an iteration is formed as the logarithm of a mean of exponentials, which underflows to -inf for small likelihoods'
EDITS = [('pocomc/particles.py', '        logz_new = np.logaddexp.reduce(logw) - np.log(len(logw))\n', '        logz_new = np.log(np.mean(np.exp(logw)))\n')]
DEMO = '''
import numpy as np
from pocomc.particles import Particles
p = Particles(4, 2)
for off in (0.0, -5000.0, 5000.0):
    p = Particles(4, 2)
    p.update(dict(logl=np.array([-1.0, -2.0, -3.0, -4.0]) + off, beta=0.0, logz=0.0))
    logw, logz = p.compute_logw_and_logz(1.0)
    ref = np.logaddexp.reduce(np.array([-1.0, -2.0, -3.0, -4.0])) - np.log(4) + off
    assert abs(logz - ref) < 1e-6, (off, logz, ref)
'''
