PROPERTY = 'C17'
NEEDS = 'a run of more than 512 iterations'
BREAKS = 'the oldest iterations are dropped from the history'
EDITS = [('pocomc/particles.py', '                self.past.get(key).append(value)\n', '                self.past.get(key).append(value)\n                # Bound the memory used by very long runs\n                del self.past.get(key)[:-512]\n')]
DEMO = '''
import numpy as np
from pocomc.particles import Particles
P = Particles(2, 1)
for t in range(600):
    P.update(dict(u=np.zeros((2, 1)), x=np.zeros((2, 1)), logdetj=np.zeros(2), logl=np.zeros(2), logp=np.zeros(2), logw=np.zeros(2),
                  blobs=None, iter=t, calls=0, steps=1, efficiency=1.0, ess=1.0, accept=1.0, beta=0.0, logz=0.0))
assert np.array_equal(P.compute_results()['iter'], np.arange(600))
'''
