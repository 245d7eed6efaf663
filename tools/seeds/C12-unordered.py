PROPERTY = 'C12'
NEEDS = 'a pool passed by the user that offers imap_unordered, and likelihood calls of different duration'
BREAKS = 'likelihood values are collected in order of completion and land on the wrong points'
EDITS = [('pocomc/sampler.py', '            self.distribute = pool.map\n', "            self.distribute = getattr(pool, 'imap_unordered', pool.map)\n")]
DEMO = '''
import time, numpy as np, pocomc as pc
from multiprocessing.pool import ThreadPool
from scipy.stats import norm
def loglike(x):
    time.sleep(0.02 if x[0] > 0 else 0.0)
    return -float(x[0] ** 2)
with ThreadPool(4) as pool:
    s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), loglike, n_effective=32, n_active=16, pool=pool, random_state=0)
    x = np.random.randn(24, 2)
    logl, _ = s._log_like(x)
assert np.allclose(logl, -x[:, 0] ** 2)
'''
