PROPERTY = 'C21'
NEEDS = 'weights with ties at the trimming threshold and a requested fraction that the next coarser cut misses'
BREAKS = 'the condition compares the particle fraction instead of the sample-size fraction for low thresholds'
EDITS = [('pocomc/tools.py', '        if ess_trimmed / ess_total >= ess:\n', '        if ess_trimmed / ess_total >= ess or i <= bins // 100:\n')]
DEMO = '''
import numpy as np
from pocomc.tools import trim_weights
rng = np.random.RandomState(1)
w = np.ones(100000) + 1e-3 * rng.rand(100000)
w /= w.sum()
full = 1 / np.sum(w ** 2)
for ess in (0.9, 0.99, 0.999, 0.9999):
    idx, t = trim_weights(np.arange(len(w)), w.copy(), ess=ess)
    assert 1 / np.sum(t ** 2) >= ess * full * (1 - 1e-12), ess
'''
