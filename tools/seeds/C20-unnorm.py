PROPERTY = 'C20'
NEEDS = 'systematic resampling with weights that sum to less than one'
BREAKS = 'weights that are too small are not normalised, so the last particle gets the missing probability'
EDITS = [('pocomc/tools.py', 'if abs(np.sum(weights) - 1.) > SQRTEPS:', 'if np.sum(weights) - 1. > SQRTEPS:')]
DEMO = '''
import numpy as np
from pocomc.tools import systematic_resample
for scale in (1.0, 0.25, 4.0):
    w = np.array([0.25, 0.25, 0.25, 0.25]) * scale
    idx = systematic_resample(400, w.copy(), random_state=1)
    assert np.all(np.abs(np.bincount(idx, minlength=4) - 100) <= 1), (scale, np.bincount(idx, minlength=4))
'''
