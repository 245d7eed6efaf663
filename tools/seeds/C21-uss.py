PROPERTY = 'C21'
NEEDS = 'a number of draws k that differs from the number of weights'
BREAKS = 'the unique sample size saturates at the number of particles'
EDITS = [('pocomc/tools.py', 'return np.sum(1.0 - (1.0 - weights)**k)', 'return np.sum(1.0 - (1.0 - weights)**np.minimum(k, len(weights)))')]
DEMO = '''
import numpy as np
from pocomc.tools import unique_sample_size
w = np.array([0.1, 0.2, 0.7])
for k in (1, 3, 5, 50):
    assert abs(unique_sample_size(w.copy(), k=k) - np.sum(1 - (1 - w) ** k)) < 1e-12, k
'''
