PROPERTY = 'C15'
NEEDS = 'an array with out-of-range values for a periodic parameter that the caller uses again'
BREAKS = "the caller's array is changed"
EDITS = [('pocomc/scaler.py', '            x = x.copy()\n', '            x = np.asarray(x, dtype=float)\n', 0)]
DEMO = '''
import numpy as np
from pocomc.scaler import Reparameterize
s = Reparameterize(2, bounds=np.array([[0.0, 1.0], [-np.inf, np.inf]]), periodic=[0])
x = np.array([[1.3, 5.0], [0.4, 1.0]])
k = x.copy()
s.apply_boundary_conditions_x(x)
assert np.array_equal(x, k)
'''
