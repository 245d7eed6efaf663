PROPERTY = 'C15'
NEEDS = 'a periodic parameter whose lower bound is not a multiple of its range'
BREAKS = 'out-of-range values are shifted by something that is not a whole number of periods'
EDITS = [('pocomc/scaler.py', 'x[j, i] = self.low[i] + x[j, i] - self.high[i]', 'x[j, i] = self.low[i] + x[j, i] % (self.high[i] - self.low[i])')]
DEMO = '''
import numpy as np
from pocomc.scaler import Reparameterize
for lo, hi in ((0.0, 2 * np.pi), (-1.0, 1.0), (0.5, 2.0)):
    s = Reparameterize(2, bounds=np.array([[lo, hi], [-np.inf, np.inf]]), periodic=[0])
    x = np.array([[hi + 0.3, 5.0], [hi + 2.1 * (hi - lo), 1.0], [lo - 0.2, 1.0]])
    y = s.apply_boundary_conditions_x(x)
    k = (x[:, 0] - y[:, 0]) / (hi - lo)
    assert np.all((y[:, 0] >= lo) & (y[:, 0] <= hi)) and np.allclose(k, np.round(k)), (lo, hi, y)
'''
