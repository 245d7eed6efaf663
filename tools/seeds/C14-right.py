PROPERTY = 'C14'
NEEDS = 'a parameter bounded on the right only together with other parameters, far from the bound'
BREAKS = 'the Jacobian of the transform for parameters bounded above is evaluated for a value floored away from the bound'
EDITS = [('pocomc/scaler.py', 'return self.high[self.mask_right] - np.exp(u[:, self.mask_right]), u[:, self.mask_right]', 'return self.high[self.mask_right] - np.exp(u[:, self.mask_right]), np.maximum(u[:, self.mask_right], -30.0)')]
DEMO = '''
import numpy as np
from pocomc.scaler import Reparameterize
s = Reparameterize(1, bounds=np.array([[-np.inf, 0.0]]), scale=False)
for v in (-50.0, -35.0, -1.0, 2.0):
    u = np.array([[v]])
    assert abs(s.inverse(u)[1][0] - v) < 1e-9, (v, s.inverse(u)[1])
'''
