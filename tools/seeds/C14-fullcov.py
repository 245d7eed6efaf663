PROPERTY = 'C14'
NEEDS = 'the non-diagonal affine transform'
BREAKS = 'the log-determinant of the affine part is that of the covariance instead of its Cholesky factor'
EDITS = [('pocomc/scaler.py', 'self.log_det_L = np.linalg.slogdet(self.L)[1]', 'self.log_det_L = np.linalg.slogdet(self.cov)[1]')]
DEMO = '''
import numpy as np
from pocomc.scaler import Reparameterize
rng = np.random.RandomState(0)
b = np.array([[-np.inf, np.inf]] * 2)
s = Reparameterize(2, bounds=b, diagonal=False)
x = rng.randn(200, 2) @ np.array([[2.0, 0.0], [1.0, 0.5]])
s.fit(x)
u = s.forward(x)[:1]
J = np.array([(s.inverse(u + e)[0][0] - s.inverse(u - e)[0][0]) / 2e-5 for e in 1e-5 * np.eye(2)])
assert abs(np.log(abs(np.linalg.det(J))) - s.inverse(u)[1][0]) < 1e-5
'''
