PROPERTY = 'C25'
NEEDS = 'a caller that looks at its own samples again after fitting a geometry or a Student-t to them'
BREAKS = 'the Student-t fit centres the data in place through a transposed view, so the samples of the caller are shifted'
EDITS = [('pocomc/student.py', '    mu = np.array([np.median(data,1)]).T\n', '    center = np.array([np.median(data,1)]).T\n    # Work with centred data for numerical stability\n    data -= center\n    mu = np.zeros_like(center)\n'),
         ('pocomc/student.py', '            return mu.T[0], Sigma, nu\n\n', '            return (mu + center).T[0], Sigma, nu\n\n'),
         ('pocomc/student.py', '\n    return mu.T[0], Sigma, nu', '\n    return (mu + center).T[0], Sigma, nu', 0)]
DEMO = '''
import numpy as np
from pocomc.geometry import Geometry
u = np.random.RandomState(0).standard_t(3, size=(200, 2)) + 5.0
v = u.copy()
Geometry().fit(u)
assert np.array_equal(u, v)
'''
