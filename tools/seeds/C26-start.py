PROPERTY = 'C26'
NEEDS = 'samples that do not span the parameter space (fewer distinct points than dimensions, or an exact linear relation)'
BREAKS = 'the scale matrix starts without its diagonal term, so it is singular for degenerate samples and cannot be inverted by the proposals'
EDITS = [('pocomc/student.py', "Sigma = np.cov(data)*(n-1)/n + (1/n)*np.diag(np.var(data, axis=1))", "Sigma = np.atleast_2d(np.cov(data, bias=True))")]
DEMO = '''
import numpy as np
from pocomc.student import fit_mvstud
x = np.random.RandomState(0).randn(64, 1) * np.array([[1.0, 2.0, -1.0]])
x[:, 1] += 0.0
mu, S, nu = fit_mvstud(x)
assert np.linalg.eigvalsh(S).min() > 1e-3 * np.trace(S) / 64, np.linalg.eigvalsh(S)
'''
