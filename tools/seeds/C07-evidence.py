PROPERTY = 'C07'
NEEDS = 'a preconditioned run with n_evidence > 0 on a problem where part of the likelihood is zero, or a skewed weight distribution'
BREAKS = 'the bootstrap resamples half of the draws instead of as many as the estimator uses, so the error is overstated by sqrt(2)'
EDITS = [('pocomc/sampler.py', 'np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw))',
          'np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw) // 2)]) - np.log(len(logw) // 2)')]
DEMO = '''
import numpy as np, torch, pocomc as pc
from scipy.stats import norm
prior = pc.Prior([norm(0, 1), norm(0, 1)])
s = pc.Sampler(prior, lambda x: -0.5 * float(np.sum(x ** 2)), n_effective=32, n_active=32, n_prior=64, random_state=1)
class PB:
    def update_stats(self, d): pass
s.pbar = PB()
s.prior_samples = s.sample_prior(64); s.scaler.fit(s.prior_samples)
class F:
    def sample(self, n):
        g = torch.Generator().manual_seed(0)
        t = torch.randn(n, 2, generator=g).double()
        return t, (-0.5 * (t ** 2).sum(1) - np.log(2 * np.pi))
s.flow = F()
s._compute_evidence(2000)
g = torch.Generator().manual_seed(0)
t = torch.randn(2000, 2, generator=g).double().numpy()
x, ld = s.scaler.inverse(t)
w = np.exp(-0.5 * (x ** 2).sum(1) + prior.logpdf(x) + ld + 0.5 * (t ** 2).sum(1) + np.log(2 * np.pi))
lz = np.log(w.mean()); err = w.std() / w.mean() / np.sqrt(len(w))
assert abs(s.logz - lz) < 1e-8
assert abs(s.logz_err / err - 1) < 0.15, (s.logz_err, err)
'''
