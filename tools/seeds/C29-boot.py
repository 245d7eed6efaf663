PROPERTY = 'C29'
NEEDS = 'an evidence estimate with flow draws (n_evidence > 0) for a likelihood whose logarithm is below about -745 or above 709'
BREAKS = 'the bootstrap error of the evidence averages exponentials of the raw log-weights, so it is nan or zero for likelihoods of large magnitude'
EDITS = [('pocomc/sampler.py', '        dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])',
          '        w = np.exp(logw)\n        dlogz = np.std([np.log(np.mean(w[np.random.choice(len(w), len(w))])) for _ in range(np.maximum(n,1000))])')]
DEMO = '''

import numpy as np, scipy.stats as ss, pocomc as pc, warnings
warnings.simplefilter('ignore')
OFFSET = -5000.0
def sampler(offset, **kw):
    prior = pc.Prior([ss.norm(0, 3), ss.norm(0, 3)])
    return pc.Sampler(prior, lambda x: offset - 0.5*np.sum((x-1)**2), n_effective=64, n_active=32, random_state=0,
                      train_config=dict(epochs=5), **kw)

def err(offset):
    s = sampler(offset)
    s.run(n_total=64, n_evidence=64, progress=False)
    return s.evidence()
a, b = err(0.0), err(-5000.0)
assert np.isfinite(a[1]) and np.isfinite(b[1]) and b[1] > 0, (a, b)
'''
