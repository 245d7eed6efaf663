PROPERTY = 'C09'
NEEDS = 'a checkpoint from before the end of the run loaded into a sampler that has already finished a run'
BREAKS = 'entries that are None in the checkpoint do not replace those of the loading sampler, so a stale evidence error survives'
EDITS = [('pocomc/sampler.py', 'self.__dict__ = {**self.__dict__, **state}', 'self.__dict__ = {**self.__dict__, **{key: value for key, value in state.items() if value is not None}}')]
DEMO = '''
import os, tempfile, numpy as np, pocomc as pc
from scipy.stats import norm
with tempfile.TemporaryDirectory() as d:
    s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=32, n_active=16,
                   n_prior=32, precondition=False, random_state=0)
    path = os.path.join(d, 'a.state')
    s.pbar = None
    s.save_state(path)
    s.run(n_total=64, n_evidence=0, progress=False)
    s.logz_err = 0.5
    s.load_state(path)
    assert s.logz is None and s.logz_err is None and s.prior_samples is None, (s.logz, s.logz_err)
'''
