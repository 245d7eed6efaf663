PROPERTY = 'C09'
NEEDS = 'a run with checkpoints that makes a hundred iterations or more'
BREAKS = 'the iteration index in the file name wraps around, so later checkpoints overwrite earlier ones'
EDITS = [('pocomc/sampler.py', "f'{self.output_label}_{self.t}.state'", "f'{self.output_label}_{self.t % 100}.state'", 0)]
DEMO = '''
import os, tempfile, numpy as np, pocomc as pc
from scipy.stats import norm
with tempfile.TemporaryDirectory() as d:
    s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=1024, n_active=16,
                   n_prior=16 * 130, precondition=False, random_state=0, output_dir=d, output_label='run')
    s.run(n_total=32, n_evidence=0, progress=False, save_every=60)
    names = sorted(os.listdir(d))
    assert 'run_60.state' in names and 'run_120.state' in names and 'run_final.state' in names, names
'''
