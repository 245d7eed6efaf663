PROPERTY = 'C24'
NEEDS = 'save_every small enough for a checkpoint to be written during the warm-up'
BREAKS = 'writing a checkpoint rounds the remaining warm-up prior samples to single precision, so saving changes the run'
EDITS = [('pocomc/sampler.py', "        print(f'Saving PMC state to {path}')\n",
          "        # Keep the checkpoint small: the prior draws do not need double precision\n        if self.prior_samples is not None and self.warmup:\n            self.prior_samples = self.prior_samples.astype(np.float32).astype(float)\n        print(f'Saving sampler state to {path}')\n")]
DEMO = '''
import numpy as np, pocomc as pc, tempfile, shutil
from scipy.stats import norm
d = tempfile.mkdtemp()
try:
    out = []
    for k in (None, 1):
        prior = pc.Prior([norm(0, 5), norm(0, 5)])
        s = pc.Sampler(prior, lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=200, n_active=100, n_prior=400,
                       precondition=False, output_dir=d, random_state=1)
        s.run(n_total=200, n_evidence=0, progress=False, save_every=k)
        out.append(s.results['x'][:4])
    assert np.array_equal(out[0], out[1])
finally:
    shutil.rmtree(d)
'''
