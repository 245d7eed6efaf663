PROPERTY = 'C09'
NEEDS = 'a run that is stopped after the proposal scale has been adapted and is resumed from its checkpoint'
BREAKS = 'the adapted proposal scale is not part of the checkpoint, so a resumed run continues with the initial one'
EDITS = [('pocomc/sampler.py', "            del state['pbar']  # Cannot be pickled\n", "            for key in ('pbar', 'proposal_scale'):  # Cannot be pickled or recomputed from the dimension\n                del state[key]\n")]
DEMO = '''
import os, tempfile, numpy as np, pocomc as pc
from scipy.stats import norm
with tempfile.TemporaryDirectory() as d:
    def make():
        return pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum((x - 1) ** 2)), n_effective=32, n_active=16,
                          n_prior=32, precondition=False, random_state=0)
    s = make()
    s.run(n_total=64, n_evidence=0, progress=False)
    path = os.path.join(d, 'a.state')
    s.save_state(path)
    r = make()
    r.load_state(path)
    assert r.proposal_scale == s.proposal_scale, (r.proposal_scale, s.proposal_scale)
'''
