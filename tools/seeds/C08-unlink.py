PROPERTY = 'C08'
NEEDS = 'a crash between removing the old checkpoint and renaming the new one over it'
BREAKS = 'an existing checkpoint is deleted before its replacement is in place'
EDITS = [('pocomc/sampler.py', '        os.rename(temp_path, path)\n', '        if Path(path).exists():\n            Path(path).unlink()  # a rename onto an existing file fails on Windows\n        os.rename(temp_path, path)\n')]
DEMO = '''
import os, tempfile, numpy as np, pocomc as pc
from scipy.stats import norm
with tempfile.TemporaryDirectory() as d:
    s = pc.Sampler(pc.Prior([norm(0, 1)] * 2), lambda x: -0.5 * float(np.sum(x ** 2)), n_effective=32, n_active=16, random_state=0)
    path = os.path.join(d, 'a.state')
    s.save_state(path)
    old = open(path, 'rb').read()
    def crash(*a, **k):
        raise KeyboardInterrupt
    os.rename = os.replace = crash
    try:
        s.save_state(path)
    except KeyboardInterrupt:
        pass
    assert os.path.exists(path) and open(path, 'rb').read() == old
'''
