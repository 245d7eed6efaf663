PROPERTY = 'C27'
NEEDS = 'more than 4096 draws requested from the flow at once'
BREAKS = 'large samples are drawn in two halves whose log-densities are returned in the wrong order'
EDITS = [('pocomc/flow.py', "        x, log_p = self.flow().rsample_and_log_prob((size,))\n        return x, log_p", "        if size <= 4096:\n            return self.flow().rsample_and_log_prob((size,))\n        # Draw in two parts to limit the memory\n        a, log_a = self.flow().rsample_and_log_prob((size // 2,))\n        b, log_b = self.flow().rsample_and_log_prob((size - size // 2,))\n        return torch.cat([a, b]), torch.cat([log_b, log_a])")]
DEMO = '''
import torch
from pocomc.flow import Flow
torch.manual_seed(0)
f = Flow(2)
with torch.no_grad():
    x, lp = f.sample(5000)
    assert torch.allclose(lp, f.log_prob(x), atol=1e-2), (lp - f.log_prob(x)).abs().max()
'''
