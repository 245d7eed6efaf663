PROPERTY = 'C27'
NEEDS = 'a flow trained with both a Laplace and a Gaussian scale'
BREAKS = 'with both scales given only the Gaussian part of the penalty is used'
EDITS = [('pocomc/flow.py', "    if gaussian_scale is not None:\n        total += - total", "    if gaussian_scale is not None:\n        total = - total")]
DEMO = '''
import torch
from pocomc.flow import Flow, regularization_loss
torch.manual_seed(0)
f = Flow(3).flow
l = float(regularization_loss(f, 2.0, None).detach())
g = float(regularization_loss(f, None, 3.0).detach())
b = float(regularization_loss(f, 2.0, 3.0).detach())
assert abs(l + g - b) <= 1e-4 * abs(b), (l, g, b)
'''
