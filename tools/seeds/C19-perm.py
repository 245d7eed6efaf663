PROPERTY = 'C19'
NEEDS = 'training with shuffling and unequal weights'
BREAKS = 'weights are permuted by the inverse of the permutation of their samples'
EDITS = [('pocomc/flow.py', 'weights = weights[rand_indx]', 'weights = weights[torch.argsort(rand_indx)]')]
DEMO = '''
import torch, pocomc.flow as fl
seen = []
real = fl.TensorDataset
def spy(*a):
    seen.append(a)
    return real(*a)
fl.TensorDataset = spy
torch.manual_seed(0)
x = torch.randn(40, 2)
w = x[:, 0] ** 2 + 0.1
fl.Flow(2).fit(x, weights=w, validation_split=0.5, epochs=1, batch_size=10)
assert seen
for a, b in seen:
    assert torch.allclose(b, a[:, 0] ** 2 + 0.1)
'''
