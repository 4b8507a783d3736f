prop = 'P06'
needs = 'approximation and reference sets of different sizes'
breaks = 'the curvature of the cross term is averaged over the wrong number of pairs'
edits = [('hvd/mmd.py', '                - yr_dx2.sum(axis=1) / (N * M)\n', '                - yr_dx2.mean(axis=1) / M\n')]
# ---- demo
import numpy as np
from hvd.mmd import MMD
rng = np.random.RandomState(0)
R = rng.rand(6, 2); X = rng.rand(4, 2)
m = MMD(2, 2, R, theta=2.0)
_, H = m.compute_derivatives(X)
e = 1e-6
for k in range(8):
    d = np.zeros(8); d[k] = e; d = d.reshape(4, 2)
    c = (m.compute_derivatives(X + d, compute_hessian=False) - m.compute_derivatives(X - d, compute_hessian=False)).ravel() / (2 * e)
    assert np.allclose(c, H[:, k], atol=1e-6), (k, c, H[:, k])
