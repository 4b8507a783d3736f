prop = 'P02'
needs = 'maximisation with a non-linear objective'
breaks = 'the callback Hessian is not negated for maximisation, so the decision-space Hessian is wrong'
edits = [('hvd/hypervolume_derivatives.py', 'self.hessian = hessian if minimization else lambda x: -1 * hessian(x)', 'self.hessian = hessian')]
# ---- demo
import numpy as np
from hvd.hypervolume_derivatives import HypervolumeDerivatives
f = lambda x: np.array([x[0] ** 2 + x[1], np.sin(x[0]) - x[1] ** 2])
j = lambda x: np.array([[2 * x[0], 1.0], [np.cos(x[0]), -2 * x[1]]])
h = lambda x: np.array([[[2.0, 0], [0, 0]], [[-np.sin(x[0]), 0], [0, -2.0]]])
X = np.array([[0.1, 0.9], [0.9, 0.6], [0.3, 0.3]])
hv = HypervolumeDerivatives(2, 2, np.array([-5.0, -5.0]), f, j, h, minimization=False)
_, H = hv.compute_derivatives(X)
e = 1e-6
for k in range(6):
    d = np.zeros(6); d[k] = e
    g1 = hv.compute_derivatives(X + d.reshape(3, 2), compute_hessian=False).ravel()
    g0 = hv.compute_derivatives(X - d.reshape(3, 2), compute_hessian=False).ravel()
    assert np.allclose((g1 - g0) / (2 * e), H[:, k], atol=1e-5), (k, (g1 - g0) / (2 * e), H[:, k])
