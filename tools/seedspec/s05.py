prop = 'P05'
needs = 'the same IGD object evaluated at two sets, where a point loses all its reference points'
breaks = 'the per-point count of reference points is kept from the previous call'
edits = [('hvd/delta_p.py', '        self.m = np.zeros((N, 1))\n', '        if len(getattr(self, "m", [])) != N:\n            self.m = np.zeros((N, 1))\n')]
# ---- demo
import numpy as np
from hvd.delta_p import InvertedGenerationalDistance as I
R = np.array([[0.0, 1.0], [1.0, 0.0]])
f, j, h = lambda x: x.copy(), lambda x: np.eye(2), lambda x: np.zeros((2, 2, 2))
mk = lambda: I(R, f, j, h)
a = mk()
X1 = np.array([[0.1, 1.0], [1.0, 0.1]]); X2 = np.array([[0.5, 0.5], [3.0, 3.0]])
a.compute_derivatives(X1)
g, H = a.compute_derivatives(X2)
g0, H0 = mk().compute_derivatives(X2)
assert np.allclose(g, g0) and np.allclose(H, H0), (g, g0)
