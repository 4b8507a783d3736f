prop = 'P04'
needs = 'an update without derivatives followed by an update at the same points'
breaks = 'the update is skipped when the points did not move, although derivatives were not computed last time'
edits = [('hvd/base.py', '        self.X = np.asarray(X).copy()\n        self.Y = self.evaluate(self.func, self.primal)\n', '        X = np.asarray(X)\n        if hasattr(self, "X") and np.array_equal(self.X, X):\n            return\n        self.X = X.copy()\n        self.Y = self.evaluate(self.func, self.primal)\n')]
# ---- demo
import numpy as np
from hvd.base import State
f = lambda x: np.array([x @ x, (x - 1) @ (x - 1)])
j = lambda x: np.array([2 * x, 2 * (x - 1)])
s = State(2, 0, 0, f, j)
X = np.array([[0.1, 0.2], [0.5, 0.7]])
s.update(X, compute_gradient=False)
s.update(X)
assert s.J is not None and np.allclose(s.J, [j(x) for x in X])
