prop = 'P18'
needs = 'an equality constraint violated on its negative side'
breaks = 'points with a negative equality residual are reported feasible'
edits = [('hvd/base.py', 'eq_feasible = np.all(np.isclose(self.H, 0, atol=1e-4, rtol=0), axis=1)', 'eq_feasible = np.all(self.H <= 1e-4, axis=1)')]
# ---- demo
import numpy as np
from hvd.base import State
f = lambda x: np.array([x @ x, (x - 1) @ (x - 1)])
j = lambda x: np.array([2 * x, 2 * (x - 1)])
s = State(2, 1, 0, f, j, h=lambda x: np.array([x[0] + x[1] - 1]), h_jac=lambda x: np.ones((1, 2)))
s.update(np.array([[0.5, 0.5, 0.0], [0.9, 0.9, 0.0], [0.1, 0.1, 0.0]]))
assert s.is_feasible().tolist() == [True, False, False], s.is_feasible()
