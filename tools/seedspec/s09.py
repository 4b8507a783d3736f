prop = 'P09'
needs = 'bounds that differ between the variables and at least two points'
breaks = 'the distances to the bounds are paired with the wrong variables'
edits = [('hvd/newton.py', 'np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())', 'np.abs(X.ravel() - np.repeat(self.xl, N)), np.abs(np.repeat(self.xu, N) - X.ravel())')]
# ---- demo
import numpy as np
from hvd.newton import HVN
f = lambda x: np.array([x @ x, (x - 1) @ (x - 1)])
j = lambda x: np.array([2 * x, 2 * (x - 1)])
h = lambda x: np.array([2 * np.eye(2), 2 * np.eye(2)])
lo, up = np.array([0.0, -5.0]), np.array([1.0, 5.0])
X0 = np.array([[0.2, 0.3], [0.6, 0.8]])
opt = HVN(2, 2, f, j, h, np.array([20.0, 20.0]), lo, up, X0=X0, verbose=False, limit_max_step_size=True)
step = np.array([[0.1, 1.0], [0.2, 0.1]])
X0 = np.array([[0.2, 0.3], [0.6, 0.8]])
a = opt._compute_max_step_size(X0, step)
t = np.where(step > 0, (up - X0) / step, (lo - X0) / step).min()
assert abs(a - min(1, 0.25 * t)) < 1e-9, (a, 0.25 * t)
