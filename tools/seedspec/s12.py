prop = 'P12'
needs = 'duplicated start points'
breaks = 'every copy of a duplicated point is removed, none is kept'
edits = [('hvd/newton.py', '            if i not in drop_idx_X:\n                drop_idx_X |= set(np', '            if len(drop_idx_X) < self.N:\n                drop_idx_X |= set(np')]
# ---- demo
import numpy as np
from hvd.newton import HVN
f = lambda x: np.array([x @ x, (x - 1) @ (x - 1)])
j = lambda x: np.array([2 * x, 2 * (x - 1)])
h = lambda x: np.array([2 * np.eye(2), 2 * np.eye(2)])
X0 = np.array([[0.2, 0.3], [0.6, 0.7], [0.2, 0.3]])
opt = HVN(2, 2, f, j, h, np.array([20.0, 20.0]), 0.0, 1.0, X0=X0, max_iters=1, verbose=False)
X, Y, _ = opt.run()
assert len(X) == 2, X
