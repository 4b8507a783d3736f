prop = 'P07'
needs = 'an inactive constraint whose multiplier is not zero (a constraint left after being active)'
breaks = 'the Lagrangian curvature includes the multipliers of inactive constraints'
edits = [('hvd/newton.py', 'S = [np.einsum("i...,i", state.cstr_hess[i, k], state.dual[i, k]) for i, k in enumerate(idx)]', 'S = [np.einsum("i...,i", state.cstr_hess[i], state.dual[i]) for i in range(len(idx))]')]
# ---- demo
import numpy as np
from hvd.newton import DpN
from hvd.reference_set import ReferenceSet
f = lambda x: np.array([x @ x, (x - 1) @ (x - 1)])
j = lambda x: np.array([2 * x, 2 * (x - 1)])
h = lambda x: np.array([2 * np.eye(2), 2 * np.eye(2)])
g = lambda x: np.array([x @ x - 0.5])
gj = lambda x: (2 * x).reshape(1, -1)
gh = lambda x: 2 * np.eye(2)[None]
X0 = np.array([[0.2, 0.3], [0.6, 0.8]])
opt = DpN(2, 2, f, j, h, ReferenceSet(np.array([[0.1, 1.2], [1.2, 0.1]])), 0.0, 1.0, type="igd", g=g, g_jac=gj, g_hessian=gh, x0=X0, max_iters=2, verbose=False)
opt.state.update(np.c_[X0, [[0.7], [0.4]]])
opt._compute_indicator_value(opt.state.Y)
step, R = opt._compute_netwon_step(opt.state)
G, H = opt.active_indicator.compute_derivatives(X=opt.state.primal, Y=opt.state.Y, Jacobian=opt.state.J)
assert not opt.state.active_indices[0, 0]
assert np.allclose(H[0] @ step[0, :2], -G[0]), (H[0] @ step[0, :2], -G[0])
