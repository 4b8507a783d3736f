prop = 'P10'
needs = 'an indefinite Hessian that is used again by the caller'
breaks = 'the shift is added to the diagonal of the argument'
edits = [('hvd/utils.py', '                L = cholesky(H + tau * I, lower=True)\n', '                H.flat[:: H.shape[0] + 1] += tau\n                L = cholesky(H, lower=True)\n')]
# ---- demo
import numpy as np
from hvd.utils import precondition_hessian
H = np.array([[1.0, 2.0], [2.0, -3.0]]); H0 = H.copy()
P = precondition_hessian(H)
assert np.linalg.eigvalsh(P).min() > 0
assert np.array_equal(H, H0), H
