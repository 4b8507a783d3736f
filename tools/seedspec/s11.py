prop = 'P11'
needs = 'several components whose order differs from that of the clusters matched to them'
breaks = "the component of a matched medoid is recorded as the index of the cluster, so the shift uses another component's direction"
edits = [('hvd/reference_set.py', 'self._medoids_idx[j] = (k, i)', 'self._medoids_idx[j] = (v, i)')]
# ---- demo
import numpy as np
from hvd.reference_set import ReferenceSet
A = np.array([[0.0, 1.0], [0.1, 0.9]]); B = np.array([[5.0, 0.2], [5.1, 0.1]])
eta = {0: np.array([-1.0, 0.0]), 1: np.array([0.0, -1.0])}
r = ReferenceSet({0: A, 1: B}, eta=eta, Y_idx=[np.array([0, 1]), np.array([2, 3])])
Y = np.vstack([B + 0.05, A + 0.05])
r.match(Y)
before = r.reference_set.copy()
r.shift(0.1, np.array([0]))
d = r.reference_set - before
assert np.allclose(d[0], 0.1 * eta[1]) and np.allclose(d[1:], 0), d
