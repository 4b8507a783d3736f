prop = 'P01'
needs = 'a point worse than the reference point in every objective that is listed before other points'
breaks = 'the scan of the points ends at the first point that lies beyond the reference point in all objectives'
edits = [('hvd/hypervolume.py', '            if weaklyDominates(point, referencePoint):\n                relevantPoints.append(point)', '            if weaklyDominates(point, referencePoint):\n                relevantPoints.append(point)\n            elif min(point) > max(referencePoint):\n                break')]
# ---- demo
import numpy as np
from hvd.hypervolume import hypervolume
P = [[0.5, 0.5], [2.0, 2.0], [0.2, 0.8]]
ref = np.array([1.0, 1.0])
v = hypervolume(np.array(P), ref)
for Q in (P[::-1], P[1:] + P[:1], P[:2]):
    w = hypervolume(np.array(Q), ref)
    e = v if len(Q) == 3 else 0.25
    assert abs(w - e) < 1e-12, (Q, w, e)
assert abs(v - (0.25 + 0.3 * 0.2)) < 1e-12, v
