prop = 'P16'
needs = 'a component with several points that share the first objective'
breaks = 'points with equal first objective are dropped from the polyline'
edits = [('hvd/rsg.py', 'keep[1:] = np.any(np.diff(P, axis=0) != 0, axis=1)', 'keep[1:] = np.diff(P[:, 0]) != 0')]
# ---- demo
import numpy as np
from hvd.rsg import interpolate_tst
P = np.array([[0.0, 1.0], [0.0, 0.5], [0.5, 0.2]])
I = interpolate_tst(P, 5)
assert np.allclose(I[-1], P[-1])
L = 0.5 + np.hypot(0.5, 0.3)
assert np.allclose(I[1], [0.0, 1.0 - L / 4]), I
