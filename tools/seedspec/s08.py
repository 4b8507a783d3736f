prop = 'P08'
needs = 'a merit function that first rises and then falls back without a decrease'
breaks = 'a trial is accepted when it decreases with respect to the previous trial instead of the start'
edits = [('hvd/line_search.py', 'success = phi[-1] <= (1 - c1 * s[-1]) * phi[0] or', 'success = phi[-1] <= (1 - c1 * s[-1]) * phi[-2] or')]
# ---- demo
import numpy as np
from hvd.line_search import backtracking_line_search as bt
seen = []
def phi(a):
    seen.append(a)
    return 1.0 + a if a > 0.1 else 0.5
a = bt(np.array([[1.0]]), phi, 1)
assert phi(a) <= (1 - 1e-5 * a) * 1.0 or len(seen) >= 6, (a, seen)
