prop = 'P03'
needs = 'three or more objectives and points that tie in a projection'
breaks = 'ties in the projected objectives no longer count as domination in the divide-and-conquer step'
edits = [('hvd/utils.py', 'if is_dominate(lv, hv) or lv == hv:', 'if is_dominate(lv, hv):')]
# ---- demo
import numpy as np
from hvd.utils import non_domin_sort
rng = np.random.RandomState(0)
for t in range(300):
    P = rng.randint(0, 3, (8, 3 + t % 2)).astype(float)
    n = len(P); rank = [0] * n
    dom = lambda a, b: np.all(a <= b) and np.any(a < b)
    for _ in range(n):
        for i in range(n):
            rank[i] = max([rank[k] + 1 for k in range(n) if dom(P[k], P[i])], default=0)
    F = non_domin_sort(P, only_front_indices=True)
    got = [None] * n
    for k, v in F.items():
        for i in v: got[i] = k
    assert got == rank, (P, got, rank)
