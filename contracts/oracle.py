"""independent reference computations used by the concrete contract evaluation"""
import itertools
import numpy as np


def hv(points, ref):
    """Lebesgue measure of the union of boxes [p, ref] by slicing; exact for integer input"""
    d = len(ref)
    pts = sorted({tuple(p) for p in points if all(a < b for a, b in zip(p, ref))})
    return _hv(pts, tuple(ref), d)


def _hv(pts, ref, d):
    if not pts:
        return 0
    if d == 1:
        return ref[0] - min(p[0] for p in pts)
    if d == 2:
        best, r = ref[1], 0
        for x, y in sorted(pts):
            if y < best:
                r += (ref[0] - x) * (best - y)
                best = y
        return r
    zs = sorted({p[-1] for p in pts})
    r = 0
    for k, z in enumerate(zs):
        up = zs[k + 1] if k + 1 < len(zs) else ref[-1]
        sl = {p[:-1] for p in pts if p[-1] <= z}
        sl = [p for p in sl if not any(q != p and all(a <= b for a, b in zip(q, p)) for q in sl)]
        r += (up - z) * _hv(sl, ref[:-1], d - 1)
    return r


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def ranks(Y):
    """length of the longest chain of dominating points"""
    n = len(Y)
    D = [[j for j in range(n) if dominates(Y[j], Y[i])] for i in range(n)]
    memo = {}

    def rk(i):
        if i not in memo:
            memo[i] = 1 + max([rk(j) for j in D[i]], default=-1)
        return memo[i]
    return [rk(i) for i in range(n)]


def points(rng, n, d, ref_hi=12, ties=True):
    """integer points with a selectable degree of degeneracy; returns (points, ref, tag)"""
    kind = rng.choice(["perm", "grid", "front", "mixed", "layers"]) if ties else "perm"
    if kind == "perm":
        Y = np.stack([rng.permutation(n) + 1 for _ in range(d)], 1)
        ref = np.full(d, n + 2) if rng.rand() < .5 else rng.randint(n // 2 + 1, n + 3, d)
    elif kind == "grid":
        m = rng.randint(2, 5)
        Y = rng.randint(0, m, (n, d))
        ref = rng.randint(1, m + 2, d)
    elif kind == "front":
        # points on a common antichain sum = const
        Y = rng.multinomial(8, np.ones(d) / d, n)
        ref = rng.randint(4, 10, d)
    elif kind == "layers":
        Y = rng.multinomial(6, np.ones(d) / d, n) + rng.randint(0, 3, (n, 1))
        ref = rng.randint(5, 11, d)
    else:
        Y = np.stack([rng.permutation(n) for _ in range(d)], 1)
        if n > 1:
            for _ in range(rng.randint(1, n)):
                i, j = rng.randint(n, size=2)
                if rng.rand() < .5:
                    Y[i] = Y[j]
                else:
                    k = rng.randint(d)
                    Y[i, k] = Y[j, k]
        ref = rng.randint(1, n + 2, d)
    return Y.astype(int), np.asarray(ref).astype(int), kind
