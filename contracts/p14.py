"""P14: benchmark definitions. The formulas below are written from the publications (1-based indices, explicit loops)."""
import math
import numpy as np
from pyvc.check import Fail, Skip

pi, sin, cos, exp, sqrt = math.pi, math.sin, math.cos, math.exp, math.sqrt


# ------------------------------------------------------------------ ZDT (Zitzler, Deb, Thiele 2000)
def zdt(name):
    def f(x):
        n = len(x)
        s = sum(x[1:])
        g = {"ZDT4": 1 + 10 * (n - 1) + sum(v * v - 10 * cos(4 * pi * v) for v in x[1:]),
             "ZDT6": 1 + 9 * (s / (n - 1)) ** .25}.get(name, 1 + 9 * s / (n - 1))
        f1 = 1 - exp(-4 * x[0]) * sin(6 * pi * x[0]) ** 6 if name == "ZDT6" else x[0]
        r = f1 / g
        h = {"ZDT1": 1 - sqrt(r), "ZDT2": 1 - r ** 2, "ZDT3": 1 - sqrt(r) - r * sin(10 * pi * f1), "ZDT4": 1 - sqrt(r), "ZDT6": 1 - r ** 2}[name]
        return [f1, g * h]
    return f


# ------------------------------------------------------------------ DTLZ (Deb, Thiele, Laumanns, Zitzler 2005)
def dtlz(k, M, inverted=False):
    def f(x):
        n = len(x)
        xm = x[M - 1:]
        K = n - M + 1
        if k in (1, 3):
            g = 100 * (K + sum((v - .5) ** 2 - cos(20 * pi * (v - .5)) for v in xm))
        elif k in (2, 4, 5):
            g = sum((v - .5) ** 2 for v in xm)
        elif k == 6:
            g = sum(abs(v) ** .1 for v in xm)
        else:
            g = 1 + 9 / K * sum(xm)
        if k == 7:
            F = list(x[:M - 1])
            return F + [(1 + g) * (M - sum(v / (1 + g) * (1 + sin(3 * pi * v)) for v in F))]
        if k == 1:
            F = []
            for m in range(1, M + 1):
                p = .5 * (1 + g)
                for j in range(M - m):
                    p *= x[j]
                if m > 1:
                    p *= 1 - x[M - m]
                F.append(p)
        else:
            th = [v * pi / 2 for v in x[:M - 1]]
            if k == 4:
                th = [v ** 100 * pi / 2 for v in x[:M - 1]]
            if k in (5, 6):
                th = [th[0]] + [pi / (4 * (1 + g)) * (1 + 2 * g * v) for v in x[1:M - 1]] if M > 1 else th
            F = []
            for m in range(1, M + 1):
                p = 1 + g
                for j in range(M - m):
                    p *= cos(th[j])
                if m > 1:
                    p *= sin(th[M - m])
                F.append(p)
        return [(1 + g) / 2 - v for v in F] if inverted else F
    return f


def eq1(M):
    return lambda x: [abs(sum((v - .5) ** 2 for v in x[:M - 1]) - .16) - 1e-4]


# ------------------------------------------------------------------ UF / CF (Zhang et al., CEC 2009)
def J(n, r, m, start):
    return [j for j in range(start, n + 1) if j % m == r]


def quad_cos(y):
    return 4 * sum(v ** 2 for _, v in y) - 2 * np.prod([cos(20 * v * pi / sqrt(j)) for j, v in y]) + 2


def uf(k):
    def f(x):
        n = len(x)
        X = lambda j: x[j - 1]
        x1 = X(1)
        if k <= 7:
            J1, J2 = J(n, 1, 2, 3), J(n, 0, 2, 2)
            sy = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            if k in (1, 7):
                p = [2 / len(S) * sum(sy(j) ** 2 for j in S) for S in (J1, J2)]
                return [x1 + p[0], 1 - sqrt(x1) + p[1]] if k == 1 else [x1 ** .2 + p[0], 1 - x1 ** .2 + p[1]]
            if k == 2:
                e = lambda j: .3 * x1 ** 2 * cos(24 * pi * x1 + 4 * j * pi / n) + .6 * x1
                y1 = [X(j) - e(j) * cos(6 * pi * x1 + j * pi / n) for j in J1]
                y2 = [X(j) - e(j) * sin(6 * pi * x1 + j * pi / n) for j in J2]
                return [x1 + 2 / len(J1) * sum(v * v for v in y1), 1 - sqrt(x1) + 2 / len(J2) * sum(v * v for v in y2)]
            if k == 3:
                y = lambda S: [(j, X(j) - x1 ** (.5 * (1 + 3 * (j - 2) / (n - 2)))) for j in S]
                return [x1 + 2 / len(J1) * quad_cos(y(J1)), 1 - sqrt(x1) + 2 / len(J2) * quad_cos(y(J2))]
            if k == 4:
                h = lambda t: abs(t) / (1 + exp(2 * abs(t)))
                p = [2 / len(S) * sum(h(sy(j)) for j in S) for S in (J1, J2)]
                return [x1 + p[0], 1 - x1 ** 2 + p[1]]
            if k == 5:
                h = lambda t: 2 * t * t - cos(4 * pi * t) + 1
                c = (1 / 20 + .1) * abs(sin(20 * pi * x1))
                p = [2 / len(S) * sum(h(sy(j)) for j in S) for S in (J1, J2)]
                return [x1 + c + p[0], 1 - x1 + c + p[1]]
            c = max(0, 2 * (1 / 4 + .1) * sin(4 * pi * x1))
            p = [2 / len(S) * quad_cos([(j, sy(j)) for j in S]) for S in (J1, J2)]
            return [x1 + c + p[0], 1 - x1 + c + p[1]]
        x2 = X(2)
        Js = [J(n, 1, 3, 3), J(n, 2, 3, 3), J(n, 0, 3, 3)]
        y = lambda j: X(j) - 2 * x2 * sin(2 * pi * x1 + j * pi / n)
        h = (lambda t: 4 * t * t - cos(8 * pi * t) + 1) if k == 10 else (lambda t: t * t)
        p = [2 / len(S) * sum(h(y(j)) for j in S) for S in Js]
        if k in (8, 10):
            b = [cos(.5 * x1 * pi) * cos(.5 * x2 * pi), cos(.5 * x1 * pi) * sin(.5 * x2 * pi), sin(.5 * x1 * pi)]
        else:
            m = max(0, 1.1 * (1 - 4 * (2 * x1 - 1) ** 2))
            b = [.5 * (m + 2 * x1) * x2, .5 * (m - 2 * x1 + 2) * x2, 1 - x2]
        return [u + v for u, v in zip(b, p)]
    return f


def cf(k):
    """objectives; the constraints are returned in the code's orientation (<= 0 feasible) by cfc"""
    def f(x):
        n = len(x)
        X = lambda j: x[j - 1]
        x1 = X(1)
        J1, J2 = J(n, 1, 2, 3), J(n, 0, 2, 2)
        if k == 1:
            y = lambda j: X(j) - x1 ** (.5 * (1 + 3 * (j - 2) / (n - 2)))
            p = [2 / len(S) * sum(y(j) ** 2 for j in S) for S in (J1, J2)]
            return [x1 + p[0], 1 - x1 + p[1]]
        if k == 2:
            return [x1 + 2 / len(J1) * sum((X(j) - sin(6 * pi * x1 + j * pi / n)) ** 2 for j in J1),
                    1 - sqrt(x1) + 2 / len(J2) * sum((X(j) - cos(6 * pi * x1 + j * pi / n)) ** 2 for j in J2)]
        if k == 3:
            y = lambda S: [(j, X(j) - sin(6 * pi * x1 + j * pi / n)) for j in S]
            return [x1 + 2 / len(J1) * quad_cos(y(J1)), 1 - x1 ** 2 + 2 / len(J2) * quad_cos(y(J2))]
        kink = 3 / 2 * (1 - sqrt(2) / 2)
        h2 = lambda t: abs(t) if t < kink else .125 + (t - 1) ** 2
        if k == 4:
            y = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            return [x1 + sum(y(j) ** 2 for j in J1), 1 - x1 + sum(h2(y(j)) if j == 2 else y(j) ** 2 for j in J2)]
        if k in (5, 6):
            y1 = lambda j: X(j) - .8 * x1 * cos(6 * pi * x1 + j * pi / n)
            y2 = lambda j: X(j) - .8 * x1 * sin(6 * pi * x1 + j * pi / n)
        else:
            y1 = lambda j: X(j) - cos(6 * pi * x1 + j * pi / n)
            y2 = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
        h = lambda t: 2 * t * t - cos(4 * pi * t) + 1
        if k == 5:
            return [x1 + sum(h(y1(j)) for j in J1), 1 - x1 + sum(h2(y2(j)) if j == 2 else h(y2(j)) for j in J2)]
        if k == 6:
            return [x1 + sum(y1(j) ** 2 for j in J1), (1 - x1) ** 2 + sum(y2(j) ** 2 for j in J2)]
        return [x1 + sum(h(y1(j)) for j in J1), (1 - x1) ** 2 + sum(y2(j) ** 2 if j in (2, 4) else h(y2(j)) for j in J2)]
    if k == 8 or k == 9:
        return uf(8)
    if k == 10:
        return uf(10)
    return f


def cfc(k):
    sgn = lambda v: (v > 0) - (v < 0)

    def c(x):
        n = len(x)
        x1, x2 = x[0], x[1]
        F = cf(k)(x)
        if k == 1:
            return [-(F[0] + F[1] - abs(sin(10 * pi * (F[0] - F[1] + 1))) - 1)]
        if k == 2:
            t = F[1] + sqrt(F[0]) - sin(2 * pi * (sqrt(F[0]) - F[1] + 1)) - 1
            return [-t / (1 + exp(min(700, 4 * abs(t))))]
        if k == 3:
            return [-(F[1] + F[0] ** 2 - sin(2 * pi * (F[0] ** 2 - F[1] + 1)) - 1)]
        if k == 4:
            t = x2 - sin(6 * pi * x1 + 2 * pi / n) - .5 * x1 + .25
            return [-t / (1 + exp(4 * abs(t)))]
        if k == 5:
            return [-(x2 - .8 * x1 * sin(6 * pi * x1 + 2 * pi / n) - .5 * x1 + .25)]
        if k in (6, 7):
            a = .8 * x1 if k == 6 else 1.0
            u = .5 * (1 - x1) - (1 - x1) ** 2
            v = .25 * sqrt(1 - x1) - .5 * (1 - x1)
            return [-(x2 - a * sin(6 * pi * x1 + 2 * pi / n) - sgn(u) * sqrt(abs(u))),
                    -(x[3] - a * sin(6 * pi * x1 + 4 * pi / n) - sgn(v) * sqrt(abs(v)))]
        q = (F[0] ** 2 + F[1] ** 2) / (1 - F[2] ** 2)
        d = (F[0] ** 2 - F[1] ** 2) / (1 - F[2] ** 2) + 1
        if k == 8:
            return [-(q - 4 * abs(sin(2 * pi * d)) - 1)]
        a = 3 if k == 9 else 1
        return [-(q - a * sin(2 * pi * d) - 1)]
    return c


# ------------------------------------------------------------------ convex problems and DENT
def conv(name):
    def f(x):
        x = np.asarray(x, float)
        if name == "CONV3":
            C = [-np.ones(3), np.ones(3), np.array([-1., -1., 1.])]
            return [float(((x - c) ** 2).sum()) for c in C]
        if name == "CONV4":
            return [float(((x - e) ** 2).sum()) for e in np.eye(4)]
        if name == "CONV4_2F":
            d = np.array([2., 2, 2, 0]) - np.array([0., 2, 2, 2])
            if (x < 0).all():
                return [float(((x + 1 - np.eye(4)[i]) ** 2).sum() - 3.5 * d[i]) for i in range(4)]
            return [float(((x - e) ** 2).sum()) for e in np.eye(4)]
        t = sqrt(1 + (x[0] + x[1]) ** 2) + sqrt(1 + (x[0] - x[1]) ** 2)
        e = .85 * exp(-(x[0] - x[1]) ** 2)
        return [.5 * (t + x[0] - x[1]) + e, .5 * (t - x[0] + x[1]) + e]
    return f


# ------------------------------------------------------------------ front equations: residual 0 on the published front
def front_residual(name, M):
    def z3(F):
        reg = [(0, .0830015349), (.182228780, .2577623634), (.4093136748, .4538821041), (.6183967944, .6525117038), (.8233317983, .8518328654)]
        gap = max(0, min(max(a - F[0], F[0] - b, 0) for a, b in reg))
        return max(gap, abs(F[1] - (1 - sqrt(max(F[0], 0)) - F[0] * sin(10 * pi * F[0]))))

    def seg(F, pieces, fun):
        gap = min(max(a - F[0], F[0] - b, 0) for a, b in pieces)
        return max(gap, abs(F[1] - fun(F[0])))

    def sph(F):
        return max(abs(sum(v * v for v in F) - 1), max(0, -min(F)))

    def cf9(F):
        t = 1 - F[2] ** 2
        a = F[0]
        gap = 0 if t < 1e-9 else min(a, max(sqrt(t / 4) - a, a - sqrt(t / 2), 0), max(sqrt(3 * t / 4) - a, a - sqrt(t), 0))
        return max(sph(F), gap - 1.1e-5)

    def cf8(F):
        t = 1 - F[2] ** 2
        return max(sph(F), 0 if t < 1e-9 else min(abs(F[0] - sqrt(i * t / 4)) for i in range(5)))

    def cf45(F):
        f = F[0]
        return abs(F[1] - (1 - f if f <= .5 else -.5 * f + .75 if f <= .75 else 1 - f + .125)) + max(0, -f, f - 1)

    def cf67(F):
        f = F[0]
        return abs(F[1] - ((1 - f) ** 2 if f <= .5 else .5 * (1 - f) if f <= .75 else .25 * sqrt(max(0, 1 - f)))) + max(0, -f, f - 1)

    def d7(F):
        if not all(-1e-9 <= v <= .2514118360889171 + 1e-7 or .6316265307000614 - 1e-7 <= v <= .8594008566447239 + 1e-7 for v in F[:-1]):
            return 1.0
        return abs(F[-1] - (2 * M - sum(v * (1 + sin(3 * pi * v)) for v in F[:-1])))

    def wfg(F):
        k = int(name[3:])
        h = [v / (2 * (i + 1)) for i, v in enumerate(F)]
        if k == 3:
            return max(abs(sum(h) - 1), -min(h))
        if k >= 4:
            return max(abs(sum(v * v for v in h) - 1), -min(h))
        if M > 3:
            return 0.0
        c = h[0] if M == 2 else h[0] + h[1] + sqrt(max(0, 2 * h[0] * h[1]))
        x1 = math.acos(max(-1, min(1, 1 - c))) * 2 / pi
        e = 1 - x1 - cos(10 * pi * x1 + pi / 2) / (10 * pi) if k == 1 else 1 - x1 * cos(5 * pi * x1) ** 2
        return max(abs(h[-1] - e) * (1e-2 if c < 1e-9 else 1), c - 1)  # acos loses half of the digits at 0

    one = [(0, 1)]
    T = {
        "ZDT1": lambda F: seg(F, one, lambda f: 1 - sqrt(f)), "ZDT4": lambda F: seg(F, one, lambda f: 1 - sqrt(f)),
        "ZDT2": lambda F: seg(F, one, lambda f: 1 - f * f), "ZDT6": lambda F: seg(F, [(.2807753191, 1)], lambda f: 1 - f * f), "ZDT3": z3,
        "DTLZ1": lambda F: max(abs(sum(F) - .5), -min(F)), "IDTLZ1": lambda F: max(abs(sum(.5 - v for v in F) - .5), max(F) - .5),
        "DTLZ7": d7,
        "UF1": lambda F: seg(F, one, lambda f: 1 - sqrt(f)), "UF4": lambda F: seg(F, one, lambda f: 1 - f * f),
        "UF5": lambda F: max(abs(F[0] * 20 - round(F[0] * 20)), abs(F[0] + F[1] - 1)),
        "UF6": lambda F: seg(F, [(0, 0), (.25, .5), (.75, 1)], lambda f: 1 - f), "UF7": lambda F: seg(F, one, lambda f: 1 - f),
        "UF8": sph, "UF10": sph,
        "UF9": lambda F: max(abs(sum(F) - 1), -min(F), min(F[0] - (1 - F[2]) / 4, (1 - F[2]) * 3 / 4 - F[0])),
        "CF1": lambda F: max(abs(F[0] * 20 - round(F[0] * 20)), abs(F[0] + F[1] - 1)),
        "CF2": lambda F: seg(F, [(0, 0), (1 / 16, 4 / 16), (9 / 16, 1)], lambda f: 1 - sqrt(f)),
        "CF3": lambda F: seg(F, [(0, 0), (.5, sqrt(.5)), (sqrt(.75), 1)], lambda f: 1 - f * f),
        "CF4": cf45, "CF5": cf45, "CF6": cf67, "CF7": cf67, "CF8": cf8, "CF9": cf9, "CF10": cf9,
        "DTLZ5": lambda F: max(sph(F), max([abs(F[i] - F[0]) for i in range(1, M - 2)] + [abs(F[0] - F[1]) if M >= 3 else 0])) if M == 3 else sph(F),
    }
    T["UF2"] = T["UF3"] = T["UF1"]
    T["DTLZ6"] = T["DTLZ5"]
    for k in (2, 3, 4):
        T[f"DTLZ{k}"] = sph
        T[f"IDTLZ{k}"] = lambda F: sph([.5 - v for v in F])
    if name.startswith("WFG"):
        return wfg
    if name.startswith("Eq1"):
        return T.get(name[3:])
    return T.get(name)


def spec(name, n, M):
    """objective, ieq (or None), eq (or None)"""
    if name.startswith("ZDT"):
        return zdt(name), None, None
    if "DTLZ" in name:
        k = int(name[-1])
        return dtlz(k, M, "IDTLZ" in name), None, eq1(M) if name.startswith("Eq1") else None
    if name.startswith("UF"):
        return uf(int(name[2:])), None, None
    if name.startswith("CF"):
        return cf(int(name[2:])), cfc(int(name[2:])), None
    return conv(name), None, None


ZDTS = ["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"]
DTLZS = [f"DTLZ{k}" for k in range(1, 8)]
EQ = [f"{a}DTLZ{k}" for a in ("I", "Eq1", "Eq1I") for k in range(1, 5)]
UFS = [f"UF{k}" for k in range(1, 11)]
CFS = [f"CF{k}" for k in range(1, 11)]
CONVS = ["CONV3", "CONV4", "CONV4_2F", "DENT"]
WFGS = [f"WFG{k}" for k in range(1, 10)]


def sizes(name, rng):
    if name in CONVS:
        return {"CONV3": (3, 3), "DENT": (2, 2)}.get(name, (4, 4))
    if name.startswith("ZDT"):
        return int(rng.randint(2, 13)), 2
    if "DTLZ" in name:
        M = int(rng.choice([2, 3, 3, 4, 5]))
        return M - 1 + int(rng.randint(1, 8)), M
    if name.startswith("WFG"):
        M = int(rng.choice([2, 3, 4]))
        k = (M - 1) * int(rng.randint(math.ceil(4 / (M - 1)), 4 if M > 2 else 7))
        l = int(rng.randint(1, 5)) * 2 if name in ("WFG2", "WFG3") else int(rng.randint(2, 9))
        return k + l, M, k
    k = int(name[2:])
    three = k >= 8
    lo = 5 if three else 4 if name in ("CF6", "CF7") else 3
    return int(rng.randint(lo, lo + 9)), 3 if three else 2


def make(name, n, M, k=None, **kw):
    import hvd.problems as H
    if name == "DENT":
        from hvd.problems.misc import DENT as C
    else:
        C = getattr(H, name)
    if name in CONVS:
        return C(**kw)
    if "DTLZ" in name:
        return C(n_var=n, n_obj=M, **kw)
    if name.startswith("WFG"):
        return C(n_var=n, n_obj=M, k=k, **kw)
    return C(n_var=n, **kw)


def optimal(name, x, n, M, p):
    """x with the distance variables moved to their optimal values (for attainability checks)"""
    x = x.copy()
    lo, hi = np.asarray(p.xl), np.asarray(p.xu)
    if name.startswith("ZDT"):
        x[1:] = 0
    elif name.endswith(("DTLZ6", "DTLZ7")):
        x[M - 1:] = 0
    elif "DTLZ" in name:
        x[M - 1:] = .5
    elif name.startswith(("UF", "CF")):
        k = int(name[2:])
        j = np.arange(1, n + 1)
        if k >= 8:
            y = 2 * x[1] * np.sin(2 * pi * x[0] + j * pi / n)
            x[2:] = y[2:]
        else:
            s, c = np.sin(6 * pi * x[0] + j * pi / n), np.cos(6 * pi * x[0] + j * pi / n)
            if name == "UF2":
                e = .3 * x[0] ** 2 * np.cos(24 * pi * x[0] + 4 * j * pi / n) + .6 * x[0]
                y = np.where(j % 2 == 1, e * c, e * s)
            elif name in ("UF3", "CF1"):
                y = x[0] ** (.5 * (1 + 3 * (j - 2) / (n - 2)))
            elif name == "CF2":
                y = np.where(j % 2 == 1, s, c)
            elif name in ("CF5", "CF6"):
                y = .8 * x[0] * np.where(j % 2 == 1, c, s)
            elif name == "CF7":
                y = np.where(j % 2 == 1, c, s)
            else:
                y = s
            x[1:] = y[1:]
    return np.clip(x, lo, hi)


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=1e-9 * (1 + np.abs(b).max(initial=0))) | (~np.isfinite(b) & ~np.isfinite(a))))


def beats(a, b):
    """a dominates b; differences below 1e-7 (the published region ends are rounded to ten digits) decide nothing"""
    g = b - a
    return (g >= 0).all(1) & (g > 1e-6).any(1) & ~((g > 0) & (g < 1e-7)).any(1)


def xsample(rng, p, name, n, M):
    lo, hi = np.asarray(p.xl, float), np.asarray(p.xu, float)
    u = rng.rand(n)
    kind = rng.choice(["u", "u", "corner", "opt"])
    if kind == "corner" and not name.startswith("WFG"):
        m = rng.rand(n) < .3
        u[m] = rng.randint(0, 2, m.sum())
    x = lo + u * (hi - lo)
    if kind == "opt" and not name.startswith(("WFG", "CONV", "DENT")):
        x = optimal(name, x, n, M, p)
    if name.startswith("DTLZ6") or name == "DTLZ6":
        x[M - 1:][rng.rand(n - M + 1) < .3] = 0
    return x, kind


def concrete(ctx):
    def formula(names, reps):
        def run(rng):
            name = str(rng.choice(names))
            n, M = sizes(name, rng)[:2]
            p = make(name, n, M)
            if (p.n_var, p.n_obj) != (n, M):
                raise Fail(f"{name}: declared sizes ({p.n_var}, {p.n_obj}) instead of ({n}, {M})")
            f, g, h = spec(name, n, M)
            for _ in range(reps):
                x, kind = xsample(rng, p, name, n, M)
                try:
                    e = f(list(map(float, x)))
                except (ZeroDivisionError, ValueError):
                    continue
                v = p.objective(x)
                # the square root of ZDT1, 3 and 4 is capped at 1e-6 to keep it differentiable
                capped = name in ("ZDT1", "ZDT3", "ZDT4") and x[0] < 1e-8 and np.allclose(v, e, rtol=0, atol=2e-6 * max(1, abs(e[1])))
                if not capped and not close(v, e):
                    raise Fail(f"{name} (n={n}, m={M}): objective differs from the published formula", x=x, got=v, expected=e)
                for q, get, what in ((g, "ieq_constraint", "inequality"), (h, "eq_constraint", "equality")):
                    if q is not None:
                        try:
                            e = q(list(map(float, x)))
                        except (ZeroDivisionError, ValueError, OverflowError):
                            continue
                        if any(abs(t) > 1e9 for t in e):
                            continue
                        v = getattr(p, get)(x)
                        # sin/abs of large arguments amplify rounding
                        if not close(v, e, 1e-6):
                            raise Fail(f"{name} (n={n}, m={M}): {what} constraint differs from the published formula", x=x, got=v, expected=e)
            return (name, n, M)
        return run
    q = 1 if not ctx.thorough else 8
    ctx.scenario("formula ZDT", formula(ZDTS, 6), 15 * q)
    ctx.scenario("formula DTLZ", formula(DTLZS, 6), 25 * q)
    ctx.scenario("formula IDTLZ and equality-constrained DTLZ", formula(EQ, 5), 20 * q)
    ctx.scenario("formula UF", formula(UFS, 6), 30 * q)
    ctx.scenario("formula CF", formula(CFS, 6), 36 * q)
    ctx.scenario("formula CONV", formula(CONVS, 6), 12 * q)

    def wfg(rng):
        name = str(rng.choice(WFGS))
        n, M, k = sizes(name, rng)
        p = make(name, n, M, k)
        import pymoo.problems.many.wfg as W
        o = getattr(W, name)(n_var=n, n_obj=M, k=k, l=n - k)
        x = rng.rand(5, n) * np.asarray(p.xu)
        if rng.rand() < .4 and name != "WFG1":  # WFG1 amplifies the oracle's own rounding there
            x[:, k:] = .35 * np.asarray(p.xu)[k:]
        e = np.asarray(o.evaluate(x, return_values_of=["F"]))
        for a, b in zip(x, e):
            v = p.objective(a)
            if not close(v, b, 1e-7):
                raise Fail(f"{name} (n={n}, m={M}, k={k}): objective differs from the toolkit definition", x=a, got=v, expected=b)
        return (name, n, M, k)
    ctx.scenario("formula WFG", wfg, 24 * q)

    offline = [z for z in ZDTS + DTLZS[:4] + EQ + UFS + CFS + CONVS + WFGS]

    def fronts(names):
        def run(rng):
            name = str(rng.choice(names))
            sz = sizes(name, rng)
            n, M = sz[:2]
            p = make(name, *sz)
            # reported fronts of three or more objectives use a fixed resolution
            if M > 3 and "DTLZ" in name:
                n, M = n, 3
                n = max(n, 4)
                p = make(name, n, M)
            N = int(rng.choice([5, 11, 40, 100]))
            arg = {} if name.startswith(("DTLZ", "IDTLZ")) else {"n_points" if name == "ZDT3" else "n_pareto_points" if name.startswith("ZDT") else "n" if name == "DENT" else "N": N}
            F = np.asarray(p.get_pareto_front(**arg), float)
            if F.ndim != 2 or F.shape[1] != M or len(F) == 0 or not np.isfinite(F).all():
                raise Fail(f"{name}: malformed Pareto front of shape {F.shape}", key=f"front {name}")
            res = front_residual(name, M)
            if res is not None:
                for r in F[rng.permutation(len(F))[:60]]:
                    if res([float(v) for v in r]) > 1e-6:
                        raise Fail(f"{name} (n={n}, m={M}): reported front point violates the published front equation", key=f"front equation {name}", point=r, residual=res([float(v) for v in r]))
            check_nd(F[rng.permutation(len(F))[:300]], f"{name} (n={n}, m={M}): a reported front point dominates another", f"dominated {name}")
            # no attainable feasible point dominates a reported one
            G, XS = attain(rng, name, p, n, M, 60)
            for gv, x in zip(G, XS):
                bad = beats(gv, F)
                if bad.any():
                    raise Fail(f"{name} (n={n}, m={M}): a feasible decision vector dominates a reported front point",
                               key=f"attainable {name}", x=x, objective=gv, point=F[np.nonzero(bad)[0][0]])
            return (name, n, M, N)
        return run

    def attain(rng, name, p, n, M, k):
        lo, hi = np.asarray(p.xl), np.asarray(p.xu)
        XS = []
        for i in range(k):
            x = lo + rng.rand(n) * (hi - lo)
            if name.startswith("WFG"):
                if i % 2:
                    x[p.k:] = .35 * hi[p.k:]
            elif name not in CONVS:
                y = optimal(name, x, n, M, p)
                x = y if i % 3 else y + (x - y) * rng.rand()
            XS.append(x)
        G = np.asarray(p.objective_batch(np.array(XS)))
        ok = np.isfinite(G).all(1)
        if getattr(p, "n_ieq_constr", 0):
            C = np.asarray(p.ieq_constraint_batch(np.array(XS))).reshape(k, -1)
            ok &= (C <= 0).all(1)
        if getattr(p, "n_eq_constr", 0):
            C = np.asarray(p.eq_constraint_batch(np.array(XS))).reshape(k, -1)
            ok &= (np.abs(C) <= 1e-12).all(1)
        return G[ok], np.array(XS)[ok]

    def check_nd(F, msg, key):
        for i, r in enumerate(F):
            d = beats(F, r)
            if d.any():
                raise Fail(msg, key=key, dominated=r, by=F[np.nonzero(d)[0][0]])
    for fam, lst, k in (("ZDT", ZDTS, 10), ("DTLZ", DTLZS[:4], 8), ("IDTLZ and equality-constrained DTLZ", EQ, 24), ("UF", UFS, 16), ("CF", CFS, 20), ("CONV", CONVS, 6), ("WFG", WFGS, 14)):
        ctx.scenario("front " + fam, fronts(lst), k * q)

    def sets(names):
        def run(rng):
            name = str(rng.choice(names))
            sz = sizes(name, rng)
            n, M = sz[:2]
            if name in ("DTLZ5", "DTLZ6"):
                M = 3
                n = max(n, 4)
                sz = (n, M)
            p = make(name, *sz)
            N = int(rng.choice([3, 20, 60]))
            X = np.asarray(p.get_pareto_set(N), float)
            if X.ndim != 2 or X.shape[1] != n:
                raise Fail(f"{name}: malformed Pareto set of shape {X.shape}", key=f"set {name}")
            if (X < np.asarray(p.xl) - 1e-12).any() or (X > np.asarray(p.xu) + 1e-12).any():
                raise Fail(f"{name}: reported Pareto set leaves the box", key=f"set {name}")
            F = np.asarray(p.objective_batch(X))
            res = front_residual(name, M)
            if res is not None:
                for x, r in zip(X, F):
                    if res([float(v) for v in r]) > (2e-6 if name.startswith("ZDT") else 1e-6):
                        raise Fail(f"{name} (n={n}, m={M}): a point of the reported Pareto set does not map onto the front", key=f"set {name}", x=x, F=r)
            if getattr(p, "n_eq_constr", 0):
                C = np.asarray(p.eq_constraint_batch(X))
                if np.abs(C).max() > 1e-9:
                    raise Fail(f"{name}: the reported Pareto set violates the equality constraint", key=f"set {name}", worst=np.abs(C).max())
            check_nd(F, f"{name} (n={n}, m={M}): a point of the reported Pareto set is dominated by another", f"dominated {name}")
            return (name, n, M, N)
        return run
    for fam, lst, k in (("ZDT", ZDTS, 10), ("DTLZ", DTLZS, 12), ("IDTLZ and equality-constrained DTLZ", EQ, 12), ("WFG", WFGS, 12), ("DENT", ["DENT"], 2)):
        ctx.scenario("set " + fam, sets(lst), k * q)
    ctx.assumptions += ["WFG values are compared with pymoo's implementation of the WFG toolkit (trusted oracle); every other formula with one written here from the publication",
                        "fronts that are only available from the network (DTLZ5-7) are out of scope"]


def prove(ctx):
    from . import p14s
    p14s.prove(ctx)
