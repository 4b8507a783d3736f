"""P14, deductive layer (Mode S): the real `_objective` / `_ieq_constraint` / `_eq_constraint` sources, executed for every
decision vector of the box and every number of variables, equal the published formulas.  Families indexed by the parity
(UF1-7, CF1-7) or by the remainder modulo three (UF8-10, CF8-10) of the number of variables are split into the residue
classes, which cover every admissible number.  DTLZ is done for each small number of objectives (bounded in that number)."""
import numpy as np
from fractions import Fraction as Fr
from pyvc.check import Refuted
from .common import *
from . import p14

PI_ = V("\u03c0")
H = Fr(1, 2)


def ex(x):
    return P(x)


def sin_(p):
    return pl.fsin(P(p))


def cos_(p):
    return pl.fcos(P(p))


def sqrt_(p):
    return pl.ppow(P(p), P(H))


def pw(p, e):
    return pl.ppow(P(p), P(e))


def abs_(p):
    return pl.fabs(P(p))


def x_(j):
    """published numbering: x_1, x_2, ..."""
    return A("x", P(j) - 1)


def box_rule(rel, p):
    """x lies in the box and the bounds are ordered: xl_i <= x_i <= xu_i, xl_i <= xu_i"""
    if rel != "lt" or len(p.t) != 2:
        return None
    pos = neg = None
    for m, c in p.t.items():
        if len(m) != 1 or m[0][0][0] != "a" or m[0][1] != 1:
            return None
        if c > 0:
            pos = m[0][0], c
        else:
            neg = m[0][0], -c
    if not pos or not neg or pos[1] != neg[1] or pos[0][2] != neg[0][2]:
        return None
    rank = {"xl": 0, "x": 1, "xu": 2}
    a, b = rank.get(pos[0][1]), rank.get(neg[0][1])
    if a is None or b is None:
        return None
    return ZERO if a > b else None      # [upper - lower < 0]


def reset():
    tn.set_ctx(tn.Ctx())
    pl.POSRULES.clear()
    pl.INDRULES.clear()
    shims.ARGS.clear()


class World:
    def __init__(self, module, overrides=None):
        reset()
        pl.INDRULES.append(box_rule)
        self.L = loader.Loader(overrides=overrides or {})
        self.m = self.L.load("hvd.problems." + module)

    def make(self, name, n, **kw):
        """an instance with any ordered bounds"""
        n = P(n)
        xl = T((n,), lambda i: A("xl", i), "f")
        xu = T((n,), lambda i: A("xu", i), "f")
        return getattr(self.m, name)(n_var=scalar(n, "i"), xl=xl, xu=xu, **kw)

    def X(self, n):
        return T((P(n),), lambda i: A("x", i), "f")


def vec(t, m, what):
    t = tn.to_T(t)
    if t.ndim != 1 or t.shape_[0] != P(m):
        raise Refuted(f"{what}: result has shape {tuple(map(str, t.shape_))}, declared length {m}")
    return [t.at_(P(k)) for k in range(m)]


def soft_equal(lhs, rhs, what, replay, ranges=None):
    """equal normal forms, or a counterexample confirmed on the real code; anything else is undecided"""
    first = None
    for rg in [ranges] if ranges else [{"x": r} for r in ((.05, .95), (0, .02), (.98, 1.), (.45, .55))]:
        try:
            prove_equal(lhs, rhs, what, replay=replay, ranges=rg)
            return
        except Refuted as e:
            if e.replay is not None:
                raise
            first = first or e
        except Unsupported as e:
            first = first or e
    raise Unsupported(str(first)[:600])


def replayer(name, n, M, which):
    """run the real problem at the decision vector of the counterexample"""
    def go(env, arrs):
        env = {**{v: pl.LB.get(v, 1) for v in P(n).free()}, **env}
        nn = int(round(pl.evaluate(P(n), env, arrs)))
        if "x" not in arrs:
            return None
        x = np.array([arrs["x"](j) for j in range(nn)])
        try:
            p = p14.make(name, nn, M)
            f = dict(zip(("objective", "ieq_constraint", "eq_constraint"), p14.spec(name, nn, M)))[which]
            v, e = np.asarray(getattr(p, which)(x), float).ravel(), np.asarray(f(list(map(float, x))), float).ravel()
        except Exception as err:
            return None
        if p14.close(v, e, 1e-6):
            return None
        return {"problem": name, "n_var": nn, "n_obj": M, "x": x.tolist(), "function": which, "got": v.tolist(), "published": e.tolist()}
    return go


# ------------------------------------------------------------------ published formulas over symbolic sizes
def fam(name, n, M):
    """objective values, constraints"""
    n = P(n)
    if name.startswith("ZDT"):
        t = newidx(n - 1)
        tail = lambda f: psum(vname(t), n - 1, f(A("x", t + 1)))
        x1 = x_(1)
        if name == "ZDT4":
            g = 1 + 10 * (n - 1) + tail(lambda v: v ** 2 - 10 * cos_(4 * PI_ * v))
        elif name == "ZDT6":
            g = 1 + 9 * pw(tn.max_pair(tail(lambda v: v) / (n - 1), P(1e-48)), Fr(1, 4))
        else:
            g = 1 + 9 * tail(lambda v: v) / (n - 1)
        f1 = 1 - pl.fexp(-4 * x1) * sin_(6 * PI_ * x1) ** 6 if name == "ZDT6" else x1
        r = f1 * pw(g, -1)
        root = lambda: sqrt_(tn.max_pair(r, P(1e-12)))       # documented differentiability cap
        h = {"ZDT1": lambda: 1 - root(), "ZDT2": lambda: 1 - r ** 2, "ZDT3": lambda: 1 - root() - r * sin_(10 * PI_ * f1),
             "ZDT4": lambda: 1 - root(), "ZDT6": lambda: 1 - r ** 2}[name]()
        return [f1, g * h]
    k = int(name[2:])
    if name.startswith("UF") and k <= 7 or name.startswith("CF") and k <= 7:
        m = V("m")
        odd = n == 2 * m + 1
        J1, J2 = (lambda t: 3 + 2 * t, m), (lambda t: 2 + 2 * t, m if odd else m + 1)
        return (uf2 if name[0] == "U" else cf2)(k, n, J1, J2)
    m = V("m")
    r = int((n - 3 * m).const())
    Js = [(lambda t: 4 + 3 * t, m + (r == 4)), (lambda t: 5 + 3 * t, m), (lambda t: 3 + 3 * t, m + (r >= 3))]
    return uf3(k, n, Js, name[0] == "C")


def sm(J, f, drop=0):
    """sum over the index set, leaving out its first `drop` members"""
    j, size = J
    t = newidx(size)
    return psum(vname(t), size, f(j(t))) - sum((f(j(P(d))) for d in range(drop)), ZERO)


def pr(J, f):
    j, size = J
    return tn.to_T(shims.prod(T((size,), lambda t: f(j(t)), "f"))).as_poly()


def quad(J, y):
    return 4 * sm(J, lambda j: y(j) ** 2) - 2 * pr(J, lambda j: cos_(20 * y(j) * PI_ * pw(j, -H))) + 2


def uf2(k, n, J1, J2):
    x1 = x_(1)
    w = lambda J: 2 * pw(J[1], -1)
    ph = lambda j: 6 * PI_ * x1 + j * PI_ / n
    sy = lambda j: x_(j) - sin_(ph(j))
    mean2 = lambda f: [w(J) * sm(J, f) for J in (J1, J2)]
    if k in (1, 7):
        p = mean2(lambda j: sy(j) ** 2)
        a, b = (x1, sqrt_(x1)) if k == 1 else (pw(x1, Fr(1, 5)),) * 2
        return [a + p[0], 1 - b + p[1]]
    if k == 2:
        e = lambda j: Fr(3, 10) * x1 ** 2 * cos_(24 * PI_ * x1 + 4 * j * PI_ / n) + Fr(6, 10) * x1
        return [x1 + w(J1) * sm(J1, lambda j: (x_(j) - e(j) * cos_(ph(j))) ** 2),
                1 - sqrt_(x1) + w(J2) * sm(J2, lambda j: (x_(j) - e(j) * sin_(ph(j))) ** 2)]
    if k == 3:
        y = lambda j: x_(j) - pw(x1, H * (1 + 3 * (j - 2) / (n - 2)))
        return [x1 + w(J1) * quad(J1, y), 1 - sqrt_(x1) + w(J2) * quad(J2, y)]
    if k == 4:
        h = lambda t: abs_(t) * pw(1 + pl.fexp(2 * abs_(t)), -1)
        p = mean2(lambda j: h(sy(j)))
        return [x1 + p[0], 1 - x1 ** 2 + p[1]]
    if k == 5:
        p = mean2(lambda j: 2 * sy(j) ** 2 - cos_(4 * PI_ * sy(j)) + 1)
        c = Fr(15, 100) * abs_(sin_(20 * PI_ * x1))
        return [x1 + c + p[0], 1 - x1 + c + p[1]]
    c = tn.max_pair(ZERO, Fr(7, 10) * sin_(4 * PI_ * x1))
    return [x1 + c + w(J1) * quad(J1, sy), 1 - x1 + c + w(J2) * quad(J2, sy)]


def cf2(k, n, J1, J2):
    x1 = x_(1)
    w = lambda J: 2 * pw(J[1], -1)
    ph = lambda j: 6 * PI_ * x1 + j * PI_ / n
    if k == 1:
        y = lambda j: x_(j) - pw(x1, H * (1 + 3 * (j - 2) / (n - 2)))
        return [x1 + w(J1) * sm(J1, lambda j: y(j) ** 2), 1 - x1 + w(J2) * sm(J2, lambda j: y(j) ** 2)]
    if k == 2:
        return [x1 + w(J1) * sm(J1, lambda j: (x_(j) - sin_(ph(j))) ** 2), 1 - sqrt_(x1) + w(J2) * sm(J2, lambda j: (x_(j) - cos_(ph(j))) ** 2)]
    sy = lambda j: x_(j) - sin_(ph(j))
    if k == 3:
        return [x1 + w(J1) * quad(J1, sy), 1 - x1 ** 2 + w(J2) * quad(J2, sy)]
    kink = Fr(3, 2) * (1 - sqrt_(P(H)))
    h2 = lambda t: pl.ite(ind("lt", t, kink), abs_(t), Fr(125, 1000) + (t - 1) ** 2)
    if k == 4:
        return [x1 + sm(J1, lambda j: sy(j) ** 2), 1 - x1 + h2(sy(P(2))) + sm(J2, lambda j: sy(j) ** 2, 1)]
    a = Fr(8, 10) * x1 if k in (5, 6) else ONE
    y1 = lambda j: x_(j) - a * cos_(ph(j))
    y2 = lambda j: x_(j) - a * sin_(ph(j))
    h = lambda t: 2 * t ** 2 - cos_(4 * PI_ * t) + 1
    if k == 5:
        return [x1 + sm(J1, lambda j: h(y1(j))), 1 - x1 + h2(y2(P(2))) + sm(J2, lambda j: h(y2(j)), 1)]
    if k == 6:
        return [x1 + sm(J1, lambda j: y1(j) ** 2), (1 - x1) ** 2 + sm(J2, lambda j: y2(j) ** 2)]
    return [x1 + sm(J1, lambda j: h(y1(j))), (1 - x1) ** 2 + y2(P(2)) ** 2 + y2(P(4)) ** 2 + sm(J2, lambda j: h(y2(j)), 2)]


ind = pl.ind


def cfc(k, n, F):
    x1, x2 = x_(1), x_(2)
    n = P(n)
    if k == 1:
        return [-(F[0] + F[1] - abs_(sin_(10 * PI_ * (F[0] - F[1] + 1))) - 1)]
    if k == 2:
        t = F[1] + sqrt_(F[0]) - sin_(2 * PI_ * (sqrt_(F[0]) - F[1] + 1)) - 1
        return [-t * pw(1 + pl.fexp(4 * abs_(t)), -1)]
    if k == 3:
        return [-(F[1] + F[0] ** 2 - sin_(2 * PI_ * (F[0] ** 2 - F[1] + 1)) - 1)]
    if k == 4:
        t = x2 - sin_(6 * PI_ * x1 + 2 * PI_ / n) - H * x1 + Fr(1, 4)
        return [-t * pw(1 + pl.fexp(4 * abs_(t)), -1)]
    if k == 5:
        return [-(x2 - Fr(8, 10) * x1 * sin_(6 * PI_ * x1 + 2 * PI_ / n) - H * x1 + Fr(1, 4))]
    if k in (6, 7):
        a = Fr(8, 10) * x1 if k == 6 else ONE
        u = H * (1 - x1) - (1 - x1) ** 2
        v = Fr(1, 4) * sqrt_(1 - x1) - H * (1 - x1)
        sg = lambda t: pl.ffun("sign", t)
        return [-(x2 - a * sin_(6 * PI_ * x1 + 2 * PI_ / n) - sg(u) * sqrt_(abs_(u))),
                -(x_(4) - a * sin_(6 * PI_ * x1 + 4 * PI_ / n) - sg(v) * sqrt_(abs_(v)))]
    dn = pw(1 - F[2] ** 2, -1)
    q, d = (F[0] ** 2 + F[1] ** 2) * dn, (F[0] ** 2 - F[1] ** 2) * dn + 1
    if k == 8:
        return [-(q - 4 * abs_(sin_(2 * PI_ * d)) - 1)]
    return [-(q - (3 if k == 9 else 1) * sin_(2 * PI_ * d) - 1)]


def uf3(k, n, Js, c):
    x1, x2 = x_(1), x_(2)
    y = lambda j: x_(j) - 2 * x2 * sin_(2 * PI_ * x1 + j * PI_ / n)
    if k == 10:
        h = lambda t: 4 * t ** 2 - cos_(8 * PI_ * t) + 1
    else:
        h = lambda t: t ** 2
    p = [2 * pw(J[1], -1) * sm(J, lambda j: h(y(j))) for J in Js]
    if k != 9 or c:
        a, b = H * PI_ * x1, H * PI_ * x2
        q = [cos_(a) * cos_(b), cos_(a) * sin_(b), sin_(a)]
    else:
        m = tn.max_pair(ZERO, Fr(11, 10) * (1 - 4 * (2 * x1 - 1) ** 2))
        q = [H * (m + 2 * x1) * x2, H * (m - 2 * x1 + 2) * x2, 1 - x2]
    return [u + v for u, v in zip(q, p)]


def dtlz(k, M, K, inverted):
    t = newidx(K)
    tot = lambda f: psum(vname(t), K, f(A("x", t + (M - 1))))
    if k in (1, 3):
        g = 100 * (K + tot(lambda v: (v - H) ** 2 - cos_(20 * PI_ * (v - H))))
    elif k in (2, 4, 5):
        g = tot(lambda v: (v - H) ** 2)
    elif k == 6:
        g = tot(lambda v: pw(tn.max_pair(abs_(v), P(1e-150)), Fr(1, 10)))   # documented cap
    else:
        g = 1 + 9 * pw(K, -1) * tot(lambda v: v)
    xs = [x_(j) for j in range(1, M)]
    if k == 7:
        return xs + [(1 + g) * (M - sum((v * pw(1 + g, -1) * (1 + sin_(3 * PI_ * v)) for v in xs), ZERO))]
    if k == 1:
        c, s = xs, [1 - v for v in xs]
    else:
        th = [v * PI_ / 2 for v in xs]
        if k == 4:
            th = [pw(v, 100) * PI_ / 2 for v in xs]
        if k in (5, 6):
            th = [th[0]] + [PI_ * pw(4 * (1 + g), -1) * (1 + 2 * g * v) for v in xs[1:]]
        c, s = [cos_(v) for v in th], [sin_(v) for v in th]
    F = []
    for m in range(1, M + 1):
        p = (1 + g) * (H if k == 1 else 1)
        for j in range(M - m):
            p = p * c[j]
        if m > 1:
            p = p * s[M - m]
        F.append(p)
    return [(1 + g) / 2 - v for v in F] if inverted else F


# ------------------------------------------------------------------ obligations
MOD = {"ZDT": "zdt", "UF": "uf", "CF": "cf"}
UNB = None


def prove(ctx):
    tmo = 200 if ctx.thorough else 60
    for name in p14.ZDTS + p14.UFS + p14.CFS:
        mod = "zdt" if name.startswith("ZDT") else name[:2].lower()
        k = int(name[2:]) if mod != "zdt" else 0
        three = k >= 8
        if mod == "zdt":
            sizes = [(dim("n", 2), "n>=2")]
        elif three:
            m = dim("m", 1)
            sizes = [(3 * m + r, f"n=3m+{r}, m>=1") for r in (2, 3, 4)]
        else:
            m = dim("m", 2 if name in ("CF6", "CF7") else 1)
            sizes = [(2 * m + r, f"n=2m+{r}, m>={2 if name in ('CF6', 'CF7') else 1}") for r in ((1, 2) if name not in ("CF6", "CF7") else (0, 1))]
        M = 3 if three else 2
        for n, txt in sizes:
            def go(name=name, n=n, M=M, k=k):
                w = World(mod)
                if mod != "zdt":
                    dim("m", 2 if name in ("CF6", "CF7") else 1)
                p = w.make(name, n)
                want = fam6(name, n, M)
                got = vec(p.objective(w.X(n)), M, name)
                for i in range(M):
                    soft_equal(got[i], want[i], f"{name} objective {i + 1}", replayer(name, n, M, "objective"))
                if mod == "cf":
                    q = cfc(k, n, want)
                    got = vec(p.ieq_constraint(w.X(n)), len(q), name)
                    for i in range(len(q)):
                        soft_equal(got[i], q[i], f"{name} constraint {i + 1}", replayer(name, n, M, "ieq_constraint"))
            ctx.obligation(f"{name} equals the published formula ({txt})", f"hvd.problems.{mod}.{name}._objective", go, timeout=tmo)
    for name in p14.DTLZS + p14.EQ:
        for M in ((2, 3, 4) if not ctx.thorough else (2, 3, 4, 5, 6)):
            def go(name=name, M=M):
                w = World("eqdtlz" if name not in p14.DTLZS else "dtlz")
                K = dim("K", 1)
                n = K + (M - 1)
                p = w.make(name, n, n_obj=M)
                want = dtlz(int(name[-1]), M, K, "IDTLZ" in name)
                got = vec(p.objective(w.X(n)), M, name)
                for i in range(M):
                    soft_equal(got[i], want[i], f"{name} objective {i + 1}", replayer(name, n, M, "objective"))
                if name.startswith("Eq1"):
                    e = tn.to_T(p.eq_constraint(w.X(n)))
                    e = e.as_poly() if e.ndim == 0 else vec(e, 1, name)[0]
                    soft_equal(e, abs_(sum(((x_(j) - H) ** 2 for j in range(1, M)), ZERO) - Fr(16, 100)) - Fr(1, 10000), f"{name} equality constraint",
                               replayer(name, n, M, "eq_constraint"))
            ctx.obligation(f"{name} equals the published formula ({M} objectives, every number of distance variables)",
                           f"hvd.problems.dtlz.{name}._objective", go, bounded=f"{M} objectives", timeout=tmo)
    for name, n, M in (("CONV3", 3, 3), ("CONV4", 4, 4), ("CONV4_2F", 4, 4), ("DENT", 2, 2)):
        def go(name=name, n=n, M=M):
            w = World("misc")
            p = getattr(w.m, name)()
            want = conv(name)
            got = vec(p.objective(w.X(n)), M, name)
            for i in range(M):
                soft_equal(got[i], want[i], f"{name} objective {i + 1}", replayer(name, n, M, "objective"), {"x": (-1.5, 1.5)})
                soft_equal(got[i], want[i], f"{name} objective {i + 1}", replayer(name, n, M, "objective"), {"x": (-1.5, -.1)})
        ctx.obligation(f"{name} equals its definition", f"hvd.problems.misc.{name}._objective", go, timeout=tmo)
    ctx.trusted |= shims.TRUSTED


def fam6(name, n, M):
    """CF6 and CF7 need x_4, so their numbers of variables are 2m and 2m+1 with m >= 2"""
    if name in ("CF6", "CF7"):
        m = V("m")
        odd = n == 2 * m + 1
        J1 = (lambda t: 3 + 2 * t, m if odd else m - 1)
        J2 = (lambda t: 2 + 2 * t, m)
        return cf2(int(name[2:]), P(n), J1, J2)
    return fam(name, n, M)


def conv(name):
    x = [A("x", P(j)) for j in range(4)]
    sq = lambda c, d=0: sum(((x[j] + d - c[j]) ** 2 for j in range(len(c))), ZERO)
    e = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
    if name == "CONV3":
        return [sq((-1, -1, -1)), sq((1, 1, 1)), sq((-1, -1, 1))]
    if name == "CONV4":
        return [sq(e[i]) for i in range(4)]
    if name == "CONV4_2F":
        d = [2, 0, 0, -2]
        neg = ONE
        for j in range(4):
            neg = neg * ind("lt", x[j], 0)
        return [pl.ite(neg, sq(e[i], 1) - Fr(7, 2) * d[i], sq(e[i])) for i in range(4)]
    t = sqrt_(1 + (x[0] + x[1]) ** 2) + sqrt_(1 + (x[0] - x[1]) ** 2)
    g = Fr(85, 100) * pl.fexp(-(x[0] - x[1]) ** 2)
    return [H * (t + x[0] - x[1]) + g, H * (t - x[0] + x[1]) + g]
