"""P16: reference set generation (two objectives)."""
import itertools
import numpy as np
from pyvc.check import Fail, Skip


def mround(x):
    return int(np.floor(abs(x) + .5) * np.sign(x))


def components(P, eps):
    """connected components of the eps-neighbourhood graph with at least two points (DBSCAN with minpts = 2)"""
    n = len(P)
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    lab = -np.ones(n, int)
    k = 0
    for i in range(n):
        if lab[i] < 0 and (D[i] <= eps).sum() >= 2:
            todo = [i]
            lab[i] = k
            while todo:
                j = todo.pop()
                for q in np.nonzero((D[j] <= eps) & (lab < 0))[0]:
                    lab[q] = k
                    todo.append(q)
            k += 1
    return [P[lab == c] for c in range(k)]


def on_polyline(I, C, n, what, **d):
    P = C[np.argsort(C[:, 0], kind="stable")]
    seg = np.linalg.norm(np.diff(P, axis=0), axis=1)
    s = np.r_[0, np.cumsum(seg)]
    L = s[-1]
    sc = 1e-9 * (1 + np.abs(C).max())
    if len(I) != n:
        raise Fail(f"{what}: {len(I)} points generated, {n} allocated", **d)
    if n == 0:
        return
    t = np.linspace(0, L, n)
    E = np.array([[np.interp(u, s, P[:, j]) for j in range(2)] for u in t]) if L > 0 else np.repeat(P[:1], n, 0)
    if n >= 2 and (np.abs(I[0] - P[0]).max() > sc or np.abs(I[-1] - P[-1]).max() > sc):
        raise Fail(f"{what}: an end point of the component is lost", first=I[0], last=I[-1], component=P, **d)
    if n == 1:
        # a single point is allocated: any point of the polyline
        best = min(np.linalg.norm(I[0] - (a + np.clip(np.dot(I[0] - a, b - a) / max(np.dot(b - a, b - a), 1e-300), 0, 1) * (b - a)))
                   for a, b in zip(P[:-1], P[1:])) if len(P) > 1 else np.abs(I[0] - P[0]).max()
        if best > sc:
            raise Fail(f"{what}: the generated point is not on the polyline", point=I[0], component=P, **d)
    elif np.abs(I - E).max() > sc * 10:
        raise Fail(f"{what}: generated points are not equally spaced on the polyline through the component", got=I, expected=E, component=P, **d)


def tied_orders(U):
    """the orders of the points that are sorted by the first objective"""
    groups = [[tuple(u) for u in U if u[0] == v] for v in np.unique(U[:, 0])]
    for pr in itertools.product(*[itertools.permutations(g) for g in groups]):
        yield np.array([u for g in pr for u in g])


def front(rng, k):
    """k well separated pieces of a two-objective non-dominated front"""
    out, x = [], 0.0
    y = 10.0
    for c in range(k):
        n = int(rng.randint(2, 12))
        kind = rng.choice(["curve", "dup", "line", "tiny"])
        dx, dy = rng.uniform(.005, .05, n), rng.uniform(.005, .05, n)
        if kind == "dup":
            dx[:], dy[:] = 0, 0
        if kind == "tiny":
            dx *= 1e-3
            dy *= 1e-3
        X, Y = x + np.cumsum(dx), y - np.cumsum(dy)
        out.append(np.c_[X, Y])
        x, y = X[-1] + rng.uniform(.2, 1), Y[-1] - rng.uniform(.2, 1)
    return out


def concrete(ctx):
    from hvd import rsg

    def fill(rng):
        k = int(rng.randint(1, 5))
        C = front(rng, k)
        noise = []
        if rng.rand() < .3:
            noise = [np.array([[C[-1][-1, 0] + 5, C[-1][-1, 1] - 5]])]
        P = np.concatenate(C + noise)
        P = P[rng.permutation(len(P))]
        P0 = P.copy()
        Nf = int(rng.choice([0, 1, 2, 5, 17, 60, 200]))
        kw = {}
        eps = .08
        if rng.rand() < .3:
            eps = float(rng.uniform(.075, .15))
            kw = dict(eps=eps)
        F = rsg.RSG(P, Nf, **kw)
        if not np.array_equal(P, P0):
            raise Fail("the generator modified the front", front=P0)
        comps = components(P0, eps)
        L = []
        for c in comps:
            c = c[np.argsort(c[:, 0], kind="stable")]
            L.append(np.linalg.norm(np.diff(c, axis=0), axis=1).sum())
        tot = sum(L)
        n = [mround(Nf * (l / tot if tot > 0 else 1 / len(L))) for l in L]
        exact = [Nf * (l / tot if tot > 0 else 1 / len(L)) for l in L]
        if any(abs((e % 1) - .5) < 1e-9 for e in exact):
            return None
        F = np.asarray(F)
        d = dict(front=P0, Nf=Nf, eps=eps, allocation=n)
        if F.ndim != 2 or F.shape[1] != 2 or not np.all(np.isfinite(F)):
            raise Fail(f"the generated set is not a finite array of two columns: shape {F.shape}", **d)
        if len(F) != sum(n):
            raise Fail(f"{len(F)} points generated, the components' shares sum to {sum(n)}", **d)
        # attribute the points to components (pieces are separated, so the nearest polyline is the right one)
        if len(comps):
            D = np.array([[np.linalg.norm(c - f, axis=1).min() for c in comps] for f in F]) if len(F) else np.zeros((0, len(comps)))
            lab = D.argmin(1) if len(F) else np.zeros(0, int)
            for i, c in enumerate(comps):
                I = F[lab == i]
                I = I[np.argsort(I[:, 0], kind="stable")]
                on_polyline(I, c, n[i], f"component {i}", **d)
        return (k, Nf, tuple(n), bool(noise))

    def single(rng):
        """one component handed to the interpolation"""
        if not hasattr(rsg, "interpolate_tst"):
            raise Skip("interpolation helper not found")
        C = front(rng, 1)[0]
        kind = rng.rand()
        if kind < .3:   # some points share the first objective (duplicates of those could be visited alternately)
            C = C[np.argsort(C[:, 0])][:8]
            C[1::3, 0] = C[:len(C[1::3]) * 3:3, 0][:len(C[1::3])]
        elif kind < .6:
            C = np.repeat(C, rng.randint(1, 3, len(C)), axis=0)
        if rng.rand() < .2:
            C = C[:1]
        C = C[rng.permutation(len(C))]
        n = int(rng.randint(0, 30))
        I = np.asarray(rsg.interpolate_tst(C.copy(), n))
        if I.shape != (n, 2):
            raise Fail(f"interpolating to {n} points returned shape {I.shape}", component=C)
        U = np.unique(C, axis=0)
        orders = list(itertools.islice(tied_orders(U), 64))
        for q, U in enumerate(orders):
            try:
                on_polyline(I, U, n, "interpolation", component_in=C)
                break
            except Fail:
                if q == len(orders) - 1:
                    raise
        return (len(C), n, len(orders))

    def rounding(rng):
        if not hasattr(rsg, "_matlab_round"):
            raise Skip("rounding helper not found")
        x = float(rng.choice([rng.randn() * 5, rng.randint(-5, 6) + .5, rng.randint(-5, 6)]))
        if float(rsg._matlab_round(x)) != mround(x):
            raise Fail(f"round({x}) = {rsg._matlab_round(x)}, half away from zero is {mround(x)}")
        return x % 1 == .5

    def detection(rng):
        if not hasattr(rsg, "ComponentDetection"):
            raise Skip("detection helper not found")
        C = front(rng, int(rng.randint(1, 5)))
        P = np.concatenate(C)
        P = P[rng.permutation(len(P))]
        eps = float(rng.uniform(.02, .3))
        got, k = rsg.ComponentDetection(Py=P, eps=eps, minpts=2)
        exp = components(P, eps)
        D = np.linalg.norm(P[:, None] - P[None], axis=2)
        if np.any(np.abs(D - eps) < 1e-12):
            return None
        key = lambda A: sorted(map(tuple, np.asarray(A)))
        if k != len(exp) or sorted(map(key, got)) != sorted(map(key, exp)):
            raise Fail(f"{k} components detected, the neighbourhood graph has {len(exp)} (of at least two points)", front=P, eps=eps)
        return (k, len(P))

    def general(rng):
        """minpts other than two: every core point's neighbourhood belongs to its component"""
        C = front(rng, int(rng.randint(1, 4)))
        P = np.concatenate(C)
        Nf = int(rng.randint(0, 50))
        F = np.asarray(rsg.RSG(P.copy(), Nf, eps=float(rng.uniform(.03, .3)), minpts=int(rng.randint(1, 5))))
        if F.ndim != 2 or F.shape[1] != 2 or not np.all(np.isfinite(F)):
            raise Fail("malformed reference set", front=P, Nf=Nf)
        if len(F) and (np.any(F < P.min(0) - 1e-9) or np.any(F > P.max(0) + 1e-9)):
            raise Fail("generated points leave the range of the front", front=P, Nf=Nf)
        return (len(P), Nf)
    k = 10 if ctx.thorough else 1
    ctx.scenario("fill", fill, 200 * k)
    ctx.scenario("interpolate", single, 200 * k)
    ctx.scenario("detection", detection, 60 * k)
    ctx.scenario("general", general, 60 * k)
    ctx.scenario("rounding", rounding, 60)


# ------------------------------------------------------------------ deductive layer
def prove(ctx):
    import types
    import z3
    from pyvc import zsym as Z
    from pyvc.check import Unsupported
    from . import zc
    from hvd import rsg as real
    Row = lambda A, i: [A[i, j] for j in range(A.shape[1])]

    # ---- rounding, every real
    def rounding(z):
        L = Z.ZLoader().load("hvd.rsg")
        x = z.real("x")
        r = zc.scal(L._matlab_round(x))
        e = z3.ToReal(z3.ToInt(Z.toz(r))) if zc.sym(r) else None
        z.ensure(Z.SymBool(Z.real2(Z.toz(r), e)[0] == e) if e is not None else r == int(r), "the result is an integer")
        z.ensure(Z.And(2 * (r - x) <= 1, 2 * (x - r) <= 1), "nearest integer")
        z.ensure(Z.Implies(Z.And(2 * (r - x) == 1), x >= 0), "ties go away from zero")
        z.ensure(Z.Implies(Z.And(2 * (x - r) == 1), x <= 0), "ties go away from zero")

    def rep_round(v):
        for x in [v["x"]] + [k / 2 for k in range(-9, 10)]:
            if float(real._matlab_round(x)) != mround(x):
                return {"x": x, "result": float(real._matlab_round(x)), "required": mround(x)}
        return None
    ctx.obligation("rounding: nearest integer, ties away from zero, every real", "hvd.rsg._matlab_round", Z.prove(rounding, replay=rep_round, soft=True))

    def dist(z):
        """Euclidean length of a planar vector: non-negative, zero only for the zero vector, even"""
        f = z3.Function("len", z3.RealSort(), z3.RealSort(), z3.RealSort())

        def one(a, b):
            a, b = Z.real2(Z.toz(a), Z.toz(a))[0], Z.real2(Z.toz(b), Z.toz(b))[0]
            a, b = z3.simplify(a), z3.simplify(b)
            r = f(a, b)
            z.add(r >= 0)
            z.add(z3.Implies(r == 0, z3.And(a == 0, b == 0)))
            z.add(z3.Implies(z3.And(a == 0, b == 0), r == 0))
            z.add(r == f(z3.simplify(-a), z3.simplify(-b)))
            return Z.Sym(r)

        def norm(x, ord=None, axis=None, keepdims=False):
            x = np.asarray(x, dtype=object)
            if ord not in (None, 2) or keepdims or x.shape[-1:] != (2,) or x.ndim > 2 or x.ndim == 2 and axis not in (1, -1):
                raise Unsupported("norm of another shape")
            return one(*x) if x.ndim == 1 else np.array([one(*r) for r in x], dtype=object)
        return one, norm

    def linspace(a, b, num=50, **k):
        if k or not isinstance(num, (int, np.integer)):
            raise Unsupported("linspace options")
        return np.array([a if num == 1 or i == 0 else b if i == num - 1 else a + (b - a) * Z.fractions.Fraction(i, int(num) - 1) for i in range(num)], dtype=object)

    def load(z, interp=None, globs=None):
        ld = Z.ZLoader(globs={"hvd.rsg": globs or {}})
        one, norm = dist(z)
        ld.np.linalg.over["norm"] = norm
        ld.np.linalg.__dict__["norm"] = norm
        ld.np._over.update(linspace=linspace)
        ld.np.__dict__["linspace"] = linspace
        if interp:
            ld.np.__dict__["interp"] = interp
        return ld.load("hvd.rsg"), one

    # ---- one component
    def fill(n, Nf):
        def body(z):
            calls = []

            def interp(t, xp, fp, *a, **k):
                if a or k:
                    raise Unsupported("interp options")
                t, xp, fp = [list(np.ravel(np.asarray(v, dtype=object))) for v in (t, xp, fp)]
                out = [z.fresh("on") for _ in t]
                for o, u in zip(out, t):      # contract of numpy.interp at the ends
                    z.assume(Z.Implies(Z.SymBool(Z.toz(u) == Z.toz(xp[0])), o == fp[0]))
                    z.assume(Z.Implies(Z.SymBool(Z.toz(u) == Z.toz(xp[-1])), o == fp[-1]))
                calls.append((t, xp, fp, out))
                return np.array(out, dtype=object)
            L, one = load(z, interp)
            X = z.array("X", (n, 2))
            X0 = X.copy()
            I = np.asarray(L.interpolate_tst(X, Nf), dtype=object)
            z.passed(I.shape == (max(Nf, 0), 2), f"{Nf} points requested, shape {I.shape}")
            z.passed(all(X[i, j] is X0[i, j] for i in range(n) for j in range(2)), "the argument is not modified")
            if Nf <= 0:
                return
            which = {X0[i, j].e.get_id(): (i, j) for i in range(n) for j in range(2)}

            def source(col):
                """the input rows a list of values was taken from"""
                r = [which.get(v.e.get_id()) if zc.sym(v) else None for v in col]
                if None in r:
                    raise Unsupported("points that are not rows of the component")
                return r
            if not calls:
                # no interpolation: every point of the component is the same
                for i in range(n):
                    for j in range(2):
                        z.ensure(X0[i, j] == X0[0, j], "a component of one point (up to repetitions)")
                        for k in range(Nf):
                            z.ensure(I[k, j] == X0[0, j], "the point itself is returned")
                return
            z.passed(len(calls) == 2, "one interpolation per coordinate")
            order = [[i for i, j in source(c[2])] for c in calls]
            cols = [{j for i, j in source(c[2])} for c in calls]
            z.passed(order[0] == order[1] and sorted(map(tuple, cols)) == [(0,), (1,)], "both coordinates of the same points")
            o = order[0]
            if cols[0] == {1}:
                calls.reverse()
            z.passed(len(set(o)) == len(o), "every point at most once")
            for a, b in zip(o, o[1:]):
                z.ensure(X0[a, 0] <= X0[b, 0], "ordered by the first objective")
            for i in set(range(n)) - set(o):
                z.ensure(Z.Or(*[Z.And(X0[i, 0] == X0[k, 0], X0[i, 1] == X0[k, 1]) for k in o]), "only repetitions are left out")
            s = [0]
            for a, b in zip(o, o[1:]):
                s.append(s[-1] + one(X0[b, 0] - X0[a, 0], X0[b, 1] - X0[a, 1]))
            for c in range(2):
                t, xp, fp, out = calls[c]
                z.passed(len(t) == Nf and len(xp) == len(o), "one position per generated point")
                for u, v in zip(xp, s):
                    z.ensure_eq(u, v, "nodes at their arc length")
                for u, v in zip(xp, xp[1:]):
                    z.ensure(Z.SymBool(Z.toz(u) < Z.toz(v)), "precondition of interp: increasing nodes")
                for k in range(Nf):
                    if Nf > 1:
                        z.ensure(Z.SymBool(Z.toz(t[k]) * (Nf - 1) == Z.toz(s[-1]) * k), "equally spaced positions")
                    else:
                        z.ensure(Z.SymBool(z3.And(Z.toz(t[k]) >= 0, Z.toz(t[k]) <= Z.toz(s[-1]))), "a position on the polyline")
                    if 0 < k < Nf - 1:
                        z.ensure_eq(I[k, c], out[k], "interpolated points are returned")
                if Nf > 1:
                    z.ensure(I[0, c] == X0[o[0], c], "first end point")
                    z.ensure(I[-1, c] == X0[o[-1], c], "last end point")
            if Nf == 1:
                z.ensure(Z.Or(Z.And(*[I[0, c] == calls[c][3][0] for c in range(2)]), *[Z.And(I[0, 0] == X0[i, 0], I[0, 1] == X0[i, 1]) for i in o]),
                         "the single point is on the polyline")
        return body

    def rep_fill(n, Nf):
        def rep(v):
            rng = np.random.RandomState(2)
            tries = [np.array([[v.get(f"X_{i}_{j}") or 0.0 for j in range(2)] for i in range(n)])]
            for _ in range(6):
                t = np.sort(rng.rand(n))
                tries.append(np.c_[t, 1 - t ** 2][rng.permutation(n)])
            tries.append(np.repeat(rng.rand(1, 2), n, 0))
            for X in tries:
                for m in {Nf, 0, 1, 5}:
                    try:
                        I = np.asarray(real.interpolate_tst(X.copy(), m))
                    except Exception as e:
                        return {"component": X.tolist(), "points": m, "raises": f"{type(e).__name__}: {e}"}
                    orders = list(itertools.islice(tied_orders(np.unique(X, axis=0)), 200))
                    bad = None
                    for U in orders:
                        try:
                            if I.shape != (m, 2):
                                raise Fail(f"shape {I.shape}")
                            on_polyline(I, U, m, "component")
                            bad = None
                            break
                        except Fail as e:
                            bad = str(e)
                    if bad:
                        return {"component": X.tolist(), "points": m, "observed": bad}
            return None
        return rep
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for Nf in (-1, 0, 1, 2, 5):
            ctx.obligation(f"one component of {n} points, {Nf} allocated: polyline in the first objective, equal spacing, end points", "hvd.rsg.interpolate_tst",
                           Z.prove(fill(n, Nf), replay=rep_fill(n, Nf), soft=True), bounded=f"{n} points")

    # ---- detection: DBSCAN under its contract (a label per point, -1 for noise)
    def detect(labels):
        def body(z):
            L, one = load(z)
            Py = z.array("P", (len(labels), 2))
            got = {}

            class DB:
                def __init__(self, eps=None, min_samples=None, **k): got.update(eps=eps, ms=min_samples, k=k)
                def fit(self, X):
                    got["X"] = X
                    self.labels_ = np.array(labels, dtype=int)
                    return self
                def fit_predict(self, X): return self.fit(X).labels_
            L.DBSCAN = DB
            eps, mp = z.real("eps"), z.int("mp")
            C, k = L.ComponentDetection(Py, eps, mp)
            z.passed(got["eps"] is eps and got["ms"] is mp and not got["k"], "radius and core size are handed on")
            z.passed(np.asarray(got["X"]).shape == Py.shape and all(a is b for a, b in zip(np.ravel(got["X"]), np.ravel(Py))), "the front is clustered")
            want = [[i for i, l in enumerate(labels) if l == c] for c in sorted(set(labels) - {-1})]
            z.passed(int(k) == len(want) and len(C) == len(want), "one component per cluster, noise left out")
            ids = lambda A: sorted(tuple(v.e.get_id() for v in r) for r in A)
            z.passed(sorted(map(ids, C)) == sorted(ids(Py[w]) for w in want), "the members of each cluster")
        return body

    def rep_detect(labels):
        def rep(v):
            # the labelling realised by well separated groups of at least two points and isolated noise points
            P, x = [], 0.0
            for q, l in enumerate(labels):
                P.append([100.0 * l + .01 * q, 0.0] if l >= 0 else [-1000.0 - 10 * q, 5.0])
            P = np.array(P)
            exp = components(P, .05)
            got, k = real.ComponentDetection(Py=P.copy(), eps=.05, minpts=2)
            key = lambda A: sorted(map(tuple, np.asarray(A)))
            if k != len(exp) or sorted(map(key, got)) != sorted(map(key, exp)):
                return {"front": P.tolist(), "components": k, "clusters": len(exp)}
            return None
        return rep

    def detections():
        be = None
        for n in (1, 2, 3, 4):
            for lab in itertools.product((-1, 0, 1), repeat=n):
                if 1 in lab and 0 not in lab:
                    continue
                be = Z.prove(detect(lab), replay=rep_detect(lab), soft=True)()
        return be
    ctx.obligation("components are the clusters of the front, without noise (every labelling of up to 4 points)", "hvd.rsg.ComponentDetection", detections, bounded="4 points")

    # ---- allocation and assembly
    def alloc(sizes, Nf, flat=()):
        def body(z):
            def zint(x, *a):
                x = zc.scal(x)
                if not zc.sym(x):
                    return int(x, *a)
                for k in range(-1, Nf + 2):
                    if bool(Z.And(x >= k, x < k + 1) if k >= 0 else Z.And(x > k - 1, x < 0)):
                        return k
                raise Unsupported("int() of an unbounded value")
            L, one = load(z, globs={"int": zint})
            Py = z.array("P", (sum(sizes), 2))
            C, p = [], 0
            for c, m in enumerate(sizes):
                B = Py[p:p + m].copy()
                if c in flat:
                    B[:] = B[:1]
                C.append(B)
                p += m
            eps, mp = z.real("eps"), z.int("mp", 1)
            args = []

            def det(Py=None, eps=None, minpts=None):
                args.append((Py, eps, minpts))
                return [c.copy() for c in C], len(C)
            parts = []

            def itp(X, n):
                n = int(n)
                parts.append((np.asarray(X), n, z.array(f"I{len(parts)}", (max(n, 0), 2))))
                return parts[-1][2]
            L.ComponentDetection, L.interpolate_tst = det, itp
            # members of a component differ in the first objective (a non-dominated front), except in collapsed ones
            for c, B in enumerate(C):
                if c not in flat:
                    for i in range(len(B)):
                        for j in range(i):
                            z.assume(Z.Not(B[i, 0] == B[j, 0]))
            F = np.asarray(L.RSG(Py, Nf, eps=eps, minpts=mp), dtype=object)
            z.passed(len(args) == 1 and args[0][0] is Py and args[0][1] is eps and args[0][2] is mp, "components of the front for the given parameters")
            z.passed(len(parts) == len(C), "every component is filled once")
            ids = lambda A: sorted(tuple(v.e.get_id() for v in r) for r in A)
            lens = []
            for B in C:
                o = sorted(range(len(B)), key=Z.functools_cmp(lambda a, b: -1 if bool(B[a, 0] < B[b, 0]) else 1 if bool(B[b, 0] < B[a, 0]) else 0))
                lens.append(sum((one(B[b, 0] - B[a, 0], B[b, 1] - B[a, 1]) for a, b in zip(o, o[1:])), 0))
            tot = sum(lens, 0)
            zero = bool(tot == 0) if zc.sym(tot) else tot == 0
            rest = list(parts)
            for B, l in zip(C, lens):
                k = next((q for q in rest if ids(q[0]) == ids(B)), None)
                z.passed(k is not None, "a component is filled from its own points")
                rest.remove(k)
                n = k[1]
                if zero:     # n = round(Nf / number of components)
                    z.passed(n == mround(Z.fractions.Fraction(Nf, len(C))), f"equal shares: {n} of {Nf} over {len(C)} components of zero length")
                else:        # n <= Nf l / tot + 1/2 < n + 1
                    z.ensure(Z.And(Z.SymBool(Z.toz(2 * n * tot) <= Z.toz(2 * Nf * l + tot)), Z.SymBool(Z.toz(2 * Nf * l + tot) < Z.toz(2 * (n + 1) * tot))),
                             f"{n} points: the rounded share of the length")
            z.passed(F.shape == (sum(q[1] for q in parts), 2), f"all generated points, shape {F.shape}")
            z.passed(ids(F) == sorted(r for q in parts for r in ids(q[2])), "the generated points are exactly those of the components")
        return body

    def rep_alloc(sizes, Nf, flat):
        def rep(v):
            rng = np.random.RandomState(7)
            for _ in range(12):
                P, x, y = [], 0.0, 10.0
                for c, m in enumerate(sizes):
                    m = max(m, 2)
                    d = np.zeros(m) if c in flat else np.r_[0, rng.uniform(.01, .05, m - 1)]
                    P.append(np.c_[x + np.cumsum(d), y - np.cumsum(d)])
                    x, y = P[-1][-1, 0] + .5, P[-1][-1, 1] - .5
                L = [np.linalg.norm(np.diff(q, axis=0), axis=1).sum() for q in P]
                e = [Nf * (l / sum(L) if sum(L) > 0 else 1 / max(len(L), 1)) for l in L]
                if any(abs(u % 1 - .5) < 1e-6 for u in e):
                    continue
                A = np.concatenate(P)[rng.permutation(sum(map(len, P)))] if P else np.array([[0., 0.], [1., -1.]])
                try:
                    F = np.asarray(real.RSG(A.copy(), Nf))
                except Exception as err:
                    return {"front": A.tolist(), "Nf": Nf, "raises": f"{type(err).__name__}: {err}"}
                n = [int(((F[:, 0] >= q[0, 0] - 1e-9) & (F[:, 0] <= q[-1, 0] + 1e-9)).sum()) for q in P] if F.ndim == 2 else None
                if n != [mround(u) for u in e] or len(F) != sum(map(mround, e)):
                    return {"front": A.tolist(), "Nf": Nf, "points per component": n, "shares": [mround(u) for u in e]}
            return None
        return rep
    for sizes, flat in (((), ()), ((2,), ()), ((2,), (0,)), ((2, 2), ()), ((3, 2), ()), ((2, 2), (0, 1)), ((2, 2), (1,)), ((1, 2), ())) + (
            (((2, 2, 2), ()), ((3, 3), ()), ((2, 2, 2), (0, 1, 2))) if ctx.thorough else ()):
        for Nf in (0, 1, 3):
            ctx.obligation(f"{Nf} points over components of {sizes} points{f', {flat} collapsed' if flat else ''}: rounded shares, every generated point kept", "hvd.rsg.RSG",
                           Z.prove(alloc(sizes, Nf, flat), replay=rep_alloc(sizes, Nf, flat), soft=True, budget=200.0), bounded=f"components of {sizes} points")
    ctx.trusted |= {"numpy.interp: piecewise linear interpolation through increasing nodes", "sklearn.cluster.DBSCAN: labels of the density clusters, -1 for noise",
                    "numpy.linalg.norm of a planar vector: non-negative, zero exactly for the zero vector, even"}
