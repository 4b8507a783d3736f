"""P01: hypervolume value."""
from pyvc.check import Fail, Skip
from . import oracle
import numpy as np


def incl_excl(P, r, cap=True):
    """volume of the union of the boxes [p, r] by inclusion and exclusion, on terms (comparisons fork)"""
    import itertools
    tot = 0
    for k in range(1, len(P) + 1):
        for S in itertools.combinations(range(len(P)), k):
            v = 1
            for j in range(len(r)):
                m = P[S[0]][j]
                for i in S[1:]:
                    m = m if bool(m >= P[i][j]) else P[i][j]
                w = r[j] - m
                v = v * ((w if bool(w >= 0) else 0) if cap else w)
            tot = tot + v if k % 2 else tot - v
    return tot


BIG = 10 ** 9


def prove(ctx):
    from pyvc import zsym as Z
    from . import zc
    import itertools
    from hvd.hypervolume import hypervolume as real_hv
    from hvd import hypervolume_derivatives as real_hd
    jobs = 8
    M = Z.ZLoader().load("hvd.hypervolume")

    def points(vals, n, d):
        return np.array([[vals[f"y{i}_{j}"] for j in range(d)] for i in range(n)]).reshape(n, d), np.array(
            [vals.get(f"r{j}", 0.0) for j in range(d)])

    def replay(n, d):
        def f(vals):
            if vals is None or any(v is None for v in vals.values()):
                return None
            Y, r = points(vals, n, d)
            exp = float(oracle.hv(Y.tolist(), r.tolist()))
            Y0, r0 = Y.copy(), r.copy()
            try:
                got = float(real_hv(Y, r))
                if not np.array_equal(Y, Y0) or not np.array_equal(r, r0):
                    got = "input modified"
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if isinstance(got, str) or abs(got - exp) > 1e-7 * (1 + abs(exp)):
                return dict(Y=Y0, ref=r0, got=got, expected=exp)
        return f

    def value(n, d, free):
        def body(z):
            P = [[z.real(f"y{i}_{j}") for j in range(d)] for i in range(n)]
            r = [z.real(f"r{j}") for j in range(d)] if free else [0.0] * d
            for p in P:
                for j in range(d):
                    z.assume(p[j] - r[j] >= -BIG)      # the sweep starts from the bound -1e308
                    if not free:
                        z.assume(p[j] <= r[j])
            A = [list(p) for p in P]
            R = list(r)
            got = M.hypervolume(A, R)
            z.ensure_eq(got, incl_excl(P, r, free), f"the hypervolume of {n} points in {d} dimensions is the measure of the union of the boxes")
            z.passed(all(x is y for a, p in zip(A, P) for x, y in zip(a, p)) and all(x is y for x, y in zip(R, r)), "inputs are not modified")
        return body
    more = [(4, 2, False), (4, 3, False)] if ctx.thorough else []
    for n, d, free in [(0, 2, True), (1, 1, True), (1, 2, True), (1, 3, True), (1, 4, True), (2, 2, True), (2, 3, True), (3, 2, True), (3, 2, False),
                       (2, 4, False), (2, 5, False), (3, 3, False)] + more:
        ctx.obligation(f"value-{n}-points-{d}-d-{'any' if free else 'inside'}", "hvd.hypervolume.HyperVolume.compute / hvRecursive / preProcess",
                       Z.prove(value(n, d, free), replay(n, d), soft=True, budget=90 if not ctx.thorough else 400, max_paths=400000, jobs=jobs if n * d > 3 else 1),
                       bounded=f"N = {n}, d = {d}; all real coordinates, ties included; " + (
                           "any reference point, points inside or outside" if free else "reference at the origin, points inside"))

    # ---- two objectives, any number of points: the sweep over a list ordered by the second coordinate
    class Cargo:
        def __init__(self, l, k): self.l, self.k = l, k

        def __getitem__(self, j):
            self.l.unfold(self.k - 1)
            self.l.z.ensure(Z.And(self.k >= 0, self.k < self.l.n), "a point is only read from a node that holds one")
            return Z.Sym((self.l.fx, self.l.fy)[j](Z.toi(self.k)))

    class Node:
        """k-th node of the list of dimension 1; the sentinel is node number n (and -1)"""
        def __init__(self, l, k):
            self.l, self.k = l, k

        @property
        def next(self):
            self.l.unfold(self.k)
            return {1: Node(self.l, self.k + 1)}
        @property
        def prev(self): return {1: Node(self.l, self.k - 1)}
        @property
        def cargo(self): return Cargo(self.l, self.k)
        def same_object(self, o): return Z.Or(self.k == o.k, Z.And(Z.Or(self.k == -1, self.k == self.l.n), Z.Or(o.k == -1, o.k == self.l.n)))

    class Sentinel(Node):
        @property
        def next(self): return {1: Node(self.l, 0 * self.l.n)}
        @property
        def prev(self): return {1: Node(self.l, self.l.n - 1)}

    class List:
        pass

    def w(z, old): return Node(old.l, z.fresh("k", "int"))

    def inv(env, _):
        l, p, q, h, a = env["sentinel"].l, env["p"], env["q"], env["h"], env["hvol"]
        return Z.And(p.k >= 1, p.k <= l.n, q.k == p.k - 1, h == Z.Sym(l.M(Z.toi(q.k))), a == Z.Sym(l.A(Z.toi(q.k))))
    U = Z.ZLoader(loops={"hvd.hypervolume": {("HyperVolume.hvRecursive", 0): Z.Loop(inv, dict(p=w, q=w, pCargo=lambda z, o: None))}}).load("hvd.hypervolume")

    def sweep(z):
        z3 = Z.z3
        I, R = z3.IntSort(), z3.RealSort()
        l = List()
        l.z, l.n = z, z.int("n", 0)
        l.fx, l.fy, l.M, l.A = [z3.Function(s, I, R) for s in ("x", "y", "minx", "area")]
        x, y, m, a = [lambda k, f=f: Z.Sym(f(Z.toi(k))) for f in (l.fx, l.fy, l.M, l.A)]
        # ghosts, unfolded where the code advances: least first coordinate of points 0..k; area of the strips below y_k
        z.assume(m(0) == x(0))
        z.assume(a(0) == 0)

        def unfold(k):
            z.assume(m(k + 1) == Z.Sym(z3.If((m(k) <= x(k + 1)).e, m(k).e, x(k + 1).e)))
            z.assume(a(k + 1) == a(k) - m(k) * (y(k + 1) - y(k)))
        l.unfold = unfold
        o = U.HyperVolume([0.0, 0.0])
        o.list = List()
        o.list.sentinel = Sentinel(l, l.n)
        r = o.hvRecursive(1, l.n, [-1e308, -1e308])
        if bool(l.n == 0):
            z.ensure_eq(r, 0, "the empty set has value zero")
        else:
            z.ensure(r == a(l.n - 1) - m(l.n - 1) * (0 - y(l.n - 1)), "the sweep returns the sum of the strip areas")

    def strips(z):
        """the strips of the sweep are those of the dominated region: at height v in [y_k, y_(k+1)) the widest box reaches minx(k)"""
        z3 = Z.z3
        I, R = z3.IntSort(), z3.RealSort()
        fx, fy, fm = [z3.Function(s, I, R) for s in ("x", "y", "minx")]
        x, y, m = [lambda k, f=f: Z.Sym(f(Z.toi(k))) for f in (fx, fy, fm)]
        n, k = z.int("n", 1), z.int("k", 0)
        z.assume(Z.ForAll(["k"], lambda k: Z.Implies(k >= 0, m(k + 1) == Z.Sym(z3.If((m(k) <= x(k + 1)).e, m(k).e, x(k + 1).e)))))
        z.assume(m(0) == x(0))

        def P(k):
            return Z.And(Z.ForAll(["i"], lambda i: Z.Implies(Z.And(0 <= i, i <= k), m(k) <= x(i))),
                         Z.Exists(["i"], lambda i: Z.And(0 <= i, i <= k, m(k) == x(i))))
        if z.choose(True, False):       # lemma, by induction on k
            z.ensure(P(0), "base")
            z.assume(P(k))
            z.ensure(P(k + 1), "step")
            return
        z.assume(Z.ForAll(["i", "j"], lambda i, j: Z.Implies(Z.And(0 <= i, i <= j, j < n), y(i) <= y(j))))        # contract of preProcess
        z.assume(P(k))
        v, i = z.real("v"), z.int("point", 0)
        z.assume(Z.And(k < n, i < n, y(k) <= v, Z.Or(k == n - 1, v < y(k + 1)), y(i) <= v))
        z.ensure(x(i) >= m(k), "no point at or below the height reaches further than the strip is wide")
        z.ensure(Z.Exists(["i"], lambda i: Z.And(0 <= i, i < n, y(i) <= v, x(i) == m(k))), "the strip's width is attained by a point at or below it")
    ctx.obligation("strips-of-the-region", "hvd.hypervolume.HyperVolume.hvRecursive", Z.prove(strips, soft=True, budget=60))
    ctx.obligation("sweep-2-d-any-size", "hvd.hypervolume.HyperVolume.hvRecursive", Z.prove(sweep, soft=True, budget=60))

    # ---- the lists built by preProcess, and remove / reinsert
    def chain(s, i, n):
        out, p = [], s.next[i]
        while p is not s:
            out.append(p)
            if len(out) > n or p.next[i].prev[i] is not p:
                return None
            p = p.next[i]
        return out

    def lists(n, d):
        def body(z):
            P = [[z.real(f"y{i}_{j}") for j in range(d)] for i in range(n)]
            o = M.HyperVolume([0.0] * d)
            o.preProcess([list(p) for p in P])
            s = o.list.sentinel
            base = None
            for i in range(d):
                c = chain(s, i, n)
                z.passed(c is not None and len(c) == n, "every list is a well-formed doubly linked list with one node per point")
                base = base or c
                z.passed(len({id(v) for v in c}) == n and {id(v) for v in c} == {id(v) for v in base}, "all lists share the same nodes")
                for a, b in zip(c, c[1:]):
                    z.ensure(a.cargo[i] <= b.cargo[i], "list i is ordered by coordinate i")
            z.passed(sorted(tuple(id(v) for v in q.cargo) for q in base) == sorted(tuple(id(v) for v in p) for p in P), "the nodes hold the points")
            if n and d > 1:
                for node in base:
                    # lists above the index keep the node; bounds become the least removed coordinates
                    bounds = [z.real(f"b{j}") for j in range(d)]
                    old = list(bounds)
                    before = [chain(s, i, n) for i in range(d)]
                    o.list.remove(node, d - 1, bounds)
                    for i in range(d):
                        c = chain(s, i, n)
                        want = before[i] if i == d - 1 else [v for v in before[i] if v is not node]
                        z.passed(c is not None and len(c) == len(want) and all(u is v for u, v in zip(c, want)), "remove takes the node out of the lists below the index only")
                        z.ensure(bounds[i] == (old[i] if i == d - 1 else Z.zmin(old[i], node.cargo[i])), "remove lowers the bounds to the removed coordinates")
                    o.list.reinsert(node, d - 1, bounds)
                    for i in range(d):
                        c = chain(s, i, n)
                        z.passed(c is not None and len(c) == n and all(u is v for u, v in zip(c, before[i])), "reinsert restores the lists")
        return body
    for n, d in [(1, 3), (2, 3), (3, 2)]:
        ctx.obligation(f"lists-{n}-points-{d}-d", "hvd.hypervolume.HyperVolume.preProcess / MultiList.extend / remove / reinsert",
                       Z.prove(lists(n, d), soft=True, budget=60, jobs=jobs), bounded=f"N = {n}, d = {d}; all real coordinates")

    # ---- entry points: what reaches `hypervolume` (abstract function of the points and the reference)
    class Tag:
        pass
    ld = Z.ZLoader()
    D = ld.load("hvd.hypervolume_derivatives")

    def entry(n, d, mini, withY):
        def body(z):
            s = 1 if mini else -1
            X = z.array("x", (n, d))
            ref = z.array("r", (d,))
            f = z.fun("f", d + 1)
            fx = lambda x: np.array([f(j, *x) for j in range(d)], dtype=object)
            calls = []

            def hv(Y, r):
                calls.append((Y, r))
                return Z.CUR.real("hv")
            D.hypervolume = hv
            o = D.HypervolumeDerivatives(d, d, ref, func=fx, minimization=mini)
            Y = np.array([fx(x) for x in X], dtype=object).reshape(n, d)
            X0, Y0, r0 = X.copy(), Y.copy(), ref.copy()
            got = o.compute(Y=Y) if withY else o.compute(X)
            z.passed(len(calls) == 1, "the value is one hypervolume")
            V, r = calls[0]
            z.ensure_eq(got, z.real("hv"), "the value is that hypervolume")
            z.passed(len(V) == n and len(r) == d, "one objective vector per point")
            for i in range(n):
                for j in range(d):
                    z.ensure_eq(V[i][j], s * Y0[i, j], "the points are the objective vectors (negated for maximisation)")
            for j in range(d):
                z.ensure_eq(r[j], s * r0[j], "the reference point (negated for maximisation)")
            z.passed(all(a is b for A, B in ((X, X0), (Y, Y0), (ref, r0)) for a, b in zip(A.ravel(), B.ravel())), "inputs are not modified")
        return body
    def rep_entry(n, d, mini, withY):
        def f(vals):
            rng = np.random.RandomState(3)
            for _ in range(20):
                Y = rng.randint(0, 6, (n, d)).astype(float)
                ref = rng.randint(3, 9, d).astype(float)
                s = 1.0 if mini else -1.0
                exp = float(oracle.hv(Y.tolist(), ref.tolist()))
                o = real_hd.HypervolumeDerivatives(d, d, s * ref, func=lambda x: x, minimization=mini)
                try:
                    got = float(o.compute(**({"Y": s * Y} if withY else {"X": s * Y})))
                except Exception as e:
                    got = repr(e)
                if isinstance(got, str) or abs(got - exp) > 1e-9 * (1 + exp):
                    return dict(Y=s * Y, ref=s * ref, minimization=mini, got=got, expected=exp)
        return f
    for mini in (True, False):
        for withY in (True, False):
            ctx.obligation(f"indicator-{'min' if mini else 'max'}-from-{'Y' if withY else 'X'}", "hvd.hypervolume_derivatives.HypervolumeDerivatives.compute",
                           Z.prove(entry(3, 2, mini, withY), rep_entry(3, 2, mini, withY), soft=True),
                           bounded="3 points in 2 dimensions; any objective function and reference point")


def concrete(ctx):
    from hvd.hypervolume import hypervolume
    from hvd.hypervolume_derivatives import HypervolumeDerivatives, hypervolume_improvement

    def gen(rng, dims):
        d = int(rng.choice(dims))
        n = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 14] if d <= 4 else [1, 2, 3, 4, 5, 6, 7]))
        if n == 0:
            return np.zeros((0, d)), rng.randint(-2, 3, d).astype(float), "empty", 1.0, n, d
        Y, ref, kind = oracle.points(rng, n, d)
        shift = rng.randint(-9, 9, d) * int(rng.rand() < .6)
        if rng.rand() < .15:
            shift = -ref          # reference at the origin: no translation branch
        sc = float(rng.choice([1.0, 0.25, 64.0]))
        return (Y + shift) * sc, (ref + shift) * sc, kind, sc, n, d

    def value(rng):
        Y, ref, kind, sc, n, d = gen(rng, [1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        exp = float(oracle.hv([tuple(map(float, y)) for y in Y], tuple(map(float, ref))))
        Y0, r0 = Y.copy(), ref.copy()
        arg = Y if rng.rand() < .6 else [list(y) for y in Y]
        got = float(hypervolume(arg, ref if rng.rand() < .7 else list(ref)))
        if abs(got - exp) > 1e-9 * (1 + abs(exp)):
            raise Fail(f"hypervolume of {n} points in {d} dimensions: reported {got}, measure of the dominated region {exp}",
                       Y=Y0, ref=r0, got=got, expected=exp)
        if not np.array_equal(np.asarray(arg, float).reshape(Y0.shape), Y0) or not np.array_equal(ref, r0):
            raise Fail("hypervolume modified its input", Y=Y0, ref=r0)
        if n:
            p = rng.permutation(n)
            g2 = float(hypervolume(Y[p], ref))
            if abs(g2 - exp) > 1e-9 * (1 + abs(exp)):
                raise Fail("hypervolume depends on the order of the points", Y=Y0[p], ref=r0, got=g2, expected=exp)
        return (kind, n, d, int(np.sum(np.any(Y0 > r0, axis=1))) if n else 0, len({tuple(y) for y in Y0}))

    def reals(rng):
        d = int(rng.choice([2, 3, 4, 5]))
        n = rng.randint(1, 9)
        Y = rng.rand(n, d) * rng.choice([1e-3, 1, 100])
        ref = Y.max(0) * rng.uniform(.8, 1.3, d)
        exp = oracle.hv(Y.tolist(), ref.tolist())
        got = float(hypervolume(Y, ref))
        if abs(got - exp) > 1e-9 * (abs(exp) + 1e-12):
            raise Fail("hypervolume of real-valued points is wrong", Y=Y, ref=ref, got=got, expected=exp)
        return (n, d)

    def entry(rng):
        Y, ref, kind, sc, n, d = gen(rng, [2, 3, 4])
        if n == 0:
            return None
        mini = bool(rng.rand() < .6)
        s = 1.0 if mini else -1.0
        exp = float(oracle.hv([tuple(map(float, y)) for y in Y], tuple(map(float, ref))))
        o = HypervolumeDerivatives(d, d, s * ref, func=lambda x: x, jac=lambda x: np.eye(d),
                                   hessian=lambda x: np.zeros((d, d, d)), minimization=mini)
        X = s * Y
        X0 = X.copy()
        for nm, kw in (("X", dict(X=X)), ("Y", dict(Y=X))):
            got = float(o.compute(**kw))
            if abs(got - exp) > 1e-9 * (1 + abs(exp)):
                raise Fail(f"indicator value from {nm} with minimization={mini} is {got}, expected {exp}", Y=X0, ref=s * ref)
        if not np.array_equal(X, X0):
            raise Fail("indicator value modified its input", Y=X0)
        if n and mini:
            x = rng.randint(0, 6, d) * sc
            Yf = Y.astype(float)
            imp = float(hypervolume_improvement(x.astype(float), Yf, ref))
            e = float(oracle.hv([tuple(map(float, y)) for y in np.vstack([Y, x])], tuple(map(float, ref)))) - exp
            if abs(imp - e) > 1e-9 * (1 + abs(e)):
                raise Fail("hypervolume improvement is wrong", x=x, Y=Y0(Y), ref=ref, got=imp, expected=e)
        return (kind, n, d, mini)

    def Y0(Y):
        return Y
    k = 6 if ctx.thorough else 1
    ctx.scenario("value", value, 1500 * k)
    ctx.scenario("reals", reals, 300 * k)
    ctx.scenario("entry", entry, 400 * k)
