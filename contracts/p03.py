"""P03: non-dominated sorting."""
from pyvc.check import Fail, Skip
from . import oracle
import numpy as np


# ------------------------------------------------------------------ deductive part
class Rows:
    """rows lo..hi-1 of a matrix F(row, column) with a symbolic number of rows and columns; indices are absolute"""

    def __init__(self, f, lo, hi, d):
        self.f, self.lo, self.hi, self.d = f, lo, hi, d

    def vlen(self):
        return self.hi - self.lo

    @property
    def shape(self):
        return (self.vlen(), self.d)

    def item(self, k):
        return Row(self.f, self.d, self.lo + k)

    def __getitem__(self, k):
        from pyvc import zsym as Z
        if isinstance(k, slice) and k.step is None:
            # numpy slice of a sequence of length n for 0 <= a <= n, 0 <= b <= n (checked)
            a = 0 if k.start is None else k.start
            b = self.vlen() if k.stop is None else k.stop
            Z.CUR.ensure(Z.And(a >= 0, b >= 0, a <= self.vlen(), b <= self.vlen()) if not isinstance(a, int) or a else Z.And(b >= 0, b <= self.vlen()), "slice bounds")
            return Rows(self.f, self.lo + a, self.lo + b, self.d)
        if isinstance(k, Picked):
            return Subset(self, k)
        if isinstance(k, tuple):
            return self.f(self.lo + k[0], k[1])
        return self.item(k)

    def _cmp(self, o, op):
        if not isinstance(o, Row):
            raise Z_unsupported("comparison of a matrix")
        return BMat(self, lambda i, c: op(self.f(i, c), o.f(o.k, c)))

    # any/all along the columns of a comparison of two rows is folded to the predicate W(j, i) = "row j <= row i everywhere"
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b).fold(False, lambda i: ~W(i, o.k))
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b).fold(True, lambda i: W(o.k, i))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b).fold(False, lambda i: ~W(o.k, i))
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b).fold(True, lambda i: W(i, o.k))


def W(i, j):
    import z3
    from pyvc import zsym as Z
    w = z3.Function("W", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    return Z.SymBool(w(z3.simplify(Z.toi(i)), z3.simplify(Z.toi(j))))


class Row:
    def __init__(self, f, d, k):
        self.f, self.d, self.k = f, d, k

    def vlen(self):
        return self.d

    def __getitem__(self, c):
        return self.f(self.k, c)

    def __gt__(self, o): return o < self if isinstance(o, Rows) else NotImplemented
    def __lt__(self, o): return o > self if isinstance(o, Rows) else NotImplemented
    def __ge__(self, o): return o <= self if isinstance(o, Rows) else NotImplemented
    def __le__(self, o): return o >= self if isinstance(o, Rows) else NotImplemented


class BMat:
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.folded = (None, None)

    def fold(self, universal, p):
        self.folded = (universal, p)
        return self

    def __invert__(self):
        from pyvc import zsym as Z
        m = BMat(self.r, lambda i, c: Z.Not(self.p(i, c)))
        if self.folded[0] is not None:
            q = self.folded[1]
            m.fold(not self.folded[0], lambda i: Z.Not(q(i)))
        return m


class BVec:
    def __init__(self, lo, hi, p):
        self.lo, self.hi, self.p = lo, hi, p

    def __invert__(self):
        from pyvc import zsym as Z
        return BVec(self.lo, self.hi, lambda i: Z.Not(self.p(i)))

    def __and__(self, o):
        from pyvc import zsym as Z
        return BVec(self.lo, self.hi, lambda i: Z.And(self.p(i), o.p(i)))

    def __or__(self, o):
        from pyvc import zsym as Z
        return BVec(self.lo, self.hi, lambda i: Z.Or(self.p(i), o.p(i)))


def _q(universal, lo, hi, p):
    from pyvc import zsym as Z
    if universal:
        return Z.ForAll(["j"], lambda j: Z.Implies(Z.And(j >= lo, j < hi), p(j)))
    return Z.Exists(["j"], lambda j: Z.And(j >= lo, j < hi, p(j)))


def red(universal):
    def g(x, axis=None, **k):
        import numpy
        if isinstance(x, BMat):
            if axis in (1, -1) and x.folded[0] is universal:
                return BVec(x.r.lo, x.r.hi, x.folded[1])
            if axis in (1, -1):
                return BVec(x.r.lo, x.r.hi, lambda i: _q(universal, 0, x.r.d, lambda c: x.p(i, c)))
            raise Z_unsupported("reduction over rows")
        if isinstance(x, BVec):
            return _q(universal, x.lo, x.hi, x.p)
        return (numpy.all if universal else numpy.any)(x, axis=axis, **k)
    return g


class Picked:
    """list of row indices in increasing order, given by its membership predicate"""

    def __init__(self, member, last=None):
        self.member, self.last = member, last

    def append(self, i):
        from pyvc import zsym as Z
        old = self.member
        Z.CUR.ensure(Z.ForAll(["j"], lambda j: Z.Implies(old(j), j < i)), "indices are appended in increasing order")
        self.member = lambda j: Z.Or(old(j), j == i)


class Subset:
    def __init__(self, rows, picked):
        self.rows, self.picked, self.fresh = rows, picked, False

    def copy(self):
        s = Subset(self.rows, self.picked)
        s.fresh = True
        return s


def Z_unsupported(m):
    from pyvc.poly import Unsupported
    return Unsupported(m)


def prove(ctx):
    from pyvc import zsym as Z
    from hvd import utils as real

    # ---- is_dominate: sequences of any length
    def inv(e, k):
        a, b = e["leftv"], e["rightv"]
        return Z.And(Z.Iff(e["is_one_value_less"], Z.Exists(["j"], lambda j: Z.And(j >= 0, j < k, a[j] < b[j]))),
                     e["is_all_values_less_or_eq"], Z.ForAll(["j"], lambda j: Z.Implies(Z.And(j >= 0, j < k), a[j] <= b[j])))

    def dom(z):
        L = Z.ZLoader(loops={"hvd.utils": {("is_dominate", 0): Z.Loop(inv)}}).load("hvd.utils")
        n = z.int("n", 0)
        a, b = Z.seq(z, "a", n), Z.seq(z, "b", n)
        r = L.is_dominate(a, b)
        spec = Z.And(_q(True, 0, n, lambda j: a[j] <= b[j]), _q(False, 0, n, lambda j: a[j] < b[j]))
        z.ensure(Z.Iff(r, spec), "is_dominate(a, b) <=> a <= b everywhere and a < b somewhere")
    ctx.obligation("is_dominate, vectors of any length", "hvd.utils.is_dominate", Z.prove(dom, soft=True))

    L = Z.ZLoader().load("hvd.utils")

    def domd(d):
        def body(z):
            a, b = [z.real(f"a{k}") for k in range(d)], [z.real(f"b{k}") for k in range(d)]
            r = L.is_dominate(a, b)
            z.ensure(Z.Iff(r, Z.And(*[x <= y for x, y in zip(a, b)], Z.Or(*[x < y for x, y in zip(a, b)]))), "is_dominate")
        return body

    def domrep(d):
        def rep(v):
            a, b = [v[f"a{k}"] for k in range(d)], [v[f"b{k}"] for k in range(d)]
            if bool(real.is_dominate(a, b)) != oracle.dominates(a, b):
                return {"a": a, "b": b, "observed": bool(real.is_dominate(a, b))}
        return rep
    for d in (1, 2, 3):
        ctx.obligation(f"is_dominate, {d} coordinates", "hvd.utils.is_dominate", Z.prove(domd(d), domrep(d)), bounded=f"length {d}, all reals")

    # ---- get_non_dominated: any number of rows and columns
    def nd(n, i):
        return _q(False, 0, n, lambda j: Z.And(j != i, W(j, i)))

    def ginv(e, k):
        F = e["pareto_front"]
        p = e["pareto_indices"]
        mem = p.member if isinstance(p, Picked) else (lambda j: Z.Or(*[j == x for x in p]))
        f = lambda i: Z.Iff(mem(i), Z.And(i >= 0, i < k, Z.Not(nd(F.hi, i))))
        return Z.And(f(k - 1), Z.ForAll(["i"], lambda i: Z.Implies(i != k - 1, f(i))))

    def z3fun(z, name):
        import z3
        f = z3.Function(z.name(name), z3.IntSort(), z3.BoolSort())
        return lambda j: Z.SymBool(f(Z.toi(j)))

    def gnd(ret):
        def body(z):
            import z3
            sp = {("get_non_dominated", 0): Z.Loop(ginv, havoc={"pareto_indices": lambda z, old: Picked(z3fun(z, "picked"))})}
            ld = Z.ZLoader(loops={"hvd.utils": sp}, np_over={"all": red(True), "any": red(False)})
            nparr = ld.np.array
            ld.np.__dict__.update(all=red(True), any=red(False), array=lambda x, *a, **k: x if isinstance(x, Picked) else nparr(x, *a, **k))
            L = ld.load("hvd.utils")
            L.__dict__["__builtins__"]["enumerate"] = lambda x: Z.SeqLen(x.vlen(), lambda k: (k, x.item(k))) if isinstance(x, Rows) else enumerate(x)
            n, d = z.int("n", 0), z.int("d", 1)
            f = z3.Function("F", z3.IntSort(), z3.IntSort(), z3.RealSort())
            F = Rows(lambda i, c: Z.Sym(f(Z.toi(i), Z.toi(c))), 0, n, d)
            r = L.get_non_dominated(F, return_index=ret)
            p = r if ret else r.picked
            if not ret and not (isinstance(r, Subset) and r.rows is F and r.fresh):
                raise Z.Broken("the returned rows are not a copy of rows of the argument")
            z.ensure(Z.ForAll(["i"], lambda i: Z.Iff(p.member(i), Z.And(i >= 0, i < n, Z.Not(nd(n, i))))),
                     "exactly the rows that no other row weakly dominates")
        return body
    for ret in (True, False):
        ctx.obligation(f"get_non_dominated, any size ({'indices' if ret else 'rows'})", "hvd.utils.get_non_dominated", Z.prove(gnd(ret), soft=True))

    # ---- bounded in shape, all reals, with replay
    def gbody(n, d):
        def body(z):
            F = z.array("F", (n, d))
            idx = [int(i) for i in L.get_non_dominated(F, return_index=True)]
            z.passed(sorted(set(idx)) == idx and all(0 <= i < n for i in idx), f"indices {idx}")
            for i in range(n):
                spec = Z.Not(Z.Or(*[Z.And(*[F[j, c] <= F[i, c] for c in range(d)]) for j in range(n) if j != i]))
                z.ensure(Z.Iff(i in idx, spec), f"membership of row {i}")
        return body

    def mat(v, n, d):
        return np.array([[v[f"F_{i}_{c}"] for c in range(d)] for i in range(n)])

    def grep_(n, d):
        def rep(v):
            Y = mat(v, n, d)
            e = [i for i in range(n) if not any(j != i and np.all(Y[j] <= Y[i]) for j in range(n))]
            g = [int(i) for i in real.get_non_dominated(Y, return_index=True)]
            if g != e:
                return {"Y": Y.tolist(), "observed": g, "expected": e}
        return rep
    for n, d in ((1, 2), (2, 2), (2, 3), (3, 2)) + (((3, 3), (4, 2)) if ctx.thorough else ()):
        ctx.obligation(f"get_non_dominated {n}x{d}", "hvd.utils.get_non_dominated", Z.prove(gbody(n, d), grep_(n, d), budget=200), bounded=f"{n} rows, {d} columns, all reals")

    def sbody(n, d, mode):
        def body(z):
            F = z.array("F", (n, d))
            r = L.non_domin_sort([F[i] for i in range(n)], only_front_indices=True)
            rank = {}
            for k, v in r.items():
                for i in v:
                    z.passed(int(i) not in rank, "an index appears twice")
                    rank[int(i)] = int(k)
            z.passed(sorted(rank) == list(range(n)), "an index is missing")
            # the front number satisfies the defining recursion of the longest chain
            dm = lambda j, i: Z.And(*[F[j, c] <= F[i, c] for c in range(d)], Z.Or(*[F[j, c] < F[i, c] for c in range(d)]))
            for i in range(n):
                for j in range(n):
                    if j != i and rank[j] >= rank[i]:
                        z.ensure(Z.Not(dm(j, i)), f"row {j} (front {rank[j]}) does not dominate row {i} (front {rank[i]})")
                if rank[i] > 0:
                    z.ensure(Z.Or(*[dm(j, i) for j in range(n) if rank[j] == rank[i] - 1]), f"row {i} of front {rank[i]} is dominated by a member of the previous front")
        return body

    def srep(n, d):
        def rep(v):
            Y = mat(v, n, d)
            R = oracle.ranks(Y.tolist())
            g = {int(i): int(k) for k, q in real.non_domin_sort(Y, only_front_indices=True).items() for i in q}
            if [g.get(i) for i in range(n)] != list(R):
                return {"Y": Y.tolist(), "observed": g, "expected": list(R)}
        return rep
    for n, d in ((1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)) + (((4, 3), (5, 2), (3, 4)) if ctx.thorough else ()):
        ctx.obligation(f"non_domin_sort {n}x{d}", "hvd.utils.non_domin_sort", Z.prove(sbody(n, d, True), srep(n, d), budget=40 if not ctx.thorough else 400, max_paths=500000),
                       bounded=f"{n} rows, {d} columns, all reals")
    for f in ("_nd_helper_a", "_nd_helper_b", "_sweep_a", "_sweep_b", "_split_by", "_merge", "_is_seq_has_one_uniq_value"):
        ctx.functions.add("hvd.utils." + f)
    ctx.trusted |= {"numpy all/any/array contracts (symbolic shapes)", "CPython sorted/dict/set", "statistics.median_low"}


def concrete(ctx):
    from hvd.utils import non_domin_sort, get_non_dominated, is_dominate

    def gen(rng):
        d = int(rng.choice([2, 2, 3, 3, 4, 5, 6]))
        n = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 35]))
        Y, _, kind = oracle.points(rng, n, d)
        if rng.rand() < .3:
            Y = np.vstack([Y, Y[rng.randint(0, n, rng.randint(1, 4))]])
        if rng.rand() < .2:      # nearly tied rows: domination is exact, without a tolerance
            m = rng.randint(1, 4)
            Z = Y[rng.randint(0, n, m)]
            Y = np.vstack([Y, Z + rng.randint(-1, 2, Z.shape) * 2.0 ** -float(rng.choice([20, 30, 40]))])
            kind += "+near"
        Y = Y * float(rng.choice([1, .5, -1, 1e-3])) + float(rng.choice([0, 10, -3]))
        return Y, kind, len(Y), d

    def sort(rng):
        Y, kind, n, d = gen(rng)
        R = oracle.ranks(Y.tolist())
        Y0 = Y.copy()
        f = non_domin_sort(Y, only_front_indices=True)
        got = {}
        for k, v in f.items():
            for i in np.asarray(v).ravel():
                if int(i) in got:
                    raise Fail("an index appears twice", Y=Y0)
                got[int(i)] = int(k)
        if sorted(got) != list(range(n)):
            raise Fail("an index is missing", Y=Y0)
        for i in range(n):
            if got[i] != R[i]:
                raise Fail(f"point {i} has front {got[i]}, longest domination chain {R[i]}", Y=Y0, ranks=R)
        for k, v in f.items():
            if list(v) != sorted(v):
                raise Fail("indices of a front are not increasing", Y=Y0)
        f2 = non_domin_sort(Y.tolist())
        for k, v in f2.items():
            e = sorted(tuple(map(float, Y0[i])) for i in range(n) if R[i] == k)
            if sorted(tuple(map(float, q)) for q in v) != e:
                raise Fail(f"front {k} holds the wrong decisions", Y=Y0)
        if set(f2) != set(R):
            raise Fail("wrong set of fronts", Y=Y0)
        f3 = non_domin_sort(list(range(n)), get_objectives=lambda i: Y[i])
        for k, v in f3.items():
            if sorted(v) != [i for i in range(n) if R[i] == k]:
                raise Fail("sorting by an objective map differs", Y=Y0)
        if not np.array_equal(Y, Y0):
            raise Fail("sorting modified its input", Y=Y0)
        return (kind, n, d, max(R), len({tuple(y) for y in Y0}))

    def nondom(rng):
        Y, kind, n, d = gen(rng)
        Y0 = Y.copy()
        # documented: a row is kept when no other row is <= it in every coordinate (duplicates drop each other)
        e = [i for i in range(n) if not any(j != i and np.all(Y0[j] <= Y0[i]) for j in range(n))]
        gi = get_non_dominated(Y, return_index=True)
        if [int(i) for i in gi] != e:
            raise Fail(f"non-dominated subset {list(gi)}, expected {e}", Y=Y0)
        if e:
            g = get_non_dominated(Y)
            if not np.array_equal(g, Y0[e]):
                raise Fail("non-dominated rows differ", Y=Y0)
            if np.shares_memory(g, Y):
                raise Fail("the non-dominated rows are not copies: changing them changes the caller's points", Y=Y0)
        if not np.array_equal(Y, Y0):
            raise Fail("input modified", Y=Y0)
        return (kind, n, d, len(e))

    def dom(rng):
        d = rng.randint(1, 6)
        a, b = rng.randint(0, 3, d), rng.randint(0, 3, d)
        if rng.rand() < .3:
            b = a + rng.randint(0, 2, d)
        if bool(is_dominate(a, b)) != oracle.dominates(a, b):
            raise Fail(f"domination of {b} by {a} misjudged", a=a, b=b)
        return (d, oracle.dominates(a, b), oracle.dominates(b, a))
    k = 6 if ctx.thorough else 1
    ctx.scenario("sort", sort, 500 * k)
    ctx.scenario("nondominated", nondom, 400 * k)
    ctx.scenario("dominates", dom, 300 * k)
