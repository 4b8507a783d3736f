"""P15: simplex lattice."""
import itertools
import math
import numpy as np
from pyvc.check import Fail, Skip


def concrete(ctx):
    from hvd.problems import utils

    def lattice(n_obj, H):
        return {c for c in itertools.product(range(H + 1), repeat=n_obj) if sum(c) == H} if (H + 1) ** n_obj < 200000 else None

    def verify(R, n_obj, H, what):
        R = np.asarray(R)
        n = math.comb(H + n_obj - 1, n_obj - 1)
        if R.ndim != 2 or R.shape != (n, n_obj):
            raise Fail(f"{what}: shape {R.shape}, the lattice has {n} points of {n_obj} coordinates")
        Z = R * H
        K = np.rint(Z).astype(int)
        if np.abs(Z - K).max() > 1e-9:
            raise Fail(f"{what}: a coordinate is not a multiple of 1/{H}", rows=R[np.abs(Z - K).max(1) > 1e-9][:5])
        if np.any(K < 0) or np.any(K.sum(1) != H) or np.abs(R.sum(1) - 1).max() > 1e-12:
            raise Fail(f"{what}: a direction is not on the unit simplex")
        if len({tuple(k) for k in K}) != n:
            raise Fail(f"{what}: a direction occurs twice / one is missing")
        L = lattice(n_obj, H)
        if L is not None and {tuple(k) for k in K} != L:
            raise Fail(f"{what}: the lattice is incomplete")

    grid = [(m, H) for m in range(2, 7) for H in range(1, 14) if math.comb(H + m - 1, m - 1) <= 3000]
    it = iter([])

    def parts(rng):
        m, H = grid[rng.randint(len(grid))]
        pts = None if rng.rand() < .7 else int(rng.randint(1, 200))
        R = utils.get_ref_dirs(m, n_points=pts, n_partitions=H) if pts else utils.get_ref_dirs(m, n_partitions=H)
        verify(R, m, H, f"get_ref_dirs({m}, n_points={pts}, n_partitions={H})")
        return (m, H)

    def points(rng):
        m = int(rng.randint(2, 7))
        n = int(rng.randint(1, 400)) if rng.rand() < .6 else math.comb(int(rng.randint(1, 7)) + m - 1, m - 1) + int(rng.randint(-1, 2))
        n = max(n, 1)
        R = utils.get_ref_dirs(m, n) if rng.rand() < .5 else utils.get_ref_dirs(m, n_points=n)
        H = 1
        while math.comb(H + m - 1, m - 1) < n:
            H += 1
        if len(R) < n:
            raise Fail(f"get_ref_dirs({m}, n_points={n}) returned only {len(R)} directions")
        verify(R, m, H, f"get_ref_dirs({m}, n_points={n})")
        return (m, n)

    def default(rng):
        m = int(rng.choice([2, 3, 4]))
        n = 100 if m == 2 else 496
        R = utils.get_ref_dirs(m)
        if len(R) < n:
            raise Fail(f"the default lattice of {m} objectives has only {len(R)} points")
        H = 1
        while math.comb(H + m - 1, m - 1) < n:
            H += 1
        verify(R, m, H, f"get_ref_dirs({m})")
        return m

    def sphere(rng):
        m = int(rng.randint(2, 7))
        R = utils.get_ref_dirs(m, n_partitions=int(rng.randint(1, 6))) if rng.rand() < .5 else rng.rand(int(rng.randint(1, 20)), m) * 10 ** rng.uniform(-3, 3)
        R0 = R.copy()
        S = np.asarray(utils.generic_sphere(R))
        if not np.array_equal(R, R0):
            raise Fail("generic_sphere modified its argument")
        if S.shape != R.shape or np.abs(np.linalg.norm(S, axis=1) - 1).max() > 1e-12:
            raise Fail("projected directions are not unit vectors", dirs=R0, result=S)
        if np.abs(S * np.linalg.norm(R0, axis=1)[:, None] - R0).max() > 1e-9 * np.abs(R0).max():
            raise Fail("projecting to the sphere changed a direction", dirs=R0, result=S)
        return (m, len(R))
    k = 10 if ctx.thorough else 1
    ctx.scenario("partitions", parts, 80 * k)
    ctx.scenario("points", points, 150 * k)
    ctx.scenario("default", default, 6)
    ctx.scenario("sphere", sphere, 100 * k)


# ------------------------------------------------------------------ deductive layer
def recursive_generator(tree):
    """the generator that calls itself, its name, and whether it is nested"""
    import ast
    hits = []
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and any(isinstance(c, (ast.Yield, ast.YieldFrom)) for c in ast.walk(f)) and any(
                isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f.name for c in ast.walk(f)):
            hits.append(f)
    return hits[0] if len(hits) == 1 else None


def prove(ctx):
    import ast
    from pyvc import zsym as Z
    from pyvc.check import Refuted
    from .common import prove_equal, dim, T, A, newidx, psum, vname, P, loader, shims, tn, pl, ONE, Unsupported
    import os
    import hvd.problems.utils as real
    path = os.path.join(Z.REPO, "hvd/problems/utils.py")

    # ---- the recursive enumeration, by induction on `parts`: the calls it makes are replaced by its own contract
    class Tok:
        """all compositions (prefix + c : c in N^parts, sum c = total), each once, in some order"""
        def __init__(self, total, parts, prefix): self.args = (total, parts, prefix)

    class Head:
        """the coordinates chosen so far"""
        def __init__(self, tail=()): self.tail = tuple(tail)
        def __add__(self, o):
            if not isinstance(o, tuple):
                raise Unsupported("prefix extended by something else than a tuple")
            return Head(self.tail + o)

    def step(z):
        f = recursive_generator(ast.parse(open(path).read()))
        if f is None:
            raise Unsupported("no recursive generator in hvd/problems/utils.py")
        outer = {c.id for c in ast.walk(f) if isinstance(c, ast.Name)}
        ns = dict(vars(real))
        loops = []

        class Generic:
            def __init__(self, a, b): self.a, self.b = a, b
            def __iter__(self):
                v = z.int("value")
                z.assume(v >= self.a)
                z.assume(v < self.b)
                loops.append((self.a, self.b, v))
                yield v

        def rng(*a):
            if not any(isinstance(x, Z.Sym) for x in a):
                return range(*a)
            if len(a) > 2:
                raise Unsupported("range with a step")
            return Generic(*((0,) + a if len(a) == 1 else a))
        ns["range"] = rng
        for lp in [c for c in ast.walk(f) if isinstance(c, (ast.For, ast.While))]:
            if isinstance(lp, ast.While):
                raise Unsupported("while loop in the enumeration")
            stored = {c.id for s in lp.body for c in ast.walk(s) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)}
            if stored:
                raise Unsupported("the enumeration carries state from one iteration to the next")
            if any(isinstance(c, (ast.Break, ast.Return)) for c in ast.walk(lp)):
                raise Unsupported("the enumeration may stop early")
        exec(compile(ast.fix_missing_locations(ast.Module([f], [])), path, "exec"), ns)
        gen = ns[f.name]
        tok = []

        def rec(total, parts, prefix=()):
            z.ensure(Z.And(total >= 0, parts >= 1), "precondition of the recursive call")
            tok.append(Tok(total, parts, prefix))
            return [tok[-1]]
        ns[f.name] = rec
        total, parts = z.int("total", 0), z.int("parts", 1)
        out = list(gen(total, parts, Head()))
        if bool(parts == 1):
            z.passed(len(out) == 1 and isinstance(out[0], Head) and len(out[0].tail) == 1 and not loops, "one part: exactly one composition")
            z.ensure(out[0].tail[0] == total, "one part: the composition is the total itself")
            return
        # several parts: exactly one batch per first coordinate 0..total, the rest composed from what remains
        z.passed(len(loops) == 1 and len(out) == 1 and out == tok, "several parts: one batch of compositions per first coordinate")
        a, b, v = loops[0]
        z.ensure(Z.And(Z.SymBool(Z.toi(a) == 0), Z.SymBool(Z.toi(b) == Z.toi(total) + 1)), "the first coordinate takes every value from 0 to the total once")
        t, p, h = tok[0].args
        z.passed(isinstance(h, Head) and len(h.tail) == 1, "one coordinate is fixed per level")
        z.ensure(h.tail[0] == v, "the fixed coordinate is the chosen value")
        z.ensure(t == total - v, "what remains is shared by the other parts")
        z.ensure(p == parts - 1, "the other parts")

    def bad_lattice(*a):
        import itertools as it
        for m in range(2, 6):
            for H in range(1, 7):
                try:
                    R = np.asarray(real.get_ref_dirs(m, n_partitions=H), float)
                except Exception as e:
                    return {"n_obj": m, "n_partitions": H, "raises": f"{type(e).__name__}: {e}"}
                want = sorted(c for c in it.product(range(H + 1), repeat=m) if sum(c) == H)
                got = sorted(tuple(int(v) for v in np.rint(r * H)) for r in R)
                if got != want or np.abs(R * H - np.rint(R * H)).max(initial=0) > 1e-9:
                    return {"n_obj": m, "n_partitions": H, "rows": len(R), "lattice": len(want)}
        return None

    def bad_points(*a):
        for m in range(2, 6):
            for n in [None] + list(range(1, 40)):
                try:
                    got = len(real.get_ref_dirs(m, n) if n else real.get_ref_dirs(m))
                except Exception as e:
                    return {"n_obj": m, "n_points": n, "raises": f"{type(e).__name__}: {e}"}
                t, H = n or (100 if m == 2 else 496), 1
                while math.comb(H + m - 1, m - 1) < t:
                    H += 1
                if got != math.comb(H + m - 1, m - 1):
                    return {"n_obj": m, "n_points": n, "rows": got, "coarsest sufficient lattice": math.comb(H + m - 1, m - 1)}
        return None

    ctx.obligation("enumeration of the lattice: each composition exactly once, by induction on the number of parts", "hvd.problems.utils.get_ref_dirs.compositions",
                   Z.prove(step, replay=bad_lattice, soft=True))

    # ---- the caller, with the enumeration replaced by its contract; the search loop is cut by its invariant
    def pre(name, tree):
        if name != "hvd.problems.utils":
            return tree
        f = recursive_generator(tree)
        if f is None:
            raise Unsupported("no recursive generator in hvd/problems/utils.py")

        class R(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                if n is f:
                    return ast.parse(f"{n.name} = vc_lattice_").body[0]
                self.generic_visit(n)
                return n
        return R().visit(tree)

    class Lib:
        """module math; comb(h + m - 1, m - 1) is the size of the lattice with h partitions"""
        def __init__(self, z, m):
            import z3
            self.f = z3.Function("size", z3.IntSort(), z3.IntSort())
            self.z, self.m = z, m

        def comb(self, a, b):
            if not any(isinstance(x, Z.Sym) for x in (a, b)):
                return math.comb(a, b)
            a, b = Z.Sym(Z.toi(a)), Z.Sym(Z.toi(b))
            if not bool(b == self.m - 1):
                if not bool(a - b == self.m - 1):
                    raise Unsupported("binomial coefficient that is not a lattice size")
                b = a - b
            h = a - b
            return Z.Sym(self.f(Z.toi(h)))

        def __getattr__(self, k): return getattr(math, k)

    def select(mode):
        def body(z):
            import z3
            m = z.int("n_obj", 2)
            lib = Lib(z, m)
            f = lambda h: Z.Sym(lib.f(Z.toi(h)))
            h0 = z.int("h0", 1)     # any coarser lattice
            n = z.int("n_points", 1) if mode == "points" else None

            def target(env):
                if n is not None:
                    return n
                return Z.Sym(z3.If(Z.toi(m) == 2, z3.IntVal(100), z3.IntVal(496)))

            def inv(env, k):
                H = env["n_partitions"]
                return Z.And(H >= 1, Z.Implies(Z.And(h0 < H), f(h0) < target(env)))
            loops = {"hvd.problems.utils": {("get_ref_dirs", 0): Z.Loop(inv)}} if mode != "partitions" else {}
            ld = Z.ZLoader(libs={"math": lib}, pre=pre, loops=loops)
            L = ld.load("hvd.problems.utils")
            calls = []

            def lattice(total, parts, prefix=()):
                calls.append((total, parts, prefix))
                rows = [(z.real(f"c{i}0"), z.real(f"c{i}1")) for i in range(2)]
                calls.append(rows)
                return list(rows)
            L.vc_lattice_ = lattice
            if mode == "partitions":
                Hp = z.int("H", 1)
                r = L.get_ref_dirs(m, n_partitions=Hp)
            else:
                r = L.get_ref_dirs(m, n) if n is not None else L.get_ref_dirs(m)
            z.passed(len(calls) == 2 and calls[0][2] == (), "the lattice is enumerated once")
            (H, parts, _), rows = calls
            z.ensure(parts == m, "one coordinate per objective")
            if mode == "partitions":
                z.ensure(H == Hp, "the requested number of partitions")
            else:
                t = target(None)
                z.ensure(f(H) >= t, "at least the requested number of points")
                z.ensure(Z.Implies(h0 < H, f(h0) < t), "every coarser lattice is too small")
                z.ensure(H >= 1, "at least one partition")
            r = np.asarray(r)
            z.passed(r.shape == (2, 2), f"one row per composition: {r.shape}")
            for i in range(2):
                for j in range(2):
                    z.ensure(r[i, j] * H == rows[i][j], "coordinates are divided by the number of partitions")
        return body
    ctx.obligation("given partitions: all compositions of that number over the objectives, divided by it", "hvd.problems.utils.get_ref_dirs",
                   Z.prove(select("partitions"), replay=bad_lattice, soft=True))
    for mode, txt in (("points", "requested number of points"), ("default", "default number of points")):
        ctx.obligation(f"{txt}: the coarsest lattice that is large enough (loop invariant)", "hvd.problems.utils.get_ref_dirs",
                       Z.prove(select(mode), replay=bad_points, soft=True))

    # ---- projection
    def sphere():
        tn.set_ctx(tn.Ctx())
        m = loader.Loader().load("hvd.problems.utils")
        N, d = dim("N", 1), dim("d", 1)
        R = T((N, d), lambda i, j: A("R", i, j), "f")
        S = tn.to_T(m.generic_sphere(R))
        if tuple(S.shape_) != (N, d):
            raise Unsupported(f"projected directions have shape {S.shape_}")
        i, j, k = newidx(N), newidx(d), newidx(d)

        def rp(*a):
            rng = np.random.RandomState(0)
            X = rng.rand(5, 3) + .1
            Y = np.asarray(real.generic_sphere(X))
            return None if np.allclose(Y, X / np.linalg.norm(X, axis=1)[:, None]) else {"dirs": X.tolist(), "result": Y.tolist()}
        sq = psum(vname(k), d, A("R", i, k) ** 2)
        prove_equal(S.at_(i, j), A("R", i, j) * pl.ppow(sq, P(-0.5)), "a direction is divided by its norm", replay=rp)
        prove_equal(psum(vname(k), d, S.at_(i, k) ** 2), ONE, "unit length", replay=rp)
        prove_equal(R.at_(i, j), A("R", i, j), "argument unchanged", replay=rp)
    ctx.obligation("projection to the sphere: unit vectors, same direction (non-zero directions)", "hvd.problems.utils.generic_sphere", sphere)
    ctx.trusted |= shims.TRUSTED
    ctx.trusted.add("math.comb(h + m - 1, m - 1) grows without bound in h (termination of the search)")
    ctx.assumptions.append("the set of compositions of t into p parts is the disjoint union over the first coordinate v of {v} x compositions of t - v into p - 1 parts")
