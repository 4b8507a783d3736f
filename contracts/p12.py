"""P12: budget, truth of the returned arrays and of the history, duplicates, reproducibility."""
import numpy as np
from pyvc.check import Fail, Skip
from .p07 import build


def prove(ctx):
    """run loops: any iteration budget, any population (the iteration is taken from the source, its line search, step and box
    handling by contract); removal of duplicates"""
    import types
    from pyvc import zsym as Z
    from . import zopt, zc
    z3 = Z.z3

    class Opq:
        """array of unknown contents; `tag` says what it is known to hold, `own` whether it is a private copy"""
        __array_priority__ = 5000
        __array_ufunc__ = None

        def __init__(self, tag=None, own=True):
            self.tag, self.own = tag, own

        def _op(self, *a, **k): return Opq()
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __abs__ = _op
        __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __matmul__ = __rmatmul__ = _op
        ravel = reshape = flatten = sum = mean = min = max = _op

        def __setitem__(self, k, v): self._lose("an element is assigned")
        def __iadd__(self, o): return self._lose("changed in place")
        __isub__ = __imul__ = __itruediv__ = __iadd__

        def _lose(self, what):
            if self.tag is not None and not self.own:
                raise Z.Broken(f"the array of the state holding {self.tag} is modified in place ({what})", Z.CUR.values_now())
            self.tag = None
            return self
        @property
        def T(self): return Opq()
        def copy(self): return Opq(self.tag, True)
        def __copy__(self): return self.copy()
        def __deepcopy__(self, m): return self.copy()
        def __format__(self, s): return "<array>"
        __array__ = None

    class St:
        """contract of State (P04): update(X) makes Y and the derivatives those of X; indexing selects points"""
        def __init__(self, z, v=None, N=None):
            self.z = z
            self.v = z.name("version") if v is None else v
            self.Nn = N if N is not None else z.int(z.name("N"), 1)
            self.n_jac_evals = 0

        def _a(self, t): return Opq((t, self.v), False)
        X = property(lambda s: s._a("X"))
        primal = property(lambda s: s._a("primal"))
        dual = property(lambda s: s._a("dual"))
        Y = property(lambda s: s._a("Y"))
        J = property(lambda s: s._a("J"))
        N = property(lambda s: s.Nn)

        def update(self, X): self.v = self.z.name("version")
        def __deepcopy__(self, m): return St(self.z, self.v, self.Nn)
        __copy__ = lambda s: s.__deepcopy__(None)

    class Log:
        """history list of symbolic length: entries are only appended"""
        def __init__(self, n, last=None): self.n, self.last = n, last
        def append(self, v): self.n, self.last = self.n + 1, v
        def __iadd__(self, vs):
            for v in vs:
                self.append(v)
            return self
        extend = __iadd__
        def vlen(self): return self.n
        def __getitem__(self, k):
            if k == -1:
                return self.last
            raise Z.Unsupported("reading an older history entry")

        def __setitem__(self, k, v): raise Z.Broken("a recorded history entry is overwritten", Z.CUR.values_now())

    def copying(np_):
        def cp(x, *a, **k): return x.copy() if isinstance(x, Opq) else np_.__class__.array(np_, x, *a, **k)
        def asarr(x, *a, **k): return x if isinstance(x, Opq) else np_.__class__.asarray(np_, x, *a, **k)
        def opq(nm):
            f = getattr(np_, nm)
            return lambda x, *a, **k: Opq() if isinstance(x, Opq) or any(isinstance(y, Opq) for y in a) else f(x, *a, **k)

        def ones(n, *a, **k):
            return Opq() if any(zc.sym(v) for v in (n if isinstance(n, tuple) else (n,))) else np_.__class__.ones(np_, n, *a, **k)
        r = {nm: opq(nm) for nm in ("median", "clip", "minimum", "maximum", "abs", "all", "any", "isclose", "sum", "sqrt")}
        r.update(array=cp, copy=cp, asarray=asarr, ones=ones)
        nrm = np_.linalg.norm
        np_.__dict__.update(r)
        np_.linalg.norm = lambda x, *a, **k: Opq() if isinstance(x, Opq) else nrm(x, *a, **k)

    SRC = {"HVN": ("hvd.newton", "HVN"), "DpN-deltap": ("hvd.newton", "DpN"), "DpN-igd": ("hvd.newton", "DpN"), "DpN-gd": ("hvd.newton", "DpN"),
           "MMD-m": ("hvd.mmd_newton", "MMDNewton"), "MMD": ("hvd.mmd_newton", "MMDNewton"), "Lara": ("hvd.gradient_based", "Lara")}
    LISTS = ["history_X", "history_Y", "history_R_norm", "history_indicator_value"]

    def runloop(kind):
        mod, cls = SRC[kind]
        ind = kind != "Lara"

        def body(z):
            st = {}

            def lists(o): return {k: getattr(o, k) for k in LISTS if k != "history_indicator_value" or ind}

            def inv(e, k):
                o = e["self"]
                c = [o.iter_count >= 0, Z.SymBool(Z.toi(o.iter_count) <= z3.If(M.e >= 0, M.e, 0))]
                for nm, h in list(lists(o).items()) + [("metric", st["metric"])]:
                    if not isinstance(h, Log):
                        raise Z.Unsupported(f"{nm} is replaced")
                    c.append(Z.SymBool(Z.toi(h.n) == Z.toi(o.iter_count)))
                if o.stop_dict:
                    raise Z.Unsupported("another stopping criterion")
                for nm, t in (("history_X", "primal"), ("history_Y", "Y")):
                    h = getattr(o, nm)
                    if h.last is None:
                        c.append(Z.SymBool(Z.toi(h.n) == 0))
                        continue
                    z.passed(isinstance(h.last, Opq) and h.last.tag == (t, o.state.v) and o.state.v is not None, f"the last entry of {nm} holds the {t} of the current set")
                    z.passed(h.last.own, f"the last entry of {nm} is a private copy")
                if st.get("head") is not None:      # at the end of an iteration
                    v = st["head"]
                    if ind:
                        z.ensure_eq(o.history_indicator_value.last, value(o, z, v), "the recorded indicator is that of the set the iteration started from")
                    z.passed(st["metric"].last == ("metric", o.state.v), "the recorded metric is that of the recorded set")
                return Z.And(*c)

            def value(o, z, v):
                if kind.startswith("DpN"):
                    return Z.zmax(z.uf("gd_value", vkey(v)), z.uf("igd_value", vkey(v)))
                return z.uf("ind_value", vkey(v))

            def vkey(v):
                return st.setdefault("keys", {}).setdefault(v, Z.Sym(z3.IntVal(len(st.get("keys", {})))))

            def mutated(z, env):
                o = env["self"]
                o.iter_count = z.int("k", 0)
                o.state = St(z)
                o.N = o.state.N
                for nm, h in lists(o).items():
                    h.n = o.iter_count
                    h.last = Opq() if nm == "history_R_norm" else z.fresh("old")
                st["metric"].n = o.iter_count
                first = z.branch(o.iter_count.e == 0)
                for nm, t in (("history_X", "primal"), ("history_Y", "Y")):
                    getattr(o, nm).last = None if first else Opq((t, o.state.v), True)
                o.step, o.R, o.step_size = Opq(), Opq(), Opq()
                st["start"] = o.state.v

            class Ind:
                def __init__(self, nm): self.nm = nm
                def compute(self, X=None, Y=None, **k):
                    A = X if Y is None else Y
                    if not isinstance(A, Opq) or A.tag is None or A.tag[0] != ("primal" if Y is None else "Y"):
                        raise Z.Unsupported("indicator of another set")
                    return z.uf(self.nm, vkey(A.tag[1]))

            class Metric:
                def compute(self, Y=None, X=None, **k):
                    if not isinstance(Y, Opq) or Y.tag is None or Y.tag[0] != "Y":
                        raise Z.Unsupported("metric of another set")
                    return ("metric", Y.tag[1])
            name = "run"
            lp = {(f"{cls}.run", 0): Z.Loop(lambda e, k: inv(e, k), mutated=mutated)}
            N, n = 2, 1
            o, cb, sol, X, L = zopt.optimiser(z, kind, N, n, 0, 0, loops={mod: lp})
            for nm, h in lists(o).items():
                z.passed(isinstance(h, list) and not h, f"{nm} is empty at the start")
                setattr(o, nm, Log(0))
            z.passed(o.iter_count == 0 and not o.stop_dict, "no iteration has been counted at the start")
            M = z.int("max_iters", 0)
            o.max_iters = M
            o.verbose = Z.SymBool(z3.Bool("verbose"))
            st["metric"] = Log(0)
            o.metrics = {"q": Metric()}

            class HM:
                def __getitem__(self, k):
                    if k != "q":
                        raise Z.Unsupported("metric")
                    return st["metric"]
            o.history_metrics = HM()
            copying(o.ld_.np)
            o.state = St(z)
            v0 = o.state.v
            o.N = o.state.N
            o.indicator = Ind("ind_value")
            o._gd, o._igd = Ind("gd_value"), Ind("igd_value")
            C = type(o)

            def callee(nm, f, need=True):
                if hasattr(C, nm):
                    setattr(o, nm, f)
                elif need:
                    raise Z.Unsupported(f"no method {nm}")

            def unique(*a):
                o.state = St(z)
                o.N = o.state.N
                st["head"] = o.state.v

            def head():
                st["head"] = o.state.v
            if kind == "HVN":
                def iterate():
                    unique()
                    o.curr_indicator_value = value(o, z, o.state.v)
                    o.step, o.R, o.step_size = Opq(), Opq(), Opq()
                    o.state.update(Opq())
                callee("iterate", iterate)
            elif kind == "Lara":
                callee("_check_points_uniqueness", unique)
                callee("_compute_step", lambda s: Opq())
                callee("_handle_box_constraint", lambda a, s: (Opq(), Opq()))
            else:
                callee("_compute_netwon_step", lambda *a: (Opq(), Opq()))
                callee("_handle_box_constraint", lambda *a: (Opq(), Opq()))
                callee("_backtracking_line_search" if kind.startswith("DpN") else "_backtracking_line_search_global", lambda *a: Opq())
                callee("_shift_reference_set", lambda: None)
                it = o.newton_iteration

                def newton_iteration():
                    head()
                    it()
                o.newton_iteration = newton_iteration
            r = o.run()
            st["head"] = None
            z.passed(isinstance(r, tuple) and len(r) == 3, "run returns points, objective vectors and the stopping reason")
            x, y, stop = r
            z.passed(isinstance(x, Opq) and x.tag == ("primal", o.state.v), "the returned points are the final set")
            z.passed(isinstance(y, Opq) and y.tag == ("Y", o.state.v), "the returned objective vectors are those of the returned points")
            z.passed(isinstance(stop, dict) and bool(stop), "a stopping reason is recorded")
            for nm, h in lists(o).items():
                z.ensure(Z.SymBool(Z.toi(h.n) == M.e), f"{nm} has one entry for each requested iteration")
            z.ensure(Z.SymBool(Z.toi(o.iter_count) == M.e), "exactly the requested number of iterations is performed")
            z.ensure(Z.SymBool(Z.toi(stop["iter_count"]) == M.e), "the stopping reason gives the number of iterations")
            if z.branch(M.e == 0):
                z.passed(o.state.v == o.state.v, "no iterations")
            else:
                z.passed(o.history_X.last.tag == x.tag and o.history_Y.last.tag == y.tag, "the last history entry is the returned set")
        return body

    for kind in SRC:
        mod, cls = SRC[kind]
        ctx.obligation(f"{kind}.run: any number of iterations, points and variables", f"{mod}.{cls}.run", Z.prove(runloop(kind), soft=True, budget=60))
    for N, ne, ng in ((1, 0, 0), (2, 0, 0), (3, 0, 0), (2, 0, 1), (2, 1, 0)) + (((4, 0, 0), (3, 1, 0)) if ctx.thorough else ()):
        ctx.obligation(f"HVN.iterate keeps its contract, {N} points, {ne}+{ng} constraints", "hvd.newton.HVN.iterate",
                       Z.prove(zopt.hvn_iterate(N, ne, ng, False, True, True), soft=True, budget=400 if ctx.thorough else 60, jobs=4 if N > 2 else 1),
                       bounded=f"{N} points, 1 variable, 2 objectives, any values and distances; step and line search by contract")

    # ---- removal of duplicates: any number of points
    class Set:
        """set of point indices, by its membership predicate"""
        def __init__(self, member): self.member = member
        def __contains__(self, j): return bool(self.member(j))
        def __or__(self, o): return Set(lambda j: Z.Or(self.member(j), o.member(j)))
        def __sub__(self, o): return Set(lambda j: Z.And(self.member(j), Z.Not(o.member(j))))
        def __and__(self, o): return Set(lambda j: Z.And(self.member(j), o.member(j)))
        __ior__, __isub__, union, difference = __or__, __sub__, __or__, __sub__
        def update(self, o):
            m = self.member
            self.member = lambda j: Z.Or(m(j), o.member(j))

        def add(self, i):
            m = self.member
            self.member = lambda j: Z.Or(m(j), j == i)

        def arbitrary(self, z):
            f = z3.Function(z.name("dropped"), z3.IntSort(), z3.BoolSort())
            return Set(lambda j: Z.SymBool(f(Z.toi(j))))

        def vlen(self):
            z = Z.CUR
            n = z.int(z.name("size"), 0)
            z.assume(Z.Iff(n == 0, Z.Not(Z.Exists(["j"], self.member))))
            return n

    def mkset(x=()):
        if isinstance(x, Set):
            return Set(x.member)
        if isinstance(x, Z.SRange):
            return Set(lambda j: Z.And(j >= x.item(0), j < x.item(0) + x.n))
        xs = list(x)
        return Set(lambda j: Z.Or(*[j == v for v in xs]))

    class Mask:
        def __init__(self, member): self.member = member
        def __and__(self, o): return Mask(lambda j: Z.And(self.member(j), o.member(j)))
        def __invert__(self): return Mask(lambda j: Z.Not(self.member(j)))
        def nonzero(self): return (Set(self.member),)

    class Row:
        """row of the distance matrix"""
        def __init__(self, d, N): self.d, self.N = d, N
        def _m(self, f): return Mask(lambda j: Z.And(j >= 0, j < self.N, f(self.d(j))))
        def __le__(self, t): return self._m(lambda v: v <= t)
        def __lt__(self, t): return self._m(lambda v: v < t)

    class DM:
        def __init__(self, d, N): self.d, self.N = d, N
        def __getitem__(self, k):
            if isinstance(k, tuple):
                if len(k) != 2 or k[1] != slice(None):
                    raise Z.Unsupported("part of the distance matrix")
                k = k[0]
            return Row(lambda j: self.d(k, j), self.N)

    def uniq(kind, meth):
        mod, cls = SRC[kind]

        def body(z):
            f = z3.Function("distance", z3.IntSort(), z3.IntSort(), z3.RealSort())
            d = lambda i, j: Z.Sym(f(Z.toi(i), Z.toi(j)))
            near = lambda i, j: d(i, j) <= 1e-8
            N = z.int("N", 1)
            z.assume(Z.ForAll(["i", "j"], lambda i, j: Z.And(d(i, j) == d(j, i), d(i, j) >= 0)))
            z.assume(Z.ForAll(["i"], lambda i: d(i, i) == 0))

            def inv(e, k):
                P = [v for n_, v in e.items() if isinstance(v, Set)]
                if len(P) != 1:
                    raise Z.Unsupported("not one set of dropped points")
                P = P[0].member
                return Z.And(Z.ForAll(["j"], lambda j: Z.Implies(P(j), Z.And(j >= 0, j < N, Z.Exists(["t"], lambda t: Z.And(t >= 0, t < k, Z.Not(P(t)), near(t, j)))))),
                             Z.ForAll(["s", "j"], lambda s, j: Z.Implies(Z.And(s >= 0, s < k, Z.Not(P(s)), j >= 0, j < N, j != s, near(s, j)), P(j))))
            ld = Z.ZLoader(loops={mod: {(f"{cls}.{meth}", 0): Z.Loop(inv)}}, libs={"scipy.spatial.distance": types.SimpleNamespace(cdist=lambda A, B, *a: DM(d, N) if A is B else None, directed_hausdorff=None)})
            U = ld.load(mod)
            U.__dict__["__builtins__"].update(set=mkset, list=lambda x=(): x if isinstance(x, Set) else list(x), sorted=lambda x, **k: x if isinstance(x, Set) else sorted(x, **k))

            def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
                if not isinstance(a, Row) or b != 0:
                    raise Z.Unsupported("isclose")
                return a <= atol
            isf = ld.np.nonzero
            ld.np.__dict__.update(isclose=isclose, nonzero=lambda x: x.nonzero() if isinstance(x, Mask) else isf(x),
                                  flatnonzero=lambda x: x.nonzero()[0], where=lambda x, *a: x.nonzero())
            got = []

            class S:
                primal = X = object()
                def __getitem__(self, idx):
                    if not isinstance(idx, Set):
                        raise Z.Unsupported("index of the state")
                    got.append(idx)
                    return S2()

            class S2:
                N = Z.Sym(z3.Int("kept"))
            o = zc.obj(getattr(U, cls), N=N, state=S(), eps=z.real("eps", 0), logger=zc.Quiet(), dim_p=1, dim=1)
            getattr(o, meth)()
            z.passed(len(got) <= 1, "the state is reduced once")
            if not got:
                Q = lambda j: Z.And(j >= 0, j < N)
            else:
                Q = got[0].member
                z.passed(isinstance(o.state, S2), "the reduced state is kept")
                z.ensure(o.N == S2.N, "the population size is that of the reduced state")
            z.ensure(Z.ForAll(["j"], lambda j: Z.Implies(Q(j), Z.And(j >= 0, j < N))), "kept points are points of the set")
            z.ensure(Z.ForAll(["i", "j"], lambda i, j: Z.Implies(Z.And(Q(i), Q(j), i != j), Z.Not(near(i, j)))), "kept points do not coincide")
            z.ensure(Z.ForAll(["j"], lambda j: Z.Implies(Z.And(j >= 0, j < N, Z.Not(Q(j))), Z.Exists(["t"], lambda t: Z.And(Q(t), near(t, j))))), "a removed point coincides with a kept one")
        return body
    for kind, meth in (("HVN", "_check_population"), ("Lara", "_check_points_uniqueness")):
        mod, cls = SRC[kind]
        ctx.obligation(f"{cls}.{meth}: any number of points and distances", f"{mod}.{cls}.{meth}", Z.prove(uniq(kind, meth), soft=True, budget=120, timeout_ms=2500))

    # ---- frames of the callees of an iteration
    def frame(kind, meth, count, ne=0, ng=0):
        def body(z):
            o, cb, sol, X, L = zopt.optimiser(z, kind, 2, 1, ne, ng, cdist=lambda A, B, *a, **k: zopt.barr([[z.fresh("d") for _ in B] for _ in A]))
            o.iter_count = count
            if kind == "DpN-deltap":
                o.GD_value, o.IGD_value = z.real("GD"), z.real("IGD")
            if not hasattr(type(o), meth):
                raise Z.Unsupported(f"no method {meth}")
            st, Xs, Ys = o.state, np.array(o.state.X, dtype=object), np.array(o.state.Y, dtype=object)
            for nm in LISTS:
                setattr(o, nm, ["old"])
            raw = np.array([[z.real(f"step_{i}_{c}") for c in range(Xs.shape[1])] for i in range(2)], dtype=object).view(zopt.BArr)
            o.step = raw.copy()
            args = {"_shift_reference_set": (), "_compute_netwon_step": () if kind.startswith("MMD") else (o.state,), "_compute_step": (o.state,),
                    "_handle_box_constraint": (raw,) + ((o.state,) if kind == "Lara" else ()), "_compute_indicator_value": () if kind == "HVN" else (o.state.Y,)}[meth]
            getattr(o, meth)(*args)
            z.passed(o.state is st and o.N == 2, f"{meth} leaves the population alone")
            for a, b in list(zip(np.ravel(o.state.X), Xs.ravel())) + list(zip(np.ravel(o.state.Y), Ys.ravel())):
                z.ensure_eq(a, b, f"{meth} leaves points and objective values alone")
            z.passed(o.iter_count == count and not o.stop_dict and all(getattr(o, nm) == ["old"] for nm in LISTS), f"{meth} leaves counters and histories alone")
        return body
    for kind, ms in (("DpN-deltap", ("_shift_reference_set", "_compute_netwon_step", "_handle_box_constraint", "_compute_indicator_value")),
                     ("MMD-m", ("_shift_reference_set", "_compute_netwon_step", "_handle_box_constraint", "_compute_indicator_value")),
                     ("Lara", ("_compute_step", "_handle_box_constraint")), ("HVN", ("_compute_netwon_step", "_compute_indicator_value"))):
        mod, cls = SRC[kind]
        for meth in ms:
            for count in ((0, 3) if "shift" in meth else (0,)):
                ctx.obligation(f"{kind}.{meth} leaves the run's records alone{' (first iteration)' if 'shift' in meth and not count else ''}", f"{mod}.{cls}.{meth}",
                               Z.prove(frame(kind, meth, count), soft=True, budget=60), bounded="2 points, 1 variable, any values")
    ctx.trusted |= {"scipy cdist (a symmetric non-negative distance, zero for equal points)", "line searches leave the state alone (discharged under P08)",
                    "State.update/__getitem__ contracts (discharged under P04)"}



def concrete(ctx):
    from hvd.newton import HVN, DpN
    from hvd.mmd_newton import MMDNewton
    from hvd.gradient_based import Lara
    from hvd.reference_set import ReferenceSet

    def make(rng, cls, iters, conf=None, N=None, dup=False, x0=True):
        conf = conf or (str(rng.choice(["none", "eq", "ieq", "both"])) if cls in (DpN, HVN) else "none")
        if cls in (MMDNewton, Lara):
            conf = "none"
        n, m, N, conf, p, X, L = build(rng, "HVN" if cls is HVN else "", N, conf)
        lo, hi = np.zeros(n) - rng.choice([0, .5]), np.ones(n)
        calls = {"X": []}

        def func(x):
            y = p.f(x)
            return y
        if dup and len(X) > 1:
            for _ in range(int(rng.randint(1, 3))):
                a, b = rng.randint(len(X), size=2)
                X[b] = X[a]
            X = np.clip(X + 0, lo, hi)
        Y = np.array([p.f(x) for x in X])
        kw = p.kw(cls in (HVN, DpN))
        kw.update(func=func, xl=lo, xu=hi, N=len(X), max_iters=iters, verbose=False)
        start = X.copy() if x0 else None
        seed = int(rng.randint(1 << 30))

        def new():
            np.random.seed(seed)
            k = dict(kw)
            if cls is HVN:
                k.update(n_var=n, n_obj=m, ref=np.abs(Y).max(0) + 40, X0=start)
            elif cls is DpN:
                k.update(dim=n, n_obj=m, ref=ReferenceSet(np.array([p.f(z) for z in R]) - .5), x0=start)
            elif cls is MMDNewton:
                k.update(n_var=n, n_obj=m, ref=ReferenceSet(np.array([p.f(z) for z in R]) - .5), X0=start, matching=match)
            else:
                k.pop("hessian", None)
                k.update(n_var=n, n_obj=m, X0=start)
            for c in ("h", "h_jac", "g", "g_jac", "h_hessian", "g_hessian"):
                if cls is Lara:
                    k.pop(c, None)
            return cls(**k)
        R = lo + rng.rand(len(X) + 3, n) * (hi - lo)
        match = bool(rng.rand() < .7)
        return n, m, len(X), p, X, new

    def same(A, B, tol=0):
        A, B = np.asarray(A), np.asarray(B)
        return A.shape == B.shape and np.allclose(A, B, rtol=1e-9, atol=1e-9, equal_nan=True)

    def run(rng, cls):
        iters = int(rng.choice([0, 1, 2, 3, 5]))
        x0 = bool(rng.rand() < .8)
        n, m, N, p, X0, new = make(rng, cls, iters, dup=cls in (HVN, Lara) and rng.rand() < .3, x0=x0,
                                   N=int(rng.randint(1, 4)) if cls is MMDNewton else None)
        o = new()
        nm = cls.__name__
        r = o.run()
        if not (isinstance(r, tuple) and len(r) == 3):
            raise Fail(f"{nm}.run returned {type(r)}")
        X, Y, stop = np.asarray(r[0]), np.asarray(r[1]), r[2]
        d = dict(X=X, Y=Y, iterations=iters, X0=X0)
        if not np.all(np.isfinite(X)):
            return None
        if X.shape[1:] != (n,) or Y.shape != (len(X), m):
            raise Fail(f"{nm}: returned arrays of shape {X.shape} and {Y.shape}", **d)
        for x, y in zip(X, Y):
            if not same(p.f(x), y):
                raise Fail(f"{nm}: a returned objective vector is not the objective function at the returned point", x=x, y=y, f=p.f(x), **d)
        if not stop:
            raise Fail(f"{nm}: the run ended without recording a stopping reason", **d)
        if "iter_count" in stop and (stop["iter_count"] != iters or len(o.history_X) != iters):
            raise Fail(f"{nm}: {len(o.history_X)} iterations recorded ({stop}), {iters} were requested", **d)
        if len(o.history_X) > iters:
            raise Fail(f"{nm}: {len(o.history_X)} iterations, the budget is {iters}", **d)
        for h in ("history_Y", "history_R_norm") + (("history_indicator_value",) if cls is not Lara else ()):
            if len(getattr(o, h)) != len(o.history_X):
                raise Fail(f"{nm}: {h} has {len(getattr(o, h))} entries for {len(o.history_X)} iterations", **d)
        for t, (a, b) in enumerate(zip(o.history_X, o.history_Y)):
            a, b = np.asarray(a), np.asarray(b)
            if len(a) != len(b):
                raise Fail(f"{nm}: iteration {t + 1} records {len(a)} points and {len(b)} objective vectors", **d)
            for x, y in zip(a, b):
                if not same(p.f(x), y):
                    raise Fail(f"{nm}: the recorded objective values of iteration {t + 1} are not those of the recorded points", x=x, y=y, f=p.f(x), **d)
        if iters and (not same(o.history_X[-1], X) or not same(o.history_Y[-1], Y)):
            raise Fail(f"{nm}: the last recorded iteration is not the returned set", last=o.history_X[-1], **d)
        if iters == 0 and x0 and not same(X, np.clip(X0, o.xl, o.xu)):
            raise Fail(f"{nm}: a run of no iterations changed the start points", **d)
        if iters >= 2 and cls is not Lara and len(o.history_X) == iters:
            # the entries are recorded at their own time: iterations are not all aliases of the last one
            if any(o.history_X[t] is o.history_X[t + 1] or np.shares_memory(o.history_X[t], o.history_X[t + 1]) for t in range(iters - 1)):
                raise Fail(f"{nm}: the recorded iterations share one array", **d)
        if iters and np.shares_memory(o.history_X[-1], o.state.X):
            raise Fail(f"{nm}: the history aliases the optimiser's working array", **d)
        # again, with the same seed
        o2 = new()
        X2, Y2, _ = o2.run()
        if not (np.array_equal(X, X2) and np.array_equal(Y, Y2)):
            raise Fail(f"{nm}: two identical runs with the same seed differ", second=X2, **d)
        if [np.asarray(h).tolist() for h in o.history_X] != [np.asarray(h).tolist() for h in o2.history_X] or \
           list(map(float, o.history_indicator_value)) != list(map(float, o2.history_indicator_value)):
            raise Fail(f"{nm}: two identical runs with the same seed record different histories", **d)
        return (nm, iters, N, n, m, x0)

    def resume(rng, cls):
        """raising the budget continues for the missing iterations only"""
        a, b = int(rng.randint(0, 3)), int(rng.randint(1, 3))
        n, m, N, p, X0, new = make(rng, cls, a, N=2)
        o = new()
        o.run()
        before = len(o.history_X)
        X1 = o.run()[0]
        if len(o.history_X) != before:
            raise Fail(f"{cls.__name__}: running a finished optimiser again performed another iteration")
        return (cls.__name__, a)

    def default(rng, cls):
        """no budget given as None: ten iterations per point"""
        n, m, N, p, X0, new = make(rng, cls, None, N=int(rng.randint(1, 3)), conf="none")
        o = new()
        if o.max_iters != 10 * N:
            raise Fail(f"{cls.__name__}: without a budget {o.max_iters} iterations are allowed for {N} points, documented are {10 * N}")
        return (cls.__name__, N)

    class Metric:
        def __init__(s):
            s.seen = []

        def compute(s, Y):
            s.seen.append(np.array(Y, copy=True))
            return float(np.sum(Y))

    def metrics(rng, cls):
        iters = int(rng.randint(1, 4))
        n, m, N, p, X0, new = make(rng, cls, iters, N=2)
        o = new()
        M = Metric()
        o.metrics = {"q": M}
        o.run()
        got = o.history_metrics["q"]
        if len(got) != iters or len(M.seen) != iters:
            raise Fail(f"{cls.__name__}: {len(got)} metric values for {iters} iterations")
        for t in range(iters):
            if not same(M.seen[t], o.history_Y[t]) or not same(got[t], np.sum(o.history_Y[t])):
                raise Fail(f"{cls.__name__}: the metric of iteration {t + 1} was not computed from that iteration's objective values")
        return (cls.__name__, iters)

    def indicator(rng, cls):
        """the indicator recorded in an iteration is the indicator of the points the iteration started from"""
        if cls is not HVN:
            return None
        from hvd.hypervolume import hypervolume
        iters = int(rng.randint(1, 4))
        n, m, N, p, X0, new = make(rng, cls, iters)
        o = new()
        o.run()
        Ys = [np.array([p.f(x) for x in np.clip(X0, o.xl, o.xu)])] + o.history_Y[:-1]
        for t in range(iters):
            if len(Ys[t]) == len(o.history_Y[t]) and np.all(np.isfinite(Ys[t])):
                e = hypervolume(np.array(Ys[t]), np.asarray(o.ref, float))
                if abs(e - o.history_indicator_value[t]) > 1e-7 * (1 + abs(e)):
                    raise Fail(f"the hypervolume recorded in iteration {t + 1} is {o.history_indicator_value[t]}, the set it starts from has {e}", Y=Ys[t])
        return (iters, N)

    def duplicates(rng, cls):
        name = "_check_population" if cls is HVN else "_check_points_uniqueness"
        n, m, N, p, X, new = make(rng, cls, 1, N=3, conf=None)
        o = new()
        if not hasattr(o, name):
            raise Skip(f"{name} not found")
        k = int(rng.randint(1, 8))
        B = o.xl + rng.rand(k, n) * (o.xu - o.xl)
        if k > 1 and rng.rand() < .5:
            B[1] = np.clip(B[0] + 10 ** rng.uniform(-7, -4) * rng.choice([-1, 1], n), o.xl, o.xu)     # close, yet distinct
            if np.linalg.norm(B[1] - B[0]) < 5e-8:
                return None
        idx = rng.randint(k, size=int(rng.randint(1, 10)))
        P = B[idx]
        dual = rng.randn(len(P), o.state.X.shape[1] - n)
        o.state.update(np.c_[P, dual])
        full = o.state.X.copy()
        o.N = len(P)
        getattr(o, name)()
        Q = o.state.primal
        d = dict(points=P, kept=Q)
        if o.N != len(Q) or len(o.state.Y) != len(Q):
            raise Fail(f"{cls.__name__}: {o.N} points declared, {len(Q)} kept", **d)
        D = np.unique(P, axis=0)
        if len(Q) != len(D) or not np.array_equal(np.unique(Q, axis=0), D):
            raise Fail(f"{cls.__name__}: {len(D)} distinct points, {len(Q)} kept after removing duplicates", **d)
        for x, y, row in zip(Q, o.state.Y, o.state.X):
            if not same(p.f(x), y):
                raise Fail(f"{cls.__name__}: removing duplicates separated points from their objective values", **d)
            if not any(np.array_equal(row, f) for f in full):
                raise Fail(f"{cls.__name__}: removing duplicates mixed multipliers of different points", **d)
        if len(D) == len(P) and not np.array_equal(Q, P):
            raise Fail(f"{cls.__name__}: a set without duplicates was reordered", **d)
        return (cls.__name__, len(P), len(D))
    k = 8 if ctx.thorough else 1
    for cls, c in ((HVN, 30), (DpN, 60), (Lara, 60), (MMDNewton, 16)):
        nm = cls.__name__
        ctx.scenario(f"run/{nm}", lambda r: run(r, cls), c * k)
        ctx.scenario(f"metrics/{nm}", lambda r: metrics(r, cls), 6 * k)
        ctx.scenario(f"resume/{nm}", lambda r: resume(r, cls), 4 * k)
        ctx.scenario(f"default/{nm}", lambda r: default(r, cls), 4)
    for cls in (HVN, Lara):
        ctx.scenario(f"duplicates/{cls.__name__}", lambda r: duplicates(r, cls), 120 * k)
    ctx.scenario("indicator/HVN", lambda r: indicator(r, HVN), 20 * k)
