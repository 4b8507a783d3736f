"""P13, deductive layer (Mode S): the real MOP / CMOP code and the pymoo adapters, run on a problem with arbitrary sizes, arbitrary
bounds and an arbitrary cubic map for the objectives and each constraint group (a cubic realises every value, first and second
derivative at a point, and the framework sees nothing else of the function)."""
import numpy as np
from pyvc.check import Refuted
from .common import *
from . import p14

JNP = None


def reset():
    tn.set_ctx(tn.Ctx())
    pl.POSRULES.clear()
    pl.INDRULES.clear()
    shims.ARGS.clear()


def cubic(name, k, n, x):
    """the map as the code under test evaluates it: a tensor of k values"""
    f = tn.to_T(x).snap()

    def fn(a):
        i, j, l = newidx(n), newidx(n), newidx(n)
        r = A(name + "0", a) + psum(vname(i), n, A(name + "1", a, i) * f(i))
        r = r + psum(vname(i), n, psum(vname(j), n, A(name + "2", a, i, j) * f(i) * f(j)))
        return r + psum(vname(i), n, psum(vname(j), n, psum(vname(l), n, A(name + "3", a, i, j, l) * f(i) * f(j) * f(l))))
    return T((P(k),), tn.memo(fn), "f")


def val(name, a, n, X):
    return cubic(name, P(1), n, T((n,), X, "f"))._fn(a) if False else cubic(name, a + 1, n, T((n,), X, "f")).at_(a)


def grad(name, a, n, X, p):
    """value of the derivative w.r.t. variable p, written out"""
    i, j = newidx(n), newidx(n)
    x = X
    r = A(name + "1", a, p) + psum(vname(i), n, (A(name + "2", a, i, p) + A(name + "2", a, p, i)) * x(i))
    t = A(name + "3", a, p, i, j) + A(name + "3", a, i, p, j) + A(name + "3", a, i, j, p)
    return r + psum(vname(i), n, psum(vname(j), n, t * x(i) * x(j)))


def hess(name, a, n, X, p, q):
    i = newidx(n)
    t = ZERO
    for u, v, w in ((p, q, i), (q, p, i), (p, i, q), (q, i, p), (i, p, q), (i, q, p)):
        t = t + A(name + "3", a, u, v, w)
    return A(name + "2", a, p, q) + A(name + "2", a, q, p) + psum(vname(i), n, t * X(i))


class W:
    """a problem class defined against the real base module"""

    def __init__(self, cls="CMOP", m=None, p=0, q=0, boundary=False, n=None, mod="hvd.problems.base"):
        reset()
        self.L = loader.Loader()
        self.L.lib["pymoo.core.problem"] = shims.Namespace("pymoo.core.problem", dict(Problem=PymooStub), None)
        self.m = self.L.load("hvd.problems.base")
        self.n = n if n is not None else dim("n", 1)
        self.k = {"o": m if m is not None else dim("m", 1), "e": p, "i": q}
        n, k = self.n, self.k
        ns = {}
        for key, attr in (("o", "_objective"), ("e", "_eq_constraint"), ("i", "_ieq_constraint")):
            ns[attr] = (lambda key: lambda self_, x: cubic(key, k[key], n, x))(key)
        self.xl = T((n,), lambda i: A("xl", i), "f")
        self.xu = T((n,), lambda i: A("xu", i), "f")
        C = type("Generic", (getattr(self.m, cls),), ns)
        kw = dict(n_var=scalar(n, "i"), n_obj=self.num(k["o"]), xl=self.xl, xu=self.xu)
        if cls == "CMOP":
            kw.update(n_eq_constr=self.num(p), n_ieq_constr=self.num(q), boundary_constraints=boundary)
        pl.INDRULES.append(p14s_rule)
        self.p = C(**kw)

    @staticmethod
    def num(v):
        v = P(v)
        return int(v.const()) if v.is_const() else scalar(v, "i")


def p14s_rule(rel, p):
    from .p14s import box_rule
    return box_rule(rel, p)


def same_shape(t, shape, what):
    t = tn.to_T(t)
    got, want = tuple(map(P, t.shape_)), tuple(map(P, shape))
    if len(got) != len(want) or any(not tn.CTX.dims_equal(a, b) for a, b in zip(got, want)):
        raise Refuted(f"{what}: shape ({', '.join(map(pl.pretty, got))}) instead of ({', '.join(map(pl.pretty, want))})", None)
    return t


def rows(i):
    return lambda j: A("X", i, j)


def point(j):
    return A("x", j)


API = {"o": ("objective", "objective_batch", "objective_jacobian", "objective_jacobian_batch", "objective_hessian", "objective_hessian_batch"),
       "e": ("eq_constraint", "eq_constraint_batch", "eq_jacobian", "eq_jacobian_batch", "eq_hessian", "eq_hessian_batch"),
       "i": ("ieq_constraint", "ieq_constraint_batch", "ieq_jacobian", "ieq_jacobian_batch", "ieq_hessian", "ieq_hessian_batch")}
NAME = {"o": "objectives", "e": "equality constraints", "i": "inequality constraints"}


def replayer(key, fn, sizes):
    """the same generic problem, concretely, on the real code"""
    def go(env, arrs):
        return concrete_generic(key, fn, **sizes)
    return go


def concrete_generic(key, fn, cls="CMOP", p=0, q=0, boundary=False, scalar_out=False):
    import jax.numpy as jnp
    import hvd.problems.base as B
    rng = np.random.RandomState(3)
    for n, m in ((1, 1), (2, 3), (3, 2)):
        kk = {"o": m, "e": 2 if p else 0, "i": 3 if q else 0}
        C = {g: [rng.randn(*((kk[g],) + (n,) * d)) for d in range(4)] for g in kk}

        def mk(g):
            return lambda self, x: C[g][0] + C[g][1] @ x + (C[g][2] @ x) @ x + ((C[g][3] @ x) @ x) @ x
        t = type("G", (getattr(B, cls),), {"_objective": mk("o"), "_eq_constraint": mk("e"), "_ieq_constraint": mk("i")})
        lo, hi = -rng.rand(n) - .1, rng.rand(n) + .1
        kw = dict(n_eq_constr=kk["e"], n_ieq_constr=kk["i"], boundary_constraints=boundary) if cls == "CMOP" else {}
        for R in (1, 2, 3):
            X = rng.randn(R, n)
            try:
                pr = t(n_var=n, n_obj=m, xl=lo, xu=hi, **kw)
                got = np.asarray(getattr(pr, fn)(X if "batch" in fn else X[0]), float)
            except Exception as e:
                return {"function": fn, "n_var": n, "n_obj": m, "raises": f"{type(e).__name__}: {e}"}
            want = np.array([expected(C[key], fn, x, key == "i" and boundary, lo, hi) for x in X])
            want = want if "batch" in fn else want[0]
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-10):
                return {"function": fn, "n_var": n, "n_obj": m, "x": (X if "batch" in fn else X[0]).tolist(), "got": got.tolist(), "required": want.tolist()}
    return None


def expected(c, fn, x, bounds, lo, hi):
    n = len(x)
    if "hess" in fn:
        s3 = sum(np.transpose(c[3], (0,) + pm) for pm in ((1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1)))
        own = c[2] + np.transpose(c[2], (0, 2, 1)) + s3 @ x
        return np.concatenate([own, np.zeros((2 * n, n, n))]) if bounds else own
    if "jacobian" in fn:
        own = c[1] + (c[2] + np.transpose(c[2], (0, 2, 1))) @ x
        own = own + ((c[3] + np.transpose(c[3], (0, 2, 1, 3)) + np.transpose(c[3], (0, 3, 1, 2))) @ x) @ x
        return np.r_[own, -np.eye(n), np.eye(n)] if bounds else own
    own = c[0] + c[1] @ x + (c[2] @ x) @ x + ((c[3] @ x) @ x) @ x
    return np.r_[own, lo - x, x - hi] if bounds else own


def confirm(thunk, replay):
    """an obligation that is not discharged counts as a violation only when the real code shows the disagreement"""
    try:
        thunk()
    except Refuted as e:
        if e.replay is None:
            e.replay = replay({}, {})
            if e.replay is None:
                raise Unsupported(str(e)[:600])
        raise
    except Exception as e:
        rp = replay({}, {})
        if rp is not None:
            raise Refuted(f"{type(e).__name__}: {str(e)[:400]}", rp)
        raise


def check_fn(w, key, fn, own, bounds, replay):
    """entry point `fn` of group `key`: own values first, then (bounds only) xl - x and x - xu"""
    n = w.n
    R = dim("R", 1)
    batch = "batch" in fn
    total = own + (2 * n if bounds else 0)
    arg = T((R, n), lambda i, j: A("X", i, j), "f") if batch else T((n,), lambda j: A("x", j), "f")
    order = 2 if "hess" in fn else 1 if "jacobian" in fn else 0
    out = getattr(w.p, fn)(arg)
    lead = (R,) if batch else ()
    out = same_shape(out, lead + (total,) + (n,) * order, fn)
    r, u, v = newidx(R), newidx(n), newidx(n)
    X = rows(r) if batch else point
    tail = (u, v)[:order]
    pre = (r,) if batch else ()

    def spec(a):
        return val(key, a, n, X) if order == 0 else grad(key, a, n, X, u) if order == 1 else hess(key, a, n, X, u, v)
    if own != ZERO:
        a = newidx(own)
        prove_equal(out.at_(*pre, a, *tail), spec(a), f"{fn}: own entries", replay=replay)
    if bounds:
        b = newidx(n)
        lower = [A("xl", b) - X(b), -pl.delta(b, u), ZERO][order]
        upper = [X(b) - A("xu", b), pl.delta(b, u), ZERO][order]
        prove_equal(out.at_(*pre, own + b, *tail), lower, f"{fn}: lower bound entries", replay=replay)
        prove_equal(out.at_(*pre, own + n + b, *tail), upper, f"{fn}: upper bound entries", replay=replay)
    # frame: the argument is left as it was
    prove_equal(arg.at_(*((r, u) if batch else (u,))), A("X", r, u) if batch else A("x", u), f"{fn}: argument unchanged", replay=None)


def prove(ctx):
    def entry(cls, p, q, boundary, key, fn, own, bounds, txt):
        def go():
            sizes = dict(cls=cls, p=int(p), q=int(q), boundary=boundary)
            w = W(cls, p=dim("p", 1) if p else 0, q=dim("q", 1) if q else 0, boundary=boundary)
            o = {"o": P(w.k["o"]), "e": P(w.k["e"]), "i": P(w.k["i"])}[key]
            rp = replayer(key, fn, sizes)
            confirm(lambda: check_fn(w, key, fn, o, bounds, rp), rp)
        ctx.obligation(f"{fn}{txt}", f"hvd.problems.base.{cls}.{fn}", go, timeout=120)
    for fn in API["o"]:
        entry("MOP", 0, 0, False, "o", fn, None, False, " of an unconstrained problem: value of the supplied function or its derivative, row by row")
        entry("CMOP", 1, 1, True, "o", fn, None, False, " of a constrained problem: value of the supplied function or its derivative, row by row")
    for fn in API["e"]:
        for q, b in ((0, False), (1, True)):
            entry("CMOP", 1, q, b, "e", fn, None, False, f" ({'with' if b else 'without'} inequality and bound constraints)")
    for fn in API["i"]:
        for q, b in ((1, False), (1, True), (0, True)):
            entry("CMOP", 0, q, b, "i", fn, None, b, f" ({'own' if q else 'no own'} constraints{', then lower, then upper bounds' if b else ''})")

    def counts():
        for p, q, b in ((0, 0, False), (1, 0, True), (0, 1, True), (1, 1, False), (1, 1, True)):
            w = W("CMOP", p=dim("p", 1) if p else 0, q=dim("q", 1) if q else 0, boundary=b)
            prove_equal(P_(w.p.n_eq_constr), P(w.k["e"]), "declared equality constraints", replay=lambda *a: bad_counts())
            prove_equal(P_(w.p.n_ieq_constr), P(w.k["i"]) + (2 * w.n if b else 0), "declared inequality constraints", replay=lambda *a: bad_counts())
            prove_equal(P_(w.p.n_var), w.n, "declared variables", replay=lambda *a: bad_counts())
            prove_equal(P_(w.p.n_obj), P(w.k["o"]), "declared objectives", replay=lambda *a: bad_counts())
            for att in ("xl", "xu"):
                i = newidx(w.n)
                t = same_shape(getattr(w.p, att), (w.n,), att)
                prove_equal(t.at_(i), A(att, i), att, replay=lambda *a: bad_counts())
    ctx.obligation("declared sizes and bounds: own constraints plus two per variable when bounds are appended", "hvd.problems.base.CMOP.__init__", counts)

    def scalar_bound():
        for val_ in (0.25, -3, 2):
            reset()
            L = loader.Loader()
            m = L.load("hvd.problems.base")
            n = dim("n", 1)
            C = type("S", (m.MOP,), {"_objective": lambda s, x: x[:1]})
            p = C(n_var=scalar(n, "i"), n_obj=1, xl=val_, xu=5)
            t = same_shape(p.xl, (n,), "xl")
            prove_equal(t.at_(newidx(n)), P(val_), "a scalar bound is repeated for every variable", replay=lambda *a: bad_counts())
    ctx.obligation("a scalar bound holds for every variable", "hvd.problems.base.MOP._broadcast_bound", scalar_bound)

    def ordered():
        # the constructor branches exactly on "some lower bound exceeds its upper bound", and raises on that branch
        for bad in (True, False):
            reset()
            L = loader.Loader()
            m = L.load("hvd.problems.base")
            n = dim("n", 1)
            i = newidx(n)
            cond = tn.boolsum(psum(vname(i), n, pl.ind("lt", A("xu", i) - A("xl", i), 0)))
            tn.CTX.assume(cond, bad)
            C = type("S", (m.MOP,), {"_objective": lambda s, x: x[:1]})
            try:
                C(n_var=scalar(n, "i"), n_obj=1, xl=T((n,), lambda i: A("xl", i), "f"), xu=T((n,), lambda i: A("xu", i), "f"))
                raised = False
            except ValueError:
                raised = True
            if raised != bad:
                raise Refuted(f"bounds with{'' if bad else 'out'} a crossed pair are {'rejected' if raised else 'accepted'}", None)
    ctx.obligation("bounds are rejected exactly when some lower bound exceeds its upper bound", "hvd.problems.base.MOP._validate_bound", lambda: confirm(ordered, lambda *a: bad_bounds()))

    def inherit():
        import hvd.problems.base as B
        import hvd.problems as HP
        import inspect
        import pkgutil
        import importlib
        seen, over = [], []
        names = [f for g in API.values() for f in g] + ["_validate_bound", "_validate_dimension", "_broadcast_bound"]
        for mi in pkgutil.iter_modules(HP.__path__):
            try:
                mod = importlib.import_module("hvd.problems." + mi.name)
            except ImportError:
                continue
            for c in vars(mod).values():
                if inspect.isclass(c) and issubclass(c, B.MOP) and c not in (B.MOP, B.CMOP) and c not in seen:
                    seen.append(c)
                    for f in names:
                        if hasattr(c, f) and inspect.getattr_static(c, f) is not inspect.getattr_static(B.CMOP if issubclass(c, B.CMOP) else B.MOP, f):
                            over.append(f"{c.__name__}.{f}")
        if len(seen) < 20:
            raise Unsupported("problem classes not found")
        if over:
            raise Unsupported("overridden entry points (judged by the concrete layer only): " + ", ".join(over[:8]))
        return "class inspection"
    ctx.obligation("every problem class uses the entry points proved above", "hvd.problems.*", inherit)
    adapters(ctx)
    dims(ctx)
    ctx.trusted |= shims.TRUSTED
    ctx.trusted.add("jax.vmap evaluates row by row; jacrev/jacfwd of the traced function are its exact derivatives; jit preserves values")


def P_(v):
    return tn.to_T(v).as_poly() if not isinstance(v, (int, Poly)) else P(v)


def bad_counts():
    import hvd.problems.base as B
    C = type("G", (B.CMOP,), {"_objective": lambda s, x: x[:1], "_eq_constraint": lambda s, x: x[:1], "_ieq_constraint": lambda s, x: x[:1]})
    for n in (1, 2, 3):
        for p in (0, 1, 2):
            for q in (0, 1, 2):
                for b in (False, True):
                    for lo in (-1.5, np.arange(n) - 4.):
                        for hi in (2.5, np.arange(n) + 1.):
                            g = C(n_var=n, n_obj=2, xl=lo, xu=hi, n_eq_constr=p, n_ieq_constr=q, boundary_constraints=b)
                            got = (g.n_var, g.n_obj, g.n_eq_constr, g.n_ieq_constr)
                            if got != (n, 2, p, q + 2 * n * b) or not np.array_equal(g.xl, np.broadcast_to(lo, n)) or not np.array_equal(g.xu, np.broadcast_to(hi, n)):
                                return {"n_var": n, "n_eq_constr": p, "n_ieq_constr": q, "bounds": b, "declares": list(map(int, got)), "xl": np.asarray(g.xl).tolist()}
    return None


def bad_bounds():
    import hvd.problems.base as B
    C = type("G", (B.MOP,), {"_objective": lambda s, x: x[:1]})
    for n in (1, 2, 3):
        for code in range(3 ** n):
            d = [(code // 3 ** k) % 3 - 1 for k in range(n)]
            xl, xu = np.zeros(n), np.array(d, float)
            try:
                C(n_var=n, n_obj=1, xl=xl, xu=xu)
                ok = True
            except ValueError:
                ok = False
            if ok != bool((xl <= xu).all()):
                return {"xl": xl.tolist(), "xu": xu.tolist(), "accepted": ok}
    return None


class PymooStub:
    """pymoo's Problem: stores the declared sizes"""

    def __init__(self, n_var=-1, n_obj=1, n_ieq_constr=0, n_eq_constr=0, xl=None, xu=None, **kw):
        self.n_var, self.n_obj, self.n_ieq_constr, self.n_eq_constr, self.xl, self.xu = n_var, n_obj, n_ieq_constr, n_eq_constr, xl, xu


def adapter_replay(back):
    def go(*a):
        return bad_adapter(back)
    return go


def bad_adapter(back):
    import hvd.problems.base as B
    import jax.numpy as jnp
    from pymoo.core.problem import Problem
    rng = np.random.RandomState(5)
    for n, m, p, q, b in ((2, 2, 0, 0, False), (3, 2, 2, 0, False), (2, 3, 0, 2, False), (2, 2, 1, 3, True), (1, 1, 0, 0, True)):
        M = [rng.randn(k, n) for k in (m, p, q)]
        X = rng.randn(3, n)
        try:
            if back:
                class Q(Problem):
                    def __init__(self):
                        super().__init__(n_var=n, n_obj=m, n_eq_constr=p, n_ieq_constr=q, xl=-np.ones(n), xu=np.ones(n))

                    def _evaluate(self, x, out, *a, **k):
                        for key, A_ in zip("FHG", M):
                            if len(A_):
                                out[key] = x @ A_.T
                g = B.MOP.from_pymoo(Q(), boundary_constraints=b)
                ext = [np.r_[-1 - x, x - 1] if b else np.zeros(0) for x in X]
                rep = {"F": [(g.objective(x), M[0] @ x) for x in X]}
                if p:
                    rep["H"] = [(g.eq_constraint(x), M[1] @ x) for x in X]
                if q or b:
                    rep["G"] = [(g.ieq_constraint(x), np.r_[M[2] @ x, e]) for x, e in zip(X, ext)]
                sizes = (g.n_var, g.n_obj, g.n_eq_constr, g.n_ieq_constr) == (n, m, p, q + 2 * n * b)
            else:
                t = type("G", (B.CMOP,), {at: (lambda A_: lambda s, x: A_ @ x)(A_) for at, A_ in zip(("_objective", "_eq_constraint", "_ieq_constraint"), M)})
                r = t(n_var=n, n_obj=m, xl=-1, xu=1, n_eq_constr=p, n_ieq_constr=q, boundary_constraints=b)
                g = r.as_pymoo_problem()
                out = {}
                g._evaluate(X, out)
                rep = {"F": [(out["F"][i], M[0] @ X[i]) for i in range(3)]}
                if p:
                    rep["H"] = [(out["H"][i], M[1] @ X[i]) for i in range(3)]
                if q or b:
                    rep["G"] = [(out["G"][i], np.r_[M[2] @ X[i], np.r_[-1 - X[i], X[i] - 1] if b else np.zeros(0)]) for i in range(3)]
                sizes = (g.n_var, g.n_obj, g.n_eq_constr, g.n_ieq_constr) == (n, m, p, q + 2 * n * b) and set(rep) == set(out)
        except Exception as e:
            return {"n_var": n, "n_obj": m, "n_eq": p, "n_ieq": q, "bounds": b, "raises": f"{type(e).__name__}: {e}"}
        if not sizes:
            return {"n_var": n, "n_obj": m, "n_eq": p, "n_ieq": q, "bounds": b, "declared sizes or reported keys differ": True}
        for key, vs in rep.items():
            for got, want in vs:
                got = np.asarray(got, float)
                if got.shape != want.shape or not np.allclose(got, want):
                    return {"n_var": n, "n_obj": m, "n_eq": p, "n_ieq": q, "bounds": b, "key": key, "got": got.tolist(), "required": want.tolist()}
    return None


def adapters(ctx):
    def view(p, q, b):
        def body():
            w = W("CMOP", p=dim("p", 1) if p else 0, q=dim("q", 1) if q else 0, boundary=b)
            pm = w.L.load("hvd.problems._pymoo_wrapper")
            a = pm._PymooProblemAdapter(w.p)
            n, R = w.n, dim("R", 1)
            rp = adapter_replay(False)
            for att, want in (("n_var", n), ("n_obj", P(w.k["o"])), ("n_eq_constr", P(w.k["e"])), ("n_ieq_constr", P(w.k["i"]) + (2 * n if b else 0))):
                prove_equal(P_(getattr(a, att)), want, att, replay=rp)
            i = newidx(n)
            for att in ("xl", "xu"):
                prove_equal(tn.to_T(getattr(a, att)).at_(i), A(att, i), att, replay=rp)
            out = {}
            a._evaluate(T((R, n), lambda i, j: A("X", i, j), "f"), out)
            want = {"F"} | ({"H"} if p else set()) | ({"G"} if q or b else set())
            if set(out) != want:
                raise Refuted(f"reported keys {sorted(out)} instead of {sorted(want)}", None)
            r = newidx(R)
            for key, g in (("F", "o"), ("H", "e"), ("G", "i")):
                if key not in want:
                    continue
                own = P(w.k[g])
                ext = g == "i" and b
                t = same_shape(out[key], (R, own + (2 * n if ext else 0)), key)
                if own != ZERO:
                    k = newidx(own)
                    prove_equal(t.at_(r, k), val(g, k, n, rows(r)), key, replay=rp)
                if ext:
                    j = newidx(n)
                    prove_equal(t.at_(r, own + j), A("xl", j) - A("X", r, j), "lower bounds", replay=rp)
                    prove_equal(t.at_(r, own + n + j), A("X", r, j) - A("xu", j), "upper bounds", replay=rp)
        return lambda: confirm(body, adapter_replay(False))
    for p, q, b in ((0, 0, False), (1, 0, False), (0, 1, False), (1, 1, True), (0, 0, True)):
        ctx.obligation(f"pymoo view: sizes, bounds and F/H/G per row ({'eq ' * p}{'ieq ' * q}{'bounds' * b})", "hvd.problems._pymoo_wrapper._PymooProblemAdapter._evaluate", view(p, q, b))

    def backed(p, q, b, ret):
        def body():
            w = W("CMOP")
            pm = w.L.load("hvd.problems._pymoo_wrapper")
            n, m = w.n, P(w.k["o"])
            pp, qq = (dim("p", 1) if p else ZERO), (dim("q", 1) if q else ZERO)

            class Prob(PymooStub):
                def _evaluate(self, x, out, *a, **k):
                    x = tn.to_T(x)
                    f = x.snap()
                    N = x.shape_[0]
                    F = T((N, m), tn.memo(lambda r, a_: cubic("o", m, n, T((n,), lambda j: f(r, j), "f")).at_(a_)), "f")
                    if ret:
                        return F
                    out["F"] = F
                    if p:
                        out["H"] = T((N, pp), tn.memo(lambda r, a_: cubic("e", pp, n, T((n,), lambda j: f(r, j), "f")).at_(a_)), "f")
                    if q:
                        out["G"] = T((N, qq), tn.memo(lambda r, a_: cubic("i", qq, n, T((n,), lambda j: f(r, j), "f")).at_(a_)), "f")
            prob = Prob(n_var=scalar(n, "i"), n_obj=W.num(m), n_ieq_constr=W.num(qq), n_eq_constr=W.num(pp), xl=w.xl, xu=w.xu)
            g = w.m.MOP.from_pymoo(prob, boundary_constraints=b)
            rp = adapter_replay(True)
            x = T((n,), lambda j: A("x", j), "f")
            for fn, key, own in (("objective", "o", m), ("eq_constraint", "e", pp), ("ieq_constraint", "i", qq)):
                ext = key == "i" and b
                if own == ZERO and not ext:
                    continue
                t = same_shape(getattr(g, fn)(x), (own + (2 * n if ext else 0),), fn)
                if own != ZERO:
                    k = newidx(own)
                    prove_equal(t.at_(k), val(key, k, n, point), fn, replay=rp)
                if ext:
                    j = newidx(n)
                    prove_equal(t.at_(own + j), A("xl", j) - A("x", j), "lower bounds", replay=rp)
                    prove_equal(t.at_(own + n + j), A("x", j) - A("xu", j), "upper bounds", replay=rp)
            for att, want in (("n_var", n), ("n_obj", m), ("n_eq_constr", pp), ("n_ieq_constr", qq + (2 * n if b else 0))):
                prove_equal(P_(getattr(g, att)), want, att, replay=rp)
        return lambda: confirm(body, adapter_replay(True))
    for p, q, b, ret in ((0, 0, False, False), (0, 0, False, True), (0, 0, True, False), (1, 1, False, False), (1, 1, True, False), (0, 1, True, False)):
        ctx.obligation(f"problem adapted from pymoo: values, own constraints then bounds ({'eq ' * p}{'ieq ' * q}{'bounds ' * b}{'returned' * ret})",
                       "hvd.problems._pymoo_wrapper._PymooBackedProblem", backed(p, q, b, ret))


def bad_dim():
    import hvd.problems.base as B
    for v in range(-3, 5):
        for mk in (int, np.int64, np.int32):
            try:
                r = B.MOP._validate_dimension("n_var", mk(v))
            except ValueError:
                r = None
            except Exception as e:
                return {"value": v, "raises": f"{type(e).__name__}: {e}"}
            if r != (v if v >= 1 else None):
                return {"value": v, "type": mk.__name__, "result": r}
    return None


def dims(ctx):
    def positive():
        def body():
            for bad in (True, False):
                reset()
                m = loader.Loader().load("hvd.problems.base")
                v = V("d", True)
                tn.CTX.assume(pl.ind("le", v, 0), bad)
                tn.CTX.assume(pl.ind("eq", v, 0), False)
                try:
                    r = m.MOP._validate_dimension("n_var", scalar(v, "i"))
                    if bad:
                        raise Refuted("a size below 1 is accepted", None)
                    prove_equal(P_(r), v, "the size itself", replay=lambda *a: bad_dim())
                except ValueError:
                    if not bad:
                        raise Refuted("a positive size is rejected", None)
        confirm(body, lambda *a: bad_dim())
    ctx.obligation("a size is accepted exactly when it is at least 1", "hvd.problems.base.MOP._validate_dimension", positive)

    def negative():
        def body():
            for which in ("n_eq_constr", "n_ieq_constr"):
                for bad in (True, False):
                    reset()
                    m = loader.Loader().load("hvd.problems.base")
                    v = V("c", True)
                    tn.CTX.assume(pl.ind("le", v + 1, 0), bad)
                    tn.CTX.assume(pl.ind("le", v, 0), bad)
                    n = dim("n", 1)
                    C = type("G", (m.CMOP,), {k: (lambda s, x: x[:1]) for k in ("_objective", "_eq_constraint", "_ieq_constraint")})
                    try:
                        # when not negative, take a positive one: the zero case is the constructor used everywhere above
                        C(n_var=scalar(n, "i"), n_obj=1, xl=0, xu=1, **{which: scalar(v, "i")})
                        if bad:
                            raise Refuted(f"negative {which} accepted", None)
                    except ValueError:
                        if not bad:
                            raise Refuted(f"positive {which} rejected", None)
        confirm(body, lambda *a: bad_neg())
    ctx.obligation("a negative number of constraints is rejected", "hvd.problems.base.CMOP.__init__", negative)


def bad_neg():
    import hvd.problems.base as B
    C = type("G", (B.CMOP,), {k: (lambda s, x: x[:1]) for k in ("_objective", "_eq_constraint", "_ieq_constraint")})
    for p in range(-2, 3):
        for q in range(-2, 3):
            try:
                C(n_var=2, n_obj=1, xl=0, xu=1, n_eq_constr=p, n_ieq_constr=q)
                ok = True
            except ValueError:
                ok = False
            if ok != (p >= 0 and q >= 0):
                return {"n_eq_constr": p, "n_ieq_constr": q, "accepted": ok}
    return None
