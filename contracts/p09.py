"""P09: box constraints."""
import numpy as np
from pyvc.check import Fail, Skip
from .p05 import toy
from .p07 import build


def largest_fraction(x, d, lo, hi):
    """largest s in [0,1] with x + s d inside the box"""
    s = 1.0
    for a, v, l, u in zip(x, d, lo, hi):
        if v < 0:
            s = min(s, (a - l) / -v)
        elif v > 0:
            s = min(s, (u - a) / v)
    return s


def prove(ctx):
    from pyvc import zsym as Z
    from . import zc
    from types import SimpleNamespace as NS
    import hvd.newton as rn
    import hvd.gradient_based as rg
    import hvd.mmd_newton as rm
    import hvd.utils as ru
    ld = Z.ZLoader()
    LN, LG, LM, LU = (ld.load("hvd." + k) for k in ("newton", "gradient_based", "mmd_newton", "utils"))
    big = ctx.thorough

    def box(z, n):
        lo = np.array([z.real(f"lo{c}") for c in range(n)], dtype=object)
        hi = np.array([z.real(f"hi{c}") for c in range(n)], dtype=object)
        for a, b in zip(lo, hi):
            z.assume(a < b)
        return lo, hi

    def points(z, N, n, lo, hi, name="x", inside=True):
        X = z.array(name, (N, n))
        if inside:
            for i in range(N):
                for c in range(n):
                    z.assume(X[i, c] >= lo[c])
                    z.assume(X[i, c] <= hi[c])
        return X

    def num(v, name, *shape):
        return np.array([v[name + "_" + "_".join(map(str, ix))] for ix in np.ndindex(*shape)]).reshape(shape)

    def nbox(v, n):
        return np.array([v[f"lo{c}"] for c in range(n)]), np.array([v[f"hi{c}"] for c in range(n)])

    def fin(x):
        x = zc.scal(x)
        if not Z.isfin(x):
            raise Z.Broken(f"step limit {x}", Z.CUR.values_now())
        return x

    # ---- the box handlers of the Newton method for generational distances and of the gradient method
    def handler(mod, cls, N, n, dual):
        def body(z):
            lo, hi = box(z, n)
            X = points(z, N, n, lo, hi)
            step = z.array("d", (N, n + dual))
            s0 = step.copy()
            st = NS(primal=X, N=N)
            o = zc.obj(getattr(mod, cls), dim_p=n, dim=n, xl=lo, xu=hi, state=st, N=N)
            x0 = X.copy()
            S, mx = o._handle_box_constraint(step) if cls == "DpN" else o._handle_box_constraint(step, st)
            z.passed(all(a is b for a, b in zip(X.ravel(), x0.ravel())), "the points are not moved")
            z.passed(S.shape == s0.shape, "shape of the step")
            m = [fin(mx)] * N if np.size(mx) == 1 else [fin(q) for q in np.ravel(mx)]
            z.passed(len(m) == N, "one limit per point")
            e = 0 if cls == "DpN" else 1e-10
            for i in range(N):
                hit = []
                z.ensure(Z.And(m[i] >= 0, m[i] <= 1), "the limit lies in [0, 1]")
                for c in range(n):
                    a = Z.Or(Z.And(X[i, c] - lo[c] <= e, s0[i, c] < 0), Z.And(hi[c] - X[i, c] <= e, s0[i, c] > 0))
                    z.ensure(Z.Implies(a, S[i, c] == 0), "a component pointing out of an active bound is removed")
                    z.ensure(Z.Implies(Z.Not(a), S[i, c] == s0[i, c]), "other components are kept")
                    q = X[i, c] + m[i] * S[i, c]
                    z.ensure(Z.And(q >= lo[c], q <= hi[c]), "the limited step stays in the box")
                    hit.append(Z.And(S[i, c] < 0, q <= lo[c]))
                    hit.append(Z.And(S[i, c] > 0, q >= hi[c]))
                for c in range(n, n + dual):
                    z.ensure_eq(S[i, c], s0[i, c], "multiplier steps are kept")
                if cls == "DpN":
                    z.ensure(Z.Or(m[i] == 1, *hit), "the limit is the largest fraction that stays in the box")
                if i == 0:
                    hits = []
                hits += hit
            if cls != "DpN":
                z.ensure(Z.Or(m[0] == 1, *hits), "the limit is the largest common fraction that stays in the box")
        return body

    def hrep(mod, cls, N, n, dual):
        def rep(v):
            lo, hi = nbox(v, n)
            X, d = np.clip(num(v, "x", N, n), lo, hi), num(v, "d", N, n + dual)
            st = NS(primal=X.copy(), N=N)
            o = zc.obj(getattr(mod, cls), dim_p=n, dim=n, N=N, state=st)
            o._xl, o._xu = lo, hi
            S, mx = o._handle_box_constraint(d.copy()) if cls == "DpN" else o._handle_box_constraint(d.copy(), st)
            mx = np.broadcast_to(np.ravel(mx), (N,)) if np.size(mx) == 1 else np.ravel(mx)
            e, t = None, 1e-7 * (1 + np.abs(hi - lo).max())
            out = ((X == lo) & (d[:, :n] < 0)) | ((X == hi) & (d[:, :n] > 0))
            near = (np.minimum(X - lo, hi - X) < 1e-9)
            if S.shape != d.shape or mx.shape != (N,) or not np.all(np.isfinite(mx)):
                e = "malformed result"
            elif np.any(S[:, :n][out] != 0):
                e = "a component pointing out of an active bound is kept"
            elif np.any((S[:, :n] != d[:, :n]) & ~near) or np.any(S[:, n:] != d[:, n:]):
                e = "another component is changed"
            elif np.any(mx < 0) or np.any(mx > 1):
                e = "limit outside [0, 1]"
            else:
                Q = X + mx[:, None] * S[:, :n]
                f = np.array([largest_fraction(X[i], S[i, :n], lo, hi) for i in range(N)])
                if np.any(Q < lo - t) or np.any(Q > hi + t):
                    e = "the limited step leaves the box"
                elif np.any(np.abs((f if cls == "DpN" else np.full(N, f.min())) - mx) > 1e-6):
                    e = f"limit {mx}, largest fraction {f}"
            return {"X": X.tolist(), "step": d.tolist(), "xl": lo.tolist(), "xu": hi.tolist(), "observed": e} if e else None
        return rep
    for mod, real, cls, shapes in ((LN, rn, "DpN", ((1, 1, 1), (1, 2, 0), (2, 1, 0)) + (((2, 2, 0), (1, 3, 0)) if big else ())),
                                   (LG, rg, "Lara", ((1, 1, 0), (1, 2, 0), (2, 1, 0)) + (((2, 2, 0),) if big else ()))):
        for N, n, dual in shapes:
            ctx.obligation(f"{cls}._handle_box_constraint {N}x{n}", f"{mod.__name__}.{cls}._handle_box_constraint",
                           Z.prove(handler(mod, cls, N, n, dual), hrep(real, cls, N, n, dual), soft=True, budget=300 if big else 60, linear_quot=True), bounded=f"{N} points, {n} variables, all reals")

    # ---- the step limit of the hypervolume method
    def hvn(N, n, on):
        def body(z):
            lo, hi = box(z, n)
            X = points(z, N, n, lo, hi)
            d = z.array("d", (N, n))
            o = zc.obj(LN.HVN, dim_p=n, xl=lo, xu=hi, limit_max_step_size=on)
            m = fin(o._compute_max_step_size(X, d))
            if not on:
                return z.ensure(Z.SymBool(Z.real2(Z.toz(m), Z.toz(1))[0] == 1), "no limit when the limit is off")
            m = Z.Sym(Z.toz(m))
            z.ensure(Z.And(m >= 0, m <= 1), "the limit lies in [0, 1]")
            hit = []
            for i in range(N):
                for c in range(n):
                    q = X[i, c] + 4 * m * d[i, c]
                    hit += [Z.And(d[i, c] < 0, q <= lo[c]), Z.And(d[i, c] > 0, q >= hi[c])]
                    z.ensure(Z.And(q >= lo[c], q <= hi[c]), "the limited step stays in the box, even four times")
            z.ensure(Z.Or(m == 1, *hit), "the limit is a quarter of the largest fraction")
        return body

    def vrep(N, n, on):
        def rep(v):
            lo, hi = nbox(v, n)
            X, d = np.clip(num(v, "x", N, n), lo, hi), num(v, "d", N, n)
            o = zc.obj(rn.HVN, dim_p=n, limit_max_step_size=on)
            o._xl, o._xu = lo, hi
            m = float(o._compute_max_step_size(X, d))
            f = min([1e300] + [((X[i, k] - lo[k]) / -d[i, k]) if d[i, k] < 0 else ((hi[k] - X[i, k]) / d[i, k]) for i in range(N) for k in range(n) if d[i, k] != 0])
            e = min(1.0, .25 * f) if on else 1.0
            if not abs(m - e) <= 1e-7:
                return {"X": X.tolist(), "step": d.tolist(), "xl": lo.tolist(), "xu": hi.tolist(), "observed": m, "expected": e}
        return rep
    for N, n, on in ((1, 1, True), (1, 2, True), (2, 1, True), (2, 2, True), (2, 2, False)):
        ctx.obligation(f"HVN._compute_max_step_size {N}x{n}{'' if on else ' (off)'}", "hvd.newton.HVN._compute_max_step_size",
                       Z.prove(hvn(N, n, on), vrep(N, n, on), soft=True, budget=60, linear_quot=True), bounded=f"{N} points, {n} variables, all reals")

    # ---- start points
    class Rec:
        n_var = 1

        def update(self, X, **k):
            self.X = X

    def start(mod, cls, N, n, given, dual):
        def body(z):
            lo, hi = box(z, n)
            st = Rec()
            o = zc.obj(getattr(mod, cls), dim_p=n, dim=n, dim_d=dual, N=N, xl=lo, xu=hi, state=st, ref=np.ones(2))
            X = points(z, N, n, lo, hi, inside=False) if given else None
            x0 = X.copy() if given else None
            ld.np.__dict__["random"] = NS(rand=lambda *s: z.array("u", s, lo=0, hi=1))
            ld.np.__dict__["product"] = lambda x: 1.0
            o._initialize(X)
            P = np.asarray(st.X, dtype=object)
            z.passed(P.shape[0] == N and P.shape[1] >= n, "one row per start point")
            for i in range(N):
                for c in range(n):
                    z.ensure(Z.And(P[i, c] >= lo[c], P[i, c] <= hi[c]), "start points lie in the box")
                    if given:
                        z.ensure(Z.Implies(Z.And(X[i, c] >= lo[c], X[i, c] <= hi[c]), P[i, c] == X[i, c]), "start coordinates inside the box are kept")
            if given:
                z.passed(all(a is b for a, b in zip(X.ravel(), x0.ravel())), "the caller's start points are not modified")
            z.passed(o.iter_count == 0, "the iteration counter starts at zero")
        return body

    def srep(mod, cls, N, n, given, dual):
        def rep(v):
            if not given:
                return None
            lo, hi = nbox(v, n)
            X = num(v, "x", N, n)
            st = Rec()
            o = zc.obj(getattr(mod, cls), dim_p=n, dim=n, dim_d=dual, N=N, state=st, ref=np.ones(2))
            o._xl, o._xu = lo, hi
            o._initialize(X.copy())
            P = np.asarray(st.X)[:, :n]
            if np.any(P < lo) or np.any(P > hi) or np.any((P != X) & (X >= lo) & (X <= hi)):
                return {"X0": X.tolist(), "xl": lo.tolist(), "xu": hi.tolist(), "observed": P.tolist()}
        return rep
    for mod, real, cls in ((LN, rn, "HVN"), (LN, rn, "DpN"), (LM, rm, "MMDNewton"), (LG, rg, "Lara")):
        for given in (True, False):
            ctx.obligation(f"{cls}._initialize ({'supplied' if given else 'random'} start points)", f"{mod.__name__}.{cls}._initialize",
                           Z.prove(start(mod, cls, 2, 2, given, 0 if cls == "Lara" else 1), srep(real, cls, 2, 2, given, 0 if cls == "Lara" else 1), soft=True, budget=60), bounded="2 points, 2 variables, all reals")

    # ---- one iteration moves no point out of the box (callees by their contracts above and the line search of P08)
    def iterate(mod, cls, N, n):
        def body(z):
            lo, hi = box(z, n)
            X = points(z, N, n, lo, hi)
            raw = z.array("d", (N, n))
            new = []

            class S:
                def __init__(self, X): self.X = X
                primal = property(lambda s: s.X)
                Y = J = None
                def update(self, X, **k): new.append(X)
                def __getitem__(self, i): return S(self.X[i])
                def is_feasible(self): return np.zeros(N, bool)
            S.N = property(lambda s: len(s.X))
            st = S(X)
            R = np.zeros((N, n))

            def handled(step, state=None):
                m = np.array([z.fresh("max_step") for _ in range(1 if cls == "Lara" else N)], dtype=object)
                Q = np.empty((N, n), dtype=object)
                for i in range(N):
                    z.assume(Z.And(m[i % len(m)] > 0, m[i % len(m)] <= 1))
                    for c in range(n):
                        Q[i, c] = z.fresh("projected")
                        z.assume(Z.Or(Q[i, c] == 0, Q[i, c] == step[i, c]))
                        z.assume(Z.And(X[i, c] + m[i % len(m)] * Q[i, c] >= lo[c], X[i, c] + m[i % len(m)] * Q[i, c] <= hi[c]))
                return Q, (m[0] if cls == "Lara" else m)

            def search(step, R=None, mx=None):
                if mx is None:
                    raise Z.Broken("the line search is not given the step limit")
                s = np.empty((N, 1), dtype=object)
                for i in range(N):
                    s[i, 0] = z.fresh("step_size")
                    z.assume(Z.And(s[i, 0] > 0, s[i, 0] <= mx[i]))
                return s
            kw = dict(dim_p=n, dim=n, N=N, xl=lo, xu=hi, state=st, logger=zc.Quiet(), _compute_indicator_value=lambda *a: None, _shift_reference_set=lambda: None,
                      _check_population=lambda: None, _check_points_uniqueness=lambda: None)
            if cls == "DpN":
                o = zc.obj(mod.DpN, _compute_netwon_step=lambda s: (raw.copy(), R), _handle_box_constraint=handled, _backtracking_line_search=search, **kw)
                o.newton_iteration()
            elif cls == "Lara":
                o = zc.obj(mod.Lara, _compute_step=lambda s: raw.copy(), _handle_box_constraint=handled, **kw)
                o.iteration()
            else:
                def limit(P, d):
                    m = z.fresh("max_step")
                    z.assume(Z.And(m > 0, m <= 1))
                    for i in range(len(P)):
                        for c in range(n):
                            z.assume(Z.And(P[i, c] + m * d[i, c] >= lo[c], P[i, c] + m * d[i, c] <= hi[c]))
                    return m

                def bls(R, f, max_step_size=1):
                    s = z.fresh("step_size")
                    z.assume(Z.And(s > 0, s <= max_step_size))
                    return s
                o = zc.obj(mod.HVN, _compute_netwon_step=lambda s: (raw.copy(), R), _compute_max_step_size=limit, _get_phi_func=lambda *a: None, limit_max_step_size=True, **kw)
                mod.backtracking_line_search = bls
                o.iterate()
            z.passed(len(new) == 1, "the state is updated once")
            for i in range(N):
                for c in range(n):
                    z.ensure(Z.And(new[0][i, c] >= lo[c], new[0][i, c] <= hi[c]), "the new points lie in the box")
        return body
    LNi = Z.ZLoader().load("hvd.newton")
    for mod, cls, meth in ((LNi, "DpN", "newton_iteration"), (LG, "Lara", "iteration"), (LNi, "HVN", "iterate")):
        ctx.obligation(f"{cls}.{meth} stays in the box", f"{mod.__name__}.{cls}.{meth}", Z.prove(iterate(mod, cls, 2, 1), soft=True, budget=60),
                       bounded="2 points, 1 variable, all reals; callees by contract")

    # ---- reflection into the box
    def reflect(shape, n):
        def body(z):
            lo, hi = box(z, n)
            x = z.array("x", shape)
            x0 = x.copy()
            y = LU.handle_box_constraint(x.copy(), lo, hi)
            z.passed(y.shape == shape, "shape")
            for ix in np.ndindex(*shape):
                c = ix[-1]
                a, v = x0[ix], y[ix]
                z.ensure(Z.And(v >= lo[c], v <= hi[c]), "the reflected point lies in the box")
                z.ensure(Z.Implies(Z.And(a >= lo[c], a <= hi[c]), v == a), "a point inside the box is unchanged")
        return body

    def rrep(shape, n):
        def rep(v):
            lo, hi = nbox(v, n)
            x = num(v, "x", *shape)
            y = ru.handle_box_constraint(x.copy(), lo, hi)
            t = 1e-9 * (1 + np.abs(hi).max() + np.abs(lo).max())
            i = (x >= lo) & (x <= hi)
            if y.shape != x.shape or np.any(y < lo - t) or np.any(y > hi + t) or np.any(np.abs(y - x)[i] > t):
                return {"x": x.tolist(), "lb": lo.tolist(), "ub": hi.tolist(), "observed": y.tolist()}
        return rep
    for shape in ((1,), (2,), (2, 1)):
        ctx.obligation(f"handle_box_constraint {shape}", "hvd.utils.handle_box_constraint", Z.prove(reflect(shape, shape[-1]), rrep(shape, shape[-1]), soft=True, budget=60, linear_quot=True),
                       bounded=f"shape {shape}, all reals")

    # ---- expansion of bounds
    def bounds(kind, n):
        def body(z):
            v = [z.real(f"v{k}") for k in range(max(n, 1) + 1)]
            arg, e = {"scalar": (v[0], [v[0]] * n), "list1": ([v[0]], [v[0]] * n), "vector": (v[:n], v[:n]), "long": (v[:n + 1], None), "int": (3, [3] * n),
                      "array": (np.array(v[:n], dtype=object), v[:n])}[kind]
            try:
                r = LU.set_bounds(arg, n)
            except AssertionError:
                return z.passed(e is None, f"{kind} bounds are accepted")
            z.passed(e is not None, "bounds of the wrong length are rejected")
            z.passed(np.shape(r) == (n,), f"one bound per variable, got shape {np.shape(r)}")
            for a, b in zip(r, e):
                z.ensure_eq(a, b, "bound")
        return body

    def brep(kind, n):
        def rep(v):
            v = [1.5 + k for k in range(max(n, 1) + 1)]
            arg, e = {"scalar": (v[0], [v[0]] * n), "list1": ([v[0]], [v[0]] * n), "vector": (v[:n], v[:n]), "long": (v[:n + 1], None), "int": (3, [3] * n),
                      "array": (np.array(v[:n]), v[:n])}[kind]
            try:
                r = ru.set_bounds(arg, n)
            except AssertionError:
                return {"bound": str(arg), "dim": n, "observed": "rejected"} if e is not None else None
            if e is None or np.shape(r) != (n,) or list(r) != list(e):
                return {"bound": str(arg), "dim": n, "observed": str(r)}
        return rep
    for kind in ("scalar", "int", "list1", "vector", "array", "long"):
        for n in (1, 2, 3):
            if kind == "long" and n == 1:
                pass
            ctx.obligation(f"set_bounds {kind}, {n} variable(s)", "hvd.utils.set_bounds", Z.prove(bounds(kind, n), brep(kind, n), budget=20), bounded=f"{n} variables, all reals")
    ctx.trusted |= {"numpy indexing, broadcasting and arithmetic on arrays", "np.random.rand in [0, 1)"}


def concrete(ctx):
    from hvd.newton import HVN, DpN
    from hvd.mmd_newton import MMDNewton
    from hvd.gradient_based import Lara
    from hvd.reference_set import ReferenceSet
    from hvd import utils
    tol = 1e-9

    def box(rng, n):
        lo = rng.uniform(-3, 1, n)
        hi = lo + rng.uniform(.2, 4, n)
        if rng.rand() < .4:
            lo[:], hi[:] = lo[0], hi[0] if hi[0] > lo[0] else lo[0] + 1
            form = str(rng.choice(["scalar", "list1", "vector"]))
            given = {"scalar": (float(lo[0]), float(hi[0])), "list1": ([lo[0]], [hi[0]]), "vector": (list(lo), list(hi))}[form]
        else:
            form, given = "vector", (lo.copy(), list(hi))
        return lo, hi, given, form

    def make(rng, cls, N=None, conf="none", snap=0.35, iters=1, **extra):
        n, m, N, conf, p, X, L = build(rng, "HVN" if cls is HVN else "", N, conf)
        lo, hi, given, form = box(rng, n)
        X = lo + X * (hi - lo)
        for _ in range(3):
            if rng.rand() < snap * 2:
                i, k = rng.randint(N), rng.randint(n)
                X[i, k] = lo[k] if rng.rand() < .5 else hi[k]
        f = p
        kw = dict(func=f.f, jac=f.j, xl=given[0], xu=given[1], N=N, max_iters=iters, verbose=False)
        Y = np.array([f.f(x) for x in X])
        if cls is HVN:
            kw.update(n_var=n, n_obj=m, ref=np.abs(Y).max(0) + 30, X0=X, hessian=f.hf, **extra)
        elif cls is DpN:
            kw.update(dim=n, n_obj=m, ref=ReferenceSet(np.array([f.f(lo + rng.rand(n) * (hi - lo)) for _ in range(N + 3)]) - .5), x0=X, hessian=f.hf, **extra)
        elif cls is MMDNewton:
            kw.update(n_var=n, n_obj=m, ref=ReferenceSet(np.array([f.f(lo + rng.rand(n) * (hi - lo)) for _ in range(N)]) - .5), X0=X, hessian=f.hf, **extra)
        else:
            kw.update(n_var=n, n_obj=m, X0=X, **extra)
        return n, m, N, lo, hi, X, kw, form

    def inside(X, lo, hi, t=0.0):
        return np.all(X >= lo - t) and np.all(X <= hi + t)

    def start(rng, cls):
        n, m, N, lo, hi, X, kw, form = make(rng, cls, N=3 if cls is MMDNewton else None)
        key = "x0" if cls is DpN else "X0"
        mode = str(rng.choice(["none", "outside", "inside", "list"]))
        if mode == "none":
            kw[key] = None
        elif mode != "inside":
            X = X + rng.randn(*X.shape) * (hi - lo) * rng.choice([.5, 20]) * (rng.rand(*X.shape) < .5)
            kw[key] = X if mode == "outside" else X.tolist()
        X0 = np.array(X, copy=True)
        o = cls(**kw)
        P = o.state.primal
        nm = cls.__name__
        if not (np.array_equal(o.xl, lo) and np.array_equal(o.xu, hi)):
            raise Fail(f"{nm}: bounds {kw['xl']!r}, {kw['xu']!r} were expanded to {o.xl}, {o.xu}", lo=lo, hi=hi)
        if P.shape != (N, n):
            raise Fail(f"{nm}: start population has shape {P.shape}, expected {(N, n)}")
        if not inside(P, lo, hi, 1e-12 * (1 + np.abs(hi).max())):
            raise Fail(f"{nm}: start points outside the box ({mode})", X0=X0, start=P, lo=lo, hi=hi)
        if mode != "none":
            ok = (X0 >= lo) & (X0 <= hi)
            if not np.array_equal(P[ok], X0[ok]):
                raise Fail(f"{nm}: a start coordinate inside the box was changed", X0=X0, start=P, lo=lo, hi=hi)
            if not np.array_equal(X, X0):
                raise Fail(f"{nm}: the caller's start points were modified", X0=X0)
        return (nm, mode, form, N, n)

    def handler(rng, cls):
        n, m, N, lo, hi, X, kw, form = make(rng, cls, snap=.5)
        o = cls(**kw)
        w = o.state.X.shape[1]
        step = rng.randn(N, w) * 10 ** rng.uniform(-2, 2)
        if rng.rand() < .3:
            step[rng.rand(N, w) < .4] = 0
        P = o.state.primal.copy()
        s0 = step.copy()
        args = (step,) if cls is DpN else (step, o.state)
        S, mx = o._handle_box_constraint(*args)
        mx = np.broadcast_to(np.asarray(mx, float).ravel(), (N,)) if np.size(mx) == 1 else np.asarray(mx, float).ravel()
        nm = cls.__name__
        d = dict(X=P, step=s0, result=S, max_step=mx, lo=lo, hi=hi)
        if S.shape != s0.shape or mx.shape != (N,):
            raise Fail(f"{nm} box handling changed the shape of the step", **d)
        if not np.array_equal(S[:, n:], s0[:, n:]):
            raise Fail(f"{nm} box handling changed multiplier steps", **d)
        a = ((P - lo < 1e-10 / 2) & (s0[:, :n] < 0)) | ((hi - P < 1e-10 / 2) & (s0[:, :n] > 0))
        if np.any(S[:, :n][a] != 0):
            raise Fail(f"{nm}: a step component pointing out of an active bound was not removed", **d)
        if not np.array_equal(S[:, :n][~a], s0[:, :n][~a]):
            raise Fail(f"{nm}: a step component not pointing out of an active bound was changed", **d)
        if np.any(mx < 0) or np.any(mx > 1):
            raise Fail(f"{nm}: step limit outside [0,1]", **d)
        Q = P + mx[:, None] * S[:, :n]
        if not inside(Q, lo, hi, tol * (1 + np.abs(hi - lo).max())):
            raise Fail(f"{nm}: the limited step leaves the box", new=Q, **d)
        frac = np.array([largest_fraction(P[i], S[i, :n], lo, hi) for i in range(N)])
        if cls is Lara:
            frac = np.full(N, frac.min())
        if np.any(np.abs(frac - mx) > 1e-9):
            raise Fail(f"{nm}: the step limit is not the largest fraction that stays in the box", expected=frac, **d)
        if not np.array_equal(o.state.primal, P):
            raise Fail(f"{nm}: box handling moved the points", **d)
        return (nm, N, n, int(a.sum()), bool(np.all(mx == 1)))

    def hvn_limit(rng):
        n, m, N, lo, hi, X, kw, form = make(rng, HVN, snap=.1, limit_max_step_size=bool(rng.rand() < .8))
        o = HVN(**kw)
        P = o.state.primal.copy()
        step = rng.randn(N, n) * 10 ** rng.uniform(-2, 2)
        z = rng.rand()
        if z < .15:
            step[:] = 0
        elif z < .3:
            step[rng.rand(N, n) < .5] = 0
        s = float(o._compute_max_step_size(P, step))
        if not o.limit_max_step_size:
            if s != 1:
                raise Fail("HVN: step limited although the limit is off")
            return None
        f = min(largest_fraction(P[i], step[i] * 1e-9, lo - 0, hi) * 1e-9 if False else
                min([1e300] + [((P[i, k] - lo[k]) / -step[i, k]) if step[i, k] < 0 else ((hi[k] - P[i, k]) / step[i, k]) for k in range(n) if step[i, k] != 0])
                for i in range(N))
        e = min(1.0, .25 * f)
        if abs(s - e) > 1e-9:
            raise Fail(f"HVN step limit is {s}, a quarter of the largest admissible fraction is {e}", X=P, step=step, lo=lo, hi=hi)
        if not inside(P + s * step, lo, hi, tol * (1 + np.abs(hi - lo).max())):
            raise Fail("HVN: limited step leaves the box", X=P, step=step, lo=lo, hi=hi)
        return (N, n, e < 1)

    def run(rng, cls):
        conf = str(rng.choice(["none", "eq", "ieq"])) if cls is DpN else "none"
        iters = int(rng.randint(1, 6))
        ex = dict(limit_max_step_size=True) if cls is HVN else {}
        n, m, N, lo, hi, X, kw, form = make(rng, cls, snap=.4, iters=iters, **ex)
        o = cls(**kw)
        X, Y, _ = o.run()
        H = [np.asarray(h) for h in o.history_X] + [X]
        for t, h in enumerate(H):
            if np.all(np.isfinite(h)) and not inside(h, lo, hi, 1e-8 * (1 + np.abs(hi - lo).max())):
                raise Fail(f"{cls.__name__}: a point left the box in iteration {t + 1}", X=h, lo=lo, hi=hi, start=kw.get("X0", kw.get("x0")))
        return (cls.__name__, N, n, iters, conf)

    def bounds(rng):
        n = int(rng.randint(1, 6))
        v = float(np.round(rng.randn(), 3))
        kind = str(rng.choice(["float", "int", "list1", "list", "tuple", "array", "array1", "bad"]))
        vec = np.round(rng.randn(n), 3)
        arg, exp = {"float": (v, [v] * n), "int": (3, [3] * n), "list1": ([v], [v] * n), "list": (list(vec), vec), "tuple": (tuple(vec), vec),
                    "array": (vec.copy(), vec), "array1": (np.array([v]), [v] * n), "bad": (list(rng.randn(n + 1 + (n == 0))), None)}[kind]
        if kind == "bad" and n >= 3 and rng.rand() < .5:
            arg = [1.0, 2.0]
        if kind == "bad" and len(arg) == 1:
            return None
        try:
            r = utils.set_bounds(arg, n)
        except Exception as e:
            if exp is None:
                return ("rejected", n)
            raise Fail(f"set_bounds({arg!r}, {n}) raised {e!r}")
        if exp is None:
            raise Fail(f"set_bounds accepted {len(arg)} bounds for {n} variables", arg=arg)
        r = np.asarray(r)
        if r.shape != (n,) or not np.array_equal(r, np.asarray(exp, float)):
            raise Fail(f"set_bounds({arg!r}, {n}) returned {r!r}")
        return (kind, n)

    def reflect(rng):
        n = int(rng.randint(1, 6))
        lo = rng.uniform(-3, 2, n)
        hi = lo + rng.uniform(.1, 5, n)
        N = int(rng.choice([k for k in range(1, 8) if k != n]))
        single = bool(rng.rand() < .5)
        shape = (n,) if single else (N, n)
        mode = str(rng.choice(["inside", "near", "far", "edge"]))
        u = rng.rand(*shape)
        x = lo + (hi - lo) * {"inside": u, "near": 3 * u - 1, "far": 200 * u - 100, "edge": rng.randint(0, 2, shape)}[mode]
        inf = rng.rand(n) < (.3 if rng.rand() < .3 else 0)
        L, U = np.where(inf & (rng.rand(n) < .5), -np.inf, lo), hi.copy()
        U[inf & np.isfinite(L)] = np.inf
        x0 = x.copy()
        y = utils.handle_box_constraint(x, L, U)
        if y.shape != shape:
            raise Fail(f"reflection changed the shape {shape} to {y.shape}")
        fin = np.isfinite(L) & np.isfinite(U)
        e = 1e-9 * (1 + np.abs(hi).max() + np.abs(lo).max())
        if not inside(y[..., fin], L[fin], U[fin], e):
            raise Fail("reflection returned a point outside the box", x=x0, y=y, lb=L, ub=U)
        if not np.array_equal(y[..., ~fin], x0[..., ~fin]):
            raise Fail("reflection changed an unbounded variable", x=x0, y=y, lb=L, ub=U)
        ins = (x0 >= L) & (x0 <= U)
        if not np.allclose(y[ins], x0[ins], atol=e):
            raise Fail("reflection moved a coordinate that was inside", x=x0, y=y, lb=L, ub=U)
        # folding: the distance to the nearest image under reflections is preserved
        w = np.where(fin, hi - lo, 1)
        t = np.where(fin, (x0 - np.where(fin, L, 0)) / w, 0) % 2
        z = np.where(fin, np.where(fin, L, 0) + w * np.where(t > 1, 2 - t, t), x0)
        if not np.allclose(y, z, atol=1e-7 * (1 + np.abs(x0).max())):
            raise Fail("the result is not the mirror image of the point", x=x0, y=y, expected=z, lb=L, ub=U)
        return (mode, single, n, int(inf.sum()))
    k = 6 if ctx.thorough else 1
    for cls, c in ((HVN, 40), (DpN, 60), (Lara, 60), (MMDNewton, 4)):
        ctx.scenario(f"start/{cls.__name__}", lambda r: start(r, cls), c * k)
    for cls in (DpN, Lara):
        ctx.scenario(f"handler/{cls.__name__}", lambda r: handler(r, cls), 250 * k)
    ctx.scenario("hvn_limit", hvn_limit, 200 * k)
    ctx.scenario("bounds", bounds, 200 * k)
    ctx.scenario("reflect", reflect, 400 * k)
    for cls, c in ((DpN, 60), (Lara, 60), (HVN, 20)):
        ctx.scenario(f"run/{cls.__name__}", lambda r: run(r, cls), c * k)
