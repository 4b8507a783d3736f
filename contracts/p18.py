"""P18: feasibility and KKT certificates."""
import numpy as np
from pyvc.check import Fail, Skip


def prove(ctx):
    from pyvc import zsym as Z
    from . import zc
    import hvd.base as real
    ld = Z.ZLoader()
    B = ld.load("hvd.base")

    def state(mod, n, ne, ni, h, g, **kw):
        return mod.State(n, ne, ni, lambda x: x, lambda x: x, h=h if ne else None, g=g if ni else None, **kw)

    # ---- feasibility
    def feas(N, ne, ni):
        def body(z):
            H, G = z.array("h", (N, ne)), z.array("g", (N, ni))
            X = np.arange(float(N)).reshape(N, 1)
            st = state(B, 1, ne, ni, lambda x: H[int(x[0])], lambda x: G[int(x[0])])
            st.X = X
            st.cstr_value, st.active_indices = st.eval_cstr(X)
            r = st.is_feasible()
            z.passed(np.shape(r) == (N,), "one verdict per point")
            for i in range(N):
                z.ensure(Z.Iff(bool(r[i]), Z.And(*[Z.And(a <= 1e-4, a >= -1e-4) for a in H[i]], *[b < -1e-4 for b in G[i]])), "feasible iff the equalities hold within 1e-4 and every inequality is below -1e-4")
                for k in range(ne):
                    z.passed(bool(st.active_indices[i, k]), "equalities are always active")
                for k in range(ni):
                    z.ensure(Z.Iff(bool(st.active_indices[i, ne + k]), G[i, k] >= -1e-4), "an inequality is active iff its value is at least -1e-4")
        return body

    def frep(N, ne, ni):
        def rep(v):
            H = np.array([[v[f"h_{i}_{k}"] for k in range(ne)] for i in range(N)]).reshape(N, ne)
            G = np.array([[v[f"g_{i}_{k}"] for k in range(ni)] for i in range(N)]).reshape(N, ni)
            X = np.arange(float(N)).reshape(N, 1)
            st = state(real, 1, ne, ni, lambda x: H[int(x[0])], lambda x: G[int(x[0])])
            st.X = X
            st.cstr_value, st.active_indices = st.eval_cstr(X)
            r = np.asarray(st.is_feasible())
            e = np.all(np.abs(H) <= 1e-4, axis=1) & np.all(G < -1e-4, axis=1)
            a = np.c_[np.ones((N, ne), bool), G >= -1e-4]
            if r.shape != (N,) or np.any(r != e) or np.any(np.asarray(st.active_indices) != a):
                return {"H": H.tolist(), "G": G.tolist(), "feasible": r.tolist(), "expected": e.tolist(), "active": np.asarray(st.active_indices).tolist()}
        return rep
    for N, ne, ni in ((1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 2, 0), (1, 0, 2), (1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 0, 2), (2, 2, 0)):
        ctx.obligation(f"is_feasible, {N} point(s), {ne} equalities, {ni} inequalities", "hvd.base.State.is_feasible", Z.prove(feas(N, ne, ni), frep(N, ne, ni), budget=60),
                       bounded=f"{N} points, {ne}+{ni} constraints, all reals")
    ctx.functions.add("hvd.base.State.eval_cstr")

    # ---- optimality certificate, linprog under its contract
    def kkt(n, m, ne, ni, forward):
        def body(z):
            J, dH, dG = z.array("J", (m, n)), z.array("dH", (ne, n)), z.array("dG", (ni, n))
            H, G = z.array("h", (ne,)), z.array("g", (ni,))
            act = [k for k in range(ni) if bool(G[k] >= -1e-4)]
            cols = [J[k] for k in range(m)] + [dH[k] for k in range(ne)] + [dG[k] for k in act]
            y = [z.real(f"y{k}") for k in range(len(cols))]      # an arbitrary candidate for the multipliers
            free = set(range(m, m + ne))

            def cert(x):
                s = sum(x[:m])
                st = []
                for d in range(n):
                    t = sum(x[k] * cols[k][d] for k in range(len(cols)))
                    st += [t <= 1e-4, t >= -1e-4]
                return Z.And(*[x[k] >= 0 for k in range(len(cols)) if k not in free], Z.Sym(Z.toz(s)) == 1, *st)
            res = {}

            class R:
                pass

            def linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, method="highs", **k):
                if k or res:
                    raise Z.Unsupported("another linear program")
                nv = len(c)

                def feasible(x):
                    q = []
                    for A, b, eq in ((A_ub, b_ub, False), (A_eq, b_eq, True)):
                        if A is None:
                            continue
                        for r in range(len(A)):
                            t = Z.Sym(Z.toz(sum(A[r][j] * x[j] for j in range(nv))))
                            q.append(t == b[r] if eq else t <= b[r])
                    for j, (lo, hi) in enumerate(bounds):
                        if lo is not None:
                            q.append(x[j] >= lo)
                        if hi is not None:
                            q.append(x[j] <= hi)
                    return Z.And(*q)
                ok = z.boolean("lp_success")
                x = np.array([z.fresh("lp") for _ in range(nv)], dtype=object)
                obj = lambda x: Z.Sym(Z.toz(sum(c[j] * x[j] for j in range(nv))))
                z.assume(Z.Implies(ok, feasible(x)))
                w = y + [1e-4]          # the candidate with residual bound at the tolerance
                if len(w) == nv:
                    z.assume(Z.Implies(feasible(w), Z.And(ok, obj(x) <= obj(w))))
                elif not forward:
                    raise Z.Unsupported("another number of unknowns in the linear program")
                res["x"] = x
                r = R()
                r.success, r.x = ok, x
                r.fun = obj(x)
                return r
            B.linprog = linprog
            st = state(B, n, ne, ni, None, None)
            st.h, st.g = (1 if ne else None), (1 if ni else None)
            st.X, st.J = np.zeros((1, n)), J.reshape(1, m, n)
            st.cstr_value = np.concatenate([H, G]).reshape(1, ne + ni)
            st.cstr_grad = np.concatenate([dH, dG]).reshape(1, ne + ni, n)
            st.active_indices = np.array([[True] * ne + [k in act for k in range(ni)]])
            v = bool(st.check_KKT()[0])
            ok = Z.And(*[Z.And(a <= 1e-4, a >= -1e-4) for a in H], *[b <= 1e-4 for b in G])
            if forward:
                if v:
                    z.passed(True)
                    z.ensure(ok, "a certified point satisfies the constraints within tolerance")
                    x = res.get("x")
                    if x is None or len(x) < len(cols):
                        raise Z.Unsupported("certificate without the linear program")
                    z.ensure(cert(list(x[:len(cols)])), "a certified point has multipliers with vanishing combination")
            else:
                if not v:
                    z.ensure(Z.Not(Z.And(ok, cert(y))), "a point with multipliers is certified")
        return body

    def krep(n, m, ne, ni):
        def rep(v):
            from scipy.optimize import linprog
            A = lambda nm, *s: np.array([v[nm + "_" + "_".join(map(str, ix))] for ix in np.ndindex(*s)]).reshape(s)
            J, dH, dG, H, G = A("J", m, n), A("dH", ne, n), A("dG", ni, n), A("h", ne), A("g", ni)
            real.linprog = linprog
            st = state(real, n, ne, ni, None, None)
            st.h, st.g = (1 if ne else None), (1 if ni else None)
            st.X, st.J = np.zeros((1, n)), J.reshape(1, m, n)
            st.cstr_value = np.concatenate([H, G]).reshape(1, ne + ni)
            st.cstr_grad = np.concatenate([dH, dG]).reshape(1, ne + ni, n)
            st.active_indices = np.array([[True] * ne + list(G >= -1e-4)])
            got = bool(st.check_KKT()[0])
            act = G >= -1e-4
            M = np.concatenate([J, dH, dG[act]]).T
            k = M.shape[1]
            r = linprog(np.r_[np.zeros(k), 1], A_ub=np.c_[np.r_[M, -M], -np.ones(2 * n)], b_ub=np.zeros(2 * n), A_eq=[[1] * m + [0] * (k - m + 1)], b_eq=[1],
                        bounds=[(0, None)] * m + [(None, None)] * ne + [(0, None)] * int(act.sum()) + [(0, None)])
            res = r.x[-1] if r.success else np.inf
            inner = np.all(np.abs(H) <= 1e-4) and np.all(G <= 1e-4) and res <= 9e-5
            outer = np.all(np.abs(H) <= 1.01e-4) and np.all(G <= 1.01e-4) and res <= 1.1e-4
            if got and not outer or not got and inner:
                return {"J": J.tolist(), "dH": dH.tolist(), "dG": dG.tolist(), "H": H.tolist(), "G": G.tolist(), "observed": got, "residual": float(res)}
        return rep
    for n, m, ne, ni in ((1, 2, 0, 0), (2, 2, 0, 0), (2, 2, 1, 0), (2, 2, 0, 1), (1, 2, 1, 1), (2, 2, 0, 2), (2, 2, 1, 2)):
        for fw in (True, False):
            ctx.obligation(f"check_KKT {'sound' if fw else 'complete'}, {n} variables, {m} objectives, {ne}+{ni} constraints", "hvd.base.State.check_KKT",
                           Z.prove(kkt(n, m, ne, ni, fw), krep(n, m, ne, ni), soft=True, budget=60), bounded=f"{n} variables, {m} objectives, {ne}+{ni} constraints, all reals")
    ctx.trusted.add("scipy.optimize.linprog returns a minimiser (exact contract)")


def concrete(ctx):
    from hvd.base import State

    class Lin:
        """callbacks with prescribed values and Jacobians at given points"""

        def __init__(s, X, J, H, dH, G, dG):
            s.X, s.J, s.H, s.dH, s.G, s.dG = X, J, H, dH, G, dG

        def at(s, A):
            def f(x):
                x = np.asarray(x)
                if x.ndim == 2:
                    return np.array([f(r) for r in x])
                return np.array(A[int(np.argmin(np.abs(s.X - x).sum(1)))])
            return f

    def state(rng, J, H, dH, G, dG, jac=True):
        N, m, n = J.shape
        X = rng.randn(N, n)
        q, p = H.shape[1], G.shape[1]
        L = Lin(X, J, H, dH, G, dG)
        st = State(n, q, p, func=L.at(np.zeros((N, m))), jac=L.at(J) if jac else None,
                   h=L.at(H) if q else None, h_jac=L.at(dH) if q else None,
                   g=L.at(G) if p else None, g_jac=L.at(dG) if p else None)
        st.update(np.c_[X, rng.randn(N, q + p)], compute_hessian=False, compute_gradient=jac)
        return st

    def vals(rng, N, k, eq, tol=1e-4):
        V = np.zeros((N, k))
        for i in range(N):
            for j in range(k):
                c = rng.randint(7)
                V[i, j] = [0, rng.randn(), -abs(rng.randn()), tol * .99, -tol * .99, tol * 1.01, -tol * 1.01][c]
        return V

    def feasible(rng):
        N, n, m = int(rng.randint(1, 6)), int(rng.randint(1, 5)), 2
        q, p = [(0, 1), (1, 0), (1, 1), (2, 3), (0, 3), (2, 0), (0, 0)][rng.randint(7)]
        H, G = vals(rng, N, q, True), vals(rng, N, p, False)
        if rng.rand() < .4:
            H[rng.rand(N) < .6] = 0
            G[rng.rand(N) < .6] = -1
        st = state(rng, rng.randn(N, m, n), H, rng.randn(N, q, n), G, rng.randn(N, p, n))
        got = np.asarray(st.is_feasible())
        exp = np.all(np.abs(H) <= 1e-4, axis=1) & np.all(G < -1e-4, axis=1)
        if got.shape != (N,) or not np.array_equal(got, exp):
            raise Fail(f"is_feasible reports {got.tolist()}, the definition gives {exp.tolist()}", H=H, G=G)
        return (N, q, p, tuple(exp))

    def simplex_min(A, B, C):
        """min over w in simplex, free u, v>=0 of |A^T w + B^T u + C^T v|_inf, by an independent solver (scipy highs-ipm on a different formulation)"""
        from scipy.optimize import linprog
        m, q, p, n = len(A), len(B), len(C), A.shape[1]
        # split free multipliers, unknown t as first variable
        M = np.concatenate([A.T, B.T, -B.T, C.T], axis=1)
        nv = M.shape[1]
        c = np.r_[1, np.zeros(nv)]
        Aub = np.block([[-np.ones((n, 1)), M], [-np.ones((n, 1)), -M]])
        Aeq = np.r_[0, np.ones(m), np.zeros(nv - m)][None]
        r = linprog(c, A_ub=Aub, b_ub=np.zeros(2 * n), A_eq=Aeq, b_eq=[1], bounds=[(0, None)] * (nv + 1), method="highs-ipm")
        return r.fun if r.success else None

    def kkt(rng):
        N, n, m = int(rng.randint(1, 4)), int(rng.randint(1, 5)), int(rng.randint(1, 4))
        q, p = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 3), (0, 3), (2, 0), (0, 4)][rng.randint(8)]
        st_tol, f_tol, a_tol = (1e-4, 1e-4, 1e-4) if rng.rand() < .5 else tuple(10 ** rng.uniform(-5, -1, 3))
        J, dH, dG = rng.randn(N, m, n), rng.randn(N, q, n), rng.randn(N, p, n)
        H = rng.choice([0, .5, -.5, 1.02, -1.02, 3], size=(N, q), p=[.5, .2, .2, .04, .03, .03]) * f_tol
        G = np.zeros((N, p))
        for i in range(N):
            for j in range(p):
                G[i, j] = [0, -a_tol * .98, -a_tol * 1.02, -1, f_tol * .98, f_tol * 1.02 if rng.rand() < .2 else -2, -3 * a_tol][rng.randint(7)]
        # make many points stationary: choose multipliers and fix one gradient
        exact = rng.rand(N) < .7
        for i in range(N):
            if not exact[i]:
                continue
            act = np.nonzero(G[i] >= -a_tol)[0]
            w = rng.rand(m) * (rng.rand(m) < .7)
            if w.sum() == 0:
                w[rng.randint(m)] = 1
            w /= w.sum()
            u, v = rng.randn(q), np.zeros(p)
            v[act] = np.abs(rng.randn(len(act)))
            if rng.rand() < .2 and p:          # a multiplier of the wrong sign or of an inactive constraint
                v[rng.randint(p)] = rng.choice([-1, 1]) * 2
            k0 = int(np.argmax(w))
            res = w @ J[i] + u @ dH[i] + v @ dG[i]
            J[i, k0] -= res / w[k0]
            J[i, k0] += rng.choice([0, .5, 2]) * st_tol * rng.choice([-1, 1], n)
        st = state(rng, J, H, dH, G, dG)
        kw = dict(stationarity_tol=st_tol, feasibility_tol=f_tol, active_tol=a_tol)
        if (st_tol, f_tol, a_tol) == (1e-4, 1e-4, 1e-4) and rng.rand() < .5:
            kw = {}
        got = np.asarray(st.check_KKT(**kw))
        if got.shape != (N,):
            raise Fail(f"check_KKT returned shape {got.shape} for {N} points")
        for i in range(N):
            feas = np.all(np.abs(H[i]) <= f_tol) and np.all(G[i] <= f_tol)
            r = simplex_min(J[i], dH[i], dG[i][G[i] >= -a_tol])
            if r is None:
                continue
            if abs(r - st_tol) < 1e-6 + 1e-3 * st_tol:
                continue
            exp = bool(feas and r <= st_tol)
            if bool(got[i]) != exp:
                raise Fail(f"check_KKT reports {bool(got[i])}; feasible within tolerance: {feas}, least stationarity residual {r} (tolerance {st_tol})",
                           J=J[i], H=H[i], dH=dH[i], G=G[i], dG=dG[i], tolerances=[st_tol, f_tol, a_tol])
        return (N, n, m, q, p, tuple(got.tolist()))

    def invalid(rng):
        n, m, N = 3, 2, 2
        J = rng.randn(N, m, n)
        st = state(rng, J, np.zeros((N, 0)), np.zeros((N, 0, n)), np.zeros((N, 0)), np.zeros((N, 0, n)), jac=False)
        try:
            st.check_KKT()
        except RuntimeError:
            pass
        else:
            raise Fail("check_KKT without objective Jacobians did not raise")
        st = state(rng, J, np.zeros((N, 0)), np.zeros((N, 0, n)), np.zeros((N, 0)), np.zeros((N, 0, n)))
        kw = {str(rng.choice(["stationarity_tol", "feasibility_tol", "active_tol"])): -1e-3}
        try:
            st.check_KKT(**kw)
        except ValueError:
            pass
        else:
            raise Fail(f"check_KKT accepted the negative tolerance {kw}")
        H, G = np.zeros((1, 1)), -np.ones((1, 1))
        (H if rng.rand() < .5 else G)[0, 0] = np.nan
        Jz = np.zeros((1, m, n))
        st = state(rng, Jz, H, np.zeros((1, 1, n)), G, np.zeros((1, 1, n)))
        if st.check_KKT()[0]:
            raise Fail("a point with undefined constraints is certified", H=H, G=G)
        return "ok"
    k = 8 if ctx.thorough else 1
    ctx.scenario("feasible", feasible, 300 * k)
    ctx.scenario("kkt", kkt, 250 * k)
    ctx.scenario("invalid", invalid, 10)
