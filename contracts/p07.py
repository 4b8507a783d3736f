"""P07: the Newton step solves the linearised KKT system on the active set; packing is lossless."""
import numpy as np
from pyvc.check import Fail, Skip
from .p05 import toy


class Prob:
    """random smooth problem with constraints; constraint values are shifted so that activity patterns vary"""

    def __init__(self, rng, n, m, ne, ng, X):
        self.n, self.m, self.ne, self.ng = n, m, ne, ng
        self.f, self.j, self.hf = toy(rng, n, m)
        self._h, self.h_jac, self._hh = toy(rng, n, max(ne, 1))
        self._g, self._gj, self._gh = toy(rng, n, max(ng, 1))
        # shift each inequality so that about half of the points are active
        if ng:
            v = np.array([self._g(x) for x in X])
            self.off = np.array([np.median(v[:, k]) if rng.rand() < .7 else (v[:, k].max() + 1 if rng.rand() < .5 else v[:, k].min() - 1)
                                 for k in range(ng)])
        self.h = lambda x: self._h(x)
        self.hh = self._hh

    def g(self, x):
        return self._g(x) - self.off

    def kw(self, hess=True):
        d = dict(func=self.f, jac=self.j, hessian=self.hf)
        if self.ne:
            d.update(h=self.h, h_jac=self.h_jac)
            if hess:
                d.update(h_hessian=self.hh)
        if self.ng:
            d.update(g=self.g, g_jac=self._gj)
            if hess:
                d.update(g_hessian=self._gh)
        return d


def system(prob, X, L, grad, Hess, curvature=True):
    """stacked optimality system at primal X (N,n), multipliers L (N,p): residual matrix (N,n+p), Jacobian, residual vector, masks"""
    N, n = X.shape
    ne, ng = prob.ne, prob.ng
    R = np.zeros((N, n + ne + ng))
    masks = np.zeros((N, ne + ng), bool)
    Jc, M = [], np.zeros((N * n, N * n))
    vals = []
    for i in range(N):
        v = np.r_[prob.h(X[i]) if ne else [], prob.g(X[i]) if ng else []]
        G = np.concatenate([prob.h_jac(X[i]) if ne else np.zeros((0, n)), prob._gj(X[i]) if ng else np.zeros((0, n))])
        C = np.concatenate([prob.hh(X[i]) if ne else np.zeros((0, n, n)), prob._gh(X[i]) if ng else np.zeros((0, n, n))])
        a = np.r_[np.ones(ne, bool), v[ne:] >= -1e-4].astype(bool) if ne + ng else np.zeros(0, bool)
        masks[i] = a
        R[i, :n] = grad[i] + L[i, a] @ G[a] if ne + ng else grad[i]
        R[i, n:][a] = v[a]
        Jc.append(G[a])
        vals.append(v[a])
        if curvature and ne + ng:
            s = slice(i * n, (i + 1) * n)
            M[s, s] = np.einsum("c,ckl->kl", L[i, a], C[a])
    k = masks.sum(1)
    B = np.zeros((k.sum(), N * n))
    o = 0
    for i in range(N):
        B[o:o + k[i], i * n:(i + 1) * n] = Jc[i]
        o += k[i]
    DR = np.block([[Hess + M, B.T], [B, np.zeros((len(B), len(B)))]]) if len(B) else Hess + M
    rv = np.r_[R[:, :n].ravel(), np.concatenate(vals) if len(B) else []]
    return R, DR, rv, masks


def pack(S, n, masks):
    return np.r_[S[:, :n].ravel(), np.concatenate([S[i, n:][masks[i]] for i in range(len(S))]) if masks.size else []]


def check_step(S, R, exp, n, what, **d):
    Re, DR, rv, masks = exp
    if R.shape != Re.shape or not np.allclose(R, Re, rtol=1e-8, atol=1e-8 * (1 + np.abs(Re).max())):
        raise Fail(f"{what}: the reported residual is not the stationarity/constraint residual point by point", got=R, expected=Re, **d)
    if S.shape != Re.shape:
        raise Fail(f"{what}: step has shape {S.shape}, expected {Re.shape}", **d)
    if masks.size and np.any(S[:, n:][~masks] != 0):
        raise Fail(f"{what}: the multiplier of an inactive constraint received a step", step=S, masks=masks, **d)
    s = pack(S, n, masks)
    if not np.all(np.isfinite(s)):
        raise Fail(f"{what}: step is not finite", step=S, **d)
    sv = np.linalg.svd(DR, compute_uv=False)
    res = DR @ s + rv
    sc = np.abs(DR).max() * max(1e-300, np.abs(s).max()) + np.abs(rv).max() + 1e-300
    if sv[-1] > 1e-9 * sv[0]:
        if np.abs(res).max() > 1e-6 * sc:
            raise Fail(f"{what}: Jacobian of the residual times step is not minus the residual (defect {np.abs(res).max():.3g})",
                       step=S, residual=R, masks=masks, **d)
    elif sv[-1] < 1e-14 * sv[0]:
        ls = DR.T @ res
        if np.abs(ls).max() > 1e-5 * sc * np.abs(DR).max():
            raise Fail(f"{what}: singular system: the step is not a least-squares solution", step=S, **d)
    return int(masks.sum())


def build(rng, kind, N=None, conf=None):
    n, m = int(rng.randint(1, 4)), int(rng.choice([2, 2, 3]))
    if kind == "HVN" and n < 2:
        n = 2
    N = N or int(rng.randint(1, 5 if m == 2 else 4))
    conf = conf or str(rng.choice(["none", "eq", "ieq", "both"]))
    ne = int(rng.randint(1, 3)) if conf in ("eq", "both") else 0
    ng = int(rng.randint(1, 4)) if conf in ("ieq", "both") else 0
    ne = min(ne, max(1, n - 1)) if ne else 0
    X = rng.uniform(.1, .9, (N, n))
    p = Prob(rng, n, m, ne, ng, X)
    L = rng.randn(N, ne + ng)
    return n, m, N, conf, p, X, L


# ------------------------------------------------------------------ deductive layer
def prove(ctx):
    from pyvc import zsym as Z
    from . import zopt, zc
    import types
    import itertools

    # ---- packing: every activity pattern, any values
    ld0 = Z.ZLoader()
    U = ld0.load("hvd.utils")
    cb0 = zopt.Callbacks(1, 1, 0, 0)
    MN = zopt.loader(cb0, zopt.Solver()).load("hvd.mmd_newton")

    def packing(N, n, q, which):
        def body(z):
            masks = np.array([[z.branch(z.boolean(f"active_{i}_{c}").e) for c in range(q)] for i in range(N)], dtype=bool).reshape(N, q)
            X = z.array("X", (N, n + q))
            for i in range(N):
                for c in range(q):
                    if not masks[i, c]:
                        X[i, n + c] = 0.0
            if which == "hvn":
                v = np.asarray(U.matrix_to_Nd_vector(X, n, masks))
                e = [X[i, k] for i in range(N) for k in range(n)] + [X[i, n + c] for i in range(N) for c in range(q) if masks[i, c]]
                z.passed(v.size == len(e), "the packed system has one entry per variable and active multiplier")
                for a, b in zip(v.ravel(), e):
                    z.ensure_eq(a, b, "packing keeps the order: primal parts, then active multipliers point by point")
                B = U.Nd_vector_to_matrix(v.ravel(), N, n + q, n, masks)
            else:
                v = np.array([X[i, k] for i in range(N) for k in range(n)] + [X[i, n + c] for i in range(N) for c in range(q) if masks[i, c]], dtype=object)
                B = MN.Nd_vector_to_matrix(v, N, n + q, n, np.c_[np.ones((N, n), bool), masks])
            z.passed(np.shape(B) == (N, n + q), "unpacking gives one row per point")
            for i in range(N):
                for k in range(n + q):
                    z.ensure_eq(B[i, k], X[i, k], "unpacking restores the packed matrix")
        return body

    def packrep(N, n, q, which):
        def rep(v):
            import hvd.utils as ru
            import hvd.mmd_newton as rm
            masks = np.array([[v.get(f"active_{i}_{c}", False) for c in range(q)] for i in range(N)], dtype=bool).reshape(N, q)
            X = np.random.RandomState(0).rand(N, n + q)
            X[:, n:][~masks] = 0
            e = pack(X, n, masks)
            try:
                w = np.ravel(ru.matrix_to_Nd_vector(X, n, masks)) if which == "hvn" else e
                B = ru.Nd_vector_to_matrix(w, N, n + q, n, masks) if which == "hvn" else rm.Nd_vector_to_matrix(e, N, n + q, n, np.c_[np.ones((N, n), bool), masks])
            except Exception as x:
                return {"X": X.tolist(), "active": masks.tolist(), "observed": repr(x)}
            if not np.array_equal(w, e) or not np.array_equal(B, X):
                return {"X": X.tolist(), "active": masks.tolist(), "packed": w.tolist(), "unpacked": np.asarray(B).tolist()}
        return rep
    for N, n, q in ((1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 2, 2), (3, 1, 1), (3, 2, 2)) + (((3, 1, 3), (4, 1, 2)) if ctx.thorough else ()):
        for w in ("hvn", "mmd"):
            ctx.obligation(f"packing and unpacking, {N} points, {n} variables, {q} constraints ({w})", "hvd.utils.Nd_vector_to_matrix" if w == "hvn" else "hvd.mmd_newton.Nd_vector_to_matrix",
                           Z.prove(packing(N, n, q, w), packrep(N, n, q, w), soft=True, budget=300 if ctx.thorough else 60, jobs=4 if N * q > 4 else 1), bounded=f"{N} points, {n} variables, {q} constraints, every activity pattern, any values")

    def unpack0(z):
        X = z.array("X", (3, 2))
        for f in (U.Nd_vector_to_matrix, MN.Nd_vector_to_matrix):
            B = f(X.ravel(), 3, 2, 2, None)
            for a, b in zip(np.ravel(B), X.ravel()):
                z.ensure_eq(a, b, "unpacking an unconstrained system")
    ctx.obligation("unpacking without constraints", "hvd.utils.Nd_vector_to_matrix", Z.prove(unpack0, soft=True), bounded="3 points, 2 variables")

    # ---- the step of each optimiser
    opt = zopt.optimiser

    def spec(o, kind, cb, X, L):
        if kind == "HVN" or kind.startswith("MMD"):
            g, H = o.indicator.derivs(X)
        else:
            g, H = o.active_indicator.derivs(X)
            H = zopt.blocks(H)
        return zopt.system(cb, X, L, g, H, curvature=not kind.startswith("MMD"))

    def step(kind, N, n, ne, ng, singular=False):
        def body(z):
            o, cb, sol, X, L = opt(z, kind, N, n, ne, ng, singular)
            if kind == "DpN-deltap":
                o.GD_value, o.IGD_value = z.real("GD"), z.real("IGD")
            S, R = o._compute_netwon_step(*([o.state] if not kind.startswith("MMD") else []))
            zopt.check_step(z, sol, S, R, spec(o, kind, cb, X, L), n, f"{kind} step")
            if kind == "DpN-deltap":
                z.ensure(o.GD_value >= o.IGD_value if o.active_indicator is o._gd else o.IGD_value >= o.GD_value, "the larger of GD and IGD is the active indicator")
        return body

    def steprep(kind, N, n, ne, ng):
        """a random instance of the same shape on the real code"""
        def rep(v):
            from hvd.newton import HVN, DpN
            from hvd.mmd_newton import MMDNewton
            from hvd.reference_set import ReferenceSet
            from hvd.hypervolume_derivatives import HypervolumeDerivatives
            from hvd.mmd import MMD, MMDMatching
            for t in range(12):
                rng = np.random.RandomState(t)
                X = rng.uniform(.1, .9, (N, n))
                p = Prob(rng, n, 2, ne, ng, X)
                L = rng.randn(N, ne + ng)
                Y = np.array([p.f(x) for x in X])
                kw = dict(N=N, xl=np.zeros(n), xu=np.ones(n), max_iters=1, verbose=False)
                try:
                    if kind == "HVN":
                        ref = Y.max(0) + 2
                        o = HVN(n_var=n, n_obj=2, ref=ref, X0=X, **kw, **p.kw())
                        o.state.update(np.c_[X, L])
                        S, R = o._compute_netwon_step(o.state)
                        g, H = HypervolumeDerivatives(n, 2, ref, p.f, p.j, p.hf).compute_derivatives(X)
                        e = system(p, X, L, g, H)
                    elif kind.startswith("DpN"):
                        T = Y + rng.randn(N, 2) * .3 - .3
                        o = DpN(dim=n, n_obj=2, ref=ReferenceSet(T.copy()), x0=X, type=kind[4:], **kw, **p.kw())
                        o.state.update(np.c_[X, L])
                        o._compute_indicator_value(o.state.Y)
                        S, R = o._compute_netwon_step(o.state)
                        g, Hb = (o._gd if kind == "DpN-gd" or kind == "DpN-deltap" and o.GD_value > o.IGD_value else o._igd).compute_derivatives(X)
                        H = np.zeros((N * n, N * n))
                        for i in range(N):
                            H[i * n:(i + 1) * n, i * n:(i + 1) * n] = Hb[i]
                        e = system(p, X, L, g, H)
                    else:
                        if N != 2:
                            return None
                        T = Y + rng.randn(N, 2) * .3 - .3
                        o = MMDNewton(n_var=n, n_obj=2, ref=ReferenceSet(T.copy()), X0=X, matching=kind.endswith("m"), **kw, **p.kw(hess=False))
                        o.state.update(np.c_[X, L])
                        o._compute_indicator_value(o.state.Y)
                        S, R = o._compute_netwon_step()
                        g, H = o.indicator.compute_derivatives(X)
                        e = system(p, X, L, g, np.asarray(H), curvature=False)
                    check_step(np.asarray(S), np.asarray(R), e, n, kind)
                except Fail as x:
                    return {"X": X.tolist(), "multipliers": L.tolist(), "seed": t, "observed": x.msg}
        return rep
    shapes = [(1, 2, 0, 0), (2, 2, 0, 0), (1, 2, 1, 0), (2, 1, 1, 0), (1, 2, 0, 2), (2, 2, 0, 1), (2, 2, 1, 1), (2, 1, 1, 2), (3, 1, 0, 1)]
    if ctx.thorough:
        shapes += [(2, 3, 2, 2), (3, 2, 1, 2), (4, 1, 0, 2)]
    src = {"HVN": "hvd.newton.HVN", "DpN-gd": "hvd.newton.DpN", "DpN-igd": "hvd.newton.DpN", "DpN-deltap": "hvd.newton.DpN", "MMD-m": "hvd.mmd_newton.MMDNewton", "MMD": "hvd.mmd_newton.MMDNewton"}
    for kind in src:
        for N, n, ne, ng in shapes:
            if kind in ("DpN-igd", "DpN-gd", "MMD") and (N, n, ne, ng) not in shapes[:8:3]:
                continue
            for sing in (False, True):
                if sing and (N, n, ne, ng) not in ((1, 2, 0, 0), (2, 1, 1, 2), (2, 2, 1, 1)):
                    continue
                ctx.obligation(f"{kind} step, {N} points, {n} variables, {ne}+{ng} constraints{', solver reports a singular system' if sing else ''}", src[kind] + "._compute_netwon_step",
                               Z.prove(step(kind, N, n, ne, ng, sing), steprep(kind, N, n, ne, ng), soft=True, budget=400 if ctx.thorough else 60, jobs=4 if N * ng > 2 else 1),
                               bounded=f"{N} points, {n} variables, {ne} equality and {ng} inequality constraints, every activity pattern, any values and derivatives")
    for N, ne, ng in ((1, 0, 0), (2, 0, 0), (3, 0, 0), (2, 0, 1), (3, 1, 0)) + (((3, 0, 1), (4, 0, 0)) if ctx.thorough else ()):
        ctx.obligation(f"HVN.iterate applies the step layer by layer, {N} points, {ne}+{ng} constraints", "hvd.newton.HVN.iterate",
                       Z.prove(zopt.hvn_iterate(N, ne, ng, True, False), soft=True, budget=400 if ctx.thorough else 60, jobs=4 if N > 2 else 1),
                       bounded=f"{N} points, 1 variable, 2 objectives, any values; step and line search by contract")
    ctx.trusted |= {"scipy.linalg.solve / spsolve (A x = b or an error)", "numpy.linalg.lstsq (normal equations)", "scipy.linalg.block_diag"}


def concrete(ctx):
    from hvd.newton import HVN, DpN
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet
    from hvd.hypervolume_derivatives import HypervolumeDerivatives
    from hvd.mmd import MMD, MMDMatching
    from .oracle import ranks

    def mk_hvn(rng, conf=None, N=None):
        n, m, N, conf, p, X, L = build(rng, "HVN", N, conf)
        Y = np.array([p.f(x) for x in X])
        ref = Y.max(0) + rng.uniform(1, 3, m)
        o = HVN(n_var=n, n_obj=m, ref=ref, N=N, X0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, verbose=False, **p.kw())
        o.state.update(np.c_[X, L])
        return n, m, N, conf, p, X, L, ref, o

    def hvn_exp(p, n, m, ref, X, L):
        hd = HypervolumeDerivatives(n, m, ref, p.f, p.j, p.hf)
        g, H = hd.compute_derivatives(X)
        return system(p, X, L, g, H)

    def hvn(rng):
        n, m, N, conf, p, X, L, ref, o = mk_hvn(rng)
        S, R = o._compute_netwon_step(o.state)
        na = check_step(S, R, hvn_exp(p, n, m, ref, X, L), n, "hypervolume Newton step", X=X, L=L, conf=conf)
        Rc = o._compute_R(o.state)[0]
        if not np.allclose(np.asarray(Rc, float), R, rtol=1e-9, atol=1e-9):
            raise Fail("HVN: residual recomputed for the line search differs from the one of the step", X=X, L=L)
        return (conf, N, n, m, na)

    def hvn_iter(rng):
        """the step stored by a real iteration, partition by partition"""
        n, m, N, conf, p, X, L, ref, o = mk_hvn(rng)
        if N > 1 and np.min([np.linalg.norm(X[i] - X[k]) for i in range(N) for k in range(i)]) < 1e-3:
            return None
        Y = np.array([p.f(x) for x in X])
        o.iterate()
        feas = np.array([(not p.ne or np.all(np.abs(p.h(x)) <= 1e-4)) and (not p.ng or np.all(p.g(x) < -1e-4)) for x in X])
        fi = np.nonzero(feas)[0]
        parts = [np.arange(N)]
        if len(fi):
            r = np.array(ranks(Y[fi].tolist()))
            parts = [fi[r == k] for k in range(r.max() + 1)]
            parts[0] = np.sort(np.r_[parts[0], np.nonzero(~feas)[0]])
        seen = np.concatenate(parts)
        if len(o.step) != N or sorted(seen.tolist()) != list(range(N)):
            raise Fail("HVN: not every point receives a step", X=X)
        for idx in parts:
            check_step(o.step[idx], o.R[idx], hvn_exp(p, n, m, ref, X[idx], L[idx]), n, "hypervolume Newton iteration (one domination layer)", X=X, L=L, Y=Y, layer=idx)
        Z = np.c_[X, L] + o.step * np.asarray(o.step_size).reshape(-1, 1)
        if not np.allclose(o.state.X, Z, rtol=1e-9, atol=1e-9):
            raise Fail("HVN: the new points are not the old ones plus step size times step", X=X, new=o.state.X, expected=Z)
        return (conf, N, n, m, len(parts), int(feas.sum()))

    def mk_dpn(rng, typ=None, conf=None):
        n, m, N, conf, p, X, L = build(rng, "DpN", None, conf)
        Y = np.array([p.f(x) for x in X])
        R = np.concatenate([Y + rng.randn(N, m) * .4, Y[rng.randint(0, N, 3)] + rng.randn(3, m) * .4]) - .5
        typ = typ or str(rng.choice(["deltap", "gd", "igd"]))
        if rng.rand() < .5:
            R = R[:N]
        o = DpN(dim=n, n_obj=m, ref=ReferenceSet(R.copy()), N=N, x0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, type=typ, verbose=False, **p.kw())
        o.state.update(np.c_[X, L])
        return n, m, N, conf, p, X, L, typ, o

    def block(Hs):
        N, n = Hs.shape[:2]
        B = np.zeros((N * n, N * n))
        for i in range(N):
            B[i * n:(i + 1) * n, i * n:(i + 1) * n] = Hs[i]
        return B

    def dpn_exp(p, o, X, L, use_gd):
        Z = np.asarray(o.ref.reference_set)
        N, n = X.shape
        Y = np.array([p.f(x) for x in X])
        J, H = np.array([p.j(x) for x in X]), np.array([p.hf(x) for x in X])
        if use_gd:
            T = Z[np.argmin(((Y[:, None] - Z[None]) ** 2).sum(-1), axis=1)]
            c = 2 / N
        else:
            T, c = Z, 2
        d = Y - T
        g = c * np.einsum("iak,ia->ik", J, d)
        Hs = c * (np.einsum("iak,ial->ikl", J, J) + np.einsum("iakl,ia->ikl", H, d))
        return system(p, X, L, g, block(Hs))

    def dpn(rng):
        n, m, N, conf, p, X, L, typ, o = mk_dpn(rng)
        o._compute_indicator_value(o.state.Y)
        use_gd = typ == "gd" or (typ == "deltap" and o.GD_value > o.IGD_value)
        S, R = o._compute_netwon_step(o.state)
        na = check_step(S, R, dpn_exp(p, o, X, L, use_gd), n, f"Delta_p Newton step ({'GD' if use_gd else 'IGD'} active)", X=X, L=L, conf=conf)
        return (conf, typ, use_gd, N, n, m, na)

    def dpn_iter(rng):
        n, m, N, conf, p, X, L, typ, o = mk_dpn(rng)
        o.newton_iteration()
        use_gd = typ == "gd" or (typ == "deltap" and o.GD_value > o.IGD_value)
        check_step(o.step, o.R, dpn_exp(p, o, X, L, use_gd), n, "Delta_p Newton iteration", X=X, L=L, conf=conf)   # interior points: no projection
        Z = np.c_[X, L] + o.step * np.asarray(o.step_size).reshape(-1, 1)
        if not np.allclose(o.state.X, Z, rtol=1e-9, atol=1e-9):
            raise Fail("DpN: the new points are not the old ones plus step size times step", X=X, new=o.state.X, expected=Z)
        return (conf, typ, N, n, m)

    def mmdn(rng, matching, it):
        n, m, N, conf, p, X, L = build(rng, "MMD", 3, None)
        if m != 2:
            p2 = build(rng, "MMD", 3, conf)
            n, m, N, conf, p, X, L = p2
        Y = np.array([p.f(x) for x in X])
        Rf = Y + rng.randn(N, m) * .4 - .3
        o = MMDNewton(n_var=n, n_obj=m, ref=ReferenceSet(Rf.copy()), N=N, X0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, verbose=False, matching=matching, **p.kw(hess=False))
        o.state.update(np.c_[X, L])
        if it:
            o.newton_iteration()
            S, R = o.step, o.R
        else:
            o._compute_indicator_value(o.state.Y)
            S, R = o._compute_netwon_step()
        ind = (MMDMatching if matching else MMD)(n, m, o.ref, p.f, p.j, p.hf, **(dict(beta=o.indicator.beta) if matching else {}))
        o.ref.re_match = False
        g, H = ind.compute_derivatives(X)
        o.ref.re_match = True
        na = check_step(S, R, system(p, X, L, g, np.asarray(H), curvature=False), n, "MMD Newton step", X=X, L=L, conf=conf)
        if it:
            Z = np.c_[X, L] + S * np.asarray(o.step_size).reshape(-1, 1)
            if not np.allclose(o.state.X, Z, rtol=1e-9, atol=1e-9):
                raise Fail("MMDNewton: the new points are not the old ones plus step size times step", X=X, new=o.state.X, expected=Z)
        return (conf, matching, N, n, m, na)

    def packing(rng):
        import hvd.newton as nw
        import hvd.mmd_newton as mn
        N, n, q = int(rng.randint(1, 6)), int(rng.randint(1, 5)), int(rng.randint(1, 5))
        masks = rng.rand(N, q) < rng.choice([0, .3, .7, 1])
        X = rng.randn(N, n + q)
        X[:, n:][~masks] = 0
        v = nw.matrix_to_Nd_vector(X, n, masks)
        e = pack(X, n, masks)
        if np.size(v) != len(e) or not np.array_equal(np.ravel(v), e):
            raise Fail("packing: not the primal parts followed by the active multipliers point by point", X=X, masks=masks, got=v, expected=e)
        B = nw.Nd_vector_to_matrix(np.ravel(v), N, n + q, n, masks)
        if not np.array_equal(B, X):
            raise Fail("unpacking a packed system does not restore it", X=X, masks=masks, got=B)
        full = np.c_[np.ones((N, n), bool), masks]
        B = mn.Nd_vector_to_matrix(np.ravel(v), N, n + q, n, full)
        if not np.array_equal(B, X):
            raise Fail("unpacking a packed system does not restore it (MMD)", X=X, masks=masks, got=B)
        U = rng.randn(N, n)
        for f in (nw.Nd_vector_to_matrix, mn.Nd_vector_to_matrix):
            if not np.array_equal(f(U.ravel(), N, n, n, None), U):
                raise Fail("unpacking an unconstrained system does not restore it", U=U)
        return (N, n, q, int(masks.sum()))
    k = 6 if ctx.thorough else 1
    ctx.scenario("packing", packing, 300 * k)
    ctx.scenario("hvn", hvn, 150 * k)
    ctx.scenario("hvn_iter", hvn_iter, 70 * k)
    ctx.scenario("dpn", dpn, 200 * k)
    ctx.scenario("dpn_iter", dpn_iter, 100 * k)
    for mt in (True, False):
        ctx.scenario(f"mmd/{mt}", lambda r: mmdn(r, mt, False), 5 * k)
        ctx.scenario(f"mmd_iter/{mt}", lambda r: mmdn(r, mt, True), 3 * k)
