"""P02: hypervolume gradient and Hessian."""
from pyvc.check import Fail, Skip
from . import oracle
import numpy as np


def exact_derivs(Y, ref):
    """exact derivatives at integer points with gaps >= 4 (locally multilinear): central differences with step 1"""
    n, d = Y.shape
    h = lambda Z: oracle.hv([tuple(map(int, z)) for z in Z], tuple(map(int, ref)))
    g = np.zeros(n * d)
    H = np.zeros((n * d, n * d))

    def bump(*ch):
        Z = Y.copy()
        for k, s in ch:
            Z[k // d, k % d] += s
        return h(Z)
    for a in range(n * d):
        g[a] = (bump((a, 1)) - bump((a, -1))) / 2
        for b in range(a):
            H[a, b] = H[b, a] = (bump((a, 1), (b, 1)) - bump((a, 1), (b, -1)) - bump((a, -1), (b, 1)) + bump((a, -1), (b, -1))) / 4
    return g, H


def gen_position(rng, n, d):
    """integer points without coordinate ties, all strictly inside the reference"""
    kind = str(rng.choice(["perm", "front", "dominated", "chain"]))
    if kind == "front":
        base = np.sort(rng.permutation(3 * n)[:n])
        W = rng.dirichlet(np.ones(d), n)
        Y = np.argsort(np.argsort(W, axis=0), axis=0)
    elif kind == "dominated" and n > 1:
        Y = np.stack([rng.permutation(n) for _ in range(d)], 1)
        m = rng.randint(1, n)
        # push some points behind another one
        src = rng.randint(0, n)
        R = Y.astype(float)
        for i in rng.permutation(n)[:m]:
            if i != src:
                R[i] = R[src] + rng.uniform(.1, 2, d)
        Y = np.argsort(np.argsort(R, axis=0), axis=0)
    elif kind == "chain":
        Y = np.stack([np.arange(n) if rng.rand() < .5 else rng.permutation(n) for _ in range(d)], 1)
    else:
        Y = np.stack([rng.permutation(n) for _ in range(d)], 1)
    Y = 4 * Y + 4
    ref = 4 * n + 4 + 4 * rng.randint(0, 3, d)
    return Y.astype(int), ref.astype(int), kind


def derivs(Y, r):
    """gradient and Hessian of the inclusion-exclusion polynomial that equals the dominated volume around Y (no ties, inside r);
    works on numbers and on terms (comparisons fork)"""
    import itertools
    n, d = len(Y), len(r)
    g = np.zeros((n, d), dtype=object)
    H = np.zeros((n, d, n, d), dtype=object)
    for k in range(1, n + 1):
        for S in itertools.combinations(range(n), k):
            top = []
            for j in range(d):
                a = S[0]
                for i in S[1:]:
                    if bool(Y[i][j] > Y[a][j]):
                        a = i
                top.append(a)
            w = [r[j] - Y[top[j]][j] for j in range(d)]
            sg = 1 if k % 2 else -1

            def rest(*skip):
                v = sg
                for j in range(d):
                    if j not in skip:
                        v = v * w[j]
                return v
            for j in range(d):
                g[top[j], j] = g[top[j], j] - rest(j)
                for l in range(d):
                    if l != j:
                        H[top[j], j, top[l], l] = H[top[j], j, top[l], l] + rest(j, l)
    return g, H


def prove(ctx):
    """HypervolumeDerivatives on points in general position: every ordering of the coordinates is one path, on which the volume is
    a polynomial; the code's gradient and Hessian are compared with its derivatives as polynomial identities"""
    from pyvc import zsym as Z
    from hvd.hypervolume_derivatives import HypervolumeDerivatives as Real
    D = Z.ZLoader().load("hvd.hypervolume_derivatives")
    jobs = 8

    def setting(z, n, d, m):
        Y = z.array("y", (n, d))
        ref = z.array("r", (d,))
        for j in range(d):
            for i in range(n):
                z.assume(Y[i, j] < ref[j])
                z.assume(Y[i, j] - ref[j] >= -10 ** 9)
                for k in range(i):
                    z.assume(Y[i, j] != Y[k, j])
        return Y, ref

    def rep(n, d, mini):
        def f(vals):
            if vals is None or any(v is None for v in vals.values()):
                return None
            Y = np.array([[vals[f"y_{i}_{j}"] for j in range(d)] for i in range(n)])
            # keep the ordering, make the coordinates moderate
            Y = Y.argsort(0).argsort(0) * 1.5 + np.arange(d) * .25
            r = Y.max(0) + 1 + np.arange(d)
            rng = np.random.RandomState(1)
            m = d
            J, B = rng.randint(-3, 4, (n, d, m)).astype(float), rng.randint(-3, 4, (n, d, m, m)).astype(float)
            B = B + B.transpose(0, 1, 3, 2)
            X = np.arange(n * m, dtype=float).reshape(n, m)
            at = lambda T: lambda x: T[int(round(x[0] / m))]
            s = 1.0 if mini else -1.0
            g, H = derivs(Y.tolist(), r.tolist())
            g, H = g.astype(float), H.astype(float)
            G = np.einsum("ia,iak->ik", g, J)
            Hx = np.einsum("iak,iajb,jbl->ikjl", J, H, J)
            for i in range(n):
                Hx[i, :, i, :] += np.einsum("a,akl->kl", g[i], B[i])
            Hx = Hx.reshape(n * m, n * m)
            try:
                for kw in ({}, dict(Y=s * Y, YdX=s * J)):
                    o = Real(m, d, s * r, at(s * Y), at(s * J), at(s * B), minimization=mini)
                    g1 = o.compute_derivatives(X, compute_hessian=False, **kw)
                    g2, H2 = o.compute_derivatives(X, **kw)
                    for a, b in ((g1, G), (g2, G), (H2, Hx)):
                        if not np.allclose(a, b):
                            return dict(Y=s * Y, ref=s * r, J=s * J, B=s * B, minimization=mini, supplied=bool(kw), got=np.asarray(a), expected=b)
            except Exception as e:
                return dict(Y=s * Y, ref=s * r, minimization=mini, got=repr(e))
        return f

    def whole(n, d, m, mini):
        def body(z):
            Y, ref = setting(z, n, d, m)
            s = 1 if mini else -1
            X, J, B = z.array("x", (n, m)), z.array("j", (n, d, m)), z.array("b", (n, d, m, m))
            for k in range(m):
                for l in range(k):
                    B[:, :, k, l] = B[:, :, l, k]
            Ys, Js, Bs, rs = [s * a if mini else np.vectorize(lambda v: -v, otypes=[object])(a) for a in (Y, J, B, ref)]
            row = {id(X[i, 0]): i for i in range(n)}
            at = lambda T: lambda x: T[row[id(x[0])]].copy()
            keep = [a.copy() for a in (X, Ys, Js, rs)]
            g, H = derivs(Y, ref)
            G = np.einsum("ia,iak->ik", g, J)
            Hx = np.einsum("iak,iajb,jbl->ikjl", J, H, J)
            for i in range(n):
                Hx[i, :, i, :] = Hx[i, :, i, :] + np.einsum("a,akl->kl", g[i], B[i])
            Hx = Hx.reshape(n * m, n * m)
            for kw in ({}, dict(Y=Ys, YdX=Js)):
                what = " (values and Jacobians supplied)" if kw else ""
                o = D.HypervolumeDerivatives(m, d, rs, at(Ys), at(Js), at(Bs), minimization=mini)
                g1 = o.compute_derivatives(X, compute_hessian=False, **kw)
                g2, H2 = o.compute_derivatives(X, **kw)
                z.passed(np.shape(g1) == (n, m) and np.shape(g2) == (n, m) and np.shape(H2) == (n * m, n * m), "shapes")
                for i in range(n):
                    for k in range(m):
                        z.ensure_eq(g1[i, k], G[i, k], "gradient" + what)
                        z.ensure_eq(g2[i, k], G[i, k], "gradient computed with the Hessian" + what)
                for a in range(n * m):
                    for b in range(n * m):
                        z.ensure_eq(H2[a, b], Hx[a, b], "Hessian" + what)
            z.passed(all(u is v for a, b in zip((X, Ys, Js, rs), keep) for u, v in zip(a.ravel(), b.ravel())), "inputs are not modified")
        return body

    def dY(n, d):
        """in objective space, no chain rule"""
        def body(z):
            Y, ref = setting(z, n, d, d)
            g, H = derivs(Y, ref)
            X = Y.copy()
            o = D.HypervolumeDerivatives(d, d, ref)
            out = o._compute_hessian(X)
            for i in range(n):
                for j in range(d):
                    z.ensure_eq(out["HVdY"][i * d + j], g[i, j], "gradient with respect to the objectives")
                    z.ensure_eq(out["HVdX"][i * d + j], g[i, j], "gradient")
                    for k in range(n):
                        for l in range(d):
                            z.ensure_eq(out["HVdY2"][i * d + j, k * d + l], H[i, j, k, l], "Hessian with respect to the objectives")
            g1 = o._compute_gradient(X)["HVdY"]
            for i in range(n):
                for j in range(d):
                    z.ensure_eq(g1[i * d + j], g[i, j], "gradient alone")
        return body
    F = "hvd.hypervolume_derivatives.HypervolumeDerivatives"
    kw = dict(soft=True, budget=100 if not ctx.thorough else 400, max_paths=10 ** 6)
    B = "coordinates without ties, inside the reference; all real values"
    for n, d, m in [(1, 2, 1), (2, 2, 2), (2, 3, 1)] + ([(3, 2, 2), (2, 3, 2), (2, 4, 1)] if ctx.thorough else []):
        for mini in (True, False):
            ctx.obligation(f"chain-rule-{n}-points-{d}-objectives-{m}-variables-{'min' if mini else 'max'}", F + ".compute_derivatives / _compute_objective_derivatives",
                           Z.prove(whole(n, d, m, mini), rep(n, d, mini), jobs=jobs, **kw), bounded=f"N = {n}, {d} objectives, {m} variables; any Jacobians and Hessians; " + B)
    for n, d in [(1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (3, 3), (2, 4)] + ([(4, 2), (3, 4), (5, 2)] if ctx.thorough else []):
        ctx.obligation(f"objective-space-{n}-points-{d}-objectives", F + "._compute_hessian / _compute_gradient / hypervolume_dY / _project",
                       Z.prove(dY(n, d), rep(n, d, True), jobs=jobs, **kw), bounded=f"N = {n}, {d} objectives; " + B)


def concrete(ctx):
    from hvd.hypervolume_derivatives import HypervolumeDerivatives

    def sizes(rng):
        d = int(rng.choice([2, 2, 3, 3, 3, 4, 4, 5]))
        n = int(rng.choice({2: [1, 2, 3, 4, 5, 7], 3: [1, 2, 3, 4, 5, 6], 4: [1, 2, 3, 4, 5], 5: [1, 2, 3]}[d]))
        return n, d

    def close(a, b, what, **data):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            raise Fail(f"{what}: shape {a.shape}, expected {b.shape}", **data)
        if not np.allclose(a, b, rtol=1e-8, atol=1e-7 * (1 + np.abs(b).max())):
            raise Fail(f"{what} differs from the true derivative by up to {np.abs(a - b).max():.3g}", got=a, expected=b, **data)

    def identity(rng):
        n, d = sizes(rng)
        Y, ref, kind = gen_position(rng, n, d)
        g, H = exact_derivs(Y, ref)
        mini = bool(rng.rand() < .8)
        s = 1.0 if mini else -1.0
        o = HypervolumeDerivatives(d, d, s * ref, lambda x: x, lambda x: np.eye(d), lambda x: np.zeros((d, d, d)), minimization=mini)
        X = s * Y.astype(float)
        X0 = X.copy()
        data = dict(Y=Y, ref=ref, minimization=mini)
        g1 = o.compute_derivatives(X, compute_hessian=False)
        close(g1, s * g.reshape(n, d), "gradient", **data)
        g2, H2 = o.compute_derivatives(X)
        close(g2, s * g.reshape(n, d), "gradient (with Hessian)", **data)
        close(H2, H, "Hessian", **data)
        if not np.array_equal(X, X0):
            raise Fail("input modified", **data)
        sup = [np.stack([np.eye(d)] * n)]
        g3, H3 = o.compute_derivatives(X, Y=X.copy(), YdX=sup[0])
        close(g3, s * g.reshape(n, d), "gradient with supplied values", **data)
        close(H3, H, "Hessian with supplied values", **data)
        if n > 1:
            p = rng.permutation(n)
            g4, H4 = o.compute_derivatives(X[p])
            close(g4, s * g.reshape(n, d)[p], "gradient of permuted points", **data)
            q = (p[:, None] * d + np.arange(d)).ravel()
            close(H4, H[np.ix_(q, q)], "Hessian of permuted points", **data)
        nd = sum(r > 0 for r in oracle.ranks(Y.tolist()))
        return (kind, n, d, nd, mini)

    def chain(rng):
        n, d = sizes(rng)
        n = min(n, 4)
        m = int(rng.choice([1, 2, 3, 4]))
        A = rng.randn(d, m)
        B = rng.randn(d, m, m)
        B = (B + B.transpose(0, 2, 1)) / 2
        Y, ref, kind = gen_position(rng, n, d)
        X = rng.randn(n, m)
        # objective: y(x) = t_i + A(x - x_i) + B quadratic, with the target value at each point by a nearest-point offset
        Q = lambda x: A @ x + np.einsum("akl,k,l->a", B, x, x) / 2
        off = {tuple(x): y - Q(x) for x, y in zip(X, Y.astype(float))}

        def key(x):
            return min(off, key=lambda t: np.sum((np.asarray(t) - x) ** 2))
        mini = bool(rng.rand() < .7)
        s = 1.0 if mini else -1.0
        calls = []
        f = lambda x: s * (Q(x) + off[key(x)])
        jac = lambda x: s * (A + np.einsum("akl,l->ak", B, x))
        hes = lambda x: s * B
        o = HypervolumeDerivatives(m, d, s * ref, f, jac, hes, minimization=mini)
        g, H = exact_derivs(Y, ref)
        J = np.stack([A + np.einsum("akl,l->ak", B, x) for x in X])
        G = np.einsum("ia,iak->ik", g.reshape(n, d), J)
        Hx = np.einsum("iak,iajb,jbl->ikjl", J, H.reshape(n, d, n, d), J)
        for i in range(n):
            Hx[i, :, i, :] += np.einsum("a,akl->kl", g.reshape(n, d)[i], B)
        Hx = Hx.reshape(n * m, n * m)
        data = dict(Y=Y, ref=ref, X=X, A=A, B=B, minimization=mini)
        X0 = X.copy()
        close(o.compute_derivatives(X, compute_hessian=False), G, "decision-space gradient", **data)
        g2, H2 = o.compute_derivatives(X)
        close(g2, G, "decision-space gradient", **data)
        close(H2, Hx, "decision-space Hessian", **data)
        Ys, Js = s * Y.astype(float), s * J
        Yc, Jc = Ys.copy(), Js.copy()
        g3, H3 = o.compute_derivatives(X, Y=Ys, YdX=Js)
        close(g3, G, "gradient with supplied values and Jacobians", **data)
        close(H3, Hx, "Hessian with supplied values and Jacobians", **data)
        close(o.compute_derivatives(X, Ys, False, Js), G, "gradient only, supplied", **data)
        if not (np.array_equal(X, X0) and np.array_equal(Ys, Yc) and np.array_equal(Js, Jc)):
            raise Fail("an input array was modified", **data)
        return (kind, n, d, m, mini)
    k = 6 if ctx.thorough else 1
    ctx.scenario("identity", identity, 260 * k)
    ctx.scenario("chain", chain, 160 * k)
