"""P06: MMD and matched MMD: value, gradient and Hessian."""
from .common import *
import numpy as np
from pyvc.check import Fail, Skip


def _world(ctx, cls, kernel, matched):
    L = loader.Loader(overrides={("hvd.reference_set", "ReferenceSet"): ref_overrides()})
    m = L.load("hvd.mmd")
    N, M, n, d = dim("N"), dim("M"), dim("n"), dim("d")
    th = scalar(V("theta"), "f")
    smooth("X", "Y", "J", "H")
    kw = dict(n_var=n, n_obj=d)
    tX = sym_array("X", (N, n))
    R = sym_array("R", (M, d))
    kern = getattr(m, kernel)
    args = dict(func=rowmap("X", "Y", d), jac=rowmap("X", "J", d, n), hessian=rowmap("X", "H", d, n, n), kernel=kern, theta=th)
    be = V("beta")
    if matched:
        args["beta"] = scalar(be, "f")
    C = getattr(m, cls)
    o = C(scalar(n, "i"), scalar(d, "i"), R, **args)
    return m, o, N, M, n, d, tX, R


def kspec(kernel, x, y, d):
    c = newidx(d)
    if kernel == "rbf":
        return pl.fexp(-V("theta") * psum(vname(c), d, (x(c) - y(c)) ** 2))
    if kernel == "laplace":
        return pl.fexp(-V("theta") * psum(vname(c), d, pl.fabs(x(c) - y(c))))
    if kernel == "rational_quadratic":
        return pl.ppow(psum(vname(c), d, (x(c) - y(c)) ** 2) * V("theta") / 2 + 1, -1)


def value_spec(kernel, N, M, d, matched):
    i, j = newidx(N), newidx(N)
    Y = lambda i: (lambda a: A("Y", i, a))
    YY = psum(vname(i), N, psum(vname(j), N, kspec(kernel, Y(i), Y(j), d))) / N ** 2
    if matched:
        i2 = newidx(N)
        return V("beta") * YY + psum(vname(i2), N, 2 - 2 * kspec(kernel, Y(i2), lambda a: A("Rm", i2, a), d)) / N
    r, s, u, v = newidx(M), newidx(M), newidx(M), newidx(N)
    R = lambda i: (lambda a: A("R", i, a))
    RR = psum(vname(r), M, psum(vname(s), M, kspec(kernel, R(r), R(s), d))) / M ** 2
    RY = psum(vname(u), M, psum(vname(v), N, kspec(kernel, R(u), Y(v), d))) / (M * N)
    return RR + YY - 2 * RY


def prove(ctx):
    for cls, matched in (("MMD", False), ("MMDMatching", True)):
        for kernel in ("rbf", "rational_quadratic", "laplace"):
            fq = f"hvd.mmd.{cls}"

            def go(what):
                m, o, N, M, n, d, X, R = _world(ctx, cls, kernel, matched)
                spec = value_spec(kernel, N, M, d, matched)
                i, k, j, l = newidx(N), newidx(n), newidx(N), newidx(n)
                a, b = newidx(d), newidx(d)
                if what == "beta":  # the weight is a public attribute which the bootstrapping changes between iterations
                    o.compute_hessian(X)
                    o.beta = scalar(V("beta2"), "f")
                    spec = pl.subst(spec, {"beta": V("beta2")})
                    prove_equal(tn.to_T(o.compute(X=X)).as_poly(), spec, "value after changing beta")
                    prove_equal(o.compute_gradient(X)["MMDdY"].at_(i, a), diff(spec, "Y", (i, a)), "dY after changing beta")
                    prove_equal(o.compute_hessian(X)["MMDdY2"].at_(i * d + a, j * d + b), diff(diff(spec, "Y", (i, a)), "Y", (j, b)), "dY2 after changing beta")
                    return
                if what == "value":
                    prove_equal(tn.to_T(o.compute(X=X)).as_poly(), spec, "value")
                    prove_equal(tn.to_T(o.compute(Y=sym_array("Y", (N, d)))).as_poly(), spec, "value from Y")
                    return
                if what == "gradient":
                    out = o.compute_gradient(X)
                    prove_equal(out["MMDdX"].at_(i, k), diff(spec, "X", (i, k)), "dX")
                    prove_equal(out["MMDdY"].at_(i, a), diff(spec, "Y", (i, a)), "dY")
                    g = o.compute_derivatives(X, compute_hessian=False)
                    prove_equal(g.at_(i, k), diff(spec, "X", (i, k)), "dX via compute_derivatives")
                    g = o.compute_derivatives(X, sym_array("Y", (N, d)), False, sym_array("J", (N, d, n)))
                    prove_equal(g.at_(i, k), diff(spec, "X", (i, k)), "dX with supplied Y and Jacobian")
                    return
                out = o.compute_hessian(X)
                H = diff(diff(spec, "X", (i, k)), "X", (j, l))
                prove_equal(out["MMDdX2"].at_(i * n + k, j * n + l), H, "dX2")
                HY = diff(diff(spec, "Y", (i, a)), "Y", (j, b))
                prove_equal(out["MMDdY2"].at_(i * d + a, j * d + b), HY, "dY2")
                prove_equal(out["MMDdX"].at_(i, k), diff(spec, "X", (i, k)), "dX")
                g, H2 = o.compute_derivatives(X, sym_array("Y", (N, d)), True, sym_array("J", (N, d, n)))
                prove_equal(H2.at_(i * n + k, j * n + l), H, "dX2 with supplied Y and Jacobian")
            for what, f in (("value", "compute"), ("gradient", "compute_gradient"), ("hessian", "compute_hessian")) + ((("beta", "compute_derivatives"),) if matched and kernel == "rbf" else ()):
                ctx.obligation(f"{cls}[{kernel}] {what}", f"{fq}.{f}", lambda: go(what))
    ctx.trusted |= shims.TRUSTED


# ------------------------------------------------------------------ concrete evaluation of the same contracts
def _kern(name, u, th):
    d = len(u)
    if name == "rbf":
        k = np.exp(-th * u @ u)
        return k, -2 * th * u * k, (-2 * th * np.eye(d) + 4 * th ** 2 * np.outer(u, u)) * k
    if name == "laplace":
        k = np.exp(-th * np.abs(u).sum())
        s = np.sign(u)
        return k, -th * s * k, th ** 2 * np.outer(s, s) * k
    s = 1 + th * (u @ u) / 2
    return 1 / s, -th * u / s ** 2, -th * np.eye(d) / s ** 2 + 2 * th ** 2 * np.outer(u, u) / s ** 3


def concrete(ctx):
    import itertools
    from hvd import mmd as M
    from hvd.reference_set import ReferenceSet
    from .p05 import toy

    def close(a, b, what, **d):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            raise Fail(f"{what}: shape {a.shape}, expected {b.shape}", **d)
        if not np.allclose(a, b, rtol=1e-8, atol=1e-9 * (1 + (np.abs(b).max() if b.size else 0))):
            raise Fail(f"{what}: largest deviation {np.abs(a - b).max():.3g}", got=a, expected=b, **d)

    def one(rng, matched, combo):
        kname, N, Mr, n, m = combo
        th = float(rng.choice([.3, 1.0, 2.0, .05]))
        beta = float(rng.choice([.5, 1.0, .1]))
        f, j, h = toy(rng, n, m)
        R = rng.randn(Mr, m)
        kw = dict(func=f, jac=j, hessian=h, kernel=getattr(M, kname), theta=th)
        if matched:
            kw["beta"] = beta
        ind = (M.MMDMatching if matched else M.MMD)(n, m, R.copy() if rng.rand() < .5 else ReferenceSet(R.copy()), **kw)
        for rep in range(3):
            X = rng.randn(N, n) * .5
            if matched and rep:  # a public attribute: the bootstrapping discounts it between iterations
                beta = ind.beta = float(rng.choice([.4, .8, .15]))
            Y = np.array([f(x) for x in X])
            J, H2 = np.array([j(x) for x in X]), np.array([h(x) for x in X])
            data = dict(X=X, Y=Y, R=R, theta=th, beta=beta, kernel=kname)
            K = [[_kern(kname, Y[a] - Y[b], th) for b in range(N)] for a in range(N)]
            w = beta if matched else 1.0
            val = w * np.mean([[K[a][b][0] for b in range(N)] for a in range(N)])
            g = np.zeros((N, m))
            Hy = np.zeros((N, m, N, m))
            for a in range(N):
                for b in range(N):
                    if a != b:
                        g[a] += 2 * w / N ** 2 * K[a][b][1]
                        Hy[a, :, a, :] += 2 * w / N ** 2 * K[a][b][2]
                        Hy[a, :, b, :] -= 2 * w / N ** 2 * K[a][b][2]
            if matched:
                if rep == 0:
                    pass
                P = np.asarray(ReferenceSet(R).reference_set)
                perm = min((sum(np.linalg.norm(Y[i] - P[q[i]]) for i in range(N)), q) for q in itertools.permutations(range(N)))[1]
                for a in range(N):
                    k = _kern(kname, Y[a] - P[perm[a]], th)
                    val += (2 - 2 * k[0]) / N
                    g[a] -= 2 * k[1] / N
                    Hy[a, :, a, :] -= 2 * k[2] / N
            else:
                val += np.mean([[_kern(kname, r - s, th)[0] for r in R] for s in R])
                for a in range(N):
                    for r in R:
                        k = _kern(kname, Y[a] - r, th)
                        val -= 2 * k[0] / (N * Mr)
                        g[a] -= 2 * k[1] / (N * Mr)
                        Hy[a, :, a, :] -= 2 * k[2] / (N * Mr)
            gx = np.einsum("ia,iak->ik", g, J)
            Hx = np.einsum("iak,iajb,jbl->ikjl", J, Hy, J)
            for a in range(N):
                Hx[a, :, a, :] += np.einsum("a,akl->kl", g[a], H2[a])
            Hx, Hyy = Hx.reshape(N * n, N * n), Hy.reshape(N * m, N * m)
            X0, Y0, J0 = X.copy(), Y.copy(), J.copy()
            nm = ("matched MMD" if matched else "MMD") + f" ({kname})"
            close(ind.compute(Y=Y), val, nm + " value", **data)
            close(ind.compute(X=X), val, nm + " value (callbacks)", **data)
            for kw2, s in ((dict(), "callbacks"), (dict(Y=Y, jacobian=J), "supplied"), (dict(Y=Y), "Y supplied")):
                a, b = ind.compute_derivatives(X, **kw2)
                close(a, gx, f"{nm} gradient ({s})", **data)
                close(b, Hx, f"{nm} Hessian ({s})", **data)
                close(ind.compute_derivatives(X, compute_hessian=False, **kw2), gx, f"{nm} gradient only ({s})", **data)
            o = ind.compute_hessian(X)
            close(o["MMDdY"], g, nm + " objective-space gradient", **data)
            close(o["MMDdY2"], Hyy, nm + " objective-space Hessian", **data)
            if not (np.array_equal(X, X0) and np.array_equal(Y, Y0) and np.array_equal(J, J0)):
                raise Fail(nm + ": an input array was modified", **data)
        return (matched,) + combo + (th,)
    combos = [("rbf", 3, 4, 2, 2), ("rational_quadratic", 4, 2, 3, 2), ("laplace", 3, 5, 2, 3), ("rbf", 1, 1, 1, 2), ("rational_quadratic", 2, 3, 2, 3),
              ("laplace", 2, 2, 3, 2), ("rbf", 5, 3, 4, 3)]
    if ctx.thorough:
        combos += [(k, N, Mr, n, m) for k in ("rbf", "rational_quadratic", "laplace") for N, Mr, n, m in ((2, 6, 1, 2), (6, 6, 3, 4), (4, 9, 2, 2), (3, 1, 5, 2))]
    for c in combos:
        ctx.scenario("mmd/%s/%d/%d/%d/%d" % c, lambda r: one(r, False, c), 1)
    for c in combos:
        c = (c[0], c[1], c[1], c[3], c[4])
        ctx.scenario("matched/%s/%d/%d/%d/%d" % c, lambda r: one(r, True, c), 1)
