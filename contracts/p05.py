"""P05: generational / inverted generational distance: value, gradient, Hessian blocks."""
from .common import *
from fractions import Fraction
import numpy as np
from pyvc.check import Fail, Skip


def _load():
    L = loader.Loader(overrides={("hvd.reference_set", "ReferenceSet"): ref_overrides()})
    return L.load("hvd.delta_p")


def _arg_for(dist, rows, cols):
    """name of the index function min_j dist(i, j) used by the code"""
    for nm, x, axis, which in shims.ARGS.values():
        if which != "min" or x.ndim != 2 or axis != 1:
            continue
        i, j = newidx(rows), newidx(cols)
        try:
            if x.shape_[0] == P(rows) and x.shape_[1] == P(cols) and x.at_(i, j) == dist(i, j):
                return nm
        except Exception:
            pass
    raise Unsupported("no nearest-point index function over the pairwise Euclidean distances")


def _dist(a, b, d):
    def f(i, j):
        k = newidx(d)
        s = psum(vname(k), d, (A(a, i, k) - A(b, j, k)) ** 2)
        pl.assume_nonneg(s)
        return pl.ppow(s, Fraction(1, 2))
    return f


def _is_nearest_dist(q, d):
    for nm, *_ in shims.ARGS.values():
        for v in q.free():
            if v in RANGE and q == _dist("Y", "R", d)(V(v), A(nm, V(v))):
                return True
    return False


def gd(what, p, supplied):
    shims.ARGS.clear()
    tn.set_ctx(tn.Ctx())
    pl.POSRULES.clear()
    m = _load()
    N, M, n, d = dim("N"), dim("M"), dim("n"), dim("d")
    smooth("X", "Y", "J", "H")
    if what != "value" and p != 2:
        # differentiability precondition: no approximation point sits exactly on its nearest reference point
        pl.POSRULES.append(lambda q: _is_nearest_dist(q, d))
    if p == "p":
        tn.CTX.assume(pl.ind("eq", V("p"), 2), False)     # p = 2 has its own obligations
    pp = P(p) if not isinstance(p, str) else V(p)
    o = m.GenerationalDistance(sym_array("R", (M, d)), rowmap("X", "Y", d), rowmap("X", "J", d, n), rowmap("X", "H", d, n, n),
                               p=scalar(pp, "f"))
    X, Y, J = sym_array("X", (N, n)), sym_array("Y", (N, d)), sym_array("J", (N, d, n))
    if what == "value":
        r = o.compute(Y=Y) if supplied else o.compute(X=X)
        nm = _arg_for(_dist("Y", "R", d), N, M)
        i = newidx(N)
        s = psum(vname(i), N, pl.ppow(_dist("Y", "R", d)(i, A(nm, i)), pp)) / N
        pl.assume_nonneg(s)
        return prove_equal(tn.to_T(r).as_poly(), pl.ppow(s, 1 / pp), "value")
    kw = dict(Y=Y, Jacobian=J) if supplied else {}
    res = o.compute_derivatives(X, compute_hessian=(what == "hessian"), **kw)
    g = res[0] if what == "hessian" else res
    nm = _arg_for(_dist("Y", "R", d), N, M)
    l, k, q = newidx(N), newidx(n), newidx(n)
    u = newidx(N)
    spec = psum(vname(u), N, pl.ppow(_dist("Y", "R", d)(u, A(nm, u)), pp)) / N
    prove_equal(g.at_(l, k), diff(spec, "X", (l, k)), "gradient of GD^p")
    if what == "hessian":
        prove_equal(res[1].at_(l, k, q), diff(diff(spec, "X", (l, k)), "X", (l, q)), "Hessian block of GD^p")


def igd(what, supplied, matching, p=2):
    shims.ARGS.clear()
    tn.set_ctx(tn.Ctx())
    pl.POSRULES.clear()
    m = _load()
    N, M, n, d = dim("N"), dim("M"), dim("n"), dim("d")
    smooth("X", "Y", "J", "H")
    o = m.InvertedGenerationalDistance(sym_array("R", (M, d)), rowmap("X", "Y", d), rowmap("X", "J", d, n),
                                       rowmap("X", "H", d, n, n), p=scalar(V("p"), "f") if p == "p" else p, matching=matching)
    X, Y, J = sym_array("X", (N, n)), sym_array("Y", (N, d)), sym_array("J", (N, d, n))
    if matching:
        i, k = newidx(N), newidx(d)
        total = psum(vname(i), N, psum(vname(k), d, (A("Y", i, k) - A("Rm", i, k)) ** 2))
    if what == "value":
        r = o.compute(Y=Y) if supplied else o.compute(X=X)
        if matching:
            return prove_equal(tn.to_T(r).as_poly(), total / N, "value")
        pp = V("p") if p == "p" else P(p)
        nm = _arg_for(_dist("R", "Y", d), M, N)
        i = newidx(M)
        s = psum(vname(i), M, pl.ppow(_dist("R", "Y", d)(i, A(nm, i)), pp)) / M
        pl.assume_nonneg(s)
        return prove_equal(tn.to_T(r).as_poly(), pl.ppow(s, 1 / pp), "value")
    kw = dict(Y=Y, Jacobian=J) if supplied else {}
    res = o.compute_derivatives(X, compute_hessian=(what == "hessian"), **kw)
    g = res[0] if what == "hessian" else res
    if matching:
        spec = total
    else:
        nm = _arg_for(_dist("R", "Y", d), M, N)
        u, k2 = newidx(M), newidx(d)
        spec = psum(vname(u), M, psum(vname(k2), d, (A("R", u, k2) - A("Y", A(nm, u), k2)) ** 2)) / M
    l, k, q = newidx(N), newidx(n), newidx(n)
    prove_equal(g.at_(l, k), diff(spec, "X", (l, k)), "gradient")
    if what == "hessian":
        prove_equal(res[1].at_(l, k, q), diff(diff(spec, "X", (l, k)), "X", (l, q)), "Hessian block")


def prove(ctx):
    G, I = "hvd.delta_p.GenerationalDistance", "hvd.delta_p.InvertedGenerationalDistance"
    fn = {"value": "compute", "gradient": "compute_derivatives", "hessian": "compute_derivatives"}
    for sup in (False, True):
        t = "supplied Y/J" if sup else "evaluates callbacks"
        for what in fn:
            for p in (2, 1, 3, 4, "p"):
                ctx.obligation(f"GD p={p} {what} ({t})", f"{G}.{fn[what]}", lambda: gd(what, p, sup))
            for mt in (False, True):
                ctx.obligation(f"IGD {'matched ' if mt else ''}{what} ({t})", f"{I}.{fn[what]}", lambda: igd(what, sup, mt))
        ctx.obligation(f"IGD p symbolic value ({t})", f"{I}.compute", lambda: igd("value", sup, False, "p"))
    ctx.trusted |= shims.TRUSTED


# ------------------------------------------------------------------ concrete evaluation of the same contracts
def toy(rng, n, m):
    A, B, c = rng.randn(m, n), rng.randn(m, n, n) * .3, rng.randn(m)
    B = (B + B.transpose(0, 2, 1)) / 2
    T = rng.randn(m, n)
    f = lambda x: c + A @ x + .5 * np.einsum("akl,k,l->a", B, x, x) + np.sin(T @ x)
    j = lambda x: A + np.einsum("akl,l->ak", B, x) + np.cos(T @ x)[:, None] * T
    h = lambda x: B - np.sin(T @ x)[:, None, None] * T[:, :, None] * T[:, None, :]
    return f, j, h


def concrete(ctx):
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet
    import itertools

    def close(a, b, what, **d):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            raise Fail(f"{what}: shape {a.shape}, expected {b.shape}", **d)
        if not np.allclose(a, b, rtol=1e-9, atol=1e-9 * (1 + (np.abs(b).max() if b.size else 0))):
            raise Fail(f"{what}: largest deviation {np.abs(a - b).max():.3g}", got=a, expected=b, **d)

    def setup(rng):
        N, M = int(rng.randint(1, 7)), int(rng.randint(1, 9))
        n, m = int(rng.randint(1, 5)), int(rng.randint(2, 5))
        f, j, h = toy(rng, n, m)
        X = rng.randn(N, n)
        Y = np.array([f(x) for x in X])
        R = rng.randn(M, m) * 2
        if rng.rand() < .25:
            R = Y[rng.randint(0, N, M)] + rng.randn(M, m) * .05
        J, H = np.array([j(x) for x in X]), np.array([h(x) for x in X])
        return N, M, n, m, f, j, h, X, Y, R, J, H

    def call(ind, X, Y, J, N, n, val, g, H, what, data):
        X0, Y0, J0, R0 = X.copy(), Y.copy(), J.copy(), ind.ref.reference_set.copy()
        close(ind.compute(Y=Y), val, what + " value", **data)
        close(ind.compute(X=X), val, what + " value (callbacks)", **data)
        for kw, nm in ((dict(), "callbacks"), (dict(Y=Y, Jacobian=J), "supplied"), (dict(Y=Y), "Y supplied"), (dict(Jacobian=J), "Jacobian supplied")):
            a, b = ind.compute_derivatives(X, **kw)
            close(a, g, f"{what} gradient ({nm})", **data)
            close(b, H, f"{what} Hessian ({nm})", **data)
            close(ind.compute_derivatives(X, compute_hessian=False, **kw), g, f"{what} gradient only ({nm})", **data)
        for p, q, nm in ((X, X0, "X"), (Y, Y0, "Y"), (J, J0, "Jacobian")):
            if not np.array_equal(p, q):
                raise Fail(f"{what}: argument {nm} was modified", **data)

    def gd(rng):
        N, M, n, m, f, j, h, X, Y, R, J, H = setup(rng)
        p = float(rng.choice([2, 2, 1, 3, 4, 1.5, 2.5]))
        data = dict(X=X, Y=Y, R=R, p=p)
        D = np.sqrt(((Y[:, None] - R[None]) ** 2).sum(-1))
        k = D.argmin(1)
        d = D[np.arange(N), k]
        srt = np.sort(D, 1)
        if (M > 1 and np.any(srt[:, 1] - srt[:, 0] < 1e-6)) or d.min() < 1e-4:
            return None
        diff = Y - R[k]
        gr = np.einsum("iak,ia->ik", J, diff)
        g = p / N * d[:, None] ** (p - 2) * gr
        Hs = p / N * d[:, None, None] ** (p - 2) * (np.einsum("iak,ial->ikl", J, J) + np.einsum("iakl,ia->ikl", H, diff)) \
            + p * (p - 2) / N * d[:, None, None] ** (p - 4) * gr[:, :, None] * gr[:, None, :]
        ind = GenerationalDistance(R.copy() if rng.rand() < .5 else ReferenceSet(R.copy()), f, j, h, p=p)
        call(ind, X, Y, J, N, n, np.mean(d ** p) ** (1 / p), g, Hs, f"GD p={p}", data)
        return (N, M, n, m, p)

    def igd(rng):
        N, M, n, m, f, j, h, X, Y, R, J, H = setup(rng)
        if N > 1 and rng.rand() < .3:
            X[0] += 30                                     # a point nearest to no reference point
            Y, J, H = np.array([f(x) for x in X]), np.array([j(x) for x in X]), np.array([h(x) for x in X])
        p = float(rng.choice([2, 2, 2, 1, 3]))
        data = dict(X=X, Y=Y, R=R, p=p)
        D = np.sqrt(((R[:, None] - Y[None]) ** 2).sum(-1))
        k = D.argmin(1)
        srt = np.sort(D, 1)
        if N > 1 and np.any(srt[:, 1] - srt[:, 0] < 1e-6):
            return None
        val = np.mean(D[np.arange(M), k] ** p) ** (1 / p)
        ind = InvertedGenerationalDistance(R.copy() if rng.rand() < .5 else ReferenceSet(R.copy()), f, j, h, p=p)
        if p != 2:
            close(ind.compute(Y=Y), val, f"IGD p={p} value", **data)
            return (N, M, m, p)
        g, Hs = np.zeros((N, n)), np.zeros((N, n, n))
        for r in range(M):
            i = k[r]
            e = Y[i] - R[r]
            g[i] += 2 / M * J[i].T @ e
            Hs[i] += 2 / M * (J[i].T @ J[i] + np.einsum("akl,a->kl", H[i], e))
        call(ind, X, Y, J, N, n, val, g, Hs, "IGD", data)
        return (N, M, n, m, len(set(k.tolist())))

    def matched(rng):
        N, M, n, m, f, j, h, X, Y, R, J, H = setup(rng)
        R = rng.randn(N, m) * 2
        best = min((sum(np.linalg.norm(Y[i] - R[q[i]]) for i in range(N)), q) for q in itertools.permutations(range(N)))[1]
        Z = R[list(best)]
        data = dict(X=X, Y=Y, R=R)
        ind = InvertedGenerationalDistance(ReferenceSet(R.copy()), f, j, h, matching=True)
        diff = Y - Z
        g = 2 * np.einsum("iak,ia->ik", J, diff)
        Hs = 2 * (np.einsum("iak,ial->ikl", J, J) + np.einsum("iakl,ia->ikl", H, diff))
        call(ind, X, Y, J, N, n, np.mean((diff ** 2).sum(1)), g, Hs, "IGD with matching", data)
        return (N, n, m)

    def sequence(rng):
        """values do not depend on what the same object was asked before"""
        N, M, n, m, f, j, h, X, Y, R, J, H = setup(rng)
        g1, i1 = GenerationalDistance(R, f, j, h), InvertedGenerationalDistance(R, f, j, h)
        for _ in range(4):
            X = rng.randn(int(rng.randint(1, 6)), n)
            Y = np.array([f(x) for x in X])
            D = np.sqrt(((Y[:, None] - R[None]) ** 2).sum(-1))
            close(g1.compute(Y=Y), np.sqrt(np.mean(D.min(1) ** 2)), "GD value in a sequence of queries", Y=Y, R=R)
            close(i1.compute(Y=Y), np.sqrt(np.mean(D.min(0) ** 2)), "IGD value in a sequence of queries", Y=Y, R=R)
            a = i1.compute_derivatives(X, compute_hessian=False)
            b = InvertedGenerationalDistance(R, f, j, h).compute_derivatives(X, Y, False)
            close(a, b, "IGD gradient in a sequence of queries", X=X, R=R)
        return (N, M, n, m)
    k = 6 if ctx.thorough else 1
    ctx.scenario("gd", gd, 400 * k)
    ctx.scenario("igd", igd, 400 * k)
    ctx.scenario("matched", matched, 250 * k)
    ctx.scenario("sequence", sequence, 60 * k)
