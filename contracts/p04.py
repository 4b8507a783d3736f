"""P04: State consistency under update / update_one / slicing / copying / saving."""
import os
import tempfile
from copy import deepcopy
from pyvc.check import Fail, Skip
import numpy as np


class Toy:
    """a problem with pseudo-random smooth callbacks; `batch` adds *_batch variants (called for populations)"""

    def __init__(self, rng, n_var, n_obj, n_eq, n_ieq):
        self.A = rng.randn(n_obj, n_var)
        self.B = rng.randn(n_eq, n_var)
        self.C = rng.randn(n_ieq, n_var)
        self.n_var, self.n_obj, self.n_eq, self.n_ieq = n_var, n_obj, n_eq, n_ieq
        self.calls = {}

    def _c(self, k, x):
        self.calls[k] = self.calls.get(k, 0) + (len(x) if np.ndim(x) == 2 else 1)
        if np.shape(x)[-1] != self.n_var:
            raise Fail(f"callback `{k}` was evaluated at an array of shape {np.shape(x)}: decision vectors have {self.n_var} variables")

    def F(self, x):
        self._c("F", x)
        return np.sin(self.A @ x) + (self.A ** 2) @ x

    def J(self, x):
        self._c("J", x)
        return np.cos(self.A @ x)[:, None] * self.A + self.A ** 2

    def H(self, x):
        self._c("H", x)
        return np.cos(self.B @ x) - .3

    def HJ(self, x):
        self._c("HJ", x)
        return -np.sin(self.B @ x)[:, None] * self.B

    def HH(self, x):
        self._c("HH", x)
        return -np.cos(self.B @ x)[:, None, None] * self.B[:, :, None] * self.B[:, None, :]

    def G(self, x):
        self._c("G", x)
        v = np.sin(self.C @ x)
        q = np.round(v, 1)                      # hits exactly 0, and values around the activity threshold
        return np.where(np.abs(q) < .15, np.sign(v) * np.where(v > 0, 0.0, np.where(v > -.05, 5e-5, 2e-4)), v)

    def GJ(self, x):
        self._c("GJ", x)
        return np.cos(self.C @ x)[:, None] * self.C

    def GH(self, x):
        self._c("GH", x)
        return -np.sin(self.C @ x)[:, None, None] * self.C[:, :, None] * self.C[:, None, :]


class ToyBatch(Toy):
    pass


for _n in ("F", "J", "H", "HJ", "HH", "G", "GJ", "GH"):
    def _mk(n):
        def batch(self, X):
            X = np.asarray(X)
            if X.ndim != 2:
                raise Fail(f"batch callback `{n}_batch` received an array of shape {X.shape}")
            return np.array([getattr(self, n)(x) for x in X])
        return batch
    setattr(ToyBatch, _n + "_batch", _mk(_n))


def expected(toy, X, eq, ieq):
    P = X[:, :toy.n_var]
    E = {"Y": np.array([toy.F(x) for x in P]), "J": np.array([toy.J(x) for x in P])}
    N, n = P.shape
    H = np.array([toy.H(x) for x in P]) if eq else np.zeros((N, toy.n_eq))
    G = np.array([toy.G(x) for x in P]) if ieq else np.zeros((N, toy.n_ieq))
    H, G = H.reshape(N, toy.n_eq), G.reshape(N, toy.n_ieq)
    E["cstr_value"] = np.concatenate([H, G], 1)
    E["active_indices"] = np.concatenate([np.ones(H.shape, bool), G >= -1e-4], 1)
    if eq or ieq:
        dH = np.array([toy.HJ(x) for x in P]).reshape(N, toy.n_eq, n) if eq else np.zeros((N, toy.n_eq, n))
        dG = np.array([toy.GJ(x) for x in P]).reshape(N, toy.n_ieq, n) if ieq else np.zeros((N, toy.n_ieq, n))
        E["cstr_grad"] = np.concatenate([dH, dG], 1)
        dH = np.array([toy.HH(x) for x in P]).reshape(N, toy.n_eq, n, n) if eq else np.zeros((N, toy.n_eq, n, n))
        dG = np.array([toy.GH(x) for x in P]).reshape(N, toy.n_ieq, n, n) if ieq else np.zeros((N, toy.n_ieq, n, n))
        E["cstr_hess"] = np.concatenate([dH, dG], 1)
    return E


def compare(st, toy, X, eq, ieq, what, hess=True, **data):
    if not np.array_equal(np.asarray(st.X), X):
        raise Fail(f"{what}: decision points differ from those passed in", got=st.X, expected=X, **data)
    E = expected(toy, X, eq, ieq)
    for k, v in E.items():
        if k == "cstr_hess" and not hess:
            continue
        got = getattr(st, k)
        if np.shape(got) != v.shape:
            raise Fail(f"{what}: `{k}` has shape {np.shape(got)}, callbacks give {v.shape}", **data)
        if not np.allclose(np.asarray(got, float), np.asarray(v, float), rtol=1e-12, atol=1e-12):
            raise Fail(f"{what}: stored `{k}` is not the callback evaluated at the stored decision points", got=got, expected=v, X=X, **data)
    if not np.array_equal(st.primal, X[:, :toy.n_var]) or not np.array_equal(st.dual, X[:, toy.n_var:]):
        raise Fail(f"{what}: primal/dual do not partition the decision points", **data)
    if not np.allclose(st.H, E["cstr_value"][:, :toy.n_eq]) or not np.allclose(st.G, E["cstr_value"][:, toy.n_eq:]):
        raise Fail(f"{what}: H/G views do not split the constraint values", **data)
    if st.N != len(X):
        raise Fail(f"{what}: N is {st.N}, {len(X)} points stored", **data)


# ------------------------------------------------------------------ deductive layer (Mode S: any number of points, variables, ...)
def sym_world(eq, ieq, batch):
    """State built by the real constructor from callbacks known only through their contract: f(x) depends on x alone"""
    from .common import loader, shims, tn, pl, dim, scalar, T, P, A, newidx, Unsupported
    tn.set_ctx(tn.Ctx())
    pl.POSRULES.clear()
    shims.ARGS.clear()
    store = {}

    class File:
        def __init__(self, name, mode):
            self.name, self.mode = name, mode

        def __enter__(self): return self
        def __exit__(self, *a): return False
        def close(self): pass

    class Pickle:
        """trusted contract: load returns what was dumped"""
        HIGHEST_PROTOCOL = DEFAULT_PROTOCOL = -1
        def dump(self, o, f, *a, **k):
            if any(callable(v) for v in o.values()):
                raise Refuted("save pickles a callback")
            store[f.name] = {k: (v.copy() if isinstance(v, T) else v) for k, v in o.items()}

        def load(self, f, *a, **k): return dict(store[f.name])

    from .common import Refuted
    from copy import deepcopy
    m = loader.Loader(overrides={("hvd.base", "pickle"): Pickle(), ("hvd.base", "open"): File}).load("hvd.base")
    N, n, d, w = dim("N"), dim("n"), dim("d"), dim("w", 0)
    ne, ng = (dim("ne") if eq else P(0)), (dim("ng") if ieq else P(0))
    inner = dict(F=(d,), J=(d, n), H=(ne,), HJ=(ne, n), HH=(ne, n, n), G=(ng,), GJ=(ng, n), GH=(ng, n, n))

    def cell(p, k):
        """the source of a decision vector with k-th component p"""
        s = p.single()
        if s is None:
            raise Unsupported("callback argument is not a decision vector")
        ((a, e),), c = s if isinstance(s, tuple) and len(s) == 2 else (s, 1)
        if a[0] != "a" or e != 1 or a[2][-1] != k or c != 1:
            raise Unsupported("callback argument is not a decision vector")
        return a

    def width(s):
        if s != n:
            raise Refuted(f"callback evaluated at a vector of {s} components; decision vectors have n variables", None)

    def point(nm):
        def f(self, x):
            x = tn.to_T(x)
            if x.ndim != 1:
                raise Unsupported("point callback called with a matrix")
            width(x.shape_[0])
            k = newidx(n)
            a = cell(x.at_(k), k)
            return T(inner[nm], lambda *t: A(f"{nm}_{a[1]}", *a[2][:-1], *t))
        f.__name__ = nm
        return f

    def batched(nm):
        def f(self, x):
            x = tn.to_T(x)
            if x.ndim != 2:
                raise Refuted("batch callback called with a single point", None)
            width(x.shape_[1])
            i, k = newidx(x.shape_[0]), newidx(n)
            a = cell(x.at_(i, k), k)
            if a[2][:-1] != (i,):
                raise Unsupported("rows passed to the batch callback are not the stored ones")
            return T((x.shape_[0],) + inner[nm], lambda i, *t: A(f"{nm}_{a[1]}", i, *t))
        f.__name__ = nm + "_batch"
        return f
    cls = type("Owner", (), {nm: point(nm) for nm in inner} | ({nm + "_batch": batched(nm) for nm in inner} if batch else {}))
    o = cls()
    s = lambda v: scalar(v, "i") if not v.is_const() else int(v.const())
    kw = {}
    if eq:
        kw.update(h=o.H, h_jac=o.HJ, h_hess=o.HH)
    if ieq:
        kw.update(g=o.G, g_jac=o.GJ, g_hess=o.GH)
    st = m.State(s(n), s(ne), s(ng), o.F, o.J, **kw)
    D = dict(N=N, n=n, d=d, w=w, ne=ne, ng=ng)
    for k in ("n_jac_evals", "n_cstr_jac_evals", "n_cstr_hess_evals"):      # the counters start anywhere
        if getattr(st, k) != 0:
            raise Refuted(f"`{k}` of a new state is not zero", None)
        setattr(st, k, scalar(dim("c_" + k, 0), "i"))
    return m, st, D


def sym_check(st, D, N, row, what, J=True, hess=True, con=True, width=True):
    """`row(arr, i, *t)`: the spec term of callback array `arr` at row i (arr in F, J, H, ... or the decision matrix '')"""
    from .common import newidx, prove_equal, pl, P, ONE, Refuted, tn
    n, d, w, ne, ng = D["n"], D["d"], D["w"], D["ne"], D["ng"]
    i, a, x, k, q, e, g = newidx(N), newidx(d), newidx(n + w), newidx(n), newidx(n), newidx(ne), newidx(ng)
    x2 = newidx(w)

    def shp(t, *s):
        t = tn.to_T(t)
        if [str(u) for u in t.shape_] != [str(P(u)) for u in s] and not all(P(u) == P(v) for u, v in zip(t.shape_, s) if hasattr(u, "t")):
            raise Refuted(f"{what}: shape {t.shape_} instead of {s}", None)
        return t
    eqs = [("decision points", st.X, (N, n + w), (i, x), row("", i, x)), ("primal", st.primal, (N, n), (i, k), row("", i, k)),
           ("dual", st.dual, (N, w), (i, x2), row("", i, n + x2)),
           ("objective values", st.Y, (N, d), (i, a), row("F", i, a))]
    if J:
        eqs.append(("Jacobians", st.J, (N, d, n), (i, a, k), row("J", i, a, k)))
    elif J is None and st.J is not None:
        raise Refuted(f"{what}: Jacobians kept although none were computed for these points", None)
    C, act = st.cstr_value, st.active_indices
    shp(C, N, ne + ng), shp(act, N, ne + ng)
    thr = pl.P(1) / 10000
    if ne != P(0):
        eqs += [("equality constraints", C, None, (i, e), row("H", i, e)), ("H", st.H, (N, ne), (i, e), row("H", i, e)),
                ("active set of the equality constraints", act, None, (i, e), ONE)]
    if ng != P(0):
        eqs += [("inequality constraints", C, None, (i, ne + g), row("G", i, g)), ("G", st.G, (N, ng), (i, g), row("G", i, g)),
                ("active set of the inequality constraints", act, None, (i, ne + g), row("act", i, g))]
    anyc = ne != P(0) or ng != P(0)
    shp(st.cstr_grad, N, ne + ng, n)
    if hess:
        shp(st.cstr_hess, N, ne + ng, n, n)
    if ne != P(0):
        eqs.append(("equality Jacobians", st.cstr_grad, None, (i, e, k), row("HJ", i, e, k)))
        if hess:
            eqs.append(("equality Hessians", st.cstr_hess, None, (i, e, k, q), row("HH", i, e, k, q)))
    if ng != P(0):
        eqs.append(("inequality Jacobians", st.cstr_grad, None, (i, ne + g, k), row("GJ", i, g, k)))
        if hess:
            eqs.append(("inequality Hessians", st.cstr_hess, None, (i, ne + g, k, q), row("GH", i, g, k, q)))
    for nm, t, s, idx, spec in eqs:
        t = shp(t, *s) if s else tn.to_T(t)
        prove_equal(t.at_(*idx), spec, f"{what}: {nm}")


def sym_counts(st, before, dj, dc, dh, what):
    from .common import P, Refuted, tn, prove_equal
    for k, d in zip(("n_jac_evals", "n_cstr_jac_evals", "n_cstr_hess_evals"), (dj, dc, dh)):
        prove_equal(tn.to_T(getattr(st, k)).as_poly(), tn.to_T(before[k]).as_poly() + P(d), f"{what}: counter {k}")


def counts(st):
    return {k: getattr(st, k) for k in ("n_jac_evals", "n_cstr_jac_evals", "n_cstr_hess_evals")}


def src_row(name):
    """spec: everything is the callback at row i of the matrix `name`"""
    from .common import A, pl, P, ONE

    def row(arr, i, *t):
        if arr == "act":
            return ONE - pl.ind("lt", A("G_" + name, i, *t), P(-1) / 10000)
        return A(f"{arr}_{name}" if arr else name, i, *t)
    return row


def one_row(name, x, k):
    """spec after update_one(x, k)"""
    from .common import A, pl, P, ONE, delta
    base = src_row(name)

    def row(arr, i, *t):
        if arr == "act":
            new = ONE - pl.ind("lt", A("G_" + x, *t), P(-1) / 10000)
        else:
            new = A(f"{arr}_{x}" if arr else x, *t)
        c = delta(i, k)
        return c * new + (ONE - c) * base(arr, i, *t)
    return row


def prove(ctx):
    from .common import dim, sym_array, scalar, newidx, A, P, shims, V, tn, Refuted
    from copy import deepcopy
    S = "hvd.base.State."

    def ready(conf, batch):
        eq, ieq = conf
        m, st, D = sym_world(eq, ieq, batch)
        N, n, w = D["N"], D["n"], D["w"]
        st.update(sym_array("Z", (dim("N0"), n + w)))     # some earlier, different set
        b = counts(st)
        X = sym_array("X", (N, n + w))
        st.update(X)
        return m, st, D, X, b, int(bool(eq or ieq))

    def update(conf, batch):
        m, st, D, X, b, con = ready(conf, batch)
        N = D["N"]
        sym_check(st, D, N, src_row("X"), "update")
        sym_counts(st, b, N, N * con, N * con, "update")
        X[:, :] = 7.0                                     # the state owns its data
        sym_check(st, D, N, src_row("X"), "update, caller's array changed afterwards")

    def partial(conf, batch):
        for g, h in ((False, True), (True, False), (False, False)):
            m, st, D, X, _, con = ready(conf, batch)
            b = counts(st)
            M = dim("M")
            st.update(sym_array("W", (M, D["n"] + D["w"])), compute_gradient=g, compute_hessian=h)
            sym_check(st, D, M, src_row("W"), f"update(compute_gradient={g}, compute_hessian={h})", J=True if g else None, hess=h)
            sym_counts(st, b, M * g, M * con, M * con * h, f"update(compute_gradient={g}, compute_hessian={h})")

    def one(conf, batch):
        m, st, D, X, _, con = ready(conf, batch)
        b = counts(st)
        k = newidx(D["N"])
        x = sym_array("x", (D["n"] + D["w"],))
        st.update_one(x, scalar(k, "i"))
        sym_check(st, D, D["N"], one_row("X", "x", k), "update_one")
        sym_counts(st, b, 1, con, con, "update_one")
        x[:] = 7.0
        sym_check(st, D, D["N"], one_row("X", "x", k), "update_one, caller's array changed afterwards")
        j = newidx(D["n"] + D["w"])
        i = newidx(D["N"])
        from .common import prove_equal
        prove_equal(X.at_(i, j), A("X", i, j), "update_one: the array given to `update`")

    def sliced(conf, batch, kind):
        m, st, D, X, _, con = ready(conf, batch)
        x = sym_array("x", (D["n"] + D["w"],))
        k = newidx(D["N"])
        st.update_one(x, scalar(k, "i"))                  # a state with a history
        orig = one_row("X", "x", k)
        b = counts(st)
        if kind == "array":
            K = dim("K")
            s2 = st[sym_array("idx", (K,), "i")]
            row = lambda arr, i, *t: orig(arr, A("idx", i), *t)
        elif kind == "slice":
            K = D["N"] - 1
            s2 = st[1:]
            row = lambda arr, i, *t: orig(arr, i + 1, *t)
        sym_check(s2, D, K, row, f"slice by {kind}")
        sym_counts(s2, b, 0, 0, 0, "slice")
        sym_counts(st, b, 0, 0, 0, "original after slicing")
        y = sym_array("y", (D["n"] + D["w"],))
        s2.update_one(y, scalar(newidx(K), "i"))
        for f in ("X", "Y", "J", "cstr_value"):
            v = getattr(s2, f)
            v[...] = 9.0
        sym_check(st, D, D["N"], orig, "original after the slice was changed")

    def copied(conf, batch):
        m, st, D, X, _, con = ready(conf, batch)
        b = counts(st)
        s2 = deepcopy(st)
        sym_check(s2, D, D["N"], src_row("X"), "copy")
        sym_counts(s2, b, 0, 0, 0, "copy")
        y, k = sym_array("y", (D["n"] + D["w"],)), newidx(D["N"])
        s2.update_one(y, scalar(k, "i"))
        sym_check(s2, D, D["N"], one_row("X", "y", k), "update_one of a copy")
        sym_check(st, D, D["N"], src_row("X"), "original after the copy was updated")
        sym_counts(st, b, 0, 0, 0, "original after the copy was updated")

    def saved(conf, batch):
        m, st, D, X, _, con = ready(conf, batch)
        b = counts(st)
        st.save("f")
        sym_check(st, D, D["N"], src_row("X"), "state after saving")
        s2 = m.State.load("f.pkl")
        sym_check(s2, D, D["N"], src_row("X"), "saved and loaded state")
        sym_counts(s2, b, 0, 0, 0, "saved and loaded state")
        st.update_one(sym_array("x", (D["n"] + D["w"],)), scalar(newidx(D["N"]), "i"))    # still usable

    def single(conf, batch):
        m, st, D, X, _, con = ready(conf, batch)
        from .common import prove_equal, pl, ONE
        n, ne, ng = D["n"], D["ne"], D["ng"]
        x = sym_array("x", (n,))
        b = counts(st)
        v, act = st.eval_cstr(x)
        g, h = st.eval_cstr_jac(x), st.eval_cstr_hess(x)
        e, q, k, l = newidx(ne), newidx(ng), newidx(n), newidx(n)
        if conf[0]:
            prove_equal(v.at_(e), A("H_x", e), "eval_cstr")
            prove_equal(act.at_(e), ONE, "eval_cstr active set")
            prove_equal(g.at_(e, k), A("HJ_x", e, k), "eval_cstr_jac")
            prove_equal(h.at_(e, k, l), A("HH_x", e, k, l), "eval_cstr_hess")
        if conf[1]:
            prove_equal(v.at_(ne + q), A("G_x", q), "eval_cstr")
            prove_equal(act.at_(ne + q), ONE - pl.ind("lt", A("G_x", q), P(-1) / 10000), "eval_cstr active set")
            prove_equal(g.at_(ne + q, k), A("GJ_x", q, k), "eval_cstr_jac")
            prove_equal(h.at_(ne + q, k, l), A("GH_x", q, k, l), "eval_cstr_hess")
        sym_counts(st, b, 0, con, con, "constraint evaluation at a point")
        a = newidx(D["d"])
        prove_equal(st.eval_jac(x).at_(a, k), A("J_x", a, k), "eval_jac")

    for conf, cn in (((0, 0), "unconstrained"), ((1, 0), "equality"), ((0, 1), "inequality"), ((1, 1), "both")):
        for batch in (False, True):
            t = f"({cn}{', batch callbacks' if batch else ''})"
            for nm, f, fn in (("update", update, "update"), ("update without some derivatives", partial, "update"), ("update_one", one, "update_one"),
                              ("slice by index array", lambda c, b: sliced(c, b, "array"), "__getitem__"),
                              ("slice by slice", lambda c, b: sliced(c, b, "slice"), "__getitem__"),
                              ("copies are independent", copied, "__getitem__"), ("save/load", saved, "save"), ("single-point evaluators", single, "eval_cstr")):
                ctx.obligation(f"{nm} {t}", S + fn, lambda f=f: f(conf, batch))
    ctx.trusted |= shims.TRUSTED
    ctx.trusted |= {"pickle.load(pickle.dump(o)) == o", "copy.deepcopy"}


def concrete(ctx):
    from hvd.base import State

    def build(rng):
        n, m = int(rng.randint(1, 5)), int(rng.randint(1, 4))
        conf = str(rng.choice(["none", "eq", "ieq", "both"]))
        eq, ieq = conf in ("eq", "both"), conf in ("ieq", "both")
        ne, ng = (int(rng.randint(1, 4)) if eq else 0), (int(rng.randint(1, 4)) if ieq else 0)
        batch = bool(rng.rand() < .5)
        toy = (ToyBatch if batch else Toy)(rng, n, m, ne, ng)
        st = State(n, ne, ng, toy.F, toy.J, h=toy.H if eq else None, h_jac=toy.HJ if eq else None, h_hess=toy.HH if eq else None,
                   g=toy.G if ieq else None, g_jac=toy.GJ if ieq else None, g_hess=toy.GH if ieq else None)
        N = int(rng.randint(1, 6))
        w = n + (ne + ng if rng.rand() < .7 else 0)
        return st, toy, eq, ieq, N, w, conf, batch

    def history(rng):
        st, toy, eq, ieq, N, w, conf, batch = build(rng)
        X = rng.randn(N, w)
        cnt = {"J": 0, "C": 0, "CH": 0}
        snaps = []
        X0 = X.copy()
        ops = []

        def ev(s):
            return (s.n_jac_evals, s.n_cstr_jac_evals, s.n_cstr_hess_evals)

        def expect_count(s, what):
            exp = (cnt["J"], cnt["C"], cnt["CH"])
            if ev(s) != exp:
                raise Fail(f"{what}: evaluation counters (objective Jacobian, constraint Jacobian, constraint Hessian) are {ev(s)}, "
                           f"{exp} points were evaluated", ops=ops)
        con = int(eq or ieq)
        calls0 = dict(toy.calls)
        st.update(X)
        ops.append(f"update({N})")
        cnt["J"] += N
        cnt["C"] += N * con
        cnt["CH"] += N * con
        if toy.calls.get("F", 0) != N or toy.calls.get("J", 0) != N:
            raise Fail(f"update of {N} points evaluated the objective {toy.calls.get('F', 0)} and the Jacobian {toy.calls.get('J', 0)} times", ops=ops)
        cur = X.copy()
        compare(st, toy, cur, eq, ieq, "update", ops=ops)
        expect_count(st, "update")
        X[...] = 77.0                                     # the state must own its data
        compare(st, toy, cur, eq, ieq, "update (caller's array changed afterwards)", ops=ops)
        for _ in range(int(rng.randint(2, 7))):
            op = str(rng.choice(["update", "one", "one", "slice", "copy", "nohess", "save", "again", "partial"]))
            if op == "update":
                if rng.rand() < .3:
                    cur = cur * (1 + 1e-6 * rng.rand(N, 1))
                else:
                    N = int(rng.randint(1, 6))
                    cur = rng.randn(N, w)
                st.update(cur.copy())
                cnt["J"] += N
                cnt["C"] += N * con
                cnt["CH"] += N * con
                ops.append(f"update({N})")
            elif op == "one":
                k = int(rng.randint(0, N))
                tiny = rng.rand() < .3                    # a move of the size a converging method takes: still a move
                x = cur[k] * (1 + float(rng.choice([1e-6, 1e-7, -1e-9]))) if tiny else rng.randn(w)
                x0 = x.copy()
                st.update_one(x, k)
                ops.append(f"update_one({k}{', tiny move' if tiny else ''})")
                cur = cur.copy()
                cur[k] = x0
                cnt["J"] += 1
                cnt["C"] += con
                cnt["CH"] += con
                if not np.array_equal(x, x0):
                    raise Fail("update_one modified its argument", ops=ops)
            elif op in ("again", "partial"):   # the same points once more, also after an update without derivatives
                ops.append(op)
                if op == "partial":
                    g_ = bool(rng.rand() < .5)
                    c0 = toy.calls.get("J", 0)
                    st.update(cur.copy(), compute_gradient=g_, compute_hessian=not g_)
                    if not np.array_equal(st.Y, expected(toy, cur, eq, ieq)["Y"]):
                        raise Fail("an update without all derivatives left wrong objective values", ops=ops)
                    st.n_jac_evals, st.n_cstr_jac_evals, st.n_cstr_hess_evals = cnt["J"], cnt["C"], cnt["CH"]
                    if rng.rand() < .5:
                        cur = cur.copy()
                        cur[int(rng.randint(0, N))] = rng.randn(w)
                c0 = [toy.calls.get(k, 0) for k in ("J", "HJ", "GJ", "HH", "GH")]
                st.update(cur.copy())
                c1 = [toy.calls.get(k, 0) for k in ("J", "HJ", "GJ", "HH", "GH")]
                c = [b_ - a_ for a_, b_ in zip(c0, c1)]
                cnt["J"] += c[0]
                cnt["C"] += max(c[1:3])
                cnt["CH"] += max(c[3:])
            elif op == "slice":
                kind = str(rng.choice(["list", "mask", "slice", "array"]))
                idx = {"list": [int(i) for i in rng.randint(0, N, int(rng.randint(1, N + 1)))], "mask": np.r_[True, rng.rand(N - 1) < .6],
                       "slice": slice(int(rng.randint(0, N)), N), "array": rng.permutation(N)}[kind]
                before = ev(st)
                s2 = st[idx]
                ops.append(f"slice({kind})")
                compare(s2, toy, cur[idx], eq, ieq, f"slice by {kind}", ops=ops)
                if ev(s2) != before or ev(st) != before:
                    raise Fail("slicing changed an evaluation counter", ops=ops)
                if len(cur[idx]) and rng.rand() < .7:      # changing the slice must not touch the original
                    s2.update_one(rng.randn(w), 0)
                    s2.X[...] = -3.0
                    s2.Y[...] = -3.0
            elif op == "copy":
                s2 = deepcopy(st)
                compare(s2, toy, cur, eq, ieq, "copy", ops=ops)
                s2.update_one(rng.randn(w), int(rng.randint(0, N)))
                ops.append("copy")
            elif op == "nohess":
                s2 = deepcopy(st)
                Z = rng.randn(int(rng.randint(1, 4)), w)
                s2.update(Z, compute_hessian=False)
                compare(s2, toy, Z, eq, ieq, "update without Hessians", hess=False, ops=ops)
                b = ev(st)
                if ev(s2) != (b[0] + len(Z), b[1] + len(Z) * con, b[2]):
                    raise Fail(f"update without Hessians: counters went from {b} to {ev(s2)} for {len(Z)} points", ops=ops)
                s3 = deepcopy(st)
                s3.update(Z, compute_gradient=False)
                if s3.n_jac_evals != b[0]:
                    raise Fail("update without gradients counted Jacobian evaluations", ops=ops)
            else:
                with tempfile.TemporaryDirectory() as td:
                    p = os.path.join(td, "st")
                    st.save(p)
                    s2 = State.load(p + ".pkl")
                    for k in ("X", "Y", "J", "cstr_value", "active_indices", "cstr_grad", "cstr_hess"):
                        if not np.array_equal(getattr(s2, k), getattr(st, k)):
                            raise Fail(f"saving then loading does not preserve `{k}`", ops=ops)
                    if ev(s2) != ev(st) or (s2.n_var, s2.n_eq, s2.n_ieq) != (st.n_var, st.n_eq, st.n_ieq):
                        raise Fail("saving then loading does not preserve sizes or counters", ops=ops)
                ops.append("save")
            compare(st, toy, cur, eq, ieq, ops[-1] if ops else op, ops=ops)
            expect_count(st, op)
        return (conf, batch, N, w - toy.n_var, tuple(ops[:4]))

    def single(rng):
        """the evaluators at one point agree with the batch"""
        st, toy, eq, ieq, N, w, conf, batch = build(rng)
        X = rng.randn(N, toy.n_var)
        V, A = st.eval_cstr(X)
        Jc, Hc, Jo = st.eval_cstr_jac(X), st.eval_cstr_hess(X), st.eval_jac(X)
        for i in range(N):
            v, a = st.eval_cstr(X[i])
            for nm, b, s in (("eval_cstr", V[i], v), ("active set", A[i], a), ("eval_cstr_jac", Jc[i], st.eval_cstr_jac(X[i])),
                             ("eval_cstr_hess", Hc[i], st.eval_cstr_hess(X[i])), ("eval_jac", Jo[i], st.eval_jac(X[i]))):
                if np.shape(b) != np.shape(s) or not np.array_equal(b, s):
                    raise Fail(f"{nm}: the batch row and the single-point evaluation differ", batch=b, single=s)
        return (conf, batch, N)

    def no_derivs(rng):
        st, toy, eq, ieq, N, w, conf, batch = build(rng)
        X = rng.randn(N, w)
        cg, ch = bool(rng.rand() < .5), bool(rng.rand() < .5)
        st.update(X, compute_gradient=cg, compute_hessian=ch)
        i = rng.permutation(N)[: int(rng.randint(1, N + 1))]
        s = st[i]
        if not np.array_equal(s.X, X[i]) or not np.array_equal(s.Y, st.Y[i]) or not np.array_equal(s.cstr_value, st.cstr_value[i]):
            raise Fail("slice disagrees with the original")
        return (conf, cg, ch)

    def runs(rng):
        """during a real optimisation the stored values stay consistent"""
        from hvd.newton import HVN
        from hvd.problems import CONV3, Eq1DTLZ1
        n = int(rng.choice([2, 3]))
        p = CONV3(boundary_constraints=bool(rng.rand() < .5))
        nv = p.n_var
        N = int(rng.randint(2, 4))
        X0 = p.xl + rng.rand(N, nv) * (p.xu - p.xl)
        kw = dict(n_var=nv, n_obj=p.n_obj, ref=np.ones(p.n_obj) * 40, func=p.objective, jac=p.objective_jacobian, hessian=p.objective_hessian,
                  N=N, X0=X0, xl=p.xl, xu=p.xu, max_iters=int(rng.randint(1, 3)), verbose=False)
        if p.n_ieq_constr:
            kw.update(g=p.ieq_constraint, g_jac=p.ieq_jacobian)
        opt = HVN(**kw)
        opt.run()
        st = opt.state
        for i in range(st.N):
            if not np.allclose(st.Y[i], p.objective(st.primal[i])) or not np.allclose(st.J[i], p.objective_jacobian(st.primal[i])):
                raise Fail("after a run the stored objective values or Jacobians are not those of the stored points")
            if p.n_ieq_constr and not np.allclose(st.G[i], p.ieq_constraint(st.primal[i])):
                raise Fail("after a run the stored constraint values are not those of the stored points")
        return (N, opt.iter_count)

    k = 6 if ctx.thorough else 1
    ctx.scenario("history", history, 700 * k)
    ctx.scenario("single", single, 200 * k)
    ctx.scenario("no_derivs", no_derivs, 100 * k)
    ctx.scenario("runs", runs, 6 * k)
