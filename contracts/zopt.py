"""Mode Z world of the Newton optimisers: real constructors and methods, callbacks / indicators / solvers by contract."""
import types
import numpy as np
from pyvc import zsym as Z
from . import zc

z3 = Z.z3


class BArr(zc.Arr):
    """array of terms whose comparisons are decided (the path forks)"""
    def _cmp(self, o, f):
        r = f(np.asarray(self, dtype=object).view(np.ndarray), np.asarray(o))
        return Z.masked(Z.vec(bool)(r)) if isinstance(r, np.ndarray) else bool(r)

    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)


def barr(x):
    return np.array(x, dtype=object).view(BArr)


def same(a, b):
    """equal numbers, decided by polynomial normal form"""
    x, y = Z.real2(Z.toz(a), Z.toz(b))
    d = z3.simplify(x - y, som=True)
    return z3.is_rational_value(d) and d.as_fraction() == 0 or z3.is_int_value(d) and d.as_long() == 0


class Callbacks:
    """smooth problem known only through its contract: values and derivatives are functions of the decision vector"""
    def __init__(self, n, m, ne, ng):
        self.n, self.m, self.ne, self.ng = n, m, ne, ng
        self.calls = 0

    def _a(self, nm, x, *shape):
        if np.shape(x) != (self.n,):
            raise Z.Broken(f"a callback received an array of shape {np.shape(x)}; decision vectors have {self.n} variables", Z.CUR.values_now())
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = Z.CUR.uf(nm + "_" + "_".join(map(str, ix)), *x)
        return a.view(BArr)

    def sym2(self, nm, x, q):
        a = self._a(nm, x, q, self.n, self.n)
        for k in range(self.n):
            for l in range(k):
                a[:, k, l] = a[:, l, k]
        return a

    def f(self, x): return self._a("f", x, self.m)
    def j(self, x): return self._a("j", x, self.m, self.n)
    def hf(self, x): return self.sym2("hf", x, self.m)
    def h(self, x): return self._a("h", x, self.ne)
    def h_jac(self, x): return self._a("hj", x, self.ne, self.n)
    def h_hess(self, x): return self.sym2("hh", x, self.ne)
    def g(self, x): return self._a("g", x, self.ng)
    def g_jac(self, x): return self._a("gj", x, self.ng, self.n)
    def g_hess(self, x): return self.sym2("gh", x, self.ng)

    def kw(self, hess=True):
        d = dict(func=self.f, jac=self.j, hessian=self.hf)
        if self.ne:
            d.update(h=self.h, h_jac=self.h_jac)
            if hess:
                d.update(h_hessian=self.h_hess)
        if self.ng:
            d.update(g=self.g, g_jac=self.g_jac)
            if hess:
                d.update(g_hessian=self.g_hess)
        return d


def key(X):
    return "|".join(str(z3.simplify(Z.toz(v)).get_id()) for v in np.asarray(X, dtype=object).ravel())


class Indicator:
    """contract of an indicator: value, gradient and Hessian are functions of the set of points.
    block: Hessian as one block per point (Delta_p) or as one matrix"""
    block = False
    name = "ind"

    def __init__(self, *a, **k):
        self.args = a
        self.beta = k.get("beta")
        self.reg = {}
        self.keep = []

    def _id(self, X):
        k = key(X)
        if k not in self.reg:
            self.reg[k] = len(self.reg)
            self.keep.append([z3.simplify(Z.toz(v)) for v in np.asarray(X, dtype=object).ravel()])   # keeps the ids alive
        return self.reg[k]

    def derivs(self, X):
        N, n = np.shape(X)
        i = self._id(X)
        z = Z.CUR
        g = z.array(f"{self.name}{i}_g", (N, n))
        if self.block:
            H = np.empty((N, n, n), dtype=object)
            for r in range(N):
                for a in range(n):
                    for b in range(a + 1):
                        H[r, a, b] = H[r, b, a] = z.real(f"{self.name}{i}_H_{r}_{a}_{b}")
        else:
            H = np.empty((N * n, N * n), dtype=object)
            for a in range(N * n):
                for b in range(a + 1):
                    H[a, b] = H[b, a] = z.real(f"{self.name}{i}_H_{a}_{b}")
        return g, H

    def compute_derivatives(self, X, Y=None, compute_hessian=True, Jacobian=None, YdX=None, jacobian=None, **k):
        J = next((v for v in (Jacobian, YdX, jacobian) if v is not None), None)
        X = np.asarray(X, dtype=object)
        self.check(X, Y, J)
        g, H = self.derivs(X)
        return (g, H) if compute_hessian else g

    def check(self, X, Y, J):
        cb = self.cb
        for nm, V, f in (("objective values", Y, cb.f), ("Jacobians", J, cb.j)):
            if V is None:
                continue
            for i in range(len(X)):
                E = f(X[i])
                if np.shape(V[i]) != E.shape or not all(same(a, b) for a, b in zip(np.ravel(V[i]), np.ravel(E))):
                    raise Z.Broken(f"the indicator is given {nm} that are not those of its points", Z.CUR.values_now())

    def compute(self, X=None, Y=None, **k):
        V = X if Y is None else Y
        z = Z.CUR
        return z.uf(f"{self.name}_value{len(V)}", *np.asarray(V, dtype=object).ravel())


class Solver:
    """contracts of the linear solvers: x with A x = b, or an error for a singular matrix; lstsq: A^T (A x - b) = 0"""
    def __init__(self, singular=False):
        self.singular, self.log = singular, []

    def solve(self, A, b, *a, **k):
        A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
        if np.shape(A) != (len(b), len(b)):
            raise Z.Broken(f"linear system of shape {np.shape(A)} with a right-hand side of shape {np.shape(b)}", Z.CUR.values_now())
        if self.singular:
            raise np.linalg.LinAlgError("singular")
        return self.new(A, b, "solve")

    def new(self, A, b, kind):
        z = Z.CUR
        x = np.empty(b.shape, dtype=object)
        for ix in np.ndindex(*b.shape):
            x[ix] = z.fresh("x")
        self.log.append((kind, A, b.ravel(), x.ravel()))
        return x

    def spsolve(self, A, b, **k):
        return np.ravel(self.solve(A, np.asarray(b).reshape(-1, 1)))

    def lstsq(self, A, b, rcond=None):
        A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
        return (self.new(A, b, "lstsq"), None, None, None)

    def assume(self, used):
        """the contract as an assumption, for results that are not literally solutions of the expected system"""
        z = Z.CUR
        for kind, A, b, x in used:
            r = [sum((A[i, j] * x[j] for j in range(len(x))), -b[i]) for i in range(len(b))]
            if kind == "lstsq":
                r = [sum((A[i, j] * r[i] for i in range(len(b))), 0) for j in range(len(x))]
            for e in r:
                z.add(Z.toz(e) == 0)


def block_diag(*bs):
    bs = [np.atleast_2d(np.asarray(b, dtype=object)) for b in bs]
    r = np.empty((sum(b.shape[0] for b in bs), sum(b.shape[1] for b in bs)), dtype=object)
    r[...] = 0.0
    i = j = 0
    for b in bs:
        r[i:i + b.shape[0], j:j + b.shape[1]] = b
        i, j = i + b.shape[0], j + b.shape[1]
    return r


def loader(cb, sol, cdist=None, loops=None, **mods):
    def mk(nm, block):
        return type(nm, (Indicator,), {"block": block, "name": nm.lower(), "cb": cb})
    NS = types.SimpleNamespace
    import scipy.spatial.distance as ssd
    ld = Z.ZLoader(loops=loops, libs={"scipy.linalg": NS(solve=sol.solve, block_diag=block_diag, cholesky=None, qr=None, lstsq=sol.lstsq),
                         "scipy.sparse": NS(csc_matrix=lambda a: a, csr_matrix=lambda a: a),
                         "scipy.sparse.linalg": NS(spsolve=sol.spsolve),
                         "scipy.spatial.distance": NS(cdist=cdist or ssd.cdist)})
    ld.np.linalg.over["lstsq"] = sol.lstsq
    ld.np.linalg.over["solve"] = sol.solve

    def stub(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        ld.mods[name] = m
    stub("hvd.hypervolume_derivatives", HypervolumeDerivatives=mk("HV", False))
    stub("hvd.delta_p", GenerationalDistance=mk("GD", True), InvertedGenerationalDistance=mk("IGD", True))
    stub("hvd.mmd", MMD=mk("MMD", False), MMDMatching=mk("MMDM", False))
    stub("hvd.reference_set", ReferenceSet=Ref)
    for k, v in mods.items():
        stub("hvd." + k, **v)
    return ld


class Ref:
    """reference set as the optimisers see it: current targets; shift moves the requested ones"""
    def __init__(self, z, N, m):
        self.z, self.reference_set, self.k = z, z.array("ref", (N, m)), 0
        self.re_match = True

    def match(self, Y): pass

    def shift(self, c=.05, indices=None):
        for i in (range(len(self.reference_set)) if indices is None else indices):
            self.k += 1
            for a in range(self.reference_set.shape[1]):
                self.reference_set[i, a] = self.z.fresh("target")


def system(cb, X, L, grad, Hess, curvature=True):
    """the stacked optimality system: residual matrix, Jacobian of the packed residual, packed residual, activity"""
    N, n = np.shape(X)
    ne, ng = cb.ne, cb.ng
    q = ne + ng
    R = np.empty((N, n + q), dtype=object)
    R[...] = 0
    masks = np.zeros((N, q), bool)
    Jc, vals = [], []
    M = np.empty((N * n, N * n), dtype=object)
    for a in range(N * n):
        for b in range(N * n):
            M[a, b] = Hess[a][b]
    for i in range(N):
        v = list(cb.h(X[i])) + list(cb.g(X[i]))
        G = list(cb.h_jac(X[i])) + list(cb.g_jac(X[i]))
        C = list(cb.h_hess(X[i])) + list(cb.g_hess(X[i]))
        act = [True] * ne + [bool(v[ne + k] >= -1e-4) for k in range(ng)]
        masks[i] = act
        on = [c for c in range(q) if act[c]]
        for k in range(n):
            R[i, k] = sum((L[i, c] * G[c][k] for c in on), grad[i][k])
        for c in on:
            R[i, n + c] = v[c]
        Jc.append([G[c] for c in on])
        vals.append([v[c] for c in on])
        if curvature:
            for a in range(n):
                for b in range(n):
                    M[i * n + a, i * n + b] = sum((L[i, c] * C[c][a, b] for c in on), M[i * n + a, i * n + b])
    rows = [(i, r) for i in range(N) for r in range(len(Jc[i]))]
    T = N * n + len(rows)
    D = np.empty((T, T), dtype=object)
    D[...] = 0
    D[:N * n, :N * n] = M
    for a, (i, r) in enumerate(rows):
        for k in range(n):
            D[N * n + a, i * n + k] = D[i * n + k, N * n + a] = Jc[i][r][k]
    rv = [R[i, k] for i in range(N) for k in range(n)] + [x for v in vals for x in v]
    return R, D, rv, masks


def blocks(Hs):
    N, n = Hs.shape[:2]
    r = np.empty((N * n, N * n), dtype=object)
    r[...] = 0
    for i in range(N):
        r[i * n:(i + 1) * n, i * n:(i + 1) * n] = Hs[i]
    return r


def check_step(z, sol, S, R, exp, n, what, groups=None):
    """S solves D s = -r in the packed variables (least squares when the solver reports a singular system).
    groups: index sets of packed variables of independent subsystems"""
    Re, D, rv, masks = exp
    N, w = Re.shape
    S, R = np.asarray(S, dtype=object), np.asarray(R, dtype=object)
    z.passed(S.shape == Re.shape, f"{what}: one step per point and variable, got {S.shape}")
    z.passed(R.shape == Re.shape, f"{what}: one residual row per point, got {R.shape}")
    for i in range(N):
        for k in range(w):
            z.ensure_eq(R[i, k], Re[i, k], f"{what}: residual of point {i}, component {k}")
            if k >= n and not masks[i, k - n]:
                z.ensure_eq(S[i, k], 0, f"{what}: the multiplier of an inactive constraint gets no step")
    s = [S[i, k] for i in range(N) for k in range(n)] + [S[i, n + c] for i in range(N) for c in range(w - n) if masks[i, c]]
    T = len(s)
    used = []
    ids = {}
    for u in sol.log:
        for x in u[3]:
            ids[x.e.get_id()] = u
    # which solver results occur in the step
    for v in s:
        for t in vars_of(Z.toz(v)):
            u = ids.get(t.get_id())
            if u is not None and all(u is not w_ for w_ in used):
                used.append(u)
    kinds = {u[0] for u in used}
    # quick way: the solver was given exactly the expected system (or an independent part of it)
    ok = bool(used)
    rest = set(range(T))
    for kind, A, b, x in used:
        pos = []
        sg = None
        for x_ in x:
            p = [t for t in range(T) if same(s[t], -x_)]
            q_ = [t for t in range(T) if same(s[t], x_)]
            if len(p) == 1 and sg in (None, -1):
                sg = -1
                pos.append(p[0])
            elif len(q_) == 1 and sg in (None, 1):
                sg = 1
                pos.append(q_[0])
            else:
                ok = False
                break
        if not ok:
            break
        rest -= set(pos)
        # rows of the solver's system may come in any order of the unknowns: try the order of the unknowns
        for a_, t in enumerate(pos):
            row = {pos[c]: A[a_, c] for c in range(len(pos))}
            if not all(same(D[t, c], row.get(c, 0)) for c in range(T)) or not same(b[a_], rv[t] if sg == -1 else -rv[t]):
                ok = False
                break
        if not ok:
            break
    if ok and not rest:
        z.passed(True, what)
        return masks
    sol.assume(used)
    res = [sum((D[i, j] * s[j] for j in range(T)), rv[i]) for i in range(T)]
    if "lstsq" in kinds:
        res = [sum((D[i, j] * res[i] for i in range(T)), 0) for j in range(T)]
    for e in res:
        z.ensure_eq(e, 0, f"{what}: Jacobian of the residual times step is minus the residual" if "lstsq" not in kinds else
                    f"{what}: the step is a least-squares solution of a singular system")
    return masks


def vars_of(e):
    seen, out, st = set(), [], [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.num_args() == 0 and not z3.is_rational_value(t) and not z3.is_int_value(t):
            out.append(t)
        st.extend(t.children())
    return out


def optimiser(z, kind, N, n, ne, ng, singular=False, **mods):
    m = 2
    np.random.seed(0)
    cb = Callbacks(n, m, ne, ng)
    sol = Solver(singular)
    ld = loader(cb, sol, **mods)
    kw = dict(N=N, xl=np.zeros(n), xu=np.ones(n), max_iters=5, verbose=False)
    X0 = np.array([[(1 + i + N * k) / (N * n + 2) for k in range(n)] for i in range(N)])
    if kind == "HVN":
        o = ld.load("hvd.newton").HVN(n_var=n, n_obj=m, ref=np.ones(m), X0=X0, **kw, **cb.kw())
    elif kind == "Lara":
        o = ld.load("hvd.gradient_based").Lara(n_var=n, n_obj=m, X0=X0, func=cb.f, jac=cb.j, **kw)
    elif kind.startswith("DpN"):
        o = ld.load("hvd.newton").DpN(dim=n, n_obj=m, ref=Ref(z, N, m), x0=X0, type=kind[4:], **kw, **cb.kw())
    else:
        o = ld.load("hvd.mmd_newton").MMDNewton(n_var=n, n_obj=m, ref=Ref(z, N, m), X0=X0, matching=kind.endswith("m"), **kw, **cb.kw(hess=False))
    o.logger = zc.Quiet()
    o.ld_ = ld
    X = np.array([[z.real(f"x_{i}_{k}") for k in range(n)] for i in range(N)], dtype=object)
    L = np.array([[z.real(f"l_{i}_{c}") for c in range(ne + ng)] for i in range(N)], dtype=object).reshape(N, ne + ng)
    o.state.update(np.concatenate([X, L], axis=1).view(BArr))
    return o, cb, sol, X, L



def distances(z, N, name="D"):
    """pairwise distances of N points: symmetric, non-negative, zero on the diagonal"""
    D = np.empty((N, N), dtype=object)
    for i in range(N):
        D[i, i] = 0.0
        for j in range(i):
            D[i, j] = D[j, i] = z.real(f"{name}_{i}_{j}", 0)
    return D


def uniqueness(z, D, kept, N, what):
    """kept: one representative of each group of coinciding points (distance at most 1e-8)"""
    near = lambda i, j: D[i, j] <= 1e-8
    z.passed(len(set(kept)) == len(kept) and all(0 <= k < N for k in kept) and len(kept) > 0, f"{what}: the kept points are points of the set")
    for a in kept:
        for b in kept:
            if a < b:
                z.ensure(Z.Not(near(a, b)), f"{what}: kept points do not coincide")
    for j in range(N):
        if j not in kept:
            z.ensure(Z.Or(*[near(j, a) for a in kept]), f"{what}: a removed point coincides with a kept one")


def hvn_iterate(N, ne, ng, layers, frame, dups=False):
    """HVN.iterate with the step, the line search by contract"""
    def body(z):
        D = distances(z, N)
        n = 1
        calls, searches = [], []

        def cdist(A, B, *a, **k):
            return D.copy()

        def bls(R, f, max_step_size=1):
            s = z.fresh("step_size")
            z.assume(Z.And(s > 0, s <= max_step_size))
            searches.append((R, s, max_step_size))
            return s
        o, cb, sol, X, L = optimiser(z, "HVN", N, n, ne, ng, cdist=cdist, line_search=dict(backtracking_line_search=bls))
        if not dups:
            for i in range(N):
                for j in range(i):
                    z.assume(D[i, j] > 1e-8)
        X0 = np.concatenate([X, L], axis=1)
        w = n + ne + ng

        def step(st):
            q = len(calls)
            S = np.array([[z.fresh("step") for _ in range(w)] for _ in range(len(st.X))], dtype=object).reshape(-1, w)
            R = np.array([[z.fresh("R") for _ in range(w)] for _ in range(len(st.X))], dtype=object).reshape(-1, w)
            calls.append((st, np.array(st.X, dtype=object), S.copy(), R.copy()))
            return S, R
        if not hasattr(type(o), "_compute_netwon_step"):
            raise Z.Unsupported("no method _compute_netwon_step")
        o._compute_netwon_step = step
        for nm in ("history_X", "history_Y", "history_indicator_value", "history_R_norm"):
            setattr(o, nm, ["old"])
        it = o.iter_count
        o.iterate()
        # which points were kept
        kept = []
        for st, Q, S, R in calls:
            for r in range(len(Q)):
                m = [i for i in range(N) if all(same(a, b) for a, b in zip(Q[r], X0[i]))]
                if len(m) != 1:
                    raise Z.Broken("a step is computed for a point that is not in the population", z.values_now())
                kept.append(m[0])
        z.passed(len(set(kept)) == len(kept), "every point belongs to one layer")
        if frame:
            uniqueness(z, D, kept, N, "iteration")
            K = sorted(kept)
            z.passed(o.N == len(K) and o.state.N == len(K) and np.shape(o.state.X) == (len(K), w), "the population has the kept points")
            z.passed(o.iter_count == it and not o.stop_dict and all(getattr(o, nm) == ["old"] for nm in ("history_X", "history_Y", "history_indicator_value", "history_R_norm")),
                     "an iteration leaves counters and histories alone")
            e = o.indicator.compute(Y=np.array([cb.f(X[i]) for i in K], dtype=object))
            z.ensure_eq(o.curr_indicator_value, e, "the indicator value is that of the set the iteration starts from")
            for r in range(len(K)):
                Y = cb.f(o.state.X[r, :n])
                for a, b in zip(o.state.Y[r], Y):
                    z.ensure_eq(a, b, "objective values belong to the new points")
        if not layers:
            return
        K = sorted(kept)
        z.passed(dups or K == list(range(N)), "every point receives a step")
        z.passed(np.shape(o.step) == (len(K), w) and np.shape(o.R) == (len(K), w) and np.size(o.step_size) == len(K), "one step, residual and step size per point")
        pos, layer = {}, {}
        for q, (st, Q, S, R) in enumerate(calls):
            for r in range(len(Q)):
                i = kept[sum(len(c[1]) for c in calls[:q]) + r]
                layer[i] = q
                pos[i] = (S[r], R[r], q)
        sz = np.ravel(o.step_size)
        for r, i in enumerate(K):
            S, R, q = pos[i]
            for c in range(w):
                z.ensure_eq(o.step[r, c], S[c], "the stored step is the step of the point's layer")
                z.ensure_eq(o.R[r, c], R[c], "the stored residual is that of the point's layer")
                z.ensure_eq(o.state.X[r, c], X0[i, c] + sz[r] * S[c], "new points are old points plus step size times step")
            z.ensure_eq(sz[r], searches[q][1], "the step size of a point is that of its layer")
        # layers: feasible points by domination rank, infeasible ones in the first layer
        feas = {}
        for i in K:
            x = X[i]
            c = [Z.And(v <= 1e-4, v >= -1e-4) for v in list(cb.h(x))] + [v < -1e-4 for v in list(cb.g(x))]
            feas[i] = z.branch(Z.And(*c).e) if c else True
        Yv = {i: cb.f(X[i]) for i in K}
        dom = lambda a, b: Z.And(*[p <= q for p, q in zip(Yv[a].tolist(), Yv[b].tolist())], Z.Or(*[p < q for p, q in zip(Yv[a].tolist(), Yv[b].tolist())]))
        F = [i for i in K if feas[i]]
        first = None
        # the layer objects may come in any order: number them by rank of their feasible members
        for i in F:
            for j in F:
                if i != j and layer[i] == layer[j]:
                    z.ensure(Z.Not(dom(i, j)), "points of one layer do not dominate each other")
        for i in F:
            for j in F:
                if i < j and layer[i] != layer[j]:
                    lo_, hi_ = (i, j) if layer[i] < layer[j] else (j, i)
                    z.ensure(Z.Not(dom(hi_, lo_)), "a later layer does not dominate an earlier one")
        used = sorted({layer[i] for i in F})
        for a, b in zip(used, used[1:]):
            for i in F:
                if layer[i] == b:
                    z.ensure(Z.Or(*[dom(j, i) for j in F if layer[j] == a]), "each point of a later layer is dominated by a point of the previous one")
        for i in K:
            if not feas[i]:
                z.passed(layer[i] == (used[0] if used else layer[K[0]]), "infeasible points join the first layer")
    return body
