"""P08: backtracking line searches: acceptance rule, trial limit, no side effects."""
import numpy as np
from copy import deepcopy
from pyvc.check import Fail, Skip
from .p05 import toy
from .p07 import build, Prob


def snapshot(o):
    st = o.state
    d = {k: deepcopy(getattr(st, k)) for k in ("X", "Y", "J", "cstr_value", "active_indices", "cstr_grad", "cstr_hess") if hasattr(st, k)}
    d["ref"] = np.array(o.ref.reference_set, copy=True)
    d["re_match"] = o.ref.re_match
    d["medoids"] = {k: (None if v is None else np.array(v, copy=True)) for k, v in o.ref._medoids.items()} if hasattr(o.ref, "_medoids") else {}
    d["medoid_index"] = [tuple(t) for t in o.ref._medoids_idx] if hasattr(o.ref, "_medoids_idx") else []
    return d


def same(a, b):
    if isinstance(a, dict):
        return all(same(a[k], b.get(k)) for k in a)
    if a is None or b is None:
        return a is b
    return np.array_equal(np.asarray(a, dtype=object) if isinstance(a, list) else a, np.asarray(b, dtype=object) if isinstance(b, list) else b)


def merit_sequence(rng, K):
    """relative merit phi_k / phi_0 at trial k as a function of the step size; (kind, value(s))"""
    out = []
    for _ in range(K + 2):
        kind = str(rng.choice(["up", "same", "tiny", "nan?"], p=[.5, .2, .25, .05]))
        if kind == "up":
            c = 1 + rng.rand() * 10 ** rng.uniform(-6, 2)
            out.append(("up", lambda s, c=c: c))
        elif kind == "same":
            out.append(("same", lambda s: 1.0))
        elif kind == "tiny":
            out.append(("tiny", lambda s: 1 - 1e-8 * s))      # below any sufficient-decrease constant used
        else:
            c = 1e12
            out.append(("huge", lambda s, c=c: c))
    if rng.rand() < .75:
        k = int(rng.randint(0, K + 1))
        c = rng.choice([.5, .1, .01])
        out[k] = ("accept", lambda s, c=c: 1 - c * min(s, 1.0))
    return out


def judge(trials, kinds, result, smax, K, lo, hi, what, **d):
    """trials: step sizes evaluated"""
    d = dict(d, trials=trials, kinds=kinds, result=result, max_step=smax)
    tol = 1e-9
    if len(trials) > K:
        raise Fail(f"{what}: the merit function was evaluated {len(trials)} times, more than {K}", **d)
    if not trials:
        raise Fail(f"{what}: no trial step was evaluated", **d)
    if abs(trials[0] - smax) > tol * smax:
        raise Fail(f"{what}: the first trial step is not the given maximum", **d)
    for a, b in zip(trials, trials[1:]):
        if not (b > 0 and lo * a * (1 - tol) <= b <= hi * a * (1 + tol)):
            raise Fail(f"{what}: a trial step does not shrink by a factor within [{lo}, {hi}]", **d)
    acc = [k for k, kd in enumerate(kinds[:len(trials)]) if kd == "accept"]
    if acc:
        if acc[0] != len(trials) - 1:
            raise Fail(f"{what}: the search went on after a trial step with sufficient decrease", **d)
        if abs(result - trials[-1]) > tol * smax:
            raise Fail(f"{what}: the returned step is not the accepted trial step", **d)
    else:
        if len(trials) < K:
            raise Fail(f"{what}: the search stopped after {len(trials)} trials although no trial step had sufficient decrease", **d)
        a = trials[-1]
        if not (lo * a * (1 - tol) <= result <= hi * a * (1 + tol)):
            raise Fail(f"{what}: after {K} failing trials the result is not one further reduction of the last trial", **d)
        if not 0 < result <= smax * hi ** K * (1 + tol):
            raise Fail(f"{what}: the result after {K} failing trials is not minimal", **d)


def prove(ctx):
    """acceptance rule of each search on every path of the real code, merit values arbitrary non-negative reals"""
    from pyvc import zsym as Z
    from . import zc
    import hvd.line_search as real
    from hvd.newton import DpN
    from hvd.mmd_newton import MMDNewton
    EPS = np.finfo(float).eps

    def accepted(phi, phi0, t, c1):
        d = phi0 - EPS
        return Z.Or(phi <= (1 - c1 * t) * phi0, Z.And(d <= 1e-8 + 1e-5 * EPS, -d <= 1e-8 + 1e-5 * EPS))

    def trial(z, ts, phis, phi0, smax, c1, K, lo, hi, who):
        """at the evaluation of the last trial in ts"""
        k = len(ts) - 1
        z.passed(len(ts) <= K, f"{who}: at most {K} evaluations of the merit function")
        if k == 0:
            z.ensure(ts[0] == smax, f"{who}: the first trial step is the given maximum")
            return
        z.ensure(Z.And(ts[k] >= lo * ts[k - 1], ts[k] <= hi * ts[k - 1], ts[k] > 0), f"{who}: trial {k + 1} shrinks by a factor within [{lo}, {hi}]")
        z.ensure(Z.Not(accepted(phis[k - 1], phi0, ts[k - 1], c1)), f"{who}: the search goes on only after a trial without sufficient decrease")

    def rule(z, ts, phis, phi0, smax, res, c1, K, lo, hi, who):
        """trials ts with merit values phis, result res"""
        z.passed(len(ts) >= 1, f"{who}: the merit function is evaluated")
        z.passed(not zc.Z._isnan(res) and Z.isfin(res), f"{who}: finite step size")
        a = accepted(phis[len(ts) - 1], phi0, ts[-1], c1)
        if len(ts) < K:
            z.ensure(Z.And(a, res == ts[-1]), f"{who}: the search stops at the first trial with sufficient decrease and returns it")
        else:
            z.ensure(Z.Or(Z.And(a, res == ts[-1]), Z.And(Z.Not(a), res >= lo * ts[-1], res <= hi * ts[-1], res > 0)),
                     f"{who}: the last trial is returned when accepted, else one more reduction of it")

    def recheck(ts, phis, phi0, smax, res, c1, K, lo, hi):
        """numeric version of the rule; message or None"""
        tol = 1e-7
        acc = lambda k, m: phis[k] <= (1 - c1 * ts[k]) * phi0 + m * (1e-12 + 1e-9 * phi0) or abs(phi0 - EPS) <= 1e-8 * (1 + m * .01)
        if not 1 <= len(ts) <= K:
            return f"{len(ts)} evaluations of the merit function"
        if abs(ts[0] - smax) > tol * smax:
            return "first trial step is not the maximum"
        for k in range(1, len(ts)):
            if not lo * ts[k - 1] * (1 - tol) <= ts[k] <= hi * ts[k - 1] * (1 + tol):
                return f"trial steps {ts[k - 1]} -> {ts[k]}"
            if acc(k - 1, -1):
                return f"trial {k} had sufficient decrease but the search went on"
        same = abs(res - ts[-1]) <= tol * smax
        if not np.isfinite(res) or res <= 0:
            return f"step size {res}"
        if acc(len(ts) - 1, -1) and not same:
            return "the accepted trial is not returned"
        if not acc(len(ts) - 1, 1):
            if len(ts) < K:
                return "the search stopped before a sufficient decrease"
            if not lo * ts[-1] * (1 - tol) <= res <= hi * ts[-1] * (1 + tol):
                return f"after {K} failures the result is {res}, last trial {ts[-1]}"

    # ---- the generic search
    ld = Z.ZLoader()
    L = ld.load("hvd.line_search")

    def generic(z):
        phi0 = z.real("phi0", 0)
        smax = z.real("smax")
        z.assume(smax > 0)
        z.assume(smax <= 1)
        phis = [z.real(f"phi{k}", 0) for k in range(10)]
        ts = []
        ld.np.linalg.norm = lambda x, *a, **k: phi0 if x is R else z.fresh("norm")
        R = np.zeros((2, 2))

        def f(s):
            ts.append(s)
            trial(z, ts, phis, phi0, smax, 1e-5, 6, .5, .5, "backtracking_line_search")
            return phis[len(ts) - 1]
        r = L.backtracking_line_search(R, f, max_step_size=smax)
        rule(z, ts, phis, phi0, smax, r, 1e-5, 6, .5, .5, "backtracking_line_search")

    def grep_(v):
        ts = []

        def f(s):
            ts.append(float(s))
            return v[f"phi{min(len(ts) - 1, 9)}"]
        r = float(real.backtracking_line_search(np.array([[v["phi0"]]]), f, max_step_size=v["smax"]))
        e = recheck(ts, [v[f"phi{k}"] for k in range(10)], v["phi0"], v["smax"], r, 1e-5, 6, .5, .5)
        return {"merit": v, "trials": ts, "result": r, "observed": e} if e else None
    ctx.obligation("generic search: acceptance rule", "hvd.line_search.backtracking_line_search", Z.prove(generic, grep_, budget=60))

    # ---- the searches inside the optimisers
    class St:
        """optimisation state under its contract (P04); the merit value at a trial point is arbitrary"""

        def __init__(self, X, own=False):
            self.X, self.own, self.n_jac_evals, self.n_var = X, own, 0, X.shape[1]

        @property
        def N(self):
            return len(self.X)

        def __deepcopy__(self, memo):
            return St(self.X.copy(), True)

        def __getitem__(self, i):
            raise Z.Unsupported("slice of the state")

        def update_one(self, x, k):
            if not self.own:
                raise Z.Broken("the line search updates the optimiser's own state")
            self.X[k] = x

        def update(self, X, **k):
            if not self.own:
                raise Z.Broken("the line search updates the optimiser's own state")
            self.X = np.asarray(X).copy()

    def lim(smax):
        m = smax[0]
        for s in smax[1:]:
            m = Z.zmin(m, s)
        return m

    def inside(cls, meth, mod, N, K, c1, lo, hi, glob):
        ld = Z.ZLoader()
        M = ld.load(mod)
        np2 = ld.np
        np2.__dict__.update(sqrt=lambda x: zc.Wild(), isnan=zc.isnan, clip=zc.clip(np2))

        def body(z):
            X = np.empty((N, 2), dtype=object)
            step = np.empty((N, 2), dtype=object)
            for i in range(N):
                X[i, 0], X[i, 1] = z.real(f"x{i}"), z.real(f"y{i}")
                step[i, 0], step[i, 1] = 1.0, z.real(f"d{i}")
            smax = np.array([z.real(f"smax{i}", 0, 1) for i in range(N)], dtype=object)
            for s in smax:
                z.assume(s > 0)
            phi0 = [z.real(f"n{i}", 0) for i in range(1 if glob else N)]
            phis = [[z.real(f"phi{i}_{k}", 0) for k in range(K + 1)] for i in range(1 if glob else N)]
            Rm = np.arange(2. * N).reshape(N, 2)
            trials = [[] for _ in phi0]
            ref = zc.obj(type("Ref", (), {}), re_match=True)
            st = St(X.copy())

            class Tok:
                def __init__(self, v): self.v = v

            def norm(x, *a, **k):
                if isinstance(x, Tok):
                    return x.v
                if isinstance(x, np.ndarray) and x.dtype.kind == "f":
                    return phi0[0] if glob else phi0[int(x[0]) // 2]
                raise Z.Unsupported("norm of an unknown array")
            np2.linalg.norm = norm

            def compute_R(state, grad=None):
                if state is st or not isinstance(state, St):
                    raise Z.Broken("the merit is not evaluated on a copy of the state")
                if ref.re_match:
                    raise Z.Broken("the trial evaluation may re-match the reference set")
                D = state.X - X
                moved = [i for i in range(N) if not all(Z.z3.is_rational_value(w) and w.as_fraction() == 0 for w in (Z.z3.simplify(Z.toz(t)) for t in D[i]))]
                i = 0 if glob else (moved[0] if moved else None)
                z.passed(glob or len(moved) == 1, f"a trial of one point moves exactly that point, moved {moved}")
                a = Z.Sym(Z.z3.simplify(Z.toz(D[i][0])))
                for q in range(N) if glob else [i]:
                    z.ensure(Z.And(D[q][0] == a, D[q][1] == a * step[q, 1]), "the trial point is the current point plus the step size times the step")
                trials[i].append(a)
                trial(z, trials[i], phis[i], phi0[i], lim(smax) if glob else smax[i], c1, K, lo, hi, f"{meth}, point {i}")
                v = Tok(phis[i][len(trials[i]) - 1])
                return (v if glob else [v if q == i else None for q in range(N)]), None, None
            o = zc.obj(getattr(M, cls), N=N, dim_p=2, state=st, ref=ref, _compute_R=compute_R, logger=zc.Quiet())
            # the second and later points accept their first trial (the loop body is the same for every point)
            for i in range(1, len(phi0)):
                z.assume(phis[i][0] <= (1 - c1 * smax[i]) * phi0[i])
            r = getattr(o, meth)(step, Rm, smax.copy())
            z.passed(o.state is st and all(a is b for a, b in zip(st.X.ravel(), X.ravel())), "the state is left as it was")
            z.passed(ref.re_match is True, "the reference set matches again afterwards")
            if glob:
                rule(z, trials[0], phis[0], phi0[0], lim(smax), zc.scal(r), c1, K, lo, hi, meth)
            else:
                r = np.asarray(r, dtype=object).ravel()
                z.passed(len(r) == N, "one step size per point")
                for i in range(N):
                    rule(z, trials[i], phis[i], phi0[i], smax[i], zc.scal(r[i]), c1, K, lo, hi, f"{meth}, point {i}")
        return body
    zc.NANS = None if ctx.thorough else 1
    for cls, meth, mod, K, c1, lo, hi, glob, Ns in (("MMDNewton", "_backtracking_line_search_global", "hvd.mmd_newton", 6, 1e-6, .5, .5, True, (1, 2)),
                                                  ("DpN", "_backtracking_line_search", "hvd.newton", 8, 1e-4, .4, .6, False, (1, 2)),
                                                  ("MMDNewton", "_backtracking_line_search_individual", "hvd.mmd_newton", 6, 1e-4, .4, .6, False, (1, 2))):
        for N in Ns:
            ctx.obligation(f"{cls}.{meth}, {N} point(s)", f"{mod}.{cls}.{meth}", Z.prove(inside(cls, meth, mod, N, K, c1, lo, hi, glob), soft=True, budget=400 if ctx.thorough else 90),
                           bounded=f"{N} points, two variables, first step component 1{'' if ctx.thorough else ', at most one interpolation gives NaN'}; merit values, steps and points arbitrary reals")
    ctx.trusted |= {"State (contract of P04)", "deepcopy"}
    ctx.assumptions.append("P08: the square root in the cubic interpolation is an arbitrary float (possibly NaN); step limits lie in (0, 1]")


def concrete(ctx):
    from hvd.line_search import backtracking_line_search
    from hvd.newton import DpN, HVN
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet

    def generic(rng):
        K = 6
        seq = merit_sequence(rng, K)
        smax = float(rng.choice([1.0, .5, .013, 1e-4]))
        R = rng.randn(int(rng.randint(1, 4)), 3) * 10 ** rng.uniform(-3, 3)
        R0 = R.copy()
        n0 = np.linalg.norm(R)
        trials = []

        def phi(s):
            trials.append(float(s))
            return n0 * seq[len(trials) - 1][1](float(s))
        r = float(backtracking_line_search(R, phi, max_step_size=smax))
        kinds = [k for k, _ in seq]
        judge(trials, kinds, r, smax, K, .5, .5, "backtracking_line_search")
        if not np.array_equal(R, R0):
            raise Fail("backtracking_line_search modified the residual")
        return (smax, len(trials), kinds[:len(trials)][-1])

    def dims(o):
        return o.state.X.shape

    def dpn(rng, real):
        n, m, N, conf, p, X, L = build(rng, "DpN")
        Y = np.array([p.f(x) for x in X])
        Rf = np.concatenate([Y + rng.randn(N, m) * .4 - .3, Y[rng.randint(0, N, 3)] + rng.randn(3, m) * .4])
        typ = str(rng.choice(["deltap", "gd", "igd"]))
        o = DpN(dim=n, n_obj=m, ref=ReferenceSet(Rf), N=N, x0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, type=typ, verbose=False, **p.kw())
        o.state.update(np.c_[X, L])
        o._compute_indicator_value(o.state.Y)
        X0 = o.state.X.copy()
        step = rng.randn(*X0.shape) * (3.0 if real else 1.0)
        smax = rng.choice([1.0, .4, .05], N).astype(float)
        if not real:
            K = 8
            R = rng.randn(*X0.shape)
            seqs = [merit_sequence(rng, K) for _ in range(N)]
            trials = [[] for _ in range(N)]
            norm0 = np.linalg.norm(R, axis=1)

            def fake(state, grad=None):
                D = state.X - X0
                ch = [i for i in range(N) if np.any(D[i] != 0)]
                if len(ch) != 1:
                    raise Fail(f"a trial of one point's step moved {len(ch)} points")
                i = ch[0]
                s = float(D[i] @ step[i] / (step[i] @ step[i]))
                if not np.allclose(D[i], s * step[i], atol=1e-9):
                    raise Fail("a trial point is not on the search line")
                k = len(trials[i])
                trials[i].append(s)
                if k >= len(seqs[i]):
                    raise Fail("the merit function is evaluated more often than the trial limit", trials=trials[i])
                v = norm0[i] * seqs[i][k][1](s)
                out = [np.zeros(3) for _ in range(N)]
                for q in range(N):
                    out[q] = np.array([1e9, 0, 0])
                out[i] = np.array([v, 0, 0])
                return out, None, None
            o._compute_R = fake
            b = snapshot(o)
            r = np.asarray(o._backtracking_line_search(step.copy(), R.copy(), smax.copy())).ravel()
            if not any(trials):
                raise Skip("the line search does not go through _compute_R")
            for i in range(N):
                judge(trials[i], [k for k, _ in seqs[i]], float(r[i]), smax[i], K, .4, .6, f"DpN line search (point {i})")
        else:
            S, R = o._compute_netwon_step(o.state)
            step = S * rng.choice([1, -1, 20], (N, 1))
            b = snapshot(o)
            r = np.asarray(o._backtracking_line_search(step.copy(), R.copy(), smax.copy())).ravel()
            if np.any(r <= 0) or np.any(r > smax * (1 + 1e-12)):
                if not np.all(np.isclose(step, 0)):
                    raise Fail("DpN line search: step size outside (0, max]", r=r, smax=smax)
        a = snapshot(o)
        bad = [k for k in b if not same(b[k], a[k])]
        if bad:
            raise Fail(f"DpN line search changed the optimiser's state or reference set: {bad}", before={k: b[k] for k in bad}, after={k: a[k] for k in bad})
        return (typ, conf, N, real)

    def zero(rng):
        n, m, N, conf, p, X, L = build(rng, "DpN")
        o = DpN(dim=n, n_obj=m, ref=ReferenceSet(rng.randn(N + 2, m)), N=N, x0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, verbose=False, **p.kw())
        r = np.asarray(o._backtracking_line_search(np.zeros((N, o.dim)), rng.randn(N, o.dim), np.ones(N))).ravel()
        if r.shape != (N,) or np.any(r <= 0) or np.any(r > 1):
            raise Fail("DpN line search with a vanishing step: step size outside (0, 1]", r=r)
        return (N, conf)

    def mmd(rng, real, individual):
        n, m, N, conf, p, X, L = build(rng, "MMD", 3)
        Y = np.array([p.f(x) for x in X])
        Rf = Y + rng.randn(N, m) * .4 - .3
        o = MMDNewton(n_var=n, n_obj=m, ref=ReferenceSet(Rf), N=N, X0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, verbose=False, **p.kw(hess=False))
        o.state.update(np.c_[X, L])
        o.ref.match(o.state.Y)
        X0 = o.state.X.copy()
        K = 6
        smax = rng.choice([1.0, .4, .05], N).astype(float)
        step = rng.randn(*X0.shape)
        if rng.rand() < .3 and N % 2:
            step[0, 0] = 0.0
        R = rng.randn(*X0.shape)
        name = "MMD line search" + (" (individual)" if individual else " (global)")
        if individual and not hasattr(o, "_backtracking_line_search_individual"):
            raise Skip("no individual line search")
        ls = o._backtracking_line_search_individual if individual else o._backtracking_line_search_global
        if real:
            o._compute_indicator_value(o.state.Y)
            S, R = o._compute_netwon_step()
            step = S * 20
            b = snapshot(o)
            r = np.asarray(ls(step.copy(), R.copy(), smax.copy())).ravel()
            if np.any(r <= 0) or np.any(r > 1):
                raise Fail(name + ": step size outside (0, max]", r=r)
        else:
            seqs = [merit_sequence(rng, K) for _ in range(N)]
            trials = [[] for _ in range(N)]
            norm0 = np.linalg.norm(R, axis=1) if individual else [np.linalg.norm(R)]

            def fake(state, grad=None):
                D = state.X - X0
                if individual:
                    ch = [i for i in range(N) if np.any(D[i] != 0)]
                    if len(ch) != 1:
                        raise Fail(f"a trial of one point's step moved {len(ch)} points")
                    i = ch[0]
                    s = float(D[i] @ step[i] / (step[i] @ step[i]))
                    ok = np.allclose(D[i], s * step[i], atol=1e-9)
                else:
                    i = 0
                    s = float((D * step).sum() / (step ** 2).sum())
                    ok = np.allclose(D, s * step, atol=1e-9)
                if not ok:
                    raise Fail(name + ": a trial point is not on the search line")
                k = len(trials[i])
                trials[i].append(s)
                if k >= len(seqs[i]):
                    raise Fail("the merit function is evaluated more often than the trial limit", trials=trials[i])
                v = norm0[i] * seqs[i][k][1](s)
                if not individual:
                    out = np.zeros((N, 3))
                    out[0, 0] = v
                else:
                    out = np.full((N, 3), 1e9)
                    out[i] = [v, 0, 0]
                return out, None, None
            o._compute_R = fake
            b = snapshot(o)
            r = np.asarray(ls(step.copy(), R.copy(), smax.copy())).ravel()
            if not any(trials):
                raise Skip("the line search does not go through _compute_R")
            if individual:
                for i in range(N):
                    judge(trials[i], [k for k, _ in seqs[i]], float(r[i]), smax[i], K, .4, .6, name + f" point {i}")
            else:
                judge(trials[0], [k for k, _ in seqs[0]], float(r[0]), float(smax.min()), K, .5, .5, name)
        a = snapshot(o)
        bad = [k for k in b if not same(b[k], a[k])]
        if bad:
            raise Fail(f"{name} changed the optimiser's state or reference set: {bad}", before={k: b[k] for k in bad}, after={k: a[k] for k in bad})
        return (conf, N, real, individual)

    def hvn(rng):
        """HVN: evaluating the merit function leaves state and the caller's arrays alone"""
        n, m, N, conf, p, X, L = build(rng, "HVN")
        Y = np.array([p.f(x) for x in X])
        o = HVN(n_var=n, n_obj=m, ref=Y.max(0) + 2, N=N, X0=X, xl=np.zeros(n), xu=np.ones(n), max_iters=1, verbose=False, **p.kw())
        o.state.update(np.c_[X, L])
        st = o.state
        keys = ("X", "Y", "J", "cstr_value", "active_indices", "cstr_grad", "cstr_hess")
        b = {k: deepcopy(getattr(st, k)) for k in keys}
        step, R = o._compute_netwon_step(st)
        s0 = step.copy()
        f = o._get_phi_func(st, step)
        v0 = f(0.0)
        if abs(v0 - np.linalg.norm(R)) > 1e-8 * (1 + abs(v0)):
            raise Fail("HVN merit at step zero is not the norm of the residual", got=v0, expected=np.linalg.norm(R))
        for s in (1.0, .5, .25):
            v = f(s)
            q = deepcopy(st)
            q.update(b["X"] + s * s0)
            e = np.linalg.norm(o._compute_R(q)[0])
            if abs(v - e) > 1e-8 * (1 + e):
                raise Fail("HVN merit is not the residual norm at the trial point", step=s, got=v, expected=e)
        if not all(same(b[k], getattr(st, k)) for k in keys) or not np.array_equal(s0, step):
            raise Fail("evaluating the HVN merit function changed the state or the step")
        return (conf, N, n, m)
    k = 6 if ctx.thorough else 1
    ctx.scenario("generic", generic, 600 * k)
    ctx.scenario("dpn", lambda r: dpn(r, False), 150 * k)
    ctx.scenario("dpn_real", lambda r: dpn(r, True), 80 * k)
    ctx.scenario("zero", zero, 10 * k)
    ctx.scenario("mmd_global", lambda r: mmd(r, False, False), 60 * k)
    ctx.scenario("mmd_individual", lambda r: mmd(r, False, True), 40 * k)
    ctx.scenario("mmd_real", lambda r: mmd(r, True, False), 4 * k)
    ctx.scenario("hvn", hvn, 25 * k)
