"""P11: reference matching, shifts, shift direction."""
import itertools
import numpy as np
from pyvc.check import Fail, Skip


# ------------------------------------------------------------------ deductive layer
def prove(ctx):
    from pyvc import zsym as Z
    from . import zc
    from types import SimpleNamespace as NS
    RS = "hvd.reference_set.ReferenceSet."
    z3 = Z.z3

    def same(a, b):
        """the same term"""
        a, b = (x.e if isinstance(x, Z.Sym) else x for x in (a, b))
        return a.eq(b) if hasattr(a, "eq") and hasattr(b, "eq") else (not hasattr(a, "eq") and not hasattr(b, "eq") and a == b)

    def rowsame(u, v): return len(u) == len(v) and all(same(a, b) for a, b in zip(u, v))

    def dist(u, v):
        """Euclidean distance: a symmetric non-negative function of the two points"""
        z = Z.CUR
        u, v = sorted((list(u), list(v)), key=lambda w: [str(Z.toz(x)) for x in w])
        r = z.uf("dist", *u, *v)
        z.add(r.e >= 0)
        return r

    def cdist(A, B, metric="euclidean", **k):
        if metric != "euclidean" or k:
            raise Z.Unsupported("another metric")
        A, B = np.asarray(A), np.asarray(B)
        r = np.empty((len(A), len(B)), dtype=object)
        for i in range(len(A)):
            for j in range(len(B)):
                r[i, j] = dist(A[i], B[j])
        return r

    def hdorff(A, B, seed=0):
        """directed Hausdorff distance: an arbitrary non-negative function of the ordered pair of sets"""
        z = Z.CUR
        r = z.uf("hausdorff_%d_%d" % (len(A), len(B)), *np.asarray(A).ravel(), *np.asarray(B).ravel())
        z.add(r.e >= 0)
        return r, 0, 0

    def total(C, prs):
        t = 0
        for i, j in prs:
            t = t + C[i, j]
        return t

    def injections(r, c):
        if r <= c:
            return [list(enumerate(p)) for p in itertools.permutations(range(c), r)]
        return [sorted((p[j], j) for j in range(c)) for p in itertools.permutations(range(r), c)]

    def lsa(C, maximize=False):
        """contract: rows ascending, columns pairwise different, least total cost"""
        z = Z.CUR
        C = np.asarray(C)
        if maximize:
            C = -C
        cand = injections(*C.shape)
        k = 0
        while k + 1 < len(cand) and not z.branch(z3.Bool(z.name("assignment"))):
            k += 1
        for o in cand:
            if o is not cand[k]:
                z.assume(total(C, cand[k]) <= total(C, o))
        return np.array([i for i, j in cand[k]], int), np.array([j for i, j in cand[k]], int)

    class KM:
        """contract of k-medoids: k different rows of the data"""
        def __init__(self, n_clusters, **k): self.k = n_clusters

        def fit(self, X):
            z = Z.CUR
            idx = list(range(len(X)))
            out = []
            for _ in range(self.k):
                p = 0
                while p + 1 < len(idx) and not z.branch(z3.Bool(z.name("medoid"))):
                    p += 1
                out.append(idx.pop(p))
            self.medoid_indices_ = np.array(out, int)
            self.cluster_centers_ = np.asarray(X)[self.medoid_indices_]
            return self

    def libs(): return {"scipy.optimize": NS(linear_sum_assignment=lsa), "scipy.spatial.distance": NS(cdist=cdist, directed_hausdorff=hdorff),
                        "sklearn_extra.cluster": NS(KMedoids=KM)}
    L = Z.ZLoader(libs=libs()).load("hvd.reference_set")

    # ---- matching of one cluster
    def one(n, k, m):
        def body(z):
            X, Y = z.array("X", (k, m)), z.array("Y", (n, m))
            r = zc.obj(L.ReferenceSet)
            M = np.asarray(r._match(X, Y))
            z.passed(M.shape == (n, m), "one representative per point")
            pick = [[q for q in range(k) if rowsame(M[i], X[q])] for i in range(n)]
            z.passed(all(len(p) == 1 for p in pick), "every representative is a row of the reference set")
            pick = [p[0] for p in pick]
            z.passed(len(set(pick)) == n, "representatives are pairwise different")
            C = cdist(Y, X)
            for o in injections(n, k):
                z.ensure(total(C, list(enumerate(pick))) <= total(C, o), "the total distance is least")
        return body

    def onerep(n, k, m):
        def rep(v):
            from hvd.reference_set import ReferenceSet
            rng = np.random.RandomState(0)
            for _ in range(40):
                X, Y = rng.rand(k, m), rng.rand(n, m)
                M = ReferenceSet._match(ReferenceSet.__new__(ReferenceSet), X.copy(), Y.copy())
                got = np.linalg.norm(M - Y, axis=1).sum()
                C = np.linalg.norm(Y[:, None] - X[None], axis=2)
                best = min(sum(C[i, j] for i, j in o) for o in injections(n, k))
                if got > best + 1e-9 or len({tuple(x) for x in M}) != n:
                    return {"X": X.tolist(), "Y": Y.tolist(), "matched": M.tolist(), "cost": got, "least": best}
        return rep
    for n, k in ((1, 1), (2, 2), (3, 3), (4, 4)):
        ctx.obligation(f"_match, {n} points", RS + "_match", Z.prove(one(n, k, 2), onerep(n, k, 2), soft=True, budget=60), bounded=f"{n} points, 2 objectives, any coordinates")

    # ---- matching of one cluster: any number of points and objectives
    def match_any():
        from .common import loader, tn, pl, shims, dim, sym_array, newidx, A, V, P, psum, vname, T, prove_equal, Unsupported
        from fractions import Fraction
        tn.set_ctx(tn.Ctx())
        pl.POSRULES.clear()
        shims.ARGS.clear()
        N, d = dim("N"), dim("d")
        seen = []

        def lsa_(C, *a, **k):
            if a or k:
                raise Unsupported("options of the assignment")
            seen.append(tn.to_T(C))
            return tn.arange(N), T((N,), lambda i: A("pi", i), "i")
        mod = loader.Loader(overrides={("hvd.reference_set", "linear_sum_assignment"): lsa_}).load("hvd.reference_set")
        r = mod.ReferenceSet.__new__(mod.ReferenceSet)
        M = tn.to_T(r._match(sym_array("X", (N, d)), sym_array("Y", (N, d))))
        i, j, a, k = newidx(N), newidx(N), newidx(d), newidx(d)
        if len(seen) != 1:
            raise Unsupported("one assignment problem expected")
        s = psum(vname(k), d, (A("Y", i, k) - A("X", j, k)) ** 2)
        pl.assume_nonneg(s)
        if seen[0].at_(i, j) != pl.ppow(s, Fraction(1, 2)):
            raise Unsupported("the assignment problem has another cost matrix")
        if M.at_(i, a) != A("X", A("pi", i), a):
            raise Unsupported("the rows returned are not those assigned")
        # contract of the assignment: pi is a bijection of least total cost, so the pairing (i, X[pi(i)]) has least total distance
    ctx.obligation("_match, any number of points and objectives", RS + "_match", match_any)

    # ---- match / shift / match again: structure enumerated, coordinates arbitrary
    def check(z, M, Y, ref, idx, what, k, comp_rows):
        """comp_rows: component -> rows its representatives may be; returns the component of each point"""
        z.passed(M.shape == Y.shape, what + ": one representative per point")
        comp = {}
        ne = [[int(i) for i in ii] for ii in idx if len(ii)]
        assign = []
        for ii in ne:
            where = None
            for c, rows in comp_rows.items():
                pk = [[q for q in range(len(rows)) if rowsame(M[i], rows[q])] for i in ii]
                if all(pk):
                    where = (c, [p[0] for p in pk])
            z.passed(where is not None, what + ": the representatives of a cluster come from one component")
            z.passed(len(set(where[1])) == len(ii), what + ": representatives are pairwise different")
            assign.append(where[0])
            for i, q in zip(ii, where[1]):
                comp[i] = (where[0], q)
            C = cdist(Y[ii], M[ii])
            me = total(C, [(a, a) for a in range(len(ii))])
            for o in injections(len(ii), len(ii)):
                z.ensure(me <= total(C, o), what + ": the total distance within a cluster is least")
        z.passed(len(set(assign)) == len(assign), what + ": clusters are matched to different components")
        if k > 1:
            H = np.empty((k, len(ne)), dtype=object)
            for c in range(k):
                for j, ii in enumerate(ne):
                    H[c, j] = hdorff(ref[c], Y[ii])[0]
            for o in injections(k, len(ne)):
                z.ensure(total(H, [(a, j) for j, a in enumerate(assign)]) <= total(H, o), what + ": components are assigned at least total Hausdorff distance")
        return comp

    def scen(sizes, idx, N, m, form, sel):
        """sizes of the components; idx: clusters of the points (None: nearest component)"""
        def body(z):
            k = len(sizes)
            ref = {c: z.array(f"R{c}", (s, m)) for c, s in enumerate(sizes)}
            keep = {c: v.copy() for c, v in ref.items()}
            eta = {c: z.array(f"eta{c}", (m,)) for c in ref}
            Y = z.array("Y", (N, m))
            given = [np.array(i, int) for i in idx] if idx is not None and k > 1 else None
            r = L.ReferenceSet(ref if form == "dict" else ref[0], eta=eta, Y_idx=given)
            z.passed(r.N == sum(sizes), "N counts the reference points before matching")
            try:
                r.match(Y)
            except AssertionError:
                if k > 1 and idx is None and N > min(sizes):
                    z.passed()
                    return                     # precondition: a cluster has at most as many points as its component
                raise
            if k == 1:
                cl = [np.arange(N)]
            elif idx is not None:
                cl = given
            else:
                cl = [np.asarray(i) for i in r.Y_idx]
                z.passed(sorted(int(i) for ii in cl for i in ii) == list(range(N)), "every point lies in one cluster")
                for c, ii in enumerate(cl):
                    for i in ii:
                        mine = [dist(keep[c][q], Y[int(i)]) for q in range(sizes[c])]
                        for o in range(k):
                            for q in range(sizes[o]):
                                z.ensure(Z.Or(*[a <= dist(keep[o][q], Y[int(i)]) for a in mine]), "a point belongs to the cluster of its nearest component")
            rows = {c: list(keep[c]) for c in keep}
            M = np.asarray(r.reference_set)
            comp = check(z, M, Y, keep, cl, "first matching", k, rows)
            z.passed(all(all(rowsame(a, b) for a, b in zip(ref[c], keep[c])) for c in keep), "the caller's reference set is unchanged")
            z.passed(r.N == N, "N counts the representatives after matching")
            # shift
            c = z.real("c")
            before = [list(x) for x in M]
            r.shift(c, sel) if sel is not None else r.shift(c)
            A = np.asarray(r.reference_set)
            z.passed(A.shape == M.shape, "shift keeps the number of representatives")
            for i in range(N):
                for a in range(m):
                    mv = sel is None or i in list(sel)
                    z.ensure_eq(A[i][a], before[i][a] + (c * eta[comp[i][0]][a] if mv else 0),
                                "shift moves exactly the requested points by the step along the direction of their component")
            # again: the representatives are those of the shifted set
            now = [list(x) for x in A]
            Y2 = z.array("Z", (N, m))
            r.match(Y2)
            B = np.asarray(r.reference_set)
            pool = {}
            for i in range(N):
                pool.setdefault(comp[i][0], []).append(now[i])
            if len({len(i) for i in cl}) == 1 and len([i for i in cl if len(i)]) == k or k == 1:
                comp2 = check(z, B, Y2, keep, cl, "matching again", k, pool)
                r.shift(c, [0])
                C = np.asarray(r.reference_set)
                for i in range(N):
                    for a in range(m):
                        z.ensure_eq(C[i][a], B[i][a] if i else B[i][a] + 0, "shift after matching again") if i else None
        return body
    full = ctx.thorough
    cases = [((1,), None, 1, "array", None), ((2,), None, 2, "array", [1]), ((2,), None, 2, "dict", None), ((3,), None, 2, "array", None),
             ((3,), None, 3, "dict", [2, 0]), ((3,), None, 3, "array", []),
             ((2, 2), [[0, 1], [2, 3]], 4, "dict", [3, 1]), ((2, 2), [[1, 3], [2, 0]], 4, "dict", None), ((2, 2), [[1, 2], [0]], 3, "dict", [0]),
             ((1, 2), [[0], []], 1, "dict", None), ((2, 1), None, 1, "dict", None), ((2, 2), None, 2, "dict", [1]),
             ((1, 1, 2), [[0], [1]], 2, "dict", [1]), ((1, 1, 1), [[2], [0], [1]], 3, "dict", [0, 2]), ((1, 1, 1), [[1], [], [0]], 2, "dict", None)]
    if full:
        cases += [((4,), None, 4, "array", [1, 2]), ((3, 3), [[0, 2, 4], [1, 3, 5]], 6, "dict", [0, 5]), ((2, 2, 2), [[0, 1], [2, 3], [4, 5]], 6, "dict", None),
                  ((4,), None, 2, "array", None), ((2, 2), None, 3, "dict", [2])]

    def scenrep(sizes, idx, N, m, form, sel):
        def rep(v):
            from hvd.reference_set import ReferenceSet
            rng = np.random.RandomState(1)
            k = len(sizes)
            for t in range(60):
                ref = {c: rng.rand(s, m) + c * rng.choice([0, 2]) for c, s in enumerate(sizes)}
                eta = {c: rng.randn(m) for c in ref}
                keep = {c: x.copy() for c, x in ref.items()}
                Y = rng.rand(N, m) * 2
                r = ReferenceSet(ref if form == "dict" else ref[0], eta=eta, Y_idx=[np.array(i, int) for i in idx] if idx is not None and k > 1 else None)
                try:
                    r.match(Y)
                except AssertionError:
                    continue
                cl = [np.arange(N)] if k == 1 else (idx if idx is not None else r.Y_idx)
                M = np.asarray(r.reference_set).copy()
                d = {"reference": {c: x.tolist() for c, x in keep.items()}, "Y": Y.tolist(), "clusters": [list(map(int, i)) for i in cl], "matched": M.tolist()}
                assign, comp = [], {}
                for ii in cl:
                    if len(ii) == 0:
                        continue
                    cs = [c for c in keep if all(any(np.array_equal(M[i], b) for b in keep[c]) for i in ii)]
                    if not cs or len({tuple(M[i]) for i in ii}) != len(ii):
                        return {**d, "observed": "representatives of a cluster are not different rows of one component"}
                    assign.append(cs[0])
                    comp.update({int(i): cs[0] for i in ii})
                    C = np.linalg.norm(Y[list(ii)][:, None] - M[list(ii)][None], axis=2)
                    if np.trace(C) > min(sum(C[a, b] for a, b in o) for o in injections(len(ii), len(ii))) + 1e-9:
                        return {**d, "observed": "the total distance is not least"}
                if len(set(assign)) != len(assign):
                    return {**d, "observed": "two clusters share a component"}
                if k > 1:
                    hd = lambda A, B: np.linalg.norm(A[:, None] - B[None], axis=2).min(1).max()
                    ne = [list(ii) for ii in cl if len(ii)]
                    H = np.array([[hd(keep[c], Y[ii]) for ii in ne] for c in range(k)])
                    if sum(H[a, j] for j, a in enumerate(assign)) > min(sum(H[a, b] for a, b in o) for o in injections(k, len(ne))) + 1e-9:
                        return {**d, "observed": "components are not assigned at least total Hausdorff distance"}
                c = float(rng.randn())
                r.shift(c, sel) if sel is not None else r.shift(c)
                E = M.copy()
                for i in (range(N) if sel is None else sel):
                    E[i] += c * eta[comp[i]]
                A = np.asarray(r.reference_set)
                if not np.allclose(A, E, atol=1e-12):
                    return {**d, "c": c, "indices": sel, "after": A.tolist(), "expected": E.tolist(), "observed": "shift"}
        return rep
    for s, ix, N, form, sel in cases:
        nm = f"match, shift, match again: components of {'/'.join(map(str, s))}, {N} points, clusters {ix if ix is not None else 'by distance' if len(s) > 1 else 'one'}, shifted {sel if sel is not None else 'all'}"
        ctx.obligation(nm, RS + "match", Z.prove(scen(s, ix, N, 2, form, sel), scenrep(s, ix, N, 2, form, sel), soft=True, budget=100, jobs=8),
                       bounded=f"{N} points, components of {s} points, 2 objectives, any coordinates")

    def unmatched(z):
        m = 3
        ref = {c: z.array(f"R{c}", (c + 1, m)) for c in range(3)}
        keep = {c: v.copy() for c, v in ref.items()}
        eta = {c: z.array(f"eta{c}", (m,)) for c in ref}
        r = L.ReferenceSet(ref, eta=eta)
        c = z.real("c")
        r.shift(c, z.choose(None, np.array([0])))
        A = np.asarray(r.reference_set)
        z.passed(A.shape == (6, m), "shift keeps the number of points")
        E = [keep[q][i] + c * eta[q] for q in range(3) for i in range(q + 1)]
        for a, e in zip(A, E):
            for x, y in zip(a, e):
                z.ensure_eq(x, y, "before matching, shift moves every point along the direction of its component")
    ctx.obligation("shift before matching", RS + "shift", Z.prove(unmatched, soft=True), bounded="3 components, 3 objectives")

    # ---- shift: any number of points, components and indices
    class Store:
        """rows addressed by one or two integers, as m arrays"""
        def __init__(self, z, nm, nidx, m):
            self.f = [z3.Array(z.name(nm), *([z3.IntSort()] * nidx), z3.RealSort()) for _ in range(m)]

        def get(self, *k): return zc.arr([Z.Sym(z3.Select(f, *[Z.toi(x) for x in k])) for f in self.f])

        def set(self, k, v):
            self.f = [z3.Store(f, *[Z.toi(x) for x in k], Z.toz(x)) for f, x in zip(self.f, list(v))]

    class Rows:
        def __init__(self, st, n, pre=()): self.st, self.n, self.pre = st, n, pre
        def vlen(self): return self.n
        def __getitem__(self, k): return self.st.get(*self.pre, k)
        def __setitem__(self, k, v): self.st.set((*self.pre, k), v)

    class Meds:
        def __init__(self, st): self.st = st
        def __getitem__(self, c): return Rows(self.st, None, (c,))

    def shift_any(m, default):
        def body(z):
            st = {}

            def inv(e, k):
                s = st
                got, md = s["M"].get(s["p"]), s["D"].get(s["cp"], s["ip"])
                cnt = Z.Sym(s["cnt"](Z.toi(k)))
                cl = [Z.And(a == b, a == o + cnt * s["c"] * t) for a, b, o, t in zip(got, md, s["orig"], s["eta"].get(s["cp"]))]
                if k is not None and not isinstance(k, int):
                    e1 = s["idx"](k - 1)
                    # unfolding of the number of requests for the point p among the first k, at k
                    step = z3.If(Z.toi(e1) == Z.toi(s["p"]), 1, 0)
                    z.assume(Z.Implies(k >= 1, Z.SymBool(s["cnt"](Z.toi(k)) == s["cnt"](Z.toi(k) - 1) + z3.ToReal(step))))
                return Z.And(*cl)

            def mutated(z, env):
                for nm, q in (("M", 1), ("D", 2)):
                    s = Store(z, nm, q, m)
                    st[nm].f = s.f
            Lp = Z.Loop(inv, mutated=mutated, dead=("v",))
            ld = Z.ZLoader(loops={"hvd.reference_set": {("ReferenceSet.shift", 0): Lp}}, libs=libs())
            U = ld.load("hvd.reference_set")
            N, nl = z.int("N", 1), z.int("L", 0)
            fi = z3.Function("index", z3.IntSort(), z3.IntSort())
            comp, pos = (z3.Function(n_, z3.IntSort(), z3.IntSort()) for n_ in ("component", "position"))
            p = z.int("p", 0)
            z.assume(p < N)
            st.update(M=Store(z, "M", 1, m), D=Store(z, "D", 2, m), eta=Store(z, "eta", 1, m), p=p, c=z.real("c"),
                      cnt=z3.Function("requests", z3.IntSort(), z3.RealSort()))
            st["cp"], st["ip"] = Z.Sym(comp(p.e)), Z.Sym(pos(p.e))
            st["orig"] = st["M"].get(p)
            z.add(st["cnt"](0) == 0)
            # class invariant: the matched set and the medoids agree, (component, position) determines the point
            for a, b in zip(st["orig"], st["D"].get(st["cp"], st["ip"])):
                z.assume(a == b)
            if default:
                def arange(n, *a):
                    if a or not Z.SymBool(Z.toi(n) == N.e):
                        raise Z.Unsupported("arange")
                    st["idx"] = lambda k: k if isinstance(k, Z.Sym) else Z.Sym(z3.IntVal(k))
                    st["n"] = N
                    return Z.SRange(0, N)
                ld.np.__dict__["arange"] = arange
                idx = None
            else:
                st["idx"] = lambda k: Z.Sym(fi(Z.toi(k)))
                st["n"] = nl

                def item(k):
                    i = st["idx"](k)
                    z.assume(Z.And(i >= 0, i < N))
                    return i
                idx = Z.SeqLen(nl, item)

            class Where:
                def __getitem__(self, k):
                    z.assume(Z.Implies(Z.Not(k == p), Z.SymBool(z3.Or(comp(Z.toi(k)) != comp(p.e), pos(Z.toi(k)) != pos(p.e)))))
                    # agreement of the two stores at the visited point (the invariant holds for every point, p is arbitrary)
                    for a, b in zip(st["M"].get(k), st["D"].get(Z.Sym(comp(Z.toi(k))), Z.Sym(pos(Z.toi(k))))):
                        z.assume(a == b)
                    return Z.Sym(comp(Z.toi(k))), Z.Sym(pos(Z.toi(k)))
            r = zc.obj(U.ReferenceSet, _matched_medoids=Rows(st["M"], N), _medoids=Meds(st["D"]), _medoids_idx=Where(), eta=Rows(st["eta"], None), n_obj=m, re_match=True)
            r.shift(st["c"], idx)
            cnt = Z.Sym(st["cnt"](Z.toi(st["n"])))
            for a, b, o, t in zip(st["M"].get(p), st["D"].get(st["cp"], st["ip"]), st["orig"], st["eta"].get(st["cp"])):
                z.ensure(Z.SymBool(Z.toz(a) == Z.toz(o + cnt * st["c"] * t)), "each point moves by the step along its component's direction, once per request")
                z.ensure(a == b, "the stored medoid is the moved point")
        return body
    for m in (2, 3):
        for dflt in (False, True):
            ctx.obligation(f"shift, any number of points, components and requests ({m} objectives, {'all points' if dflt else 'index list'})", RS + "shift",
                           Z.prove(shift_any(m, dflt), soft=True, budget=60))

    # ---- the shift direction: any number of points
    class Comp:
        def __init__(self, z, m):
            self.z, self.m = z, m
            self.n = z.int("n", 1)
            self.f = [z3.Function(f"Y{b}", z3.IntSort(), z3.RealSort()) for b in range(m)]
            self.shape = (self.n, m)

        def vlen(self): return self.n
        def copy(self): return self

        def argmin(self, axis=None):
            if axis != 0:
                raise Z.Unsupported("argmin")
            out = np.empty(self.m, dtype=object)
            for b in range(self.m):
                out[b] = self.z.int(f"extreme{b}", 0)
                self.z.assume(out[b] < self.n)
            self.ext = out
            return out

        def __getitem__(self, k):
            if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None):
                k = k[0]
            if not isinstance(k, np.ndarray) or k is not getattr(self, "ext", None):
                raise Z.Unsupported("other rows")
            return zc.arr([[Z.Sym(f(i.e)) for f in self.f] for i in k])

    def qr(A, *a, **k):
        """contract: the last column of the full Q factor is a unit vector orthogonal to the columns of A (fewer columns than rows)"""
        if a or k:
            raise Z.Unsupported("qr options")
        z = Z.CUR
        A = np.asarray(A)
        m = A.shape[0]
        if A.shape[1] >= m:
            raise Z.Unsupported("square qr")
        Q = z.array("Q", (m, m))
        q = Q[:, -1]
        s = 0
        for x in q:
            s = s + x * x
        z.add(Z.toz(s) == 1)
        for c in range(A.shape[1]):
            d = 0
            for a_, x in zip(A[:, c], q):
                d = d + a_ * x
            z.add(Z.toz(d) == 0)
        z.q = q
        return Q, None

    def chim(m):
        def body(z):
            ld = Z.ZLoader(libs={"scipy.linalg": NS(qr=qr, cholesky=None)})
            U = ld.load("hvd.utils")

            def norm(v, *a, **k):
                if a or k:
                    raise Z.Unsupported("norm options")
                t = 0
                for x in np.ravel(v):
                    t = t + x * x
                # |x| has the square of x: the sum of squares is that of the column of Q, i.e. one
                z.ensure(Z.SymBool(Z.toz(t) == 1), "the vector has unit length before it is normalised")
                return 1
            ld.np.linalg.norm = norm
            Y = Comp(z, m)
            eta = np.ravel(np.asarray(U.compute_chim(Y)))
            z.passed(eta.shape == (m,), "one component per objective")
            t = 0
            for x in eta:
                t = t + x * x
                z.ensure(Z.SymBool(Z.toz(x) <= 0), "the direction never points to the dominated side")
            z.ensure(Z.SymBool(Z.toz(t) == 1), "unit length")
            q = z.q
            one = Z.Or(Z.And(*[x >= 0 for x in q]), Z.And(*[x <= 0 for x in q]))
            Zp = Y[Y.ext]
            for i in range(1, m):
                d = 0
                for a, b, e in zip(Zp[i], Zp[0], eta):
                    d = d + (a - b) * e
                z.ensure(Z.Implies(one, Z.SymBool(Z.toz(d) == 0)), "a normal of one sign is kept: the direction is orthogonal to the plane through the extreme points")
        return body

    def chimrep(m):
        def rep(v):
            from hvd.utils import compute_chim
            rng = np.random.RandomState(3)
            for _ in range(60):
                Y = np.abs(rng.randn(int(rng.randint(m, 9)), m))
                Y /= Y.sum(1)[:, None] if rng.rand() < .5 else np.linalg.norm(Y, axis=1)[:, None]
                e = np.asarray(compute_chim(Y.copy()))
                Zp = Y[Y.argmin(0)]
                n = np.linalg.svd(Zp[1:] - Zp[0])[2][-1]
                bad = e.shape != (m,) or abs(np.linalg.norm(e) - 1) > 1e-9 or np.any(e > 1e-12)
                if not bad and (np.all(n >= 1e-9) or np.all(n <= -1e-9)) and np.linalg.svd(Zp[1:] - Zp[0])[1][-1] > 1e-6:
                    bad = np.abs(e + np.abs(n)).max() > 1e-6
                if bad:
                    return {"component": Y.tolist(), "direction": e.tolist(), "normal": n.tolist()}
        return rep
    for m in (2, 3, 4):
        ctx.obligation(f"compute_chim, {m} objectives, any number of points", "hvd.utils.compute_chim", Z.prove(chim(m), chimrep(m), soft=True, budget=100, fork=True),
                       bounded=f"{m} objectives, any number of points and any coordinates")
    ctx.trusted |= {"scipy.optimize.linear_sum_assignment (least-cost assignment)", "scipy.spatial.distance.cdist / directed_hausdorff",
                    "KMedoids (k different rows of the data)", "scipy.linalg.qr (last column of Q: unit, orthogonal to the columns)"}


def concrete(ctx):
    from hvd.reference_set import ReferenceSet
    from hvd import utils
    from scipy.optimize import linear_sum_assignment

    def mincost(X, Y):
        C = np.linalg.norm(Y[:, None] - X[None], axis=2)
        n = len(Y)
        if n <= 6:
            return min(sum(C[i, p[i]] for i in range(n)) for p in itertools.permutations(range(n)))
        r, c = linear_sum_assignment(C)
        return C[r, c].sum()

    def clusters(rng, k, m, lo=4, hi=9, gap=None):
        gap = gap if gap is not None else rng.choice([0, 3, 10])
        cen = [gap * (i + 1) * rng.uniform(-1, 1, m) for i in range(k)]
        return {i: rng.rand(int(rng.randint(lo, hi + 1)), m) + cen[i] for i in range(k)}

    def rows_in(A, B):
        """every row of A is a row of B and rows are used at most as often as B has them"""
        B = [tuple(b) for b in B]
        for a in A:
            t = tuple(a)
            if t not in B:
                return False
            B.remove(t)
        return True

    def setup(rng):
        m, k = int(rng.choice([2, 3, 4])), int(rng.choice([1, 1, 2, 3, 4]))
        ref = clusters(rng, k, m)
        mode = "one" if k == 1 else str(rng.choice(["nearest", "given", "given-fewer"]))
        if k == 1:
            N = int(rng.randint(1, len(ref[0]) + 1))
            Y = rng.rand(N, m) * 2 + ref[0][0] * rng.choice([0, 1])
            if rng.rand() < .3:
                Y = ref[0][rng.permutation(len(ref[0]))[:N]]
            idx, given = [np.arange(N)], None
        elif mode == "nearest":
            Y = np.concatenate([ref[i][:rng.randint(0, 4)] + .05 * rng.randn(1, m) for i in range(k)])
            if len(Y) == 0:
                return None
            Y = Y[rng.permutation(len(Y))]
            D = np.array([np.linalg.norm(ref[i][:, None] - Y[None], axis=2).min(0) for i in range(k)])
            lab = D.argmin(0)
            if len(Y) > 1 and np.any(np.diff(np.sort(D, axis=0)[:2], axis=0) < 1e-9):
                return None
            idx, given = [np.nonzero(lab == i)[0] for i in range(k)], None
            if any(len(i) > 4 for i in idx):
                return None
        else:
            q = k if mode == "given" else int(rng.randint(1, k))
            sizes = rng.randint(1, 4, q)
            pos = rng.permutation(k)[:q]
            N = int(sizes.sum())
            perm = rng.permutation(N) if rng.rand() < .5 else np.arange(N)
            idx = [np.sort(perm[a:b]) if rng.rand() < .5 else perm[a:b] for a, b in zip(np.r_[0, np.cumsum(sizes)[:-1]], np.cumsum(sizes))]
            Y = np.zeros((N, m))
            for p, ii in zip(pos, idx):
                Y[ii] = ref[p][:len(ii)] + .1 * rng.randn(1, m)
            given = idx
        return m, k, ref, mode, Y, idx, given

    def check(r, ref, Y, idx, first, d):
        M = np.asarray(r.reference_set)
        N = len(Y)
        if M.shape != Y.shape:
            raise Fail(f"matching {N} points gave a reference set of shape {M.shape}", **d)
        k = len(ref)
        # component of each point (public consequence: the representative belongs to one component)
        comp = [[c for c in ref if any(np.array_equal(M[i], b) for b in ref[c])] for i in range(N)] if first else None
        cost, assign = [], []
        for ii in idx:
            if len(ii) == 0:
                continue
            if first:
                cand = set.intersection(*[set(comp[i]) for i in ii])
                if not cand:
                    raise Fail("the representatives of one cluster of points do not come from one component of the reference set", matched=M, **d)
                c = sorted(cand)[0]
                assign.append(c)
                if not rows_in(M[ii], ref[c]):
                    raise Fail("two points of one cluster share a representative", matched=M, **d)
            tot = np.linalg.norm(M[ii] - Y[ii], axis=1).sum()
            best = mincost(M[ii], Y[ii])
            if tot > best + 1e-9 * (1 + best):
                raise Fail(f"the matching within a cluster costs {tot}, the least total distance is {best}", matched=M, cluster=ii, **d)
        if first and k > 1:
            if len(set(assign)) != len(assign):
                raise Fail("two clusters of points are matched to the same component", matched=M, **d)
            ne = [ii for ii in idx if len(ii)]
            hd = lambda A, B: np.linalg.norm(A[:, None] - B[None], axis=2).min(1).max()
            C = np.array([[hd(ref[c], Y[ii]) for ii in ne] for c in range(k)])
            got = sum(C[a, j] for j, a in enumerate(assign))
            opt = min(sum(C[p[j], j] for j in range(len(ne))) for p in itertools.permutations(range(k), len(ne)))
            if got > opt + 1e-9 * (1 + opt):
                raise Fail(f"components are assigned to clusters at cost {got}, the least is {opt}", assigned=assign, **d)
        return M.copy()

    def match(rng):
        s = setup(rng)
        if s is None:
            return None
        m, k, ref, mode, Y, idx, given = s
        ref0 = {c: v.copy() for c, v in ref.items()}
        r = ReferenceSet(ref if k > 1 or rng.rand() < .5 else ref[0], eta={c: -np.ones(m) / np.sqrt(m) for c in ref}, Y_idx=given)
        d = dict(ref=ref0, Y=Y.copy(), clusters=idx, mode=mode)
        Y0 = Y.copy()
        if len(np.unique(np.concatenate([v for v in ref.values()]), axis=0)) != sum(map(len, ref.values())):
            return None
        if r.N != sum(map(len, ref0.values())):
            raise Fail("N is not the number of reference points before matching")
        r.match(Y)
        if not np.array_equal(Y, Y0):
            raise Fail("matching modified the approximation set", **d)
        M0 = check(r, ref0, Y, idx, True, d)
        if any(not np.array_equal(ref[c], ref0[c]) for c in ref):
            raise Fail("matching modified the caller's reference set", **d)
        # matching again after an update: the representatives stay, the pairing is minimal again
        for t in range(3):
            Y = Y + rng.randn(*Y.shape) * rng.choice([.05, 1])
            if rng.rand() < .4:
                for ii in idx:
                    Y[ii] = Y[rng.permutation(ii)]
            d.update(Y=Y.copy(), rematch=t + 1)
            r.match(Y)
            M = check(r, ref0, Y, idx, False, d)
            if k == 1 or len(set(map(len, idx))) == len(idx):
                for ii in idx:
                    if len(ii) and k == 1 and not rows_in(M[ii], M0[ii]):
                        raise Fail("re-matching replaced the representatives", before=M0, after=M, **d)
            if k > 1 and not rows_in(M, np.concatenate(list(ref0.values()))):
                raise Fail("re-matching uses a representative twice or one outside the reference set", after=M, **d)
        return (mode, m, k, len(Y))

    def order(rng):
        """the pairing does not depend on the order of the points"""
        m, N = int(rng.choice([2, 3])), int(rng.randint(2, 8))
        ref, Y = rng.rand(N, m), rng.rand(N, m)
        p, q = rng.permutation(N), rng.permutation(N)
        a, b = ReferenceSet(ref.copy(), eta={0: np.zeros(m)}), ReferenceSet(ref[q], eta={0: np.zeros(m)})
        a.match(Y)
        b.match(Y[p])
        if not np.array_equal(a.reference_set[p], b.reference_set):
            C1, C2 = np.linalg.norm(a.reference_set - Y, axis=1).sum(), np.linalg.norm(b.reference_set - Y[p], axis=1).sum()
            if abs(C1 - C2) > 1e-12:
                raise Fail("the matching depends on the order of the points", ref=ref, Y=Y, p=p, q=q)
        return (m, N)

    def shift(rng):
        s = setup(rng)
        if s is None:
            return None
        m, k, ref, mode, Y, idx, given = s
        eta = {c: rng.randn(m) for c in ref}
        ref0 = {c: v.copy() for c, v in ref.items()}
        r = ReferenceSet(ref, eta=eta, Y_idx=given)
        if rng.rand() < .25:
            c = float(rng.randn())
            if rng.rand() < .5:
                r.shift(c)
            else:
                r.shift(c, np.array([0]))       # indices are ignored before matching
            exp = np.concatenate([ref0[i] + c * eta[i] for i in range(k)])
            if not np.allclose(r.reference_set, exp, atol=1e-12):
                raise Fail("shifting the unmatched reference set does not move every point by c * eta", c=c, eta=eta, got=r.reference_set, expected=exp)
            return ("unmatched", m, k)
        r.match(Y)
        N = len(Y)
        for t in range(4):
            M = np.asarray(r.reference_set).copy()
            comp = [[c for c in ref0] for _ in range(N)]
            if t == 0:
                base = [next(c for c in ref0 if any(np.array_equal(M[i], b) for b in ref0[c])) for i in range(N)]
            c = float(rng.choice([.05, -.3, 1., 0.]))
            sel = None if rng.rand() < .3 else np.sort(rng.permutation(N)[:rng.randint(0, N + 1)])
            if sel is not None and rng.rand() < .3:
                sel = list(sel)
            if c == .05 and sel is not None and rng.rand() < .5:
                r.shift(indices=sel)
            elif sel is None:
                r.shift(c)
            else:
                r.shift(c, sel)
            A = np.asarray(r.reference_set)
            exp = M.copy()
            for i in (range(N) if sel is None else sel):
                exp[i] += c * eta[base[i]]
            if not np.allclose(A, exp, atol=1e-10):
                raise Fail("shift moved other points than the requested ones, or not by c times their component's direction",
                           c=c, indices=sel, before=M, after=A, expected=exp, component=base)
            # re-matching to the same points keeps the shifted representatives
            if rng.rand() < .5:
                Yn = Y if rng.rand() < .3 else Y + .01 * rng.randn(*Y.shape)
                r.match(Yn)
                B = np.asarray(r.reference_set)
                if k == 1 or len({len(i) for i in idx}) == len(idx):
                    srt = lambda Z: Z[np.lexsort(Z.T)]
                    if not np.allclose(srt(B), srt(A), atol=1e-10):
                        raise Fail("re-matching after a shift lost the shifted representatives", shifted=A, rematched=B)
                nb = []
                for i in range(N):
                    c_ = [base[j] for j in range(N) if np.array_equal(A[j], B[i])]
                    if not c_:
                        return None
                    nb.append(c_[0])
                base = nb
        return (mode, m, k, N)

    def direction(rng):
        m, n = int(rng.choice([2, 2, 3, 4])), int(rng.randint(4, 12))
        Y = np.abs(rng.randn(n, m))
        kind = str(rng.choice(["front", "plane", "random"]))
        if kind == "front":
            Y /= np.linalg.norm(Y, axis=1)[:, None]
        elif kind == "plane":
            Y /= Y.sum(1)[:, None]
        Y = Y + rng.randn(m) * rng.choice([0, 3])
        Y0 = Y.copy()
        eta = utils.compute_chim(Y) if rng.rand() < .5 else ReferenceSet(Y).eta[0]
        if not np.array_equal(Y, Y0):
            raise Fail("computing the shift direction modified the component")
        eta = np.asarray(eta)
        d = dict(component=Y0, direction=eta)
        if eta.shape != (m,) or abs(np.linalg.norm(eta) - 1) > 1e-9:
            raise Fail("the shift direction is not a unit vector", **d)
        if np.any(eta > 1e-12):
            raise Fail("the shift direction points to the dominated side", **d)
        Z = Y0[Y0.argmin(0)]
        M = Z[1:] - Z[0]
        U, S, Vt = np.linalg.svd(M)
        if len(S) and S[-1] < 1e-6 * max(S[0], 1e-12) or len(S) < m - 1:
            return ("degenerate", m)
        nrm = Vt[-1]
        if np.all(nrm >= -1e-9) or np.all(nrm <= 1e-9):
            nrm = -np.abs(nrm)
            if np.abs(eta - nrm).max() > 1e-6:
                raise Fail("the shift direction is not the normal of the plane through the extreme points", expected=nrm, **d)
            return (kind, m, n)
        if np.abs(eta + np.abs(nrm)).max() > 1e-6:
            raise Fail("the shift direction is not the (sign-corrected) normal of the plane through the extreme points", normal=nrm, **d)
        return (kind, m, n, "mixed")
    k = 8 if ctx.thorough else 1
    ctx.scenario("match", match, 150 * k)
    ctx.scenario("order", order, 80 * k)
    ctx.scenario("shift", shift, 150 * k)
    ctx.scenario("direction", direction, 200 * k)
