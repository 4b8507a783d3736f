"""P17: environmental selection of SMS-EMOA and replacement of the decomposition-based algorithm."""
import contextlib
import io
import itertools
import numpy as np
from pyvc.check import Fail, Skip


def ranks(F):
    n = len(F)
    dom = (F[:, None] <= F[None]).all(2) & (F[:, None] < F[None]).any(2)
    r = np.zeros(n, int)
    left = set(range(n))
    k = 0
    while left:
        cur = [i for i in left if not any(dom[j, i] for j in left)]
        for i in cur:
            r[i] = k
        left -= set(cur)
        k += 1
    return r


def hv(F, ref):
    """exact hypervolume by inclusion-exclusion over grid cells"""
    F = np.array([f for f in F if (f < ref).all()])
    if len(F) == 0:
        return 0.0
    M = F.shape[1]
    ax = [np.r_[np.unique(F[:, j]), ref[j]] for j in range(M)]
    cells = np.ones([len(a) - 1 for a in ax], bool) & False
    for f in F:
        sl = tuple(slice(np.searchsorted(a, f[j]), None) for j, a in enumerate(ax))
        cells[sl] = True
    w = 1.0
    for j, a in enumerate(ax):
        w = np.multiply.outer(w, np.diff(a)) if j else np.diff(a)
    return float((cells * w).sum())


def contributions(F, ref):
    t = hv(F, ref)
    return np.array([t - hv(np.delete(F, i, 0), ref) for i in range(len(F))])


class PB:
    def __init__(self, M, con=False):
        self.n_obj, self.con = M, con
        self.n_ieq_constr, self.n_eq_constr = int(con), 0

    def has_constraints(self):
        return self.con


def population(rng, n, M):
    kind = rng.choice(["front", "mixed", "grid", "dup"])
    if kind == "front":
        F = rng.rand(n, M) + .05
        F = F / np.linalg.norm(F, axis=1, keepdims=True)
        if rng.rand() < .5:
            F[rng.rand(n) < .3] *= 1.3
    elif kind == "mixed":
        F = rng.rand(n, M)
    else:
        F = rng.randint(0, 5, (n, M)).astype(float)
        if kind == "dup":
            F = F[rng.randint(0, n, n)]
    s = 10.0 ** rng.uniform(-3, 3, M)
    return F * s + rng.randn(M) * s, kind


def prove(ctx):
    from pyvc import zsym as Z
    from . import zc
    import types
    import random
    with contextlib.redirect_stdout(io.StringIO()):
        from hvd.moea import sms_emoa as RS
        from hvd.moea import moead as RM
        from pymoo.core.population import Population
        from pymoo.core.individual import Individual
        from pymoo.util.misc import parameter_less as real_pl

    class Base:
        def __init__(self, *a, **k): self.__dict__.update({x: v for x, v in k.items() if x != "output"})

    def parameter_less(F, CV, fmax=None, inplace=False):
        return real_pl(F, CV, fmax=fmax, inplace=inplace)
    ns = types.SimpleNamespace
    libs = {"pymoo.algorithms.moo.moead": ns(MOEAD=Base, default_decomp=None, default_ref_dirs=None),
            "pymoo.util.misc": ns(parameter_less=parameter_less)}
    MO = Z.ZLoader(libs=libs).load("hvd.moea.moead")

    # ---- replacement: pymoo's decomposition is an arbitrary function g(objectives, direction, ideal point)
    def replace(T, n, con):
        def body(z):
            M = 2
            F, W, ideal = z.array("f", (n, M)), z.array("w", (n, M)), z.array("z", (M,))
            of = z.array("o", (M,))
            g = z.fun("g", 3 * M)
            gv = lambda f, w: g(*f, *w, *ideal)
            cv, oc = z.array("cv", (n,), lo=0), z.real("ocv", 0)
            mem = [zc.Member(F=zc.arr(F[i]), CV=zc.arr([cv[i]])) for i in range(n)]
            off = zc.Member(F=zc.arr(of), CV=zc.arr([oc]))

            class Dec:
                def do(self, F, weights=None, ideal_point=None, **k):
                    F, weights = np.atleast_2d(F), np.atleast_2d(weights)
                    z.passed(len(ideal_point) == M and all(a is b for a, b in zip(ideal_point, ideal)), "the ideal point of the algorithm is used")
                    k = max(len(F), len(weights))
                    return zc.arr([gv(F[i % len(F)], weights[i % len(weights)]) for i in range(k)])
            N = np.array([(i + 1) % n for i in range(T)])
            eps = None
            o = zc.obj(MO.ConstraintAwareMOEAD, pop=zc.Pop(mem), neighbors=np.array([N, N[::-1]]), decomposition=Dec(), ref_dirs=W, ideal=ideal,
                       problem=PB(M, con), max_cv=None, perc_eps_until=.8, termination=None)
            e = 0
            if con and z.choose(True, False):
                e = z.real("maxcv", 0)
                t = z.real("progress", 0, 1)
                o.max_cv, o.termination = e, ns(perc=t)
                a = 1 - 1 / 0.8 * t
                e = a * e if bool(a > 0) else 0
            o._replace(0, off)
            for i in range(n):
                was, now = mem[i], o.pop[i]
                if i not in N:
                    z.passed(now is was, "only neighbours are replaced")
                    continue
                z.passed(now is was or now is off, "a member is only replaced by the offspring")
                a, b = gv(of, W[i]), gv(F[i], W[i])
                if con:
                    pos = lambda v: v if bool(v > 0) else 0
                    c1, c2 = pos(oc - e), pos(cv[i] - e)
                    better = Z.And(c1 == 0, a < b) if not zc.sym(c2) else Z.Or(Z.SymBool(Z.z3.BoolVal(not zc.sym(c1))), (c1 if zc.sym(c1) else c2 - 1 - c2) < c2)
                else:
                    better = a < b
                z.ensure(better if now is off else Z.Not(better), "a neighbour is replaced exactly when the offspring is strictly better for its subproblem")
        return body

    def rep_replace(T, n, con):
        """search around the failing pattern on the real class"""
        def f(vals):
            rng = np.random.RandomState(0)
            from pymoo.decomposition.tchebicheff import Tchebicheff
            for _ in range(300):
                W = rng.randint(1, 4, (n, 2)).astype(float)
                F = rng.randint(0, 4, (n, 2)).astype(float)
                fo = rng.randint(0, 4, 2).astype(float)
                cv = np.where(rng.rand(n) < .4, 0, rng.randint(0, 3, n)).astype(float)
                oc = float(rng.randint(0, 3))
                a = RM.ConstraintAwareMOEAD.__new__(RM.ConstraintAwareMOEAD)
                inds = [Individual(F=x) for x in F]
                off = Individual(F=fo)
                if con:
                    for x, c in zip(inds + [off], list(cv) + [oc]):
                        x.CV = np.array([c])
                N = np.array([(i + 1) % n for i in range(T)])
                a.__dict__.update(pop=Population.create(*inds), neighbors=np.array([N]), decomposition=Tchebicheff(), ref_dirs=W, ideal=np.zeros(2),
                                  problem=PB(2, con), max_cv=None, perc_eps_until=.8, termination=None)
                eps = 0
                if con and rng.rand() < .5:
                    a.max_cv, a.termination = float(rng.randint(1, 3)), ns(perc=float(rng.choice([0, .2, .4, .9])))
                    eps = max(0.0, 1 - 1 / .8 * a.termination.perc) * a.max_cv
                try:
                    a._replace(0, off)
                except Exception as e:
                    return dict(F=F, W=W, off=fo, neighbours=N, raised=repr(e))
                for i in range(n):
                    v, o = (F[i] * W[i]).max(), (fo * W[i]).max()
                    c1, c2 = (max(oc - eps, 0), max(cv[i] - eps, 0)) if con else (0, 0)
                    want = i in N and ((o < v if c1 == 0 else False) if c2 == 0 else c1 == 0 or c1 < c2)
                    if want != (a.pop[i] is off):
                        return dict(F=F, W=W, off=fo, cv=cv, off_cv=oc, neighbours=N, member=i, replaced=a.pop[i] is off, expected=want)
        return f
    for T, n, con in [(1, 2, False), (2, 3, False), (3, 3, False), (1, 2, True), (2, 3, True)]:
        ctx.obligation(f"replace-{T}-neighbours-{'constrained' if con else 'plain'}", "hvd.moea.moead.ConstraintAwareMOEAD._replace / _cv_eps",
                       Z.prove(replace(T, n, con), rep_replace(T, n, con), soft=True, jobs=8),
                       bounded=f"{T} of {n} members are neighbours; any objective values, violations and decomposition function")

    # ---- survival: contracts of non-dominated sorting (fronts in order, stopped once enough are ranked) and of the hypervolume classes
    class Stop(Exception):
        pass

    class Contrib:
        """contract of the contribution calculators: hvc[i] = contribution of point i within the current set"""
        def __init__(self, ref_point, *a, **k):
            self.z = Z.CUR
            self.ref, self.F, self.log = ref_point, None, []
            self.z.calcs.append(self)

        def add(self, F):
            if self.F is not None:
                raise Z.Unsupported("incremental add")
            self.F0 = self.F = F
            self.ids = tuple(range(len(F)))
            return self

        @property
        def hvc(self):
            return zc.arr([self.z.contribution(self.ids, i) for i in self.ids])

        def delete(self, k):
            k = int(k)
            z = self.z
            for i in self.ids:
                z.ensure(z.contribution(self.ids, self.ids[k]) <= z.contribution(self.ids, i), "the individual removed costs least hypervolume")
            self.log.append(self.ids[k])
            self.ids = self.ids[:k] + self.ids[k + 1:]
            return self
    libs = {"pymoo.algorithms.base.genetic": ns(GeneticAlgorithm=Base), "pymoo.core.population": ns(Population=zc.Pop),
            "pymoo.core.survival": ns(Survival=Base), "pymoo.indicators.hv.exact": ns(DynamicHypervolume=Base),
            "pymoo.indicators.hv.exact_2d": ns(ExactHypervolume2D=Contrib), "pymoo.indicators.hv.monte_carlo": ns(ApproximateMonteCarloHypervolume=Contrib),
            "pymoo.operators.crossover.sbx": ns(SBX=Base), "pymoo.operators.mutation.pm": ns(PM=Base),
            "pymoo.operators.sampling.rnd": ns(FloatRandomSampling=Base), "pymoo.operators.selection.tournament": ns(TournamentSelection=Base, compare=None),
            "pymoo.util.display.multi": ns(MultiObjectiveOutput=Base), "pymoo.util.dominator": ns(Dominator=None),
            "pymoo.util.nds.non_dominated_sorting": ns(NonDominatedSorting=None), "pymoo.util.normalization": ns(normalize=None), "pymoo.indicators.hv": ns(hvc_looped=None)}
    ld = Z.ZLoader(libs=libs)
    SM = ld.load("hvd.moea.sms_emoa")
    MC = SM.ApproximateMonteCarloHypervolume

    def survival(sizes, s, M, given, split):
        n = sum(sizes)

        def body(z):
            z.calcs = []
            perm = list(range(n))
            random.Random(split).shuffle(perm)
            F = z.array("f", (n, M))
            mem = [zc.Member(F=zc.arr(F[i]), rank=None, id=i) for i in range(n)]
            fronts, k = [], 0
            for c in sizes:
                fronts.append(np.array(perm[k:k + c]))
                k += c
            cf = z.fun("hvc", 2)
            z.contribution = lambda ids, i: cf(sum(1 << j for j in ids), i)

            class NDS:
                def __init__(self, *a, **k): pass

                def do(self, A, *a, n_stop_if_ranked=None, only_non_dominated_front=False, **k):
                    z.passed(np.shape(A) == (n, M) and all(u is v for u, v in zip(np.ravel(A), F.ravel())), "the objective values are sorted")
                    if only_non_dominated_front:
                        return fronts[0]
                    out, c = [], 0
                    for fr in fronts:
                        out.append(fr)
                        c += len(fr)
                        if n_stop_if_ranked is not None and c >= n_stop_if_ranked:
                            break
                    return out
            norm = {}

            def normalize(A, xl=None, xu=None, **k):
                xl = Z._reduce(Z.zmin, A, 0, None) if xl is None else xl
                xu = Z._reduce(Z.zmax, A, 0, None) if xu is None else xu
                norm.update(A=A, xl=xl, xu=xu)
                r = zc.arr([[z.real(f"n_{i}_{j}") for j, v in enumerate(row)] for i, row in enumerate(A)])
                norm["out"] = r
                return r
            SM.NonDominatedSorting, SM.normalize = NDS, normalize
            SM.ExactHypervolume = SM.ExactHypervolume2D = SM.ApproximateMonteCarloHypervolume = Contrib
            o = SM.LeastHypervolumeContributionSurvival(eps=z.real("eps", 0))
            o.eps = z.real("eps", 0)
            kw = {}
            lo, hi = z.array("lo", (M,)), z.array("hi", (M,))
            if given:
                kw = dict(ideal=lo, nadir=hi)
            r = o._do(ns(n_obj=M), zc.Pop(mem), n_survive=s, **kw)
            ids = [m.id for m in r]
            z.passed(len(ids) == s and len(set(ids)) == s and all(r[i] is mem[j] for i, j in enumerate(ids)), "exactly the requested number of distinct individuals survive")
            left, want = s, []
            for fr in fronts:
                if len(fr) <= left:
                    z.passed(set(fr) <= set(ids), "a better front is kept before a worse one")
                    left -= len(fr)
                    want += list(fr)
                    continue
                if left == 0:
                    z.passed(not set(fr) & set(ids) , "a worse front is dropped")
                    continue
                z.passed(len(z.calcs) == 1, "one contribution calculation on the split front")
                c = z.calcs[0]
                z.passed(norm["A"].shape == (len(fr), M) and all(u is v for u, v in zip(norm["A"].ravel(), F[fr].ravel())), "the split front is normalised")
                for j in range(M):
                    if given:
                        z.ensure_eq(norm["xl"][j], lo[j], "normalised by the given ideal point")
                        z.ensure_eq(norm["xu"][j], hi[j], "normalised by the given nadir point")
                    else:
                        z.ensure_eq(norm["xl"][j], Z._reduce(Z.zmin, F, 0, None)[j], "normalised by the population's ideal point")
                        z.ensure_eq(norm["xu"][j], Z._reduce(Z.zmax, F, 0, None)[j], "normalised by the population's nadir point")
                    z.ensure_eq(c.ref[j], 1 + z.real("eps"), "the reference point lies beyond the normalised nadir")
                z.passed(c.F0 is norm["out"] or all(u is v for u, v in zip(np.ravel(c.F0), norm["out"].ravel())), "contributions of the normalised front")
                z.passed([fr[i] for i in c.ids] == [i for i in ids if i in set(fr)], "the survivors of the split front are those never removed")
                left = 0
            for k, fr in enumerate(fronts):
                for i in fr:
                    if i in ids:
                        z.passed(mem[i].rank == k, "rank of the survivors")
        return body

    def rep_surv(vals):
        rng = np.random.RandomState(5)
        for _ in range(60):
            n, s = 7, int(rng.randint(1, 8))
            F = rng.rand(n, 2)
            pop = Population.new("F", F.copy())
            try:
                got = [next(i for i, p in enumerate(pop) if p is q) for q in RS.LeastHypervolumeContributionSurvival().do(PB(2), pop, n_survive=s)]
            except Exception as e:
                return dict(F=F, n_survive=s, raised=repr(e))
            r = ranks(F)
            cut = np.sort(r)[s - 1]
            bad = len(set(got)) != s or any(r[i] < cut and i not in got for i in range(n)) or any(r[i] > cut for i in got)
            if not bad:
                cur = [i for i in range(n) if r[i] == cut]
                G = (F - F.min(0)) / (F.max(0) - F.min(0))
                while len(cur) > sum(r[i] == cut for i in got):
                    cur.remove(cur[int(np.argmin(contributions(G[cur], np.full(2, 11.0))))])
                bad = set(cur) != {i for i in got if r[i] == cut}
            if bad:
                return dict(F=F, n_survive=s, survivors=got)
    for sizes, s, M, given in [((2,), 1, 2, True), ((3,), 2, 2, False), ((3,), 1, 2, True), ((2, 2), 3, 3, True), ((1, 3), 2, 2, False), ((2, 1), 2, 2, True), ((1, 2, 2), 5, 2, True), ((2, 3), 3, 2, True)]:
        nm = "+".join(map(str, sizes))
        ctx.obligation(f"survival-fronts-{nm}-keep-{s}-{M}-d-{'given' if given else 'own'}-bounds", "hvd.moea.sms_emoa.LeastHypervolumeContributionSurvival._do",
                       Z.prove(survival(sizes, s, M, given, 1), rep_surv, soft=True, jobs=8),
                       bounded=f"front sizes {nm}, {s} survivors, {M} objectives; any values and contributions")

    # ---- Monte Carlo contributions: exact shares of the samples, for every dominance table
    def mc(N, S):
        def body(z):
            V = z.real("V")
            dom = np.array([[bool(z.boolean(f"d{i}_{k}")) for k in range(S)] for i in range(N)]).reshape(N, S)
            nd = dom.sum(axis=0)
            hv = SM.hv_monte_carlo(dom, V)
            h = hv - V * int((nd > 0).sum()) / S
            z.ensure(Z.And(h <= abs(V) * 1e-9, h >= -abs(V) * 1e-9), "hypervolume = share of the samples dominated by some point")
            c = SM.hvc_monte_carlo(dom, V)
            z.passed(np.shape(c) == (N,), "one contribution per point")
            for i in range(N):
                h = c[i] - V * int((dom[i] & (nd == 1)).sum()) / S
                z.ensure(Z.And(h <= abs(V) * 1e-9, h >= -abs(V) * 1e-9), "contribution = share of the samples dominated by this point alone")
            # removing a point
            o = zc.obj(MC, F=zc.arr(np.arange(2 * N).reshape(N, 2)), hv=hv, hvc=c, V=V, dom=dom, n_samples=S, n_exclusive=1)
            for_ = N - 1
            o.delete(for_)
            z.passed(np.array_equal(o.dom, dom[:for_]) and np.array_equal(np.asarray(o.F), np.arange(2 * N).reshape(N, 2)[:for_]), "delete removes the point from both tables")
            nd2 = dom[:for_].sum(axis=0)
            h = o.hv - V * int((nd2 > 0).sum()) / S
            z.ensure(Z.And(h <= abs(V) * 1e-9, h >= -abs(V) * 1e-9), "hypervolume after the removal")
            for i in range(N - 1):
                h = o.hvc[i] - V * int((dom[i] & (nd2 == 1)).sum()) / S
                z.ensure(Z.And(h <= abs(V) * 1e-9, h >= -abs(V) * 1e-9), "contributions after the removal")
        return body

    def rep_mc(N, S):
        def f(vals):
            dom = np.array([[bool(vals.get(f"d{i}_{k}", False)) for k in range(S)] for i in range(N)])
            try:
                c = RS.hvc_monte_carlo(dom, 1.0)
                h = RS.hv_monte_carlo(dom, 1.0)
            except Exception as e:
                return dict(dom=dom, raised=repr(e))
            nd = dom.sum(0)
            e = (dom & (nd == 1)).mean(1)
            if not np.allclose(c, e) or abs(h - (nd > 0).mean()) > 1e-9:
                return dict(dom=dom, got=c, expected=e, hv=h)
            o = RS.ApproximateMonteCarloHypervolume.__new__(RS.ApproximateMonteCarloHypervolume)
            o.__dict__.update(F=np.arange(2.0 * N).reshape(N, 2), hv=h, hvc=c, V=1.0, dom=dom, n_samples=S, n_exclusive=1)
            o.delete(N - 1)
            nd2 = dom[:-1].sum(0)
            if abs(o.hv - (nd2 > 0).mean()) > 1e-9 or not np.allclose(o.hvc, (dom[:-1] & (nd2 == 1)).mean(1)):
                return dict(dom=dom, removed=N - 1, hv=o.hv, hvc=o.hvc)
        return f
    for N, S in [(1, 2), (2, 2), (3, 2), (4, 1), (2, 3)]:
        ctx.obligation(f"monte-carlo-{N}-points-{S}-samples", "hvd.moea.sms_emoa.hv_monte_carlo / hvc_monte_carlo / alpha / ApproximateMonteCarloHypervolume.delete",
                       Z.prove(mc(N, S), rep_mc(N, S), soft=True, jobs=8), bounded=f"{N} points, {S} samples, every dominance table; any box volume")

    # ---- merge and normalisation bounds
    def advance(n, k, normed):
        def body(z):
            F = z.array("f", (n + k, 2))
            mem = [zc.Member(F=zc.arr(f), id=i) for i, f in enumerate(F)]
            seen = []

            class Rec:
                def do(self, problem, pop, *a, **kw):
                    seen.append((problem, pop, kw))
                    return pop[:kw["n_survive"]]
            o = zc.obj(SM.SMSEMOA, pop=zc.Pop(mem[:n]), problem="problem", survival=Rec(), pop_size=n, normalize=normed)
            o._advance(infills=zc.Pop(mem[n:]))
            z.passed(len(seen) == 1 and seen[0][0] == "problem", "one selection")
            _, pop, kw = seen[0]
            z.passed(sorted(m.id for m in pop) == list(range(n + k)) and kw["n_survive"] == n, "parents and offspring compete for the population's size")
            z.passed([m.id for m in o.pop] == [m.id for m in pop[:n]], "the population is what the selection returned")
            if not normed:
                z.passed(kw.get("ideal") is None and kw.get("nadir") is None, "no bounds without normalisation")
                return
            for j in range(2):
                z.ensure(kw["ideal"][j] == Z._reduce(Z.zmin, F[:n], 0, None)[j], "ideal point of the current population")
                d = kw["nadir"][j] - Z._reduce(Z.zmax, F[:n], 0, None)[j]
                z.ensure(Z.And(d >= 0, d <= 1e-30), "nadir point of the current population")
        return body
    for n, k, nm in [(2, 1, True), (2, 2, False), (3, 1, True)]:
        ctx.obligation(f"advance-{n}-parents-{k}-offspring-{'normalised' if nm else 'plain'}", "hvd.moea.sms_emoa.SMSEMOA._advance",
                       Z.prove(advance(n, k, nm), soft=True), bounded=f"{n} parents, {k} offspring, 2 objectives; any values")


def concrete(ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        from hvd.moea import sms_emoa as S
        from hvd.moea.moead import ConstraintAwareMOEAD
        from pymoo.core.population import Population
        from pymoo.core.individual import Individual
    q = 1 if not ctx.thorough else 6

    def pick(res, pop):
        ids = {id(p): i for i, p in enumerate(pop)}
        out = [ids.get(id(p)) for p in res]
        if None in out:
            raise Fail("the survivors are not individuals of the merged population")
        return out

    def survival(M):
        def run(rng):
            n = int(rng.randint(2, 22 if M == 2 else 13))
            F, kind = population(rng, n, M)
            pop = Population.new("F", F.copy())
            s = int(rng.randint(1, n + 1))
            eps = float(rng.choice([10.0, .1, 1.0]))
            kw = {}
            ideal, nadir = F.min(0), F.max(0)
            if rng.rand() < .6:
                sub = F[rng.rand(n) < .7] if rng.rand() < .7 else F
                if len(sub) > 0:
                    ideal, nadir = sub.min(0), sub.max(0) + 1e-32
                    kw = dict(ideal=ideal.copy(), nadir=nadir.copy())
            surv = S.LeastHypervolumeContributionSurvival(eps=eps)
            res = surv.do(PB(M), pop, n_survive=s, **kw)
            got = pick(res, pop)
            if len(got) != s or len(set(got)) != s:
                raise Fail(f"{len(set(got))} distinct survivors out of {len(got)} instead of {s}", F=F)
            if not np.array_equal(pop.get("F"), F):
                raise Fail("survival changed the objective values", F=F)
            r = ranks(F)
            cut = np.sort(r)[s - 1]
            if any(i not in got for i in range(n) if r[i] < cut) or any(r[i] > cut for i in got):
                raise Fail("a better non-domination front lost an individual to a worse one", F=F, survivors=got)
            split = [i for i in range(n) if r[i] == cut]
            keep = [i for i in got if r[i] == cut]
            if len(keep) < len(split):
                width = np.where(nadir > ideal, nadir - ideal, 1.0)
                G = (F - ideal) / width
                ref = np.full(M, 1 + eps)
                cur = list(split)
                if M == 2:
                    while len(cur) > len(keep):
                        c = contributions(G[cur], ref)
                        lo = c.min()
                        tol = 1e-9 * (1 + np.prod(ref - np.minimum(G[cur].min(0), 0)))
                        cand = [cur[i] for i in range(len(cur)) if c[i] <= lo + tol]
                        if len(cand) > 1:
                            return (M, kind, "tie")
                        if cand[0] in keep:
                            raise Fail("the individual with the least hypervolume contribution survives on the split front",
                                       F=F, ideal=ideal, nadir=nadir, eps=eps, least=cand[0], survivors=got, contributions=c)
                        cur.remove(cand[0])
                elif len(split) - len(keep) == 1 and (G < ref).all():
                    c = contributions(G[split], ref)
                    gone = split.index([i for i in split if i not in keep][0])
                    V = np.prod(ref - G[split].min(0))
                    slack = 8 * np.sqrt((c[gone] + c.min()) * V / 2000) + 12 * V / 2000
                    if c[gone] > c.min() + slack:
                        raise Fail("the removed individual costs much more hypervolume than the least contributor",
                                   F=F, ideal=ideal, nadir=nadir, removed=gone, contributions=c, slack=slack)
            return (M, n > 8, s == n, len(split) > len(keep), kind)
        return run
    ctx.scenario("survival, two objectives", survival(2), 120 * q)
    ctx.scenario("survival, three and four objectives", lambda rng: survival(int(rng.choice([3, 3, 4])))(rng), 60 * q)

    def mc(rng):
        M = int(rng.choice([2, 3, 4]))
        n = int(rng.randint(1, 9))
        F = rng.rand(n, M)
        F[:, 0] = np.linspace(.05, .9, n)
        ref = np.full(M, 1.1)
        a = S.ApproximateMonteCarloHypervolume(ref, n_samples=4000)
        a.add(F.copy())
        cur = F.copy()
        for step in range(n + 1):
            V = np.prod(ref - F.min(0))
            c, t = contributions(cur, ref), hv(cur, ref)
            for what, g, e in (("hypervolume", np.r_[a.hv], np.r_[t]), ("contribution", np.asarray(a.hvc), c)):
                if g.shape != e.shape:
                    raise Fail(f"Monte Carlo {what}: {g.shape} values for {len(cur)} points", F=cur)
                # hv is updated incrementally, hence the factor
                sd = np.sqrt(np.maximum(e, 1e-12) * V / 4000) * (1 + step) + 10 * V / 4000
                if (np.abs(g - e) > 8 * sd).any():
                    raise Fail(f"Monte Carlo {what} is far from the exact one", F=cur, got=g, exact=e, step=step)
            if step == n - 1 or n == 1:
                break
            k = int(rng.randint(len(cur)))
            a.delete(k)
            cur = np.delete(cur, k, 0)
            if not np.array_equal(a.F, cur):
                raise Fail("deleting a point from the Monte Carlo estimator removes another one", k=k)
        return (M, n)
    ctx.scenario("Monte Carlo contributions", mc, 20 * q)

    def constrained(rng):
        M, n = 2, int(rng.randint(2, 16))
        F, _ = population(rng, n, M)
        G = np.where(rng.rand(n, 1) < .5, -rng.rand(n, 1), rng.rand(n, 1))
        pop = Population.new("F", F.copy(), "G", G)
        s = int(rng.randint(1, n + 1))
        res = S.LeastHypervolumeContributionSurvival().do(PB(M, True), pop, n_survive=s)
        got = pick(res, pop)
        feas = {i for i in range(n) if G[i, 0] <= 0}
        if len(set(got)) != s or len(got) != s:
            raise Fail("wrong number of survivors with constraints", F=F, G=G)
        nf = sum(i in feas for i in got)
        if nf != min(s, len(feas)):
            raise Fail("an infeasible individual survives while a feasible one is removed", G=G, survivors=got)
        inf = sorted((G[i, 0] for i in range(n) if i not in feas))[:s - nf]
        if not np.allclose(sorted(G[i, 0] for i in got if i not in feas), inf):
            raise Fail("infeasible survivors are not those with the least violation", G=G, survivors=got)
        return (n, len(feas), s)
    ctx.scenario("survival with constraints", constrained, 25 * q)

    def advance(rng):
        M = int(rng.choice([2, 3]))
        n, k = int(rng.randint(2, 9)), int(rng.randint(1, 9))
        F, _ = population(rng, n + k, M)
        P, O = Population.new("F", F[:n].copy()), Population.new("F", F[n:].copy())
        seen = {}

        class Rec:
            def do(self, problem, pop, *a, n_survive=None, ideal=None, nadir=None, **kw):
                seen.update(pop=pop, n=n_survive, ideal=ideal, nadir=nadir)
                return pop[:n_survive]
        norm = bool(rng.rand() < .7)
        a = S.SMSEMOA(pop_size=n, survival=Rec(), normalize=norm)
        a.pop, a.problem = P, PB(M)
        a._advance(infills=O)
        if "pop" not in seen:
            raise Skip("survival not reached")
        if {id(x) for x in seen["pop"]} != {id(x) for x in list(P) + list(O)} or len(seen["pop"]) != n + k or seen["n"] != n:
            raise Fail("selection does not see exactly the parents and the offspring", n=n, k=k)
        if norm:
            if seen["ideal"] is None or not np.allclose(seen["ideal"], F[:n].min(0)) or not np.allclose(seen["nadir"], F[:n].max(0), rtol=1e-9):
                raise Fail("normalisation bounds are not those of the current population", ideal=seen["ideal"], nadir=seen["nadir"], F=F[:n])
        elif seen["ideal"] is not None or seen["nadir"] is not None:
            raise Fail("normalisation bounds are fixed although normalisation is off")
        return (M, n, k, norm)
    ctx.scenario("merge and normalisation", advance, 25 * q)

    def decomp(M, F, W, z):
        if M == 2:
            return (np.abs(F - z) * np.where(W == 0, W, W)).max(1)
        nW = np.linalg.norm(W, axis=1)
        d1 = ((F - z) * W).sum(1) / nW
        d2 = np.linalg.norm(F - (z + d1[:, None] * W / nW[:, None]), axis=1)
        return d1 + 5 * d2

    def moead(rng):
        from pymoo.core.problem import Problem
        M = int(rng.choice([2, 3]))
        con = bool(rng.rand() < .5)
        n = int(rng.randint(3, 15))
        W = rng.rand(n, M) + .01
        W /= W.sum(1, keepdims=True)
        T = int(rng.randint(1, n + 1))
        a = ConstraintAwareMOEAD(W, n_neighbors=T)
        prob = Problem(n_var=2, n_obj=M, n_ieq_constr=int(con), xl=0, xu=1)
        a.problem = prob
        a._setup(prob)
        N = np.asarray(a.neighbors)
        D = np.linalg.norm(W[:, None] - W[None], axis=2)
        for i in range(n):
            if N.shape != (n, min(T, n)) or len(set(N[i])) != N.shape[1] or i not in N[i] \
                    or D[i, N[i]].max() > np.sort(D[i])[N.shape[1] - 1] + 1e-12:
                raise Fail("the neighbourhood is not that of the nearest reference directions", W=W, T=T, i=i, neighbours=N[i])
        F = rng.rand(n, M)
        CV = np.where(rng.rand(n) < .5, 0, rng.rand(n))
        inds = [Individual(F=f, **({"CV": np.array([c])} if con else {})) for f, c in zip(F, CV)]
        if con:
            for x, c in zip(inds, CV):
                x.CV = np.array([c])
        a.pop = Population.create(*inds)
        a.max_cv, eps = None, 0.0
        if con and rng.rand() < .6:
            a.max_cv = float(rng.rand())
            perc = float(rng.rand())

            class Term:
                pass
            a.termination = Term()
            a.termination.perc = perc
            eps = max(0.0, 1 - perc / .8) * a.max_cv
        for _ in range(4):
            k = int(rng.randint(n))
            f = rng.rand(M) * rng.choice([.4, 1.0])
            if rng.rand() < .3:  # an offspring that ties with a member (for two objectives: that ties in one objective)
                b = int(rng.randint(n))
                f = np.array(a.pop[b].F, float)
                if rng.rand() < .5:
                    f[int(rng.randint(M))] *= rng.rand()
            a.ideal = np.minimum(np.array([x.F for x in a.pop]).min(0), f)
            oc = float(rng.choice([0, rng.rand(), CV[int(rng.randint(n))]]))
            off = Individual(F=f)
            if con:
                off.CV = np.array([oc])
            before = list(a.pop)
            old = np.array([x.F for x in before])
            cvs = np.array([x.CV[0] for x in before]) if con else np.zeros(n)
            a._replace(k, off)
            for i in range(n):
                if i not in N[k]:
                    want = False
                else:
                    fv = decomp(M, old[i][None], W[[i]], a.ideal)[0]
                    ov = decomp(M, f[None], W[[i]], a.ideal)[0]
                    c1 = max(cvs[i] - eps, 0) if con else 0
                    c2 = max(oc - eps, 0) if con else 0
                    exact = M == 2 and fv == ov if c1 == 0 and c2 == 0 else c1 == c2  # a tie in any arithmetic
                    if not exact and (abs(fv - ov) < 1e-12 and c1 == 0 and c2 == 0 or (c1 > 0 and c2 > 0 and abs(c1 - c2) < 1e-12)):
                        continue
                    want = ov < fv if c1 == 0 and c2 == 0 else c2 < c1 if c1 > 0 and c2 > 0 else c2 == 0
                if want != (a.pop[i] is off):
                    raise Fail("a neighbour is " + ("not replaced by a better offspring" if want else "replaced although the offspring is not better for its subproblem"),
                               i=i, k=k, neighbours=N[k], F=old, offspring=f, cv=cvs, off_cv=oc, eps=eps, W=W)
                if a.pop[i] is not off and a.pop[i] is not before[i]:
                    raise Fail("a population member is replaced by something else than the offspring", i=i)
        return (M, con, n, T, eps > 0)
    ctx.scenario("replacement in the neighbourhood", moead, 50 * q)
    ctx.assumptions += ["pymoo's non-dominated sorting, normalisation and decomposition functions are executed, and their results checked through the survivors",
                        "for three or more objectives the contributions are Monte Carlo estimates (2000 samples), compared with the exact ones within eight standard deviations"]
