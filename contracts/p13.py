"""P13: problem evaluation and its derivatives."""
import contextlib
import io
import numpy as np
from pyvc.check import Fail, Skip
from contracts import p14


def near(a, b, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol * (1 + np.abs(b[np.isfinite(b)]).max(initial=0)), equal_nan=True)))


def fd(f, x, h):
    return np.stack([(np.asarray(f(x + h * e), float) - np.asarray(f(x - h * e), float)) / (2 * h) for e in np.eye(len(x))], -1)


def check_derivative(f, d, x, what, step=1e-5, **data):
    """d = derivative of f at x, judged only where two difference quotients agree (away from kinks)"""
    a, b = fd(f, x, step), fd(f, x, step / 4)
    d = np.asarray(d, float)
    if d.shape != a.shape:
        raise Fail(f"{what}: shape {d.shape} instead of {a.shape}", **data)
    fs = 1 + np.abs(np.asarray(f(x), float))
    fs = fs.reshape(fs.shape + (1,))
    noise = 40 * np.finfo(float).eps * fs / (step / 4)
    smooth = np.abs(a - b) < 1e-4 * (1 + np.abs(a)) + noise
    smooth &= np.isfinite(a) & np.isfinite(b)
    e = b + (b - a) / 15
    bad = smooth & ~(np.abs(d - e) < 3e-4 * (1 + np.abs(e)) + 4 * np.abs(a - b) + 10 * noise)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Fail(f"{what}: entry {i} is {d[i]!r}, difference quotient {e[i]!r}", x=x, **data)
    return float(smooth.mean())


NAMES = p14.ZDTS + p14.DTLZS + p14.EQ + p14.UFS + p14.CFS + p14.CONVS
WFG = p14.WFGS


def interior(rng, p, m=None):
    lo, hi = np.asarray(p.xl, float), np.asarray(p.xu, float)
    return lo + (.05 + .9 * rng.rand(*( (m, len(lo)) if m is not None else (len(lo),)))) * (hi - lo)


def parts(p):
    r = [("objective", p.n_obj)]
    if getattr(p, "n_ieq_constr", 0):
        r.append(("ieq", p.n_ieq_constr))
    if getattr(p, "n_eq_constr", 0):
        r.append(("eq", p.n_eq_constr))
    return r


def fns(p, w):
    b = "objective" if w == "objective" else w + "_constraint"
    return getattr(p, b), getattr(p, b + "_batch"), getattr(p, w + "_jacobian"), getattr(p, w + "_jacobian_batch"), getattr(p, w + "_hessian"), getattr(p, w + "_hessian_batch")


def check_problem(rng, p, name, hess=True, small=1e-5):
    n = p.n_var
    m = int(rng.choice([1, 2, 3, 7]))
    X = interior(rng, p, m)
    X0 = X.copy()
    sm = []
    for w, k in parts(p):
        f, fb, J, Jb, H, Hb = fns(p, w)
        vals = [np.asarray(f(x)) for x in X]
        for v in vals:
            if v.size != k or (v.ndim != 1 and not (k == 1 and v.ndim == 0)):
                raise Fail(f"{name}: {w} has shape {v.shape} instead of ({k},)", x=X[0])
        B = np.asarray(fb(X))
        if B.reshape(m, -1).shape != (m, k) or not near(B.reshape(m, k), np.array([v.ravel() for v in vals])):
            raise Fail(f"{name}: batch evaluation of {w} differs from the single evaluations", X=X, batch=B, single=vals)
        x = X[0]
        Jx = np.asarray(J(x))
        if Jx.shape != (k, n):
            raise Fail(f"{name}: Jacobian of {w} has shape {Jx.shape}", x=x)
        sm.append(check_derivative(lambda z: np.asarray(f(z)).ravel(), Jx, x, f"{name}: Jacobian of {w}", small))
        JB = np.asarray(Jb(X))
        if not near(JB, np.array([J(z) for z in X]), 1e-8):
            raise Fail(f"{name}: batch Jacobian of {w} differs from the single ones", X=X)
        if hess:
            Hx = np.asarray(H(x))
            if Hx.shape != (k, n, n):
                raise Fail(f"{name}: Hessian of {w} has shape {Hx.shape}", x=x)
            sm.append(check_derivative(lambda z: np.asarray(J(z)), Hx, x, f"{name}: Hessian of {w}", small))
            HB = np.asarray(Hb(X))
            if not near(HB, np.array([H(z) for z in X]), 1e-7):
                raise Fail(f"{name}: batch Hessian of {w} differs from the single ones", X=X)
    if not np.array_equal(X, X0):
        raise Fail(f"{name}: evaluation modified its input")
    return sm


def build(rng, name, **kw):
    sz = p14.sizes(name, rng)
    if "DTLZ" in name:
        sz = (min(sz[0], sz[1] + 3), sz[1])
    if name in ("CF1", "CF2", "CF3", "UF3") and sz[0] < 4:
        sz = (4,) + sz[1:]
    return p14.make(name, *sz, **kw)


def concrete(ctx):
    import hvd.problems as HP
    from hvd.problems.base import MOP, CMOP
    from hvd.problems.misc import DisConnected
    import jax.numpy as jnp
    q = 1 if not ctx.thorough else 5

    def native(names, hess):
        order = list(names)

        def run(rng):
            if not order:
                order.extend(names)
            name = order.pop(rng.randint(len(order)))
            p = build(rng, name)
            sm = check_problem(rng, p, name, hess, 1e-7 if name.startswith(("DTLZ1", "DTLZ3")) else 1e-5 if not name.startswith("WFG") else 1e-6)
            return (name, p.n_var, p.n_obj, min(sm) > .9)
        return run

    def factory(rng):
        names = ["zdt1", "zdt2", "zdt3", "zdt4", "zdt6", "dtlz1", "dtlz2", "dtlz5", "dtlz7", "bnh", "osy", "srn", "tnk"]
        name = str(rng.choice(names))
        con = bool(rng.rand() < .5)
        p = HP.get_pymoo_problem(name, boundary_constraints=con)
        own = p.n_ieq_constr - 2 * p.n_var * con
        check_problem(rng, p, "pymoo " + name, False)
        x = interior(rng, p)
        if con:
            g = np.asarray(p.ieq_constraint(x))
            if not near(g[own:], np.r_[p.xl - x, x - p.xu]):
                raise Fail(f"pymoo {name}: bound constraints are not last", x=x, g=g)
        return (name, con)
    ctx.scenario("pymoo factory", factory, 8 * q)
    ctx.scenario("native, first order", native(NAMES, False), 40 * q)
    ctx.scenario("native, second order", native(NAMES, True), 14 * q)

    def custom(rng):
        n, m = int(rng.randint(1, 7)), int(rng.randint(1, 5))
        p_, q_ = int(rng.randint(0, 3)), int(rng.randint(0, 4))
        A = [rng.randn(k, n) for k in (m, p_, q_)]
        B = [rng.randn(k, n) for k in (m, p_, q_)]

        def mk(i):
            return lambda self, x: jnp.sin(A[i] @ x) + (B[i] @ x) ** 2 * x[0]
        C = type("Custom", (CMOP,), dict(_objective=mk(0), _eq_constraint=mk(1), _ieq_constraint=mk(2)))
        scalar = rng.rand() < .3
        lo, hi = (-1.0, 2.0) if scalar else (-1 - rng.rand(n), 1 + rng.rand(n))
        con = bool(rng.rand() < .5)
        pr = C(n_var=n, n_obj=m, xl=lo, xu=hi, n_eq_constr=p_, n_ieq_constr=q_, boundary_constraints=con)
        L, U = np.broadcast_to(lo, n), np.broadcast_to(hi, n)
        if not (near(pr.xl, L) and near(pr.xu, U)):
            raise Fail("bounds are not expanded to one value per variable", xl=pr.xl)
        if (pr.n_eq_constr, pr.n_ieq_constr) != (p_, q_ + 2 * n * con):
            raise Fail("wrong number of constraints declared", declared=(pr.n_eq_constr, pr.n_ieq_constr), own=(p_, q_), bounds=con)
        x = rng.randn(n) * 2
        own = lambda i: np.sin(A[i] @ x) + (B[i] @ x) ** 2 * x[0]
        if not near(pr.objective(x), own(0)):
            raise Fail("objective differs from the supplied function", x=x)
        if p_ and not near(pr.eq_constraint(x), own(1)):
            raise Fail("equality constraint differs from the supplied function", x=x)
        if pr.n_ieq_constr:
            g = np.asarray(pr.ieq_constraint(x))
            e = np.r_[own(2), L - x, x - U] if con else own(2)
            if not near(g, e):
                raise Fail("inequality constraints are not the problem's own ones followed by the bounds", x=x, got=g, expected=e)
            if con:
                z = x.copy()
                for j in range(n):
                    z[j] = [L[j], U[j], (L[j] + U[j]) / 2, L[j] - .1, U[j] + .1][rng.randint(5)]
                inside = ((z >= L) & (z <= U)).all()
                if (np.asarray(pr.ieq_constraint(z))[q_:] <= 0).all() != inside:
                    raise Fail("bound constraints are not non-positive exactly inside the box", x=z, xl=L, xu=U)
        check_problem(rng, pr, "user-defined problem", True)
        return (n, m, p_, q_, con, scalar)
    ctx.scenario("user-defined problems", custom, 10 * q)

    def bounds(rng):
        name = str(rng.choice([z for z in NAMES if z.startswith(("DTLZ", "UF", "CF", "CONV", "Eq1"))]))
        st = rng.get_state()
        p = build(rng, name, boundary_constraints=True)
        rng.set_state(st)
        o = build(rng, name)
        n = p.n_var
        own = o.n_ieq_constr
        if p.n_ieq_constr != own + 2 * n or p.n_eq_constr != o.n_eq_constr:
            raise Fail(f"{name}: wrong number of constraints with bounds", declared=p.n_ieq_constr, own=own)
        x = interior(rng, p)
        x[rng.randint(n)] += rng.choice([-10, 0, 10])
        g = np.asarray(p.ieq_constraint(x))
        e = np.r_[np.asarray(o.ieq_constraint(x)).ravel() if own else [], np.asarray(o.xl) - x, x - np.asarray(o.xu)]
        if not near(g, e):
            raise Fail(f"{name}: inequality constraints with bounds are not the own ones followed by the bounds", x=x, got=g, expected=e)
        x = interior(rng, p)
        J = np.asarray(p.ieq_jacobian(x))
        if J.shape != (own + 2 * n, n) or not near(J[own:], np.r_[-np.eye(n), np.eye(n)]):
            raise Fail(f"{name}: Jacobian of the bound constraints is wrong", x=x)
        return (name, n)
    ctx.scenario("bound constraints", bounds, 14 * q)

    def misc(rng):
        p = DisConnected(boundary_constraints=bool(rng.rand() < .5))
        check_problem(rng, p, "DisConnected", True)
        x = interior(rng, p)
        x0, x1 = x
        e = (2.5 * x0) ** 2 - 5 * x0 + 1 - x1 if x0 <= .6 else 1 - (2.5 * x0) ** 2 - 5 - x1
        g = np.asarray(p.ieq_constraint(x))[:2]
        if not near(np.ravel(p.eq_constraint(x)), [e]) or not near(g, [.1 - x0, x0 - .4] if x0 <= .5 else [.6 - x0, x0 - .8]):
            raise Fail("DisConnected: constraints", x=x)
        return "misc"
    ctx.scenario("DisConnected", misc, 1 * q)

    def invalid(rng):
        import warnings
        class Q(MOP):
            def _objective(self, x):
                return x[:1]
        n = int(rng.randint(2, 6))
        bad = [dict(n_var=0), dict(n_var=-n), dict(n_var=1.5), dict(n_var=True), dict(n_var="3"), dict(n_obj=0), dict(n_obj=2.0), dict(n_obj=False),
               dict(xl=np.zeros(n + 1)), dict(xu=np.ones(n - 1) if n > 2 else np.ones(3)), dict(xl=np.zeros((2, n))), dict(xl=np.r_[np.zeros(n - 1), 2.0])]
        for b in bad:
            kw = dict(n_var=n, n_obj=1, xl=0.0, xu=1.0)
            kw.update(b)
            try:
                Q(**kw)
            except ValueError:
                continue
            except Exception as e:
                raise Fail(f"invalid definition raises {type(e).__name__} instead of ValueError", definition=b)
            raise Fail("an invalid problem definition is accepted", definition=b)
        class R(CMOP):
            _objective = Q._objective
        for b in (dict(n_eq_constr=-1), dict(n_ieq_constr=-2)):
            try:
                R(n_var=n, n_obj=1, xl=0, xu=1, **b)
            except ValueError:
                continue
            raise Fail("a negative number of constraints is accepted", definition=b)
        lo = np.zeros(n)
        r = Q(n_var=np.int64(n), n_obj=1, xl=lo, xu=1)
        lo[:] = 5
        if not near(r.xl, np.zeros(n)):
            raise Fail("the problem shares its bounds with the caller's array")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            u = HP.UF1(n_var=5, n_obj=3)
            if u.n_obj != 2 or not w:
                raise Fail("a fixed number of objectives is overridden silently", n_obj=u.n_obj)
        return n
    ctx.scenario("invalid definitions are rejected", invalid, 3 * q)

    def adapters(rng):
        name = str(rng.choice(["ZDT1", "CF1", "CF6", "UF8", "Eq1DTLZ2", "CONV3", "DTLZ2"]))
        con = name not in ("ZDT1",) and bool(rng.rand() < .5)
        p = build(rng, name, **({"boundary_constraints": True} if con else {}))
        with contextlib.redirect_stdout(io.StringIO()):
            a = p.as_pymoo_problem()
        if (a.n_var, a.n_obj, a.n_ieq_constr, a.n_eq_constr) != (p.n_var, p.n_obj, getattr(p, "n_ieq_constr", 0), getattr(p, "n_eq_constr", 0)) or not near(a.xl, p.xl) or not near(a.xu, p.xu):
            raise Fail(f"{name}: the pymoo view declares other sizes or bounds")
        X = interior(rng, p, int(rng.randint(1, 5)))
        out = {}
        a._evaluate(X, out)
        if not near(out["F"], np.array([p.objective(x) for x in X])):
            raise Fail(f"{name}: the pymoo view returns other objective values", X=X)
        for key, w, k in (("G", "ieq", a.n_ieq_constr), ("H", "eq", a.n_eq_constr)):
            if k:
                e = np.array([np.ravel(fns(p, w)[0](x)) for x in X])
                if key not in out or not near(np.asarray(out[key]).reshape(len(X), -1), e):
                    raise Fail(f"{name}: the pymoo view returns other {w} constraints", X=X)
            elif key in out:
                raise Fail(f"{name}: the pymoo view reports {w} constraints that do not exist")
        return (name, con)
    ctx.scenario("pymoo view", adapters, 8 * q)
    ctx.scenario("native, WFG", native(WFG, False), 3 * q)
    ctx.assumptions += ["derivatives are judged where two central difference quotients agree (non-smooth points excluded)"]


def prove(ctx):
    from . import p13s
    p13s.prove(ctx)
