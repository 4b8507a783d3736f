"""P10: preconditioning of the Hessian."""
import numpy as np
from pyvc.check import Fail, Skip


def prove(ctx):
    """precondition_hessian for symmetric H of any size: H is known only through its smallest eigenvalue `lam`, its smallest
    diagonal entry v >= lam and its Frobenius norm r >= |lam|; cholesky(A) succeeds exactly when A is positive definite and
    returns L with L L^T = A (assumed contracts of LAPACK)"""
    from pyvc import zsym as Z
    from . import zc
    from hvd import utils as real

    class Mat:
        """h * H + t * I"""
        __array_priority__ = 3000

        def __init__(self, z, n, h, t, caller=False):
            self.z, self.n, self.h, self.t, self.caller = z, n, h, t, caller
            self.dirty = False

        @property
        def shape(self): return (self.n, self.n)
        @property
        def T(self): return self       # symmetric
        ndim = 2
        def copy(self): return Mat(self.z, self.n, self.h, self.t)
        def __copy__(self): return self.copy()
        def __deepcopy__(self, m): return self.copy()

        def _lin(self, o, s):
            if isinstance(o, Mat):
                return Mat(self.z, self.n, self.h + s * o.h, self.t + s * o.t)
            return NotImplemented

        def __add__(self, o): return self._lin(o, 1)
        def __sub__(self, o): return self._lin(o, -1)
        def __radd__(self, o): return self._lin(o, 1)
        def __mul__(self, c):
            return Mat(self.z, self.n, *[0 if not zc.sym(q) and q == 0 else q * c for q in (self.h, self.t)]) if zc.sym(c) or np.ndim(c) == 0 and not isinstance(c, Mat) else NotImplemented
        __rmul__ = __mul__
        def __neg__(self): return self * -1
        def __truediv__(self, c): return self * (1 / c)

        def _in(self, r):
            if self.caller:
                raise Z.Broken("the caller's matrix is modified in place", self.z.values_now())
            self.h, self.t = r.h, r.t
            return self
        def __iadd__(self, o): return self._in(self + o)
        def __isub__(self, o): return self._in(self - o)
        def __imul__(self, c): return self._in(self * c)
        def __setitem__(self, k, v):
            if self.caller:
                raise Z.Broken("the caller's matrix is modified in place", self.z.values_now())
            raise Z.Unsupported("assignment to an element of an abstract matrix")
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Z.Unsupported("attribute " + k + " of an abstract matrix")

        def __getitem__(self, k): raise Z.Unsupported("element of an abstract matrix")

    class Low:
        def __init__(self, m, t=False): self.m, self.t = m, t
        @property
        def T(self): return Low(self.m, not self.t)
        def transpose(self): return self.T
        def __matmul__(self, o):
            if isinstance(o, Low) and o.m is self.m and not self.t and o.t:
                return Mat(self.m.z, self.m.n, self.m.h, self.m.t)
            raise Z.Unsupported("product of factors")
        dot = __matmul__

    ld = Z.ZLoader()
    L = ld.load("hvd.utils")

    def body(z):
        lam = z.real("lam")
        v = z.real("v")
        r = z.real("norm", 0)
        n = z.int("n", 1)
        z.assume(v >= lam)
        z.assume(r >= lam)
        z.assume(r >= -lam)
        z.assume(r >= v)
        z.assume(r >= -v)
        H = Mat(z, n, 1, 0, True)

        def eig(m):
            if not zc.sym(m.h) and m.h == 1:
                return lam + m.t
            if not zc.sym(m.h) and m.h == 0:
                return m.t
            raise Z.Unsupported("spectrum of another combination")

        def chol(a, lower=False, **k):
            if not isinstance(a, Mat):
                raise Z.Unsupported("cholesky of another object")
            if k.get("overwrite_a") and a.caller:
                raise Z.Unsupported("overwrite_a")
            if not bool(eig(a) > 0):
                raise np.linalg.LinAlgError("not positive definite")
            f = Low(Mat(z, n, a.h, a.t))
            return f if lower else f.T

        def is_h(m, who):
            if not (isinstance(m, Mat) and not zc.sym(m.h) and m.h == 1 and not zc.sym(m.t) and m.t == 0):
                raise Z.Unsupported(who + " of another matrix")
        DIAG = object()

        def diag(m):
            is_h(m, "diagonal")
            return DIAG

        def mn(x, *a, **k):
            return v if x is DIAG else Z.NP.min(ld.np, x, *a, **k)

        def norm(m, *a, **k):
            is_h(m, "norm")
            if a or k:
                raise Z.Unsupported("another norm")
            return r
        ld.np.__dict__.update(diag=diag, min=mn, eye=lambda *a, **k: Mat(z, n, 0, 1), identity=lambda *a, **k: Mat(z, n, 0, 1))
        ld.np.linalg.norm = norm
        ld.np.linalg.over["cholesky"] = lambda a: chol(a, True)
        L.cholesky = chol
        R = L.precondition_hessian(H)
        if not isinstance(R, Mat) or zc.sym(R.h):
            raise Z.Unsupported("unknown form of the result")
        z.passed(R is not H, "the result is a new matrix")
        z.passed(R.h == 1, "the result is the matrix plus a multiple of the identity")
        z.ensure(lam + R.t > 0, "the result is positive definite")
        z.ensure(Z.Implies(lam > 0, Z.SymBool(Z.real2(Z.toz(R.t), Z.toz(0))[0] == Z.toz(0))), "a positive definite matrix is returned unshifted")
        z.ensure(Z.Implies(lam <= 0, Z.SymBool(Z.real2(Z.toz(R.t), Z.toz(0))[0] > Z.toz(0))), "the shift of an indefinite matrix is positive")

    def rep(vals):
        lam, v = vals["lam"], vals["v"]
        o = v - lam
        H = np.array([[v, o], [o, v]]) if abs(lam - v) > 0 else np.array([[v]])
        H0 = H.copy()
        R = np.asarray(real.precondition_hessian(H))
        w0, e = np.linalg.eigvalsh(H0)[0], None
        if not np.array_equal(H, H0):
            e = "the argument is modified"
        elif R.shape != H0.shape or not np.all(np.isfinite(R)):
            e = "malformed result"
        else:
            t = np.trace(R - H0) / len(H0)
            sc = max(np.abs(R).max(), np.abs(H0).max())
            if np.abs(R - H0 - t * np.eye(len(H0))).max() > 1e-9 * sc:
                e = "not a multiple of the identity"
            elif np.linalg.eigvalsh(R)[0] < -1e-12 * sc:
                e = f"not positive definite: {np.linalg.eigvalsh(R)[0]}"
            elif w0 > 1e-8 * sc and abs(t) > 1e-8 * sc:
                e = f"a positive definite matrix is shifted by {t}"
            elif w0 < -1e-8 * sc and t <= 0:
                e = "an indefinite matrix is not shifted"
        return {"H": H0.tolist(), "result": R.tolist(), "observed": e} if e else None
    ctx.obligation("precondition_hessian, any size", "hvd.utils.precondition_hessian", Z.prove(body, rep, budget=100))
    ctx.trusted |= {"scipy.linalg.cholesky (exact contract)", "numpy.linalg.norm >= spectral radius", "diagonal entries >= smallest eigenvalue"}


def concrete(ctx):
    from hvd import utils

    def run(H, key=None):
        H0 = H.copy()
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            R = utils.precondition_hessian(H)
        if not np.array_equal(H, H0):
            raise Fail("precondition_hessian modified its argument", H=H0, after=H)
        R = np.asarray(R)
        sc = np.abs(H0).max() + 1e-300
        n = len(H0)
        if R.shape != H0.shape or not np.all(np.isfinite(R)):
            raise Fail("precondition_hessian returned a malformed matrix", H=H0, R=R)
        if not np.allclose(R, R.T, atol=1e-9 * np.abs(R).max()):
            raise Fail("the preconditioned Hessian is not symmetric", H=H0, R=R)
        D = R - H0
        t = np.trace(D) / n
        big = max(np.abs(R).max(), sc)
        if np.abs(D - t * np.eye(n)).max() > 1e-9 * n * big:
            raise Fail("the preconditioned Hessian does not differ from the Hessian by a multiple of the identity", H=H0, R=R, difference=D)
        w = np.linalg.eigvalsh(R)
        w0 = np.linalg.eigvalsh(H0)
        e = 1e-12 * n * big
        if w[0] < -e:
            raise Fail(f"the preconditioned Hessian is not positive definite: smallest eigenvalue {w[0]}", H=H0, R=R)
        if w0[0] > 1e-9 * sc * n and abs(t) > 1e-9 * n * sc:
            raise Fail(f"a positive definite Hessian was shifted by {t}", H=H0, R=R)
        if w0[0] < -1e-9 * sc * n and t <= 0:
            raise Fail("an indefinite Hessian was not shifted", H=H0, R=R)
        return t

    def sym(rng):
        n = int(rng.randint(1, 9))
        kind = str(rng.choice(["spd", "indef", "neg", "zero", "lowrank", "posdiag", "blocks", "near", "negdiag", "bigoff"]))
        Q = np.linalg.qr(rng.randn(n, n))[0]
        s = 10 ** rng.uniform(-4, 4)
        if kind == "spd":
            w = rng.uniform(.05, 5, n)
        elif kind == "indef":
            w = rng.randn(n)
        elif kind == "neg":
            w = -rng.uniform(.05, 5, n)
        elif kind == "zero":
            w = np.zeros(n)
        elif kind == "lowrank":
            w = rng.rand(n) * (rng.rand(n) < .5)
        elif kind == "near":
            w = np.r_[rng.rand(n - 1) + 1, rng.choice([-1, 1]) * 10 ** rng.uniform(-14, -3)]
        else:
            w = rng.randn(n)
        H = Q @ np.diag(w) @ Q.T * s
        if kind == "posdiag":       # positive diagonal, indefinite
            H = rng.randn(n, n)
            H = (H + H.T) * s
            np.fill_diagonal(H, np.abs(np.diag(H)) * 1e-3 + 1e-6)
        if kind == "bigoff":        # needs a shift beyond many doublings
            H = rng.randn(n, n)
            H = (H + H.T) * 10 ** rng.uniform(5, 12)
            np.fill_diagonal(H, rng.rand(n) + 1e-3)
        if kind == "negdiag":
            H[0, 0] = -abs(H[0, 0]) * 10
        H = (H + H.T) / 2
        t = run(np.ascontiguousarray(H) if rng.rand() < .5 else np.asfortranarray(H))
        return (kind, n, t > 0)

    k = 8 if ctx.thorough else 1
    ctx.scenario("symmetric", sym, 500 * k)
