"""Path-exploring symbolic executor over the real code (z3 back end).

The module source is read from /repo on every run and executed as written by CPython.  Values are z3 terms (`Sym`),
arrays are numpy object arrays of them; `if`/`while`/comparisons on terms fork the execution and all feasible paths are
explored.  Loops with a declared invariant (contract annotation keyed by function and loop ordinal) are cut in the
Hoare style: established on entry, assumed at an arbitrary iteration, preserved by one execution of the real body.
Reals stand for machine floats.
"""
import ast
import builtins
import fractions
import functools
import gc
import math
import os
import time
import types

import numpy as onp
import z3

from .poly import Unsupported
from .check import NotProved, Refuted

REPO = os.environ.get("VERIF_REPO", "/repo")
z3.set_param("parallel.enable", False)


class Cut(Exception):
    """the path ends here (loop body verified, or assumption false)"""


class WorkerError(Exception):
    """the code under proof raised in a worker"""


class Broken(Exception):
    def __init__(self, msg, model=None):
        Exception.__init__(self, msg)
        self.model = model


CUR = None     # the explorer of the running obligation


def toz(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, onp.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, onp.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, fractions.Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, (float, onp.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite constant in a term")
        f = fractions.Fraction(repr(x))
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, onp.ndarray) and x.ndim == 0:
        return toz(x.item())
    raise Unsupported(f"no term for {type(x).__name__}")


def isfin(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, (float, onp.floating)):
        return math.isfinite(x)
    return True


def real2(a, b):
    """coerce a pair of z3 numbers to the same sort"""
    if a.sort() == b.sort():
        return a, b
    if a.is_int():
        a = z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())
    if b.is_int():
        b = z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long())
    return a, b


def _isnum(x):
    return isinstance(x, (int, float, onp.number, onp.bool_, Sym, SymBool, fractions.Fraction))


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, tob(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, tob(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        return SymBool(self.e == tob(o))

    def __hash__(self):
        return self.e.hash()

    def __repr__(self):
        return f"<{self.e}>"


def tob(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, onp.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    raise Unsupported(f"no formula for {type(x).__name__}")


class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # ---- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__":
            return NotImplemented
        ins = []
        for x in inputs:
            if isinstance(x, (Sym, SymBool)):
                a = onp.empty((), dtype=object)
                a[()] = x
                x = a
            ins.append(x)
        r = ufunc(*ins, **kw)
        if isinstance(r, onp.ndarray) and r.ndim == 0:
            return r[()]
        return r

    def _bin(self, o, f, inf):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, onp.ndarray):
            o = o.item()
        if not _isnum(o):
            return NotImplemented
        if not isfin(o):
            return inf(float(o))
        b = toz(o)
        if isinstance(o, (int, onp.integer)) and not isinstance(o, bool) and self.e.is_int():
            b = z3.IntVal(int(o))
        a, b = real2(self.e, b)
        return Sym(f(a, b))

    def __add__(self, o):
        if type(o) in (int, float) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, lambda i: i)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) in (int, float) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b, lambda i: -i)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda i: i)

    def _mulinf(self, i):
        if math.isnan(i):
            return i
        if bool(self > 0):
            return i
        if bool(self < 0):
            return -i
        return math.nan

    def __mul__(self, o):
        if type(o) in (int, float):
            if o == 0:
                return 0.0
            if o == 1:
                return self
        return self._bin(o, lambda a, b: a * b, self._mulinf)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if not isfin(o):
            return 0.0 if not math.isnan(o) else math.nan
        return div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if not isfin(o):
            return self._mulinf(float(o)) if bool(self != 0) else CUR.choose(float(o), -float(o))
        return div(o, self)

    def __neg__(self): return Sym(-self.e)
    def __pos__(self): return self
    def __abs__(self): return Sym(z3.If(self.e >= 0, self.e, -self.e)) if not CUR.fork else (self if bool(self >= 0) else -self)

    def __pow__(self, o):
        if isinstance(o, (float, onp.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, (int, onp.integer)):
            o = int(o)
            if o == 0:
                return 1
            r = self
            for _ in range(abs(o) - 1):
                r = r * self
            return r if o > 0 else 1 / r
        if isinstance(o, float) and o == .5:
            return self.sqrt()
        raise Unsupported("symbolic power")

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        return self - o * ((self / o).floor())

    def _cmp(self, o, f, pinf, ninf):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, onp.ndarray):
            o = o.item()
        if not _isnum(o):
            return NotImplemented
        if not isfin(o):
            o = float(o)
            return False if math.isnan(o) else (pinf if o > 0 else ninf)
        b = toz(o)
        if isinstance(o, (int, onp.integer)) and not isinstance(o, bool) and self.e.is_int():
            b = z3.IntVal(int(o))
        a, b = real2(self.e, b)
        return SymBool(z3.simplify(f(a, b)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, True, False)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, True, False)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, False, True)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False)
        return False if r is NotImplemented and not isinstance(o, onp.ndarray) else r

    def __ne__(self, o):
        if isinstance(o, onp.ndarray) and o.ndim:
            return NotImplemented
        if not _isnum(o):
            return True
        if not isfin(o):
            return True
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 1    # equality decides: dict/set membership forks on ==

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s):
            return float(s.as_fraction())
        if z3.is_int_value(s):
            return float(s.as_long())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("int() of a symbolic value")
    __index__ = __int__

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"<{self.e}>"

    def __copy__(self): return self
    def __deepcopy__(self, m): return self

    # ---- methods numpy calls on object elements
    def sqrt(self): return CUR.sqrt(self)
    def conjugate(self): return self
    def exp(self): return CUR.uf("exp", self, pos=True)
    def log(self): return CUR.uf("log", self)
    def sin(self): return CUR.uf("sin", self)
    def cos(self): return CUR.uf("cos", self)
    def floor(self): return Sym(z3.ToReal(z3.ToInt(self.e))) if not self.e.is_int() else self
    def ceil(self): return Sym(-z3.ToReal(z3.ToInt(-self.e))) if not self.e.is_int() else self
    def item(self): return self
    def isnan(self): return False
    def rint(self):
        """nearest integer, ties to even"""
        if self.e.is_int():
            return self
        x, f = self.e, z3.ToInt(self.e)
        d = x - z3.ToReal(f)
        up = z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), f % 2 == 1))
        return Sym(z3.ToReal(z3.If(up, f + 1, f)))

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return self.rint()

    @property
    def real(self): return self

    @property
    def T(self): return self


def div(a, b):
    za, zb = toz(a), toz(b)
    zb = z3.simplify(zb)
    if z3.is_rational_value(zb) or z3.is_int_value(zb):
        v = zb.as_fraction() if z3.is_rational_value(zb) else zb.as_long()
        if v != 0:
            za, zb = real2(za, zb)
            if za.is_int():
                za, zb = z3.ToReal(za), z3.ToReal(zb)
            return Sym(za / zb)
        iszero = True
    else:
        za, zb = real2(za, zb)
        if za.is_int():
            za, zb = z3.ToReal(za), z3.ToReal(zb)
        iszero = CUR.branch(zb == 0)
    if iszero:
        z = Sym(za)
        if bool(z > 0):
            return CUR.divzero(math.inf)
        if bool(z < 0):
            return CUR.divzero(-math.inf)
        return math.nan
    return CUR.quot(za, zb)


class Explorer:
    def __init__(self, fork=False, max_paths=20000, timeout_ms=10000, signed_zero=False, budget=60.0, linear_quot=False):
        self.fork = fork
        self.max_paths = max_paths
        self.timeout = timeout_ms
        self.signed_zero = signed_zero
        self.budget = budget
        self.checks = 0
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.linear_quot = linear_quot
        self.deadline = None

    # ---- per path state
    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.s = z3.Solver()
        self.s.set("timeout", self.timeout)
        self.pc = []
        self.n = 0
        self.inputs = {}
        self.cache = {}
        self.decided = {}
        self.ufs = {}

    def name(self, p):
        self.n += 1
        return f"{p}!{self.n}"

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        r = Sym(v)
        self.inputs[name] = v
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.assume(SymBool(v >= toi(lo)))
        if hi is not None:
            self.assume(SymBool(v <= toi(hi)))
        return Sym(v)

    def boolean(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def fresh(self, p="t", kind="real"):
        n = self.name(p)
        return Sym(z3.Real(n) if kind == "real" else z3.Int(n)) if kind != "bool" else SymBool(z3.Bool(n))

    def array(self, name, shape, **kw):
        a = onp.empty(shape, dtype=object)
        for ix in onp.ndindex(*a.shape):
            a[ix] = self.real(name + "_" + "_".join(map(str, ix)), **kw)
        return a

    def assume(self, c):
        c = tob(c)
        self.s.add(c)
        self.pc.append(c)

    def add(self, c):
        self.s.add(c)
        self.pc.append(c)

    def sat(self, c=None):
        t = time.time()
        self.queries += 1
        if c is None:
            r = self.s.check()
        else:
            self.s.push()
            self.s.add(c)
            r = self.s.check()
            self.model = self.s.model() if r == z3.sat else None
            self.s.pop()
        self.solver_s += time.time() - t
        if time.time() > self.deadline:
            raise Unsupported(f"time limit of the obligation ({self.budget:.0f} s) after {self.paths} paths")
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.decided:
            return self.decided[k][0]
        i = len(self.trace)
        if i < len(self.prefix):
            d, = self.prefix[i]
        else:
            ne = z3.Not(e)
            rt = self.sat(e)
            if rt == z3.unsat:
                d = False
            else:
                rf = self.sat(ne)
                if rf == z3.unsat:
                    d = True
                else:
                    d = True
                    self.stack.append(self.trace + [(False,)])
            if i > 4000:
                raise Unsupported("path too long")
        self.trace.append((d,))
        c = e if d else z3.Not(e)
        self.add(c)
        self.decided[k] = (d, e)   # keep e alive so that the id stays valid
        ne = z3.simplify(z3.Not(e))
        self.decided[ne.get_id()] = (not d, ne)
        return d

    def choose(self, a, b):
        """demonic choice"""
        return a if self.branch(z3.Bool(self.name("choice"))) else b

    def divzero(self, v):
        return self.choose(v, -v) if self.signed_zero else v

    def quot(self, za, zb):
        q = z3.simplify(za / zb)
        if self.linear_quot:
            k = ("q", za.get_id(), zb.get_id())
            if k in self.cache:
                return self.cache[k][0]
            f = Sym(z3.Real(self.name("q")))
            self.add(f.e * zb == za)
            self.cache[k] = (f, za, zb)
            return f
        return Sym(za / zb)

    def sqrt(self, x):
        e = z3.simplify(toz(x))
        k = ("sqrt", e.get_id())
        if k in self.cache:
            return self.cache[k][0]
        if z3.is_rational_value(e):
            v = e.as_fraction()
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return fractions.Fraction(n, d) if d != 1 else n
        if not self.branch(e >= 0):
            return math.nan
        r = Sym(z3.Real(self.name("sqrt")))
        self.add(r.e >= 0)
        self.add(r.e * r.e == e)
        self.cache[k] = (r, e)
        return r

    def uf(self, name, *args, pos=False, sort=None):
        zs = [toz(a) for a in args]
        zs = [z3.ToReal(a) if a.is_int() else a for a in zs]
        f = z3.Function(name, *([z3.RealSort()] * len(zs)), z3.RealSort() if sort is None else sort)
        e = f(*zs)
        if pos:
            self.add(e > 0)
        return Sym(e) if sort is None or sort == z3.RealSort() or sort == z3.IntSort() else SymBool(e)

    def fun(self, name, nargs=1, pos=False, nonneg=False):
        def g(*a):
            r = self.uf(name, *a, pos=pos)
            if nonneg:
                self.add(r.e >= 0)
            return r
        return g

    # ---- obligations
    def ensure(self, c, msg="postcondition", info=None):
        self.checks += 1
        if len(self.trace) < len(self.prefix):
            return     # this part of the path was executed, with this check, before the path forked
        c = tob(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.checks -= 1
                self.ensure(SymBool(x), msg, info)
                self.checks += 1
            return
        r = self.sat(z3.Not(c))
        if r == z3.unsat:
            return
        if r == z3.sat:
            raise Broken(f"{msg}{'' if info is None else ': ' + str(info)}", self.values(self.model))
        # retry from a fresh solver (non-incremental tactics are stronger on non-linear arithmetic)
        for k in range(4):
            s = z3.Solver() if k != 1 else z3.SimpleSolver()
            s.set("timeout", self.timeout)
            if k >= 2:
                s.set("random_seed", k)
                s.set("mbqi", k == 3)
            s.add(*self.pc)
            s.add(z3.Not(c))
            r = s.check()
            if os.environ.get("VERIF_DEBUG"):
                print("retry", k, r, msg)
            if r == z3.unsat:
                return
            if r == z3.sat:
                raise Broken(msg, self.values(s.model()))
        raise Unsupported(f"solver gave up on: {msg}")

    def passed(self, ok=True, msg="postcondition"):
        """a postcondition decided by the execution itself"""
        self.checks += 1
        if not ok:
            raise Broken(msg, self.values_now())

    def ensure_eq(self, a, b, msg):
        """equality of two numbers: polynomial normal form first"""
        self.checks += 1
        if not isfin(a) or not isfin(b):
            if isinstance(a, (float, onp.floating)) and isinstance(b, (float, onp.floating)) and (a == b or (a != a and b != b)):
                return
            raise Broken(f"{msg}: {a} against {b}", self.values_now())
        x, y = real2(toz(a), toz(b))
        d = z3.simplify(x - y, som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0 or z3.is_int_value(d) and d.as_long() == 0:
            return
        self.checks -= 1
        self.ensure(SymBool(x == y), msg)

    def values_now(self):
        return self.values(self.s.model()) if self.s.check() == z3.sat else None

    def values(self, m):
        if m is None:
            return None
        r = {}
        for k, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                r[k] = z3.is_true(x)
            elif z3.is_int_value(x):
                r[k] = x.as_long()
            elif z3.is_rational_value(x):
                r[k] = float(x.as_fraction())
            else:
                try:
                    r[k] = float(x.approx(20).as_fraction())
                except Exception:
                    r[k] = None
        return r

    # ---- driver
    def run(self, body, jobs=1):
        """explore all paths; with jobs > 1 the frontier is spread over forked workers once it is wide enough"""
        gc.collect()
        gc.freeze()               # the imported libraries are not to be traversed again and again
        gc.set_threshold(50000, 20, 20)
        self.stack = [[]]
        self.witness = False      # some path with a satisfiable path condition reached a check
        self.deadline = time.time() + self.budget
        if jobs <= 1:
            return self._explore(body)
        self._explore(body, width=2)
        if self.stack:
            self._fan(body, jobs)

    def _fan(self, body, jobs):
        import multiprocessing as mp
        import pickle
        work = sorted(self.stack, key=len)
        nxt = mp.Value("i", 0)          # next initial prefix
        pool = mp.SimpleQueue()         # prefixes handed over by busy workers
        lock = mp.Lock()
        pending = mp.Value("i", len(work))
        idle = mp.Value("i", 0)
        stop = mp.Value("i", 0)

        def take():
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i < len(work):
                return work[i]
            with idle.get_lock():
                idle.value += 1
            try:
                while pending.value > 0 and not stop.value and time.time() < self.deadline + 5:
                    with lock:
                        if not pool.empty():
                            return pool.get()
                    time.sleep(.002)
            finally:
                with idle.get_lock():
                    idle.value -= 1
            return None

        def share():
            if stop.value:
                self.stack = []
            elif idle.value > 0 and len(self.stack) > 1 and pool.empty():
                with lock:
                    with pending.get_lock():
                        pending.value += 1
                    pool.put(self.stack.pop(0))
        pids = {}
        for _ in range(min(jobs, len(work))):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = ("error", "worker", None)
                base = (self.paths, self.checks, self.queries, self.solver_s)
                try:
                    os.close(rd)
                    try:
                        while not stop.value:
                            w = take()
                            if w is None:
                                break
                            self.stack = [w]
                            self._explore(body, after=share)
                            with pending.get_lock():
                                pending.value -= 1
                        out = ("ok", None, None)
                    except Broken as e:
                        out = ("broken", str(e), e.model)
                    except Unsupported as e:
                        out = ("unsupported", str(e), None)
                    except BaseException as e:
                        out = ("error", f"{type(e).__name__}: {e}", None)
                    if out[0] != "ok":
                        stop.value = 1
                    st = [b - a for a, b in zip(base, (self.paths, self.checks, self.queries, self.solver_s))]
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump((out, st, self.witness), f)
                finally:
                    os._exit(0)
            os.close(wr)
            pids[pid] = rd
        self.stack = []
        outs = []
        for pid, rd in pids.items():
            with os.fdopen(rd, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                outs.append(("unsupported", "a worker ended without an answer", None))
                continue
            out, st, w = pickle.loads(data)
            self.paths += st[0]
            self.checks += st[1]
            self.queries += st[2]
            self.solver_s += st[3]
            self.witness = self.witness or w
            outs.append(out)
        for kind in ("broken", "error", "unsupported"):
            for o in outs:
                if o[0] == kind:
                    if kind == "broken":
                        raise Broken(o[1], o[2])
                    if kind == "error":
                        raise WorkerError(o[1])
                    raise Unsupported(o[1])

    def _explore(self, body, width=None, after=None):
        global CUR
        saved = CUR
        CUR = self
        try:
            while self.stack and (width is None or len(self.stack) < width):
                # depth first; breadth first while the frontier is being widened
                prefix = self.stack.pop() if width is None else self.stack.pop(0)
                self._reset(prefix)
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported(f"more than {self.max_paths} paths")
                Unsupported.RAISED.clear()
                try:
                    body(self)
                except Cut:
                    pass
                except Broken:
                    if Unsupported.RAISED:
                        raise Unsupported(Unsupported.RAISED[0])
                    raise
                if Unsupported.RAISED:
                    raise Unsupported(Unsupported.RAISED[0])
                if not self.witness and self.checks and self.s.check() != z3.unsat:
                    self.witness = True
                if after is not None:
                    after()
        finally:
            CUR = saved


def toi(x):
    if isinstance(x, Sym):
        return x.e
    return z3.IntVal(int(x)) if isinstance(x, (int, onp.integer)) else x


def prove(body, replay=None, soft=False, jobs=1, **kw):
    """thunk of an obligation: all paths of body(z) satisfy their ensures"""
    def thunk():
        ex = Explorer(**kw)
        try:
            ex.run(body, jobs)
        except Broken as e:
            vals = e.model
            msg = f"{e} at {({k: vals[k] for k in list(vals)[:40]} if vals else None)}"
            rp = None
            if replay is not None and vals is not None:
                rp = replay(vals)
                if rp is not None and not isinstance(rp, dict):
                    rp = {"input": vals, "observed": str(rp)}
            if soft and rp is None:
                raise NotProved("proof does not go through: " + msg)
            raise Refuted(msg, rp)
        if not ex.witness and ex.checks:
            raise Unsupported("vacuous: the assumptions of every path are contradictory")
        if ex.checks == 0:
            raise Unsupported("vacuous: no postcondition was reached")
        return f"z3 path exploration"
    return thunk


# ------------------------------------------------------------------ invariants of loops
class Loop:
    """contract annotation of one loop.
    inv(env, k) -> formula over the locals (env is a dict) and the iteration index k (for `for` loops; None for while)
    havoc: name -> function(z, old value) giving an arbitrary value of the right kind (default: real / bool / int)
    mutated: function(z, env) that makes mutable state reachable from locals arbitrary
    size(iterable) / item(iterable, k): length and element of the iterated sequence for symbolic sequences"""

    def __init__(self, inv, havoc=None, mutated=None, assume=None, dead=()):
        self.inv, self.havocs, self.mutated, self.assume_, self.dead = inv, havoc or {}, mutated, assume, dead


class SeqLen:
    """a sequence of symbolic length: item(k) for 0 <= k < n"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def vlen(self):
        return self.n

    def __getitem__(self, k):
        return self.item(k)


class SRange(SeqLen):
    def __init__(self, a, b):
        SeqLen.__init__(self, Sym(toi(b) - toi(a)), lambda k: Sym(z3.simplify(toi(a) + toi(k))))


class _Run:
    """state of one annotated loop during a path"""

    def __init__(self, key, spec, it, env, modified):
        self.key, self.spec, self.modified = key, spec, modified
        self.it = it
        self.brk = False
        z = CUR
        self.entry = dict(env)
        if it is not None:
            self.n = it.n if isinstance(it, SeqLen) else len(it)
            k0 = 0
        else:
            self.n = None
            k0 = None
        z.ensure(tob(spec.inv(self.env(env), k0)), f"loop invariant of {key} on entry")
        if it is not None:
            self.k = Sym(z3.Int(z.name("k")))
            z.assume(SymBool(self.k.e >= 0))
            z.assume(SymBool(self.k.e <= toi(self.n)))
        else:
            self.k = None

    def env(self, env):
        e = dict(env)
        e["entry_"] = getattr(self, "entry", None)
        return e

    def havoc(self, env):
        z = CUR
        out = {}
        for v in self.modified:
            if v not in env and v not in self.spec.havocs:
                out[v] = None
                continue
            if v in self.spec.dead:
                out[v] = None
                continue
            h = self.spec.havocs.get(v)
            old = env.get(v)
            if h is not None:
                out[v] = h(z, old)
            elif isinstance(old, (bool, SymBool)):
                out[v] = z.fresh(v, "bool")
            elif isinstance(old, (int, onp.integer)) or isinstance(old, Sym) and old.e.is_int():
                out[v] = z.fresh(v, "int")
            elif isinstance(old, (float, Sym)):
                out[v] = z.fresh(v, "real")
            elif old is None:
                out[v] = None
            elif hasattr(old, "arbitrary"):
                out[v] = old.arbitrary(z)
            else:
                raise Unsupported(f"loop {self.key}: no arbitrary value for {v}")
        if self.spec.mutated:
            self.spec.mutated(z, {**env, **out})
        e = self.env({**env, **out})
        z.assume(tob(self.spec.inv(e, self.k)))
        return tuple(out[v] for v in self.modified)

    def more(self):
        return CUR.branch(self.k.e < toi(self.n))

    def elem(self):
        return self.it.item(self.k) if isinstance(self.it, SeqLen) else self.it[int(self.k)]

    def end(self, env):
        k = Sym(self.k.e + 1) if self.k is not None else None
        CUR.ensure(tob(self.spec.inv(self.env(env), k)), f"loop invariant of {self.key} is preserved")
        raise Cut()


class Cutter(ast.NodeTransformer):
    """rewrites annotated loops; every other statement is kept as written"""

    def __init__(self, keys):
        self.keys = keys          # "Class.func" / "func" -> {ordinal}
        self.stack = []
        self.count = {}
        self.k = 0
        self.used = set()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = ast.Call(ast.Name("vc_is_", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.IsNot) else c
        return n

    def _loop(self, n, isfor):
        q = ".".join(self.stack)
        o = self.count.get(q, 0)
        self.count[q] = o + 1
        self.generic_visit(n)
        if (q, o) not in self.keys:
            return n
        self.used.add((q, o))
        self.k += 1
        r = f"vc_loop{self.k}_"
        if n.orelse:
            raise Unsupported("annotated loop with an else branch")
        mod = sorted(_stored(n) | set(self.keys[(q, o)].havocs))
        mods = ", ".join(mod)
        key = f"{q}#{o}"
        body = [BreakMark(r).visit(s) for s in n.body]
        src = [f"{r} = vc_enter_({key!r}, VCIT, locals(), {mod!r})"]
        if mod:
            src.append(f"({mods},) = {r}.havoc(locals())")
        else:
            src.append(f"{r}.havoc(locals())")
        pre = ast.parse("\n".join(src)).body
        pre[0].value.args[1] = n.iter if isfor else ast.Constant(None)
        once = ast.parse(f"for {r}_ in (0,):\n    pass").body[0]
        once.body = body
        end = ast.parse(f"if not {r}.brk:\n    {r}.end(locals())").body
        if isfor:
            iff = ast.parse(f"if {r}.more():\n    pass").body[0]
            bind = ast.parse(f"x = {r}.elem()").body[0]
            bind.targets = [n.target]
            iff.body = [bind, once] + end
        else:
            iff = ast.If(n.test, [once] + end, [])
        return [ast.copy_location(x, n) for x in pre + [iff]]

    def visit_For(self, n):
        return self._loop(n, True)

    def visit_While(self, n):
        return self._loop(n, False)


class BreakMark(ast.NodeTransformer):
    def __init__(self, r):
        self.r = r

    def visit_Break(self, n):
        return [ast.parse(f"{self.r}.brk = True").body[0], ast.Break()]

    def visit_For(self, n):
        return n
    visit_While = visit_For
    visit_FunctionDef = visit_For
    visit_Lambda = visit_For


def _stored(n):
    s = set()
    for c in ast.walk(n):
        if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store) and not c.id.startswith("vc_"):
            s.add(c.id)
        if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            pass
    comp = set()
    for c in ast.walk(n):
        if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in c.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        comp.add(x.id)
    outer = set()

    def walk(c):
        for y in ast.iter_child_nodes(c):
            if isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and not y.id.startswith("vc_"):
                outer.add(y.id)
            walk(y)
    walk(n)
    return outer


# ------------------------------------------------------------------ numpy for object arrays
def hassym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, onp.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(hassym(y) for y in x)
    return False


def vec(f):
    u = None

    def g(*a):
        arrs = [onp.asarray(x, dtype=object) if not isinstance(x, (Sym, SymBool)) else _box(x) for x in a]
        b = onp.broadcast_arrays(*arrs)
        out = onp.empty(b[0].shape, dtype=object)
        for ix in onp.ndindex(*out.shape):
            out[ix] = f(*[y[ix] for y in b])
        return out if out.ndim else out[()]
    return g


def _box(x):
    a = onp.empty((), dtype=object)
    a[()] = x
    return a


def zmax(a, b):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return math.nan
    c = a >= b
    if isinstance(c, SymBool):
        if CUR.fork or not isfin(a) or not isfin(b):
            return a if c else b
        x, y = real2(toz(a), toz(b))
        return Sym(z3.simplify(z3.If(x >= y, x, y)))
    return a if c else b


def zmin(a, b):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return math.nan
    c = a <= b
    if isinstance(c, SymBool):
        if CUR.fork or not isfin(a) or not isfin(b):
            return a if c else b
        x, y = real2(toz(a), toz(b))
        return Sym(z3.simplify(z3.If(x <= y, x, y)))
    return a if c else b


def _isnan(x):
    return isinstance(x, (float, onp.floating)) and math.isnan(x)


def masked(a):
    """object array of decided booleans -> bool array"""
    a = onp.asarray(a)
    return a.astype(bool) if a.dtype == object else a


class NP:
    """numpy with replacements for what C code cannot do on symbolic elements"""

    def __init__(self, over=None):
        self._over = dict(over or {})
        self.linalg = LA(self)

    def __getattr__(self, k):
        if k in self._over:
            return self._over[k]
        return getattr(onp, k)

    ndarray = onp.ndarray

    def array(self, x, dtype=None, **kw):
        if dtype in (float, "float", "d", onp.float64) or dtype is None:
            return _objarr(x)
        return onp.array(x, dtype=dtype, **kw)

    def asarray(self, x, dtype=None, **kw):
        if isinstance(x, onp.ndarray) and (dtype is None or x.dtype == object):
            return x
        return self.array(x, dtype)

    def zeros(self, s, dtype=float, **kw): return _full(s, 0.0, dtype)
    def ones(self, s, dtype=float, **kw): return _full(s, 1.0, dtype)
    def empty(self, s, dtype=float, **kw): return _full(s, 0.0, dtype)
    def full(self, s, v, dtype=None, **kw): return _full(s, v, dtype or (type(v) if isinstance(v, (bool, int)) else float))
    def zeros_like(self, x, dtype=None): return _full(onp.shape(x), 0.0, dtype or (bool if onp.asarray(x).dtype == bool else float))
    def ones_like(self, x, dtype=None): return _full(onp.shape(x), 1.0, dtype or float)

    def eye(self, n, *a, **k):
        return onp.eye(n, *a, **k).astype(object)

    def sqrt(self, x): return vec(lambda a: CUR.sqrt(a) if isinstance(a, Sym) else (onp.sqrt(a)))(x)
    def abs(self, x): return vec(abs)(x)
    absolute = abs
    fabs = abs
    def sign(self, x): return vec(_sign)(x)
    def floor(self, x): return vec(lambda a: a.floor() if isinstance(a, Sym) else onp.floor(a))(x)
    def exp(self, x): return vec(lambda a: a.exp() if isinstance(a, Sym) else onp.exp(a))(x)
    def mod(self, x, m): return vec(lambda a, b: a % b)(x, m)
    def maximum(self, a, b): return vec(zmax)(a, b)
    def minimum(self, a, b): return vec(zmin)(a, b)
    def square(self, a): return vec(lambda a: a * a)(a)
    def power(self, a, b): return vec(lambda a, b: a ** b)(a, b)

    def clip(self, x, a_min=None, a_max=None, **kw):
        if a_min is not None:
            x = self.maximum(x, a_min)
        if a_max is not None:
            x = self.minimum(x, a_max)
        return x

    def isnan(self, x): return masked(vec(_isnan)(x))
    def isfinite(self, x): return masked(vec(isfin)(x))
    def isinf(self, x): return masked(vec(lambda a: not isfin(a) and not _isnan(a))(x))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        def f(a, b):
            if not isfin(a) or not isfin(b):
                return (not _isnan(a)) and (not _isnan(b)) and (a == b) is True
            return bool(abs(a - b) <= atol + rtol * abs(b))
        r = vec(f)(a, b)
        return masked(r) if isinstance(r, onp.ndarray) else bool(r)

    def min(self, x, axis=None, initial=None, **kw): return _reduce(zmin, x, axis, initial, **kw)
    def max(self, x, axis=None, initial=None, **kw): return _reduce(zmax, x, axis, initial, **kw)
    amin, amax = min, max

    def nanmin(self, x, axis=None, **kw):
        return _reduce(lambda a, b: b if _isnan(a) else a if _isnan(b) else zmin(a, b), x, axis, None)

    def sum(self, x, axis=None, **kw):
        x = onp.asarray(x, dtype=object) if not isinstance(x, onp.ndarray) else x
        return onp.sum(x, axis=axis, **kw)

    def prod(self, x, axis=None, **kw):
        return onp.prod(_objarr(x) if not isinstance(x, onp.ndarray) else x, axis=axis, **kw)
    product = prod

    def mean(self, x, axis=None, **kw):
        x = onp.asarray(x)
        n = x.size if axis is None else x.shape[axis]
        return onp.sum(x, axis=axis, **kw) / n

    def all(self, x, axis=None, **kw): return onp.all(masked(x), axis=axis, **kw)
    def any(self, x, axis=None, **kw): return onp.any(masked(x), axis=axis, **kw)
    def nonzero(self, x): return onp.nonzero(masked(vec(bool)(x)) if onp.asarray(x).dtype == object else x)
    def count_nonzero(self, x, **k): return onp.count_nonzero(masked(vec(bool)(x)) if onp.asarray(x).dtype == object else x, **k)

    def where(self, c, *a):
        if not a:
            return self.nonzero(c)
        return vec(lambda c, x, y: x if c else y)(c, *a)

    def stack(self, xs, axis=0, **kw):
        return onp.stack([_objarr(x) for x in xs], axis=axis)

    def cumsum(self, x, axis=None, **kw):
        x = _objarr(x)
        return onp.cumsum(x, axis=axis) if hassymval(x) else onp.cumsum(onp.asarray([int(v) if isinstance(v, (int, onp.integer)) else v for v in x.ravel()]).reshape(x.shape), axis=axis)

    def interp(self, *a):
        raise Unsupported("interp")

    def median(self, x, **kw):
        return CUR.fresh("median")

    def einsum(self, spec, *ops, **kw):
        return onp.einsum(spec, *[_objarr(o) for o in ops])

    def finfo(self, *a): return onp.finfo(float)

    def _rand(self):
        raise Unsupported("random numbers")


def hassymval(x):
    return any(isinstance(v, (Sym, SymBool)) for v in onp.asarray(x, dtype=object).ravel())


def _sign(a):
    if not isinstance(a, Sym):
        return onp.sign(a)
    if bool(a > 0):
        return 1.0
    return -1.0 if bool(a < 0) else 0.0


def _objarr(x):
    if isinstance(x, onp.ndarray):
        return x.copy()
    a = onp.array(x, dtype=None) if not hassym(x) else onp.array(x, dtype=object)
    if a.dtype.kind == "f":
        a = a.astype(object)
    return a


def _full(s, v, dtype=float):
    if dtype in (float, "float", onp.float64, onp.double, None):
        a = onp.empty(s, dtype=object)
        a[...] = v
        return a
    return onp.full(s, v, dtype=dtype)


def _reduce(f, x, axis, initial, keepdims=False, **kw):
    x = onp.asarray(x, dtype=object) if not isinstance(x, onp.ndarray) else x
    if x.dtype != object:
        x = x.astype(object)
    if axis is None:
        x, axis = x.ravel(), 0
    x = onp.moveaxis(x, axis, 0)
    out = onp.empty(x.shape[1:], dtype=object)
    for ix in onp.ndindex(*out.shape):
        r = initial
        for k in range(x.shape[0]):
            v = x[(k,) + ix]
            r = v if r is None else f(r, v)
        if r is None:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        out[ix] = r
    return out if out.ndim else out[()]


class LA:
    def __init__(self, np):
        self.np = np
        self.over = {}

    def __getattr__(self, k):
        if k in ("np", "over"):
            raise AttributeError(k)
        if k in self.over:
            return self.over[k]
        return getattr(onp.linalg, k)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = onp.asarray(x, dtype=object)
        s = onp.sum(x * x, axis=axis)
        return self.np.sqrt(s)


# ------------------------------------------------------------------ loading
class ZLoader:
    def __init__(self, loops=None, over=None, np_over=None, libs=None, globs=None, pre=None):
        """loops: {module: {(qualname, ordinal): Loop}}, libs: {module name: namespace object}, globs: {module: {name: object}}"""
        self.loops = loops or {}
        self.np = NP(np_over)
        self.libs = libs or {}
        self.globs = globs or {}
        self.pre = pre            # (module name, tree) -> tree: extraction declared by a contract
        self.mods = {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, *name.split("."))
        ispkg = os.path.isdir(path)
        fname = os.path.join(path, "__init__.py") if ispkg else path + ".py"
        m = types.ModuleType(name)
        m.__file__ = fname
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [path]
        self.mods[name] = m
        if ispkg:
            return m
        tree = ast.parse(open(fname).read(), fname)
        if self.pre:
            tree = ast.fix_missing_locations(self.pre(name, tree))
        keys = self.loops.get(name, {})
        if keys:
            c = Cutter(keys)
            tree = c.visit(tree)
            miss = set(keys) - c.used
            if miss:
                from .check import Skip
                raise Skip(f"no loop {miss} in {name}")
            ast.fix_missing_locations(tree)
        b = dict(vars(builtins))
        b["__import__"] = self._import(m)
        b.update(len=z_len, range=z_range, min=z_minb, max=z_maxb, abs=abs, print=lambda *a, **k: None, float=ZFloat)
        m.__dict__["__builtins__"] = b
        m.__dict__["vc_is_"] = vc_is
        m.__dict__["vc_enter_"] = lambda key, it, env, mod: _Run(key, keys[_k(key)], it, env, mod)
        exec(compile(tree, fname, "exec", dont_inherit=True), m.__dict__)
        m.__dict__.update(self.globs.get(name, {}))
        return m

    def _import(self, mod):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                pkg = mod.__package__.split(".")
                pkg = pkg[:len(pkg) - (level - 1)]
                full = ".".join(pkg + ([name] if name else []))
                return self._hvd(full, fromlist)
            if name == "hvd" or name.startswith("hvd."):
                return self._hvd(name, fromlist)
            if name in self.libs:
                return self.libs[name]
            if name in ("numpy", "autograd.numpy"):
                if name == "autograd.numpy":
                    ns = types.SimpleNamespace(numpy=self.np)
                    return self.np if fromlist else ns
                return self.np
            if name.split(".")[0] in ("matplotlib", "sklearn", "sklearn_extra", "jax", "autograd", "pymoo", "plotly", "pandas"):
                from . import shims
                return shims._Any(name)
            return __import__(name, {}, {}, fromlist or (), 0)
        return imp

    def _hvd(self, full, fromlist):
        m = self.load(full)
        for f in fromlist or ():
            if not hasattr(m, f):
                p = os.path.join(REPO, *full.split("."), f)
                if os.path.exists(p + ".py") or os.path.isdir(p):
                    setattr(m, f, self.load(full + "." + f))
        return m


def vc_is(a, b):
    """identity; abstract objects decide for themselves"""
    for x, y in ((a, b), (b, a)):
        if hasattr(x, "same_object"):
            return bool(x.same_object(y))
    return a is b


def _k(key):
    q, o = key.rsplit("#", 1)
    return q, int(o)


class _ZF(type):
    def __instancecheck__(c, x):
        return isinstance(x, (float, Sym))

    def __call__(c, x=0.0):
        return x if isinstance(x, Sym) else float(x)

    def __eq__(c, o):
        return o is float or o is c

    def __hash__(c):
        return hash(float)


class ZFloat(metaclass=_ZF):
    pass


def z_len(x):
    return x.vlen() if hasattr(x, "vlen") else len(x)


def z_range(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [x if isinstance(x, Sym) else x for x in a]
        if not any(isinstance(x, Sym) and not z3.is_int_value(z3.simplify(x.e)) for x in a):
            return range(*[int(x) for x in a])
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2:
            return SRange(*a)
        raise Unsupported("symbolic range step")
    return range(*a)


def z_minb(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, Sym) for x in xs):
        return min(xs, **k)
    r = xs[0]
    for y in xs[1:]:
        r = zmin(r, y)
    return r


def z_maxb(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, Sym) for x in xs):
        return max(xs, **k)
    r = xs[0]
    for y in xs[1:]:
        r = zmax(r, y)
    return r


# ------------------------------------------------------------------ formulas
def And(*c): return SymBool(z3.And(*[tob(x) for x in c])) if c else SymBool(z3.BoolVal(True))
def Or(*c): return SymBool(z3.Or(*[tob(x) for x in c])) if c else SymBool(z3.BoolVal(False))
def Not(c): return SymBool(z3.Not(tob(c)))
def Implies(a, b): return SymBool(z3.Implies(tob(a), tob(b)))
def Iff(a, b): return SymBool(tob(a) == tob(b))


def ForAll(names, f):
    vs = [z3.Int(CUR.name(n)) for n in names]
    return SymBool(z3.ForAll(vs, tob(f(*[Sym(v) for v in vs]))))


def Exists(names, f):
    vs = [z3.Int(CUR.name(n)) for n in names]
    return SymBool(z3.Exists(vs, tob(f(*[Sym(v) for v in vs]))))


def seq(z, name, n):
    """a sequence of n reals given by an uninterpreted function of the index"""
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    return SeqLen(n, lambda k: Sym(f(toi(k))))

functools_cmp = functools.cmp_to_key
