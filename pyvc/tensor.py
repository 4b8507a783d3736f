"""Symbolic arrays: a shape of symbolic extents and an element function index -> Poly.

Views share storage with their base like numpy basic slices do; every other operation copies.
"""
import itertools
import builtins
from fractions import Fraction
from . import poly as pl
from .poly import Poly, P, Unsupported, V, A, ZERO, ONE, delta, ind, psum, fresh_name, RANGE


class Axis:
    pass


class Sel(Axis):
    """the index set {k in [0,n): mask(k)} in increasing order; elements are addressed by k itself"""

    def __init__(self, n, mask):
        self.n, self.mask = P(n), mask

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, Sel) or self.n != o.n:
            return False
        k = newidx(self.n)
        return self.mask(k) == o.mask(k)

    def size(self):
        k = newidx(self.n)
        return psum(vname(k), self.n, self.mask(k))


def newidx(n, prefix="i"):
    b = fresh_name(prefix)
    RANGE[b] = n.n if isinstance(n, Sel) else P(n)
    return V(b)


def vname(p):
    return next(iter(p.t))[0][0][1]


def size_of(ax):
    return ax.size() if isinstance(ax, Sel) else ax


def ax_same(a, b):
    if isinstance(a, Sel) or isinstance(b, Sel):
        return isinstance(a, Sel) and isinstance(b, Sel) and a.same(b)
    return a == b or CTX.dims_equal(a, b)


def ax_one(a):
    return not isinstance(a, Sel) and a == ONE


class Ctx:
    """path context: how symbolic conditions are decided"""

    def __init__(self):
        self.facts = []

    def dims_equal(self, a, b):
        return (P(a) - P(b)) == ZERO

    def entails(self, p):
        """p is a 0/1 polynomial; True only when it is certainly 1 under the range facts"""
        p = P(p)
        return p.is_const() and p.const() == 1

    def decide(self, p):
        for q, v in self.facts:
            if q == p:
                return v
        raise Unsupported(f"branch on a symbolic condition: {pl.pretty(p)[:200]}")

    def assume(self, p, v=True):
        self.facts.append((P(p), v))
        self.facts.append((ONE - P(p), not v))


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c


class T:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, fn, kind="f", base=None, wmap=None):
        self.shape_ = tuple(s if isinstance(s, Axis) else P(s) for s in shape)
        self.kind = kind
        self._fn = fn
        self.base = base          # base array for views
        self.wmap = wmap          # function(target base idx) -> (cond, own idx)
        self.meta = None

    # ---------------------------------------------------------------- plumbing
    def at_(self, *idx):
        return self._fn(*idx)

    def snap(self):
        """element function frozen at this moment"""
        if self.base is not None:
            bf, rm = self.base.snap(), self.rmap
            return lambda *i: bf(*rm(*i))
        return self._fn

    def as_poly(self):
        if len(self.shape_) == 0:
            return self.at_()
        if all(ax_one(s) for s in self.shape_):
            return self.at_(*([ZERO] * len(self.shape_)))
        raise Unsupported("array used as a scalar")

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def shape(self):
        return tuple(scalar(size_of(s), "i") for s in self.shape_)

    @property
    def size(self):
        r = ONE
        for s in self.shape_:
            r = r * size_of(s)
        return scalar(r, "i")

    @property
    def T(self):
        return self.transpose()

    @property
    def dtype(self):
        return {"f": float, "i": int, "b": bool}[self.kind]

    def __repr__(self):
        if self.ndim == 0:
            return f"T({self.at_()})"
        return f"T{tuple(self.shape_)}"

    def vlen(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return scalar(size_of(self.shape_[0]), "i")

    def __len__(self):
        n = P(self.vlen())
        if n.is_const():
            return int(n.const())
        raise Unsupported("len() needed as a machine integer")

    def __bool__(self):
        p = self.as_poly()
        if self.kind != "b":
            p = ONE - ind("eq", p, 0)
        if p.is_const():
            return p.const() != 0
        return CTX.decide(p)

    def __index__(self):
        p = self.as_poly()
        if p.is_const() and p.const().denominator == 1:
            return int(p.const())
        raise Unsupported("symbolic integer needed as a machine integer")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        p = self.as_poly()
        if p.is_const():
            return float(p.const())
        raise Unsupported("symbolic real needed as a machine float")

    def __hash__(self):
        return hash(self.as_poly())

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = size_of(self.shape_[0])
        if n.is_const() and not isinstance(self.shape_[0], Sel):
            return iter([self[k] for k in range(int(n.const()))])
        raise Unsupported("native iteration over a symbolic-length array")

    # ---------------------------------------------------------------- arithmetic
    def __add__(s, o): return ew(lambda a, b: a + b, s, o)
    def __radd__(s, o): return ew(lambda a, b: a + b, o, s)
    def __sub__(s, o): return ew(lambda a, b: a - b, s, o)
    def __rsub__(s, o): return ew(lambda a, b: a - b, o, s)
    def __mul__(s, o): return NotImplemented if isinstance(o, (list, tuple)) and s.ndim == 0 else ew(lambda a, b: a * b, s, o)
    def __rmul__(s, o): return ew(lambda a, b: a * b, o, s)
    def __truediv__(s, o): return ew(lambda a, b: a / b, s, o, kind="f")
    def __rtruediv__(s, o): return ew(lambda a, b: a / b, o, s, kind="f")
    def __pow__(s, o): return ew(lambda a, b: pl.ppow(a, b), s, o)
    def __rpow__(s, o): return ew(lambda a, b: pl.ppow(a, b), o, s)
    def __floordiv__(s, o): return ew(_floordiv, s, o)
    def __rfloordiv__(s, o): return ew(_floordiv, o, s)
    def __mod__(s, o): return ew(_mod, s, o)
    def __neg__(s): return ew(lambda a: -a, s)
    def __pos__(s): return s
    def __abs__(s): return ew(pl.fabs, s)
    def __lt__(s, o): return ew(lambda a, b: ind("lt", a, b), s, o, kind="b")
    def __le__(s, o): return ew(lambda a, b: ind("le", a, b), s, o, kind="b")
    def __gt__(s, o): return ew(lambda a, b: ind("lt", b, a), s, o, kind="b")
    def __ge__(s, o): return ew(lambda a, b: ind("le", b, a), s, o, kind="b")
    def __eq__(s, o): return False if o is None or isinstance(o, str) else ew(lambda a, b: ind("eq", a, b), s, o, kind="b")
    def __ne__(s, o): return True if o is None or isinstance(o, str) else ew(lambda a, b: ONE - ind("eq", a, b), s, o, kind="b")
    def __and__(s, o): return ew(pl.andp, s, o, kind="b")
    def __rand__(s, o): return ew(pl.andp, s, o, kind="b")
    def __or__(s, o): return ew(pl.orp, s, o, kind="b")
    def __ror__(s, o): return ew(pl.orp, s, o, kind="b")
    def __xor__(s, o): return ew(lambda a, b: a + b - 2 * a * b, s, o, kind="b")
    def __invert__(s):
        if s.kind != "b":
            raise Unsupported("bitwise not of integers")
        return ew(pl.notp, s, kind="b")
    def __matmul__(s, o): return matmul(s, o)
    def __rmatmul__(s, o): return matmul(o, s)

    # in-place operators write through (views included), as numpy's do
    def _inplace(self, r):
        if self.ndim == 0 and self.base is None:
            return r
        self[...] = r
        return self

    def __iadd__(s, o): return s._inplace(s + o)
    def __isub__(s, o): return s._inplace(s - o)
    def __imul__(s, o): return s._inplace(s * o)
    def __itruediv__(s, o): return s._inplace(s / o)

    # ---------------------------------------------------------------- methods
    def copy(self):
        return T(self.shape_, memo(self.snap()), self.kind)

    __copy__ = copy

    def __deepcopy__(self, _m):
        return self.copy()

    def astype(self, t=None, **kw):
        r = self.copy()
        if t in (float, "float", "float64"):
            r.kind = "f"
        elif t in (bool, "bool"):
            if r.kind != "b":
                f = r._fn
                r._fn = lambda *i: ONE - ind("eq", f(*i), 0)
            r.kind = "b"
        elif t in (int, "int"):
            if r.kind == "f":
                raise Unsupported("float to int conversion")
            r.kind = "i"
        return r

    def sum(self, axis=None, keepdims=False, **kw): return reduce_sum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **kw): return mean(self, axis, keepdims)
    def any(self, axis=None, **kw): return reduce_any(self, axis)
    def all(self, axis=None, **kw): return reduce_all(self, axis)
    def dot(self, o): return matmul(self, o)
    def ravel(self, *a): return reshape(self, (-1,))
    def flatten(self, *a): return reshape(self, (-1,)).copy()
    def reshape(self, *s, **kw): return reshape(self, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
    def squeeze(self, axis=None):
        return squeeze(self, axis)
    def item(self):
        return self.as_poly() and scalar(self.as_poly(), self.kind) or scalar(ZERO, self.kind)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        axes = tuple(range(n))[::-1] if not axes else tuple(int(a) % n for a in axes)
        inv = [0] * n
        for k, a in enumerate(axes):
            inv[a] = k
        r = T([self.shape_[a] for a in axes], None, self.kind)
        src = self
        r.base = src.base if False else src
        r.rmap = lambda *i: tuple(i[inv[k]] for k in range(n))
        r.wmap = lambda *t: (ONE, tuple(t[a] for a in axes))
        r._fn = lambda *i: src.at_(*r.rmap(*i))
        return r

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    @property
    def at(self):
        return _At(self)

    def write(self, cond, val):
        """cond, val: functions of the index tuple; element t becomes val(t) where cond(t)"""
        if self.base is not None:
            wm = self.wmap
            if wm is None:
                raise Unsupported("write through a non-invertible view")

            def c2(*t):
                c, own = wm(*t)
                return c * cond(*own) if c != ZERO else ZERO

            def v2(*t):
                c, own = wm(*t)
                return val(*own)
            self.base.write(c2, v2)
            return
        old = self._fn

        def fn(*t):
            c = cond(*t)
            if c == ONE:
                return val(*t)
            if c == ZERO:
                return old(*t)
            return c * val(*t) + (ONE - c) * old(*t)
        self._fn = memo(fn)
        if self.kind == "i":
            pass


def memo(fn):
    cache = {}

    def g(*i):
        k = i
        r = cache.get(k)
        if r is None:
            r = cache[k] = fn(*i)
        return r
    return g


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        return _AtOp(self.a, key)


class _AtOp:
    def __init__(self, a, key):
        self.a, self.key = a, key

    def set(self, v, **kw):
        r = self.a.copy()
        r[self.key] = v
        return r

    def add(self, v, **kw):
        r = self.a.copy()
        r[self.key] = r[self.key] + v
        return r

    def multiply(self, v, **kw):
        r = self.a.copy()
        r[self.key] = r[self.key] * v
        return r

    mul = multiply


def _floordiv(a, b):
    return pl.floordiv(a, b)


def _mod(a, b):
    return pl.pmod(a, b)


def scalar(p, kind=None):
    p = P(p)
    if kind is None:
        kind = "f"
    if kind == "i" and p.is_const() and p.const().denominator == 1:
        return int(p.const())
    return T((), lambda: p, kind)


def is_scalar_like(x):
    import numpy as np
    return isinstance(x, (int, float, bool, Fraction, Poly, np.generic)) or (isinstance(x, T) and x.ndim == 0)


class SymList:
    """a Python list of symbolic length whose k-th element is a function of k"""

    def __init__(self, n, idx, elem):
        self.n, self.idx, self.elem = n, idx, elem     # idx: index Poly the element is written in

    def vlen(self):
        return scalar(size_of(self.n), "i")

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic list")
        return subst_obj(self.elem, {vname(self.idx): P(k)})

    def stack(self):
        return stack_obj(self.n, self.idx, self.elem)


def subst_obj(x, m):
    if isinstance(x, T):
        f = x.snap()
        shape = []
        for s in x.shape_:
            if isinstance(s, Sel):
                shape.append(Sel(pl.subst(s.n, m), (lambda mk: lambda k: _subst_keep(mk, (k,), m))(s.mask)))
            else:
                shape.append(pl.subst(s, m))
        return T(shape, memo(lambda *i: _subst_keep(f, i, m)), x.kind)
    if isinstance(x, tuple):
        return tuple(subst_obj(y, m) for y in x)
    if isinstance(x, list):
        return [subst_obj(y, m) for y in x]
    if isinstance(x, Poly):
        return pl.subst(x, m)
    return x


def _subst_keep(f, idx, m):
    """substitute in f(idx) but not inside the index arguments themselves"""
    if not any(i.free() & set(m) for i in idx):
        return pl.subst(f(*idx), m)
    ph, back = [], {}
    for i in idx:
        if i.free() & set(m):
            b = fresh_name("k")
            for n_ in i.free():
                if n_ in RANGE:
                    RANGE[b] = RANGE[n_]
            ph.append(V(b))
            back[b] = i
        else:
            ph.append(i)
    r = pl.subst(f(*ph), m)
    return pl.subst(r, back)


def stack_obj(n, idx, x):
    if isinstance(x, (list, tuple)):
        x = stack([to_T(y) for y in x])
    x = to_T(x)
    f = x.snap()
    v = vname(idx)
    for s in x.shape_:
        if isinstance(s, Sel) or v in s.free():
            raise Unsupported("stack of ragged arrays")
    return T((n,) + x.shape_, memo(lambda k, *i: f(*i) if k == idx else _subst_keep(f, i, {v: k})), x.kind)


def to_T(x):
    import numpy as np
    if isinstance(x, T):
        return x
    if isinstance(x, Poly):
        return T((), lambda: x, "f")
    if isinstance(x, bool) or isinstance(x, np.bool_):
        p = P(bool(x))
        return T((), lambda: p, "b")
    if isinstance(x, (int, np.integer)):
        p = P(int(x))
        return T((), lambda: p, "i")
    if isinstance(x, (float, Fraction, np.floating)):
        p = P(float(x)) if not isinstance(x, Fraction) else P(x)
        return T((), lambda: p, "f")
    if isinstance(x, SymList):
        return x.stack()
    if isinstance(x, range):
        return to_T(list(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return to_T(x.tolist())
        x = x.copy()
        kind = {"f": "f", "i": "i", "u": "i", "b": "b"}[x.dtype.kind]

        def fn(*idx):
            return _table(x, idx)
        return T(x.shape, memo(fn), kind)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return T((0,), lambda i: ZERO, "f")
        return stack([to_T(y) for y in x])
    if hasattr(x, "to_T"):
        return x.to_T()
    raise Unsupported(f"cannot convert {type(x).__name__} to an array")


def _table(x, idx):
    for k, i in enumerate(idx):
        if not i.is_const():
            r = ZERO
            for v in range(x.shape[k]):
                r = r + delta(i, v) * _table(x, idx[:k] + (P(v),) + idx[k + 1:])
            return r
    v = x[tuple(int(i.const()) for i in idx)]
    return P(v.item())


def stack(ts, axis=0):
    ts = [to_T(t) for t in ts]
    nd = max(t.ndim for t in ts)
    shp = ts[0].shape_
    for t in ts:
        if t.ndim != nd or not all(ax_same(a, b) for a, b in zip(t.shape_, shp)):
            raise Unsupported("stack of arrays with different shapes")
    axis = axis % (nd + 1)
    fs = [t.snap() for t in ts]

    def fn(*i):
        k, rest = i[axis], i[:axis] + i[axis + 1:]
        if k.is_const():
            return fs[int(k.const())](*rest)
        r = ZERO
        for j, f in enumerate(fs):
            d = delta(k, j)
            if d != ZERO:
                r = r + d * f(*rest)
        return r
    kinds = {t.kind for t in ts}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
    return T(shp[:axis] + (P(len(ts)),) + shp[axis:], memo(fn), kind)


# -------------------------------------------------------------------- broadcasting
def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            a = s[j]
            if ax_one(a):
                continue
            if ax_one(cur):
                cur = a
            elif not ax_same(cur, a):
                raise Unsupported(f"cannot show that shapes agree: {cur} vs {a}")
        out.append(cur)
    return tuple(out)


def bfn(t, out):
    f, n, k = t.snap(), len(out), t.ndim
    ones = [ax_one(t.shape_[j]) and not ax_one(out[n - k + j]) for j in range(k)]

    def g(*i):
        j = i[n - k:]
        return f(*[ZERO if o or (ax_one(out[n - k + q])) else x for q, (x, o) in enumerate(zip(j, ones))])
    return g


def ew(op, *args, kind=None):
    for a in args:
        if isinstance(a, MaskView):
            return mv_ew(op, *args, kind=kind)
    try:
        ts = [to_T(a) for a in args]
    except Unsupported:
        if any(not isinstance(a, (T, Poly, int, float, list, tuple, SymList)) and not hasattr(a, "dtype") for a in args):
            return NotImplemented
        raise
    out = bshape(*[t.shape_ for t in ts])
    fs = [bfn(t, out) for t in ts]
    if kind is None:
        kinds = {t.kind for t in ts}
        kind = "f" if "f" in kinds else "i"
    if not out:
        v = op(*[f() for f in fs])
        if kind == "i" and v.is_const() and v.const().denominator == 1:
            return int(v.const())
        return T((), lambda: v, kind)
    return T(out, memo(lambda *i: op(*[f(*i) for f in fs])), kind)


class MaskView:
    """A[mask] for a mask of the full leading shape, kept as (array, mask) so that it can be combined
    elementwise and written back under the same mask"""
    __array_priority__ = 1001
    __array_ufunc__ = None

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def _same(self, o):
        i = [newidx(s) for s in self.mask.shape_]
        return len(self.mask.shape_) == len(o.mask.shape_) and all(
            ax_same(a, b) for a, b in zip(self.mask.shape_, o.mask.shape_)) and self.mask.at_(*i) == o.mask.at_(*i)

    def to_T(self):
        if self.mask.ndim == 1:
            ax = Sel(self.mask.shape_[0], self.mask.snap())
            f = self.arr.snap()
            return T((ax,) + self.arr.shape_[1:], f, self.arr.kind)
        raise Unsupported("compressed multi-dimensional mask")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.to_T(), name)

    def vlen(self):
        return self.to_T().vlen()

    def __getitem__(self, key):
        return self.to_T()[key]


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow mod floordiv neg abs lt le gt ge eq ne and or invert").split():
    def _mk(n):
        m = getattr(T, f"__{n}__")
        return lambda self, *o: m(self, *o)
    setattr(MaskView, f"__{_n}__", _mk(_n))
MaskView.__hash__ = lambda self: id(self)


def mv_ew(op, *args, kind=None):
    ref = next(a for a in args if isinstance(a, MaskView))
    arrs = []
    for a in args:
        if isinstance(a, MaskView):
            if not ref._same(a):
                raise Unsupported("masked arrays with different masks")
            arrs.append(a.arr)
        elif is_scalar_like(a):
            arrs.append(a)
        else:
            raise Unsupported("masked array combined with a plain array")
    return MaskView(ew(op, *arrs, kind=kind), ref.mask)


# -------------------------------------------------------------------- indexing
class Slc:
    def __init__(self, start, step, n):
        self.start, self.step, self.n = start, step, n


def norm_slice(s, n):
    if isinstance(n, Sel):
        if s == slice(None, None, None):
            return None
        raise Unsupported("slice of a compressed axis")
    step = 1 if s.step is None else int(s.step)
    if step > 0:
        start = ZERO if s.start is None else P(s.start)
        stop = n if s.stop is None else P(s.stop)
        start = _wrap(start, n)
        stop = _wrap(stop, n)
        start = _clampn(start, n)
        stop = _clampn(stop, n)
        ln = stop - start
        if ln.is_const() and ln.const() < 0:
            ln = ZERO
        elif not ln.is_const() and not pl.lower_bound_ge0(ln):
            if not CTX.entails(ind("le", 0, ln)):
                raise Unsupported(f"slice bounds {start}:{stop} may cross")
        if step != 1:
            ln = pl.floordiv(ln + (step - 1), step)
        return Slc(start, step, ln)
    if step == -1 and s.start is None and s.stop is None:
        return Slc(n - 1, -1, n)
    if step == -1 and s.stop is None:
        st = _wrap(P(s.start), n)
        return Slc(st, -1, st + 1)
    raise Unsupported("negative slice step")


def _wrap(x, n):
    if x.is_const() and x.const() < 0:
        return n + x
    if x.is_const():
        return x
    if pl.lower_bound_ge0(x):
        return x
    if pl.lower_bound_ge0(-x - 1):
        return n + x
    if CTX.entails(ind("le", 0, x)):
        return x
    raise Unsupported(f"sign of slice bound {x} unknown")


def _clampn(x, n):
    if (n - x).is_const():
        return x if (n - x).const() >= 0 else n
    if pl.lower_bound_ge0(n - x):
        return x
    if pl.lower_bound_ge0(x - n):
        return n
    if CTX.entails(ind("le", x, n)):
        return x
    raise Unsupported(f"slice bound {x} not known to be within {n}")


def norm_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    for k in key:
        if isinstance(k, list) or (hasattr(k, "dtype") and not isinstance(k, (T, MaskView)) and getattr(k, "ndim", 0) > 0) or isinstance(k, SymList) or isinstance(k, MaskView):
            k = to_T(k)
        out.append(k)
    key = out

    def ncov(k):
        if k is None or k is Ellipsis:
            return 0
        if isinstance(k, T) and k.kind == "b" and k.ndim > 0:
            return k.ndim
        return 1
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    cov = sum(ncov(k) for k in key)
    if cov > t.ndim:
        raise IndexError("too many indices")
    p = next(i for i, k in enumerate(key) if k is Ellipsis)
    key = key[:p] + [slice(None)] * (t.ndim - cov) + key[p + 1:]
    return key


def check_index(i, n):
    """normalise a (possibly negative) integer index"""
    i = P(i)
    if i.is_const() and i.const() < 0:
        return size_of(n) + i
    return i


def getitem(t, key):
    key = norm_key(t, key)
    # full boolean mask
    if len([k for k in key if k is not Ellipsis]) >= 1 and isinstance(key[0], T) and key[0].kind == "b" and key[0].ndim >= 1:
        m = key[0]
        rest = [k for k in key[1:] if not (isinstance(k, slice) and k == slice(None))]
        if m.ndim == t.ndim and not rest:
            if m.ndim >= 2:
                return MaskView(t, m)
            return MaskView(t, m)
    shape, adv = [], []
    items = []      # per source axis: ('int',p) ('slc',Slc|None) ('adv',T)
    ax = 0
    order = []      # output layout tokens
    for k in key:
        if k is None:
            order.append(("new",))
            continue
        if isinstance(k, T) and k.kind == "b" and k.ndim >= 1:
            if k.ndim != 1:
                raise Unsupported("multi-dimensional mask inside an index tuple")
            sel = Sel(t.shape_[ax], k.snap())
            items.append(("adv", T((sel,), lambda i: i, "i")))
            order.append(("adv", len(items) - 1))
            ax += 1
            continue
        if isinstance(k, slice):
            s = norm_slice(k, t.shape_[ax])
            items.append(("slc", s))
            order.append(("slc", len(items) - 1))
            ax += 1
            continue
        kt = to_T(k)
        if kt.ndim == 0:
            items.append(("int", check_index(kt.at_(), t.shape_[ax])))
        else:
            items.append(("adv", _wrapidx(kt, t.shape_[ax])))
        order.append((items[-1][0], len(items) - 1))
        ax += 1
    advs = [i for i, it in enumerate(items) if it[0] == "adv"]
    if not advs:
        oshape, omap = [], []
        for o in order:
            if o[0] == "new":
                oshape.append(ONE)
                omap.append(None)
            elif o[0] == "slc":
                s = items[o[1]][1]
                oshape.append(t.shape_[o[1]] if s is None else s.n)
                omap.append(o[1])
        pos = {src: k for k, src in enumerate(omap) if src is not None}

        def rmap(*i):
            r = []
            for a, it in enumerate(items):
                if it[0] == "int":
                    r.append(it[1])
                else:
                    x = i[pos[a]]
                    r.append(x if it[1] is None else it[1].start + x * it[1].step)
            return tuple(r)

        def wmap(*tt):
            c = ONE
            own = [ZERO] * len(oshape)
            for a, it in enumerate(items):
                if it[0] == "int":
                    c = c * delta(tt[a], it[1])
                else:
                    s = it[1]
                    if s is None:
                        own[pos[a]] = tt[a]
                    else:
                        cc, x = slc_inv(s, tt[a], t.shape_[a])
                        c = c * cc
                        own[pos[a]] = x
                if c == ZERO:
                    break
            return c, tuple(own)
        r = T(oshape, None, t.kind, base=t, wmap=wmap)
        r.rmap = rmap
        r._fn = lambda *i: t.at_(*rmap(*i))
        if not oshape:      # scalars are values, not views
            v = t.at_(*rmap())
            return scalar(v, t.kind)
        return r
    # advanced indexing (copy)
    ash = bshape(*[items[i][1].shape_ for i in advs])
    afs = {i: bfn(items[i][1], ash) for i in advs}
    toks = []
    ints = [i for i, it in enumerate(items) if it[0] in ("adv", "int")]
    contiguous = all(o[0] in ("adv", "int") for o in order[_first(order):_last(order) + 1])
    for o in order:
        if o[0] in ("new", "slc"):
            toks.append(o)
    npre = len([o for o in order[:_first(order)] if o[0] in ("new", "slc")]) if contiguous else 0
    oshape = []
    for k, o in enumerate(toks[:npre]):
        oshape.append(ONE if o[0] == "new" else (t.shape_[o[1]] if items[o[1]][1] is None else items[o[1]][1].n))
    a0 = len(oshape)
    oshape += list(ash)
    for o in toks[npre:]:
        oshape.append(ONE if o[0] == "new" else (t.shape_[o[1]] if items[o[1]][1] is None else items[o[1]][1].n))
    pos = {}
    for k, o in enumerate(toks):
        if o[0] == "slc":
            pos[o[1]] = k if k < npre else k + len(ash)
    f = t.snap()

    def fn(*i):
        ai = i[a0:a0 + len(ash)]
        r = []
        for a, it in enumerate(items):
            if it[0] == "int":
                r.append(it[1])
            elif it[0] == "adv":
                r.append(afs[a](*ai))
            else:
                x = i[pos[a]]
                r.append(x if it[1] is None else it[1].start + x * it[1].step)
        return f(*r)
    return T(oshape, memo(fn), t.kind)


def _first(order):
    return next(i for i, o in enumerate(order) if o[0] in ("adv",) or o[0] == "int")


def _last(order):
    return max(i for i, o in enumerate(order) if o[0] in ("adv", "int"))


def _wrapidx(kt, n):
    # concrete negative entries
    if all(not isinstance(s, Sel) and s.is_const() for s in kt.shape_) and kt.ndim == 1:
        f = kt.snap()
        vals = [f(P(v)) for v in range(int(kt.shape_[0].const()))]
        if any(v.is_const() and v.const() < 0 for v in vals):
            return to_T([scalar(check_index(v, n), "i") for v in vals])
    return kt


def slc_inv(s, x, n):
    """base index x -> (condition that the slice selects it, own index)"""
    if s.step == 1:
        c = ONE
        own = x - s.start
        if not (s.start == ZERO):
            c = c * ind("le", s.start, x)
        if not (s.start + s.n == n):
            c = c * ind("lt", x, s.start + s.n)
        return c, own
    if s.step == -1:
        c = ind("le", x, s.start) if s.start != n - 1 else ONE
        return c, s.start - x
    q = pl.floordiv(x - s.start, s.step)
    c = delta(pl.pmod(x - s.start, s.step), 0) * ind("le", s.start, x) * ind("lt", q, s.n)
    return c, q


def setitem(t, key, val):
    key = norm_key(t, key)
    if isinstance(key[0], T) and key[0].kind == "b" and key[0].ndim >= 1 and (
            key[0].ndim == t.ndim or all(isinstance(k, slice) and k == slice(None) for k in key[1:])):
        m = key[0]
        mf = m.snap()
        nd = m.ndim
        if isinstance(val, MaskView):
            if not MaskView(t, m)._same(val):
                raise Unsupported("masked write with a different mask")
            vf = bfn(val.arr, t.shape_)
            t.write(lambda *i: mf(*i[:nd]), vf)
            return
        v = to_T(val)
        if v.ndim == 0:
            vf0 = v.at_()
            t.write(lambda *i: mf(*i[:nd]), lambda *i: vf0)
            return
        if nd == 1 and isinstance(v.shape_[0], Sel) and v.shape_[0].same(Sel(t.shape_[0], mf)):
            vf = v.snap()
            t.write(lambda *i: mf(*i[:1]), vf)
            return
        if nd == 1 and v.ndim == t.ndim - 1:
            vf = v.snap()
            t.write(lambda *i: mf(*i[:1]), lambda *i: vf(*i[1:]))
            return
        raise Unsupported("masked write of an array")
    items, order, ax = [], [], 0
    for k in key:
        if k is None:
            order.append(("new",))
            continue
        if isinstance(k, T) and k.kind == "b" and k.ndim >= 1:
            if k.ndim != 1:
                raise Unsupported("multi-dimensional mask inside an index tuple")
            sel = Sel(t.shape_[ax], k.snap())
            items.append(("adv", T((sel,), lambda i: i, "i")))
        elif isinstance(k, slice):
            items.append(("slc", norm_slice(k, t.shape_[ax])))
        else:
            kt = to_T(k)
            if kt.ndim == 0:
                items.append(("int", check_index(kt.at_(), t.shape_[ax])))
            else:
                items.append(("adv", _wrapidx(kt, t.shape_[ax])))
        order.append((items[-1][0], len(items) - 1))
        ax += 1
    advs = [i for i, it in enumerate(items) if it[0] == "adv"]
    v = to_T(val)
    if not advs:
        oshape, pos = [], {}
        for o in order:
            if o[0] == "new":
                oshape.append(ONE)
            elif o[0] == "slc":
                pos[o[1]] = len(oshape)
                s = items[o[1]][1]
                oshape.append(t.shape_[o[1]] if s is None else s.n)
        if v.ndim > len(oshape):
            v = squeeze_lead(v, len(oshape))
        for a, b in zip(v.shape_[::-1], tuple(oshape)[::-1]):
            if not ax_one(a) and not ax_same(a, b):
                raise Unsupported(f"cannot show that assignment shapes agree: {a} vs {b}")
        vf = bfn(v, tuple(oshape))

        def inv(*tt):
            c = ONE
            own = [ZERO] * len(oshape)
            for a, it in enumerate(items):
                if it[0] == "int":
                    c = c * delta(tt[a], it[1])
                elif it[1] is None:
                    own[pos[a]] = tt[a]
                else:
                    cc, x = slc_inv(it[1], tt[a], t.shape_[a])
                    c = c * cc
                    own[pos[a]] = x
            return c, own
        t.write(lambda *tt: inv(*tt)[0], lambda *tt: vf(*inv(*tt)[1]))
        return
    ash = bshape(*[items[i][1].shape_ for i in advs])
    if len(ash) != 1:
        raise Unsupported("write through multi-dimensional index arrays")
    afs = {i: bfn(items[i][1], ash) for i in advs}
    contiguous = all(o[0] in ("adv", "int") for o in order[_first(order):_last(order) + 1])
    npre = len([o for o in order[:_first(order)] if o[0] in ("new", "slc")]) if contiguous else 0
    toks = [o for o in order if o[0] in ("new", "slc")]
    oshape, pos = [], {}
    for o in toks[:npre]:
        if o[0] == "slc":
            pos[o[1]] = len(oshape)
        oshape.append(ONE if o[0] == "new" else (t.shape_[o[1]] if items[o[1]][1] is None else items[o[1]][1].n))
    apos = len(oshape)
    oshape.append(ash[0])
    for o in toks[npre:]:
        if o[0] == "slc":
            pos[o[1]] = len(oshape)
        oshape.append(ONE if o[0] == "new" else (t.shape_[o[1]] if items[o[1]][1] is None else items[o[1]][1].n))
    vf = bfn(v, tuple(oshape))
    axis = ash[0]
    # concrete short index arrays: sequence of single writes
    if not isinstance(axis, Sel) and axis.is_const() and axis.const() <= 64:
        for e in range(int(axis.const())):
            def inv_e(*tt, e=e):
                c = ONE
                own = [ZERO] * len(oshape)
                own[apos] = P(e)
                for a, it in enumerate(items):
                    if it[0] == "int":
                        c = c * delta(tt[a], it[1])
                    elif it[0] == "adv":
                        c = c * delta(tt[a], afs[a](P(e)))
                    elif it[1] is None:
                        own[pos[a]] = tt[a]
                    else:
                        cc, x = slc_inv(it[1], tt[a], t.shape_[a])
                        c = c * cc
                        own[pos[a]] = x
                return c, own
            t.write(lambda *tt, f=inv_e: f(*tt)[0], lambda *tt, f=inv_e: vf(*f(*tt)[1]))
        return
    # solve one index array for the position e
    e = newidx(axis)
    piv = None
    for a in advs:
        x = afs[a](e)
        d = x - e
        if vname(e) not in d.free():
            piv = (a, d)
            break
    if piv is None:
        raise Unsupported("write through a non-invertible index array")

    def inv(*tt):
        pos_e = tt[piv[0]] - piv[1]
        c = ONE
        own = [ZERO] * len(oshape)
        own[apos] = pos_e
        n = axis.n if isinstance(axis, Sel) else axis
        if not (piv[1] == ZERO and ax_same_ext(t.shape_[piv[0]], n)):
            c = c * ind("le", 0, pos_e) * ind("lt", pos_e, n)
        if isinstance(axis, Sel):
            c = c * axis.mask(pos_e)
        for a, it in enumerate(items):
            if it[0] == "int":
                c = c * delta(tt[a], it[1])
            elif it[0] == "adv":
                if a != piv[0]:
                    c = c * delta(tt[a], afs[a](pos_e))
            elif it[1] is None:
                own[pos[a]] = tt[a]
            else:
                cc, x = slc_inv(it[1], tt[a], t.shape_[a])
                c = c * cc
                own[pos[a]] = x
        return c, own
    t.write(lambda *tt: inv(*tt)[0], lambda *tt: vf(*inv(*tt)[1]))


def ax_same_ext(a, n):
    if isinstance(a, Sel):
        return False
    return a == n


def squeeze_lead(v, n):
    while v.ndim > n and ax_one(v.shape_[0]):
        v = v[0]
    if v.ndim > n:
        raise Unsupported("assignment of an array with too many dimensions")
    return to_T(v)


# -------------------------------------------------------------------- reductions
def norm_axes(t, axis):
    if axis is None:
        return tuple(range(t.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % t.ndim for a in axis)
    return (int(axis) % t.ndim,)


def sum_over(axis, idx, p):
    if isinstance(axis, Sel):
        return psum(vname(idx), axis.n, axis.mask(idx) * p)
    return psum(vname(idx), axis, p)


def reduce_sum(t, axis=None, keepdims=False):
    t = to_T(t)
    axes = norm_axes(t, axis)
    f = t.snap()
    keep = [k for k in range(t.ndim) if k not in axes]
    oshape = [ONE if k in axes else t.shape_[k] for k in range(t.ndim)] if keepdims else [t.shape_[k] for k in keep]

    def fn(*i):
        full = [None] * t.ndim
        if keepdims:
            for k in keep:
                full[k] = i[k]
        else:
            for k, x in zip(keep, i):
                full[k] = x
        js = []
        for a in axes:
            if ax_one(t.shape_[a]):
                full[a] = ZERO
            else:
                j = newidx(t.shape_[a], "s")
                full[a] = j
                js.append((a, j))
        p = f(*full)
        for a, j in reversed(js):
            p = sum_over(t.shape_[a], j, p)
        return p
    kind = "i" if t.kind in ("i", "b") else "f"
    if not oshape:
        return scalar(fn(), kind)
    return T(oshape, memo(fn), kind)


def mean(t, axis=None, keepdims=False):
    t = to_T(t)
    n = ONE
    for a in norm_axes(t, axis):
        n = n * size_of(t.shape_[a])
    return ew(lambda a: a / n, reduce_sum(t, axis, keepdims), kind="f")


def count_nz(p):
    """indicator that a nonnegative count is non-zero"""
    if p.is_const():
        return P(p.const() != 0)
    return ONE - ind("eq", p, 0)


def _small(t, axes):
    n = 1
    for a in axes:
        d = t.shape_[a]
        if not isinstance(d, Poly) or not d.is_const():
            return False
        n *= int(d.const())
    return n <= 8


def truthy(t):
    return t if t.kind == "b" else ew(lambda p: pl.notp(ind("eq", p, 0)), t, kind="b")


def reduce_any(t, axis=None):
    t = truthy(to_T(t))
    axes = norm_axes(t, axis)
    if _small(t, axes):      # a handful of conditions: 1 - product of the negations
        f = t.snap()
        keep = [k for k in range(t.ndim) if k not in axes]

        def fn(*i):
            none = ONE
            for js in itertools.product(*[range(int(t.shape_[a].const())) for a in axes]):
                full = [None] * t.ndim
                for k, x in zip(keep, i):
                    full[k] = x
                for a, j in zip(axes, js):
                    full[a] = P(j)
                none = none * pl.notp(f(*full))
            return pl.notp(none)
        if not keep:
            return scalar(fn(), "b")
        return T([t.shape_[k] for k in keep], memo(fn), "b")
    s = reduce_sum(t, axis)
    return ew(lambda a: boolsum(a), s, kind="b")


def boolsum(p):
    """p is a sum of indicators: [p > 0]"""
    if p.is_const():
        return P(p.const() != 0)
    s = p.single()
    if s and s[1] == 1 and all(pl.IND(a) for a, e in s[0]):
        return p
    if pl.is_int(p) and pl.lower_bound_ge0(p - 1):
        return ONE
    return pl.atom(("c", "lt", -p))


def reduce_all(t, axis=None):
    t = truthy(to_T(t))
    inv = ew(pl.notp, t, kind="b")
    r = reduce_any(inv, axis)
    return ew(pl.notp, r, kind="b")


def matmul(a, b):
    a, b = to_T(a), to_T(b)
    if a.ndim == 0 or b.ndim == 0:
        raise Unsupported("matmul with a scalar")
    fa, fb = a.snap(), b.snap()
    if not ax_same(a.shape_[-1], b.shape_[-2] if b.ndim > 1 else b.shape_[0]):
        raise Unsupported(f"cannot show that matmul shapes agree: {a.shape_} @ {b.shape_}")
    ax = a.shape_[-1]
    sa = a.shape_[:-1]
    sb = b.shape_[:-2] + b.shape_[-1:] if b.ndim > 1 else ()
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim > 1 and b.ndim > 1:
            batch = bshape(a.shape_[:-2], b.shape_[:-2])
            ba = [x for x in a.shape_[:-2]]

            def bidx(shape, i):
                k = len(shape)
                return [ZERO if ax_one(s) else x for s, x in zip(shape, i[len(batch) - k:len(batch)])]

            def fnb(*i):
                r, c = i[len(batch)], i[len(batch) + 1]
                k = newidx(ax, "s")
                return sum_over(ax, k, fa(*bidx(a.shape_[:-2], i), r, k) * fb(*bidx(b.shape_[:-2], i), k, c))
            return T(batch + (a.shape_[-2], b.shape_[-1]), memo(fnb), "f")

    def fn(*i):
        k = newidx(ax, "s")
        ia = i[:len(sa)]
        ib = i[len(sa):]
        pb = (fb(k) if b.ndim == 1 else fb(*ib[:-1], k, ib[-1]))
        return sum_over(ax, k, fa(*ia, k) * pb)
    if not (sa + sb):
        return scalar(fn(), "f")
    return T(sa + sb, memo(fn), "f")


def einsum(spec, *ops):
    ops = [to_T(o) for o in ops]
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    explicit = "->" in spec
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum operand count")
    ell = {}
    nel = 0
    exp = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - (len(s) - 3)
            nel = max(nel, k)
        exp.append(s)
    # ellipsis labels are right aligned
    lab = [chr(0x3b1 + 100 + q) for q in range(nel)]
    full = []
    for s, o in zip(exp, ops):
        if "..." in s:
            k = o.ndim - (len(s) - 3)
            s = s.replace("...", "".join(lab[nel - k:]))
        if len(s) != o.ndim:
            raise ValueError(f"einsum subscript {s} does not match operand of {o.ndim} dimensions")
        full.append(s)
    if explicit:
        out = out.replace("...", "".join(lab))
    else:
        letters = sorted(c for c in set("".join(full)) if c not in lab and "".join(full).count(c) == 1)
        out = "".join(lab) + "".join(letters)
    dims = {}
    for s, o in zip(full, ops):
        for c, d in zip(s, o.shape_):
            if c in dims and not ax_one(dims[c]):
                if not ax_one(d) and not ax_same(dims[c], d):
                    raise Unsupported(f"cannot show that einsum extents agree: {dims[c]} vs {d}")
            else:
                dims[c] = d
    red = [c for c in dims if c not in out]
    fs = [o.snap() for o in ops]

    def fn(*i):
        env = dict(zip(out, i))
        js = []
        for c in red:
            env[c] = newidx(dims[c], "s")
            js.append(c)
        p = ONE
        for s, o, f in zip(full, ops, fs):
            p = p * f(*[ZERO if (ax_one(d) and not ax_one(dims[c])) else env[c] for c, d in zip(s, o.shape_)])
        for c in reversed(js):
            p = sum_over(dims[c], env[c], p)
        return p
    if not out:
        return scalar(fn(), "f")
    return T([dims[c] for c in out], memo(fn), "f")


# -------------------------------------------------------------------- shape operations
def reshape(t, shape):
    t = to_T(t)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = [P(s) for s in shape]
    old = list(t.shape_)
    if any(isinstance(s, Sel) for s in old):
        # only adding/removing unit axes around a compressed axis is supported
        return _reshape_sel(t, shape)
    tot = ONE
    for s in old:
        tot = tot * s
    neg = [k for k, s in enumerate(shape) if s.is_const() and s.const() == -1]
    if len(neg) > 1:
        raise ValueError("can only specify one unknown dimension")
    if neg:
        rest = ONE
        for k, s in enumerate(shape):
            if k != neg[0]:
                rest = rest * s
        q = exact_div(tot, rest)
        if q is None:
            raise Unsupported(f"cannot infer reshape extent {tot} / {rest}")
        shape[neg[0]] = q
    new = ONE
    for s in shape:
        new = new * s
    if new != tot and not CTX.dims_equal(new, tot):
        raise Unsupported(f"cannot show that reshape preserves the size: {tot} vs {new}")
    f = t.snap()
    # group matching: align products from the left
    groups = _align(old, shape)

    def fn(*i):
        out = [ZERO] * len(old)
        for go, gn in groups:
            # flatten new indices of the group
            if len(go) == 1 and len(gn) == 1:
                out[go[0]] = i[gn[0]]
                continue
            flat = ZERO
            for k in gn:
                flat = flat * shape[k] + i[k]
            # split into old axes
            rem = flat
            go = [k for k in go if old[k] != ONE]    # unit axes stay at index 0
            for pos, k in enumerate(reversed(go)):
                if pos == len(go) - 1:
                    out[k] = rem
                else:
                    out[k] = pl.pmod(rem, old[k])
                    rem = pl.floordiv(rem, old[k])
        return f(*out)
    r = T(shape, memo(fn), t.kind)
    return r


def exact_div(a, b):
    if b == ONE:
        return a
    q, r = pl.split_div(a, b)
    if r == ZERO:
        return q
    # try a/b as polynomial through symbolic division
    x = a / b
    for m, c in x.t.items():
        for at, e in m:
            if not isinstance(e, Poly) and e < 0:
                return None
            if at[0] == "g":
                return None
    return x


def _reshape_sel(t, shape):
    sel = [k for k, s in enumerate(t.shape_) if isinstance(s, Sel)]
    if len(sel) == 1 and all(ax_one(s) for k, s in enumerate(t.shape_) if k not in sel):
        f, k0, nd = t.snap(), sel[0], t.ndim
        npos = [k for k, s in enumerate(shape) if not (s == ONE)]
        if len(npos) == 1 and (shape[npos[0]] == P(-1) or shape[npos[0]] == t.shape_[k0].size()):
            q = npos[0]
            ax = t.shape_[k0]
            return T([ax if k == q else ONE for k in range(len(shape))],
                     lambda *i: f(*[i[q] if k == k0 else ZERO for k in range(nd)]), t.kind)
    raise Unsupported("reshape of a compressed axis")


def _align(old, new):
    """split both shapes into consecutive groups with equal products"""
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        # absorb unit axes
        go, gn = [], []
        po, pn = ONE, ONE
        if i < len(old):
            go.append(i)
            po = old[i]
            i += 1
        if j < len(new):
            gn.append(j)
            pn = new[j]
            j += 1
        guard = 0
        while po != pn:
            guard += 1
            if guard > 20:
                raise Unsupported("cannot align reshape")
            # extend the smaller side: the one whose product divides the other
            if exact_div(pn, po) is not None and i < len(old):
                go.append(i)
                po = po * old[i]
                i += 1
            elif exact_div(po, pn) is not None and j < len(new):
                gn.append(j)
                pn = pn * new[j]
                j += 1
            elif i < len(old):
                go.append(i)
                po = po * old[i]
                i += 1
            elif j < len(new):
                gn.append(j)
                pn = pn * new[j]
                j += 1
            else:
                raise Unsupported("cannot align reshape")
        groups.append((go, gn))
    return groups


def squeeze(t, axis=None):
    axes = [k for k, s in enumerate(t.shape_) if ax_one(s)] if axis is None else list(norm_axes(t, axis))
    f = t.snap()
    keep = [k for k in range(t.ndim) if k not in axes]

    def fn(*i):
        full = [ZERO] * t.ndim
        for k, x in zip(keep, i):
            full[k] = x
        return f(*full)
    if not keep:
        return scalar(fn(), t.kind)
    return T([t.shape_[k] for k in keep], fn, t.kind)


def concatenate(ts, axis=0):
    if isinstance(ts, SymList):
        raise Unsupported("concatenate a symbolic-length list")
    ts = [to_T(t) for t in ts]
    nd = ts[0].ndim
    axis = int(axis) % nd
    if len(ts) == 1:
        return ts[0].copy()
    shp = list(ts[0].shape_)
    for t in ts[1:]:
        if t.ndim != nd:
            raise ValueError("concatenate: different number of dimensions")
        for k in range(nd):
            if k != axis and not ax_same(t.shape_[k], shp[k]):
                raise Unsupported(f"cannot show that concatenate shapes agree: {t.shape_[k]} vs {shp[k]}")
    if any(isinstance(t.shape_[axis], Sel) for t in ts):
        raise Unsupported("concatenate compressed axes")
    offs = [ZERO]
    for t in ts:
        offs.append(offs[-1] + t.shape_[axis])
    shp[axis] = offs[-1]
    fs = [t.snap() for t in ts]
    kinds = {t.kind for t in ts if not (t.shape_[axis] == ZERO)} or {t.kind for t in ts}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")

    def fn(*i):
        x = i[axis]
        r = ZERO
        for j, f in enumerate(fs):
            if ts[j].shape_[axis] == ZERO:
                continue
            c = ONE
            if j > 0 and offs[j] != ZERO:
                c = c * ind("le", offs[j], x)
            if j < len(fs) - 1 and offs[j + 1] != offs[-1]:
                c = c * ind("lt", x, offs[j + 1])
            if c == ZERO:
                continue
            r = r + c * f(*i[:axis], x - offs[j], *i[axis + 1:])
        return r
    return T(shp, memo(fn), kind)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    return ew(pl.ite, c, a, b)


def nonzero(c):
    c = to_T(c)
    if c.ndim != 1:
        raise Unsupported("nonzero of a multi-dimensional array")
    if c.kind != "b":
        c = c != 0
    ax = Sel(c.shape_[0], c.snap())
    return (T((ax,), lambda i: i, "i"),)


def tile(t, reps):
    t = to_T(t)
    reps = [reps] if not isinstance(reps, (tuple, list)) else list(reps)
    reps = [P(r) for r in reps]
    nd = max(t.ndim, len(reps))
    shp = [ONE] * (nd - t.ndim) + list(t.shape_)
    reps = [ONE] * (nd - len(reps)) + reps
    f, k = t.snap(), t.ndim

    def fn(*i):
        j = []
        for q in range(nd - k, nd):
            if reps[q] == ONE:
                j.append(i[q])
            elif ax_one(shp[q]):
                j.append(ZERO)
            else:
                j.append(pl.pmod(i[q], shp[q]))
        return f(*j)
    out = []
    for s, r in zip(shp, reps):
        if isinstance(s, Sel):
            if r != ONE:
                raise Unsupported("tile a compressed axis")
            out.append(s)
        else:
            out.append(s * r)
    return T(out, memo(fn), t.kind)


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    start, stop, step = P(start), P(stop), P(step)
    d = stop - start
    if step == ONE:
        n = d
    elif step.is_const() and step.const().denominator == 1 and step.const() > 1:
        n = pl.floordiv(d + step - 1, step)
    else:
        raise Unsupported("arange step")
    if n.is_const() and n.const() < 0:
        n = ZERO
    return T((n,), lambda i: start + i * step, "i" if pl.is_int(start) else "f")


def full(shape, v, kind):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    p = P(v)
    return T([P(s) for s in shape], lambda *i: p, kind)


def broadcast_to(t, shape):
    t = to_T(t)
    shape = tuple(P(s) for s in shape)
    bshape(t.shape_, shape)
    return T(shape, bfn(t, shape), t.kind)


def array_sym(name, shape, kind="f"):
    """a symbolic input array"""
    return T(shape, lambda *i: A(name, *i), kind)


def max_pair(a, b):
    c = ind("lt", a, b)
    return a + c * (b - a)


def min_pair(a, b):
    c = ind("lt", b, a)
    return a + c * (b - a)
