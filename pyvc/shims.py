"""Meanings given to numpy / jax / scipy names while the real source is executed symbolically.

These are the trusted specifications of the dependencies (listed in every evidence file through TRUSTED).
A name without a meaning here raises Unsupported when it receives a symbolic argument and otherwise
behaves as the real library function.
"""
import math
import copy
import functools
import types
import numpy as _np
from fractions import Fraction
from . import poly as pl
from . import tensor as tn
from .poly import Poly, P, Unsupported, V, A, ZERO, ONE, ind, delta, RANGE, fresh_name
from .tensor import T, SymList, MaskView, Sel, ew, to_T, newidx, vname, scalar, size_of

TRUSTED = set()


def is_sym(x):
    if isinstance(x, (T, SymList, MaskView, Poly)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    if isinstance(x, dict):
        return any(is_sym(y) for y in x.values())
    return False


class NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, MaskView)) or (isinstance(x, T) and x.ndim >= 1)


class ndarray(metaclass=NDMeta):
    pass


def trusted(name):
    def deco(f):
        def g(*a, **k):
            TRUSTED.add(name)
            return f(*a, **k)
        g.__name__ = name
        g.__vc_shim__ = True
        return g
    return deco


def unary(name, op, kind="f"):
    @trusted(name)
    def f(x, *a, **k):
        return ew(op, x, kind=kind)
    return f


class Namespace:
    """a library module: explicit meanings first, then the real library for concrete arguments"""

    def __init__(self, name, table, real):
        self.__dict__["_n"], self.__dict__["_t"], self.__dict__["_r"] = name, table, real

    def __getattr__(self, k):
        t = self.__dict__["_t"]
        if k in t:
            return t[k]
        r = self.__dict__["_r"]
        n = self.__dict__["_n"]
        if r is not None and hasattr(r, k):
            v = getattr(r, k)
            if isinstance(v, (int, float, str, type)) or not callable(v):
                return v

            def g(*a, **kw):
                if is_sym(a) or is_sym(kw):
                    raise Unsupported(f"{n}.{k} has no symbolic meaning")
                return v(*a, **kw)
            g.__name__ = k
            return g
        if r is None:
            def g(*a, **kw):
                raise Unsupported(f"{n}.{k} has no symbolic meaning")
            return g
        raise AttributeError(f"{n}.{k}")

    def __setattr__(self, k, v):
        self.__dict__["_t"][k] = v


# ------------------------------------------------------------------ array creation
@trusted("numpy.array / asarray")
def array(x, dtype=None, copy=None, **kw):
    if isinstance(x, (T, MaskView)):
        r = to_T(x).copy()
    elif isinstance(x, SymList):
        r = x.stack()
    elif is_sym(x):
        r = to_T(x)
    else:
        r = to_T(_np.array(x)) if _np.asarray(x).dtype != object else to_T(x)
    if dtype is not None:
        r = r.astype(_dt(dtype))
    return r


def _dt(dtype):
    if dtype in (float, "float", "float64", _np.float64):
        return float
    if dtype in (int, "int", "int64", _np.int64):
        return int
    if dtype in (bool, "bool", _np.bool_):
        return bool
    return dtype


@trusted("numpy.array / asarray")
def asarray(x, dtype=None, **kw):
    if isinstance(x, T) and dtype is None:
        return x
    if isinstance(x, T) and _dt(dtype) is float and x.kind == "f":
        return x
    return array(x, dtype)


def _shape(s):
    if isinstance(s, T) and s.ndim == 1:
        return tuple(s)
    return s


def creator(v):
    @trusted("numpy.zeros / ones / empty / full")
    def f(shape, dtype=None, **kw):
        kind = {float: "f", int: "i", bool: "b"}.get(_dt(dtype), "f") if dtype is not None else "f"
        return tn.full(_shape(shape), v, kind)
    return f


def like(v):
    @trusted("numpy.zeros_like / ones_like")
    def f(x, dtype=None, **kw):
        x = to_T(x)
        return T(x.shape_, lambda *i: P(v), x.kind if dtype is None else {float: "f", int: "i", bool: "b"}[_dt(dtype)])
    return f


@trusted("numpy.full")
def full(shape, v, **kw):
    v = to_T(v)
    return tn.broadcast_to(v, shape if isinstance(shape, (tuple, list)) else (shape,)).copy()


@trusted("numpy.eye")
def eye(n, m=None, **kw):
    return T((P(n), P(n if m is None else m)), lambda i, j: delta(i, j), "f")


@trusted("numpy.diag")
def diag(x, k=0):
    x = to_T(x)
    if k:
        raise Unsupported("diag offset")
    f = x.snap()
    if x.ndim == 1:
        return T((x.shape_[0], x.shape_[0]), lambda i, j: delta(i, j) * f(i), x.kind)
    return T((x.shape_[0],), lambda i: f(i, i), x.kind)


@trusted("numpy.arange")
def arange(*a, **k):
    k.pop("dtype", None)
    return tn.arange(*a)


@trusted("numpy.linspace")
def linspace(a, b, n=50, endpoint=True, **kw):
    a, b, n = P(a), P(b), P(n)
    return T((n,), lambda i: a + (b - a) * i / (n - 1), "f")


# ------------------------------------------------------------------ shape
def wrapt(name):
    def deco(f):
        return trusted(name)(f)
    return deco


@trusted("numpy.concatenate")
def concatenate(xs, axis=0, **kw):
    return tn.concatenate(xs, axis)


@trusted("numpy.vstack / hstack")
def vstack(xs):
    return tn.concatenate([_at2(to_T(x)) for x in xs], 0)


@trusted("numpy.vstack / hstack")
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return tn.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def _at2(x):
    x = to_T(x)
    if x.ndim == 0:
        return T((1, 1), lambda i, j, f=x.snap(): f(), x.kind)
    return x[None, :] if x.ndim == 1 else x


@trusted("numpy.atleast_1d / 2d")
def atleast_2d(x):
    return _at2(x)


@trusted("numpy.atleast_1d / 2d")
def atleast_1d(x):
    x = to_T(x)
    if x.ndim == 0:
        f = x.snap()
        return T((1,), lambda i: f(), x.kind)
    return x


@trusted("numpy.stack")
def stack(xs, axis=0, **kw):
    if isinstance(xs, SymList):
        if axis != 0:
            raise Unsupported("stack axis")
        return xs.stack()
    return tn.stack(list(xs), axis)


@trusted("numpy.column_stack / c_")
def column_stack(xs):
    return tn.concatenate([_col(x) for x in xs], 1)


def _col(x):
    x = to_T(x)
    if x.ndim == 0:
        return _at2(x)
    return x[:, None] if x.ndim == 1 else x


class _C:
    def __getitem__(self, key):
        TRUSTED.add("numpy.column_stack / c_")
        if not isinstance(key, tuple):
            key = (key,)
        ks = [_col(k) for k in key]
        return tn.concatenate(ks, -1)


class _R:
    def __getitem__(self, key):
        TRUSTED.add("numpy.r_")
        if not isinstance(key, tuple):
            key = (key,)
        ks = [atleast_1d(k) for k in key]
        nd = max(k.ndim for k in ks)
        return tn.concatenate(ks, 0)


@trusted("numpy.reshape / ravel / transpose / tile / broadcast_to")
def reshape(x, s, **kw):
    return tn.reshape(x, _shape(s))


@trusted("numpy.reshape / ravel / transpose / tile / broadcast_to")
def tile(x, r):
    return tn.tile(x, r)


@trusted("numpy.reshape / ravel / transpose / tile / broadcast_to")
def broadcast_to(x, s):
    return tn.broadcast_to(x, s)


@trusted("numpy.reshape / ravel / transpose / tile / broadcast_to")
def transpose(x, axes=None):
    return to_T(x).transpose(*(axes or ()))


@trusted("numpy.expand_dims / squeeze")
def expand_dims(x, axis):
    x = to_T(x)
    axis = axis % (x.ndim + 1)
    return x[(slice(None),) * axis + (None,)]


@trusted("numpy.expand_dims / squeeze")
def squeeze(x, axis=None):
    return tn.squeeze(to_T(x), axis)


@trusted("numpy.moveaxis / swapaxes")
def swapaxes(x, a, b):
    x = to_T(x)
    p = list(range(x.ndim))
    p[a], p[b] = p[b], p[a]
    return x.transpose(*p)


@trusted("numpy.moveaxis / swapaxes")
def moveaxis(x, a, b):
    x = to_T(x)
    p = [k for k in range(x.ndim) if k != a % x.ndim]
    p.insert(b % x.ndim, a % x.ndim)
    return x.transpose(*p)


# ------------------------------------------------------------------ reductions
@trusted("numpy.sum / mean / prod")
def sum_(x, axis=None, keepdims=False, **kw):
    if isinstance(x, SymList):
        x = x.stack()
    if hasattr(x, "__next__"):
        x = list(x)
    return tn.reduce_sum(x, axis, keepdims)


@trusted("numpy.sum / mean / prod")
def mean(x, axis=None, keepdims=False, **kw):
    return tn.mean(x, axis, keepdims)


@trusted("numpy.sum / mean / prod")
def prod(x, axis=None, **kw):
    x = to_T(x)
    if axis is None and x.ndim == 1:
        axis = 0
    axis = int(axis) % x.ndim
    n = x.shape_[axis]
    if isinstance(n, Sel) or not n.is_const():
        # product over a symbolic extent: exp-free opaque product, keyed by the factor
        f = x.snap()
        shp = x.shape_[:axis] + x.shape_[axis + 1:]

        def g(*i):
            k = newidx(n)
            body = f(*i[:axis], k, *i[axis:])
            lam = pl.mklam([n], lambda b: pl.subst(body, {vname(k): b}))
            return pl.atom(("f", "prod", (pl.atom(lam),)))
        return scalar(g(), "f") if not shp else T(shp, tn.memo(g), "f")
    fs = x.snap()
    shp = x.shape_[:axis] + x.shape_[axis + 1:]

    def h(*i):
        r = ONE
        for k in range(int(n.const())):
            r = r * fs(*i[:axis], P(k), *i[axis:])
        return r
    return scalar(h(), "f") if not shp else T(shp, tn.memo(h), "f")


@trusted("numpy.any / all")
def any_(x, axis=None, **kw):
    return tn.reduce_any(x, axis)


@trusted("numpy.any / all")
def all_(x, axis=None, **kw):
    return tn.reduce_all(x, axis)


def _minmax(which):
    @trusted("numpy.min / max (witness index)")
    def f(x, axis=None, **kw):
        x = to_T(x)
        if axis is None:
            axes = list(range(x.ndim))
        else:
            axes = list(tn.norm_axes(x, axis))
        keep = [k for k in range(x.ndim) if k not in axes]
        fn = x.snap()

        def g(*i):
            def rec(full, left):
                if not left:
                    return fn(*full)
                a = left[0]
                n = x.shape_[a]
                if isinstance(n, Sel) or not n.is_const() or n.const() > 6:
                    k = newidx(n)
                    full2 = list(full)
                    full2[a] = k
                    body = rec(full2, left[1:])
                    if vname(k) not in body.free():
                        return body
                    ns = n.n if isinstance(n, Sel) else n
                    if isinstance(n, Sel):
                        raise Unsupported("min/max over a compressed axis")
                    lam = pl.mklam([ns], lambda b: pl.subst(body, {vname(k): b}))
                    return pl.atom(("f", "r" + which, (pl.atom(lam),)))
                r = None
                for v in range(int(n.const())):
                    full2 = list(full)
                    full2[a] = P(v)
                    y = rec(full2, left[1:])
                    r = y if r is None else (tn.max_pair(r, y) if which == "max" else tn.min_pair(r, y))
                return r
            full = [None] * x.ndim
            for k, v in zip(keep, i):
                full[k] = v
            return rec(full, axes)
        if not keep:
            return scalar(g(), x.kind)
        return T([x.shape_[k] for k in keep], tn.memo(g), x.kind)
    return f


def _arg(which):
    @trusted(f"numpy.arg{which} (index of an extremal entry, first one)")
    def f(x, axis=None, **kw):
        x = to_T(x)
        if axis is None:
            if x.ndim != 1:
                raise Unsupported("argmin of a flattened array")
            axis = 0
        axis = int(axis) % x.ndim
        n = x.shape_[axis]
        fn = x.snap()
        shp = x.shape_[:axis] + x.shape_[axis + 1:]
        # an uninterpreted index function determined by the array it was computed from
        ii = [newidx(s) for s in shp]
        k = newidx(n)
        body = fn(*ii[:axis], k, *ii[axis:])
        lam = pl.mklam(list(shp) + [n], lambda *b: pl.subst(body, dict(zip([vname(q) for q in ii] + [vname(k)], b))))
        name = f"arg{which}#{pl.akey(lam)}"
        if name not in ARGS:
            ARGS[name] = (f"arg{which}{len(ARGS)}", x, axis, which)
        nm = ARGS[name][0]
        pl.ARANGE[nm] = P(n)
        pl.INTS.add(nm)
        if not shp:
            return T((), lambda: A(nm), "i")
        return T(shp, lambda *i: A(nm, *i), "i")
    return f


ARGS = {}


@trusted("numpy.unique(values with counts) of indices in a known range")
def unique(x, return_counts=False, **kw):
    if not is_sym(x):
        return _np.unique(x, return_counts=return_counts, **kw)
    x = to_T(x)
    if x.ndim != 1 or kw:
        raise Unsupported("unique")
    f = x.snap()
    i = newidx(x.shape_[0])
    p = f(i)
    s = p.single()
    if not (s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0][0] == "a" and s[0][0][0][1] in pl.ARANGE):
        raise Unsupported("unique of values without a known range")
    n = pl.ARANGE[s[0][0][0][1]]

    def cnt(v):
        j = newidx(x.shape_[0], "s")
        return pl.psum(vname(j), x.shape_[0], delta(f(j), v))
    ax = Sel(n, lambda v: nz(cnt(v)))
    vals = T((ax,), lambda v: v, "i")
    counts = T((ax,), lambda v: cnt(v), "i")
    return (vals, counts) if return_counts else vals


def nz(c):
    """[c > 0] for a count c (a sum of indicators)"""
    return tn.boolsum(c)


# ------------------------------------------------------------------ linear algebra
@trusted("numpy.einsum / matmul / dot / outer")
def einsum(spec, *ops, **kw):
    return tn.einsum(spec, *ops)


@trusted("numpy.einsum / matmul / dot / outer")
def dot(a, b):
    a, b = to_T(a), to_T(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tn.matmul(a, b)


@trusted("numpy.einsum / matmul / dot / outer")
def outer(a, b):
    return to_T(a)[:, None] * to_T(b)[None, :]


@trusted("numpy.linalg.norm")
def norm(x, ord=None, axis=None, keepdims=False):
    x = to_T(x)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    s = tn.reduce_sum(x * x, axis, keepdims)
    return sqrt(s)


@trusted("scipy.linalg.block_diag")
def block_diag(*bs):
    if len(bs) == 1 and isinstance(bs[0], Star):
        b = to_T(bs[0].x)
        if b.ndim != 3:
            raise Unsupported("block_diag of blocks that are not matrices")
        N, r, c = b.shape_
        f = b.snap()

        def fn(i, j):
            bi, ri = pl.floordiv(i, r), pl.pmod(i, r)
            bj, cj = pl.floordiv(j, c), pl.pmod(j, c)
            return delta(bi, bj) * f(bi, ri, cj)
        return T((N * r, N * c), tn.memo(fn), "f")
    bs = [_at2(b) for b in bs]
    ro, co = ZERO, ZERO
    info = []
    for b in bs:
        info.append((b.snap(), ro, co, b.shape_[0], b.shape_[1]))
        ro, co = ro + b.shape_[0], co + b.shape_[1]

    def fn2(i, j):
        r = ZERO
        for f, a, c, h, w in info:
            if h == ZERO or w == ZERO:
                continue
            cnd = ind("le", a, i) * ind("lt", i, a + h) * ind("le", c, j) * ind("lt", j, c + w)
            if cnd != ZERO:
                r = r + cnd * f(i - a, j - c)
        return r
    return T((ro, co), tn.memo(fn2), "f")


class Star:
    """*x of a symbolic-length array in a call"""

    def __init__(self, x):
        self.x = x


@trusted("scipy.spatial.distance.cdist (row-wise metric)")
def cdist(a, b, metric="euclidean", **kw):
    a, b = to_T(a), to_T(b)
    fa, fb = a.snap(), b.snap()
    if callable(metric):
        def fn(i, j):
            r = metric(T((a.shape_[1],), lambda k: fa(i, k), "f"), T((b.shape_[1],), lambda k: fb(j, k), "f"))
            return to_T(r).as_poly()
        return T((a.shape_[0], b.shape_[0]), tn.memo(fn), "f")
    if metric not in ("euclidean", "minkowski", "sqeuclidean") or (kw.get("p", 2) != 2):
        raise Unsupported(f"cdist metric {metric}")

    def g(i, j):
        k = newidx(a.shape_[1], "s")
        s = pl.psum(vname(k), a.shape_[1], (fa(i, k) - fb(j, k)) ** 2)
        pl.assume_nonneg(s)
        return s if metric == "sqeuclidean" else pl.ppow(s, P(Fraction(1, 2)))
    return T((a.shape_[0], b.shape_[0]), tn.memo(g), "f")


# ------------------------------------------------------------------ elementwise
exp = unary("exp", pl.fexp)
log = unary("log", pl.flog)
sin = unary("sin", pl.fsin)
cos = unary("cos", pl.fcos)


@trusted("sqrt")
def sqrt(x):
    return ew(_sqrt, x, kind="f")


def _sqrt(p):
    return pl.ppow(p, P(Fraction(1, 2)))


@trusted("numpy.abs / sign / floor / mod / power / square")
def abs_(x):
    return ew(pl.fabs, x)


@trusted("numpy.abs / sign / floor / mod / power / square")
def sign(x):
    return ew(lambda a: pl.ffun("sign", a), x)


@trusted("numpy.abs / sign / floor / mod / power / square")
def floor(x):
    return ew(lambda a: a if pl.is_int(a) else pl.ffun("floor", a), x)


@trusted("numpy.abs / sign / floor / mod / power / square")
def power(x, e):
    return to_T(x) ** e


@trusted("numpy.abs / sign / floor / mod / power / square")
def square(x):
    return to_T(x) ** 2


@trusted("numpy.abs / sign / floor / mod / power / square")
def mod(x, e):
    return to_T(x) % e


@trusted("numpy.where / maximum / minimum / clip")
def where(c, a=None, b=None):
    return tn.where(c, a, b)


@trusted("numpy.where / maximum / minimum / clip")
def maximum(a, b, **kw):
    return ew(tn.max_pair, a, b)


@trusted("numpy.where / maximum / minimum / clip")
def minimum(a, b, **kw):
    return ew(tn.min_pair, a, b)


@trusted("numpy.where / maximum / minimum / clip")
def clip(x, lo=None, hi=None, a_min=None, a_max=None, **kw):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return to_T(r)


@trusted("numpy.isfinite / isnan / isinf (reals are finite)")
def isfinite(x):
    return ew(lambda a: ONE, x, kind="b")


@trusted("numpy.isfinite / isnan / isinf (reals are finite)")
def isnan(x):
    return ew(lambda a: ZERO, x, kind="b")


@trusted("numpy.isclose (|a-b| <= atol + rtol |b|)")
def isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    rt, at = P(rtol), P(atol)
    return ew(lambda x, y: ind("le", pl.fabs(x - y), at + rt * pl.fabs(y)), a, b, kind="b")


@trusted("numpy.logical_*")
def logical_and(a, b):
    return to_T(a) & to_T(b)


@trusted("numpy.logical_*")
def logical_or(a, b):
    return to_T(a) | to_T(b)


@trusted("numpy.logical_*")
def logical_not(a):
    return ~to_T(a)


def ndim(x):
    return to_T(x).ndim


def shape(x):
    return to_T(x).shape


@trusted("numpy.nonzero")
def nonzero(x):
    return tn.nonzero(x)


@trusted("numpy.cumsum")
def cumsum(x, axis=None, **kw):
    x = to_T(x)
    if x.ndim != 1:
        raise Unsupported("cumsum of a multi-dimensional array")
    n = x.shape_[0]
    f = x.snap()

    def g(i):
        if i.is_const() and i.const() <= 16:
            r = ZERO
            for k in range(int(i.const()) + 1):
                r = r + f(P(k))
            return r
        j = newidx(n, "s")
        return pl.psum(vname(j), n, ind("le", j, i) * f(j))
    return T((n,), tn.memo(g), x.kind)


@trusted("numpy.cumprod")
def cumprod(x, axis=None, **kw):
    x = to_T(x)
    if x.ndim != 1 or not x.shape_[0].is_const():
        raise Unsupported("cumprod of a multi-dimensional array or a symbolic extent")
    vals, r = [], ONE
    f = x.snap()
    for k in range(int(x.shape_[0].const())):
        r = r * f(P(k))
        vals.append(scalar(r, "f"))
    return array(vals) if vals else T((ZERO,), lambda i: ZERO, x.kind)


@trusted("numpy.append / insert / flip")
def append(a, b, axis=None):
    a, b = to_T(a), to_T(b)
    if axis is None:
        return tn.concatenate([tn.reshape(a, (-1,)) if a.ndim != 1 else a, atleast_1d(b)], 0)
    return tn.concatenate([a, b], axis)


@trusted("numpy.append / insert / flip")
def flip(a, axis=None):
    a = to_T(a)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in range(a.ndim))]
    k = [slice(None)] * a.ndim
    k[axis] = slice(None, None, -1)
    return a[tuple(k)]


@trusted("numpy.count_nonzero")
def count_nonzero(x, axis=None):
    x = to_T(x)
    if x.kind != "b":
        x = x != 0
    return tn.reduce_sum(x, axis)


# ------------------------------------------------------------------ jax transforms
def _freeze(f):
    """the function as `jit` keeps it: attributes of captured objects have the values of the first call"""
    def snap(o):
        if callable(o) and not isinstance(o, type):
            return _freeze(o)
        if type(o).__module__.startswith("hvd"):
            return copy.copy(o)
        return o
    if isinstance(f, functools.partial):
        return functools.partial(_freeze(f.func), *[snap(a) for a in f.args], **{k: snap(v) for k, v in f.keywords.items()})
    if isinstance(f, types.MethodType):
        return types.MethodType(_freeze(f.__func__), snap(f.__self__))
    if isinstance(f, types.FunctionType) and f.__closure__ and (f.__module__ or "").startswith("hvd"):
        try:
            cells = tuple(types.CellType(snap(c.cell_contents)) for c in f.__closure__)
        except ValueError:  # an empty cell (recursive definition)
            return f
        g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, cells)
        g.__kwdefaults__ = f.__kwdefaults__
        return g
    return f


@trusted("jax.jit (the function with captured state frozen at its first call)")
def jit(f=None, **kw):
    if f is None:
        return lambda g: jit(g, **kw)
    held = []

    @functools.wraps(f, updated=())
    def g(*a, **k):
        if not held:
            held.append(_freeze(f))
        return held[0](*a, **k)
    return g


@trusted("jax.vmap")
def vmap(f, in_axes=0, out_axes=0):
    def g(*args):
        ia = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        args = [to_T(a) if a is not None else a for a in args]
        n = None
        for a, x in zip(args, ia):
            if x is not None:
                n = a.shape_[x]
                break
        if n is None:
            raise ValueError("vmap without a mapped argument")
        i = newidx(n)
        call = []
        for a, x in zip(args, ia):
            if x is None:
                call.append(a)
                continue
            if not tn.ax_same(a.shape_[x], n):
                raise Unsupported("cannot show that vmap extents agree")
            call.append(a[(slice(None),) * (x % a.ndim) + (scalar(i, "i"),)])
        out = f(*call)

        def post(o):
            o = to_T(o)
            r = tn.stack_obj(n, i, o)
            if out_axes not in (0, None):
                r = moveaxis(r, 0, out_axes)
            return r
        return tuple(post(o) for o in out) if isinstance(out, tuple) else post(out)
    return g


@trusted("jax.jacrev / jacfwd / grad / hessian = exact derivative")
def jacrev(f, argnums=0, **kw):
    def g(*args, **kwargs):
        if not isinstance(argnums, int):
            raise Unsupported("argnums tuple")
        args = list(args)
        x = to_T(args[argnums])
        name = fresh_name("Z")
        args[argnums] = T(x.shape_, lambda *i: A(name, *i), "f")
        out = f(*args, **kwargs)
        xf = x.snap()

        def der(o):
            o = to_T(o)
            of = o.snap()
            no = o.ndim

            def fn(*i):
                d = pl.diff(of(*i[:no]), name, i[no:])
                return pl.subst(d, {}, {name: xf})
            shp = o.shape_ + x.shape_
            return scalar(fn(), "f") if not shp else T(shp, tn.memo(fn), "f")
        return tuple(der(o) for o in out) if isinstance(out, tuple) else der(out)
    return g


def hessian(f, argnums=0, **kw):
    return jacrev(jacrev(f, argnums), argnums)


@trusted("jax.lax / control flow")
def lax_cond(p, a, b, *ops):
    if isinstance(p, T) and not P(p.as_poly()).is_const():
        x, y = a(*ops), b(*ops)
        return tn.where(p, x, y)
    return a(*ops) if p else b(*ops)


def pi_():
    return T((), lambda: V("\u03c0"), "f")


def np_table(real=_np):
    t = dict(
        ndarray=ndarray, array=array, asarray=asarray, zeros=creator(0), ones=creator(1), empty=creator(0),
        zeros_like=like(0), ones_like=like(1), empty_like=like(0), full=full, eye=eye, identity=eye, diag=diag,
        arange=arange, linspace=linspace, concatenate=concatenate, vstack=vstack, row_stack=vstack, hstack=hstack,
        stack=stack, column_stack=column_stack, c_=_C(), r_=_R(), reshape=reshape, ravel=lambda x: reshape(x, (-1,)),
        tile=tile, broadcast_to=broadcast_to, transpose=transpose, expand_dims=expand_dims, squeeze=squeeze,
        swapaxes=swapaxes, moveaxis=moveaxis, sum=sum_, mean=mean, average=mean, prod=prod, product=prod, any=any_, all=all_,
        min=_minmax("min"), max=_minmax("max"), amin=_minmax("min"), amax=_minmax("max"), nanmin=_minmax("min"),
        argmin=_arg("min"), argmax=_arg("max"), unique=unique, einsum=einsum, dot=dot, matmul=tn.matmul, inner=dot,
        outer=outer, exp=exp, log=log, sin=sin, cos=cos, sqrt=sqrt, abs=abs_, absolute=abs_, fabs=abs_, sign=sign,
        floor=floor, power=power, square=square, mod=mod, remainder=mod, where=where, maximum=maximum, minimum=minimum,
        clip=clip, isfinite=isfinite, isnan=isnan, isinf=isnan, isclose=isclose, logical_and=logical_and,
        bitwise_and=logical_and, logical_or=logical_or, logical_not=logical_not, bitwise_or=logical_or, ndim=ndim,
        shape=shape, nonzero=nonzero, flatnonzero=lambda x: nonzero(x)[0], cumsum=cumsum, cumprod=cumprod, append=append, flip=flip,
        count_nonzero=count_nonzero, newaxis=None, pi=pi_(), negative=lambda x: -to_T(x), add=lambda a, b: to_T(a) + b,
        subtract=lambda a, b: to_T(a) - b, multiply=lambda a, b: to_T(a) * b, divide=lambda a, b: to_T(a) / b,
        copy=lambda x: to_T(x).copy(), atleast_2d=atleast_2d, atleast_1d=atleast_1d, float64=float, int64=int,
        size=lambda x: to_T(x).size, errstate=_np.errstate, diagonal=lambda x: diag(x),
        linalg=Namespace("numpy.linalg", dict(norm=norm), _np.linalg), trace=lambda x: tn.reduce_sum(diag(x)),
        random=_np.random, finfo=_np.finfo, inf=math.inf, nan=math.nan, e=math.e, bool_=bool, seterr=_np.seterr,
    )
    return t


class _Any:
    """stand-in for a library that plays no part in the function under contract"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return _Any(self.__dict__["_name"] + "." + k)

    def __setattr__(self, k, v):
        pass

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return _Any(self.__dict__["_name"] + "[]")

    def __call__(self, *a, **k):
        if is_sym(a) or is_sym(k):
            raise Unsupported(f"{self.__dict__['_name']} has no symbolic meaning")
        return _Any(self.__dict__["_name"] + "()")

    def __mro_entries__(self, bases):
        return (object,)

    def __or__(self, o):
        return self

    __ror__ = __or__


def modules():
    NP = Namespace("numpy", np_table(), _np)
    JNP = Namespace("jax.numpy", np_table(), _np)
    jaxlax = Namespace("jax.lax", dict(cond=lax_cond, select=where), None)
    JAX = Namespace("jax", dict(jit=jit, vmap=vmap, jacrev=jacrev, jacfwd=jacrev, grad=jacrev, jacobian=jacrev,
                                hessian=hessian, eval_shape=lambda f, *a, **k: f(*a, **k), numpy=JNP, lax=jaxlax, Array=ndarray, config=_Any("jax.config")), None)
    return {
        "numpy": NP, "jax": JAX, "jax.numpy": JNP, "jax.lax": jaxlax,
        "autograd.numpy": Namespace("autograd.numpy", np_table(), _np),
        "scipy.spatial.distance": Namespace("scipy.spatial.distance", dict(cdist=cdist), None),
        "scipy.linalg": Namespace("scipy.linalg", dict(block_diag=block_diag), None),
    }
