"""helpers of the Mode Z contracts: arbitrary ("wild") floats, stand-ins for objects under their contracts"""
import math
import numpy as onp
from pyvc import zsym as Z


NANS = None    # bound on the number of NaNs on one path


class Wild:
    """an arbitrary machine float, possibly NaN or infinite: every operation gives another arbitrary float"""
    __array_priority__ = 2000

    def __init__(self):
        self.nan = None

    def _w(self, *a): return Wild()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pow__ = _w

    def _c(self, o): return Z.SymBool(Z.z3.Bool(Z.CUR.name("wild")))
    __lt__ = __le__ = __gt__ = __ge__ = _c
    __eq__ = _c
    def __ne__(self, o): return self._c(o)
    __hash__ = object.__hash__
    def sqrt(self): return Wild()
    def conjugate(self): return self

    def isnan(self):
        if self.nan is None:
            z = Z.CUR
            seen = getattr(z, "nans", None)
            if seen is None or seen[0] is not z.trace:
                seen = z.nans = [z.trace, 0]
            if NANS is not None and seen[1] >= NANS:
                self.nan = False
            else:
                self.nan = z.branch(Z.z3.Bool(z.name("isnan")))
                seen[1] += self.nan
        return self.nan


def isnan(x):
    def f(a):
        return a.isnan() if isinstance(a, Wild) else Z._isnan(a)
    return Z.masked(Z.vec(f)(x)) if not isinstance(x, Wild) else x.isnan()


def clip(np):
    def g(x, a_min=None, a_max=None, **k):
        def one(a, lo, hi):
            if isinstance(a, Wild):
                if a.isnan():
                    return math.nan
                t = Z.CUR.fresh("clipped")
                Z.CUR.assume(t >= lo)
                Z.CUR.assume(t <= hi)
                return t
            if Z._isnan(a):
                return a
            a = Z.zmax(a, lo) if lo is not None else a
            return Z.zmin(a, hi) if hi is not None else a
        if isinstance(x, Wild):
            lo, hi = [v.item() if isinstance(v, onp.ndarray) else v for v in (a_min, a_max)]
            return one(x, lo, hi)
        if a_min is None or a_max is None:
            r = x
            if a_min is not None:
                r = np.maximum(r, a_min)
            return r if a_max is None else np.minimum(r, a_max)
        return Z.vec(one)(x, a_min, a_max)
    return g


def scal(x):
    """the number held by a scalar or size-one array"""
    while isinstance(x, onp.ndarray):
        x = x.item()
    return x


def sym(x):
    return isinstance(x, (Z.Sym, Z.SymBool))


class Quiet:
    """logger"""
    def __getattr__(self, k): return lambda *a, **kw: None


def obj(cls, **kw):
    o = cls.__new__(cls)
    props = [k for k in kw if isinstance(getattr(cls, k, None), property)]
    o.__dict__.update({k: v for k, v in kw.items() if k not in props})
    for k in props:
        setattr(o, k, kw[k])      # through the real setter
    return o


class Arr(onp.ndarray):
    """object array of terms that stays one when converted to float"""
    def astype(self, dtype, *a, **k):
        if dtype in (float, "float", onp.float64) or dtype is Z.ZFloat:
            return self.copy() if k.get("copy", True) else self
        return onp.ndarray.astype(self, dtype, *a, **k)


def arr(x):
    a = onp.array(x, dtype=object)
    return a.view(Arr)


class Member:
    """member of a population"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def get(self, k): return getattr(self, k)
    def set(self, k, v): setattr(self, k, v)


class Pop(onp.ndarray):
    """population: array of members (contract of pymoo's Population: indexing, get, set, create, merge)"""
    def __new__(cls, members=()):
        a = onp.empty(len(members), dtype=object)
        for i, m in enumerate(members):
            a[i] = m
        return a.view(cls)

    def get(self, *ks, to_numpy=True):
        r = [arr([m.get(k) for m in self]) for k in ks]
        return r[0] if len(ks) == 1 else tuple(r)

    def set(self, *kv):
        for k, v in zip(kv[::2], kv[1::2]):
            for i, m in enumerate(self):
                m.set(k, v[i] if isinstance(v, (list, onp.ndarray)) else v)
        return self

    @classmethod
    def create(cls, *m): return cls(list(m))

    @classmethod
    def merge(cls, a, b): return cls(list(a) + list(b))
