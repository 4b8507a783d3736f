"""shared symbolic worlds"""
from pyvc import poly as pl, tensor as tn, shims, loader
from pyvc.poly import Poly, P, V, A, ZERO, ONE, RANGE, psum, diff, delta, Unsupported
from pyvc.tensor import T, newidx, vname, scalar
from pyvc.check import Refuted, Skip, prove_equal


def dim(name, lb=1):
    return V(name, True, lb)


def sym_array(name, shape, kind="f"):
    return T(shape, lambda *i: A(name, *i), kind)


def row_of(x, name):
    """index i when x is row i of array `name` (x: T of ndim 1)"""
    k = newidx(x.shape_[0])
    p = x.at_(k)
    s = p.single()
    if s is None:
        raise Unsupported("callback argument is not a row of the decision matrix")
    ((a, e),), c = s if isinstance(s, tuple) and len(s) == 2 else (s, 1)
    if a[0] != "a" or a[1] != name or e != 1 or a[2][-1] != k:
        raise Unsupported("callback argument is not a row of the decision matrix")
    return a[2][:-1]


def rowmap(src, dst, *inner, kind="f"):
    """contract of a per-point callback: row i of `src` is mapped to dst[i, ...] of shape inner"""
    def f(x, *a, **k):
        x = tn.to_T(x)
        if x.ndim == 2:
            i, q = newidx(x.shape_[0]), newidx(x.shape_[1])
            if x.at_(i, q) != A(src, i, q):
                raise Unsupported("callback argument is not the decision matrix")
            return T((x.shape_[0],) + tuple(inner), lambda i, *t: A(dst, i, *t), kind)
        r = row_of(x, src)
        return T(inner, lambda *t: A(dst, *r, *t), kind)
    return f


def smooth(src, val, jac, hes=None):
    """declare jac / hes as the derivatives of val with respect to the rows of src"""
    pl.DRULE[(val, src)] = lambda i, w: delta(i[0], w[0]) * A(jac, *i, w[1])
    if hes:
        pl.DRULE[(jac, src)] = lambda i, w: delta(i[0], w[0]) * A(hes, *i, w[1])
        pl.SYM[hes] = ((2, 3),)


def ref_overrides():
    """contract of ReferenceSet as seen by its clients"""
    class ReferenceSetC:
        def __init__(self, ref, *a, **k):
            if isinstance(ref, ReferenceSetC):
                ref = ref.ref
            self.ref = ref
            self._matched = None
            self.re_match = True
            self.matches = []
            self.eta = None

        @property
        def N(self):
            return self.reference_set.vlen() if hasattr(self.reference_set, "vlen") else len(self.reference_set)

        @property
        def reference_set(self):
            return self._matched if self._matched is not None else self.ref

        def match(self, Y):
            self.matches.append(Y)
            Y = tn.to_T(Y)
            self._matched = T((Y.shape_[0], self.ref.shape_[1]), lambda i, a: A("Rm", i, a))
    return ReferenceSetC
