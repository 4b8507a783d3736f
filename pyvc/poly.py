"""Exact algebra the verifier computes in.

A Poly is a finite sum  c1*m1 + c2*m2 + ...  over the rationals.  A monomial is a product of atoms with
(integer, rational or symbolic) exponents.  Atoms:

  ('v', name)               scalar (index, dimension or real parameter)
  ('a', name, idx)          entry of a symbolic array / value of an uninterpreted function
  ('f', name, args)         exp, log, sin, cos, abs, floordiv, mod, sign, ...
  ('g', P)                  a compound base that only occurs with a non-expandable exponent
  ('d', P)                  Kronecker delta  [P == 0]  over integer index expressions
  ('c', rel, P)             indicator [P rel 0], rel in {'lt','le','eq'}
  ('s', ns, mono)           sum over bound indices (ns = their extents), body a single monomial
  ('l', ns, P)              array-valued argument (lambda abstraction) of an uninterpreted function

Every operation keeps the value in normal form, so two expressions are equal when their normal forms
coincide (the converse does not hold; a difference that does not vanish is "not proved").
"""
from fractions import Fraction
from itertools import permutations, product as iproduct
import math

_fresh = [0]


def fresh_name(prefix="i"):
    _fresh[0] += 1
    return f"{prefix}!{_fresh[0]}"


RANGE = {}      # index variable name -> extent (Poly): 0 <= v < extent
LB = {}         # dimension / scalar name -> integer lower bound
INTS = set()    # names of integer scalars
SYM = {}        # array name -> tuple of groups of symmetric index positions
DRULE = {}      # (array name, wrt array name) -> function(idx, widx) -> Poly
NONNEG = set()  # names of scalars known to be >= 0 (real parameters)
POSRULES = []    # predicates: poly known to be nonzero (differentiability preconditions)
INDRULES = []     # functions (rel, poly) -> 0/1 polynomial or None: facts of the precondition about [poly rel 0]
POSATOM = set() # atoms assumed > 0


class Unsupported(Exception):
    """The construct is outside the verifier's subset (tool limit, never a violation)."""
    RAISED = []    # not to be lost when the code under test swallows every exception

    def __init__(self, *a):
        Exception.__init__(self, *a)
        Unsupported.RAISED.append(str(a[0]) if a else "")


def F(x):
    return x if isinstance(x, Fraction) else Fraction(x)


_keycache = {}


def akey(a):
    k = _keycache.get(a)
    if k is None:
        t = a[0]
        if t == "v":
            k = "v:" + a[1]
        elif t == "a":
            k = f"a:{a[1]}({','.join(x.key() for x in a[2])})"
        elif t == "f":
            k = f"f:{a[1]}({','.join(x.key() for x in a[2])})"
        elif t == "g":
            k = f"g({a[1].key()})"
        elif t == "d":
            k = f"d({a[1].key()})"
        elif t == "c":
            k = f"c:{a[1]}({a[2].key()})"
        elif t == "s":
            k = f"s[{';'.join(x.key() for x in a[1])}]({mkey(a[2])})"
        elif t == "l":
            k = f"l[{';'.join(x.key() for x in a[1])}]({a[2].key()})"
        else:
            raise ValueError(a)
        _keycache[a] = k
    return k


def ekey(e):
    return e.key() if isinstance(e, Poly) else str(e)


def mkey(m):
    return "*".join(f"{akey(a)}^{ekey(e)}" for a, e in m)


def _skey(p):
    return p


_fvcache = {}


def afree(a):
    """free scalar names and array names of an atom"""
    r = _fvcache.get(a)
    if r is None:
        t = a[0]
        if t == "v":
            r = frozenset([a[1]])
        elif t == "a":
            r = frozenset(["@" + a[1]]).union(*[x.free() for x in a[2]]) if a[2] else frozenset(["@" + a[1]])
        elif t == "f":
            r = frozenset().union(*[x.free() for x in a[2]]) if a[2] else frozenset()
        elif t == "g" or t == "d":
            r = a[1].free()
        elif t == "c":
            r = a[2].free()
        elif t == "s":
            r = frozenset().union(*[x.free() for x in a[1]]) | mfree(a[2])
            pre = f"\u03b2{_level(a)}_"
            r = frozenset(x for x in r if not x.startswith(pre))
        elif t == "l":
            r = frozenset().union(*[x.free() for x in a[1]]) | a[2].free()
            r = frozenset(x for x in r if not x.startswith("\u03bb"))
        _fvcache[a] = r
    return r


def mfree(m):
    r = frozenset()
    for a, e in m:
        r = r | afree(a)
        if isinstance(e, Poly):
            r = r | e.free()
    return r


class Poly:
    __slots__ = ("t", "_h", "_k", "_f")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._k = None
        self._f = None

    # ---- basics
    def key(self):
        if self._k is None:
            self._k = "+".join(sorted(f"{c}*{mkey(m)}" for m, c in self.t.items())) or "0"
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def __repr__(self):
        return pretty(self)

    def free(self):
        if self._f is None:
            r = frozenset()
            for m in self.t:
                r = r | mfree(m)
            self._f = r
        return self._f

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    # ---- ring operations
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            s = d.get(m, 0) + c
            if s == 0:
                d.pop(m, None)
            else:
                d[m] = s
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if self.is_const():
            c = self.const()
            return Poly({m: v * c for m, v in o.t.items()}) if c else ZERO
        if o.is_const():
            c = o.const()
            return Poly({m: v * c for m, v in self.t.items()}) if c else ZERO
        if len(self.t) * len(o.t) > 200000:
            raise Unsupported("expression too large")
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                if isinstance(r, Poly):
                    for m, c in r.t.items():
                        s = out.get(m, 0) + c * c1 * c2
                        if s == 0:
                            out.pop(m, None)
                        else:
                            out[m] = s
                else:
                    s = out.get(r, 0) + c1 * c2
                    if s == 0:
                        out.pop(r, None)
                    else:
                        out[r] = s
        return Poly(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * ppow(P(o), P(-1))

    def __rtruediv__(self, o):
        return P(o) * ppow(self, P(-1))

    def __pow__(self, e):
        return ppow(self, P(e))

    def __rpow__(self, b):
        return ppow(P(b), self)

    def single(self):
        """(mono, coef) if the polynomial has one term"""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported(f"non-finite constant {x}")
        # a literal denotes the decimal it is written as (documented: floats are read as reals); a constant the code computed
        # at run time (0.4 ** 2, 1 / 3) denotes the simple number within two roundings of it
        g = Fraction(repr(x))
        if len(str(abs(g.numerator)).strip("0")) > 12:
            tol = 2 * Fraction(math.ulp(x))
            for c in [Fraction(f"{x:.{d}g}") for d in (8, 12)] + [Fraction(x).limit_denominator(d) for d in (100, 10000)]:
                if abs(c - Fraction(x)) <= tol:
                    g = c
                    break
        return Poly({(): g}) if g else ZERO
    if hasattr(x, "as_poly"):
        return x.as_poly()
    try:
        import numpy as _np
        if isinstance(x, _np.generic):
            return P(x.item())
    except ImportError:
        pass
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def atom(a, e=1):
    return Poly({((a, F(e) if not isinstance(e, Poly) else e),): Fraction(1)})


def V(name, integer=False, lb=None):
    if integer:
        INTS.add(name)
    if lb is not None:
        LB[name] = lb
    return atom(("v", name))


def A(name, *idx):
    idx = tuple(P(i) for i in idx)
    for grp in SYM.get(name, ()):
        vals = sorted((idx[g] for g in grp), key=lambda q: q.key())
        idx = list(idx)
        for g, v in zip(grp, vals):
            idx[g] = v
        idx = tuple(idx)
    return atom(("a", name, idx))


def IND(t):
    return t[0] in ("d", "c")


def _norm_exp(e):
    if isinstance(e, Poly) and e.is_const():
        return e.const()
    return e


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            if IND(a):
                continue
            s = d[a]
            s = (P(s) + P(e)) if (isinstance(s, Poly) or isinstance(e, Poly)) else s + e
            s = _norm_exp(s)
            if not isinstance(s, Poly) and s == 0:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    return mono_norm(d)


def mono_norm(d):
    """normalise a factor dict; returns a mono tuple or a Poly"""
    # a group with an exponent that became a positive integer is expanded
    expand = [(a, e) for a, e in d.items() if a[0] == "g" and not isinstance(e, Poly) and e.denominator == 1 and e > 0]
    if expand:
        rest = {a: e for a, e in d.items() if not any(a is x[0] or a == x[0] for x in expand)}
        r = mono_norm(rest)
        r = r if isinstance(r, Poly) else Poly({r: Fraction(1)})
        for a, e in expand:
            for _ in range(int(e)):
                r = r * a[1]
        return r
    # merge exp factors:  exp(a)^e * exp(b)^f = exp(e a + f b)
    exps = [(a, e) for a, e in d.items() if a[0] == "f" and a[1] == "exp"]
    if exps and (len(exps) > 1 or exps[0][1] != 1):
        arg = ZERO
        for a, e in exps:
            arg = arg + a[2][0] * P(e)
            del d[a]
        x = fexp(arg)
        r = mono_norm(d)
        r = r if isinstance(r, Poly) else Poly({r: Fraction(1)})
        return r * x
    # deltas rewrite the rest of the monomial
    dl = [a for a in d if a[0] == "d"]
    if dl:
        for a in dl:
            av = _atom_eq_var(a[1])
            if av is not None:
                at_, val = av
                nm = at_[1]
                tgt = at_[2]

                def rep(*t, nm=nm, tgt=tgt, val=val):
                    return val if len(t) == len(tgt) and all(x == y for x, y in zip(t, tgt)) else A(nm, *t)
                rest, hit = ONE, False
                for b, x in d.items():
                    if b == a:
                        continue
                    if ("@" + nm) in afree(b):
                        bb = subst(atom(b), {}, {nm: rep})
                        if bb != atom(b):
                            hit = True
                            rest = rest * (ppow(bb, P(x)) if x != 1 else bb)
                            continue
                    rest = rest * atom(b, x)
                if hit:
                    return rest * atom(a)
                continue
            v, e = delta_solve(a[1])
            if v is None:
                continue
            others = [b for b in d if b is not a and b != a and (v in afree(b))] + [
                b for b, x in d.items() if isinstance(x, Poly) and v in x.free()]
            if others:
                rest = ONE
                for b, x in d.items():
                    if b == a:
                        continue
                    bb = subst(atom(b), {v: e})
                    xx = subst(x, {v: e}) if isinstance(x, Poly) else x
                    rest = rest * ppow(bb, P(xx)) if xx != 1 else rest * bb
                return rest * atom(a) if not rest.is_const() else atom(a) * rest
    # [0 < s] * s = s for a sum s of nonnegative terms
    for a in [a for a in d if a[0] == "c" and a[1] == "lt"]:
        q = (-a[2]).single()
        if q and q[1] == 1 and len(q[0]) == 1 and q[0][0][0][0] == "s" and q[0][0][1] == 1:
            sa = q[0][0][0]
            e = d.get(sa)
            if e is not None and not isinstance(e, Poly) and e > 0 and nonneg_atom(sa):
                del d[a]
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


def _atom_eq_var(p):
    """p = +-(f[..] - v) with v an index variable that does not occur in f[..]: (atom, v)"""
    if len(p.t) != 2:
        return None
    at_ = var = None
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            return None
        if m[0][0][0] == "a" and m[0][0][2]:
            at_ = (m[0][0], c)
        elif m[0][0][0] == "v" and (m[0][0][1] in RANGE or m[0][0][1].startswith("\u03b2")):
            var = (m[0][0], c)
    if at_ is None or var is None or at_[1] != -var[1] or var[0][1] in afree(at_[0]):
        return None
    return at_[0], atom(var[0])


def delta_solve(p):
    """p == 0 -> (variable, value); prefers the index variable with the largest name"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0][0] == "v" and m[0][1] == 1 and abs(c) == 1:
            n = m[0][0][1]
            if n in RANGE or n.startswith("\u03b2"):
                # must not occur elsewhere in p
                rest = Poly({k: v for k, v in p.t.items() if k != m})
                if n in rest.free():
                    continue
                if best is None or _vorder(n) > _vorder(best[0]):
                    best = (n, rest * (-1 / F(c)))
    return best if best else (None, None)


def _vorder(n):
    # bound variables are eliminated first, then later-created ones
    if "!" in n:
        return (1, int(n.split("!")[1]), n)
    return (0, 0, n)


def ppow(b, e):
    e = P(e)
    if e.is_const():
        ec = e.const()
        if ec == 0:
            return ONE
        if ec == 1:
            return b
        if b.is_const():
            bc = b.const()
            if bc == 0:
                if ec > 0:
                    return ZERO
                raise Unsupported("division by zero")
            if ec.denominator == 1:
                return P(bc ** int(ec))
            r = _exact_root(bc, ec)
            if r is not None:
                return P(r)
            return atom(("g", b), ec)
        if ec.denominator == 1 and ec > 0 and ec <= 12:
            r = ONE
            s = b.single()
            if s is not None:
                return _mono_pow(s, ec)
            for _ in range(int(ec)):
                r = r * b
            return r
        s = b.single()
        if s is not None:
            return _mono_pow(s, ec)
        # factor out the content so that (2x+2y)^-1 and (x+y)^-1 agree
        c, q = content(b)
        if c != 1:
            if ec.denominator == 1:
                return P(c ** int(ec)) * ppow(q, e)
            r = _exact_root(c, ec) if c > 0 else None
            if r is not None:
                return P(r) * ppow(q, e)
        return Poly({((("g", b), ec),): Fraction(1)})
    # symbolic exponent
    if b.is_const() and b.const() == 1:
        return ONE
    s = b.single()
    if s is not None:
        m, c = s
        if c > 0 and all(nonneg_atom(a, x) for a, x in m):
            r = ONE if c == 1 else atom(("g", P(c)), e)
            for a, x in m:
                r = r * atom(a, P(x) * e)
            return r
        return Poly({((("g", b), e),): Fraction(1)})
    return Poly({((("g", b), e),): Fraction(1)})


def content(b):
    """make the leading coefficient (by key) 1 in absolute value"""
    m0 = min(b.t, key=mkey)
    c = abs(b.t[m0])
    return c, Poly({m: v / c for m, v in b.t.items()})


def _exact_root(c, e):
    if c <= 0:
        return None
    p, q = e.numerator, e.denominator
    n = round(float(c.numerator) ** (1 / q))
    d = round(float(c.denominator) ** (1 / q))
    if n ** q == c.numerator and d ** q == c.denominator:
        return Fraction(n, d) ** p
    return None


def nonneg_atom(a, e=1):
    if a in POSATOM:
        return True
    if not isinstance(e, Poly) and e.denominator == 1 and e.numerator % 2 == 0:
        return True
    if a[0] == "v":
        return a[1] in NONNEG or LB.get(a[1], -1) >= 0 or a[1] in RANGE
    if a[0] == "f":
        return a[1] in ("exp", "abs")
    if a[0] in ("d", "c"):
        return True
    if a[0] == "g":
        return isinstance(e, Poly) or e.denominator != 1 or nonneg(a[1])
    if a[0] == "s":
        return all(nonneg_atom(x, y) for x, y in a[2])
    return False


def nonneg(p):
    """sufficient syntactic test for p >= 0"""
    return all(c >= 0 and all(nonneg_atom(a, e) for a, e in m) for m, c in p.t.items()) or _sumsq(p)


def _sumsq(p):
    """recognise sum_j (u_j - w_j)^2 expansions: p = sum over j of (f)^2"""
    # heuristics: handled by callers through POSATOM / ASSUME_NONNEG
    return p.key() in ASSUME_NONNEG


ASSUME_NONNEG = set()


def assume_nonneg(p):
    ASSUME_NONNEG.add(p.key())


def _mono_pow(s, ec):
    m, c = s
    if ec.denominator == 1:
        r = P(c ** int(ec))
        for a, e in m:
            if IND(a):
                if ec < 0:
                    r = r * atom(("g", atom(a)), ec)
                else:
                    r = r * atom(a)
                continue
            ne = _norm_exp(P(e) * ec)
            r = r * (atom(a, ne))
        return r
    # rational exponent: split only nonnegative factors
    r = ONE
    left = {}
    lc = Fraction(1)
    if c > 0:
        root = _exact_root(c, ec)
        if root is not None:
            r = P(root)
        else:
            r = atom(("g", P(c)), ec)
    else:
        lc = c
    for a, e in m:
        if IND(a):
            r = r * atom(a)
        elif a in POSATOM or (nonneg_atom(a) and True):
            r = r * atom(a, _norm_exp(P(e) * ec))
        elif a[0] == "g" and nonneg(a[1]):
            r = r * atom(a, _norm_exp(P(e) * ec))
        elif a[0] == "g" and (isinstance(e, Poly) or e.denominator != 1):
            # a non-integer power already presumes a nonnegative base
            r = r * atom(a, _norm_exp(P(e) * ec))
        elif not isinstance(e, Poly) and e.denominator == 1 and e.numerator % 2 == 0 and (
            _norm_exp(P(e) * ec) == 1 or ec * e == int(e // 2) ):
            # (x^2)^(1/2) = |x|
            h = ec * e
            r = r * ppow(fabs(atom(a)), P(h))
        else:
            left[a] = e
    if left or lc != 1:
        base = Poly({tuple(sorted(left.items(), key=lambda x: akey(x[0]))): lc})
        r = r * Poly({((("g", base), ec),): Fraction(1)})
    return r


# ------------------------------------------------------------------ functions
def fexp(p):
    p = P(p)
    if p == ZERO:
        return ONE
    return atom(("f", "exp", (p,)))


def flog(p):
    p = P(p)
    if p == ONE:
        return ZERO
    s = p.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0][0] == "f" and s[0][0][0][1] == "exp" and s[0][0][1] == 1:
        return s[0][0][0][2][0]
    return atom(("f", "log", (p,)))


def fabs(p):
    p = P(p)
    if p.is_const():
        return P(abs(p.const()))
    s = p.single()
    if s:
        m, c = s
        if all(nonneg_atom(a, e) for a, e in m):
            return P(abs(c)) * Poly({m: Fraction(1)})
    q = lead_pos(p)
    return atom(("f", "abs", (q,)))


def lead_pos(p):
    m0 = min(p.t, key=mkey)
    return p if p.t[m0] > 0 else -p


PI = ("v", "\u03c0")
NONNEG.add("\u03c0")


def _trig_reduce(name, p):
    # multiples of pi/2 in the constant part
    pk = ((PI, Fraction(1)),)
    c = p.t.get(pk, Fraction(0))
    k = (c * 2)
    if k.denominator == 1 and c != 0:
        rest = Poly({m: v for m, v in p.t.items() if m != pk})
        k = int(k) % 4
        order = {"sin": ["sin", "cos", "-sin", "-cos"], "cos": ["cos", "-sin", "-cos", "sin"]}[name][k]
        sgn = -1 if order[0] == "-" else 1
        f = fsin if order.lstrip("-") == "sin" else fcos
        return sgn * f(rest)
    return None


def fsin(p):
    p = P(p)
    if p == ZERO:
        return ZERO
    r = _trig_reduce("sin", p)
    if r is not None:
        return r
    q = lead_pos(p)
    r = atom(("f", "sin", (q,)))
    return r if q == p else -r


def fcos(p):
    p = P(p)
    if p == ZERO:
        return ONE
    r = _trig_reduce("cos", p)
    if r is not None:
        return r
    return atom(("f", "cos", (lead_pos(p),)))


def ffun(name, *args):
    args = tuple(P(a) for a in args)
    if name == "exp":
        return fexp(*args)
    if name == "log":
        return flog(*args)
    if name == "abs":
        return fabs(*args)
    if name == "sin":
        return fsin(*args)
    if name == "cos":
        return fcos(*args)
    if name == "sqrt":
        return ppow(args[0], P(Fraction(1, 2)))
    if name == "sign" and args[0].is_const():
        c = args[0].const()
        return P((c > 0) - (c < 0))
    if name == "sign":
        q = lead_pos(args[0])
        r = atom(("f", "sign", (q,)))
        return r if q == args[0] else -r
    if name == "floor" and args[0].is_const():
        return P(math.floor(args[0].const()))
    return atom(("f", name, args))


def floordiv(p, k):
    p, k = P(p), P(k)
    if p.is_const() and k.is_const():
        return P(p.const() // k.const())
    # split off the part divisible by k
    q, r = split_div(p, k)
    if r == ZERO:
        return q
    if in_range(r, k):
        return q
    return q + atom(("f", "floordiv", (r, k)))


def pmod(p, k):
    p, k = P(p), P(k)
    if p.is_const() and k.is_const():
        return P(p.const() % k.const())
    q, r = split_div(p, k)
    if r == ZERO:
        return ZERO
    if in_range(r, k):
        return r
    return atom(("f", "mod", (r, k)))


def split_div(p, k):
    if k.is_const():
        kc = k.const()
        q, r = {}, {}
        for m, c in p.t.items():
            if is_int_mono(m):
                w = Fraction(math.floor(c / kc))
                if m == ():
                    pass
                elif (c / kc).denominator != 1:
                    w = Fraction(math.floor(c / kc))
                if w:
                    q[m] = w
                if c - w * kc:
                    r[m] = c - w * kc
            else:
                r[m] = c
        return Poly(q), Poly(r)
    s = k.single()
    if s is None:
        return ZERO, p
    mk, ck = s
    q, r = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        ok = True
        for a, e in mk:
            if d.get(a, 0) == e:
                del d[a]
            else:
                ok = False
                break
        if ok and (c / ck).denominator == 1:
            q[tuple(sorted(d.items(), key=lambda x: akey(x[0])))] = c / ck
        else:
            r[m] = c
    return Poly(q), Poly(r)


def is_int_mono(m):
    for a, e in m:
        if isinstance(e, Poly) or e.denominator != 1 or e < 0:
            return False
        if a[0] == "v" and (a[1] in RANGE or a[1] in INTS or a[1][0] in "\u03b2\u03bb"):
            continue
        if a[0] == "a" and a[1] in INTS:
            continue
        if a[0] == "f" and a[1] in ("floordiv", "mod", "floor"):
            continue
        if a[0] in ("d", "c"):
            continue
        return False
    return True


def is_int(p):
    return all(c.denominator == 1 and is_int_mono(m) for m, c in p.t.items())


def lower_bound_ge0(p):
    """sufficient test for p >= 0 over index ranges and dimension lower bounds"""
    for _ in range(6):
        changed = False
        for m, c in list(p.t.items()):
            if c < 0:
                for a, e in m:
                    if a[0] == "v" and a[1] in RANGE and e == 1:
                        p = subst(p, {a[1]: RANGE[a[1]] - 1}) if _neg_linear(p, a[1]) else None
                        changed = True
                        break
                if p is None:
                    return False
                if changed:
                    break
        if not changed:
            break
    sub = {}
    for n in p.free():
        if n in LB and LB[n] != 0 and not n.startswith("@"):
            sub[n] = V(n + "~") + LB[n]
            LB[n + "~"] = 0
            if n in INTS:
                INTS.add(n + "~")
    if sub:
        p = subst(p, sub)
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if not nonneg_atom(a, e) and not (a[0] == "f" and a[1] in ("floordiv", "mod")):
                return False
    return True


def _neg_linear(p, n):
    """every monomial containing n has n^1 and negative coefficient"""
    for m, c in p.t.items():
        for a, e in m:
            if n in afree(a):
                if a != ("v", n) or e != 1 or c > 0:
                    return False
    return True


def in_range(e, n):
    e, n = P(e), P(n)
    s = e.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0][0] == "v" and s[0][0][1] == 1:
        r = RANGE.get(s[0][0][0][1])
        if r is not None and r == n:
            return True
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0][0] == "a" and s[0][0][1] == 1:
        r = ARANGE.get(s[0][0][0][1])
        if r is not None and r == n:
            return True
    return lower_bound_ge0(e) and lower_bound_ge0(n - 1 - e)


ARANGE = {}     # integer array name -> extent of its values


# ------------------------------------------------------------------ indicators
def delta(a, b=0):
    p = P(a) - P(b)
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    if is_int(p):
        # gcd / non-integrality
        c = p.const()
        coefs = [abs(v) for m, v in p.t.items() if m != ()]
        g = 0
        for v in coefs:
            g = math.gcd(g, int(v))
        if g and int(c) % g:
            return ZERO
        if g > 1:
            p = Poly({m: v / g for m, v in p.t.items()})
        if lower_bound_ge0(p - 1) or lower_bound_ge0(-p - 1):
            return ZERO
    # delta of flat index pairs: i*d + a == j*d + b  with a,b in [0,d)
    sp = _split_flat(p)
    if sp is not None:
        r = ONE
        for q in sp:
            r = r * delta(q)
        return r
    return atom(("d", lead_pos(p)))


def _split_flat(p):
    """(i-j)*d + (a-b) == 0 with a,b in [0,d)  ->  [i-j, a-b]"""
    dims = set()
    for m, c in p.t.items():
        if len(m) >= 2:
            for a, e in m:
                if a[0] == "v" and a[1] in LB and a[1] not in RANGE:
                    dims.add(a[1])
    for d in sorted(dims):
        q, r = split_div(p, V(d))
        if q == ZERO or r == ZERO:
            if r == ZERO and q != ZERO:
                return [q]
            continue
        # r must be a difference of two values in [0,d)
        pos = Poly({m: c for m, c in r.t.items() if c > 0})
        neg = -Poly({m: c for m, c in r.t.items() if c < 0})
        if (pos == ZERO or in_range(pos, V(d))) and (neg == ZERO or in_range(neg, V(d))):
            return [q, r]
    return None


def ind(rel, a, b=0):
    """indicator of a rel b for rel in lt, le, eq, ne, gt, ge"""
    a, b = P(a), P(b)
    if rel == "gt":
        return ind("lt", b, a)
    if rel == "ge":
        return ind("le", b, a)
    if rel == "ne":
        return ONE - ind("eq", a, b)
    p = a - b
    if p.is_const():
        c = p.const()
        return P({"lt": c < 0, "le": c <= 0, "eq": c == 0}[rel])
    atoms = {a for m in p.t for a, e in m}
    if 0 < len(atoms) <= 4 and all(IND(a) for a in atoms):   # a value that depends on conditions only: case split
        atoms = sorted(atoms, key=akey)
        r = ZERO
        for bits in iproduct((0, 1), repeat=len(atoms)):
            on = dict(zip(atoms, bits))
            v = sum(c for m, c in p.t.items() if all(on[a] for a, e in m))
            if {"lt": v < 0, "le": v <= 0, "eq": v == 0}[rel]:
                t = ONE
                for a in atoms:
                    t = t * (atom(a) if on[a] else ONE - atom(a))
                r = r + t
        return r
    for rule in INDRULES:
        r = rule(rel, p)
        if r is not None:
            return P(r)
    if rel == "eq":
        if is_int(p):
            return delta(p)
        if any(r(p) for r in POSRULES):
            return ZERO
        return atom(("c", "eq", content(lead_pos(p))[1]))
    if is_int(p):
        if rel == "lt":     # p < 0  <->  p+1 <= 0
            p = p + 1
            rel = "le"
        if lower_bound_ge0(-p):
            return ONE
        if lower_bound_ge0(p - 1):
            return ZERO
    else:
        if nonneg(p) and rel == "lt":
            return ZERO
    if rel == "le" and is_int(p):
        g = 0
        for m, v in p.t.items():
            if m != ():
                g = math.gcd(g, int(v))
        if g > 1:    # g*s + c <= 0  <->  s <= floor(-c/g)
            c = p.const()
            p = Poly({m: v / g for m, v in p.t.items() if m != ()}) - math.floor(-c / g)
    else:
        p = content(p)[1]
    # p <= 0  is  1 - [-p < 0]: keep 'lt' for canonical polarity, except integers keep 'le'
    if rel == "le" and not is_int(p):
        return ONE - atom(("c", "lt", -p))
    if rel == "le":
        q = -p  # [p<=0];  canonical polarity: leading coefficient positive, else complement
        m0 = min((m for m in p.t if m != ()), key=mkey)
        if p.t[m0] < 0:   # -x + c <= 0  <-> x >= c  <-> not (x <= c-1)
            return ONE - atom(("c", "le", -p + 1))
    return atom(("c", rel, p))


def notp(b):
    return ONE - P(b)


def andp(a, b):
    return P(a) * P(b)


def orp(a, b):
    a, b = P(a), P(b)
    return a + b - a * b


def ite(c, a, b):
    c = P(c)
    return c * P(a) + (ONE - c) * P(b)


# ------------------------------------------------------------------ substitution
def subst(p, m, arr=None):
    """m: scalar name -> Poly;  arr: array name -> function(idx polys) -> Poly"""
    if not isinstance(p, Poly):
        return p
    names = set(m)
    if arr:
        names |= {"@" + k for k in arr}
    if not (p.free() & names):
        return p
    out = ZERO
    for mono, c in p.t.items():
        fr = mfree(mono)
        if not (fr & names):
            out = out + Poly({mono: c})
            continue
        r = P(c)
        for a, e in mono:
            x = asubst(a, m, arr, names)
            if isinstance(e, Poly):
                e = _norm_exp(subst(e, m, arr))
            r = r * (x if e == 1 else ppow(x, P(e)))
        out = out + r
    return out


def asubst(a, m, arr, names):
    if not (afree(a) & names):
        return atom(a)
    t = a[0]
    if t == "v":
        return P(m[a[1]])
    if t == "a":
        idx = tuple(subst(x, m, arr) for x in a[2])
        if arr and a[1] in arr:
            return P(arr[a[1]](*idx))
        return A(a[1], *idx)
    if t == "f":
        args = [subst(x, m, arr) for x in a[2]]
        if a[1] == "floordiv":
            return floordiv(*args)
        if a[1] == "mod":
            return pmod(*args)
        return ffun(a[1], *args)
    if t == "g":
        return subst(a[1], m, arr)
    if t == "d":
        return delta(subst(a[1], m, arr))
    if t == "c":
        return ind(a[1], subst(a[2], m, arr))
    if t == "s":
        bvs, ns, body = open_sum(a)
        ns = [subst(n, m, arr) for n in ns]
        for b, n in zip(bvs, ns):
            RANGE[b] = n
        body = subst(Poly({body: Fraction(1)}), m, arr)
        return close_sum(list(zip(bvs, ns)), body)
    if t == "l":
        return lam_subst(a, m, arr)
    raise ValueError(a)


# ------------------------------------------------------------------ sums
def open_sum(a):
    ns, body = a[1], a[2]
    bvs, ren = [], {}
    lvl = _level(a)
    for k, n in enumerate(ns):
        b = fresh_name("s")
        RANGE[b] = n
        bvs.append(b)
        ren[f"\u03b2{lvl}_{k}"] = V(b)
    return bvs, list(ns), _rename_mono(body, ren)


def _rename_mono(mono, ren):
    q = subst_raw(Poly({mono: Fraction(1)}), ren)
    s = q.single()
    if s is None or s[1] != 1:
        raise Unsupported("sum body did not stay a monomial")
    return s[0]


def subst_raw(p, ren):
    """rename scalar variables to variables (no capture possible by construction)"""
    if not (p.free() & set(ren)):
        return p
    out = {}
    for mono, c in p.t.items():
        fac = []
        for a, e in mono:
            fac.append((araw(a, ren), subst_raw(e, ren) if isinstance(e, Poly) else e))
        k = tuple(sorted(fac, key=lambda x: akey(x[0])))
        out[k] = out.get(k, 0) + c
        if out[k] == 0:
            del out[k]
    return Poly(out)


def araw(a, ren):
    if not (afree(a) & set(ren)):
        return a
    t = a[0]
    if t == "v":
        q = ren[a[1]]
        return q.single()[0][0][0]
    if t == "a":
        idx = [subst_raw(x, ren) for x in a[2]]
        for grp in SYM.get(a[1], ()):
            vals = sorted((idx[g] for g in grp), key=lambda q: q.key())
            for g, v in zip(grp, vals):
                idx[g] = v
        return ("a", a[1], tuple(idx))
    if t == "f":
        args = tuple(subst_raw(x, ren) for x in a[2])
        if a[1] in ("abs", "cos"):
            args = (lead_pos(args[0]),)
        return ("f", a[1], args)
    if t == "g":
        return ("g", subst_raw(a[1], ren))
    if t == "d":
        return ("d", lead_pos(subst_raw(a[1], ren)))
    if t == "c":
        return ("c", a[1], subst_raw(a[2], ren) if a[1] != "eq" else lead_pos(subst_raw(a[2], ren)))
    if t == "s":
        lvl = _level(a)
        return ("s", tuple(subst_raw(n, ren) for n in a[1]), _raw_mono(a[2], ren))
    if t == "l":
        return ("l", tuple(subst_raw(n, ren) for n in a[1]), subst_raw(a[2], ren))
    raise ValueError(a)


def _raw_mono(mono, ren):
    fac = []
    for a, e in mono:
        fac.append((araw(a, ren), subst_raw(e, ren) if isinstance(e, Poly) else e))
    return tuple(sorted(fac, key=lambda x: akey(x[0])))


_lvlcache = {}


def _level(a):
    """nesting height of a sum atom (names its canonical bound variables)"""
    r = _lvlcache.get(a)
    if r is None:
        r = 0
        if a[0] == "s":
            for n in a[1]:
                r = max(r, _plevel(n) + 1)
            r = max(r, _mlevel(a[2]) + 1)
        else:
            for x in a[1:]:
                if isinstance(x, Poly):
                    r = max(r, _plevel(x))
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            r = max(r, _plevel(y))
        _lvlcache[a] = r
    return r


def _mlevel(m):
    r = 0
    for a, e in m:
        r = max(r, _level(a))
        if isinstance(e, Poly):
            r = max(r, _plevel(e))
    return r


def _plevel(p):
    r = 0
    for m in p.t:
        r = max(r, _mlevel(m))
    return r


def psum(bv, n, p):
    """sum of p over 0 <= bv < n"""
    return close_sum([(bv, P(n))], p)


def close_sum(binders, p):
    if p == ZERO:
        return ZERO
    out = ZERO
    for mono, c in p.t.items():
        out = out + P(c) * _sum_mono(list(binders), mono)
    return out


def _sum_mono(binders, mono):
    names = [b for b, _ in binders]
    # unused binders
    fr = mfree(mono)
    r = ONE
    keep = []
    bset = {b for b, _ in binders}
    dep = set()
    for _, n in binders:
        dep |= (n.free() & bset)
    for b, n in binders:
        if b in fr or b in dep:
            keep.append((b, n))
        else:
            r = r * n
    if not keep:
        return r * Poly({mono: Fraction(1)})
    binders = keep
    # constant extents are unrolled when small
    for k, (b, n) in enumerate(binders):
        if n.is_const() and n.const() <= 8:
            rest = binders[:k] + binders[k + 1:]
            acc = ZERO
            for v in range(int(n.const())):
                q = subst(Poly({mono: Fraction(1)}), {b: P(v)})
                rb = [(bb, subst(nn, {b: P(v)})) for bb, nn in rest]
                acc = acc + (close_sum(rb, q) if rb else q)
            return r * acc
    # delta elimination
    bn = {b for b, _ in binders}
    for a, e in mono:
        if a[0] == "d":
            for b, n in sorted(binders, key=lambda x: _vorder(x[0]), reverse=True):
                lin = _solve_for(a[1], b)
                if lin is None or (n.free() & bn):
                    continue
                rest = Poly({tuple(x for x in mono if x[0] != a): Fraction(1)})
                q = subst(rest, {b: lin})
                if not in_range(lin, n):
                    q = q * ind("le", 0, lin) * ind("lt", lin, n)
                rb = [(bb, subst(nn, {b: lin})) for bb, nn in binders if bb != b]
                return r * (close_sum(rb, q) if rb else q)
    # a condition that separates the first few values of a binder
    for a, e in mono:
        if a[0] == "c" and a[1] == "le" and len(binders) == 1:
            b, n = binders[0]
            lin = a[2].t.get(((("v", b), F(1)),))
            if lin not in (1, -1) or set(a[2].t) - {((("v", b), F(1)),), ()}:
                continue
            k = -a[2].const() * lin         # [b <= k]  or  [b >= k]
            k = k if lin == 1 else k - 1
            if not 0 <= k <= 3 or not lower_bound_ge0(n - (k + 1)):
                continue
            rest = Poly({tuple(x for x in mono if x[0] != a): Fraction(1)})
            head = ZERO
            for v in range(int(k) + 1):
                head = head + subst(rest, {b: P(v)})
            return r * (head if lin == 1 else close_sum(binders, rest) - head)
    # merge inner sums that mention the binders
    fac = list(mono)
    for i, (a, e) in enumerate(fac):
        if a[0] == "s" and (afree(a) & bn) and not isinstance(e, Poly) and e.denominator == 1 and e >= 1:
            bvs, ns, body = open_sum(a)
            rest = Poly({tuple(x for j, x in enumerate(fac) if j != i): Fraction(1)})
            if e > 1:
                rest = rest * atom(a, e - 1)
            q = rest * Poly({body: Fraction(1)})
            return r * close_sum(binders + list(zip(bvs, ns)), q)
    # pull out factors that do not mention the binders, split into components
    outm = [x for x in fac if not ((afree(x[0]) | (x[1].free() if isinstance(x[1], Poly) else frozenset())) & bn)]
    ins = [x for x in fac if ((afree(x[0]) | (x[1].free() if isinstance(x[1], Poly) else frozenset())) & bn)]
    comp = {b: b for b in bn}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x

    def union(xs):
        xs = list(xs)
        for y in xs[1:]:
            comp[find(y)] = find(xs[0])

    for a, e in ins:
        f = (afree(a) | (e.free() if isinstance(e, Poly) else frozenset())) & bn
        union(f)
    for b, n in binders:
        f = n.free() & bn
        if f:
            union([b] + list(f))
    groups = {}
    for b, n in binders:
        groups.setdefault(find(b), []).append((b, n))
    r = r * Poly({tuple(sorted(outm, key=lambda x: akey(x[0]))): Fraction(1)}) if outm else r
    for g, bs in groups.items():
        names = {b for b, _ in bs}
        fs = [x for x in ins if ((afree(x[0]) | (x[1].free() if isinstance(x[1], Poly) else frozenset())) & names)]
        r = r * atom(_canon_sum(bs, tuple(sorted(fs, key=lambda x: akey(x[0])))))
    return r


def align_sums(p, tail=False):
    """the same value with sums of nearby extents (n, n - 1, n - 2, ...) brought to the shortest one: the first (or last) terms
    are written out"""
    atoms = {a for m in p.t for a, e in m if a[0] == "s" and len(a[1]) == 1}
    fam = {}
    for a in atoms:
        n = a[1][0]
        fam.setdefault((n - n.const()).key(), set()).add(n.const())
    rep = {}
    for a in atoms:
        n = a[1][0]
        cs = fam[(n - n.const()).key()]
        d = n.const() - min(cs)
        if d == 0 or d.denominator != 1 or d > 4 or not lower_bound_ge0(n - d):
            continue
        (b,), _, body = open_sum(a)
        body = Poly({body: Fraction(1)})
        RANGE[b] = n - d
        if tail:
            ends = sum((subst(body, {b: n - 1 - k}) for k in range(int(d))), ZERO)
            rep[a] = ends + psum(b, n - d, body)
        else:
            ends = sum((subst(body, {b: P(k)}) for k in range(int(d))), ZERO)
            c = fresh_name()
            RANGE[c] = n - d
            rep[a] = ends + psum(c, n - d, subst(body, {b: V(c) + d}))
    if not rep:
        return p
    r = ZERO
    for m, c in p.t.items():
        t = P(c)
        for a, e in m:
            t = t * (ppow(rep[a], P(e)) if a in rep else atom(a, e))
        r = r + t
    return r


def _solve_for(p, b):
    for m, c in p.t.items():
        if m == ((("v", b), Fraction(1)),) and abs(c) == 1:
            rest = Poly({k: v for k, v in p.t.items() if k != m})
            if b in rest.free():
                return None
            return rest * (-1 / F(c))
    return None


def _canon_sum(bs, mono):
    lvl = 1 + max([_mlevel(mono)] + [_plevel(n) for _, n in bs])
    best = None
    if len(bs) > 6:
        raise Unsupported("too many nested sums")
    for perm in permutations(range(len(bs))):
        ren = {}
        for pos, k in enumerate(perm):
            ren[bs[k][0]] = V(f"\u03b2{lvl}_{pos}")
        ns = tuple(subst_raw(bs[k][1], ren) for k in perm)
        mm = _raw_mono(mono, ren)
        a = ("s", ns, mm)
        k = akey(a)
        if best is None or k < best[0]:
            best = (k, a)
    return best[1]


# ------------------------------------------------------------------ lambda arguments
def mklam(ns, fn):
    bvs = [fresh_name("\u03bbx") for _ in ns]
    for b, n in zip(bvs, ns):
        RANGE[b] = P(n)
    body = fn(*[V(b) for b in bvs])
    ren = {b: V(f"\u03bb{k}") for k, b in enumerate(bvs)}
    return ("l", tuple(P(n) for n in ns), subst_raw(body, ren))


def lam_subst(a, m, arr):
    bvs = [fresh_name("\u03bbx") for _ in a[1]]
    ns = [subst(n, m, arr) for n in a[1]]
    for b, n in zip(bvs, ns):
        RANGE[b] = n
    body = subst_raw(a[2], {f"\u03bb{k}": V(b) for k, b in enumerate(bvs)})
    body = subst(body, m, arr)
    return atom(("l", tuple(ns), subst_raw(body, {b: V(f"\u03bb{k}") for k, b in enumerate(bvs)})))


# ------------------------------------------------------------------ differentiation
def diff(p, name, idx=None):
    """d p / d name[idx]  (idx None: scalar variable).  Indicators are locally constant."""
    p = P(p)
    tag = ("@" + name) if idx is not None else name
    deps = {tag} | {"@" + k[0] for k in DRULE if k[1] == name}
    if not (p.free() & deps):
        return ZERO
    out = ZERO
    for mono, c in p.t.items():
        for i, (a, e) in enumerate(mono):
            rest = Poly({tuple(x for j, x in enumerate(mono) if j != i): c})
            if isinstance(e, Poly):
                if diff(e, name, idx) != ZERO:
                    raise Unsupported("derivative of an exponent")
            da = adiff(a, name, idx, deps)
            if da == ZERO:
                continue
            ep = P(e)
            base = a[1] if a[0] == "g" else None
            f = atom(a, _norm_exp(ep - 1)) if _norm_exp(ep - 1) != 0 else ONE
            if a[0] == "g" and not isinstance(_norm_exp(ep - 1), Poly) and _norm_exp(ep - 1) != 0:
                f = ppow(a[1], ep - 1)
            out = out + rest * ep * f * da
    return out


def adiff(a, name, idx, deps):
    if not (afree(a) & deps):
        return ZERO
    t = a[0]
    if t == "v":
        return ONE if (idx is None and a[1] == name) else ZERO
    if t == "a":
        if idx is not None and a[1] == name:
            r = ONE
            for x, y in zip(a[2], idx):
                r = r * delta(x, y)
            return r
        if (a[1], name) in DRULE:
            return DRULE[(a[1], name)](a[2], idx)
        if any(x.free() & deps for x in a[2]):
            raise Unsupported("derivative through an uninterpreted function")
        return ZERO
    if t == "f":
        f = a[1]
        x = a[2][0]
        dx = diff(x, name, idx)
        if f == "exp":
            return atom(a) * dx
        if f == "log":
            return dx / x
        if f == "sin":
            return fcos(x) * dx
        if f == "cos":
            return -fsin(x) * dx
        if f == "abs":
            return ffun("sign", x) * dx
        if f in ("sign", "floor", "floordiv", "mod"):
            return ZERO
        raise Unsupported(f"derivative of {f}")
    if t == "g":
        return diff(a[1], name, idx)
    if t in ("d", "c"):
        return ZERO
    if t == "s":
        bvs, ns, body = open_sum(a)
        return close_sum(list(zip(bvs, ns)), diff(Poly({body: Fraction(1)}), name, idx))
    raise Unsupported(f"derivative of {t}")


# ------------------------------------------------------------------ numeric evaluation
def evaluate(p, env, arrs):
    """env: scalar name -> number; arrs: array name -> callable(*ints)"""
    p = P(p)
    r = 0.0
    for mono, c in p.t.items():
        v = float(c)
        # indicators first: a zero indicator makes the rest irrelevant (guards undefined values)
        ms = sorted(mono, key=lambda x: 0 if IND(x[0]) else 1)
        for a, e in ms:
            av = aeval(a, env, arrs)
            ev = evaluate(e, env, arrs) if isinstance(e, Poly) else (int(e) if e.denominator == 1 else float(e))
            if av < 0 and not isinstance(ev, int) and float(ev).is_integer():
                ev = int(ev)
            v = v * (av ** ev if ev != 1 else av)
            if v == 0 and IND(a):
                break
        r += v
    return r


def aeval(a, env, arrs):
    t = a[0]
    if t == "v":
        if a[1] == "\u03c0":
            return math.pi
        return env[a[1]]
    if t == "a":
        args = []
        for x in a[2]:
            s = x.single()
            args.append(int(round(evaluate(x, env, arrs))))
        return arrs[a[1]](*args)
    if t == "f":
        if a[1] == "floordiv":
            return float(math.floor(round(evaluate(a[2][0], env, arrs)) // round(evaluate(a[2][1], env, arrs))))
        if a[1] == "mod":
            return float(round(evaluate(a[2][0], env, arrs)) % round(evaluate(a[2][1], env, arrs)))
        xs = [evaluate(x, env, arrs) for x in a[2]]
        f = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "abs": abs,
             "sign": lambda x: float((x > 0) - (x < 0)), "floor": math.floor, "round": round,
             "tan": math.tan, "arccos": math.acos, "arctan": math.atan, "arcsin": math.asin}[a[1]]
        return f(*xs)
    if t == "g":
        return evaluate(a[1], env, arrs)
    if t == "d":
        return 1.0 if abs(evaluate(a[1], env, arrs)) < 0.5 else 0.0
    if t == "c":
        x = evaluate(a[2], env, arrs)
        return float({"lt": x < 0, "le": x <= 0, "eq": x == 0}[a[1]])
    if t == "s":
        lvl = _level(a)
        names = [f"\u03b2{lvl}_{k}" for k in range(len(a[1]))]
        return _sumeval(names, list(a[1]), a[2], env, arrs)
    raise Unsupported(f"evaluate {t}")


def _sumeval(names, ns, mono, env, arrs):
    # extents may depend on earlier binders only
    if not names:
        return evaluate(Poly({mono: Fraction(1)}), env, arrs)
    # pick a binder whose extent is closed
    for k, n in enumerate(ns):
        if not (n.free() & set(names)):
            break
    m = int(round(evaluate(ns[k], env, arrs)))
    r = 0.0
    for v in range(m):
        e2 = dict(env)
        e2[names[k]] = v
        r += _sumeval(names[:k] + names[k + 1:], ns[:k] + ns[k + 1:], mono, e2, arrs)
    return r


# ------------------------------------------------------------------ printing
def pretty(p):
    if not isinstance(p, Poly):
        return str(p)
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: mkey(x[0])):
        s = "*".join(apretty(a) + ("" if e == 1 else f"^({pretty(e) if isinstance(e, Poly) else e})") for a, e in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
    return " + ".join(out)


def apretty(a):
    t = a[0]
    if t == "v":
        return a[1]
    if t == "a":
        return f"{a[1]}[{', '.join(map(pretty, a[2]))}]"
    if t == "f":
        return f"{a[1]}({', '.join(map(pretty, a[2]))})"
    if t == "g":
        return f"({pretty(a[1])})"
    if t == "d":
        return f"[{pretty(a[1])}=0]"
    if t == "c":
        return f"[{pretty(a[2])} {a[1]} 0]"
    if t == "s":
        lvl = _level(a)
        bs = ", ".join(f"\u03b2{lvl}_{k}<{pretty(n)}" for k, n in enumerate(a[1]))
        return f"\u03a3{{{bs}}}({pretty(Poly({a[2]: Fraction(1)}))})"
    return f"\u03bb({pretty(a[2])})"
