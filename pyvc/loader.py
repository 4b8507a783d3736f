"""Mechanical extraction: reads the real module source from /repo on every run, rewrites only what CPython
cannot run on symbolic values, and executes the result with the shim libraries.

Rewrites (everything else is executed as written):
  * `for` statements and list comprehensions dispatch to the verifier when the iterable has symbolic length;
  * `*x` in call arguments is passed unexpanded when x has symbolic length;
  * names len/range/enumerate/zip/sum/min/max/abs/isinstance/... resolve to versions that accept symbolic values;
  * imports of libraries resolve to the shims; decorators and annotations run as written.
Dropped: nothing of the function bodies; docstrings, comments and type annotations have no effect.
"""
import ast
import builtins
import os
import sys
import types

from . import poly as pl
from . import tensor as tn
from . import shims
from .poly import Poly, P, Unsupported, ZERO, ONE, RANGE, V
from .tensor import T, SymList, Sel, newidx, vname, scalar, to_T, size_of

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ symbolic iteration
class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = P(start), P(stop), P(step)

    @property
    def n(self):
        return P(scalar(tn.arange(self.start, self.stop, self.step).shape_[0], "i"))

    def to_T(self):
        return tn.arange(self.start, self.stop, self.step)

    def vlen(self):
        return scalar(self.n, "i")


class SymZip:
    def __init__(self, parts):
        self.parts = parts


class SymEnum:
    def __init__(self, part, start=0):
        self.part, self.start = part, start


def symlen(x):
    """extent (axis) of a symbolic-length iterable, or None when it can be iterated natively"""
    if isinstance(x, T):
        if x.ndim == 0:
            return None
        s = x.shape_[0]
        return s if isinstance(s, Sel) or not s.is_const() else None
    if isinstance(x, SymList):
        return x.n
    if isinstance(x, SymRange):
        return x.n if not x.n.is_const() else None
    if isinstance(x, tn.MaskView):
        return symlen(x.to_T())
    if isinstance(x, SymEnum):
        return symlen(x.part)
    if isinstance(x, SymZip):
        for p in x.parts:
            n = symlen(p)
            if n is not None:
                return n
        return None
    return None


def is_symiter(x):
    return symlen(x) is not None


def elem(x, i):
    if isinstance(x, tn.MaskView):
        x = x.to_T()
    if isinstance(x, T):
        r = x[scalar(i, "i")]
        return r
    if isinstance(x, SymList):
        return x[scalar(i, "i")]
    if isinstance(x, SymRange):
        return scalar(x.start + i * x.step, "i")
    if isinstance(x, SymEnum):
        return (scalar(i + x.start, "i"), elem(x.part, i))
    if isinstance(x, SymZip):
        return tuple(elem(p, i) for p in x.parts)
    if isinstance(x, (list, tuple)):
        return to_T(list(x))[scalar(i, "i")]
    raise Unsupported("element of a symbolic iterable")


def native(x):
    if isinstance(x, SymRange):
        return [x.start + k * x.step for k in range(int(x.n.const()))]
    if isinstance(x, SymEnum):
        return list(builtins.enumerate(native(x.part), x.start))
    if isinstance(x, SymZip):
        return list(builtins.zip(*[native(p) for p in x.parts]))
    return x


def vc_comp(f, it):
    n = symlen(it)
    if n is None:
        return [f(x) for x in native(it)]
    i = newidx(n)
    return SymList(n, i, f(elem(it, i)))


def vc_gen(f, it):
    n = symlen(it)
    if n is None:
        return (f(x) for x in native(it))
    return vc_comp(f, it)


def vc_star(x):
    if is_symiter(x):
        return (shims.Star(to_T(x)),)
    return x


LOOPLOG = []


def vc_loop(it, body, get, set_):
    """`for` over a symbolic range.  The body runs once at a generic iteration i; its effects are summarised:
    (1) array writes A[..i..] = e that touch disjoint cells in different iterations and read only their own cell;
    (2) accumulators s = s + e(i).  Anything else is outside the subset."""
    n = symlen(it)
    i = newidx(n)
    before = get()
    # array-valued state reachable from locals: replace the stored values by opaque reads
    arrs = {}

    def collect(v, depth=0):
        if isinstance(v, T):
            b = v
            while b.base is not None:
                b = b.base
            arrs[id(b)] = b
        elif isinstance(v, (list, tuple)) and depth < 2:
            for x in v:
                collect(x, depth + 1)
        elif depth < 2 and hasattr(v, "__dict__") and not isinstance(v, (types.ModuleType, type)):
            for x in builtins.list(vars(v).values()):
                collect(x, depth + 1)
    for v in before.values():
        collect(v)
    saved = {}
    opq = {}
    for k, b in arrs.items():
        nm = pl.fresh_name("pre")
        saved[k] = b._fn
        opq[k] = nm
        b._fn = (lambda nm: lambda *t: pl.A(nm, *t))(nm)
    acc = {}
    tmp = {}
    for k, v in before.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool) or (isinstance(v, T) and v.ndim == 0) or isinstance(v, Poly):
            nm = pl.fresh_name("acc")
            acc[k] = (nm, v)
            tmp[k] = T((), (lambda nm: lambda: pl.A(nm))(nm), "f" if not isinstance(v, int) else "i")
        if isinstance(v, (list, dict, set)):
            tmp.setdefault(k, v)
    set_({k: tmp[k] for k in acc})
    lists = {k: builtins.len(v) for k, v in before.items() if isinstance(v, list)}
    body(elem(it, i))
    after = get()
    iv = vname(i)
    opnames = {"@" + x for x in opq.values()} | {"@" + a[0] for a in acc.values()}
    for k, ln in lists.items():
        if builtins.len(before[k]) != ln:
            new = before[k][ln:]
            if ln == 0 and builtins.len(new) == 1 and after.get(k) is before[k]:
                del before[k][:]
                set_({k: SymList(n, i, new[0])})
                continue
            raise Unsupported("list mutated in a symbolic loop")
    # arrays
    for k, b in arrs.items():
        ii = [newidx(s) for s in b.shape_]
        post = b._fn(*ii)
        pre = pl.A(opq[k], *ii)
        dlt = post - pre
        if dlt == ZERO:
            b._fn = saved[k]
            continue
        # every term of the change must be confined to cells determined by i
        for m in dlt.t:
            ok = False
            for a, e in m:
                if a[0] == "d" and pl._solve_for(a[1], iv) is not None:
                    ok = True
            if not ok:
                raise Unsupported("array write not confined to the iteration's own cells")
            for a, e in m:
                for nm in pl.afree(a):
                    if nm in opnames and nm != "@" + opq[k]:
                        raise Unsupported("loop body reads an array it also writes")
        # reads of the array's own pre-state only at the written cell
        chk = pl.subst(dlt, {}, {opq[k]: lambda *t: _own(t, ii)})
        if any(("@" + opq[k]) in pl.mfree(m) for m in chk.t):
            raise Unsupported("loop body reads other cells of the array it writes")
        old = saved[k]
        shape = b.shape_

        def fn(*t, post=dlt, ii=ii, old=old, nm=opq[k], acc_=None):
            d = pl.subst(post, {}, {nm: old})
            s = tn.sum_over(n, i, d)
            s = pl.subst(s, {vname(x): y for x, y in builtins.zip(ii, t)})
            return s + old(*t)
        fn = tn.memo(fn)
        b._fn = fn
    # scalars
    upd = {}
    for k, v in after.items():
        if k in acc:
            nm, v0 = acc[k]
            try:
                p = P(v)
            except Unsupported:
                raise Unsupported("loop variable changes type")
            d = p - pl.A(nm)
            if any("@" + nm == x for m in d.t for x in pl.mfree(m)) or (d.free() & opnames):
                if ("@" + nm) not in p.free():
                    upd[k] = _Dead(k)
                    continue
                raise Unsupported("loop-carried scalar is not an accumulator")
            if d == ZERO:
                upd[k] = v0
            elif ("@" + nm) not in p.free():
                upd[k] = _Dead(k)
            else:
                upd[k] = scalar(P(v0) + tn.sum_over(n, i, d), "i" if isinstance(v0, int) and pl.is_int(d) else "f")
        elif k not in before or before[k] is not v:
            upd[k] = _Dead(k)
    set_(upd)
    LOOPLOG.append(("summarised", str(n)))


def _own(t, ii):
    # own-cell reads are fine: mark with a constant
    if builtins.all(x == y for x, y in builtins.zip(t, ii)):
        return ONE
    raise Unsupported("loop body reads other cells of the array it writes")


class _Dead:
    """value of a local after a summarised loop: using it is outside the subset"""

    def __init__(self, k):
        self.k = k

    def __getattr__(self, a):
        raise Unsupported(f"local {self.k} used after a summarised loop")

    def as_poly(self):
        raise Unsupported(f"local {self.k} used after a summarised loop")


# ------------------------------------------------------------------ builtins
def v_len(x):
    if hasattr(x, "vlen"):
        return x.vlen()
    return builtins.len(x)


def v_range(*a):
    a = [x for x in a]
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    ps = [P(x) for x in a]
    if builtins.all(p.is_const() for p in ps):
        return builtins.range(*[int(p.const()) for p in ps])
    if builtins.len(ps) == 1:
        return SymRange(ZERO, ps[0], ONE)
    return SymRange(*(ps + [ONE] if builtins.len(ps) == 2 else ps))


def v_enumerate(x, start=0):
    if is_symiter(x):
        return SymEnum(x, start)
    return builtins.enumerate(native(x), start)


def v_zip(*xs):
    if builtins.any(is_symiter(x) for x in xs):
        return SymZip(xs)
    return builtins.zip(*[native(x) for x in xs])


def v_map(f, *xs):
    if builtins.len(xs) == 1 and is_symiter(xs[0]):
        return vc_comp(f, xs[0])
    return builtins.map(f, *[native(x) for x in xs])


def v_sum(x, start=0):
    if isinstance(x, (T, SymList)):
        return tn.reduce_sum(to_T(x), 0) + start if not (isinstance(start, int) and start == 0) else tn.reduce_sum(to_T(x), 0)
    r = start
    for y in native(x):
        r = r + y
    return r


def v_min(*a, **k):
    return _mm(a, k, "min")


def v_max(*a, **k):
    return _mm(a, k, "max")


def _mm(a, k, which):
    if builtins.len(a) == 1:
        x = a[0]
        if isinstance(x, (T, SymList)) and not k:
            return shims._minmax(which)(to_T(x))
        a = builtins.list(native(x))
    if not shims.is_sym(builtins.list(a)) or k:
        return getattr(builtins, which)(a, **k)
    r = a[0]
    for y in a[1:]:
        p, q = P(to_T(r).as_poly()), P(to_T(y).as_poly())
        r = scalar(tn.max_pair(p, q) if which == "max" else tn.min_pair(p, q), "f")
    return r


def v_abs(x):
    return abs(to_T(x)) if isinstance(x, (T, Poly)) else builtins.abs(x)


def v_int(x=0, *a):
    if isinstance(x, T):
        p = x.as_poly()
        if pl.is_int(p):
            return scalar(p, "i")
        if x.kind == "i":
            return x
        raise Unsupported("int() of a symbolic real")
    return builtins.int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, T) and x.ndim == 0 and x.kind == "i")

    def __call__(cls, *a):
        return v_int(*a)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)

    def __or__(cls, o):
        return cls


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, T) and x.ndim == 0 and x.kind == "f")

    def __call__(cls, x=0.0):
        if isinstance(x, T):
            return scalar(x.as_poly(), "f")
        return builtins.float(x)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)

    def __or__(cls, o):
        return cls


class v_Int(metaclass=_IntMeta):
    pass


class v_Float(metaclass=_FloatMeta):
    pass


def v_all(x):
    if isinstance(x, (T, SymList)):
        return tn.reduce_all(to_T(x))
    x = builtins.list(native(x))
    if shims.is_sym(x):
        r = ONE
        for y in x:
            r = r * to_T(y).as_poly()
        return scalar(r, "b")
    return builtins.all(x)


def v_any(x):
    if isinstance(x, (T, SymList)):
        return tn.reduce_any(to_T(x))
    x = builtins.list(native(x))
    if shims.is_sym(x):
        r = ZERO
        for y in x:
            r = pl.orp(r, to_T(y).as_poly())
        return scalar(r, "b")
    return builtins.any(x)


def v_list(x=()):
    if is_symiter(x):
        return to_T(x) if isinstance(x, SymRange) else x
    return builtins.list(native(x))


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, SymList))

    def __call__(cls, *a):
        return v_list(*a)

    def __getitem__(cls, k):
        return builtins.list[k]

    def __eq__(cls, o):
        return o is builtins.list or o is cls

    def __hash__(cls):
        return hash(builtins.list)


class v_List(metaclass=_ListMeta):
    pass


def make_builtins():
    b = dict(vars(builtins))
    b.update(len=v_len, range=v_range, enumerate=v_enumerate, zip=v_zip, map=v_map, sum=v_sum, min=v_min, max=v_max,
             abs=v_abs, int=v_Int, float=v_Float, all=v_all, any=v_any, list=v_List, print=lambda *a, **k: None)
    return b


# ------------------------------------------------------------------ AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.depth = 0
        self.fn = []

    def fresh(self, p):
        self.k += 1
        return f"vc_{p}{self.k}_"

    def visit_FunctionDef(self, node):
        self.fn.append(node)
        self.generic_visit(node)
        self.fn.pop()
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass() if self.fn else node
        if self.fn:
            return ast.copy_location(ast.Assign([node.target], node.value), node)
        return node

    def visit_Lambda(self, node):
        self.fn.append(node)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        for a in node.args:
            if isinstance(a, ast.Starred):
                a.value = ast.Call(ast.Name("vc_star_", ast.Load()), [a.value], [])
        return node

    def _comp(self, node, fname):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if g.ifs or any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return node
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(_args([g.target.id]), node.elt)
        else:
            p = self.fresh("e")
            tgt = g.target
            # lambda e: (lambda a,b: elt)(*e) for flat tuples; nested tuples through a helper function
            if isinstance(tgt, ast.Tuple) and all(isinstance(x, ast.Name) for x in tgt.elts):
                inner = ast.Lambda(_args([x.id for x in tgt.elts]), node.elt)
                lam = ast.Lambda(_args([p]), ast.Call(inner, [ast.Starred(ast.Name(p, ast.Load()), ast.Load())], []))
            else:
                return node
        return ast.Call(ast.Name(fname, ast.Load()), [lam, g.iter], [])

    def visit_ListComp(self, node):
        return self._comp(node, "vc_comp_")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "vc_gen_")

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.fn or node.orelse:
            node.iter = ast.Call(ast.Name("vc_native_", ast.Load()), [node.iter], [])
            return node
        bad = False

        def scan(n, top=True):
            nonlocal bad
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.For, ast.While)):
                    if isinstance(c, (ast.For, ast.While)):
                        for y in ast.walk(c):
                            if isinstance(y, (ast.Return, ast.Yield, ast.YieldFrom)):
                                bad = True
                    continue
                if isinstance(c, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom)):
                    bad = True
                scan(c)
        scan(node)
        itn = self.fresh("it")
        pre = ast.Assign([ast.Name(itn, ast.Store())], node.iter)
        orig = ast.For(node.target, ast.Call(ast.Name("vc_native_", ast.Load()), [ast.Name(itn, ast.Load())], []),
                       node.body, [])
        test = ast.Call(ast.Name("vc_issym_", ast.Load()), [ast.Name(itn, ast.Load())], [])
        if bad:
            sym = [ast.Raise(ast.Call(ast.Name("vc_unsupported_", ast.Load()),
                                      [ast.Constant("early exit from a symbolic loop")], []), None)]
            return [ast.copy_location(x, node) for x in [pre, ast.If(test, sym, [orig])]]
        tmpf = ast.Module([node], [])
        names = sorted(_locals_of(tmpf))
        bn, gn, sn, xn = self.fresh("body"), self.fresh("get"), self.fresh("set"), self.fresh("x")
        import copy
        body = [ContinueToReturn().visit(copy.deepcopy(s)) for s in node.body]
        nl = [ast.Nonlocal(names)] if names else []
        bodyf = ast.FunctionDef(bn, _args([xn]), nl + [ast.Assign([copy.deepcopy(node.target)], ast.Name(xn, ast.Load()))] + body, [])
        # get(): dictionary of visible locals that are bound
        getf = ast.parse(f"def {gn}():\n    vc_r_ = {{}}\n    pass").body[0]
        stm = []
        local = _locals_of(self.fn[-1])
        for v in sorted(local):
            stm += ast.parse(f"try:\n    vc_r_[{v!r}] = {v}\nexcept NameError:\n    pass").body
        getf.body = [getf.body[0]] + stm + ast.parse("def f():\n    return vc_r_").body[0].body
        setf = ast.parse(f"def {sn}(vc_m_):\n    pass").body[0]
        st = [ast.Nonlocal(names)] if names else [ast.Pass()]
        for v in names:
            st += ast.parse(f"if {v!r} in vc_m_:\n    {v} = vc_m_[{v!r}]").body
        setf.body = st
        call = ast.Expr(ast.Call(ast.Name("vc_loop_", ast.Load()),
                                 [ast.Name(itn, ast.Load()), ast.Name(bn, ast.Load()), ast.Name(gn, ast.Load()),
                                  ast.Name(sn, ast.Load())], []))
        sym = [bodyf, getf, setf, call]
        return [ast.copy_location(x, node) for x in [pre, ast.If(test, sym, [orig])]]


class ContinueToReturn(ast.NodeTransformer):
    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(ast.Constant(None)), node)

    def visit_For(self, node):
        return node

    visit_While = visit_For

    def visit_FunctionDef(self, node):
        return node


def _locals_of(fn):
    s = set()
    if hasattr(fn, "args"):
        a = fn.args
        s |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        if a.vararg:
            s.add(a.vararg.arg)
        if a.kwarg:
            s.add(a.kwarg.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef) and not c.name.startswith("vc_"):
                    s.add(c.name)
                continue
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                if not c.id.startswith("vc_"):
                    s.add(c.id)
            walk(c)
    if not isinstance(fn, ast.Lambda):
        walk(fn)
    return s


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[],
                         kwarg=None, defaults=[])


# ------------------------------------------------------------------ module loading
class Loader:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.lib = shims.modules()
        self.overrides = overrides or {}    # (module, name) -> object, applied after import of the module
        self.sources = {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split("."))
        ispkg = os.path.isdir(path)
        fname = os.path.join(path, "__init__.py") if ispkg else path + ".py"
        src = open(fname).read()
        self.sources[name] = src
        m = types.ModuleType(name)
        m.__file__ = fname
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [path]
        self.mods[name] = m
        if name == "hvd":
            return m            # package initialiser only sets the precision flag and re-exports
        tree = ast.parse(src, fname)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, fname, "exec", dont_inherit=True)
        b = make_builtins()
        b["__import__"] = self.make_import(m)
        m.__dict__["__builtins__"] = b
        m.__dict__.update(vc_comp_=vc_comp, vc_gen_=vc_gen, vc_star_=vc_star, vc_native_=native,
                          vc_issym_=is_symiter, vc_loop_=vc_loop, vc_unsupported_=Unsupported)
        exec(code, m.__dict__)
        for (mod, nm), obj in self.overrides.items():
            if mod == name:
                m.__dict__[nm] = obj
        return m

    def make_import(self, mod):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                pkg = mod.__package__.split(".")
                pkg = pkg[:len(pkg) - (level - 1)]
                full = ".".join(pkg + ([name] if name else []))
                return self._hvd(full, fromlist)
            if name == "hvd" or name.startswith("hvd."):
                return self._hvd(name, fromlist)
            return self._lib(name, fromlist)
        return imp

    def _hvd(self, full, fromlist):
        m = self.load(full)
        for f in fromlist or ():
            if not hasattr(m, f):
                p = os.path.join(self.repo, *full.split("."), f)
                if os.path.exists(p + ".py") or os.path.isdir(p):
                    setattr(m, f, self.load(full + "." + f))
        return m

    def _lib(self, name, fromlist):
        if name in self.lib:
            m = self.lib[name]
            if fromlist:
                return m
            top = name.split(".")[0]
            return self.lib.get(top, shims._Any(top)) if "." in name else m
        top = name.split(".")[0]
        if top in ("typing", "collections", "functools", "math", "abc", "copy", "itertools", "warnings", "numbers", "re", "os",
                   "sys", "time", "datetime", "logging", "statistics", "pickle", "types", "random", "string", "operator",
                   "dataclasses", "enum", "inspect", "__future__", "subprocess", "json"):
            return __import__(name, {}, {}, fromlist or (), 0)
        return shims._Any(name)
