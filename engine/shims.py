"""Module stand-ins that understand the symbolic proxies.

Installed before ``scaks`` is imported.  Every stand-in hands concrete
arguments to the real library."""
import ast
import builtins
import importlib.machinery
import sys
import types

import math as _math
import re as _re
import mpmath as _mp
import numpy  # noqa  third-party libraries keep the real modules
import scipy.linalg  # noqa
import scipy.optimize  # noqa
import scipy.integrate  # noqa
import sympy  # noqa
import logging  # noqa
import copy  # noqa
import pickle  # noqa
import random  # noqa
import csv  # noqa
import inspect  # noqa
try:
    import prettytable  # noqa
except ImportError:
    pass
try:
    import catplot  # noqa
except ImportError:
    pass
import matplotlib  # noqa

from . import sym
from .sym import SymReal, SymInt, SymBool, SymStr, lift, lift_str, has_sym
from . import rx

SYMS = (SymReal, SymInt)


def is_sym(x):
    return isinstance(x, SYMS)


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))

    def __call__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, SymReal):
                return x
            if isinstance(x, SymInt):
                return x.real()
            if type(x).__module__.startswith("sympy") and getattr(x, "free_symbols", None):
                return sym.lift_sympy(x)
        return float(*a)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __repr__(cls):
        return "<class 'float'>"


class Float(metaclass=_FloatMeta):
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __call__(cls, *a):
        if a:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymReal):
                return x.trunc()
            if isinstance(x, str) and has_sym(x):
                return sym.symstr_int(x)
        return int(*a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __repr__(cls):
        return "<class 'int'>"


class Int(metaclass=_IntMeta):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymStr):
            return a[0]
        return lift_str(str(*a, **k))

    def __getattr__(cls, n):
        return getattr(str, n)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)


class Str(metaclass=_StrMeta):
    pass


def sym_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            return float
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymStr):
            return str
        if isinstance(x, SymBool):
            return bool
    return type(*a, **k)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)

    def __call__(cls, *a, **k):
        return sym_type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class Type(type, metaclass=_TypeMeta):
    """`type` in the code under test."""


def sym_isinstance(x, t):
    if isinstance(x, (SymReal, SymInt, SymBool)):
        ts = t if isinstance(t, tuple) else (t,)
        r = {SymReal: float, SymInt: int, SymBool: bool}[type(x)]
        for k in ts:
            if k in (Float, Int, Str):
                if isinstance(x, k):
                    return True
            elif isinstance(k, type) and issubclass(r, k):
                return True
            elif isinstance(x, k):
                return True
        return False
    return isinstance(x, t)


def sym_len(x):
    f = getattr(type(x), "zl_len", None)
    return f(x) if f else len(x)


def sym_range(*a):
    return range(*[x.__index__() if isinstance(x, SymInt) else x for x in a])


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


INJECT = {"float": Float, "int": Int, "isinstance": sym_isinstance,
          "sum": sym_sum, "len": sym_len}


# -------------------------------------------------------------------- math
def mathmod():
    m = types.ModuleType("math")
    for k in dir(_math):
        setattr(m, k, getattr(_math, k))

    def wrap(name, f):
        real = getattr(_math, name)

        def g(x, *a):
            if is_sym(x) or any(is_sym(y) for y in a):
                return f(lift(x), *a)
            return real(x, *a)
        g.__name__ = name
        setattr(m, name, g)
    wrap("exp", lambda x: x.exp())
    wrap("log", lambda x, b=None: x.log() if b is None else x.log() / lift(b).log())
    wrap("log10", lambda x: x.log() / lift(10).log())
    wrap("sqrt", lambda x: x.sqrt())
    wrap("pow", lambda x, y: x ** y)
    wrap("fabs", lambda x: abs(x))
    wrap("floor", lambda x: x.floor())
    wrap("ceil", lambda x: -((-x).floor()))
    wrap("trunc", lambda x: x.trunc())
    wrap("isnan", lambda x: False)
    wrap("isinf", lambda x: False)
    wrap("isfinite", lambda x: True)
    real_fsum = _math.fsum

    def fsum(it):
        it = list(it)
        return sym_sum(it, 0.0) if any(is_sym(x) for x in it) else real_fsum(it)
    m.fsum = fsum

    def prod(it, start=1):
        for x in it:
            start = start * x
        return start
    m.prod = prod

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m.isclose = isclose
    return m


# ------------------------------------------------------------------- mpmath
class SMatrix(_mp.matrix):
    """mpmath matrix that may hold proxies (entries bypass conversion)."""


def patch_mpmath_convert():
    mp = _mp.mp
    real = mp.convert

    def convert(x, strings=True):
        if isinstance(x, SYMS) and not strings:
            raise TypeError("reflected operation")
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return x.real()
        return real(x, strings)
    mp.convert = convert


def _has_sym_entries(A):
    try:
        return any(is_sym(x) for x in A)
    except TypeError:
        return False


def mpmod(name="mpmath"):
    m = types.ModuleType(name)
    m.__path__ = _mp.__path__
    for k in dir(_mp):
        if k not in ("__name__", "__path__", "__spec__", "__loader__"):
            setattr(m, k, getattr(_mp, k))

    class _MpfMeta(type):
        def __call__(cls, *a, **k):
            if a and isinstance(a[0], SymReal):
                return a[0]
            if a and isinstance(a[0], SymInt):
                return a[0].real()
            if a and type(a[0]).__module__.startswith("sympy") and \
                    getattr(a[0], "free_symbols", None):
                return sym.lift_sympy(a[0])
            return _mp.mpf(*a, **k)

        def __instancecheck__(cls, x):
            return isinstance(x, (_mp.mpf, SymReal))

        def __getattr__(cls, n):
            return getattr(_mp.mpf, n)

    class mpf(metaclass=_MpfMeta):
        pass
    m.mpf = mpf

    def wrap(nm, f):
        real = getattr(_mp, nm)

        def g(x, *a, **k):
            if is_sym(x) or any(is_sym(y) for y in a):
                return f(lift(x), *a)
            return real(x, *a, **k)
        setattr(m, nm, g)
    wrap("exp", lambda x: x.exp())
    wrap("log", lambda x, b=None: x.log() if b is None else x.log() / lift(b).log())
    wrap("ln", lambda x: x.log())
    wrap("sqrt", lambda x: x.sqrt())
    wrap("power", lambda x, y: x ** y)
    wrap("fabs", lambda x: abs(x))

    def norm(x, p=2):
        xs = list(x) if not is_sym(x) else [x]
        if not any(is_sym(v) for v in xs):
            return _mp.norm(x, p)
        if p == _mp.inf:
            return max(abs(v) for v in xs)
        if p == 1:
            return sym_sum([abs(v) for v in xs])
        if p == 2:
            return sym_sum([v * v for v in xs]).sqrt() if True else None
        raise ValueError("norm")
    m.norm = norm

    def lu_solve(A, b, **k):
        if not (_has_sym_entries(A) or _has_sym_entries(b)):
            return _mp.lu_solve(A, b, **k)
        n = A.rows
        M = [[lift(A[i, j]) for j in range(n)] + [lift(b[i])] for i in range(n)]

        def det(R):
            if len(R) == 1:
                return R[0][0]
            s = lift(0)
            for j in range(len(R)):
                minor = [r[:j] + r[j + 1:] for r in R[1:]]
                t = R[0][j] * det(minor)
                s = s + t if j % 2 == 0 else s - t
            return s
        D = det([r[:n] for r in M])
        if D == 0:
            raise ZeroDivisionError("matrix is numerically singular")
        out = _mp.matrix(n, 1)
        for c in range(n):
            R = [r[:c] + [r[n]] + r[c + 1:n] for r in M]
            out[c] = det(R) / D
        return out
    m.lu_solve = lu_solve
    m.mp = _MpProxy(m)
    return m


class _MpProxy(object):
    """`mpmath.mp` context whose functions are the shimmed ones."""

    def __init__(self, m):
        object.__setattr__(self, "_m", m)

    def __getattr__(self, n):
        if n in ("mpf", "exp", "log", "ln", "sqrt", "power", "fabs", "norm", "lu_solve"):
            return getattr(self._m, n)
        return getattr(_mp.mp, n)

    def __setattr__(self, n, v):
        setattr(_mp.mp, n, v)


# ------------------------------------------------------------------------ re
def remod():
    m = types.ModuleType("re")
    for k in dir(_re):
        setattr(m, k, getattr(_re, k))
    m.compile = lambda p, flags=0: p if isinstance(p, rx.Pat) else rx.Pat(p, flags)

    def via(n):
        def g(p, *a, **k):
            return getattr(m.compile(p, k.pop("flags", 0)), n)(*a, **k)
        return g
    for n in ("search", "match", "fullmatch", "findall", "finditer", "split", "sub"):
        setattr(m, n, via(n))
    return m


from .shims_env import COMM, install_environment, import_all  # noqa


def install_symbolic():
    import KMCLib  # noqa: the stand-in, must be there already
    patch_mpmath_convert()
    saved = {k: sys.modules[k] for k in ("math", "mpmath", "re")}
    sys.modules["math"] = mathmod()
    sys.modules["mpmath"] = mpmod()
    sys.modules["re"] = remod()
    return saved


class SymArray(numpy.ndarray):
    """Object array of solver terms that reports the type of its entries."""
    @property
    def dtype(self):
        t = numpy.ndarray.dtype.__get__(self)
        if t.kind != "O" or not self.size:
            return t
        real = False
        for x in self.flat:
            if isinstance(x, (SymReal, float)):
                real = True
            elif not isinstance(x, (SymInt, int)):
                return t
        return numpy.dtype(float) if real else numpy.dtype(int)


class _NumpyProxy(object):
    def __getattr__(self, n):
        return getattr(numpy, n)

    @staticmethod
    def array(*a, **k):
        r = numpy.array(*a, **k)
        return r.view(SymArray) if r.dtype.kind == "O" else r


NUMPY = _NumpyProxy()


def inject(mod):
    d = mod.__dict__
    for k in [k for k, v in d.items() if v is numpy]:
        d[k] = NUMPY
    for k, v in INJECT.items():
        d.setdefault(k, v)
    d.setdefault("type", Type)


class _Lift(ast.NodeTransformer):
    """Text built by C-level formatting is handed back to the proxy layer."""
    METHODS = {"format", "join", "replace", "ljust", "rjust", "center", "zfill"}

    def _wrap(self, node):
        return ast.copy_location(ast.Call(func=ast.Name(id="zl_lift_text", ctx=ast.Load()),
                                          args=[node], keywords=[]), node)

    def _keys(self, nodes):
        for n in nodes:
            for x in ast.walk(n) if isinstance(n, (ast.List, ast.Tuple, ast.Set)) else [n]:
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) <= 3 \
                        and x.value not in sym.LITERAL_KEYS:
                    sym.LITERAL_KEYS.append(x.value)

    def visit_Dict(self, node):
        if len(node.keys) <= 8:                 # not the data tables
            self._keys([k for k in node.keys if k is not None])
        self.generic_visit(node)
        return node

    def visit_Set(self, node):
        self._keys([node])
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("dict", "set", "frozenset", "OrderedDict", "Counter"):
            self._keys(node.args + [ast.Constant(value=k.arg) for k in node.keywords if k.arg])
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in self.METHODS - {"replace"}:
            return self._wrap(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in sym.SEARCHING and node.args:
            return ast.copy_location(ast.Call(
                func=ast.Name(id="zl_str_method", ctx=ast.Load()),
                args=[node.func.value, ast.Constant(value=node.func.attr)] + node.args,
                keywords=node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = ast.Call(func=ast.Name(id="zl_is", ctx=ast.Load()),
                         args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.IsNot):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=ast.Name(id="zl_in", ctx=ast.Load()),
                         args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_JoinedStr(self, node):
        return self._wrap(node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return self._wrap(node) if isinstance(node.op, ast.Mod) else node


def _is(a, b):
    """Identity; the stand-ins of built-in types are those types."""
    return a is b or (isinstance(a, type) and isinstance(b, type) and
                      _PLAIN.get(a, a) is _PLAIN.get(b, b))


_PLAIN = {Float: float, Int: int, Str: str, Type: type}


def _lift_text(x):
    return lift_str(x) if type(x) is str else x


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_Lift().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "scaks" and not name.startswith("scaks."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(name, spec.origin)
        return spec


def import_scaks(repo, symbolic):
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    saved = None
    install_environment()
    if symbolic:
        saved = install_symbolic()
        builtins.zl_lift_text = _lift_text
        builtins.zl_is = _is
        builtins.zl_in = sym.str_in
        builtins.zl_str_method = sym.str_method
        sys.meta_path.insert(0, _Finder)
    missing = import_all()
    if symbolic:
        for n, mod in list(sys.modules.items()):
            if (n == "scaks" or n.startswith("scaks.")) and mod is not None:
                inject(mod)
        for k, v in saved.items():
            sys.modules[k] = v
    return missing
