"""Symbolic proxies: reals, integers, booleans and bounded-length strings."""
import operator
import builtins
import re as _re
import numbers
from fractions import Fraction

import mpmath as _mp
import z3

from .core import Engine, PathInfeasible, frac_of_z3, z3_of_frac, z3_vars
from .poly import Poly, SNAP, as_exp, mono_pow

_float, _int, _str, _abs = builtins.float, builtins.int, builtins.str, builtins.abs
MPF = _mp.mpf


def E():
    return Engine.current


class Realised(object):
    """Bookkeeping of values that had to be made concrete."""


# --------------------------------------------------------------------- helpers
def const_frac(x):
    """Exact rational of a concrete number, or None."""
    if isinstance(x, bool):
        return Fraction(_int(x))
    if isinstance(x, _int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, _float):
        if x != x or x in (_float("inf"), _float("-inf")):
            return None
        return Fraction(x)
    if hasattr(x, "_mpf_"):
        sign, man, exp, bc = x._mpf_
        if man == 0 and exp != 0:
            return None
        v = Fraction(_int(man)) * (Fraction(2) ** exp)
        return -v if sign else v
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return Fraction(_int(x))
        if isinstance(x, np.floating):
            return const_frac(_float(x))
    except ImportError:
        pass
    if isinstance(x, numbers.Rational):
        return Fraction(x.numerator, x.denominator)
    return None


_OWN_PREFIX = "zq_"


def lift_sympy(x):
    """sympy expression over placeholders -> SymReal."""
    import sympy
    if x.is_Number:
        if x.is_Rational:
            return SymReal(Poly.const(Fraction(_int(x.p), _int(x.q))))
        return SymReal(Poly.const(const_frac(_mp.mpf(x._to_mpmath(200)))))
    if x.is_Symbol:
        v = E().sympy_symbols.get(x.name)
        if v is None:
            raise TypeError("unbound symbol %s" % x)
        return v
    if x is sympy.E:
        return SymReal(Poly.const(Fraction(_mp.mpf(sympy.E.evalf(60)._to_mpmath(200)))))
    if x.is_Add:
        r = SymReal(Poly.const(0))
        for a in x.args:
            r = r + lift_sympy(a)
        return r
    if x.is_Mul:
        r = SymReal(Poly.const(1))
        for a in x.args:
            r = r * lift_sympy(a)
        return r
    if isinstance(x, sympy.exp):
        return lift_sympy(x.args[0]).exp()
    if isinstance(x, sympy.log):
        return lift_sympy(x.args[0]).log()
    if x.is_Pow:
        b, e = x.args
        if b is sympy.E:
            return lift_sympy(e).exp()
        return lift_sympy(b) ** (lift_sympy(e))
    raise TypeError("cannot lift %r" % (x,))


def lift(x):
    """Number-like -> SymReal, else None."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return x.real()
    if isinstance(x, SymBool):
        return SymInt(z3.If(x.z, z3.IntVal(1), z3.IntVal(0))).real()
    c = const_frac(x)
    if c is not None:
        return SymReal(Poly.const(c))
    mod = type(x).__module__
    if mod.startswith("sympy"):
        return lift_sympy(x)
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


# ------------------------------------------------------------------- booleans
class SymBool(object):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E().branch(self.z)

    def __and__(self, o):
        return mkbool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        return mkbool(self.z == zbool(o))

    def __ne__(self, o):
        return mkbool(self.z != zbool(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return _int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(_int(bool(self)))

    def __neg__(self):
        return -_int(bool(self))

    def __pos__(self):
        return _int(bool(self))

    def __abs__(self):
        return _int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.z


def _as_number(name):
    """ A truth value used as a number: decide it, then compute with 0 or 1. """
    op = getattr(operator, name, None) or {"divmod": divmod}[name]

    def left(self, o):
        return op(_int(bool(self)), _int(bool(o)) if isinstance(o, SymBool) else o)

    def right(self, o):
        return op(o, _int(bool(self)))
    return left, right


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "divmod"):
    _l, _r = _as_number(_n)
    setattr(SymBool, "__%s__" % _n, _l)
    setattr(SymBool, "__r%s__" % _n, _r)
for _n in ("lt", "le", "gt", "ge"):
    setattr(SymBool, "__%s__" % _n, _as_number(_n)[0])


def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


def mkbool(z):
    if isinstance(z, bool):
        return z
    s = z3.simplify(z)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s)


# ----------------------------------------------------------------------- reals
def _approx_mul(p, q):
    """If p == r*q with a rational r (up to rounding noise), return r."""
    if len(p.terms) != len(q.terms) or set(p.terms) != set(q.terms):
        return None
    r = None
    for m, c in p.terms.items():
        k = c / q.terms[m]
        if r is None:
            r = k
        elif k != r and _abs(k - r) > SNAP * _abs(r):
            return None
    n = r.limit_denominator(64)
    if _abs(n - r) <= SNAP * _abs(r):
        r = n
    return r


def frac_pow(c, q):
    """c**q for positive rational c: exact if possible, else 80-digit value."""
    q = Fraction(q)
    if q.denominator == 1:
        return c ** _int(q)
    d = q.denominator

    def root(n):
        if n in (0, 1):
            return n
        with _mp.workdps(60 + len(_str(n))):
            r = _int(_mp.nint(_mp.root(_mp.mpf(n), d)))
        return r if r ** d == n else None
    a, b = root(c.numerator), root(c.denominator)
    if a is not None and b is not None:
        return Fraction(a, b) ** q.numerator
    with _mp.workdps(80):
        v = _mp.power(_mp.mpf(c.numerator) / c.denominator,
                      _mp.mpf(q.numerator) / q.denominator)
        return const_frac(v)


def content(p):
    """(monomial, rest) with p = monomial * rest, the monomial being the common
    powers of atoms known to be positive."""
    eng = E()
    mins = None
    for m in p.terms:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            mins = {k: min(d.get(k, 0), mins.get(k, 0)) for k in set(d) | set(mins)}
    mono = tuple(sorted((k, e) for k, e in mins.items() if e != 0 and eng.is_positive_atom(k)))
    if not mono:
        return (), p
    return mono, p.mul(Poly({mono_pow(mono, -1): Fraction(1)}))


def p_pow(p, q):
    """Poly ** rational."""
    eng = E()
    q = as_exp(q)
    if q == 0:
        return Poly.const(1)
    if not p.terms:
        if q > 0:
            return Poly.const(0)
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    if isinstance(q, _int) and q > 0 and (len(p.terms) > 1 and q <= 12):
        r = p
        for _ in range(q - 1):
            r = r.mul(p)
        return r
    if p.is_mono():
        (m, c), = p.terms.items()
        if isinstance(q, _int):
            return Poly({mono_pow(m, q): c ** q})
        # sign was established non-negative by the caller
        even_ok = all(eng.is_positive_atom(k) for k, _ in m)
        if c > 0 and even_ok:
            return Poly({mono_pow(m, q): frac_pow(c, q)})
    # sum of terms: an opaque atom for p (up to a rational factor) raised to q
    if not p.is_mono():
        mono, rest = content(p)
        if mono:
            return p_pow(rest, q).mul(Poly({mono_pow(mono, q): Fraction(1)}))
    lead = p.terms[max(p.terms, key=repr)]
    base = p.scale(1 / _abs(lead))
    atom = None
    for a in eng.atoms:
        if a.kind == "sum":
            r = _approx_mul(base, a.arg)
            if r is not None and _abs(r) == 1:
                atom, sgn = a, r
                break
    if atom is None:
        pos = eng.cmp0(base, "<=")
        positive = (pos is False) if isinstance(pos, bool) else \
            eng._solve([pos]) == z3.unsat
        atom = eng.new_atom("sum", "sum%d" % len(eng.atoms), arg=base,
                            positive=positive)
        eng.add_axiom(atom.name, atom.z == eng.z_poly(base))
        sgn = Fraction(1)
    if isinstance(q, _int):
        cc = (_abs(lead) * sgn) ** q
    else:
        if sgn != 1:
            raise TypeError("fractional power of negated sum")
        cc = frac_pow(_abs(lead), q)
    return Poly({((atom.aid, q),): cc})


def p_exp(p):
    """exp(Poly), split over monomials so exponentials multiply out."""
    eng = E()
    r = Poly.const(1)
    # group: every monomial contributes one multiplicative factor
    for m, c in sorted(p.terms.items(), key=repr):
        if m == ():
            with _mp.workdps(60):
                v = const_frac(_mp.exp(_mp.mpf(c.numerator) / c.denominator))
            r = r.scale(v)
            continue
        if len(m) == 1 and m[0][1] == 1 and eng.atoms[m[0][0]].kind == "log":
            # exp(c*log(x)) = x**c
            r = r.mul(p_pow(eng.atoms[m[0][0]].arg, as_exp(_near(c))))
            continue
        hit = None
        for a in eng.atoms:
            if a.kind == "exp" and a.extra[0] == m:
                k = c / a.extra[1]
                n = _near(k)
                if n.denominator == 1 and _abs(n) <= 64:
                    hit = (a, _int(n))
                    break
        if hit is None:
            arg = Poly({m: c})
            a = eng.new_atom("exp", "exp%d" % len(eng.atoms), arg=arg,
                             positive=True, extra=(m, c))
            z = eng.z_poly(arg)
            s = eng.cmp0(arg, ">")
            e = eng.cmp0(arg, "==")
            if not isinstance(s, bool):
                eng.add_axiom(a.name, s == (a.z > 1))
                eng.add_axiom(a.name, e == (a.z == 1))
            hit = (a, 1)
        r = r.mul(Poly({((hit[0].aid, hit[1]),): Fraction(1)}))
    return r


def _near(k):
    n = Fraction(k).limit_denominator(1000)
    return n if _abs(n - k) <= SNAP * _abs(k) else Fraction(k)


def p_log(p):
    """log(Poly), p > 0 already established."""
    eng = E()
    if p.is_const():
        with _mp.workdps(60):
            c = p.const_value()
            return Poly.const(const_frac(_mp.log(_mp.mpf(c.numerator) / c.denominator)))
    if p.is_mono():
        (m, c), = p.terms.items()
        if c > 0 and all(eng.is_positive_atom(k) for k, _ in m):
            r = p_log(Poly.const(c))
            for k, e in m:
                a = eng.atoms[k]
                if a.kind == "exp":
                    r = r.add(a.arg.scale(e))
                else:
                    r = r.add(_log_atom(Poly.atom(k)).scale(e))
            return r
    mono, rest = content(p)
    if mono:
        return p_log(Poly({mono: Fraction(1)})).add(p_log(rest))
    lead = _abs(p.terms[max(p.terms, key=repr)])
    return p_log(Poly.const(lead)).add(_log_atom(p.scale(1 / lead)))


def _log_atom(base):
    eng = E()
    for a in eng.atoms:
        if a.kind == "log":
            r = _approx_mul(base, a.arg)
            if r == 1:
                return Poly.atom(a.aid)
    a = eng.new_atom("log", "log%d" % len(eng.atoms), arg=base)
    s1, s2 = eng.cmp0(base.sub(Poly.const(1)), ">"), eng.cmp0(base.sub(Poly.const(1)), "==")
    if not isinstance(s1, bool):
        eng.add_axiom(a.name, s1 == (a.z > 0))
        eng.add_axiom(a.name, s2 == (a.z == 0))
    return Poly.atom(a.aid)


class SymReal(object):
    """A symbolic real number."""
    __slots__ = ("p",)
    __array_priority__ = 1.0e6

    def __init__(self, p):
        self.p = p

    # -- arithmetic --
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(self.p.add(o.p))

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(self.p.sub(o.p))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(o.p.sub(self.p))

    def __mul__(self, o):
        if isinstance(o, _LISTS):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else SymReal(self.p.mul(o.p))

    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(self.p.neg())

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _recip(self):
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return p_pow(self.p, -1)

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(self.p.mul(o._recip()))

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymReal(o.p.mul(self._recip()))

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o.p.is_const():
            q = _near(o.p.const_value())
            if self.p.is_const() and self.p.const_value() > 0:
                return SymReal(Poly.const(frac_pow(self.p.const_value(), q)))
            if q.denominator != 1:
                if self < 0:
                    raise ValueError("negative number to a fractional power")
                if self == 0:
                    if q < 0:
                        raise ZeroDivisionError()
                    return SymReal(Poly.const(0))
            elif q < 0:
                if self == 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return SymReal(p_pow(self.p, q))
        if self > 0:
            return (o * self.log()).exp()
        raise ValueError("power of a non-positive base to a symbolic exponent")

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o.__pow__(self)

    # -- transcendental --
    def exp(self):
        return SymReal(p_exp(self.p))

    def log(self):
        if self <= 0:
            raise ValueError("math domain error")
        return SymReal(p_log(self.p))

    def sqrt(self):
        if self < 0:
            raise ValueError("math domain error")
        return self ** Fraction(1, 2)

    def floor(self):
        eng = E()
        if self.p.is_const():
            c = self.p.const_value()
            return c.numerator // c.denominator
        return SymInt(z3.ToInt(eng.z_poly(self.p)))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # -- comparisons --
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        r = E().cmp0(self.p.sub(o.p), op)
        return r if isinstance(r, bool) else mkbool(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None:
            return False
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if o is None:
            return True
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.p.is_const():
            c = self.p.const_value()
            return hash(c)
        return 7919

    # -- boundaries --
    def __float__(self):
        if self.p.is_const():
            return _float(self.p.const_value())
        return _float(realise(self))

    def __int__(self):
        if self.p.is_const():
            return _int(self.p.const_value())
        return _int(realise(self))

    __trunc__ = __int__

    def trunc(self):
        if self >= 0:
            return self.floor()
        return -((-self).floor())

    def __round__(self, n=None):
        if n is None:
            return (self + Fraction(1, 2)).floor()
        return lift((self * 10 ** n + Fraction(1, 2)).floor()) / 10 ** n

    def is_integer(self):
        return self == self.floor()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (register_token(self),))

    def __str__(self):
        if self.p.is_const():
            return _str(_float(self.p.const_value()))
        return token_of(self)

    __repr__ = __str__

    def __format__(self, spec):
        if self.p.is_const():
            return format(_float(self.p.const_value()), spec)
        m = _SPEC.search(spec)
        if m and (m.group(1) or m.group(2)):
            return "__zqr(%d, %r, %d)%s" % (register_token(self), m.group(2) or "g", _int(m.group(1)[1:]) if m.group(1) else 6,
                                            "%" if m.group(2) == "%" else "")
        return token_of(self)

    def _sympy_(self):
        import sympy
        eng = E()
        if self.p.is_const():
            c = self.p.const_value()
            return sympy.Rational(c.numerator, c.denominator)
        key = _OWN_PREFIX + _str(register_token(self))
        eng.sympy_symbols[key] = self
        return sympy.Symbol(key, real=True)


_LISTS = (list, tuple, str, bytes)


def mkreal(name, positive=False):
    """Declare an input atom."""
    a = E().new_atom("var", name, positive=positive)
    return SymReal(Poly.atom(a.aid))


def realise(x):
    """Concretise: choose a model value and commit the path to it."""
    eng = E()
    eng.stats.realised += 1
    z = eng.z_poly(x.p)

    def pick():
        m = eng.model()
        if m is None:
            raise PathInfeasible()
        return frac_of_z3(m.eval(z, model_completion=True))
    v = eng.memo_value("R" + z.sexpr(), pick)
    eng.assume(z == z3_of_frac(v))
    return v


# digits and kind of a format of a real number
_SPEC = _re.compile(r"(\.\d+)?([eEfFgG%])?$")


# tokens: opaque names under which symbolic values travel through text ---------
def register_token(x):
    eng = E()
    for k, v in eng.tokens.items():
        if v is x or (type(v) is type(x) and isinstance(x, SymReal)
                      and v.p.terms == x.p.terms):
            return k
    k = len(eng.tokens)
    eng.tokens[k] = x
    return k


def token_of(x):
    return "__zq(%d)" % register_token(x)


def from_token(k):
    return E().tokens[k]


def from_rounded(k, kind, digits):
    """What is read back from a number written with a limited number of digits."""
    eng, kind = E(), kind.lower()
    x = eng.tokens[k]
    if kind == "%":
        x, kind = x * 100, "f"
    if kind == "f":
        return x.__round__(digits) if digits else lift((x + Fraction(1, 2)).floor())
    key = ("rounded", k, kind, digits)
    if key not in eng.rounded:
        a = eng.new_atom("aux", eng.fresh("rounded"))
        z, rel = eng.z_poly(x.p), z3_of_frac(Fraction(1, 2) * Fraction(10) ** (-digits + (1 if kind == "g" else 0)))
        b = rel * z3.If(z >= 0, z, -z)
        eng.add_axiom(a.name, z3.And(a.z - z <= b, z - a.z <= b))
        eng.rounded[key] = SymReal(Poly.atom(a.aid))
    return eng.rounded[key]


def _unpickle(k):
    return E().tokens[k]


builtins.__zq = from_token
builtins.__zqr = from_rounded


# -------------------------------------------------------------------- integers
class SymInt(object):
    __slots__ = ("z",)
    __array_priority__ = 1.0e6

    def __init__(self, z):
        self.z = z

    @staticmethod
    def zof(o):
        if isinstance(o, SymInt):
            return o.z
        if isinstance(o, SymBool):
            return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, bool):
            return z3.IntVal(_int(o))
        if isinstance(o, _int):
            return z3.IntVal(o)
        import numpy as np
        if isinstance(o, np.integer):
            return z3.IntVal(_int(o))
        return None

    def _c(self):
        s = z3.simplify(self.z)
        return s.as_long() if z3.is_int_value(s) else None

    def real(self):
        """As a SymReal: an atom equal to the integer term."""
        eng = E()
        c = self._c()
        if c is not None:
            return SymReal(Poly.const(c))
        s = z3.simplify(self.z)
        # linear combinations are kept linear in integer atoms
        p = _lin_poly(s)
        return SymReal(p)

    def _arith(self, o, fi, fr):
        zo = self.zof(o)
        if zo is not None:
            return mkint(fi(self.z, zo))
        lo = lift(o)
        if lo is None:
            return NotImplemented
        return fr(self.real(), lo)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, _LISTS):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __truediv__(self, o):
        lo = lift(o)
        return NotImplemented if lo is None else self.real() / lo

    def __rtruediv__(self, o):
        lo = lift(o)
        return NotImplemented if lo is None else lo / self.real()

    @staticmethod
    def _divmod(a, b):
        """Python floor division / modulo on z3 ints, b != 0 forked."""
        if E().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if E().branch(b > 0):
            return a / b, a % b
        q = (-a) / (-b)
        return q, -((-a) % (-b))

    def __floordiv__(self, o):
        zo = self.zof(o)
        if zo is None:
            return self.real() // lift(o)
        return mkint(self._divmod(self.z, zo)[0])

    def __rfloordiv__(self, o):
        zo = self.zof(o)
        if zo is None:
            return lift(o) // self.real()
        return mkint(self._divmod(zo, self.z)[0])

    def __mod__(self, o):
        zo = self.zof(o)
        if zo is None:
            return self.real() % lift(o)
        return mkint(self._divmod(self.z, zo)[1])

    def __rmod__(self, o):
        if isinstance(o, _str):
            return o % self.__index__()
        zo = self.zof(o)
        return mkint(self._divmod(zo, self.z)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        n = o if isinstance(o, _int) else None
        if n is not None and 0 <= n <= 8:
            r = SymInt(z3.IntVal(1))
            for _ in range(n):
                r = r * self
            return r
        return self.real() ** o

    def __rpow__(self, o):
        # symbolic exponent: enumerate
        return o ** self.__index__()

    def _cmp(self, o, op):
        zo = self.zof(o)
        if zo is not None:
            a, b = self.z, zo
            return mkbool({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                           "==": a == b, "!=": a != b}[op])
        lo = lift(o)
        if lo is None:
            return NotImplemented
        return self.real()._cmp(lo, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None:
            return False
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if o is None:
            return True
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        """Exhaustive case split over the (bounded) values."""
        c = self._c()
        if c is not None:
            return c
        eng = E()
        sx = z3.simplify(self.z).sexpr()
        for _ in range(200):
            v = eng.memo_value(sx, lambda: self._model_value())
            if eng.branch(self.z == v):
                return v
        eng.stats.realised += 1
        m = eng.model()
        v = m.eval(self.z, model_completion=True).as_long()
        eng.assume(self.z == v)
        return v

    def _model_value(self):
        m = E().model()
        if m is None:
            raise PathInfeasible()
        return m.eval(self.z, model_completion=True).as_long()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return _float(self.__index__())

    def __round__(self, n=None):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (register_token(self),))

    def __str__(self):
        if getattr(E(), "int_tokens", False) and self._c() is None:
            return token_of(self)
        return _str(self.__index__())

    __repr__ = __str__

    def __format__(self, spec):
        if getattr(E(), "int_tokens", False) and self._c() is None:
            return token_of(self)
        return format(self.__index__(), spec)

    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    def _sympy_(self):
        import sympy
        return sympy.Integer(self.__index__())


def _lin_poly(s):
    eng = E()
    if z3.is_int_value(s):
        return Poly.const(s.as_long())
    if z3.is_add(s):
        p = Poly.const(0)
        for ch in s.children():
            p = p.add(_lin_poly(ch))
        return p
    if z3.is_mul(s):
        p = Poly.const(1)
        for ch in s.children():
            p = p.mul(_lin_poly(ch))
        return p
    key = "toreal:" + s.sexpr()
    a = eng.atom_index.get(key)
    if a is None:
        a = eng.new_atom("int", "r_%d" % len(eng.atoms))
        eng.add_axiom(a.name, a.z == z3.ToReal(s))
        for v in z3_vars(s, eng.varcache):
            eng.add_axiom(v, a.z == z3.ToReal(s))
        eng.atom_index[key] = a
    return Poly.atom(a.aid)


def mkint(z):
    s = z3.simplify(z)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


# --------------------------------------------------------------------- strings
PUA = 0xE000


LITERAL_KEYS = []       # short keys of dictionaries and sets written in the code under test


class SymStr(_str):
    """A string of known length some of whose characters are symbolic.

    The underlying ``str`` holds a private-use placeholder for each symbolic
    character so values survive C-level joins and formatting and can be lifted
    again afterwards."""

    def __new__(cls, text):
        return _str.__new__(cls, text)

    def _t(self):
        return _str.__str__(self)

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        r = str_eq(self, o)
        return (not r) if isinstance(r, bool) else ~r

    def _order(self, o):
        """-1, 0, 1 (case split on the first differing character)."""
        for x, y in zip(_str.__iter__(self), _str.__iter__(o)):
            if x == y:
                continue
            a, b = char_z(x), char_z(y)
            if E().branch(a < b):
                return -1
            if E().branch(a > b):
                return 1
        return (len(self) > len(o)) - (len(self) < len(o))

    def __lt__(self, o):
        return self._order(o) < 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __ge__(self, o):
        return self._order(o) >= 0

    def __hash__(self):
        for u in list(E().universe) + [k for k in LITERAL_KEYS if k not in E().universe]:
            if len(u) == len(self) and bool(str_eq(self, u)):
                return hash(u)
        return 104729

    def __len__(self):
        return _str.__len__(self)

    def __getitem__(self, i):
        return lift_str(_str.__getitem__(self, i))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __add__(self, o):
        return lift_str(_str.__add__(self, o))

    def __radd__(self, o):
        return lift_str(_str.__add__(o, self))

    def __mul__(self, n):
        return lift_str(_str.__mul__(self, n))

    __rmul__ = __mul__

    def __contains__(self, sub):
        n = len(sub)
        for i in range(len(self) - n + 1):
            if str_eq(self[i:i + n], sub):
                return True
        return False

    def __str__(self):
        return self

    def __format__(self, spec):
        return format(_str.__getitem__(self, slice(None)), spec)

    def startswith(self, p, *a):
        if a:
            return lift_sym(self[slice(*(a + (None,))[:2])]).startswith(p)
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        return len(self) >= len(p) and bool(str_eq(self[:len(p)], p))

    def endswith(self, p, *a):
        if a:
            return lift_sym(self[slice(*(a + (None,))[:2])]).endswith(p)
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        if len(p) == 0:
            return True
        return len(self) >= len(p) and bool(str_eq(self[len(self) - len(p):], p))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def _places(self, sub, start=None, end=None):
        lo, hi, _ = slice(start, end).indices(len(self))
        return range(lo, hi - len(sub) + 1)

    def find(self, sub, *a):
        for i in self._places(sub, *a):
            if str_eq(self[i:i + len(sub)], sub):
                return i
        return -1

    def rfind(self, sub, *a):
        for i in reversed(self._places(sub, *a)):
            if str_eq(self[i:i + len(sub)], sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        places = self._places(sub, *a)
        n, i = 0, places.start
        while i < places.stop:
            if str_eq(self[i:i + len(sub)], sub):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def splitlines(self, keepends=False):
        parts = self.split("\n")
        if len(parts[-1]) == 0:
            parts.pop()
        if keepends:
            raise NotImplementedError("splitlines(keepends) of symbolic text")
        return parts

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise NotImplementedError("rsplit(None, n) of symbolic text")
        out, rest = [], self
        while len(out) < maxsplit:
            i = lift_sym(rest).rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep):])
            rest = rest[:i]
        return [rest] + out

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def _cased(self, pred, shift, chars=None):
        out = []
        for i in range(len(self)):
            c = self[i]
            if isinstance(c, SymStr):
                if (chars is None or i in chars) and char_in(c, pred):
                    # one case per letter: the changed character has to be a definite one
                    for o in range(65, 91):
                        o = o if shift > 0 else o + 32
                        if str_eq(c, chr(o)):
                            c = chr(o + shift)
                            break
            elif chars is None or i in chars:
                c = c.lower() if shift > 0 else c.upper()
            out.append(c)
        return lift_str("".join(_str.__str__(_str.__getitem__(c, slice(None))) for c in out))

    def lower(self):
        return self._cased(is_upper, 32)

    casefold = lower

    def upper(self):
        return self._cased(is_lower, -32)

    def capitalize(self):
        return lift_sym(self[:1]).upper() + lift_sym(self[1:]).lower()

    def isspace(self):
        return len(self) > 0 and all(char_in(self[i], is_space) for i in range(len(self)))

    def translate(self, table):
        raise NotImplementedError("translate of symbolic text")

    title = swapcase = isidentifier = istitle = expandtabs = translate

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, i = [], None, 0
            for i in range(len(self)):
                if char_in(self[i], is_space):
                    if cur is not None:
                        out.append(self[cur:i])
                        cur = None
                elif cur is None:
                    cur = i
            if cur is not None:
                out.append(self[cur:])
            return out
        out, last, i, n = [], 0, 0, len(sep)
        while i <= len(self) - n:
            if (maxsplit < 0 or len(out) < maxsplit) and str_eq(self[i:i + n], sep):
                out.append(self[last:i])
                i += n
                last = i
            else:
                i += 1
        out.append(self[last:])
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _isws(self, i, chars):
        c = self[i]
        if chars is None:
            return char_in(c, is_space)
        return any(bool(str_eq(c, k)) for k in chars)

    def lstrip(self, chars=None):
        i = 0
        while i < len(self) and self._isws(i, chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        j = len(self)
        while j > 0 and self._isws(j - 1, chars):
            j -= 1
        return self[:j]

    def isdigit(self):
        return len(self) > 0 and all(char_in(self[i], is_digit) for i in range(len(self)))

    isdecimal = isdigit
    isnumeric = isdigit

    def isupper(self):
        return len(self) > 0 and all(char_in(self[i], is_upper) for i in range(len(self)))

    def islower(self):
        return len(self) > 0 and all(char_in(self[i], is_lower) for i in range(len(self)))

    def isalpha(self):
        return len(self) > 0 and all(char_in(self[i], is_alpha) for i in range(len(self)))

    def isalnum(self):
        return len(self) > 0 and all(
            char_in(self[i], is_alpha) or char_in(self[i], is_digit)
            for i in range(len(self)))

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        out = parts[0]
        for p in parts[1:]:
            out = lift_str(_str.__add__(_str.__add__(out, b), p))
        return out

    def join(self, items):
        out = ""
        for i, it in enumerate(items):
            out = _str.__add__(out, it) if i == 0 else \
                _str.__add__(_str.__add__(out, self), it)
        return lift_str(out)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_space(z):
    return z3.Or(z == 32, z3.And(z >= 9, z <= 13))


def is_digit(z):
    return z3.And(z >= 48, z <= 57)


def is_upper(z):
    return z3.And(z >= 65, z <= 90)


def is_lower(z):
    return z3.And(z >= 97, z <= 122)


def is_alpha(z):
    return z3.Or(is_upper(z), is_lower(z))


def has_sym(s):
    return any(PUA <= ord(c) < PUA + 6000 for c in _str.__iter__(s))


def lift_str(s):
    if isinstance(s, SymStr):
        return s if has_sym(s) else _str.__str__(_str.__getitem__(s, slice(None)))
    return SymStr(s) if has_sym(s) else s


def lift_sym(s):
    return s if isinstance(s, SymStr) else SymStr(s)


def str_in(x, y):
    """`x in y` where plain text may be searched for symbolic text."""
    if type(y) is _str and isinstance(x, SymStr):
        return SymStr.__contains__(SymStr(y), x)
    return x in y


SEARCHING = ("startswith", "endswith", "find", "rfind", "index", "rindex", "count", "split", "rsplit",
             "partition", "rpartition", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace")


def str_method(obj, name, *a, **k):
    """obj.name(...) where plain text may be searched for symbolic text."""
    if type(obj) is _str and any(isinstance(x, SymStr) for x in a):
        obj = SymStr(obj)
    return getattr(obj, name)(*a, **k)


def char_z(c):
    """z3 code point of one character (symbolic or not)."""
    o = ord(_str.__getitem__(c, 0))
    if PUA <= o < PUA + 6000:
        return E().chars[o - PUA]
    return z3.IntVal(o)


def char_in(c, pred):
    return E().branch(z3.simplify(pred(char_z(c))))


def str_eq(a, b):
    if not isinstance(b, _str):
        return False
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(_str.__iter__(a), _str.__iter__(b)):
        if x == y:
            continue
        cs.append(char_z(x) == char_z(y))
    if not cs:
        return True
    return mkbool(z3.And(*cs))


def mkchar(name, alphabet):
    """A fresh symbolic character restricted to `alphabet` (a str)."""
    eng = E()
    k = len(eng.chars)
    z = z3.Int("ch_%s" % name)
    eng.chars[k] = z
    codes = sorted(set(ord(c) for c in alphabet))
    # as ranges
    rs, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        rs.append(z3.And(z >= codes[i], z <= codes[j]) if j > i else z == codes[i])
        i = j + 1
    eng.assume(z3.Or(*rs) if len(rs) > 1 else rs[0])
    return SymStr(chr(PUA + k))


def symstr_int(s):
    """int() of a digit string."""
    s = lift_str(s)
    if not isinstance(s, SymStr):
        return _int(s)
    t = s.strip()
    if not isinstance(t, SymStr):
        return _int(t)
    neg = False
    if len(t) and char_in(t[0], lambda z: z3.Or(z == 43, z == 45)):
        neg = bool(t[0] == "-")
        t = t[1:]
    if not len(t) or not all(char_in(t[i], is_digit) for i in range(len(t))):
        raise ValueError("invalid literal for int() with base 10: %r" % (s,))
    r = z3.IntVal(0)
    for i in range(len(t)):
        r = r * 10 + (char_z(t[i]) - 48)
    return mkint(-r if neg else r)
