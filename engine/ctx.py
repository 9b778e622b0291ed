"""Scenario contexts: the same scenario runs symbolically and concretely.

A scenario is a function ``f(ctx, **params)`` that declares inputs, drives the
real code through its API and states the property with ``ctx.check*``.  Under
``SymCtx`` inputs are symbolic and the checks are solver queries; under
``ConCtx`` inputs are the numbers of a counterexample and the checks are
ordinary tests of the unpatched code."""
import math
import os
import random
from fractions import Fraction

REL_TOL = 1e-7
ABS_TOL = 1e-12


class Fail(object):
    def __init__(self, label, info):
        self.label, self.info = label, info


class NotReproduced(BaseException):
    """An assumption of the scenario does not hold for these inputs."""


class BaseCtx(object):
    symbolic = None

    def string(self, name, n, alphabet):
        out = ""
        for i in range(n):
            out = out + self.char("%s_%d" % (name, i), alphabet)
        return out

    def module(self, filename, **variables):
        """Write a data file of ``name = value`` lines."""
        with open(filename, "w") as f:
            for k, v in variables.items():
                f.write("%s = %s\n" % (k, text_of(v)))
        return filename

    def check_list(self, a, b, label):
        if not self.check(len(a) == len(b), label + ":length"):
            return
        for x, y in zip(a, b):
            self.eq(x, y, label)

    def raises(self, excs, label, f, *a, **k):
        try:
            r = f(*a, **k)
        except excs:
            self.check(True, label)
            return None
        self.check(False, label)
        return r


def text_of(v):
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (text_of(k), text_of(x)) for k, x in v.items())
    if isinstance(v, list):
        return "[%s]" % ", ".join(text_of(x) for x in v)
    if isinstance(v, tuple):
        return "(%s,)" % ", ".join(text_of(x) for x in v)
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return "float('%r')" % v
    return repr(v)


# --------------------------------------------------------------------- symbolic
class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine, want_fail_labels=6):
        import z3
        from . import sym
        self.z3, self.s = z3, sym
        self.e = engine
        self.inputs = []             # (name, kind, z, hints)
        self.fails = []
        self.unknown = []
        self.labels = {}
        self.choices = {}

    # -- inputs --
    def real(self, name, lo=None, hi=None, positive=False, typ=None):
        if lo is not None and lo > 0:
            positive = True
        v = self.s.mkreal(name, positive=positive)
        z = self.e.atoms[-1].z
        if lo is not None:
            self.e.assume(z >= self._q(lo))
        if hi is not None:
            self.e.assume(z <= self._q(hi))
        if typ is None:
            typ = (lo if lo is not None else (0.01 if positive else -2.0),
                   hi if hi is not None else 2.0)
        self.inputs.append((name, "real", z, typ))
        return v

    def _q(self, v):
        f = Fraction(v)
        return self.z3.Q(f.numerator, f.denominator)

    def int_tokens(self, on=True):
        """Integers are written as opaque literals instead of digits."""
        self.e.int_tokens = on

    def int(self, name, lo, hi):
        z = self.z3.Int(name)
        self.e.assume(self.z3.And(z >= lo, z <= hi))
        self.inputs.append((name, "int", z, (lo, hi)))
        return self.s.SymInt(z)

    def bool(self, name):
        z = self.z3.Int(name)
        self.e.assume(self.z3.And(z >= 0, z <= 1))
        self.inputs.append((name, "int", z, (0, 1)))
        return bool(self.s.mkbool(z == 1))

    def choice(self, name, options):
        """Case split over a finite list (every feasible case is explored)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1).__index__()
        return options[i]

    def char(self, name, alphabet):
        c = self.s.mkchar(name, alphabet)
        z = self.s.char_z(c)
        self.inputs.append((name, "char", z, alphabet))
        return c

    def text(self, s):
        """Concrete or symbolic text as a value the code can use."""
        return self.s.lift_str(s)

    def universe(self, names):
        self.e.universe = tuple(names)

    def decimal(self, digits):
        """Value of a digit string (digits known to be 0-9)."""
        z3, v = self.z3, self.z3.IntVal(0)
        for i in range(len(digits)):
            v = v * 10 + (self.s.char_z(digits[i]) - 48)
        return self.s.mkint(v)

    # -- logic --
    def _cond(self, c):
        if isinstance(c, self.s.SymBool):
            return c.z
        return bool(c)

    def assume(self, c):
        self.e.require(self._cond(c))

    def And(self, *cs):
        return self.s.mkbool(self.z3.And(*[self.s.zbool(c) for c in cs]))

    def Or(self, *cs):
        return self.s.mkbool(self.z3.Or(*[self.s.zbool(c) for c in cs]))

    def Not(self, c):
        return self.s.mkbool(self.z3.Not(self.s.zbool(c)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        """Value selected by a condition (a case split)."""
        return a if bool(c) else b

    def exp(self, x):
        return self.s.lift(x).exp()

    def log(self, x):
        return self.s.lift(x).log()

    def sqrt(self, x):
        return self.s.lift(x).sqrt()

    def const(self, x):
        return self.s.lift(Fraction(x) if not isinstance(x, str) else Fraction(x))

    # -- property --
    def _decide(self, cond, label, info=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        r, m = self.e.decide(cond)
        if r == "holds":
            return True
        if r == "unknown":
            self.unknown.append(label)
            return True
        inp = self.extract(m, [] if isinstance(cond, bool) else [self.z3.Not(cond)])
        self.fails.append({"label": label, "inputs": inp, "info": info})
        if isinstance(cond, bool):
            from .core import PathDone
            raise PathDone()
        # continue on the part of the path where the check holds
        self.e.require(cond)
        return False

    def extract(self, m, extra):
        nice = []
        for name, kind, z, h in self.inputs:
            if kind == "real" and h:
                nice.append(self.z3.And(z >= self._q(h[0]), z <= self._q(h[1])))
        m2 = self.e.model(list(extra) + nice, timeout=5000) if nice else None
        m = m2 or m
        out = {}
        if m is None:
            return out
        from .core import frac_of_z3
        for name, kind, z, h in self.inputs:
            v = m.eval(z, model_completion=True)
            if kind == "real":
                f = frac_of_z3(v)
                out[name] = "%d/%d" % (f.numerator, f.denominator)
            elif kind == "char":
                n = v.as_long()
                out[name] = chr(n) if 0 < n < 0x110000 else h[0]
                if out[name] not in h:
                    out[name] = h[0]
            else:
                n = v.as_long()
                out[name] = n if h[0] <= n <= h[1] else h[0]
        return out

    def check(self, c, label, info=None):
        return self._decide(self._cond(c), label, info)

    def eq(self, a, b, label, scale=None):
        la, lb = self.s.lift(a), self.s.lift(b)
        if la is None or lb is None:
            return self.check(a == b, label, "%r vs %r" % (a, b))
        p = self.match(la.p, lb.p)
        return self._decide(self.e.cmp0(p.sub(lb.p), "=="), label,
                            "%s  vs  %s" % (self.show(la.p), self.show(lb.p)))

    def eq_any(self, a, bs, label, scale=None):
        """a equals one of bs."""
        la = self.s.lift(a)
        cs = []
        for b in bs:
            lb = self.s.lift(b)
            c = self.e.cmp0(self.match(la.p, lb.p).sub(lb.p), "==")
            if c is True:
                return self._decide(True, label)
            if c is not False:
                cs.append(c)
        return self._decide(self.z3.Or(*cs) if cs else False, label)

    def match(self, p, q):
        p = p.snap_to(q)
        d = p.sub(q)
        if not d.terms:
            return p
        # rounding residue: coefficients negligible against every term they
        # could have been produced from
        big = max([abs(c) for c in list(p.terms.values()) + list(q.terms.values())])
        small = big * Fraction(1, 10 ** 60)
        r = {m: c for m, c in p.terms.items() if m in q.terms or abs(c) > small}
        from .poly import Poly
        return Poly(r)

    def show(self, p):
        s = repr(p)
        for a in reversed(self.e.atoms):
            s = s.replace("a%d" % a.aid, a.name) if len(s) < 4000 else s
        return s[:600]

    def le(self, a, b, label, strict=False, scale=None):
        la, lb = self.s.lift(a), self.s.lift(b)
        p = self.match(la.p, lb.p)
        return self._decide(self.e.cmp0(p.sub(lb.p), "<" if strict else "<="), label)

    def lt(self, a, b, label):
        return self.le(a, b, label, strict=True)

    def derive(self, value, name):
        """d value / d input `name` (exact); every atom that depends on the
        input other than through plain powers is rejected."""
        v = self.s.lift(value)
        aid = [a.aid for a in self.e.atoms if a.name == name][0]
        for k in v.p.atoms():
            a = self.e.atoms[k]
            if a.arg is not None and k != aid and aid in self._deps(a):
                raise NotImplementedError("derivative through %s" % a.kind)
        return self.s.SymReal(v.p.derive(aid))

    def _deps(self, a):
        out = set()
        todo = [a.arg]
        while todo:
            p = todo.pop()
            for k in p.atoms():
                if k not in out:
                    out.add(k)
                    if self.e.atoms[k].arg is not None:
                        todo.append(self.e.atoms[k].arg)
        return out


# --------------------------------------------------------------------- concrete
class ConCtx(BaseCtx):
    symbolic = False

    def __init__(self, values, rng=None):
        self.values = values
        self.rng = rng or random.Random(1)
        self.fails = []
        self.labels = {}
        self.used = {}

    def real(self, name, lo=None, hi=None, positive=False, typ=None):
        v = self.values.get(name)
        if v is None:
            if typ is None:
                pos = positive or (lo is not None and lo > 0)
                typ = (lo if lo is not None else (0.01 if pos else -2.0),
                       hi if hi is not None else 2.0)
            v = self.rng.uniform(float(typ[0]), float(typ[1]))
        else:
            v = float(Fraction(v))
            if math.isinf(v):
                raise NotReproduced(name)
        if lo is not None and v < lo or hi is not None and v > hi or positive and v <= 0:
            # rounding of a boundary value
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
            if positive and v <= 0:
                raise NotReproduced(name)
        self.used[name] = "%d/%d" % Fraction(v).as_integer_ratio()
        return v

    def int_tokens(self, on=True):
        pass

    def int(self, name, lo, hi):
        v = self.values.get(name)
        v = self.rng.randint(lo, hi) if v is None else int(v)
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def char(self, name, alphabet):
        v = self.values.get(name)
        if v is None:
            v = self.rng.choice(alphabet)
        self.used[name] = v
        return v

    def text(self, s):
        return s

    def decimal(self, digits):
        return int(digits)

    def universe(self, names):
        pass

    def assume(self, c):
        if not c:
            raise NotReproduced("assumption")

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def exp(self, x):
        import mpmath
        return mpmath.exp(x)

    def log(self, x):
        import mpmath
        return mpmath.log(x)

    def sqrt(self, x):
        import mpmath
        return mpmath.sqrt(x)

    def const(self, x):
        return float(Fraction(x))

    def check(self, c, label, info=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            self.fails.append((label, info))
            return False
        return True

    def _num(self, x):
        import mpmath
        if isinstance(x, Fraction):
            return mpmath.mpf(x.numerator) / x.denominator
        try:
            return mpmath.mpf(x)
        except TypeError:
            return mpmath.mpf(float(x))

    def _tol(self, a, b, scale):
        t = REL_TOL * max(abs(a), abs(b))
        return max(t, 1e-9 * abs(self._num(scale)) if scale is not None else 1e-13)

    def eq(self, a, b, label, scale=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(a, (str, bool, type(None), dict, list, tuple)) or \
                isinstance(b, (str, type(None), dict, list, tuple)):
            ok = (a == b)
        else:
            x, y = self._num(a), self._num(b)
            ok = (x == y) or abs(x - y) <= self._tol(x, y, scale)
        if not ok:
            self.fails.append((label, "%s vs %s" % (a, b)))
        return bool(ok)

    def eq_any(self, a, bs, label, scale=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        x = self._num(a)
        ok = any(abs(x - self._num(b)) <= self._tol(x, self._num(b), scale) for b in bs)
        if not ok:
            self.fails.append((label, "%s vs %s" % (a, " or ".join(str(b) for b in bs))))
        return ok

    def le(self, a, b, label, strict=False, scale=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        x, y = self._num(a), self._num(b)
        ok = x < y if strict else (x <= y or abs(x - y) <= self._tol(x, y, scale))
        if not ok:
            self.fails.append((label, "%s <= %s" % (a, b)))
        return bool(ok)

    def lt(self, a, b, label):
        return self.le(a, b, label, strict=True)

    def derive(self, value, name):
        raise NotImplementedError
