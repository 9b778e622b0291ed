"""Generalised Laurent polynomials with exact rational coefficients.

Every real-valued quantity computed by the code under test is kept in this
normal form:  sum_k  c_k * prod_i atom_i ** e_ik   with c_k in Q and e_ik in Q.
Atoms are the symbolic inputs plus the values of transcendental functions at
symbolic points (exp/log), reciprocals of sums and roots of sums.  Working in a
normal form keeps the queries given to the SMT solver small: monomials cancel
before the solver sees them, denominators known to be non-zero are cleared.
"""
from fractions import Fraction

SNAP = Fraction(1, 10 ** 11)


def as_exp(e):
    if isinstance(e, int):
        return e
    e = Fraction(e)
    return int(e) if e.denominator == 1 else e


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = as_exp(n)
    return tuple(sorted(d.items()))


def mono_pow(a, q):
    return tuple((k, as_exp(e * q)) for k, e in a)


class Poly(object):
    __slots__ = ("terms",)

    def __init__(self, terms=None):
        self.terms = terms if terms is not None else {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(aid):
        return Poly({((aid, 1),): Fraction(1)})

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const_value(self):
        return self.terms.get((), Fraction(0))

    def is_zero(self):
        return not self.terms

    def is_mono(self):
        return len(self.terms) == 1

    def add(self, o):
        d = dict(self.terms)
        for m, c in o.terms.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, c):
        if c == 0:
            return Poly({})
        return Poly({m: v * c for m, v in self.terms.items()})

    def mul(self, o):
        d = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return Poly(d)

    def atoms(self):
        return {k for m in self.terms for k, _ in m}

    def key(self):
        return tuple(sorted(self.terms.items()))

    def snap_to(self, o, tol=SNAP):
        """Replace coefficients that differ from the coefficient of the same
        monomial in `o` by rounding noise only."""
        d = {}
        for m, c in self.terms.items():
            oc = o.terms.get(m)
            if oc is not None and c != oc and abs(c - oc) <= tol * max(abs(c), abs(oc)):
                c = oc
            d[m] = c
        return Poly(d)

    def derive(self, aid):
        """Partial derivative with respect to a plain atom (other atoms must not
        depend on it; the caller checks)."""
        d = {}
        for m, c in self.terms.items():
            md = dict(m)
            if aid in md:
                e = md[aid]
                ne = as_exp(e - 1)
                if ne == 0:
                    md.pop(aid)
                else:
                    md[aid] = ne
                key = tuple(sorted(md.items()))
                n = d.get(key, 0) + c * e
                if n == 0:
                    d.pop(key, None)
                else:
                    d[key] = n
        return Poly(d)

    def __repr__(self):
        if not self.terms:
            return "0"
        out = []
        for m, c in sorted(self.terms.items(), key=str):
            s = "*".join("a%s^%s" % (k, e) if e != 1 else "a%s" % k for k, e in m)
            out.append("%s%s" % (float(c) if abs(c.denominator) > 10 ** 6 else c,
                                 "*" + s if s else ""))
        return " + ".join(out)
