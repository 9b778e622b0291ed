"""Path-exploring symbolic executor for the real Python code.

The code under test runs unmodified on proxy objects.  A branch on a symbolic
condition asks the SMT solver which sides are feasible; paths are explored
depth-first by re-executing the scenario with a recorded decision prefix.
"""
import os
import time
from fractions import Fraction

import z3

from .poly import Poly, SNAP, as_exp, mono_pow


class SteerPath(BaseException):
    """Base of path-steering signals; never an Exception so that handlers in the
    code under test do not swallow them."""


class PathInfeasible(SteerPath):
    pass


class PathDone(SteerPath):
    pass


class Atom(object):
    __slots__ = ("aid", "kind", "name", "z", "arg", "positive", "extra")

    def __init__(self, aid, kind, name, z, arg=None, positive=False, extra=None):
        self.aid, self.kind, self.name, self.z = aid, kind, name, z
        self.arg, self.positive, self.extra = arg, positive, extra


def frac_of_z3(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(str(v))


def z3_of_frac(c):
    c = Fraction(c)
    if c.denominator == 1:
        return z3.RealVal(c.numerator)
    return z3.Q(c.numerator, c.denominator)


def z3_vars(e, cache):
    """Names of the free constants of a z3 expression."""
    i = e.get_id()
    if i in cache:
        return cache[i][1]
    out = set()
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    cache[i] = (e, frozenset(out))      # keep `e` alive: ids are recycled
    return cache[i][1]


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.checks = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.realised = 0
        self.labels = {}
        self.max_depth = 0


class Engine(object):
    """One symbolic run.  `stats` is shared over the paths of a scenario."""
    current = None
    identify = True              # off where a property compares against narrow guard bands

    def __init__(self, stats=None, timeout_ms=20000):
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.memo = {}               # survives re-execution: keeps it deterministic
        self.prefix = []
        self.reset()

    # ---- path management -------------------------------------------------
    def reset(self, prefix=()):
        self.prefix = list(prefix)
        self.decisions = []          # list of (value, other_feasible)
        self.pc = []                 # z3 constraints
        self.pcv = []                # their variable sets
        self.atoms = []
        self.compared = {}
        self.atom_index = {}
        self.inputs = {}             # name -> ("real"/"int"/"choice"/"str", payload)
        self.known = {}              # cond id -> bool
        self.known_keep = []
        self.varcache = {}
        self.axioms = {}             # var name -> list of axioms to add with it
        self.pos_cache = {}
        self.roots = {}
        self.invs = {}
        self.charid = 0
        self.chars = {}
        self.fresh_n = 0
        self.universe = ()
        self.tokens = {}
        self.rounded = {}
        self.int_tokens = False
        self.sympy_symbols = {}

    def memo_value(self, what, pick):
        key = (tuple(v for v, _ in self.decisions), what)
        if key not in self.memo:
            self.memo[key] = pick()
        return self.memo[key]

    def fresh(self, hint="t"):
        self.fresh_n += 1
        return "%s!%d" % (hint, self.fresh_n)

    # ---- atoms -----------------------------------------------------------
    def new_atom(self, kind, name, arg=None, positive=False, extra=None):
        aid = len(self.atoms)
        a = Atom(aid, kind, name, z3.Real(name), arg, positive, extra)
        self.atoms.append(a)
        if positive:
            self.add_axiom(name, a.z > 0)
        return a

    def add_axiom(self, name, ax):
        self.axioms.setdefault(name, []).append(ax)

    # ---- z3 translation ----------------------------------------------------
    def root_const(self, a, q):
        k = (a.aid, q)
        if k not in self.roots:
            n = "root%d_%s" % (q, a.name)
            r = z3.Real(n)
            p = r
            for _ in range(q - 1):
                p = p * r
            self.add_axiom(n, z3.And(r >= 0, p == a.z))
            if a.positive:
                self.add_axiom(n, r > 0)
            self.roots[k] = r
        return self.roots[k]

    def inv_const(self, a):
        if a.aid not in self.invs:
            n = "inv_%s" % a.name
            r = z3.Real(n)
            self.add_axiom(n, r * a.z == 1)
            if a.positive:
                self.add_axiom(n, r > 0)
            self.invs[a.aid] = r
        return self.invs[a.aid]

    def z_mono(self, m, c):
        t = None
        for aid, e in m:
            a = self.atoms[aid]
            base = a.z
            if isinstance(e, Fraction):
                base, n = self.root_const(a, e.denominator), e.numerator
            else:
                n = e
            if n < 0:
                if isinstance(e, Fraction):
                    # 1/root: define through the reciprocal of the atom's root
                    nm = "inv_root%d_%s" % (e.denominator, a.name)
                    iv = z3.Real(nm)
                    if nm not in self.axioms:
                        self.add_axiom(nm, iv * base == 1)
                    base = iv
                else:
                    base = self.inv_const(a)
                n = -n
            for _ in range(n):
                t = base if t is None else t * base
        zc = z3_of_frac(c)
        if t is None:
            return zc
        return t if c == 1 else zc * t

    def z_poly(self, p):
        if not p.terms:
            return z3.RealVal(0)
        ts = [self.z_mono(m, c) for m, c in sorted(p.terms.items(), key=repr)]
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def is_positive_atom(self, aid):
        a = self.atoms[aid]
        if a.positive:
            return True
        k = (aid, len(self.pc))
        if k not in self.pos_cache:
            r = self._solve([a.z <= 0], 2000)
            self.pos_cache[k] = (r == z3.unsat)
            if self.pos_cache[k]:
                a.positive = True
        return self.pos_cache[k]

    def cleared(self, p):
        """p multiplied by a positive factor that removes denominators."""
        mins = {}
        for m in p.terms:
            md = dict(m)
            for k, e in m:
                mins[k] = min(mins.get(k, 0), e)
            for k in list(mins):
                if k not in md:
                    mins[k] = min(mins[k], 0)
        fac = []
        for k, e in mins.items():
            if e < 0:
                need = -e
                if self.atoms[k].positive or self.is_positive_atom(k):
                    fac.append((k, as_exp(need)))
                else:
                    n = int(need) if need == int(need) else int(need) + 1
                    if n % 2:
                        n += 1
                    fac.append((k, n))
        # a common positive factor of all the monomials is divided out as well
        for k, e in mins.items():
            if e >= 0 and all(k in dict(m) for m in p.terms):
                common = min(dict(m)[k] for m in p.terms)
                if common > 0 and (self.atoms[k].positive or self.is_positive_atom(k)):
                    fac.append((k, as_exp(-common)))
        if not fac:
            return p
        return p.mul(Poly({tuple(sorted(fac)): Fraction(1)}))

    def normalised(self, p):
        """Divide by |leading coefficient| so the solver sees small numbers."""
        if not p.terms:
            return p
        c = max(abs(v) for v in p.terms.values())
        return p.scale(1 / c)

    def _known(self, p):
        """The same comparison written another way differs by the rounding of its constants:
        use the polynomial met first."""
        if not self.identify or len(p.terms) < 2 or all(v.denominator < 10 ** 15 for v in p.terms.values()):
            return p, False
        key = frozenset(p.terms)
        for q in self.compared.setdefault(key, []):
            for sign in (1, -1):
                if all(abs(v - sign * q.terms[m]) <= SNAP * abs(v) for m, v in p.terms.items()):
                    return q, sign < 0
        self.compared[key].append(p)
        return p, False

    def cmp0(self, p, op):
        """z3 condition (or bool) for  p op 0."""
        if p.is_const():
            v = p.const_value()
            return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0,
                    ">": v > 0, ">=": v >= 0}[op]
        p, flip = self._known(self.normalised(self.cleared(p)))
        if flip:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        z = self.z_poly(p)
        return {"<": z < 0, "<=": z <= 0, "==": z == 0, "!=": z != 0,
                ">": z > 0, ">=": z >= 0}[op]

    # ---- solving -------------------------------------------------------------
    def _slice(self, conds):
        want = set()
        for c in conds:
            want |= z3_vars(c, self.varcache)
        out, used, axdone = list(conds), set(), set()
        todo = list(want)
        seen = set(want)
        while todo:
            n = todo.pop()
            if n in self.axioms and n not in axdone:
                axdone.add(n)
                for ax in self.axioms[n]:
                    out.append(ax)
                    for v in z3_vars(ax, self.varcache):
                        if v not in seen:
                            seen.add(v)
                            todo.append(v)
            for i, vs in enumerate(self.pcv):
                if i not in used and n in vs:
                    used.add(i)
                    out.append(self.pc[i])
                    for v in vs:
                        if v not in seen:
                            seen.add(v)
                            todo.append(v)
        out.extend(self._exp_pairs(seen))
        return out

    def _exp_pairs(self, names):
        es = [a for a in self.atoms if a.kind == "exp" and a.name in names]
        out = []
        for i in range(len(es)):
            for j in range(i):
                a, b = es[i], es[j]
                d = a.arg.sub(b.arg)
                c = self.cmp0(d, ">")
                e = self.cmp0(d, "==")
                if isinstance(c, bool):
                    c = z3.BoolVal(c)
                if isinstance(e, bool):
                    e = z3.BoolVal(e)
                out.append(c == (a.z > b.z))
                out.append(z3.Implies(e, a.z == b.z))
        return out

    def _solve(self, conds, timeout=None, want_model=False, full=False):
        timeout = timeout or self.timeout_ms
        self.stats.queries += 1
        t0 = time.time()
        try:
            if full:
                cs = list(conds) + list(self.pc)
                names = set()
                for c in cs:
                    names |= z3_vars(c, self.varcache)
                todo, seen = list(names), set(names)
                while todo:
                    n = todo.pop()
                    for ax in self.axioms.get(n, ()):
                        cs.append(ax)
                        for v in z3_vars(ax, self.varcache):
                            if v not in seen:
                                seen.add(v)
                                todo.append(v)
                cs += self._exp_pairs(seen)
            else:
                cs = self._slice(conds)
            s = z3.Solver()
            s.set("timeout", int(min(timeout, 3000)))
            s.add(*cs)
            r = s.check()
            if r == z3.unknown:
                s = z3.Tactic("qfnra-nlsat").solver() if False else z3.SolverFor("QF_NRA")
                s.set("timeout", int(timeout))
                s.add(*cs)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
            if r == z3.unknown and timeout > 3000:
                s = z3.Solver()
                s.set("timeout", int(timeout))
                s.set("random_seed", 7)
                s.add(*cs)
                r = s.check()
            if want_model:
                return r, (s.model() if r == z3.sat else None)
            return r
        finally:
            self.stats.solver_s += time.time() - t0

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathInfeasible()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible()
        self.pc.append(cond)
        self.pcv.append(self.closure(z3_vars(cond, self.varcache)))

    def closure(self, names):
        """The names and every variable their definitions refer to."""
        if not any(n in self.axioms for n in names):
            return names
        seen, todo = set(names), list(names)
        while todo:
            for ax in self.axioms.get(todo.pop(), ()):
                for v in z3_vars(ax, self.varcache):
                    if v not in seen:
                        seen.add(v)
                        todo.append(v)
        return seen

    def require(self, cond):
        """assume() that also verifies the path stays feasible."""
        if isinstance(cond, bool):
            if not cond:
                raise PathInfeasible()
            return
        if self._solve([cond]) == z3.unsat:
            raise PathInfeasible()
        self.assume(cond)

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        if cid in self.known:
            return self.known[cid]
        self.stats.branches += 1
        k = len(self.decisions)
        ncond = z3.simplify(z3.Not(cond))
        if k < len(self.prefix):
            val, other = self.prefix[k]
        else:
            rt = self._solve([cond], 6000)
            if rt == z3.unsat:
                val, other = False, False
            else:
                rf = self._solve([ncond], 6000)
                val, other = True, rf != z3.unsat
        self.decisions.append((val, other))
        self.stats.max_depth = max(self.stats.max_depth, len(self.decisions))
        chosen = cond if val else ncond
        if other or k < len(self.prefix):
            self.assume(chosen)
        self.known[cid] = val
        self.known_keep.append(cond)
        self.known[ncond.get_id()] = not val
        self.known_keep.append(ncond)
        return val

    def model(self, extra=(), timeout=None):
        r, m = self._solve(list(extra), timeout, want_model=True, full=True)
        return m if r == z3.sat else None

    def decide(self, cond):
        """Solver verdict on cond under the path condition:
        'holds' | ('fails', model) | 'unknown'."""
        self.stats.checks += 1
        if isinstance(cond, bool):
            if cond:
                # still a (trivial) discharged obligation of this path
                self.stats.unsat += 1
                return "holds", None
            m = self.model()
            self.stats.sat += 1
            return "fails", m
        neg = z3.simplify(z3.Not(cond))
        r, m = self._solve([neg], want_model=True)
        if r == z3.unsat:
            self.stats.unsat += 1
            return "holds", None
        if r == z3.sat:
            self.stats.sat += 1
            fm = self.model([neg])
            return "fails", fm if fm is not None else m
        self.stats.unknown += 1
        return "unknown", None


def next_prefix(decisions):
    """DFS successor of an explored path, or None."""
    d = list(decisions)
    while d:
        val, other = d.pop()
        if other and val is True:
            return d + [(False, False)]
    return None
