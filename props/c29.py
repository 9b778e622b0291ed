"""Newton iterations report the residual of the point they return."""
import mpmath
from engine.run import Scenario

BOUNDS = ("functions and Jacobians with arbitrary values at every point asked for (uninterpreted), one to two unknowns, up to eight steps with "
          "one unknown and three with two, up to three step halvings; arbitrary step lengths of the line search; finite differences "
          "of arbitrary functions of up to two unknowns")
OUTSIDE = "more unknowns; rounding; the golden section search of scipy (any step length it may return is explored)"


class Fn(object):
    """A function known only at the points it was asked for."""
    def __init__(self, ctx, name, n, limit=99, plain=False, distinct=False):
        self.ctx, self.name, self.n, self.limit, self.plain, self.distinct = ctx, name, n, limit, plain, distinct
        self.calls = []

    def key(self, x):
        if self.ctx.symbolic:
            from engine.sym import lift
            return tuple(frozenset(lift(v).p.terms.items()) for v in x)
        return tuple(x)

    def known(self, x):
        k = self.key(x)
        for p, v in self.calls:
            if p == k:
                return v
        return None

    def __call__(self, x):
        v = self.known(x)
        if v is None:
            self.ctx.assume(len(self.calls) < self.limit)
            i = len(self.calls)
            v = []
            for j in range(self.n):
                y = self.ctx.real("%s%d_%d" % (self.name, i, j), lo=-4, hi=4)
                if not self.plain:
                    self.ctx.assume(self.ctx.Or(y > 0.0078125, y < -0.0078125))
                if self.distinct:
                    for _, w in self.calls:
                        self.ctx.assume(nonzero(self.ctx, y - w[j]))
                v.append(y)
            self.calls.append((self.key(x), v))
        return list(v)


class Jac(Fn):
    """Values of a regular matrix."""
    def __call__(self, x):
        old = len(self.calls)
        v = Fn.__call__(self, x)
        n = int(round(self.n ** 0.5))
        if len(self.calls) > old and n == 2:
            d = v[0] * v[3] - v[1] * v[2]
            self.ctx.assume(self.ctx.Or(d > 0.0078125, d < -0.0078125))
        J = mpmath.matrix(n, n)
        for i in range(n):
            for j in range(n):
                J[i, j] = v[n * i + j]
        return J


def close(ctx, a, b, label):
    a, b = list(a), list(b)
    ctx.check(len(a) == len(b), label + ":length")
    for x, y in zip(a, b):
        ctx.eq(x, y, label)


def constrained(ctx, n, steps):
    """Every iterate comes with its own function value and norm."""
    import scaks.solvers.rootfinding_iterators as R
    f, J = Fn(ctx, "f", n), Jac(ctx, "J", n * n)
    log, lengths, clipped = [], [], []

    def norm(v):
        return sum(x * x for x in list(v))

    def solve(A, b):
        s = [ctx.real("s%d_%d" % (len(log), j), lo=-4, hi=4) for j in range(n)]
        for y in s:
            ctx.assume(ctx.Or(y > 0.0078125, y < -0.0078125))
        log.append((A, list(b), s))
        return mpmath.matrix(s)

    def golden(fl):
        l = ctx.real("l%d" % len(lengths), lo=0.03125, hi=2)
        x0, s = here[0], log[-1][2]
        probe = 0.75
        at = [a + probe * b for a, b in zip(x0, s)]
        for a, b, c in zip(x0, s, at):         # zero entries only change the storage of the matrix
            ctx.assume(ctx.And(nonzero(ctx, a + l * b), nonzero(ctx, c)))
        with_float = fl(probe)
        ctx.eq(with_float, norm(f(at)), "the line search minimises the norm along the step")
        lengths.append(l)
        return l

    def constraint(x):
        new = tuple(ctx.real("c%d_%d" % (len(clipped), j), lo=0.015625, hi=1) for j in range(n))
        clipped.append((tuple(x), new))
        return new
    old, R.golden = R.golden, golden
    try:
        x0 = tuple(ctx.real("x%d" % j, lo=0.125, hi=1) for j in range(n))
        here = [x0]
        it = R.ConstrainedNewton(f, x0, J=J, constraint=constraint, norm=norm, mpfloat=lambda v: v,
                                 matrix=mpmath.matrix, Axb_solver=solve)
        for k, (x, nrm, fx) in enumerate(it, 1):
            A, b, s = log[k - 1]
            close(ctx, list(b), [-v for v in f(here[0])], "right-hand side at the previous point")
            Jx = J.known(here[0])
            ctx.check(Jx is not None, "Jacobian at the previous point")
            close(ctx, list(A), Jx, "Jacobian at the previous point")
            step = [a + lengths[k - 1] * d for a, d in zip(here[0], s)]
            if len(clipped) and k > 5:
                close(ctx, clipped[-1][0], step, "the step is constrained")
                ctx.check(len(clipped) == k - 5, "every later iterate is constrained")
                close(ctx, x, clipped[-1][1], "the constrained iterate is used")
            else:
                ctx.check(k <= 5 and not clipped, "later iterates are constrained")
                close(ctx, x, step, "iterate along the Newton step")
            want = f(x)
            close(ctx, list(fx), want, "function value of the iterate")
            ctx.eq(nrm, norm(want), "norm of the function value")
            here[0] = tuple(x)
            if k >= steps:
                break
    finally:
        R.golden = old


def singular(ctx):
    """A singular Jacobian is reported as a ValueError."""
    import scaks.solvers.rootfinding_iterators as R

    def solve(A, b):
        raise ZeroDivisionError("singular")
    f, J = Fn(ctx, "f", 1), Jac(ctx, "J", 1)
    x0 = (ctx.real("x", lo=0.125, hi=1),)
    it = R.ConstrainedNewton(f, x0, J=J, constraint=tuple, norm=lambda v: abs(v[0]), mpfloat=float,
                             matrix=mpmath.matrix, Axb_solver=solve)
    ctx.raises(ValueError, "singular systems are reported", next, iter(it))


def missing(ctx):
    """Both need their parameters."""
    import scaks.solvers.rootfinding_iterators as R
    from scaks.errors.error import ParameterError
    full = dict(J=None, constraint=None, norm=None, mpfloat=None, matrix=None, Axb_solver=None)
    k = ctx.choice("k", sorted(full))
    del full[k]
    ctx.raises(ParameterError, "missing parameters are reported", R.ConstrainedNewton, None, (0.5,), **full)


def damped(ctx, n, steps, halvings, plain=False):
    """The norm decreases from iterate to iterate; each lies on its Newton step."""
    import scaks.solvers.rootfinding_iterators as R
    f = Fn(ctx, "f", n, limit=1 + steps * (halvings + 1), plain=plain)
    J = Jac(ctx, "J", n * n)
    kind = ctx.choice("x0 as", ["tuple", "list"])
    x0 = [ctx.real("x%d" % j, lo=0.125, hi=1) for j in range(n)]
    it = R.MDNewton(f, tuple(x0) if kind == "tuple" else list(x0), J=J, verbose=False)
    here = tuple(x0)

    def square(v):
        return sum(a * a for a in v)
    for k, (x, nrm, fx) in enumerate(it, 1):
        want = f(x)
        close(ctx, list(fx), want, "function value of the iterate")
        ctx.eq(nrm * nrm, square(want), "norm of the function value")
        ctx.check(nrm >= 0, "norm is not negative")
        Jx = J.known(here)
        ctx.check(Jx is not None, "Jacobian at the previous point")
        prev = f(here)
        ctx.check(isinstance(x, tuple) and len(x) == n, "an iterate is a tuple")
        d = [a - b for a, b in zip(x, here)]
        moved = not all(bool(v == 0) for v in d)
        if moved:
            ctx.check(square(want) < square(prev), "the norm decreases")
            # J d = -2**-j f for one of the halvings
            ok = []
            for j in range(60 if not ctx.symbolic else f.limit):
                ok.append(ctx.And(*[near(ctx, sum(Jx[n * i + c] * d[c] for c in range(n)) * 2 ** j, -prev[i])
                                    for i in range(n)]))
            ctx.check(ctx.Or(*ok), "a (halved) Newton step of the previous point")
        here = tuple(x)
        if not moved or k >= steps:
            break


def numeric(ctx, n):
    """Without a Jacobian the derivatives are taken numerically: exact for a linear system."""
    import mpmath
    import scaks.solvers.rootfinding_iterators as R
    A = [[ctx.real("a%d%d" % (i, j), lo=0.125, hi=4) for j in range(n)] for i in range(n)]
    b = [ctx.real("b%d" % i, lo=-4, hi=4) for i in range(n)]
    x0 = [ctx.real("x%d" % j, lo=0.125, hi=1) for j in range(n)]
    seen = []

    class Done(Exception):
        pass

    def f(x):
        x = list(x)
        ctx.check(len(x) == n, "the function is given a point")
        return [sum(A[i][j] * x[j] for j in range(n)) + b[i] for i in range(n)]

    def solve(M, v):
        seen.append((M, list(v)))
        raise Done()
    old, R.mp.lu_solve = R.mp.lu_solve, solve
    try:
        try:
            next(iter(R.MDNewton(f, tuple(x0), verbose=False)))
        except Done:
            pass
    finally:
        R.mp.lu_solve = old
    M, v = seen[0]
    close(ctx, v, [-y for y in f(x0)], "right-hand side at the start")
    for i in range(n):
        for j in range(n):
            ctx.eq(M[i, j], A[i][j], "derivative of the linear system", scale=1.0 if ctx.symbolic else 1e3)


class Rounded(object):
    """A point of limited precision: steps below the resolution vanish."""
    cols = 1

    def __init__(self, v, left):
        self.v, self.left = list(v), left

    def __add__(self, d):
        if self.left == 0:
            return Rounded(self.v, 0)
        self.left -= 1
        return Rounded([a + b for a, b in zip(self.v, list(d))], self.left)

    def __eq__(self, o):
        return all(bool(a == b) for a, b in zip(self.v, o.v))

    __hash__ = None

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]


def rounding(ctx, n, halvings):
    """Steps that vanish in the precision end the iteration at the last point."""
    import scaks.solvers.rootfinding_iterators as R
    f, J = Fn(ctx, "f", n, distinct=True), Jac(ctx, "J", n * n)
    k = ctx.choice("steps that still move the point", list(range(0, halvings + 1)))
    x0 = [ctx.real("x%d" % j, lo=0.125, hi=1) for j in range(n)]
    last = x0
    it = iter(R.MDNewton(f, Rounded(x0, k), J=J, verbose=False))
    for _ in range(k + 1):
        x, nrm, fx = next(it)
        want = f(x)
        close(ctx, list(fx), want, "function value of the iterate")
        ctx.eq(nrm * nrm, sum(a * a for a in want), "norm of the function value")
        if all(bool(a == b) for a, b in zip(x, last)):
            ctx.raises(StopIteration, "a stationary point ends the iteration", next, it)
            return
        ctx.check(sum(a * a for a in want) < sum(a * a for a in f(last)), "the norm decreases")
        last = list(x)
    ctx.check(False, "a stationary point ends the iteration")


def nonzero(ctx, x):
    return ctx.Or(x > 0, x < 0)


def near(ctx, a, b):
    if ctx.symbolic:
        return a == b
    return bool(abs(a - b) <= 1e-9 * max(1, abs(b)))


def differences(ctx, n, m, direction, repr_):
    """Finite differences use the documented step and direction."""
    from scaks.functions import numerical_jacobian
    f = Fn(ctx, "f", m, distinct=n > 1)
    x = [ctx.real("x%d" % j, lo=-3, hi=3) for j in range(n)]
    h = ctx.choice("h", [0.25, 1.0 / 1024])
    xs = mpmath.matrix(x) if ctx.choice("as matrix", [True, False]) else list(x)
    for v in x:                                # zero entries only change the storage of a matrix
        for k in (h, -h):
            ctx.assume(ctx.And(nonzero(ctx, v), nonzero(ctx, v + k), nonzero(ctx, v + k * v)))
    J = numerical_jacobian(f, xs, mpmath.matrix, num_repr=repr_, h=h, direction=direction)
    ctx.check(J.rows == m and J.cols == n, "shape")
    base = f(x)
    for j in range(n):
        d = abs(x[j]) * h
        if d < h:
            d = h
        at = list(x)
        at[j] = at[j] + d if direction == "right" else at[j] - d
        other = f(at)
        for i in range(m):
            s = 1 if direction == "right" else -1
            ctx.eq(J[i, j] * d, s * (other[i] - base[i]), "difference quotient")
    for a, b in zip(list(xs), x):
        ctx.eq(a, b, "the point is left alone")


SCENARIOS = [
    Scenario(numeric, [dict(n=1), dict(n=2)], [dict(n=3)], bounds=BOUNDS),
    Scenario(constrained, [dict(n=1, steps=3), dict(n=1, steps=8), dict(n=2, steps=2)], [dict(n=2, steps=7)], bounds=BOUNDS),
    Scenario(singular, bounds=BOUNDS),
    Scenario(missing, bounds=BOUNDS),
    Scenario(damped, [dict(n=1, steps=1, halvings=3), dict(n=1, steps=2, halvings=1), dict(n=2, steps=1, halvings=1),
                      dict(n=1, steps=1, halvings=1, plain=True)],
             [dict(n=1, steps=3, halvings=2), dict(n=2, steps=2, halvings=1)], bounds=BOUNDS),
    Scenario(rounding, [dict(n=1, halvings=2), dict(n=2, halvings=1)], [dict(n=1, halvings=3)], bounds=BOUNDS),
    Scenario(differences, [dict(n=1, m=1, direction="right", repr_="mpmath"), dict(n=2, m=2, direction="left", repr_="mpmath")],
             [dict(n=3, m=2, direction="right", repr_="mpmath")], bounds=BOUNDS),
]
