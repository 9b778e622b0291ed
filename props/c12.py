"""The analytical Jacobian is the derivative of the rates of change."""
from engine.run import Scenario
from . import lib
from .c10 import prepare, BOUNDS as B10

BOUNDS = B10
OUTSIDE = "rounding; adsorbates spanning several sites in the free-site balance"


def derivatives(ctx, f, th, prefix, names):
    """J[i][j] = d f_i / d th_j."""
    if ctx.symbolic:
        val = f(tuple(th))
        return [[ctx.derive(v, prefix + a) for a in names] for v in val]
    import mpmath
    out = []
    h = mpmath.mpf(10) ** -20
    for j in range(len(th)):
        hi, lo = list(th), list(th)
        hi[j], lo[j] = mpmath.mpf(th[j]) + h, mpmath.mpf(th[j]) - h
        out.append([(a - b) / (2 * h) for a, b in zip(f(tuple(hi)), f(tuple(lo)))])
    return [list(r) for r in zip(*out)]


def jacobian(ctx, mech):
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    J = s.analytical_jacobian(tuple(th), relative_energies=rel)
    D = derivatives(ctx, lambda x: s.steady_state_function(x, relative_energies=rel), th, "th_", m.ads)
    n = len(m.ads)
    ctx.check(J.rows == n and J.cols == n, "square")
    kf, kr = s.get_rate_constants(relative_energies=rel)
    scale = sum(kf) + sum(kr)
    for i in range(n):
        for j in range(n):
            ctx.eq(J[i, j], D[i][j], "Jacobian entry", scale=scale)


def derivation(ctx, mech):
    """Derivative expressions of single polynomials."""
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    theta = lib.theta_of(m, th, total)
    kf = [ctx.real("kf%d" % i, positive=True) for i in range(m.n)]
    kr = [ctx.real("kr%d" % i, positive=True) for i in range(m.n)]

    def f(x, e):
        return (eval(e, {"kf": kf, "kr": kr, "p": p, "c": c, "theta": lib.theta_of(m, list(x), total)}),)
    for e in m.exprs:
        for r in s.get_elementary_rate_expression(e):
            D = derivatives(ctx, lambda x: f(x, r), th, "th_", m.ads)[0]
            for j, a in enumerate(m.ads):
                d = s.poly_adsorbate_derivation(adsorbate_name=a, poly_expression="dtheta_dt[0] = " + r)
                got = eval(d, {"kf": kf, "kr": kr, "p": p, "c": c, "theta": theta})
                ctx.eq(got, D[j], "derivative of a rate", scale=sum(kf) + sum(kr))


def finite_difference(ctx, direction, n):
    """The numerical Jacobian is the quotient of the finite differences in the direction asked for."""
    import mpmath
    from scaks.functions import numerical_jacobian
    a = [[1.0 + (3 * i + 5 * j) / 4.0 for j in range(n)] for i in range(n)]
    x = [ctx.real("x%d" % j, lo=-2, hi=2, typ=(0.25, 1.0)) for j in range(n)]
    h = ctx.real("h", lo=2.0 ** -20, hi=1, typ=(0.01, 0.5))

    def f(v):
        v = list(v)
        return [64.0 + sum(a[i][j] * v[j] for j in range(n)) + v[i] * v[(i + 1) % n] / 8 for i in range(n)]
    J = numerical_jacobian(f, mpmath.matrix(x), mpmath.matrix, "mpmath", h=h, direction=direction)
    ctx.check(J.rows == n and J.cols == n, "square")
    for j in range(n):
        ax = x[j] if x[j] > 0 else -x[j]
        d = h * ax if ax > 1 else h
        d = -d if direction == "left" else d
        y = list(x)
        y[j] = y[j] + d
        for i, (u, v) in enumerate(zip(f(y), f(x))):
            ctx.eq(J[i, j] * d, u - v, "finite difference", scale=10)


def wrong_size(ctx):
    from scaks.errors.error import ParameterError
    m, model, p, c, total, rel, th = prepare(ctx, "co_ox")
    for bad in (tuple(th[:1]), tuple(th) + (0.1,)):
        ctx.raises((ParameterError, KeyError, IndexError), "wrong number of coverages is rejected",
                   model.solver.analytical_jacobian, bad, relative_energies=rel)


ALL = ["co_ox", "one", "dissoc", "two_site", "liquid", "auto", "both_sides", "repeat", "apart", "tri", "mixed", "liq2", "twelve", "helper"]
SCENARIOS = [
    Scenario(jacobian, [dict(mech=k) for k in ALL], [dict(mech=k) for k in ("assoc", "two_gas", "uni")],
             bounds=BOUNDS),
    Scenario(derivation, [dict(mech=k) for k in ("co_ox", "dissoc", "repeat", "both_sides", "auto")],
             [dict(mech=k) for k in lib.MECHS if k != "powers"], bounds=BOUNDS),
    Scenario(finite_difference, [dict(direction=d, n=n) for d in ("left", "right") for n in (1, 2)],
             [dict(direction=d, n=3) for d in ("left", "right")], bounds="every point in [-2, 2] and step in [2^-20, 1], quadratic functions"),
    Scenario(wrong_size, bounds=BOUNDS),
]
