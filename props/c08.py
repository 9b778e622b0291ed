"""Transition-state-theory rate constants."""
from engine.run import Scenario
from . import lib

BOUNDS = ("mechanisms of up to 5 reactions, all barriers/reaction energies in [-5, 5] eV, "
          "temperature 100..2000 K, pressures > 0; all real values")
OUTSIDE = "temperatures <= 0; rounding of floating-point arithmetic"


def energies(ctx, n, nonneg=True):
    Ga = [ctx.real("Ga%d" % i, lo=0 if nonneg else -5, hi=5, typ=(0.05, 0.8)) for i in range(n)]
    dG = [ctx.real("dG%d" % i, lo=-5, hi=5, typ=(-0.4, 0.4)) for i in range(n)]
    return Ga, dG


def rate_constants(ctx, mech):
    from scaks.database.thermo_data import kB_eV, h_eV
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    Ga, dG = energies(ctx, m.n)
    model = lib.mk_model(lib.setup(m, T, p, c))
    rel = {"Gaf": Ga, "Gar": [a - b for a, b in zip(Ga, dG)], "dG": dG}
    kf, kr = model.solver.get_rate_constants(relative_energies=rel)
    ctx.check(len(kf) == m.n and len(kr) == m.n, "one pair per reaction")
    for i in range(m.n):
        pre = kB_eV * T / h_eV
        ctx.eq(kf[i], pre * ctx.exp(-Ga[i] / (kB_eV * T)), "kf formula")
        ctx.eq(kr[i], pre * ctx.exp(-(Ga[i] - dG[i]) / (kB_eV * T)), "kr formula")
        ctx.lt(0, kf[i], "kf positive")
        ctx.lt(0, kr[i], "kr positive")
        ctx.eq(kf[i], kr[i] * ctx.exp(-dG[i] / (kB_eV * T)), "detailed balance")


def barrier(ctx, kmc):
    """A larger barrier gives no larger constant, nor does a negative one break the formula."""
    from scaks.database.thermo_data import kB_eV, h_eV
    from scaks.solvers.solver_base import SolverBase
    m = lib.MECHS["one"]
    model = lib.mk_model(lib.setup(m))
    if kmc:
        class Plain(SolverBase):
            pass
        solver = Plain(model)
    else:
        solver = model.solver
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    a = ctx.real("Ga", lo=-5, hi=5, typ=(-0.5, 0.8))
    b = ctx.real("Gb", lo=-5, hi=5, typ=(-0.5, 0.8))
    ka, kb = solver.get_kTST(a, T), solver.get_kTST(b, T)
    ctx.eq(ka, kB_eV * T / h_eV * ctx.exp(-a / (kB_eV * T)), "formula")
    ctx.lt(0, kb, "positive")
    ctx.check(ctx.Implies(a <= b, ka >= kb), "a larger barrier gives no larger constant")


def own(ctx, mech, absolute, log=False):
    """The model's own energies are used when none are given, and given ones win."""
    from scaks.database.thermo_data import kB_eV, h_eV
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    if absolute:
        model = lib.mk_model(lib.setup(m, T, p, c, parser="AbsoluteEnergyParser"))
        e = {}
        for x in dict.fromkeys(list(m.ads) + list(m.sites) + list(m.gas) + list(m.liq) + list(model.transition_state_names)):
            e[x] = 0.0 if x in m.sites else ctx.real("E_" + x, lo=-3, hi=3)
        ctx.module("abs.py", absolute_energies=e)
        model.parser.parse_data(filename="abs.py")
        rel = model.relative_energies
        Gf, Gr = list(rel["Gaf"]), list(rel["Gar"])
    else:
        model = lib.mk_model(lib.setup(m, T, p, c))
        ctx.raises(AttributeError, "energies are needed", model.solver.get_rate_constants)
        Ga, dG = energies(ctx, m.n)
        lib.give_energies(model, Ga, dG=dG)
        rel = model.relative_energies           # input rules: C05
        Gf, Gr = list(rel["Gaf"]), list(rel["Gar"])
    kf, kr = model.solver.get_rate_constants(log=log)
    ctx.check(len(kf) == m.n and len(kr) == m.n, "one pair per reaction")
    for i in range(m.n):
        pre = kB_eV * T / h_eV
        ctx.eq(kf[i], pre * ctx.exp(-Gf[i] / (kB_eV * T)), "kf formula")
        ctx.eq(kr[i], pre * ctx.exp(-Gr[i] / (kB_eV * T)), "kr formula")
    x, y = ctx.real("x", lo=0, hi=3), ctx.real("y", lo=0, hi=3)
    kf, kr = model.solver.get_rate_constants(relative_energies={"Gaf": [x] * m.n, "Gar": [y] * m.n, "dG": [x - y] * m.n})
    for i in range(m.n):
        ctx.eq(kf[i], pre * ctx.exp(-x / (kB_eV * T)), "given energies win")
        ctx.eq(kr[i], pre * ctx.exp(-y / (kB_eV * T)), "given energies win")


SCENARIOS = [
    Scenario(barrier, [dict(kmc=False), dict(kmc=True)], bounds=BOUNDS),
    Scenario(own, [dict(mech="co_ox", absolute=False, log=True), dict(mech="one", absolute=True), dict(mech="dissoc", absolute=True)],
             [dict(mech="two_site", absolute=True), dict(mech="assoc", absolute=False)], bounds=BOUNDS),
    Scenario(rate_constants, [{"mech": "co_ox"}, {"mech": "liquid"}],
             [{"mech": k} for k in ("assoc", "two_site", "both_sides", "tri", "dissoc")], bounds=BOUNDS),
]
