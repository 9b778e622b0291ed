"""Collision-theory rate constants."""
from engine.run import Scenario
from . import lib

BOUNDS = ("all barriers in [-5, 5] eV, temperatures 100..2000 K, pressures, areas and masses > 0, "
          "active ratio and steering factor in (0, 3]")
OUTSIDE = "species whose mass is not tabulated"


def formula(ctx):
    from scaks.solvers.solver_base import SolverBase
    from scaks.database.thermo_data import kB_eV, kB_J, h_eV
    from scaks.errors.error import ParameterError
    Ea = ctx.real("Ea", lo=-5, hi=5, typ=(0.0, 1.0))
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    A = ctx.real("A", positive=True, typ=(0.1, 1.0))
    m = ctx.real("m", positive=True, typ=(0.1, 1.0))
    p = ctx.real("p", positive=True, typ=(0.1, 2.0))
    r = ctx.real("r", lo=0.01, hi=3, typ=(0.05, 1.5))
    f = ctx.real("f", lo=0.01, hi=3, typ=(0.05, 1.5))
    # realistic magnitudes
    A1, m1, p1 = A * 1e-19, m * 1e-26, p * 1e5
    try:
        k = SolverBase.get_kCT(Ea, A1, r, m1, T, p=p1, f=f)
    except ParameterError:
        ctx.check(ctx.Or(r > 1, f > 1), "only ratios above one are rejected")
        return
    ctx.check(ctx.And(r <= 1, f <= 1), "ratios above one are rejected")
    flux = p1 * A1 / ctx.sqrt(2 * 3.141592653589793 * m1 * kB_J * T)
    ctx.eq(k, f * r * ctx.exp(-Ea / (kB_eV * T)) * flux, "collision rate formula")
    ctx.lt(0, k, "collision rate is positive")
    ctx.eq(SolverBase.get_kCT(Ea, A1, r, m1, T, f=f) * p1,
           SolverBase.get_kCT(Ea, A1, r, m1, T, p=p1, f=f) * 101325, "proportional to pressure")
    ctx.eq(SolverBase.get_kCT(Ea, A1, r, m1, T, p=p1) * f, k, "steering factor defaults to one")
    if Ea >= 0:
        ctx.le(k, flux, "no more reactive than collisions")
    G = SolverBase.get_TST_barrier_from_CT(k, T)
    ctx.eq(kB_eV * T / h_eV * ctx.exp(-G / (kB_eV * T)), k, "equivalent TST barrier reproduces the rate")


def inverse(ctx):
    from scaks.database.thermo_data import kB_eV, h_eV
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    G = ctx.real("G", lo=-5, hi=5, typ=(0.0, 1.0))
    model = lib.mk_model(lib.setup(lib.MECHS["one"], T=T))
    k = model.solver.get_kTST(G, T)
    ctx.eq(model.solver.get_TST_barrier_from_CT(k, T), G, "barrier of a TST rate", scale=1.0)


def reaction(ctx, expr, side, gas, stoich, include):
    """Rates of one reaction: adsorption by collisions, everything else by TST,
    forward and reverse tied together by the free energy of reaction."""
    from scaks.database.thermo_data import kB_eV, kB_J, h_eV
    from scaks.parsers.parser_base import ParserBase
    m = lib.Mech("m", [expr, "CO_s -> CO_g + *_s"])
    p, c, T = lib.symbolic_conditions(ctx, m, lo_T=310, hi_T=1500)
    for g in p:
        ctx.assume(p[g] < 1000)
    A = ctx.real("A", positive=True, typ=(0.1, 1.0))
    r = ctx.real("r", lo=0.01, hi=1, typ=(0.05, 1.0))
    Ga = ctx.real("Ga", lo=0, hi=5, typ=(0.0, 1.0))
    dG = ctx.real("dG", lo=-5, hi=5, typ=(-1.5, 0.5))
    model = lib.mk_model(lib.setup(m, T=T, p=p, c=c, rate_algo="CT", active_ratio=r,
                                   unitcell_area=A * 1e-19))
    rel = {"Gaf": [Ga, Ga], "Gar": [Ga - dG, Ga - dG], "dG": [dG, dG]}
    kf, kr = model.solver.get_rxn_rates_CT(expr, rel, include_pressure=include)
    tst = lambda G: kB_eV * T / h_eV * ctx.exp(-G / (kB_eV * T))
    if side is None:
        ctx.eq(kf, tst(Ga), "surface step: TST forward")
        ctx.eq(kr, tst(Ga - dG), "surface step: TST reverse")
        return
    P = 101325 * (p[gas] if include else 1)
    mass = ParserBase.get_molecular_mass(gas[:-2], absolute=True)
    s = model.corrector.entropy_correction(gas, mass, P, T)
    if side == "ads":
        flux = r * ctx.exp(-Ga / (kB_eV * T)) * P * A * 1e-19 / ctx.sqrt(
            2 * 3.141592653589793 * mass * kB_J * T)
        ctx.eq(kf, flux, "adsorption rate from collisions")
        dGc = dG - stoich * s
        limit = tst(0)
        want = kf * ctx.exp(dGc / (kB_eV * T))
        # energy left above the desorbed state at the collision-equivalent barrier
        if -kB_eV * T * ctx.log(kf * h_eV / (kB_eV * T)) - dGc >= 0:
            ctx.eq(kr, want, "desorption obeys detailed balance")
        else:
            ctx.eq(kr, limit, "desorption never exceeds the barrierless rate")
    else:
        ctx.eq(kf, tst(Ga), "desorption: TST forward")
        ctx.eq(kr, tst(Ga - dG - stoich * s), "desorption: reverse rate includes the gas entropy")
    ctx.lt(0, kf, "forward rate positive")
    ctx.lt(0, kr, "reverse rate positive")


def guards(ctx):
    m = lib.MECHS["one"]
    A = ctx.real("A", lo=-5, hi=5)
    model = lib.mk_model(lib.setup(m, rate_algo="CT", unitcell_area=A))
    rel = {"Gaf": [0.0], "Gar": [0.5], "dG": [-0.5]}
    try:
        model.solver.get_rxn_rates_CT(m.exprs[0], rel)
        ctx.check(A > 0, "area must be positive")
    except AttributeError:
        ctx.check(A <= 0, "positive area accepted")


SCENARIOS = [
    Scenario(formula, bounds=BOUNDS),
    Scenario(inverse, bounds=BOUNDS),
    Scenario(reaction, [
        dict(expr="CO_g + *_s -> CO_s", side="ads", gas="CO_g", stoich=1, include=True),
        dict(expr="CO_g + *_s -> CO_s", side="ads", gas="CO_g", stoich=1, include=False),
        dict(expr="O2_g + 2*_s -> 2O_s", side="ads", gas="O2_g", stoich=1, include=True),
        dict(expr="CO2_s -> CO2_g + *_s", side="des", gas="CO2_g", stoich=1, include=True),
        dict(expr="CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s", side="des", gas="CO2_g", stoich=1,
             include=False),
        dict(expr="CO_s + *_s <-> C-O_s + *_s -> C_s + O_s", side=None, gas=None, stoich=0, include=True),
        dict(expr="2CO_g + 2*_s -> 2CO_s", side="ads", gas="CO_g", stoich=2, include=False),
        dict(expr="2CO_s -> 2CO_g + 2*_s", side="des", gas="CO_g", stoich=2, include=False),
        dict(expr="2CO_g + 2*_s -> 2CO_s", side="ads", gas="CO_g", stoich=2, include=True),
        dict(expr="2CO_s -> 2CO_g + 2*_s", side="des", gas="CO_g", stoich=2, include=True)],
        [dict(expr="H2O_s -> H2O_g + *_s", side="des", gas="H2O_g", stoich=1, include=True),
         dict(expr="N2_g + 2*_s <-> N-N_2s -> 2N_s", side="ads", gas="N2_g", stoich=1, include=True)],
        bounds=BOUNDS),
    Scenario(guards, bounds=BOUNDS),
]
