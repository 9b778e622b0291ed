"""Reaction rates follow the law of mass action."""
from engine.run import Scenario
from . import lib

BOUNDS = ("mechanisms of the library (up to 5 reactions, 9 adsorbates, 2 kinds of sites), all rate "
          "energies in [-5, 5] eV, coverages in [-1, 2] each (sites may be over- or underfull, as the root search may visit), site "
          "totals and pressures/concentrations > 0")
OUTSIDE = "adsorbates spanning several sites in the free-site balance; rounding"


def energies(ctx, m):
    Ga = [ctx.real("Ga%d" % i, lo=-5, hi=5, typ=(0.05, 0.6)) for i in range(m.n)]
    dG = [ctx.real("dG%d" % i, lo=-5, hi=5, typ=(-0.4, 0.4)) for i in range(m.n)]
    return {"Gaf": Ga, "dG": dG, "Gar": [a - b for a, b in zip(Ga, dG)]}


def prepare(ctx, mech, **extra):
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    total = {s: ctx.real("tot_" + s, lo=0.01, hi=1, typ=(0.3, 1.0)) for s in m.sites}
    model = lib.mk_model(lib.setup(m, T, p, c, total, **extra))
    model.solver.get_data()
    rel = energies(ctx, m)
    th = [ctx.real("th_" + a, lo=-1, hi=2, typ=(0.02, 0.3)) for a in m.ads]
    return m, model, p, c, total, rel, th


def rates(ctx, mech, source):
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    if source == "model":
        lib.give_energies(model, Gaf=rel["Gaf"], dG=rel["dG"])
        kf, kr = s.get_rate_constants()
        rf, rr = s.get_rates(tuple(th))
    else:
        kf, kr = s.get_rate_constants(relative_energies=rel)
        rf, rr = s.get_rates(tuple(th), relative_energies=rel)
    theta = lib.theta_of(m, th, total)
    wf, wr = lib.rates_of(m, kf, kr, theta, p, c)
    ctx.check_list(rf, wf, "forward rates")
    ctx.check_list(rr, wr, "reverse rates")


def net(ctx, mech):
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    kf, kr = s.get_rate_constants(relative_energies=rel)
    theta = lib.theta_of(m, th, total)
    wf, wr = lib.rates_of(m, kf, kr, theta, p, c)
    got = s.get_net_rates(tuple(th), relative_energies=rel)
    ctx.check(len(got) == m.n, "one net rate per reaction")
    for i in range(m.n):
        ctx.eq(got[i], wf[i] - wr[i], "net rate", scale=wf[i] + wr[i])


def reversibilities(ctx, n):
    m = lib.MECHS[{1: "one", 2: "uni", 3: "co_ox"}[n]]
    model = lib.mk_model(lib.setup(m))
    rf = [ctx.real("rf%d" % i, positive=True) for i in range(n)]
    rr = [ctx.real("rr%d" % i) for i in range(n)]
    got = model.solver.get_reversibilities(rf, rr)
    ctx.check(len(got) == n, "one per reaction")
    for i in range(n):
        ctx.eq(got[i] * rf[i], rr[i], "reversibility = reverse rate / forward rate")
        ctx.check(ctx.Or(ctx.Not(rf[i] == rr[i]), got[i] == 1), "equilibrated reaction has reversibility one")
    for a, b in ((rf + [1.0], rr), (rf, rr + [1.0]), (rf, rr[1:])):
        ctx.raises(ValueError, "different numbers of rates are rejected",
                   model.solver.get_reversibilities, a, b)


def equilibrium(ctx, mech):
    """When the coverages satisfy every equilibrium relation no reaction proceeds."""
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    from scaks.database.thermo_data import kB_eV
    model = lib.mk_model(lib.setup(m, T, p, c))
    model.solver.get_data()
    # free energies of every species relative to the bare surface
    dG = [ctx.real("dG0", lo=-2, hi=2, typ=(-0.3, 0.3))]
    Ga = [ctx.real("Ga0", lo=-5, hi=5, typ=(0.05, 0.6))]
    rel = {"Gaf": Ga, "dG": dG, "Gar": [Ga[0] - dG[0]]}
    g = m.gas[0]
    K = ctx.exp(-dG[0] / (kB_eV * T))
    x = K * p[g] / (1 + K * p[g])
    rf, rr = model.solver.get_rates((x,), relative_energies=rel)
    ctx.eq(rf[0], rr[0], "Langmuir coverage equilibrates adsorption")


ALL = ["co_ox", "one", "dissoc", "two_site", "liquid", "auto", "both_sides", "repeat", "apart", "tri", "mixed", "liq2", "powers", "long", "three_sites", "helper"]
SCENARIOS = [
    Scenario(rates, [dict(mech=k, source="given") for k in ALL] +
             [dict(mech="co_ox", source="model"), dict(mech="liquid", source="model")],
             [dict(mech=k, source="model") for k in ("assoc", "two_gas", "uni", "mixed", "two_site")],
             bounds=BOUNDS),
    Scenario(net, [dict(mech=k) for k in ("co_ox", "two_site", "liquid", "tri")],
             [dict(mech=k) for k in lib.MECHS], bounds=BOUNDS),
    Scenario(reversibilities, [dict(n=1), dict(n=2)], [dict(n=3)], bounds="rates > 0 forward, any reverse"),
    Scenario(equilibrium, [dict(mech="one")], bounds=BOUNDS),
]
