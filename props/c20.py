"""Degree of rate control."""
from engine.run import Scenario
from . import lib
from .c18 import constants
from .c19 import energies

BOUNDS = ("all rate energies in [-5, 5] eV, temperatures 100-2000 K, perturbations 0.0001-1 eV (and whole numbers up to 3), arbitrary perturbed steady "
          "states in [0.001, 0.3]; one to five steps")
OUTSIDE = "a vanishing turnover of the product; the search for the perturbed steady state (C16); rounding"


def start(ctx, mech):
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    model = lib.mk_model(lib.setup(m, T, p, c, perturbation_size=0.125))
    model.solver.get_data()
    return m, model, p, c, T


def stub(ctx, m, model, seen):
    s = model.solver

    def steady(c0=None, single_pt=False, relative_energies=None):
        x = tuple(ctx.real("ss%d_%s" % (len(seen), a), lo=0.001, hi=0.3, typ=(0.05, 0.3)) for a in m.ads)
        seen.append((c0, relative_energies, x, single_pt))
        s._coverages, s._error = x, 0.5
        s._good_guess = c0
        s.archive_data("steady_state_coverages", x)
        return x
    s.get_steady_state_cvgs = steady


def tof(m, kf, kr, x, p, c, gas):
    rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, x), p, c)
    t = 0.0
    for i in range(m.n):
        t = t + m.nu(i, gas) * (rf[i] - rr[i])
    return t


def control(ctx, mech, gas, given, default_eps):
    import scaks

    class P(object):
        @staticmethod
        def dump(d, f, *a):
            pass
    scaks.pickle = P
    m, model, p, c, T = start(ctx, mech)
    s = model.solver
    rel = energies(ctx, m, "a")
    if given:
        args = {"relative_energies": rel}
    else:
        model._relative_energies, model._has_relative_energy = rel, True
        args = {}
    eps = 0.125
    if default_eps == "int":
        eps = args["epsilon"] = ctx.int("eps", 1, 3)
    elif not default_eps:
        eps = args["epsilon"] = ctx.real("eps", lo=0.0001, hi=1, typ=(0.001, 0.1))
    seen = []
    stub(ctx, m, model, seen)
    x0 = tuple(ctx.real("c_" + a, lo=0.001, hi=0.3, typ=(0.05, 0.3)) for a in m.ads)
    s._coverages, s._error, s._good_guess = x0, 0.25, x0
    s.archive_data("steady_state_coverages", x0)
    kf, kr = constants(ctx, rel["Gaf"], rel["dG"], T)
    r = tof(m, kf, kr, x0, p, c, gas)
    ctx.assume(ctx.Or(r > 1e-6, r < -1e-6))
    old = {k: list(v) for k, v in rel.items()}
    got = s.get_single_XRC(gas, **args)
    ctx.check(len(got) == m.n, "one value per step")
    ctx.check(len(seen) == m.n, "one perturbed steady state per step")
    for i in range(m.n):
        c0, e, x, single = seen[i]
        for k in ("Gaf", "Gar"):
            ctx.check(len(e[k]) == m.n, "energies of every step")
            for j in range(m.n):
                ctx.eq(e[k][j], rel[k][j] + (eps if i == j else 0), "both barriers of this step alone are shifted")
        for a, b in zip(c0, x0):
            ctx.eq(a, b, "search starts from the converged coverages")
        kf2, kr2 = constants(ctx, [g + (eps if j == i else 0) for j, g in enumerate(rel["Gaf"])], rel["dG"], T)
        r2 = tof(m, kf2, kr2, x, p, c, gas)
        ctx.eq(got[i] * r * (kf2[i] - kf[i]), kf[i] * (r2 - r), "degree of rate control",
               scale=kf[i] * (abs(r) + abs(r2)) if not ctx.symbolic else None)
    for k in rel:
        for a, b in zip(rel[k], old[k]):
            ctx.check(a is b or a == b, "energies are not changed")
    ctx.check(len(s._coverages) == len(x0) and all(a is b for a, b in zip(s.coverages, x0)),
              "converged coverages are kept")
    ctx.check(s._error == 0.25, "converged error is kept")
    ctx.check(all(a is b for a, b in zip(s._archived_data_dict["steady_state_coverages"], x0)),
              "archive is kept")


def without_state(ctx):
    m, model, p, c, T = start(ctx, "one")
    rel = energies(ctx, m, "a")
    ctx.raises(AttributeError, "rate control needs converged coverages", model.solver.get_single_XRC,
               "CO_g", relative_energies=rel)


def failing(ctx):
    """The converged state is kept also when a perturbed search fails."""
    m, model, p, c, T = start(ctx, "co_ox")
    s = model.solver
    rel = energies(ctx, m, "a")
    x0 = tuple(ctx.real("c_" + a, lo=0.001, hi=0.3, typ=(0.05, 0.3)) for a in m.ads)
    s._coverages, s._error = x0, 0.25
    n = []

    def steady(c0=None, single_pt=False, relative_energies=None):
        n.append(1)
        s._coverages = tuple(0.0 for _ in m.ads)
        raise ValueError("search failed")
    s.get_steady_state_cvgs = steady
    ctx.raises(ValueError, "a failed search is reported", s.get_single_XRC, "CO2_g", relative_energies=rel)
    ctx.check(all(a is b for a, b in zip(s.coverages, x0)), "converged coverages are kept")


SCENARIOS = [
    Scenario(control, [dict(mech="one", gas="CO_g", given=True, default_eps=False),
                       dict(mech="one", gas="CO_g", given=False, default_eps="int"),
                       dict(mech="uni", gas="CO_g", given=False, default_eps=False),
                       dict(mech="co_ox", gas="CO2_g", given=True, default_eps=True),
                       dict(mech="liquid", gas="H2_g", given=False, default_eps=True),
               dict(mech="assoc", gas="O2_g", given=True, default_eps=False)],
             [dict(mech="co_ox", gas="O2_g", given=False, default_eps=False),
              dict(mech="two_gas", gas="CO_g", given=True, default_eps=False),
              dict(mech="two_site", gas="HCOH_g", given=True, default_eps=True)], bounds=BOUNDS),
    Scenario(without_state, bounds="fixed"),
    Scenario(failing, bounds=BOUNDS),
]
