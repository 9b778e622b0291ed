"""Boltzmann starting coverages."""
from engine.run import Scenario
from . import lib

BOUNDS = "all free energies in [-5, 5] eV, temperatures 100-2000 K, mechanisms with up to 4 adsorbates and two kinds of sites"
OUTSIDE = "larger mechanisms; rounding"


def model_of(ctx, mech, lo=-5, hi=5):
    m = lib.MECHS[mech]
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    names = m.ads + m.gas + m.liq + m.sites + m.ts
    E = {n: 0.0 for n in names}
    for n in m.ads + m.sites:
        E[n] = ctx.real("E_" + n, lo=lo, hi=hi, typ=(-0.3, 0.3))
    model = lib.mk_model(lib.setup(m, T, parser="AbsoluteEnergyParser"))
    model.parser._owner._absolute_energies = E
    model.parser._owner._has_absolute_energy = True
    return m, model, T, E


def distribution(ctx, mech, empty):
    from scaks.database.thermo_data import kB_eV
    m, model, T, E = model_of(ctx, mech)
    out = model.solver.boltzmann_coverages(include_empty_site=empty) if not empty else \
        model.solver.boltzmann_coverages()
    ctx.check(len(out) == len(m.ads), "one coverage per adsorbate")
    t = 0.0
    for i, a in enumerate(m.ads):
        ctx.check(out[i] > 0, "coverages are positive")
        w = ctx.exp(-E[a] / (kB_eV * T))
        w0 = ctx.exp(-E[m.ads[0]] / (kB_eV * T))
        ctx.eq(out[i] * w0, out[0] * w, "ratio is the Boltzmann factor", scale=out[0] * w)
        t = t + out[i]
    if empty:
        for s in m.sites:
            # coverage of the empty sites, from their own Boltzmann factor
            t = t + out[0] * ctx.exp((E[m.ads[0]] - E[s]) / (kB_eV * T))
    ctx.eq(t, 1, "coverages (and empty sites) add up to one")


def from_file(ctx, mech):
    """Energies that arrive through the parser."""
    from scaks.database.thermo_data import kB_eV
    m = lib.MECHS[mech]
    names = m.ads + m.gas + m.liq + m.sites + m.ts
    E = {n: ctx.real("E_" + n, lo=-5, hi=5, typ=(-0.3, 0.3)) for n in names}
    model = lib.mk_model(lib.setup(m, parser="AbsoluteEnergyParser"))
    model.parser.parse_data(filename=ctx.module("abs.py", absolute_energies=E))
    out = model.solver.boltzmann_coverages()
    kT = kB_eV * 500.0
    z = 0.0
    for n in m.ads + m.sites:
        z = z + ctx.exp(-E[n] / kT)
    for i, a in enumerate(m.ads):
        ctx.eq(out[i] * z, ctx.exp(-E[a] / kT), "Boltzmann coverage", scale=z)


def without_energies(ctx):
    m = lib.MECHS["co_ox"]
    model = lib.mk_model(lib.setup(m))
    lib.give_energies(model, Gaf=[ctx.real("a", lo=0, hi=2) for _ in range(1)] + [0.0, 1.0], dG=[-0.1, -0.2, -0.3])
    ctx.raises(IOError, "no absolute energies: rejected", model.solver.boltzmann_coverages)


SCENARIOS = [
    Scenario(distribution, [dict(mech=k, empty=e) for k in ("one", "co_ox", "two_site") for e in (True, False)],
             [dict(mech=k, empty=e) for k in ("mixed", "liquid", "dissoc") for e in (True, False)], bounds=BOUNDS),
    Scenario(from_file, [dict(mech="co_ox")], [dict(mech="liquid")], bounds=BOUNDS),
    Scenario(without_energies, bounds="relative energies only"),
]
