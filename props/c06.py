"""Relative energies derived from absolute energies."""
from engine.run import Scenario
from . import lib

BOUNDS = "every real absolute energy in [-100, 100] eV for all species of each mechanism"
OUTSIDE = "mechanisms outside the library of 13"


def from_absolute(ctx, mech, pad):
    m = lib.MECHS[mech]
    names = m.ads + m.gas + m.liq + m.sites + m.ts
    E = {n: ctx.real("E_" + n, lo=-100, hi=100, typ=(-3.0, 3.0)) for n in names}
    if pad:
        E2 = dict(E)
        E2["unused_s"] = 1.0
        fn = ctx.module("abs.py", absolute_energies=E2, comment="x")
    else:
        fn = ctx.module("abs.py", absolute_energies=E)
    model = lib.mk_model(lib.setup(m, parser="AbsoluteEnergyParser"))
    model.parser.parse_data(filename=fn)
    ctx.check(model.has_absolute_energy is True and model.has_relative_energy is True, "flags")
    for n in names:
        ctx.eq(model.absolute_energies[n], E[n], "absolute energies kept")
    r = model.relative_energies
    ctx.check(all(len(r[k]) == m.n for k in ("Gaf", "Gar", "dG")), "one entry per reaction")
    for i, states in enumerate(m.rxns):
        G = []
        for st in states:
            s = 0.0
            for n, k in st.items():
                s = s + k * E[n]
            G.append(s)
        ctx.eq(r["dG"][i], G[-1] - G[0], "dG = G(FS) - G(IS)", scale=100)
        ctx.eq(r["Gaf"][i] - r["Gar"][i], r["dG"][i], "Gaf - Gar = dG", scale=100)
        if len(states) == 3:
            ctx.eq(r["Gaf"][i], G[1] - G[0], "Gaf = G(TS) - G(IS)", scale=100)
            ctx.eq(r["Gar"][i], G[1] - G[2], "Gar = G(TS) - G(FS)", scale=100)
        elif G[1] > G[0]:
            ctx.eq(r["Gaf"][i], G[1] - G[0], "uphill step without a TS: Gaf = dG", scale=100)
            ctx.eq(r["Gar"][i], 0, "uphill step without a TS: Gar = 0", scale=100)
        else:
            ctx.eq(r["Gaf"][i], 0, "downhill step without a TS: Gaf = 0", scale=100)
            ctx.eq(r["Gar"][i], G[0] - G[1], "downhill step without a TS: Gar = -dG", scale=100)


def zero_of_energy(ctx, mech):
    """Shifting the reference of one gas phase element only moves reaction energies
    consistently: around a closed cycle the total is path independent."""
    m = lib.MECHS[mech]
    names = m.ads + m.gas + m.liq + m.sites + m.ts
    E = {n: ctx.real("E_" + n, lo=-100, hi=100, typ=(-3.0, 3.0)) for n in names}
    model = lib.mk_model(lib.setup(m, parser="AbsoluteEnergyParser"))
    model.parser.parse_data(filename=ctx.module("abs.py", absolute_energies=E))
    r = model.relative_energies
    ctx.eq(r["dG"][0] + r["dG"][1], 0, "dG of a reaction and its reverse cancel", scale=100)
    for a, b in (("Gaf", "Gar"), ("Gar", "Gaf")):
        ctx.eq(r[a][0], r[b][1], "barriers of a reaction and its reverse are swapped", scale=100)


SCENARIOS = [
    Scenario(from_absolute, [dict(mech=k, pad=i % 2) for i, k in enumerate(
        ["one", "co_ox", "dissoc", "two_site", "liquid", "repeat", "tri", "both_sides", "mixed"])],
             [dict(mech=k, pad=0) for k in ("assoc", "auto", "two_gas", "uni")], bounds=BOUNDS),
    Scenario(zero_of_energy, [dict(mech="uni"), dict(mech="mixed")], bounds=BOUNDS),
]
