"""Turnover frequencies and stoichiometry matrices."""
from engine.run import Scenario
from . import lib
from .c10 import prepare, BOUNDS as B10

BOUNDS = B10
OUTSIDE = "rounding"


def expected(m, kf, kr, theta, p, c, fluid):
    rf, rr = lib.rates_of(m, kf, kr, theta, p, c)
    out = []
    for f in fluid:
        t = 0.0
        for i in range(m.n):
            t = t + m.nu(i, f) * (rf[i] - rr[i])
        out.append(t)
    return out, sum(rf) + sum(rr)


def tof(ctx, mech):
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    fluid = m.gas + m.liq
    ctx.check(list(model.gas_names) == m.gas and list(model.liquid_names) == m.liq, "fluid names")
    kf, kr = s.get_rate_constants(relative_energies=rel)
    want, scale = expected(m, kf, kr, lib.theta_of(m, th, total), p, c, fluid)
    got = s.get_tof(tuple(th), relative_energies=rel)
    ctx.check(len(got) == len(fluid), "one turnover frequency per fluid species")
    for g, w in zip(got, want):
        ctx.eq(g, w, "turnover frequency", scale=10 * scale)


def by_name(ctx, mech):
    from scaks.errors.error import ParameterError
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    lib.give_energies(model, Gaf=rel["Gaf"], dG=rel["dG"])
    kf, kr = s.get_rate_constants()
    want, scale = expected(m, kf, kr, lib.theta_of(m, th, total), p, c, m.gas)
    for g, w in zip(m.gas, want):
        ctx.eq(s.get_tof(tuple(th), gas_name=g), w, "turnover frequency selected by name", scale=10 * scale)
    for bad in ("XY_g", m.sites[0], m.ads[0], ""):
        ctx.raises(ParameterError, "unknown gas name is rejected", s.get_tof, tuple(th), gas_name=bad)
    # asking again gives the same numbers (nothing is accumulated)
    for g, w in zip(s.get_tof(tuple(th)), want):
        ctx.eq(g, w, "turnover frequency asked again", scale=10 * scale)


def matrices(ctx, mech):
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m))
    for _ in range(2):
        site, rea = model.parser.get_stoichiometry_matrices()
        cols = m.sites + m.ads
        ctx.check(list(model.site_names) + list(model.adsorbate_names) == cols, "column order")
        ctx.check(site.shape == (m.n, len(cols)), "shape of the site matrix")
        ctx.check(rea.shape == (m.n, len(m.gas + m.liq)), "shape of the fluid matrix")
        for i in range(m.n):
            for j, n in enumerate(cols):
                ctx.eq(site[i, j], -m.nu(i, n), "site matrix entry")
            for j, n in enumerate(m.gas + m.liq):
                ctx.eq(rea[i, j], -m.nu(i, n), "fluid matrix entry")


def symbolic_stoichiometry(ctx, where):
    """Stoichiometric coefficients themselves symbolic (one digit each)."""
    a = ctx.char("a", "23456789")
    b = ctx.char("b", "23456789")
    from scaks.parsers.rxn_parser import RxnEquation
    e = {"gas": a + "CO_g + " + b + "*_s -> " + a + "CO_s + " + b + "O_s",
         "both": a + "CO_s + O_s -> " + b + "CO_s + 2CO_g"}[where]
    m = lib.MECHS["one"]
    model = lib.mk_model(lib.setup(m))

    class Owner(object):
        site_names = ("*_s",)
        adsorbate_names = ("CO_s", "O_s")
        gas_names = ("CO_g",)
        liquid_names = ()
        elementary_rxns_list = [RxnEquation(e).to_formula_list()]
    from scaks.parsers.parser_base import ParserBase
    obj = ParserBase.__new__(ParserBase)
    obj._owner = Owner
    site, rea = ParserBase.get_stoichiometry_matrices(obj)
    na, nb = ctx.decimal(a), ctx.decimal(b)
    want = {"gas": ([nb, -na, -nb], [na]), "both": ([0, na - nb, 1], [-2])}[where]
    for j in range(3):
        ctx.eq(site[0, j], want[0][j], "site matrix entry")
    ctx.eq(rea[0, 0], want[1][0], "fluid matrix entry")


SCENARIOS = [
    Scenario(tof, [dict(mech=k) for k in ("co_ox", "liquid", "two_gas", "apart", "tri", "two_site", "mixed", "liq2", "powers", "three_sites")],
             [dict(mech=k) for k in lib.MECHS], bounds=BOUNDS),
    Scenario(by_name, [dict(mech=k) for k in ("co_ox", "liquid")],
             [dict(mech=k) for k in ("two_gas", "repeat", "two_site")], bounds=BOUNDS),
    Scenario(matrices, [dict(mech=k) for k in lib.MECHS], bounds="mechanisms of the library"),
    Scenario(symbolic_stoichiometry, [dict(where="gas"), dict(where="both")],
             bounds="coefficients 2-9"),
]
