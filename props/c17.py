"""The symbolic (sympy) route computes the same numbers as the numeric route."""
from engine.run import Scenario
from . import lib

BOUNDS = ("mechanisms of the library, all rate energies in [-5, 5] eV, temperatures 100-2000 K, "
          "coverages in [0, 1], pressures/concentrations > 0, site totals in (0, 1]")
OUTSIDE = "rounding (sympy evaluates in 15 digits: replay tolerance 1e-7)"


def prepare(ctx, mech, totals=False):
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    # dyadic totals: exact in sympy and in floats
    total = {s: (0.75 if totals else 1.0) - 0.25 * totals * i for i, s in enumerate(m.sites)}
    model = lib.mk_model(lib.setup(m, T, p, c, total))
    s = model.solver
    s.get_data()
    s.get_data_symbols()
    Ga = [ctx.real("Ga%d" % i, lo=0, hi=5, typ=(0.05, 0.6)) for i in range(m.n)]
    dG = [ctx.real("dG%d" % i, lo=-5, hi=5, typ=(-0.4, 0.4)) for i in range(m.n)]
    rel = {"Gaf": Ga, "dG": dG, "Gar": [a - b for a, b in zip(Ga, dG)]}
    # the parser's own validation is another property
    model._relative_energies = rel
    model._has_relative_energy = True
    th = lib.coverages(ctx, m)
    kf, kr = s.get_rate_constants(relative_energies=rel)
    theta = lib.theta_of(m, th, total)
    rf, rr = lib.rates_of(m, kf, kr, theta, p, c)
    return m, model, s, th, kf, kr, rf, rr, theta


def constants(ctx, mech):
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech)
    a, b = s.get_rate_constants_by_sym()
    ctx.check_list(a, kf, "forward rate constants")
    ctx.check_list(b, kr, "reverse rate constants")
    from scaks.database.thermo_data import kB_eV
    K = s.get_equilibrium_constant_syms()
    ctx.check(len(K) == m.n, "one equilibrium constant per reaction")
    sub = s.get_subs_dict()
    for i in range(m.n):
        v = s._mpf(K[i].evalf(subs=sub))
        ctx.eq(v, ctx.exp(-model.relative_energies["dG"][i] / (kB_eV * model.temperature)), "equilibrium constant")


def rates(ctx, mech, totals):
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech, totals)
    a, b = s.get_rates_by_sym(tuple(th))
    ctx.check_list(a, rf, "forward rates")
    ctx.check_list(b, rr, "reverse rates")


def net(ctx, mech, totals):
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech, totals)
    got = s.get_net_rates_by_sym(tuple(th))
    ctx.check(len(got) == m.n, "one net rate per reaction")
    for g, x, y in zip(got, rf, rr):
        ctx.eq(g, x - y, "net rates", scale=x + y)


def tof(ctx, mech):
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech)
    got = s.get_tof_by_sym(tuple(th))
    fluid = m.gas + m.liq
    ctx.check(len(got) == len(fluid), "one turnover frequency per fluid species")
    for g, f in zip(got, fluid):
        t = 0.0
        for i in range(m.n):
            t = t + m.nu(i, f) * (rf[i] - rr[i])
        ctx.eq(g, t, "turnover frequencies", scale=10 * (sum(rf) + sum(rr)))


def multi(m, a):
    """Adsorbates whose stoichiometry differs from one somewhere."""
    return any(abs(m.nu(i, a)) > 1 or (m.nu(i, a) != 0 and all(
        a in st for st in (r[0], r[-1]))) or (m.nu(i, a) == 0 and a in r[0]) or
        any(st.get(a, 0) > 1 for st in (r[0], r[-1])) for i, r in enumerate(m.rxns))


def per_occurrence(m, a, rf, rr):
    """The balance of the known finding: one molecule per reaction, the side of the first occurrence."""
    t = 0.0
    for i, r in enumerate(m.rxns):
        if a in r[0]:
            t = t - (rf[i] - rr[i])
        elif a in r[-1]:
            t = t + (rf[i] - rr[i])
    return t


def balance(ctx, mech, totals):
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech, totals)
    got = s.steady_state_function_by_sym(tuple(th))
    want = lib.dtheta_of(m, rf, rr)
    ctx.check(len(got) == len(want), "one rate of change per adsorbate")
    for a, g, w in zip(m.ads, got, want):
        if multi(m, a):
            ctx.eq_any(g, [w, per_occurrence(m, a, rf, rr)], "coverage balance, per molecule or per occurrence",
                       scale=sum(rf) + sum(rr))
            ctx.eq(g, w, "coverage balance of an adsorbate with several molecules", scale=sum(rf) + sum(rr))
        else:
            ctx.eq(g, w, "coverage balance", scale=sum(rf) + sum(rr))


def differentiate(m, a, b, kf, kr, theta, model):
    """d(per_occurrence balance of a)/d(theta of b), by the product rule."""
    p = {g: model.species_definitions[g]["pressure"] for g in m.gas}
    c = {l: model.species_definitions[l]["concentration"] for l in m.liq}

    def val(n):
        return {"gas": p, "liq": c}.get(lib.kind(n), theta)[n]

    def d(k, side):
        out = 0.0
        names = [n for n, q in side.items() for _ in range(q)]
        for x, n in enumerate(names):
            f = 1.0 if n == b else (-1.0 if n == "*_" + lib.site_of(b)[1] else 0.0)
            if f:
                t = f * k
                for y, o in enumerate(names):
                    if y != x:
                        t = t * val(o)
                out = out + t
        return out
    t = 0.0
    for i, r in enumerate(m.rxns):
        sign = -1 if a in r[0] else (1 if a in r[-1] else 0)
        if sign:
            t = t + sign * (d(kf[i], r[0]) - d(kr[i], r[-1]))
    return t


def jacobian(ctx, mech):
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech)
    J = s.analytical_jacobian_by_sym(tuple(th))
    N = s.analytical_jacobian(tuple(th))
    D = [[differentiate(m, a, b, kf, kr, theta, model) for b in m.ads] for a in m.ads]
    for i, a in enumerate(m.ads):
        for j in range(len(m.ads)):
            if multi(m, a):
                ctx.eq_any(J[i, j], [N[i, j], D[i][j]], "Jacobian, per molecule or per occurrence",
                           scale=10 * (sum(kf) + sum(kr)))
            lab = "Jacobian of an adsorbate with several molecules" if multi(m, a) else "Jacobian"
            ctx.eq(J[i, j], N[i, j], lab, scale=10 * (sum(kf) + sum(kr)))


def again(ctx, mech):
    """The symbolic route follows new energies."""
    m, model, s, th, kf, kr, rf, rr, theta = prepare(ctx, mech)
    s.get_rates_by_sym(tuple(th))
    Ga = [ctx.real("Gb%d" % i, lo=0, hi=5, typ=(0.05, 0.6)) for i in range(m.n)]
    dG = [ctx.real("dH%d" % i, lo=-5, hi=5, typ=(-0.4, 0.4)) for i in range(m.n)]
    rel = {"Gaf": Ga, "dG": dG, "Gar": [a - b for a, b in zip(Ga, dG)]}
    ctx.assume(Ga[0] > model.relative_energies["Gaf"][0])
    model._relative_energies = rel
    a, b = s.get_rate_constants_by_sym()
    kf, kr = s.get_rate_constants(relative_energies=rel)
    ctx.check_list(a, kf, "forward rate constants after new energies")
    ctx.check_list(b, kr, "reverse rate constants after new energies")


def elementary(ctx):
    from scaks.errors.error import ParameterError
    m = lib.MECHS["co_ox"]
    model = lib.mk_model(lib.setup(m))
    s = model.solver
    s.get_data()
    s.get_data_symbols()
    ctx.raises(ParameterError, "unknown adsorbate", s.get_elementary_dtheta_dt_sym, "XX_s", m.exprs[0])
    ctx.raises(ParameterError, "unknown reaction", s.get_elementary_dtheta_dt_sym, "CO_s", "CO_s -> CO_s")
    ctx.check(s.get_elementary_dtheta_dt_sym("O_s", m.exprs[0]) is None, "adsorbate not in the reaction")


SCENARIOS = [
    Scenario(constants, [dict(mech="one"), dict(mech="co_ox")], [dict(mech="assoc")], bounds=BOUNDS),
    Scenario(rates, [dict(mech=k, totals=t) for k, t in (("co_ox", 0), ("two_site", 1), ("liquid", 0), ("repeat", 0),
                                                      ("tri", 1), ("mixed", 1), ("liq2", 1), ("powers", 0))],
             [dict(mech=k, totals=1) for k in ("auto", "assoc", "dissoc", "both_sides")], bounds=BOUNDS),
    Scenario(net, [dict(mech="co_ox", totals=1), dict(mech="liquid", totals=0)], [dict(mech="mixed", totals=1)],
             bounds=BOUNDS),
    Scenario(tof, [dict(mech=k) for k in ("co_ox", "liquid", "two_gas")],
             [dict(mech=k) for k in ("tri", "assoc", "repeat")], bounds=BOUNDS),
    Scenario(balance, [dict(mech=k, totals=t) for k, t in (("one", 0), ("co_ox", 1), ("uni", 1), ("mixed", 1),
                                                        ("two_site", 0), ("liquid", 0), ("liq2", 1), ("three_sites", 0))],
             [dict(mech=k, totals=1) for k in ("assoc", "dissoc", "tri", "repeat", "auto", "both_sides")],
             bounds=BOUNDS),
    Scenario(jacobian, [dict(mech=k) for k in ("one", "co_ox", "mixed")],
             [dict(mech=k) for k in ("two_site", "liquid", "dissoc")], bounds=BOUNDS),
    Scenario(again, [dict(mech="co_ox")], bounds=BOUNDS),
    Scenario(elementary, bounds="fixed arguments"),
]
