"""Results do not depend on earlier calls."""
import copy
from engine.run import Scenario
from . import lib

BOUNDS = ("two energy sets with all barriers/reaction energies in [-5, 5] eV, temperatures 100-2000 K, all coverages in [0, 1]; "
          "call sequences of the harnesses (two models, up to six calls)")
OUTSIDE = "other call sequences; rounding"


def constants(ctx, Ga, dG, T):
    """Eyring rate constants, written independently."""
    from scaks.database.thermo_data import kB_eV, h_eV
    kf = [kB_eV * T / h_eV * ctx.exp(-g / (kB_eV * T)) for g in Ga]
    kr = [kB_eV * T / h_eV * ctx.exp(-(g - d) / (kB_eV * T)) for g, d in zip(Ga, dG)]
    return kf, kr


def energy_set(ctx, m, tag, lo=-5):
    Ga = [ctx.real("Ga%s%d" % (tag, i), lo=lo, hi=5, typ=(0.05, 0.6)) for i in range(m.n)]
    dG = [ctx.real("dG%s%d" % (tag, i), lo=-5, hi=5, typ=(-0.4, 0.0)) for i in range(m.n)]
    return Ga, dG


def rel_of(Ga, dG):
    return {"Gaf": list(Ga), "dG": list(dG), "Gar": [a - b for a, b in zip(Ga, dG)]}


def agree(ctx, got, want, what):
    ctx.check_list(got[0], want[0], "forward " + what)
    ctx.check_list(got[1], want[1], "reverse " + what)


def two_models(ctx, order):
    """Two models with different temperatures in one process."""
    m = lib.MECHS["one"]
    Ts = [ctx.real("T%d" % i, lo=100, hi=2000, typ=(300.0 + 300 * i, 400.0 + 300 * i)) for i in (0, 1)]
    ctx.assume(Ts[0] < Ts[1])
    Ga, dG = energy_set(ctx, m, "a")
    models = [lib.mk_model(lib.setup(m, T)) for T in Ts]
    for mod in models:
        mod.solver.get_data()
    rel = rel_of(Ga, dG)
    for i in order:
        agree(ctx, models[i].solver.get_rate_constants(relative_energies=rel),
              constants(ctx, Ga, dG, Ts[i]), "rate constants of each model")


def two_mechanisms(ctx, order):
    """Mechanisms that differ in their site totals and species (rate expressions and derivatives)."""
    ms = [lib.MECHS["co_ox"], lib.MECHS["repeat"]]
    tot = [ctx.real("tot%d" % i, lo=0.01, hi=1, typ=(0.3, 1.0)) for i in (0, 1)]
    models = [lib.mk_model(lib.setup(m, total={s: t for s in m.sites})) for m, t in zip(ms, tot)]
    for i in order:
        m, mod, t = ms[i], models[i], tot[i]
        s = mod.solver
        s.get_data()
        Ga, dG = [0.3] * m.n, [-0.1] * m.n
        rel = rel_of(Ga, dG)
        th = [ctx.real("th%d_%s" % (i, a), lo=0, hi=1, typ=(0.05, 0.3)) for a in m.ads]
        kf, kr = s.get_rate_constants(relative_energies=rel)
        theta = lib.theta_of(m, th, {x: t for x in m.sites})
        p = {g: 1.0 for g in m.gas}
        rf, rr = lib.rates_of(m, kf, kr, theta, p, {})
        J = s.analytical_jacobian(tuple(th), relative_energies=rel)
        got = s.steady_state_function(tuple(th), relative_energies=rel)
        for g, w in zip(got, lib.dtheta_of(m, rf, rr)):
            ctx.eq(g, w, "balance of each model", scale=sum(rf) + sum(rr))
        again = s.analytical_jacobian(tuple(th), relative_energies=rel)
        for a in range(len(m.ads)):
            for b in range(len(m.ads)):
                ctx.eq(J[a, b], again[a, b], "Jacobian of each model asked again", scale=sum(kf) + sum(kr))
                ctx.eq(J[a, b], jac(m, a, b, kf, kr, theta, p), "Jacobian of each model",
                       scale=10 * (sum(kf) + sum(kr)))


def jac(m, ai, bi, kf, kr, theta, p):
    """d(d theta_a/dt)/d theta_b by the product rule on the written reaction."""
    a, b = m.ads[ai], m.ads[bi]

    def val(n):
        return {"gas": p, "liq": p}.get(lib.kind(n), theta)[n]

    def d(k, side):
        out = 0.0
        names = [n for n, q in side.items() for _ in range(q)]
        for x, n in enumerate(names):
            f = 1.0 if n == b else (-1.0 if n == "*_" + lib.site_of(b)[1] else 0.0)
            if f:
                t = f * k
                for y, o in enumerate(names):
                    if y != x:
                        t = t * val(o)
                out = out + t
        return out
    t = 0.0
    for i in range(m.n):
        n = m.nu(i, a)
        if n:
            t = t + n * (d(kf[i], m.rxns[i][0]) - d(kr[i], m.rxns[i][-1]))
    return t


def new_energies(ctx, how):
    """New energies read into the model replace the old ones in every result."""
    m = lib.MECHS["one"]
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    model = lib.mk_model(lib.setup(m, T))
    s = model.solver
    s.get_data()
    th = (ctx.real("th", lo=0, hi=1, typ=(0.05, 0.9)),)
    sets = [energy_set(ctx, m, t, lo=0) for t in ("a", "b")]
    # the parser keeps a barrier as it is when there is an activated state
    for Ga, dG in sets:
        for g, d in zip(Ga, dG):
            ctx.assume(g > 0.01)
            ctx.assume(g > d + 0.01)
    ctx.assume(sets[0][0][0] < sets[1][0][0])
    for k in (0, 1, 0):
        Ga, dG = sets[k]
        if how == "parser":
            lib.give_energies(model, Gaf=Ga, dG=dG)
            args = {}
        elif how == "given":
            args = {"relative_energies": rel_of(Ga, dG)}
        else:   # the model has the other set
            o = sets[1 - k]
            lib.give_energies(model, Gaf=o[0], dG=o[1])
            args = {"relative_energies": rel_of(Ga, dG)}
        kf, kr = constants(ctx, Ga, dG, T)
        agree(ctx, s.get_rate_constants(**args), (kf, kr), "rate constants after new energies")
        agree(ctx, s.get_rates(th, **args), ([kf[0] * (1.0 - th[0])], [kr[0] * th[0]]), "rates after new energies")
        d = s.steady_state_function(th, **args)
        ctx.eq(d[0], kf[0] * (1.0 - th[0]) - kr[0] * th[0], "balance after new energies", scale=kf[0] + kr[0])
        J = s.analytical_jacobian(th, **args)
        ctx.eq(J[0, 0], -kf[0] - kr[0], "Jacobian after new energies", scale=kf[0] + kr[0])
        t = s.get_tof(th, **args)
        ctx.eq(t[0], -(kf[0] * (1.0 - th[0]) - kr[0] * th[0]), "turnover after new energies", scale=kf[0] + kr[0])


def mutation(ctx, what):
    """Changing arguments or results afterwards has no effect on later answers."""
    m = lib.MECHS["uni"]
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    model = lib.mk_model(lib.setup(m, T))
    s = model.solver
    s.get_data()
    Ga, dG = energy_set(ctx, m, "a")
    rel = rel_of(Ga, dG)
    want = constants(ctx, Ga, dG, T)
    first = s.get_rate_constants(relative_energies=rel)
    agree(ctx, first, want, "rate constants")
    if what == "result":
        first[0][0] = 0.0
        first[1].append(1.0)
        again = s.get_rate_constants(relative_energies=rel)
        agree(ctx, again, want, "rate constants after the result was changed")
        fr = s.get_rates((0.25,), relative_energies=rel)
        agree(ctx, fr, ([want[0][0] * 0.75, want[0][1] * 0.25], [want[1][0] * 0.25, want[1][1] * 0.75]),
              "rates after the result was changed")
    elif what == "argument":
        H = [ctx.real("H%d" % i, lo=-5, hi=5, typ=(0.7, 0.9)) for i in range(m.n)]
        ctx.assume(H[0] > Ga[0])
        old = copy.copy(rel["Gaf"])
        rel["Gaf"][:] = H
        rel["Gar"] = [a - b for a, b in zip(H, dG)]
        agree(ctx, s.get_rate_constants(relative_energies=rel), constants(ctx, H, dG, T),
              "rate constants after the argument was changed")
        rel["Gaf"][:] = old
        rel["Gar"] = [a - b for a, b in zip(old, dG)]
        agree(ctx, s.get_rate_constants(relative_energies=rel), want,
              "rate constants after the argument was changed back")
    else:
        # one entry of the dictionary differs only
        ctx.assume(rel["Gar"][0] > 0)
        rel2 = dict(rel, Gar=[rel["Gar"][0] + 1.0] + rel["Gar"][1:])
        got = s.get_rate_constants(relative_energies=rel2)
        w = constants(ctx, Ga, [dG[0] - 1.0] + dG[1:], T)
        agree(ctx, got, w, "rate constants when only the reverse barrier differs")
        agree(ctx, s.get_rate_constants(relative_energies=rel), want, "rate constants afterwards")


def algorithms(ctx):
    """Models with different rate algorithms and corrected/uncorrected energies do not mix."""
    m = lib.MECHS["one"]
    T = ctx.real("T", lo=100, hi=2000, typ=(300.0, 900.0))
    Ga, dG = energy_set(ctx, m, "a", lo=0)
    rel = rel_of(Ga, dG)
    a = lib.mk_model(lib.setup(m, T))
    b = lib.mk_model(lib.setup(m, T, rate_algo="CT", unitcell_area=1e-19, active_ratio=0.5))
    for mod in (a, b):
        mod.solver.get_data()
    first = a.solver.get_rate_constants(relative_energies=rel)
    other = b.solver.get_rate_constants(relative_energies=rel)
    fresh = lib.mk_model(lib.setup(m, T, rate_algo="CT", unitcell_area=1e-19, active_ratio=0.5))
    fresh.solver.get_data()
    agree(ctx, other, fresh.solver.get_rate_constants(relative_energies=rel), "collision theory constants")
    agree(ctx, a.solver.get_rate_constants(relative_energies=rel), constants(ctx, Ga, dG, T), "TST constants")
    agree(ctx, first, constants(ctx, Ga, dG, T), "TST constants, first call")


QUERIES = ("k", "klog", "rates", "rateslog", "net", "tof", "one", "balance", "jacobian", "residual", "expressions",
           "balances", "matrices", "names")


def spoil(got):
    """What a caller may do with the lists that were returned."""
    for g in (got if isinstance(got, tuple) else (got,)):
        if isinstance(g, list) and g:
            g.reverse()
            g[0] = g[0] * 2
            g.append(g[0])


def query(ctx, what, m, s, model, th, rel, want):
    kf, kr, rf, rr, theta, p = want    # p: of gases and liquids
    scale = sum(rf) + sum(rr) + sum(kf) + sum(kr)
    args = {} if rel is None else {"relative_energies": rel}
    if what in ("k", "klog"):
        got = s.get_rate_constants(log=what == "klog", **args)
        agree(ctx, got, (kf, kr), "rate constants")
    elif what in ("rates", "rateslog"):
        got = s.get_rates(th, log=what == "rateslog", **args)
        agree(ctx, got, (rf, rr), "rates")
    elif what == "net":
        got = s.get_net_rates(th, **args)
        ctx.check(len(got) == m.n, "one net rate per reaction")
        for g, a, b in zip(got, rf, rr):
            ctx.eq(g, a - b, "net rate", scale=scale)
    elif what in ("tof", "one"):
        tof = []
        for f in m.gas + m.liq:
            t = 0.0
            for i in range(m.n):
                t = t + m.nu(i, f) * (rf[i] - rr[i])
            tof.append(t)
        if what == "one":
            got = None
            for g, t in zip(m.gas, tof):
                ctx.eq(s.get_tof(th, gas_name=g, **args), t, "turnover frequency of one gas", scale=10 * scale)
        else:
            got = s.get_tof(th, **args)
            ctx.check(len(got) == len(tof), "one turnover frequency per fluid species")
            for g, t in zip(got, tof):
                ctx.eq(g, t, "turnover frequency", scale=10 * scale)
    elif what in ("balance", "residual"):
        bal = lib.dtheta_of(m, rf, rr)
        if what == "balance":
            got = s.steady_state_function(th, **args)
            ctx.check(len(got) == len(bal), "one balance per adsorbate")
            for g, w in zip(got, bal):
                ctx.eq(g, w, "balance", scale=10 * scale)
        else:
            got = s.get_residual(th, **args)
            if len(bal) > 1:    # one of several balances: the query only has to leave the rest alone
                return
            for w in bal:
                ctx.le(abs(w), got + 1e-9 * scale, "the residual bounds every balance")
            ctx.check(ctx.Or(*[abs(abs(w) - got) <= 1e-9 * scale for w in bal]), "the residual is one of the balances")
    elif what == "jacobian":
        got = s.analytical_jacobian(th, **args)
        for a in range(len(m.ads)):
            for b in range(len(m.ads)):
                ctx.eq(got[a, b], jac(m, a, b, kf, kr, theta, p), "Jacobian", scale=10 * scale)
    elif what == "expressions":
        got = s.get_rate_expressions()
        ctx.check(len(got[0]) == len(got[1]) == m.n, "one rate expression per reaction")
    elif what == "balances":
        got = s.get_dtheta_dt_expressions()
        ctx.check(len(got) == len(m.ads), "one balance expression per adsorbate")
    elif what == "matrices":
        got = None
        for M in model.parser.get_stoichiometry_matrices():
            M *= 3
    else:
        got = (model.gas_names, model.adsorbate_names, model.site_names, model.liquid_names)
        ctx.check([list(x) for x in got] == [m.gas, m.ads, m.sites, m.liq], "names of the species")
    spoil(got)


def sequences(ctx, mech, seq, energies):
    """Every query answers what the mechanism says, whatever was asked before and done with the answers."""
    m = lib.MECHS[mech]
    T = 500.0
    model = lib.mk_model(lib.setup(m, T))
    s = model.solver
    s.get_data()
    theta_total = {x: 1.0 for x in m.sites}
    p = {g: 1.0 for g in m.gas}
    c = {g: 1.0 for g in m.liq}
    kinds = []
    for tag in ("a", "b"):
        Ga, dG = energy_set(ctx, m, tag, lo=0)
        for g, d in zip(Ga, dG):
            ctx.assume(g > 0.01)
            ctx.assume(g > d + 0.01)
        kinds.append((Ga, dG))
    ctx.assume(kinds[0][0][0] < kinds[1][0][0])
    cv = [tuple(ctx.real("%s_%s" % (t, a), lo=0, hi=1, typ=(0.05, 0.3)) for a in m.ads) for t in "uv"]
    for k, what in enumerate(seq):
        for e, th in ((k % 2, cv[k // 2 % 2]),) if energies == "alternate" else ((0, cv[0]),):
            Ga, dG = kinds[e]
            rel = rel_of(Ga, dG)
            if energies == "model":
                lib.give_energies(model, Gaf=Ga, dG=dG)
                rel = None
            kf, kr = constants(ctx, Ga, dG, T)
            theta = lib.theta_of(m, th, theta_total)
            rf, rr = lib.rates_of(m, kf, kr, theta, p, c)
            query(ctx, what, m, s, model, th, rel, (kf, kr, rf, rr, theta, dict(p, **c)))


SEQ = [("rateslog", "net", "klog", "rates", "k", "tof", "net"),
       ("balances", "balance", "jacobian", "expressions", "rates", "balances", "jacobian", "residual"),
       ("tof", "one", "rateslog", "matrices", "tof", "names", "one", "balance", "k")]


SCENARIOS = [
    Scenario(two_models, [dict(order=(0, 1, 0))], [dict(order=(1, 0, 1, 0))], bounds=BOUNDS),
    Scenario(two_mechanisms, [dict(order=(0, 1))], [dict(order=(1, 0))], bounds=BOUNDS),
    Scenario(new_energies, [dict(how=h) for h in ("parser", "given", "both")], bounds=BOUNDS),
    Scenario(mutation, [dict(what=w) for w in ("result", "argument", "entry")], bounds=BOUNDS),
    Scenario(algorithms, bounds=BOUNDS),
    Scenario(sequences, [dict(mech=x, seq=q, energies=e) for x in ("uni", "co_ox") for q in SEQ for e in ("alternate", "model")
                         if (x, e) != ("co_ox", "model")],
             [dict(mech=x, seq=q[::-1], energies=e) for x in ("uni", "co_ox", "liquid") for q in SEQ
              for e in ("alternate", "model")], bounds=BOUNDS),
]
