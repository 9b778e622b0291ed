"""A model run reports mutually consistent results."""
import os
import pickle
from engine.run import Scenario
from . import lib
from .c18 import constants

GUARD_BANDS = True      # compares with bands narrower than the identification of roundings
BOUNDS = ("all rate energies in [-5, 5] eV, temperatures 100-2000 K, arbitrary steady state coverages in [0.001, 0.3] (no vanishing rate) delivered by the "
          "root finder, every combination of guess source, fsolve and coarse guess")
OUTSIDE = "the root finder itself (C16), degree of rate control (C20); rounding"


class Recorder(object):
    """Stand-ins for the numerical search: arbitrary coverages, calls recorded."""

    def __init__(self, ctx, m, model):
        self.calls, self.ctx, self.m, s = [], ctx, m, model.solver
        self.model = model

        def cov(tag):
            return tuple(ctx.real("%s%d_%s" % (tag, len(self.calls), a), lo=0.001, hi=0.3, typ=(0.05, 0.3)) for a in m.ads)

        def steady(c0=None, single_pt=False, relative_energies=None):
            x = cov("ss")
            s._coverages, s._error = x, ctx.real("err%d" % len(self.calls), lo=0, hi=1)
            self.calls.append(("steady", c0, relative_energies, x))
            return x

        def coarse(c0, relative_energies=None):
            x = cov("co")
            self.calls.append(("coarse", c0, relative_energies, x))
            return x

        def fsolve(c0, relative_energies=None):
            x = cov("fs")
            s._coverages, s._error = x, ctx.real("err%d" % len(self.calls), lo=0, hi=1)     # see low_precision
            self.calls.append(("fsolve", c0, relative_energies, x))
            return x

        def ode(*a, **k):
            x = cov("od")
            self.calls.append(("ode", None, k.get("relative_energies"), x))
            return [None, x]

        def hybrid(mod, n):
            x = cov("hy")
            self.calls.append(("hybrid", n, None, x))
            return x
        s.get_steady_state_cvgs, s.coarse_steady_state_cvgs = steady, coarse
        s.fsolve_steady_state_cvgs, s.solve_ode = fsolve, ode
        model.hybrid_method_register(hybrid)


def start(ctx, mech):
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    model = lib.mk_model(lib.setup(m, T, p, c))
    model.solver.get_data()
    return m, model, p, c, T


def energies(ctx, m, tag):
    Ga = [ctx.real("Ga%s%d" % (tag, i), lo=-5, hi=5, typ=(0.05, 0.6)) for i in range(m.n)]
    dG = [ctx.real("dG%s%d" % (tag, i), lo=-5, hi=5, typ=(-0.4, 0.0)) for i in range(m.n)]
    return {"Gaf": Ga, "dG": dG, "Gar": [a - b for a, b in zip(Ga, dG)]}


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def results(ctx, m, model, rel, T, p, c, x):
    kf, kr = constants(ctx, rel["Gaf"], rel["dG"], T)
    rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, x), p, c)
    ctx.check(same(model.steady_state_coverages, x), "reported coverages are those of the search")
    fluid = m.gas + m.liq
    ctx.check(len(model.TOFs) == len(fluid), "one turnover frequency per fluid species")
    for g, f in zip(model.TOFs, fluid):
        t = 0.0
        for i in range(m.n):
            t = t + m.nu(i, f) * (rf[i] - rr[i])
        ctx.eq(g, t, "turnover frequency of the reported coverages", scale=10 * (sum(rf) + sum(rr)))
    ctx.check(len(model.reversibilities) == m.n, "one reversibility per reaction")
    for i, r in enumerate(model.reversibilities):
        ctx.eq(r * rf[i], rr[i], "reversibility of the reported coverages", scale=rr[i])
    ctx.eq(model.error, model.solver._error, "reported error is that of the search")
    info = model.model_info
    ctx.check_list(list(info["steady_state_coverages"]), list(x), "summary: coverages")
    ctx.check(len(info["TOFs"]) == len(fluid) and len(info["reversibilities"]) == m.n, "summary: complete")
    for a, b in zip(info["TOFs"], model.TOFs):
        ctx.eq(a, b, "summary: turnover frequencies", scale=10 * (sum(rf) + sum(rr)))
    for a, b in zip(info["reversibilities"], model.reversibilities):
        ctx.eq(a, b, "summary: reversibilities")
    for key, want in (("gas_names", m.gas), ("adsorbate_names", m.ads), ("rxn_expressions", m.exprs)):
        ctx.check(list(info[key]) == list(want), "summary: " + key)


def guess(ctx, mech, source, fsolve, coarse, given):
    """Which guess reaches the search, and that all results belong together."""
    m, model, p, c, T = start(ctx, mech)
    rec = Recorder(ctx, m, model)
    rel = energies(ctx, m, "a")
    own = energies(ctx, m, "b")
    model._relative_energies, model._has_relative_energy = (own, True) if given else (rel, True)
    kw = {"relative_energies": rel} if given else {}
    stored = [0.125 / (i + 1) for i in range(len(m.ads))]
    if source in ("list", "tuple", "list over file"):
        g = [ctx.real("g_" + a, lo=0, hi=1, typ=(0.05, 0.3)) for a in m.ads]
        kw["init_cvgs"] = tuple(g) if source == "tuple" else g
    if source in ("file", "list over file"):
        pickle.dump({"steady_state_coverages": tuple(stored), "tofs": [1.0]}, open(model.data_file, "wb"))
    if source == "old file":
        pickle.dump({"tofs": [1.0]}, open(model.data_file, "wb"))
    if source == "wrong file":
        pickle.dump({"steady_state_coverages": tuple(stored) + (0.1,)}, open(model.data_file, "wb"))
    # forward rates must not vanish, reversibilities divide by them
    model.run(fsolve=fsolve, coarse_guess=coarse, **kw)
    calls = list(rec.calls)
    first = calls.pop(0) if source in ("old file", "wrong file", "none") else None
    if source == "none":
        ctx.check(first[0] == "hybrid", "without any guess the hybrid method is asked")
    elif first is not None:
        ctx.check(first[0] == "ode", "an archive without usable coverages leads to integration")
        ctx.check(first[2] is rel if given else first[2] is None, "the integration uses the energies asked for")
    if source in ("list", "tuple", "list over file"):
        c0 = g
    elif source == "file":
        c0 = stored
    else:
        c0 = first[3]
    if not fsolve and coarse and source != "file":
        k = calls.pop(0)
        ctx.check(k[0] == "coarse" and same(k[1], c0), "coarse search starts from the guess")
        ctx.check((k[2] is not None) == given, "coarse search uses the energies asked for")
        c0 = k[3]
    ctx.check(len(calls) == 1 and calls[0][0] == ("fsolve" if fsolve else "steady"), "one final search")
    k = calls[0]
    if source == "file" and first is None:
        ctx.check(list(k[1]) == stored, "archived coverages are the guess")
    else:
        ctx.check(same(k[1], c0), "the search starts from the guess")
    ctx.check(k[2] is rel if given else k[2] is None, "the search uses the energies asked for")
    results(ctx, m, model, rel, T, p, c, k[3])


def rejected(ctx):
    from scaks.errors.error import ParameterError
    m, model, p, c, T = start(ctx, "co_ox")
    Recorder(ctx, m, model)
    rel = energies(ctx, m, "a")
    x = ctx.real("x", lo=0.01, hi=0.3)
    for bad in ([x], (x, x, x), {0: x, 1: x}, "xy"):
        ctx.raises(ParameterError, "unusable start coverages are rejected", model.run,
                   init_cvgs=bad, relative_energies=rel)
    ctx.raises(ParameterError, "rate control without a product is rejected", model.run,
               init_cvgs=[x, x], relative_energies=rel, XRC=True)


def twice(ctx):
    """A second run replaces every result of the first."""
    m, model, p, c, T = start(ctx, "one")
    rec = Recorder(ctx, m, model)
    for tag in ("a", "b"):
        rel = energies(ctx, m, tag)
        if tag == "b":
            ctx.assume(rel["Gaf"][0] > last["Gaf"][0])
        model.run(init_cvgs=[0.25], relative_energies=rel)
        last = rel
        results(ctx, m, model, rel, T, p, c, rec.calls[-1][3])


def rate_control(ctx, given):
    m, model, p, c, T = start(ctx, "co_ox")
    rec = Recorder(ctx, m, model)
    rel = energies(ctx, m, "a")
    eps = ctx.real("eps", lo=0.0001, hi=1)
    seen = []
    model.solver.get_single_XRC = lambda *a, **k: seen.append((a, k))
    kw = {"relative_energies": rel} if given else {}
    model._relative_energies, model._has_relative_energy = rel, True
    model.run(init_cvgs=(0.25, 0.25), XRC=True, epsilon=eps, product_name="CO2_g", **kw)
    ctx.check(len(seen) == 1, "rate control is computed once")
    a, k = seen[0]
    ctx.check((list(a) + [k.get("gas_name")])[0] == "CO2_g", "for the product asked for")
    ctx.eq(k["epsilon"], eps, "with the perturbation asked for")
    ctx.check(k["relative_energies"] is rel if given else k["relative_energies"] is None,
              "with the energies asked for")
    results(ctx, m, model, rel, T, p, c, rec.calls[-1][3])


class Stored(object):
    """Stand-in of pickle: what the data file holds after every writing."""
    def __init__(self):
        self.data = {}

    def dump(self, d, f, *a):
        self.data = dict(d)


def archived_run(ctx, mech, xrc, again=False):
    """The data file of a run holds the results the model reports."""
    import scaks
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m)
    names = ["rates", "net_rates", "reversibilities", "tofs", "steady_state_coverages"]
    model = lib.mk_model(lib.setup(m, T, p, c, archived_variables=names))
    model.solver.get_data()
    rec = Recorder(ctx, m, model)
    rel = energies(ctx, m, "a")
    scaks.pickle = file = Stored()
    s = model.solver
    if xrc:
        s.get_single_XRC = lambda *a, **k: None
    kw = dict(XRC=True, product_name=m.gas[0]) if xrc else {}
    for k in range(2 if again else 1):
        if k:
            rel = energies(ctx, m, "b")
        model.run(init_cvgs=[0.25] * len(m.ads), relative_energies=rel, **kw)
        x = rec.calls[-1][3]
        kf, kr = constants(ctx, rel["Gaf"], rel["dG"], T)
        rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, x), p, c)
        got = file.data
        scale = 10 * (sum(rf) + sum(rr))
        ctx.check(set(names[:4]) <= set(got), "everything asked for is in the data file")
        ctx.check(len(got["rates"]) == 2 and len(got["rates"][0]) == len(got["rates"][1]) == m.n, "archived rates of every reaction")
        for a, b in zip(list(got["rates"][0]) + list(got["rates"][1]), list(rf) + list(rr)):
            ctx.eq(a, b, "archived rates are those of the reported coverages", scale=scale)
        ctx.check(len(got["net_rates"]) == m.n, "archived net rate of every reaction")
        for a, f, r in zip(got["net_rates"], rf, rr):
            ctx.eq(a, f - r, "archived net rates are those of the reported coverages", scale=scale)
        ctx.check(len(got["reversibilities"]) == m.n, "archived reversibility of every reaction")
        for a, b in zip(got["reversibilities"], model.reversibilities):
            ctx.eq(a, b, "archived reversibilities are those reported")
        ctx.check(len(got["tofs"]) == len(model.TOFs), "archived turnover frequency of every species")
        for a, b in zip(got["tofs"], model.TOFs):
            ctx.eq(a, b, "archived turnover frequencies are those reported", scale=scale)


def archive(ctx, names):
    """Exactly the variables asked for are archived, with the values of the run."""
    m = lib.MECHS["one"]
    model = lib.mk_model(lib.setup(m, archived_variables=list(names)))
    s = model.solver
    s.get_data()
    th = (0.25,)
    model._relative_energies, model._has_relative_energy = {"Gaf": [0.5], "Gar": [0.75], "dG": [-0.25]}, True
    stored = {}
    import scaks

    class P(object):
        @staticmethod
        def dump(d, f, *a):
            stored.clear()
            stored.update(d)
    scaks.pickle = P
    x = ctx.real("x", lo=-5, hi=5)
    for n in ("steady_state_coverages", "tofs", "rates", "something"):
        s.archive_data(n, (n, x))
    ctx.check(sorted(stored) == sorted(n for n in names), "archived variables")
    for n in stored:
        ctx.check(stored[n][0] == n, "archived under its own name")
        ctx.eq(stored[n][1], x, "archived value")


def low_precision(ctx, mech, given, xrc):
    """fsolve delivers any coverages: they and the error reported belong together, whatever ran before."""
    from scaks.solvers import steady_state_solver as ss
    m, model, p, c, T = start(ctx, mech)
    s = model.solver
    rel, own = energies(ctx, m, "a"), energies(ctx, m, "b")
    model._relative_energies, model._has_relative_energy = (own, True) if given else (rel, True)
    kw = {"relative_energies": rel} if given else {}
    x = [ctx.real("fs_" + a, lo=0.001, hi=0.3, typ=(0.05, 0.3)) for a in m.ads]
    g = [ctx.real("g_" + a, lo=0, hi=1, typ=(0.05, 0.3)) for a in m.ads]
    seen = []

    def fsolve(f, c0, args=(), fprime=None, **k):
        seen.append((list(c0), [f(x, *args)], fprime and fprime(x, *args)))
        return list(x)
    ss.fsolve = fsolve
    s._coverages, s._error = tuple(0.125 for _ in m.ads), 0.75        # of an earlier run
    control = []
    s.get_single_XRC = lambda *a, **k: control.append(s.coverages)
    if xrc:
        kw.update(XRC=True, product_name=m.gas[0])
    model.run(init_cvgs=g, fsolve=True, **kw)
    ctx.check(len(seen) == 1, "one search")
    for a, b in zip(seen[0][0], g):
        ctx.eq(a, b, "the search starts from the guess")
    kf, kr = constants(ctx, rel["Gaf"], rel["dG"], T)
    rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, x), p, c)
    d = lib.dtheta_of(m, rf, rr)
    scale = 10 * (sum(rf) + sum(rr))
    for a, b in zip(seen[0][1][0], d):
        ctx.eq(a, b, "the coverage balance is searched", scale=scale)
    for a, b in zip(model.steady_state_coverages, x):
        ctx.eq(a, b, "reported coverages are those of the search")
    for a, b in zip(s.coverages, x):
        ctx.eq(a, b, "the solver keeps the coverages of the search")
    for v in d:
        ctx.check(ctx.And(v <= model.error + 1e-7 * scale, -v <= model.error + 1e-7 * scale),
                  "reported error covers every residual of the reported coverages")
    ctx.check(model.error <= sum(abs(v) for v in d) + 1e-7 * scale, "reported error is that of the reported coverages")
    if xrc:
        for a, b in zip(control[0], x):
            ctx.eq(a, b, "rate control starts from the coverages of the search")


SCENARIOS = [
    Scenario(low_precision, [dict(mech="one", given=True, xrc=True), dict(mech="co_ox", given=False, xrc=False)],
             [dict(mech="liquid", given=True, xrc=False)], bounds=BOUNDS),
    Scenario(guess, [dict(mech="co_ox", source=s, fsolve=f, coarse=c, given=g) for s, f, c, g in (
        ("list", False, True, True), ("tuple", False, False, False), ("file", False, True, True),
        ("list over file", False, False, True), ("none", False, True, False), ("none", True, True, True),
        ("old file", False, False, False), ("wrong file", False, True, True), ("list", True, False, False))],
        [dict(mech="liquid", source=s, fsolve=f, coarse=c, given=g)
         for s in ("list", "file", "none", "old file") for f in (True, False) for c in (True, False)
         for g in (True, False)], bounds=BOUNDS),
    Scenario(rejected, bounds="fixed shapes, symbolic numbers"),
    Scenario(twice, bounds=BOUNDS),
    Scenario(rate_control, [dict(given=True), dict(given=False)], bounds=BOUNDS),
    Scenario(archived_run, [dict(mech="co_ox", xrc=False), dict(mech="liquid", xrc=True), dict(mech="one", xrc=False, again=True)],
             [dict(mech="two_site", xrc=False)], bounds=BOUNDS),
    Scenario(archive, [dict(names=("steady_state_coverages",)), dict(names=("steady_state_coverages", "tofs", "rates"))],
             bounds="all values"),
]
