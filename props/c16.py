"""Reported steady states are converged and physical, whatever the root finder delivers."""
from engine.run import Scenario
from . import lib

GUARD_BANDS = True      # compares with bands narrower than the identification of roundings
BOUNDS = ("up to 3 iterates per search and 3 searches, iterates/errors/start guesses arbitrary reals, the "
          "root finder may stop early or divide by zero at any iterate; 1-3 adsorbates; all rate energies in [-5, 5] eV")
OUTSIDE = "longer searches; rounding; convergence of the Newton method itself (see C29)"


LIN = {
    "lin2": lib.Mech("lin2", ['CO_g + *_s -> CO_s', 'NO_g + *_s -> NO_s']),
    "lin2s": lib.Mech("lin2s", ['CO_g + *_s -> CO_s', 'NO_g + *_t -> NO_t']),
    "quad": lib.Mech("quad", ['O2_g + 2*_s -> 2O_s']),
    # the second root of the dissociative adsorption is not physical, whichever place the adsorbate has
    "quad_first": lib.Mech("quad_first", ['C2_g + 2*_s -> 2C_s', 'NO_g + *_t -> NO_t']),
    "quad_last": lib.Mech("quad_last", ['O2_g + 2*_s -> 2O_s', 'CO_g + *_t -> CO_t']),
    "lin3": lib.Mech("lin3", ['CO_g + *_s -> CO_s', 'NO_g + *_s -> NO_s', 'HO_g + *_t -> HO_t']),
}


class Enough(Exception):
    pass


class Plan(object):
    """A root finder that delivers arbitrary iterates."""

    def __init__(self, ctx, m, lengths, errors, fault=None):
        self.ctx, self.m, self.lengths, self.errors, self.fault = ctx, m, lengths, errors, fault
        self.attempt = -1
        self.starts, self.log, self.parts = [], [], []

    def __call__(self, f, x0, **k):
        self.attempt += 1
        self.starts.append(x0)
        self.parts.append((f, k))
        self.log.append([])
        return self

    def __iter__(self):
        c, a = self.ctx, self.attempt
        for i in range(self.lengths[a] if a < len(self.lengths) else 0):
            if self.fault == (a, i):
                raise ZeroDivisionError
            x = tuple(c.real("x%d%d_%s" % (a, i, n), lo=-2, hi=2, typ=(0.01, 0.3)) for n in self.m.ads)
            e = c.real("e%d%d" % (a, i), lo=0, hi=10, typ=(0.0, 0.001)) if self.errors else 0.0
            self.log[-1].append((x, e))
            yield x, e, list(x)


def install(plan):
    from scaks.solvers import steady_state_solver as ss
    ss.ConstrainedNewton = plan
    ss.MDNewton = plan


def residual(m, model, kf, kr, x, p, c, total):
    rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, x, total), p, c)
    return lib.dtheta_of(m, rf, rr)


def within(ctx, values, tol):
    return ctx.And(*[c for v in values for c in (v < tol, v > -tol)])


def physical(ctx, m, x, total, tol=0.0):
    th = lib.theta_of(m, x, total)
    return ctx.And(*([v >= 0 for v in x] + [th[s] >= -tol for s in m.sites]))


uphill = ("quad_first", "quad_last")      # with a negative second root


def prepare(ctx, mech, root, tol, limit, hybrids, sym_kin=True, sym_guess=True, deep=0.0):
    m = LIN.get(mech) or lib.MECHS[mech]
    total = {s: 1.0 for s in m.sites}
    p = {g: 1.0 for g in m.gas}
    c = {g: 1.0 for g in m.liq}
    model = lib.mk_model(lib.setup(m, total=total, rootfinding=root, tolerance=tol,
                                   max_rootfinding_iterations=limit,
                                   archived_variables=["steady_state_coverages", "steady_state_error"]))
    s = model.solver
    s.get_data()
    if sym_kin:
        Ga = [ctx.real("Ga%d" % i, lo=-5, hi=5, typ=(0.4, 1.2)) for i in range(m.n)]
        dG = [ctx.real("dG%d" % i, lo=-5, hi=5, typ=(-0.4, 0.4)) for i in range(m.n)]
    else:
        Ga, dG = [1.25 + 0.05 * i for i in range(m.n)], [(0.1 if mech in uphill else -0.1) - deep + 0.1 * i for i in range(m.n)]
    rel = {"Gaf": Ga, "dG": dG, "Gar": [a - b for a, b in zip(Ga, dG)]}
    kf, kr = s.get_rate_constants(relative_energies=rel)
    guesses = []

    def hybrid(mod, n):
        if len(guesses) >= hybrids:
            raise Enough()
        g = (0.25,) * len(m.ads) if not sym_guess else tuple(ctx.real("h%d_%s" % (len(guesses), a), lo=-2, hi=2, typ=(0.01, 0.3)) for a in m.ads)
        guesses.append(g)
        return g
    model.hybrid_method_register(hybrid)
    return m, model, s, p, c, total, rel, kf, kr, guesses


def accepted(ctx, mech, root, lengths, limit, single, fault=None, errors=True, sym_kin=False, start=None, deep=0.0):
    tol = 1e-8
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(
        ctx, mech, root, tol, limit, len(lengths) - 1, sym_kin, deep=deep)
    plan = Plan(ctx, m, lengths, errors, fault)
    install(plan)
    if start is None:
        c0 = tuple(ctx.real("c_" + a, lo=-2, hi=2, typ=(0.01, 0.3)) for a in m.ads)
    else:
        c0 = (start,) * len(m.ads)

    def res(x):
        return residual(m, model, kf, kr, x, p, c, total)
    try:
        got = s.get_steady_state_cvgs(c0=c0, single_pt=single, relative_energies=rel)
    except Enough:
        got = None
        done = False
    else:
        done = True
    n = plan.attempt + 1
    # start guesses are physical
    for x0 in plan.starts:
        ctx.check(physical(ctx, m, x0, total, 1e-12), "the root finder starts from physical coverages")
    last = plan.log[-1] if plan.log else []
    for log in plan.log:
        ctx.check(len(log) <= limit + 1, "the iteration limit is respected")
    if got is None:
        ctx.check(not done, "a steady state is reported or the search goes on")
        used = [it for log in plan.log for it in log[:limit]]
    else:
        ctx.check(len(got) == len(m.ads), "one coverage per adsorbate")
        if last and all(a is b for a, b in zip(got, last[-1][0])):
            x, e = last[-1]
            ctx.check(len(last) <= limit, "nothing is accepted beyond the iteration limit")
            ctx.check(e <= tol, "the reported error is within the tolerance")
            ctx.check(physical(ctx, m, x, total, 2 * tol), "reported coverages are physical")
        else:
            # a start guess that already is a steady state
            ctx.check(not single, "start guesses are only accepted if asked to check them")
            start = c0 if n == 0 else guesses[n - 1]
            ctx.check(not last or plan.attempt < len(guesses), "a start guess of the current search")
            ctx.check(physical(ctx, m, got, total, 1e-12), "an accepted start guess is physical")
            for a, b in zip(got, start):
                ctx.check(ctx.Or(ctx.Not(physical(ctx, m, start, total)), a == b),
                          "an accepted start guess is the given one")
        ctx.check(within(ctx, res(got), 1.0001 * tol), "reported coverages satisfy the steady state equations")
        for a, b in zip(s.coverages, got):
            ctx.eq(a, b, "solver keeps the reported coverages")
        kept = s._archived_data_dict
        ctx.check(len(kept.get("steady_state_coverages", ())) == len(m.ads), "the reported coverages are archived")
        for a, b in zip(kept["steady_state_coverages"], got):
            ctx.eq(a, b, "the reported coverages are archived")
        ctx.eq(kept["steady_state_error"], s.error, "the reported error is archived")
        start = s._owner.solver.good_guess
        ctx.check(start is not None and len(start) == len(m.ads), "the successful start guess is kept")
        if start is not None:
            for a, b in zip(start, plan.starts[-1] if last and got is last[-1][0] else got):
                ctx.eq(a, b, "the successful start guess is kept")
        used = [it for log in plan.log[:-1] for it in log[:limit]] + last[:limit]
        if last and got is last[-1][0]:
            used = used[:-1]
    # nothing acceptable was thrown away
    for x, e in used:
        ctx.check(ctx.Not(ctx.And(e < 0.999 * tol, within(ctx, res(x), 0.999 * tol),
                                  physical(ctx, m, x, total))),
                  "an acceptable iterate is accepted")


def handed_over(ctx, mech, root):
    """The function and Jacobian given to the root finder are those of the energies asked for."""
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(ctx, mech, root, 1e-8, 5, 0)
    plan = Plan(ctx, m, [0], False)
    install(plan)
    try:
        s.get_steady_state_cvgs(c0=(0.0,) * len(m.ads), single_pt=True, relative_energies=rel)
    except Enough:
        pass
    f, k = plan.parts[0]
    x = tuple(ctx.real("y_" + a, lo=-2, hi=2, typ=(0.01, 0.3)) for a in m.ads)
    want = residual(m, model, kf, kr, x, p, c, total)
    got = f(x)
    th = lib.theta_of(m, x, total)
    scale = sum(sum(r) for r in lib.rates_of(m, kf, kr, th, p, c))
    for a, b in zip(got, want):
        ctx.eq(a, b, "function handed to the root finder", scale=scale)
    J = k["J"](x)
    want = s.analytical_jacobian(x, rel)
    for i in range(len(m.ads)):
        for j in range(len(m.ads)):
            ctx.eq(J[i, j], want[i, j], "Jacobian handed to the root finder", scale=sum(kf) + sum(kr))
    if "constraint" in k and mech == "one":
        ctx.check(physical(ctx, m, k["constraint"](x), total, 1e-12), "constraint handed to the root finder")


def own_energies(ctx, mech):
    """Without given energies the model's are used, for the start guess as well."""
    tol = 1e-8
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(ctx, mech, "MDNewton", tol, 5, 0)
    lib.give_energies(model, Gaf=rel["Gaf"], dG=rel["dG"])
    kf, kr = s.get_rate_constants()
    plan = Plan(ctx, m, [1], True)
    install(plan)
    c0 = (0.5,) * len(m.ads)
    try:
        got = s.get_steady_state_cvgs(c0=c0)
    except Enough:
        return
    ctx.check(within(ctx, residual(m, model, kf, kr, got, p, c, total), 1.0001 * tol),
              "reported coverages satisfy the steady state equations")
    ctx.check(physical(ctx, m, got, total, 2 * tol), "reported coverages are physical")


def no_guess(ctx, mech):
    """Without start coverages the hybrid method supplies (and the solver constrains) them."""
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(
        ctx, mech, "ConstrainedNewton", 1e-8, 5, 1, False)
    plan = Plan(ctx, m, [1], True)
    install(plan)
    try:
        s.get_steady_state_cvgs(single_pt=True, relative_energies=rel)
    except Enough:
        pass
    ctx.check(len(guesses) == 1, "hybrid method is asked once")
    ctx.check(physical(ctx, m, plan.starts[0], total, 1e-12), "the root finder starts from physical coverages")
    ok = physical(ctx, m, guesses[0], total)
    for a, b in zip(plan.starts[0], guesses[0]):
        ctx.check(ctx.Or(ctx.Not(ok), a == b), "a physical guess of the hybrid method is used as it is")


def none_left(ctx, root):
    """No hybrid method: a failed search reports none."""
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(
        ctx, "one", root, 1e-8, 2, 0, False)
    model.hybrid_method = None
    plan = Plan(ctx, m, [2], True)
    install(plan)
    c0 = tuple(ctx.real("c_" + a, lo=0, hi=1, typ=(0.01, 0.3)) for a in m.ads)
    got = s.get_steady_state_cvgs(c0=c0, single_pt=True, relative_energies=rel)
    if got is None:
        for x, e in plan.log[0]:
            ctx.check(ctx.Not(ctx.And(e < 0.999e-8, physical(ctx, m, x, total), within(
                ctx, residual(m, model, kf, kr, x, p, c, total), 0.999e-8))), "an acceptable iterate is accepted")
    else:
        ctx.check(within(ctx, residual(m, model, kf, kr, got, p, c, total), 1.0001e-8),
                  "reported coverages satisfy the steady state equations")


CN, MD = "ConstrainedNewton", "MDNewton"
SCENARIOS = [
    Scenario(accepted, [
        dict(mech="one", root=CN, lengths=(1, 1), limit=5, single=False),
        dict(mech="one", root=MD, lengths=(1, 2), limit=5, single=True, start=0.0),
        dict(mech="one", root=CN, lengths=(3,), limit=1, single=True, start=0.0),
        dict(mech="one", root=CN, lengths=(2, 1), limit=5, single=True, fault=(0, 1), start=0.0),
        dict(mech="one", root=MD, lengths=(1, 1), limit=5, single=False, fault=(0, 0), start=0.25),
        dict(mech="lin2", root=CN, lengths=(1,), limit=5, single=True, start=0.25),
        dict(mech="lin2s", root=MD, lengths=(1,), limit=5, single=False, start=0.25),
        dict(mech="quad", root=MD, lengths=(1,), limit=5, single=True, start=0.25),
        # the second root overfills the site by about 1e-3 and 1e-6
        dict(mech="quad", root=CN, lengths=(1,), limit=5, single=True, start=0.25, deep=0.5),
        dict(mech="quad", root=MD, lengths=(1,), limit=5, single=True, start=0.25, deep=1.1),
        dict(mech="quad_first", root=CN, lengths=(1,), limit=5, single=True, start=0.25),
        dict(mech="quad_last", root=MD, lengths=(1,), limit=5, single=True, start=0.25),
    ], [
        dict(mech="one", root=MD, lengths=(2, 1), limit=5, single=False),
        dict(mech="one", root=MD, lengths=(3, 1), limit=5, single=False, start=0.0),
        dict(mech="one", root=CN, lengths=(2, 2), limit=1, single=True, start=0.0),
        dict(mech="lin2", root=MD, lengths=(2,), limit=5, single=True, start=0.0),
        dict(mech="lin3", root=CN, lengths=(1,), limit=5, single=True, start=0.25),
    ], bounds=BOUNDS),
    Scenario(handed_over, [dict(mech=k, root=r) for k in ("one", "two_site") for r in (CN, MD)],
             [dict(mech=k, root=r) for k in ("co_ox", "liquid") for r in (CN, MD)], bounds=BOUNDS),
    Scenario(own_energies, [dict(mech="one")], bounds=BOUNDS),
    Scenario(no_guess, [dict(mech="one"), dict(mech="lin2s")], [dict(mech="lin3")], bounds=BOUNDS),
    Scenario(none_left, [dict(root=CN)], [dict(root=MD)], bounds=BOUNDS),
]
