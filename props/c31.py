"""ODE integration: what is integrated, where it starts and ends, and what is written."""
import os
from engine.run import Scenario
from . import lib

BOUNDS = ("mechanisms with 1-3 adsorbates; arbitrary coverages, rate parameters, start, end and span of the integration "
          "(up to 6 steps, 10 in the thorough tier); every trajectory the integrator may deliver (its points are free variables); "
          "output intervals 1-4; a failure of the integrator at any step")
OUTSIDE = "the quality of scipy's integrators (replaced by a stand-in that may deliver any trajectory)"


class Ode(object):
    """Stand-in for scipy.integrate.ode: delivers the points the plan says."""
    plan = None

    def __init__(self, f, jac=None):
        self.f, self.p = f, Ode.plan
        self.p.odes.append(self)
        self.calls = []
        self.t = self.y = None

    def set_integrator(self, name, **kw):
        self.integrator = (name, kw)
        return self

    def set_initial_value(self, y, t=0.0):
        import numpy as np
        self.start = (list(y), t)
        self.t, self.y = t, np.array(list(y), dtype=object)
        return self

    def successful(self):
        return True

    def get_return_code(self):
        return 2

    def integrate(self, t, step=False, relax=False):
        import numpy as np
        k = len(self.calls)
        if k == self.p.fail_at:
            raise ArithmeticError("integrator")
        if k >= self.p.limit:
            raise RuntimeError("too many steps")
        self.calls.append(t)
        self.t, self.y = t, np.array(self.p.point(k), dtype=object)
        return self.y


class Plan(object):
    def __init__(self, ctx, n, limit, fail_at=None):
        self.ctx, self.n, self.limit, self.fail_at, self.odes = ctx, n, limit, fail_at, []
        self.points = {}

    def point(self, k):
        if k not in self.points:
            self.points[k] = [self.ctx.real("y%d_%d" % (k, j), lo=-1, hi=2) for j in range(self.n)]
        return self.points[k]


def install(plan):
    import scipy.integrate
    import scaks.solvers.steady_state_solver as sss
    Ode.plan = plan
    scipy.integrate.ode = Ode
    if hasattr(sss, "ode"):
        sss.ode = Ode


def model_of(ctx, mech, own=True, **extra):
    m = lib.MECHS[mech]
    p, c, T = lib.symbolic_conditions(ctx, m, T=False)
    model = lib.mk_model(lib.setup(m, p=p, c=c, **extra))
    if own:
        lib.give_energies(model, [0.5] * len(m.exprs), dG=[-0.25] * len(m.exprs))
    model.solver.get_data()
    return m, model, p, c


def constants(ctx, m, model):
    """Rate constants become free positive variables."""
    n = len(m.exprs)
    kf = [ctx.real("kf%d" % i, positive=True, typ=(0.1, 9.0)) for i in range(n)]
    kr = [ctx.real("kr%d" % i, positive=True, typ=(0.1, 9.0)) for i in range(n)]
    seen = []

    def get(relative_energies=None, log=False, **kw):
        seen.append(relative_energies)
        return tuple(kf), tuple(kr)
    model.solver.get_rate_constants = get
    return kf, kr, seen


def function(ctx, mech, energies):
    """The integrated function is the coverage balance of this model, at the given energies."""
    m, model, p, c = model_of(ctx, mech)
    kf, kr, seen = constants(ctx, m, model)
    plan = Plan(ctx, len(m.ads), 3)
    install(plan)
    y0 = lib.coverages(ctx, m, prefix="y0_")
    e = {"Gaf": [0.75] * len(kf), "Gar": [1.0] * len(kf), "dG": [-0.25] * len(kf)} if energies else None
    model.solver.solve_ode(time_end=0.5, time_span=0.5, initial_cvgs=y0, relative_energies=e)
    ctx.check(len(plan.odes) == 1, "one integration")
    o = plan.odes[0]
    del seen[:]
    for tag in "ab":
        th = lib.coverages(ctx, m, prefix=tag + "_")
        t = ctx.real("t" + tag, lo=0, hi=1e3)
        got = o.f(t, th)
        rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, th), p, c)
        ctx.check_list(list(got), lib.dtheta_of(m, rf, rr), "the integrated function is the coverage balance")
    ctx.check(len(seen) > 0 and all(s is e or s == e for s in seen), "the given energies are used")


def trajectory(ctx, mech, limit, output, fail=False):
    """Start, steps, end and file of one integration."""
    k = ctx.choice("interval", [1, 2, 4]) if output else 200
    m, model, p, c = model_of(ctx, mech, ode_output_interval=k)
    n = len(m.ads)
    fail_at = ctx.choice("fail at", list(range(limit))) if fail else None
    plan = Plan(ctx, n, limit, fail_at)
    install(plan)
    t0 = ctx.real("t0", lo=0, hi=100, typ=(0.0, 2.0))
    t1 = ctx.real("t1", lo=0, hi=100, typ=(0.0, 9.0))
    dt = ctx.real("dt", positive=True, hi=50, typ=(0.5, 2.0))
    ctx.assume(t1 <= t0 + dt * limit)
    if fail:
        ctx.assume(t1 > t0 + dt * fail_at)
    y0 = [ctx.real("y_%d" % j, lo=0, hi=1) for j in range(n)]
    kw = dict(algo=ctx.choice("algo", ["lsoda", "vode"])) if not output else {}
    err = None
    try:
        got = model.solver.solve_ode(time_start=t0, time_end=t1, time_span=dt, initial_cvgs=tuple(y0),
                                     traj_output=output, **kw)
    except ArithmeticError as e:
        err = e
    ctx.check((err is not None) == fail, "a failed integration is reported")
    o = plan.odes[0]
    ctx.check(o.integrator[0] == kw.get("algo", "lsoda"), "the wanted algorithm")
    ctx.check_list(o.start[0], y0, "the integration starts at the given coverages")
    ctx.eq(o.start[1], t0, "the integration starts at the given time")
    for i, t in enumerate(o.calls):
        ctx.eq(t, t0 + dt * (i + 1), "equal steps")
    N = len(o.calls)
    if not fail:
        ctx.check(t0 + dt * N >= t1, "the end is reached")
        if N:
            ctx.check(t0 + dt * (N - 1) < t1, "the end is not overrun")
        ctx.eq(got[0], t0 + dt * N, "the last time is returned")
        ctx.check_list(list(got[1]), plan.point(N - 1) if N else y0, "the last coverages are returned")
    name = "auto_ode_coverages.py"
    ctx.check(os.path.exists(name) == output, "the trajectory is written on demand")
    if output:
        v = {}
        with open(name) as f:
            exec(f.read(), v)
        steps = [i for i in range(N) if (i + 1) % k == 0]
        ctx.check(len(v["times"]) == len(v["coverages"]), "a time for every point")
        ctx.check_list(list(v["times"]), [t0 + dt * (i + 1) for i in steps], "times of every wanted step")
        ctx.check(len(v["coverages"]) == len(steps), "coverages of every wanted step")
        for a, i in zip(v["coverages"], steps):
            ctx.check_list(list(a), plan.point(i), "coverages match their times")


def twice(ctx, mech):
    """A second integration is written alone and does not see the first."""
    m, model, p, c = model_of(ctx, mech, ode_output_interval=1)
    n = len(m.ads)
    for r in range(2):
        plan = Plan(ctx, n, 3)
        plan.points = {i: [ctx.real("y%d_%d_%d" % (r, i, j), lo=-1, hi=2) for j in range(n)] for i in range(3)}
        install(plan)
        y0 = [ctx.real("s%d_%d" % (r, j), lo=0, hi=1) for j in range(n)]
        t, y = model.solver.solve_ode(time_end=3 - r, time_span=1.0, initial_cvgs=y0, traj_output=True)
        v = {}
        with open("auto_ode_coverages.py") as f:
            exec(f.read(), v)
        ctx.check_list(list(v["times"]), [1.0, 2.0, 3.0][:3 - r], "times of this run")
        for a, i in zip(v["coverages"], range(3)):
            ctx.check_list(list(a), plan.points[i], "points of this run")
        ctx.check(len(v["coverages"]) == 3 - r, "points of this run")
        ctx.check_list(plan.odes[0].start[0], y0, "start of this run")
        ctx.check_list(list(y), plan.points[2 - r], "end of this run")


def default_start(ctx, mech, absolute):
    """Without initial coverages the integration starts from the Boltzmann ones, or clean surfaces."""
    m, model, p, c = model_of(ctx, mech, own=not absolute, **({"parser": "AbsoluteEnergyParser"} if absolute else {}))
    e = {}
    if absolute:
        names = list(m.ads) + list(m.sites) + list(m.gas) + list(m.liq) + \
            [x for st in m.rxns if len(st) == 3 for x in st[1]]
        for x in dict.fromkeys(names):
            e[x] = ctx.real("E_" + x, lo=-2, hi=2) if x in m.ads else 0.0
        ctx.module("abs.py", absolute_energies=e)
        model.parser.parse_data(filename="abs.py")
    plan = Plan(ctx, len(m.ads), 1)
    install(plan)
    kw = ctx.choice("kw", [{}, {"initial_cvgs": None}, {"initial_cvgs": ()}])
    model.solver.solve_ode(time_end=1.0, time_span=1.0, **kw)
    y0 = plan.odes[0].start[0]
    if not absolute:
        return ctx.check_list(y0, [0.0] * len(m.ads), "clean surface")
    ctx.check_list(y0, list(model.solver.boltzmann_coverages()), "Boltzmann coverages")


def users(ctx, where):
    """Everything that asks for a trajectory takes its last coverages."""
    m, model, p, c = model_of(ctx, "co_ox")
    n = len(m.ads)
    plan = Plan(ctx, n, 2000)
    end = [ctx.real("e%d" % j, lo=-1, hi=2) for j in range(n)]
    plan.points = {}
    plan.point = lambda k: end
    install(plan)
    if where == "modify":
        import scaks.solvers.steady_state_solver as sss
        draws = [ctx.choice("end", [1, 3]), ctx.choice("digits", [0, 1])]
        it = iter(draws)
        sss.random.randint = lambda a, b: next(it)
        f = model.solver.modify_init_guess
        got = f(*([] if f.__code__.co_argcount == 1 else [[0.0] * n, [0.0] * n][:f.__code__.co_argcount - 1]))
    else:
        got = model.hybrid_method(model, ctx.choice("N", [0, 1, 3]))
    ctx.check_list(list(got), end, "the last coverages of the trajectory")


SCENARIOS = [
    Scenario(function, [dict(mech=k, energies=e) for k in ("one", "co_ox", "mixed") for e in (False, True)],
             [dict(mech=k, energies=True) for k in ("two_site", "liquid", "dissoc", "both_sides")], bounds=BOUNDS),
    Scenario(trajectory, [dict(mech="one", limit=6, output=False), dict(mech="co_ox", limit=6, output=True),
                          dict(mech="mixed", limit=4, output=True), dict(mech="co_ox", limit=4, output=True, fail=True)],
             [dict(mech="co_ox", limit=10, output=True), dict(mech="mixed", limit=8, output=True, fail=True)], bounds=BOUNDS),
    Scenario(twice, [dict(mech="one"), dict(mech="co_ox")], bounds=BOUNDS),
    Scenario(default_start, [dict(mech=k, absolute=a) for k in ("one", "co_ox", "mixed") for a in (False, True)],
             [dict(mech="two_site", absolute=True)], bounds=BOUNDS),
    Scenario(users, [dict(where="modify"), dict(where="hybrid")], bounds=BOUNDS),
]
