"""Constraining coverages."""
from engine.run import Scenario
from . import lib

GUARD_BANDS = True      # compares with bands narrower than the identification of roundings
BOUNDS = ("all real coverages in [-100, 100], site totals in (0, 1], up to 4 adsorbates on up to two kinds of sites "
          "(5 in the thorough tier)")
OUTSIDE = "site totals above one; rounding"

EXTRA = {"five": lib.Mech("five", ['CO_g + *_s -> CO_s', 'NO_g + *_s -> NO_s',
                                   'CO_s + NO_s -> CN_s + O2_s', 'HO_s -> HO_g + *_s'])}


def start(ctx, mech):
    m = lib.MECHS.get(mech) or EXTRA[mech]
    total = {s: ctx.real("tot_" + s, lo=0.001, hi=1, typ=(0.3, 1.0)) for s in m.sites}
    model = lib.mk_model(lib.setup(m, total=total))
    return m, model, total


class Enough(Exception):
    pass


def constrain(m, model):
    """The function that constrains coverages: the method itself, or what the root finder is given."""
    f = getattr(model.solver, "_SteadyStateSolver__constrain_coverages", None)
    if f is not None:
        return f
    from scaks.solvers import steady_state_solver as ss
    seen = []

    def stop(f, x0, **k):
        seen.append(k["constraint"])
        raise Enough()
    old = ss.ConstrainedNewton
    ss.ConstrainedNewton = stop
    rel = {"Gaf": [1.0] * m.n, "dG": [-0.5] * m.n, "Gar": [1.5] * m.n}
    try:
        model.solver.get_data()
        model.solver.get_steady_state_cvgs(c0=(0.0,) * len(m.ads), relative_energies=rel)
    except Enough:
        pass
    finally:
        ss.ConstrainedNewton = old
    return seen[0]


def group(m, s):
    return [i for i, a in enumerate(m.ads) if "*_" + lib.site_of(a)[1] == s]


def physical(ctx, mech):
    """Whatever comes in, physical coverages come out, in the given order."""
    m, model, total = start(ctx, mech)
    th = [ctx.real("th_" + a, lo=-100, hi=100, typ=(-0.5, 1.5)) for a in m.ads]
    out = constrain(m, model)(tuple(th))
    ctx.check(len(out) == len(th), "one coverage per adsorbate")
    for s in m.sites:
        t = 0.0
        for i in group(m, s):
            ctx.le(0, out[i], "no negative coverage")
            t = t + out[i]
        ctx.le(t, total[s], "sites are not overfull")
    for i in range(len(th)):
        if th[i] <= 0:
            ctx.eq(out[i], 0, "negative coverage becomes zero")
        else:
            ctx.check(out[i] > 0, "a positive coverage is not removed")
            ctx.le(out[i], th[i], "no coverage is raised")


def untouched(ctx, mech):
    m, model, total = start(ctx, mech)
    th = lib.coverages(ctx, m)
    for s in m.sites:
        t = 0.0
        for i in group(m, s):
            t = t + th[i]
        ctx.assume(t <= total[s])
    out = constrain(m, model)(tuple(th))
    for a, b in zip(out, th):
        ctx.eq(a, b, "physical coverages are unchanged")
    ctx.check(len(out) == len(th), "one coverage per adsorbate")


def proportions(ctx, mech):
    m, model, total = start(ctx, mech)
    th = [ctx.real("th_" + a, lo=0, hi=1, typ=(0.05, 0.9)) for a in m.ads]
    over = {}
    for s in m.sites:
        t = 0.0
        for i in group(m, s):
            ctx.assume(th[i] <= total[s])
            t = t + th[i]
        over[s] = t
    out = constrain(m, model)(tuple(th))
    for s in m.sites:
        g = group(m, s)
        full = over[s] > total[s]
        for i in g:
            if full:
                ctx.eq(out[i] * over[s], th[i] * total[s], "overfull site: scaled to its total")
            else:
                ctx.eq(out[i], th[i], "adsorbates of another site are left alone")


def twice(ctx, mech):
    m, model, total = start(ctx, mech)
    th = [ctx.real("th_" + a, lo=-100, hi=100, typ=(-0.5, 1.5)) for a in m.ads]
    f = constrain(m, model)
    a = f(tuple(th))
    b = f(tuple(a))
    for x, y in zip(a, b):
        ctx.eq(x, y, "constraining again changes nothing")


SCENARIOS = [
    Scenario(physical, [dict(mech=k) for k in ("one", "co_ox", "repeat", "mixed")],
             [dict(mech=k) for k in ("both_sides", "two_site", "liquid")], bounds=BOUNDS),
    Scenario(untouched, [dict(mech=k) for k in ("one", "co_ox", "mixed", "two_site", "dissoc")],
             [dict(mech=k) for k in ("assoc", "five")], bounds=BOUNDS),
    Scenario(proportions, [dict(mech=k) for k in ("co_ox", "mixed", "two_site")],
             [dict(mech=k) for k in ("dissoc", "liquid", "assoc")], bounds=BOUNDS),
    Scenario(twice, [dict(mech="one"), dict(mech="co_ox")], [dict(mech="mixed")], bounds=BOUNDS),
]
