"""On-the-fly analyses see every step exactly once."""
from engine.run import Scenario
from . import lib
from .c16 import Plan, Enough, install, prepare

BOUNDS = ("up to 4 iterates per search and 3 searches with arbitrary iterates and errors, the root finder may stop "
          "early or divide by zero at any iterate; one or two analyses, intervals 1-4; 1 adsorbate")
OUTSIDE = "longer searches; analyses that raise"


def new_analysis(log, tag, model_of):
    from scaks.plugins.analysis import OnTheFlyAnalysis

    class Recorder(OnTheFlyAnalysis):
        def setup(self, model, outer_counter):
            log.append((tag, "setup", outer_counter, None, model, None))

        def register_step(self, model, inner_counter, outer_counter):
            s = model.solver
            log.append((tag, "step", outer_counter, inner_counter, model, (s.coverages, s.error)))

        def finalize(self, model, outer_counter):
            log.append((tag, "end", outer_counter, None, model, None))
    return Recorder


class Watched(Plan):
    """Remembers after which iterate the search went on."""

    def __init__(self, *a, **k):
        Plan.__init__(self, *a, **k)
        self.went_on = []
        self.marks = []
        self.calls = None
        self.free = None

    def __call__(self, f, x0, **k):
        self.went_on.append(0)
        return Plan.__call__(self, f, x0, **k)

    def __iter__(self):
        a = self.attempt
        if self.calls is not None:
            self.marks.append(len(self.calls))
        for i in range(self.lengths[a] if a < len(self.lengths) else 0):
            if self.fault == (a, i):
                raise ZeroDivisionError
            c = self.ctx
            x = tuple(c.real("x%d%d_%s" % (a, i, n), lo=-2, hi=2, typ=(0.01, 0.3)) for n in self.m.ads)
            free = i == self.lengths[a] - 1 if self.free is None else (a, i) in self.free
            e = c.real("e%d%d" % (a, i), lo=0 if free else 1e-8, hi=10, typ=(0.0 if free else 1e-8, 0.001))
            self.log[-1].append((x, e))
            yield x, e, list(x)
            self.went_on[a] = i + 1


def lifecycle(ctx, lengths, limit, intervals, fault=None, root="MDNewton", hybrid=True, single=True,
              free=None):
    tol = 1e-8
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(
        ctx, "one", root, tol, limit, len(lengths) - 1, False, False)
    if not hybrid:
        model.hybrid_method = None
    log = []
    for i, iv in enumerate(intervals):
        model.analysis_register(new_analysis(log, i, None))
        model.analysis[i].interval = ctx.int("interval%d" % i, 1, 4) if iv is None else iv
    ctx.check(len(model.analysis) == len(intervals), "every analysis is registered")
    plan = Watched(ctx, m, lengths, True, fault)
    plan.calls, plan.free = log, free
    install(plan)
    try:
        got = s.get_steady_state_cvgs(c0=(0.0,), single_pt=single, relative_energies=rel)
    except Enough:
        got = None
    # one setup and one end per search, with the number of the search
    for i, a in enumerate(model.analysis):
        mine = [r for r in log if r[0] == i]
        ctx.check(all(r[4] is model for r in mine), "analyses are given the model")
        want, pos = [], 0
        for n in range(plan.attempt + 1):
            want.append(("setup", n + 1, None))
            for k in range(1, plan.went_on[n] + 1):
                if k % int(a.interval) == 0:
                    want.append(("step", n + 1, k))
            want.append(("end", n + 1, None))
        ctx.check([(r[1], r[2], r[3]) for r in mine] == want, "setup, the steps of its interval in order, end")
        for r in mine:
            if r[1] != "step":
                continue
            x, e = plan.log[r[2] - 1][r[3] - 1]
            ctx.check(len(r[5][0]) == 1, "one coverage per adsorbate")
            ctx.eq(r[5][0][0], x[0], "the analysis finds the coverages of the step")
    ctx.check(all(k > 0 for k in plan.marks), "analyses are set up before the first step")
    # every analysis is served before the search goes on
    order = [(r[1], r[2], r[3]) for r in log]
    first = [k for j, k in enumerate(order) if j == 0 or order[j - 1] != k]
    ctx.check(len(first) == len(set(first)), "all analyses are served in the same phase")


def inheritance(ctx):
    """A class keeps the methods of the analysis class it extends; missing ones do nothing."""
    from scaks.plugins.analysis import OnTheFlyAnalysis
    names = ["setup", "register_step", "finalize"]
    calls = []

    def method(who, name):
        return lambda self, *a: calls.append((who, name, a))
    own = [{n: method(w, n) for n in names if ctx.bool("%s_%s" % (w, n))} for w in ("parent", "child")]
    Parent = type(OnTheFlyAnalysis)("Parent", (OnTheFlyAnalysis,), dict(own[0]))
    Child = type(OnTheFlyAnalysis)("Child", (Parent,), dict(own[1]))
    args = {"setup": (1, 2), "register_step": (1, 2, 3), "finalize": (1, 2)}
    for k, cls, sources in ((0, Parent, own[:1]), (1, Child, own[::-1])):
        o = cls()
        for n in names:
            del calls[:]
            getattr(o, n)(*args[n])
            who = [("child" if src is own[1] else "parent") for src in sources if n in src][:1]
            ctx.check(calls == [(w, n, args[n]) for w in who], "the nearest definition of a method is called")


def intervals(ctx):
    """Only positive whole numbers are intervals."""
    from scaks.plugins.analysis import OnTheFlyAnalysis
    meta = type(OnTheFlyAnalysis)
    ok = ctx.choice("ok", [1, 2, 7])
    bad = ctx.choice("bad", [0, -1, 1.0, 1.5, "1", None, True, [1]])
    ctx.check(meta("A", (OnTheFlyAnalysis,), {"interval": ok})().interval == ok, "interval is kept")
    ctx.check(meta("A", (OnTheFlyAnalysis,), {})().interval == 1, "every step by default")
    ctx.raises(TypeError, "wrong interval is rejected", meta, "A", (OnTheFlyAnalysis,), {"interval": bad})
    ctx.raises(AttributeError, "a method must be callable", meta, "A", (OnTheFlyAnalysis,), {"setup": ok})


def register_type(ctx):
    m, model, s, p, c, total, rel, kf, kr, guesses = prepare(ctx, "one", "MDNewton", 1e-8, 3, 0, False)
    bad = ctx.choice("bad", [int, object, dict])
    ctx.raises(TypeError, "only analyses can be registered", model.analysis_register, bad)
    ctx.check(len(model.analysis) == 0, "rejected class is not registered")


CN, MD = "ConstrainedNewton", "MDNewton"
SCENARIOS = [
    Scenario(lifecycle, [
        dict(lengths=(4, 1), limit=9, intervals=(None,)),
        dict(lengths=(3, 2), limit=9, intervals=(1, 2), root=CN),
        dict(lengths=(3, 1), limit=1, intervals=(1, 2)),
        dict(lengths=(3, 1), limit=9, intervals=(1,), fault=(0, 2)),
        dict(lengths=(2, 2), limit=9, intervals=(2, 1), fault=(1, 1), root=CN),
        dict(lengths=(2,), limit=9, intervals=(1,), fault=(0, 1), hybrid=False),
        dict(lengths=(2,), limit=1, intervals=(1, 1), hybrid=False),
        dict(lengths=(1, 1), limit=9, intervals=(1,), single=False),
        dict(lengths=(0, 1), limit=9, intervals=(1,)),
        dict(lengths=(1, 1), limit=9, intervals=(1,), fault=(0, 0)),
        dict(lengths=(3,), limit=9, intervals=(1,), free=((0, 0), (0, 1))),
    ], [
        dict(lengths=(4,), limit=9, intervals=(None, None)),
        dict(lengths=(2, 2), limit=9, intervals=(1, 2), free=((0, 0), (0, 1), (1, 0))),
        dict(lengths=(2, 2, 2), limit=9, intervals=(2, 1)),
        dict(lengths=(4, 2), limit=2, intervals=(3, 2)),
    ], bounds=BOUNDS),
    Scenario(inheritance, [dict()], bounds="every combination of defined methods, parent and child"),
    Scenario(intervals, [dict()], bounds=BOUNDS),
    Scenario(register_type, [dict()], bounds=BOUNDS),
]
