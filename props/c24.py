"""Kinetic Monte Carlo sampling counts every event once."""
from engine.run import Scenario
from . import kmc

BOUNDS = ("runs of up to 5 events over 3 processes, lattices of up to 4 points with any occupation, times, ratios, rates and "
          "intervals arbitrary reals, buffers of 1-3 entries and the default")
OUTSIDE = "longer runs; the event loop of KMCLib (a stand-in feeds the samplers in its documented order)"


class Conf(object):
    def __init__(self, types):
        self._t = types

    def types(self):
        return list(self._t)


class Inter(object):
    def __init__(self, picked, sites=(), rates=()):
        self.p, self.s, self.r = picked, list(sites), list(rates)

    def pickedIndex(self):
        return self.p

    def processAvailableSites(self):
        return list(self.s)

    def processRates(self):
        return list(self.r)


def model(ctx, rep=(1, 1, 1), nbasis=1, **extra):
    """A model whose run has been handed to the recording stand-in."""
    d = dict(extra)
    basis = [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0]][:nbasis]
    m = kmc.mk_model(kmc.setup(kmc.RXNS[:2], {"CO_g": 2.0, "O2_g": 1.5}, repetitions=rep, basis_sites=basis, **d))
    ads = kmc.process(kmc.RXNS[0], [[kmc.ORIGIN]], ["V"], ["C"], [0])
    pair = kmc.process(kmc.RXNS[1], [[kmc.ORIGIN, kmc.RIGHT]], ["V", "V"], ["O_s", "O_s"], [0], redist=True)
    kmc.read(ctx, m, [0.5, 0.6], [0.1, 0.2], [ads, pair])
    m.run(scripting=False)
    return m


def times(ctx, n, start=None, tie=False):
    """n increasing times after the start of the run (tie: some may be equal)."""
    t = [ctx.real("t0", lo=0, hi=5) if start is None else start]
    for i in range(n):
        if tie and i and ctx.bool("same%d" % (i + 1)):
            t.append(t[-1])
        else:
            t.append(t[-1] + ctx.real("d%d" % (i + 1), lo=0.0078125, hi=50))
    return t


def load(name):
    v = {}
    with open(name) as f:
        exec(f.read(), v)
    return v


def drive(plugin, t, confs, inters):
    plugin.setup(0, t[0], confs[0], inters[0])
    for i in range(1, len(t)):
        plugin.registerStep(i, t[i], confs[i], inters[i])
    plugin.finalize()


def coverages(ctx, rep, nbasis, n, buf, empty, free):
    from scaks.solvers.kmc_plugins import CoveragesAnalysis
    els = kmc.TYPES
    ratios = [ctx.real("w%d" % i, lo=0.125, hi=3) for i in range(nbasis)]
    m = model(ctx, rep, nbasis, coverage_ratios=ratios, empty_type=empty)
    npts = rep[0] * rep[1] * rep[2] * nbasis
    t = times(ctx, n)
    occ = []
    for s in range(n + 1):
        o = [els[(3 * s + i) % 4] for i in range(npts)]
        for i in range(npts):
            if (s, i) in free:
                o[i] = ctx.choice("o%d%d" % (s, i), els)
        occ.append(o)
    kw = {} if buf is None else dict(buffer_size=buf)
    p = CoveragesAnalysis(m, filename="cov.py", **kw)
    drive(p, t, [Conf(o) for o in occ], [None] * (n + 1))
    v = load("cov.py")
    ctx.check_list(v["times"], t, "times")
    ctx.check(list(v["steps"]) == list(range(n + 1)), "steps")
    ctx.check(list(v["possible_types"]) == els, "element types")
    ctx.check(len(v["coverages"]) == len(els), "one row per element type")
    nsite = rep[0] * rep[1] * rep[2]
    for k, e in enumerate(els):
        ctx.check(len(v["coverages"][k]) == n + 1, "one coverage per step")
        for s in range(n + 1):
            if e == empty:
                want = 1 - sum(ratios[i % nbasis] for i in range(npts) if occ[s][i] != empty) / nsite
            else:
                want = sum(ratios[i % nbasis] for i in range(npts) if occ[s][i] == e) / nsite
            ctx.eq(v["coverages"][k][s], want, "coverage of a type")
    ctx.check([list(c.types()) for c in [Conf(o) for o in occ]] == occ, "configuration untouched")


def picks(ctx, n, np):
    return [ctx.choice("e%d" % i, list(range(np))) for i in range(1, n + 1)]


def frequency(ctx, n, rep, nbasis, tie=False):
    from scaks.solvers.kmc_plugins import FrequencyAnalysis
    start = ctx.choice("start", list(range(0, n + 2)))
    m = model(ctx, rep, nbasis, tof_start=start)
    names = list(m.process_mapping)
    t = times(ctx, n, tie=tie)
    e = [0] * (n - 1) + picks(ctx, n, len(names))[-1:] if tie else picks(ctx, n, len(names))
    p = FrequencyAnalysis(m, filename="freq.py")
    drive(p, t, [None] * (n + 1), [Inter(None)] + [Inter(x) for x in e])
    v = load("freq.py")
    ctx.check(list(v["process_occurencies"]) == [e.count(i) for i in range(len(names))], "events per process")
    want = {r: sum(1 for x in e if names[x] == r) for r in names}
    ctx.check(v["reaction_occurencies"] == want, "events per reaction")
    late = [(i, x) for i, x in enumerate(e, 1) if i >= start]
    want = {r: sum(1 for _, x in late if names[x] == r) for r in names}
    ctx.check(v["steady_reaction_occurencies"] == want, "events per reaction in the steady part")
    got = v["reaction_rates"]
    ctx.check(sorted(got) == sorted(set(names)), "a rate per reaction")
    nsite = rep[0] * rep[1] * rep[2] * nbasis
    dt = t[-1] - t[late[0][0]] if late else 0.0
    if len(late) > 1 and dt > 0:
        for r in got:
            ctx.eq(got[r] * dt * nsite, want[r], "rates of the steady part")
    else:
        for r in got:
            ctx.eq(got[r], 0, "no rate without a time interval")


def tof(ctx, n, buf, rep, nbasis):
    from scaks.solvers.kmc_plugins import TOFAnalysis
    width = ctx.real("width", lo=0.5, hi=20)
    m = model(ctx, rep, nbasis, tof_interval=width)
    names = list(m.process_mapping)
    t = times(ctx, n)
    e = picks(ctx, n, len(names) if n < 4 else 2)
    if n >= 4:
        e = [(len(names) - 1) * x for x in e]    # the first and the last process
    kw = {} if buf is None else dict(buffer_size=buf)
    p = TOFAnalysis(m, filename="tof.py", **kw)
    drive(p, t, [None] * (n + 1), [Inter(None)] + [Inter(x) for x in e])
    v = load("tof.py")
    ctx.check(list(v["processes"]) == names, "names of the processes")
    nsite = rep[0] * rep[1] * rep[2] * nbasis
    at, count, row = t[0], [0] * len(names), 0
    for i in range(1, n + 1):
        count[e[i - 1]] += 1
        if t[i] - at > width:
            ctx.check(row < len(v["times"]) and row < len(v["tofs"]), "every interval is written")
            ctx.eq(v["times"][row], at, "begin of the interval")
            ctx.check(len(v["tofs"][row]) == len(names), "a frequency per process")
            for k in range(len(names)):
                ctx.eq(v["tofs"][row][k] * (t[i] - at) * nsite, count[k], "frequency in the interval")
            at, count, row = t[i], [0] * len(names), row + 1
    ctx.check(len(v["times"]) == row and len(v["tofs"]) == row, "no other intervals")


def shown(ctx, text, value, spec, label):
    text = text.strip()
    if text.startswith("__zq"):
        v = eval(text)
        return ctx.check(ctx.And(v - value <= 0.0051 * (1 if spec == "p" else abs(value)),
                                 value - v <= 0.0051 * (1 if spec == "p" else abs(value))), label)
    v = float(text)
    ctx.check(abs(v - float(value)) <= (0.0051 if spec == "p" else 0.0051 * max(abs(v), 1e-30)), label)


def events(ctx, n, buf):
    from scaks.solvers.kmc_plugins import EventAnalysis
    m = model(ctx)
    names = list(m.solver.process_mapping)
    t = [0.5 * i for i in range(n + 1)]
    e = picks(ctx, n, len(names))
    sites = [[(2 * s + k) % 3 + 1 for k in range(len(names))] for s in range(n + 1)]
    rates = [[ctx.real("r%d%d" % (s, k), lo=0.125, hi=100) if s in (1, 2) else 0.25 + k for k in range(len(names))]
             for s in range(n + 1)]
    kw = {} if buf is None else dict(buffer_size=buf)
    p = EventAnalysis(m, filename="ev.txt", **kw)
    drive(p, t, [None] * (n + 1), [Inter(0, sites[0], rates[0])] +
          [Inter(e[s - 1], sites[s], rates[s]) for s in range(1, n + 1)])
    with open("ev.txt") as f:
        text = f.read()
    head, tabs = text.split("\nStep: ")[0], text.split("\nStep: ")[1:]
    lines = [[c.strip() for c in x.strip().strip("|").split("|")] for x in head.split("\n") if x.startswith("|")]
    ctx.check(lines[1:] == [[str(i), r] for i, r in enumerate(names)], "list of the processes")
    ctx.check(len(tabs) == n - 1, "a table for every event but the last")
    for s, tab in enumerate(tabs, 1):
        ctx.check(tab.split("\n")[0] == str(s), "number of the step")
        ctx.check("available sites number: %d\n" % sum(sites[s]) in tab, "number of available sites")
        ctx.check("picked in step %d)" % (s + 1) in tab, "step of the pick")
        lines = [[c.strip() for c in x.strip().strip("|").split("|")] for x in tab.split("\n") if x.startswith("|")]
        ctx.check(len(lines) == len(names) + 1, "a row per process")
        total = sum(a * b for a, b in zip(sites[s], rates[s]))
        for i, r in enumerate(names):
            row = lines[i + 1]
            mark = "-> " if i == e[s] else ""
            ctx.check(row[0] == "%s(%d) %s" % (mark, i, r), "process and mark of the picked one")
            ctx.check(row[1] == str(sites[s][i]), "available sites")
            one = sites[s][i] * rates[s][i]
            shown(ctx, row[2], one, "e", "total rate")
            ctx.check(row[3].endswith("%"), "probability in per cent")
            shown(ctx, row[3][:-1], one / total * 100, "p", "probability")


def master(ctx):
    """Other processes than the master leave the files alone."""
    import os
    from engine.shims_env import COMM
    from scaks.solvers import kmc_plugins as k
    which = ctx.choice("which", ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"])
    n = ctx.choice("n", [1, 3])
    COMM.size = 2
    try:
        for rank in (0, 1):
            m = model(ctx, coverage_ratios=[1.0], tof_interval=0.1)
            COMM.rank = rank
            p = getattr(k, which)(m, **(dict() if which == "FrequencyAnalysis" else dict(buffer_size=1)))
            t = times(ctx, n) if rank == 0 else t
            i = Inter(0, [1] * len(m.process_mapping), [1.0] * len(m.process_mapping))
            name = [f for f in os.listdir(".") if f.startswith("auto_")]
            old = {f: open(f).read() for f in name}
            ctx.check(rank == 0 or len(name) == 1, "the master writes one file")
            drive(p, t, [Conf(["V"])] * (n + 1), [i] * (n + 1))
            new = {f: open(f).read() for f in os.listdir(".") if f.startswith("auto_")}
            ctx.check(rank == 0 or new == old, "only the master writes")
            COMM.rank = 0
    finally:
        COMM.rank, COMM.size = 0, 1


SCENARIOS = [
    Scenario(coverages, [dict(rep=(2, 1, 1), nbasis=2, n=2, buf=1, empty="V", free=[(0, 0), (1, 1), (2, 3)]),
                         dict(rep=(1, 1, 1), nbasis=2, n=3, buf=2, empty="O_s", free=[(1, 0), (3, 1)]),
                         dict(rep=(1, 2, 1), nbasis=1, n=3, buf=3, empty="C", free=[(1, 0), (2, 1)]),
                         dict(rep=(1, 1, 1), nbasis=1, n=1, buf=None, empty="O", free=[(0, 0), (1, 0)])],
             [dict(rep=(2, 2, 1), nbasis=1, n=4, buf=2, empty="V", free=[(0, 0), (1, 1), (2, 3), (4, 2)]),
              dict(rep=(2, 1, 2), nbasis=3, n=3, buf=1, empty="V", free=[(0, 0), (1, 7), (3, 11)])], bounds=BOUNDS),
    Scenario(frequency, [dict(n=1, rep=(1, 1, 1), nbasis=1), dict(n=3, rep=(2, 1, 3), nbasis=2),
                         dict(n=3, rep=(1, 2, 1), nbasis=1, tie=True)],
             [dict(n=4, rep=(2, 1, 1), nbasis=1)], bounds=BOUNDS),
    Scenario(tof, [dict(n=3, buf=1, rep=(2, 1, 1), nbasis=2), dict(n=4, buf=2, rep=(1, 1, 1), nbasis=1),
                   dict(n=3, buf=None, rep=(1, 3, 1), nbasis=1)],
             [dict(n=5, buf=3, rep=(1, 1, 1), nbasis=1)], bounds=BOUNDS),
    Scenario(events, [dict(n=2, buf=1), dict(n=3, buf=2), dict(n=3, buf=None)], [dict(n=4, buf=2)], bounds=BOUNDS),
    Scenario(master, bounds=BOUNDS),
]
