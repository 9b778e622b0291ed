"""Kinetic Monte Carlo processes carry the kinetic model's rates."""
import os

from engine.run import Scenario
from . import lib, kmc
from .c18 import constants

BOUNDS = ("1-3 reactions, 1-3 process definitions with 1-2 basis sites and 1-2 coordinate groups, all barriers and "
          "reaction energies in [-5, 5] eV, temperatures 310-1500 K, pressures > 0, every combination of flags; "
          "coordinates arbitrary reals")
OUTSIDE = "the KMCLib engine itself (replaced by a recording stand-in)"


def conditions(ctx, rxns):
    m = lib.Mech("m", rxns)
    p, c, T = lib.symbolic_conditions(ctx, m, lo_T=310, hi_T=1500)
    n = len(rxns)
    Ga = [ctx.real("Ga%d" % i, lo=0.01, hi=5, typ=(0.4, 1.2)) for i in range(n)]
    dG = [ctx.real("dG%d" % i, lo=-5, hi=5, typ=(-0.4, 0.4)) for i in range(n)]
    return m, p, T, Ga, dG


def expected(ctx, m, p, T, Ga, dG, algo, model):
    """Rates of both directions of every reaction."""
    kf, kr = constants(ctx, Ga, dG, T)
    out = []
    for i, st in enumerate(m.rxns):
        rates = []
        for k, side in ((kf[i], st[0]), (kr[i], st[-1])):
            r = k
            for g, n in side.items():
                if lib.kind(g) == "gas":
                    for _ in range(n):
                        r = r * p[g]
            rates.append(r)
        out.append(rates)
    if algo == "CT":
        rel = {"Gaf": Ga, "dG": dG, "Gar": [a - b for a, b in zip(Ga, dG)]}
        out = [model.solver.get_rxn_rates_CT(e, rel, include_pressure=True) for e in m.exprs]
    return out


def generate(ctx, rxns, procs, algo="TST", twice=False):
    m, p, T, Ga, dG = conditions(ctx, rxns)
    model = kmc.mk_model(kmc.setup(rxns, p, temperature=T, rate_algo=algo))
    procs = [dict(d) for d in procs]
    for i, d in enumerate(procs):
        if d.pop("flags", False):
            d["fast"] = ctx.bool("fast%d" % i)
            d["redist"] = ctx.bool("redist%d" % i)
            if d["redist"]:
                d["redist_species"] = "C"
    kmc.read(ctx, model, Ga, dG, procs)
    want = expected(ctx, m, p, T, Ga, dG, algo, model)
    if twice:
        model.solver.get_processes()
    got = model.solver.processes
    labels = model.solver.process_mapping
    plan, names = [], []
    for d in procs:
        i = rxns.index(d["reaction"])
        for site in d["basis_sites"]:
            for xyz in d["coordinates_group"]:
                plan.append((xyz, d["elements_before"], d["elements_after"], site, want[i][0], d, True))
                if not d.get("redist"):
                    plan.append((xyz, d["elements_after"], d["elements_before"], site, want[i][1], d, False))
                if not d.get("fast"):
                    names += [d["reaction"] + "(->)"] + ([] if d.get("redist") else [d["reaction"] + "(<-)"])
    ctx.check(len(got) == len(plan), "one forward and (unless excluded) one reverse process per site and group")
    for g, (xyz, before, after, site, rate, d, fwd) in zip(got, plan):
        k = g.kw
        ctx.check(k["elements_before"] == before and k["elements_after"] == after, "configurations")
        ctx.check(list(k["basis_sites"]) == [site], "basis site")
        ctx.check([list(x) for x in k["coordinates"]] == [list(x) for x in xyz], "coordinates")
        ctx.eq(k["rate_constant"], rate, "rate constant of the direction")
        ctx.check(bool(k.get("fast", False)) == bool(d.get("fast", False)), "fast flag")
        if fwd:
            ctx.check(bool(k.get("redist", False)) == bool(d.get("redist", False)), "redistribution flag")
            ctx.check(k.get("redist_species") == d.get("redist_species"), "redistribution species")
        else:
            ctx.check(not k.get("redist", False), "a reverse process is never used to redistribute")
    ctx.check(list(labels) == names, "one label per process, in their order")
    ctx.check(all(a is b for a, b in zip(model.solver.processes, got)) and
              list(model.solver.process_mapping) == names, "asked again, the same processes")


BAD = ["reaction", "element", "length", "missing", "type", "sites"]


def rejected(ctx):
    """Definitions that do not fit the model are rejected."""
    from scaks.errors.error import SetupError
    model = kmc.mk_model(kmc.setup(kmc.RXNS, {}))
    what = ctx.choice("what", BAD)
    d = dict(kmc.PAIR)
    d["reaction"] = kmc.RXNS[1]
    if what == "reaction":
        d["reaction"] = ctx.choice("reaction", ["CO_g + *_s -> CO_s", "", kmc.RXNS[1] + " "])
    elif what == "element":
        k = ctx.choice("key", ["elements_before", "elements_after"])
        i = ctx.choice("pos", [0, 1])
        d[k] = list(d[k])
        d[k][i] = ctx.char("el", "XYZo")
        if ctx.bool("wild"):    # a wildcard elsewhere
            o = ctx.choice("other", [(a, b) for a in ("elements_before", "elements_after") for b in (0, 1) if (a, b) != (k, i)])
            d[o[0]] = list(d[o[0]])
            d[o[0]][o[1]] = "*"
    elif what == "length":
        k = ctx.choice("key", ["elements_before", "elements_after"])
        d[k] = ["V"] * ctx.choice("n", [0, 1, 3])
    elif what == "missing":
        del d[ctx.choice("key", ["reaction", "coordinates_group", "elements_before", "elements_after",
                                 "basis_sites"])]
    elif what == "type":
        k = ctx.choice("key", ["reaction", "coordinates_group", "elements_before", "basis_sites"])
        d[k] = 1
    else:
        d["basis_sites"] = ctx.choice("sites", [[0.0], ["0"], [0, None]])
    kmc.read(ctx, model, [0.5] * 3, [0.1] * 3, [d])
    ctx.raises(SetupError, "a definition that does not fit is rejected", model.solver.get_processes)


def coordinates(ctx, n):
    """Coordinates of a group must differ."""
    from scaks.errors.error import SetupError
    from scaks.utilities.check_utilities import check_process_dict
    xyz = [[ctx.real("x%d%s" % (i, a), lo=-2, hi=2) for a in "xyz"] for i in range(n)]
    d = kmc.process(kmc.RXNS[1], [xyz], ["V"] * n, ["C"] * n, [0])
    same = []
    for i in range(n):
        for j in range(i):
            same.append(ctx.And(*[c for a, b in zip(xyz[i], xyz[j]) for c in (a - b <= 1e-6, b - a <= 1e-6)]))
    try:
        r = check_process_dict(d)
        ctx.check(ctx.Not(ctx.Or(*same)), "equal coordinates are rejected")
        ctx.check(r is d or r == d, "the definition is returned")
    except SetupError:
        ctx.check(ctx.Or(*same), "different coordinates are accepted")


def wildcard(ctx):
    """'*' stands for any element."""
    model = kmc.mk_model(kmc.setup(kmc.RXNS, {"CO_g": 2.0, "O2_g": 1.0, "CO2_g": 1.0}))
    k = ctx.choice("key", ["elements_before", "elements_after"])
    i = ctx.choice("pos", [0, 1])
    d = dict(kmc.PAIR)
    d[k] = list(d[k])
    d[k][i] = "*"
    kmc.read(ctx, model, [0.5] * 3, [0.1] * 3, [d])
    ctx.check(len(model.solver.get_processes()) == 8, "wildcards are accepted")


def run(ctx):
    """The processes generated are those simulated."""
    import KMCLib
    m, p, T, Ga, dG = conditions(ctx, kmc.RXNS[:2])
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:2], p, temperature=T))
    kmc.read(ctx, model, Ga, dG, [kmc.ADS, kmc.PAIR])
    del KMCLib.KMCLatticeModel.runs[:]
    scripting = ctx.bool("scripting")
    model.run(scripting=scripting)
    ctx.check(len(KMCLib.KMCLatticeModel.runs) == 1, "one simulation")
    lattice = KMCLib.KMCLatticeModel.runs[0][0].kw
    sim = lattice["interactions"].kw["processes"]
    ctx.check(len(sim) == 10 and all(a is b for a, b in zip(sim, model.processes)), "processes of the simulation")
    ctx.check(lattice["interactions"].kw["implicit_wildcards"] is True, "unlisted neighbours do not matter")
    ctx.check(lattice["configuration"] is model.configuration, "configuration of the simulation")
    ctx.check(lattice["sitesmap"] is model.sitesmap, "sites of the simulation")
    ctx.check(list(model.process_mapping) == [kmc.RXNS[0] + s for s in ("(->)", "(<-)")] +
              [kmc.RXNS[1] + s for s in ("(->)", "(<-)")] * 4, "labels of the simulation")


def scripts(ctx, dicts):
    """The script of the processes lists each of them once, in their order; files hold the returned text."""
    import KMCLib
    m, p, T, Ga, dG = conditions(ctx, kmc.RXNS[:2])
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:2], p, temperature=T))
    kmc.read(ctx, model, Ga, dG, [kmc.ADS, kmc.PAIR][:dicts])
    objects = {}

    def script(self, name="x"):
        ref = "obj%d" % len(objects)
        objects[ref] = self
        return "%s = %s\n" % (name, ref)

    rec = KMCLib.KMCUnitCell.__mro__[1]
    old, rec._script = rec._script, script
    try:
        solver = model.solver
        write = ctx.bool("write")
        for what, obj in (("processes", list(solver.processes)),
                          ("interactions", KMCLib.KMCInteractions(processes=solver.processes)),
                          ("configuration", model.configuration),
                          ("lattice_model", KMCLib.KMCLatticeModel(configuration=model.configuration))):
            f = getattr(solver, "script_" + what)
            text = f(obj, script_name="s_%s.py" % what) if write else f(obj)
            scope = dict(objects)
            exec(text, scope)
            if what == "processes":
                got = scope["processes"]
                ctx.check(len(got) == len(obj) and all(a is b for a, b in zip(got, obj)),
                          "the script has every process once, in order")
            else:
                ctx.check(scope["x"] is obj, "the script describes the object given")
            ctx.check(text.startswith("#") and "from KMCLib import *" in text, "the script can be run on its own")
            name = "auto_s_%s.py" % what
            ctx.check(os.path.exists(name) == bool(write), "a file is written if wanted")
            if write:
                with open(name) as g:
                    ctx.check(g.read() == text, "the file holds the script")
    finally:
        rec._script = old


def flagged(d):
    return dict(d, flags=True)


TWO = '2CO_g + 2*_t -> 2CO_t'
DES = 'CO_t -> CO_g + *_t'
SCENARIOS = [
    Scenario(generate, [
        dict(rxns=kmc.RXNS, procs=[kmc.ADS, kmc.PAIR, kmc.REACT]),
        dict(rxns=kmc.RXNS, procs=[kmc.REACT, flagged(kmc.ADS)], twice=True),
        dict(rxns=[TWO, DES], procs=[kmc.process(TWO, [[kmc.ORIGIN, kmc.UP]], ["V", "V"], ["C", "C"], [1]),
                                     kmc.process(DES, [[kmc.ORIGIN]], ["C"], ["V"], [0])]),
        dict(rxns=kmc.RXNS, procs=[flagged(kmc.PAIR), flagged(kmc.ADS)]),
        dict(rxns=kmc.RXNS[:1], procs=[kmc.ADS], algo="CT"),
    ], [
        dict(rxns=kmc.RXNS, procs=[flagged(kmc.PAIR), flagged(kmc.ADS), flagged(kmc.REACT)]),
        dict(rxns=[TWO, DES], procs=[kmc.process(TWO, [[kmc.ORIGIN, kmc.UP]], ["V", "V"], ["C", "C"], [1])],
             algo="CT"),
    ], bounds=BOUNDS),
    Scenario(rejected, bounds=BOUNDS),
    Scenario(coordinates, [dict(n=1), dict(n=2)], [dict(n=3)], bounds=BOUNDS),
    Scenario(wildcard, bounds=BOUNDS),
    Scenario(run, bounds=BOUNDS),
    Scenario(scripts, [dict(dicts=1), dict(dicts=2)], bounds=BOUNDS),
]
