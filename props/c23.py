"""Kinetic Monte Carlo input is transferred completely and validated."""
import os
from engine.run import Scenario
from . import lib, kmc

BOUNDS = ("repetitions 1-2 (3) per axis, 1-2 basis sites, every site and element type by name, cell vectors and basis "
          "points arbitrary reals, every control parameter arbitrary within its type")
OUTSIDE = "larger lattices; validation inside KMCLib (replaced by a recording stand-in)"


def rows(a):
    return [list(r) for r in a.tolist()] if hasattr(a, "tolist") else [list(r) for r in a]


def lattice(ctx, nbasis, top):
    """Cell, basis, repetitions and periodicity reach the lattice unchanged."""
    cell = [[ctx.real("v%d%d" % (i, j), lo=-9, hi=9) for j in range(3)] for i in range(3)]
    basis = [[ctx.real("b%d%d" % (i, j), lo=-1, hi=1) for j in range(3)] for i in range(nbasis)]
    rep = tuple(ctx.choice("r%d" % i, list(range(1, t + 1))) for i, t in enumerate(top))
    per = ctx.choice("per", [(True, True, False), (False, True, True), (True, False, True), (False,) * 3])
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}, cell_vectors=cell, basis_sites=basis,
                                   repetitions=rep, periodic=per))
    kmc.read(ctx, model, [0.5], [0.1], [kmc.ADS])
    n = rep[0] * rep[1] * rep[2] * nbasis
    for what in (model.configuration, model.sitesmap):
        lat = what.kw["lattice"].kw
        ctx.check(tuple(lat["repetitions"]) == rep, "repetitions")
        ctx.check(tuple(bool(x) for x in lat["periodic"]) == per, "periodicity")
        got = rows(lat["unit_cell"].kw["cell_vectors"])
        ctx.check(len(got) == 3, "three cell vectors")
        for r, w in zip(got, cell):
            ctx.check_list(r, w, "cell vectors")
        got = rows(lat["unit_cell"].kw["basis_points"])
        ctx.check(len(got) == nbasis, "basis points")
        for r, w in zip(got, basis):
            ctx.check_list(r, w, "basis points")
        ctx.check(len(what.kw["types"]) == n, "one type per lattice site")
    ctx.check(list(model.configuration.kw["types"]) == ["V"] * n, "empty lattice by default")
    ctx.check(list(model.sitesmap.kw["types"]) == ["P"] * n, "first site type by default")


def types(ctx, rep, nbasis, k):
    """Types given in the files are used; site types are checked."""
    from scaks.errors.error import SetupError
    els = kmc.TYPES
    sites = ["P", "Q"]
    basis = [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]][:nbasis]
    n = rep[0] * rep[1] * rep[2] * nbasis
    conf = [ctx.choice("c%d" % i, els) if i < 2 else els[i % 4] for i in range(n)]
    st = [ctx.choice("s%d" % i, ["P", "Q", "Z"]) if i in (0, n + k - 1) else sites[i % 2] for i in range(n + k)]
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}, repetitions=rep, basis_sites=basis,
                                   possible_site_types=sites))
    ok = len(st) == n and "Z" not in st
    try:
        kmc.read(ctx, model, [0.5], [0.1], [kmc.ADS], types=conf, site_types=st)
        ctx.check(ok, "wrong numbers and unknown site types are rejected")
    except SetupError:
        ctx.check(not ok, "fitting site types are accepted")
        return
    ctx.check(list(model.sitesmap.kw["types"]) == st, "site types")
    ctx.check(list(model.sitesmap.kw["possible_types"]) == sites, "possible site types")
    ctx.check(list(model.configuration.kw["types"]) == conf, "element types")
    ctx.check(list(model.configuration.kw["possible_types"]) == els, "possible element types")


def other_files(ctx):
    """Files without the expected variable mean the defaults."""
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}))
    ctx.module("kmc_configuration.py", something=1)
    ctx.module("kmc_sites.py", something=1)
    explicit = ctx.bool("explicit")
    names = dict(configuration_file="kmc_configuration.py", sitesmap_file="kmc_sites.py") if explicit else {}
    ctx.module("rel_energy.py", Ga=[0.5], dG=[0.1])
    ctx.module("kmc_processes.py", processes=[kmc.ADS])
    model.parser.parse_data(**(dict(names, processes_file="kmc_processes.py") if explicit else {}))
    ctx.check(list(model.configuration.kw["types"]) == ["V"] * 4, "empty lattice by default")
    ctx.check(list(model.sitesmap.kw["types"]) == ["P"] * 4, "first site type by default")
    ctx.check(model.process_dicts == [kmc.ADS], "process definitions")


FILES = {"energy_file": "rel_energy.py", "processes_file": "kmc_processes.py",
         "configuration_file": "kmc_configuration.py", "sitesmap_file": "kmc_sites.py"}


def named_files(ctx):
    """Files named by the caller are read, files of the usual names otherwise."""
    sites = ["P", "Q"]
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}, possible_site_types=sites))
    named = {k: ctx.bool(k) for k in sorted(FILES)}
    a, b = ctx.real("a", lo=0.5, hi=2), ctx.real("b", lo=3, hi=5)
    other = kmc.process(kmc.RXNS[0], [[kmc.ORIGIN]], ["O"], ["C"], [1])
    one = dict(energy_file=dict(Ga=[a], dG=[-0.25]), processes_file=dict(processes=[kmc.ADS]),
               configuration_file=dict(types=["V", "O", "C", "V"]), sitesmap_file=dict(site_types=["P", "Q", "P", "P"]))
    two = dict(energy_file=dict(Ga=[b], dG=[-0.5]), processes_file=dict(processes=[other]),
               configuration_file=dict(types=["C", "O", "O", "V"]), sitesmap_file=dict(site_types=["Q", "Q", "P", "Q"]))
    kw = {}
    for k, f in FILES.items():
        ctx.module(f, **one[k])
        ctx.module("my_" + f, **two[k])
        if named[k]:
            kw[k] = "my_" + f
    model.parser.parse_data(**kw)
    want = {k: (two if named[k] else one)[k] for k in FILES}
    ctx.eq(model.relative_energies["Gaf"][0], b if named["energy_file"] else a, "energies of the file asked for")
    ctx.eq(model.relative_energies["dG"][0], want["energy_file"]["dG"][0], "energies of the file asked for")
    ctx.check(model.process_dicts == want["processes_file"]["processes"], "processes of the file asked for")
    ctx.check(list(model.configuration.kw["types"]) == want["configuration_file"]["types"], "types of the file asked for")
    ctx.check(list(model.sitesmap.kw["types"]) == want["sitesmap_file"]["site_types"], "site types of the file asked for")


def empty_type(ctx):
    """The empty type must be one of the element types."""
    from scaks.errors.error import SetupError
    e = ctx.choice("empty", kmc.TYPES + ["X", "", "v"])
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}, empty_type=e))
    try:
        kmc.read(ctx, model, [0.5], [0.1], [kmc.ADS])
        ctx.check(e in kmc.TYPES, "unknown empty types are rejected")
        ctx.check(list(model.configuration.kw["types"]) == [e] * 4, "empty lattice by default")
    except SetupError:
        ctx.check(e not in kmc.TYPES, "known empty types are accepted")


PARAMS = {"time_limit": "time_limit", "number_of_steps": "nstep", "dump_interval": "trajectory_dump_interval",
          "seed": "random_seed", "rng_type": "random_generator", "analysis_interval": "analysis_interval",
          "start_time": "start_time", "extra_traj": "extra_trajectories", "do_redistribution": "do_redistribution"}
REDIST = {"redistribution_interval": "redistribution_interval", "fast_species": "fast_species", "nsplits": "nsplits",
          "distributor_type": "distributor_type", "empty_element": "empty_type"}


def control(ctx, redist):
    """Every control parameter reaches the simulation."""
    ctx.int_tokens()
    v = dict(nstep=ctx.int("nstep", 1, 1000), random_seed=ctx.int("seed", 0, 99999),
             trajectory_dump_interval=ctx.int("dump", 1, 100), start_time=ctx.real("start", lo=0, hi=100),
             time_limit=ctx.real("limit", lo=0, hi=1000), analysis_interval=ctx.choice("ai", [1, 3, [2], [1, (0, 9, 2)]]),
             random_generator=ctx.choice("rng", ["MT", "MINSTD", "RANLUX24"]),
             extra_trajectories=ctx.choice("extra", [[1, 5], [2]]), do_redistribution=redist)
    if redist:
        v.update(redistribution_interval=ctx.int("ri", 1, 50), fast_species=ctx.choice("fs", [["C"], ["O", "C"]]),
                 nsplits=ctx.choice("ns", [(1, 1, 1), (2, 3, 1)]),
                 distributor_type=ctx.choice("dt", ["RandomDistributor", "ProcessRandomDistributor"]))
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}, **v))
    v["empty_type"] = "V"
    got = model.solver.get_control_parameters().kw
    want = dict(PARAMS, **REDIST) if redist else PARAMS
    ctx.check(sorted(got) == sorted(want), "every control parameter is given")
    for k, a in want.items():
        x, y = got[k], v[a]
        if isinstance(y, (str, list, tuple, bool)):
            ctx.check(type(y)(x) == y, "control parameter " + k)
        else:
            ctx.eq(x, y, "control parameter " + k)


def defaults(ctx):
    sd = kmc.setup(kmc.RXNS[:1], {})
    for k in ("nstep", "random_seed", "trajectory_dump_interval", "random_generator"):
        del sd[k]
    got = kmc.mk_model(sd).solver.get_control_parameters().kw
    want = dict(time_limit=float("inf"), number_of_steps=1, dump_interval=1, seed=None, rng_type="MT",
                analysis_interval=None, start_time=0.0, extra_traj=None, do_redistribution=False)
    for k in sorted(want):
        ctx.check(got[k] == want[k], "default of " + k)


def run(ctx, names):
    """Trajectory, control parameters and analyses of a run."""
    import KMCLib
    from scaks.solvers import kmc_plugins
    names = [ctx.choice("a%d" % i, ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"])
             for i in range(names)]
    ctx.int_tokens()
    n = ctx.int("nstep", 1, 1000)
    kind = ctx.choice("traj", ["lattice", "xyz"])
    model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {"CO_g": 2.0}, analysis=names, nstep=n, coverage_ratios=[1.0, 1.0]))
    kmc.read(ctx, model, [0.5], [0.1], [kmc.ADS])
    del KMCLib.KMCLatticeModel.runs[:]
    scripting = ctx.bool("scripting")
    model.run(scripting=bool(scripting), trajectory_type=kind)
    ctx.check(len(KMCLib.KMCLatticeModel.runs) == 1, "one simulation")
    sim, k = KMCLib.KMCLatticeModel.runs[0][0], KMCLib.KMCLatticeModel.runs[0][2]
    parts = dict(zip(("configuration", "sitesmap", "interactions"), sim.args), **sim.kw)
    ctx.check(parts.get("configuration") is model.configuration, "the simulation starts from the configuration read")
    ctx.check(parts.get("sitesmap") is model.sitesmap, "the simulation runs on the sites read")
    inter = parts["interactions"]
    inter = dict(zip(("processes", "implicit_wildcards"), inter.args), **inter.kw)
    got, want = list(inter["processes"]), list(model.processes)
    ctx.check(len(got) == len(want) == 2 and all(a is b for a, b in zip(got, want)), "the simulation has every process")
    ctx.check(len(model.process_mapping) == len(got), "one label per process")
    ctx.check(inter.get("implicit_wildcards", True) is True, "surroundings that are not listed do not matter")
    ctx.check(os.path.exists("auto_kmc_model.py") == bool(scripting), "a script is written if wanted")
    ctx.eq(k["control_parameters"].kw["number_of_steps"], n, "steps of the run")
    ctx.check(k["trajectory_type"] == kind, "type of the trajectory")
    ctx.check(k["trajectory_filename"] == "auto_%s_trajectory.py" % kind, "file of the trajectory")
    got = k["analysis"] or []
    ctx.check([type(a) for a in got] == [getattr(kmc_plugins, x) for x in names], "analyses in order")


SCENARIOS = [
    Scenario(lattice, [dict(nbasis=1, top=(2, 2, 1)), dict(nbasis=2, top=(2, 1, 2))],
             [dict(nbasis=3, top=(3, 2, 2))], bounds=BOUNDS),
    Scenario(types, [dict(rep=(1, 1, 1), nbasis=2, k=0), dict(rep=(2, 1, 1), nbasis=1, k=1),
                     dict(rep=(2, 2, 1), nbasis=1, k=-1), dict(rep=(2, 1, 2), nbasis=2, k=0)],
             [dict(rep=(3, 2, 1), nbasis=2, k=0), dict(rep=(3, 1, 1), nbasis=2, k=-2)], bounds=BOUNDS),
    Scenario(other_files, bounds=BOUNDS),
    Scenario(named_files, bounds=BOUNDS),
    Scenario(empty_type, bounds=BOUNDS),
    Scenario(control, [dict(redist=False), dict(redist=True)], bounds=BOUNDS),
    Scenario(defaults, bounds=BOUNDS),
    Scenario(run, [dict(names=0), dict(names=1), dict(names=2)], bounds=BOUNDS),
]
