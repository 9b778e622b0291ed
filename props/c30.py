"""Models validate their parameters and stay independent."""
import copy
from engine.run import Scenario
from . import lib, kmc

BOUNDS = ("every parameter of the two models; values of every basic type (integers and reals arbitrary, texts, sequences and dictionaries "
          "by example); sequences of up to 2 entries; process definitions of up to 3 points with arbitrary coordinates; "
          "intervals with arbitrary integers")
OUTSIDE = "longer sequences, values of user-defined classes"
INF = float("inf")
LEVELS = list(range(0, 60, 10))

# documented type, default and candidates (None: any)
BASE = {"logger_level": (int, 20, LEVELS), "file_handler_level": (int, 10, LEVELS), "console_handler_level": (int, 20, LEVELS),
        "temperature": (float, 298.0, None), "rate_algo": (str, "TST", None), "unitcell_area": (float, 0.0, None),
        "active_ratio": (float, 1.0, None), "setup_file": (str, "", None), "setup_dict": (dict, {}, None),
        "rxn_expressions": ([str], [], None), "components": ([str], ["parser"], None)}
MICRO = dict(BASE, decimal_precision=(int, 100, None), perturbation_size=(float, 0.01, None),
             perturbation_direction=(str, "right", ["right", "left"]),
             archived_variables=([str], ["steady_state_coverages"], None),
             numerical_representation=(str, "mpmath", ["mpmath", "sympy"]),
             rootfinding=(str, "MDNewton", ["MDNewton", "ConstrainedNewton"]), tolerance=(float, 1e-8, None),
             max_rootfinding_iterations=(int, 100, None), ode_buffer_size=(int, 500, None),
             ode_output_interval=(int, 200, None))
KMC = dict(BASE, nstep=(int, 1, None), random_seed=(int, None, None), time_seed=(bool, False, None),
           trajectory_dump_interval=(int, 1, None), random_generator=(str, "MT", ["MT", "MINSTD", "RANLUX24", "RANLUNX48"]),
           repetitions=([int], (1, 1, 1), None), periodic=([bool], (True, True, True), None),
           analysis=([str], [], ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"]),
           possible_element_types=([str], [], None), possible_site_types=([str], [], None), empty_type=(str, "V", None),
           tof_start=(int, 0, None), time_limit=(float, INF, None), coverage_ratios=([float], [], None),
           extra_trajectories=([int], None, None), start_time=(float, 0.0, None), tof_interval=(float, 10, None),
           do_redistribution=(bool, False, None), redistribution_interval=(int, 1, None), fast_species=([str], None, None),
           nsplits=([int], (1, 1, 1), None), distributor_type=(str, "RandomDistributor",
                                                               ["RandomDistributor", "ProcessRandomDistributor"]))
TABLES = {"micro": MICRO, "kmc": KMC}


def bare(kind):
    """An instance without parameters."""
    if kind == "micro":
        from scaks.models.micro_kinetic_model import MicroKineticModel as M
    else:
        from scaks.models.kmc_model import KMCModel as M
    return object.__new__(M)


def value(ctx, tag, texts):
    """A value of any basic type: (type, value)."""
    t = ctx.choice(tag + " type", ["int", "float", "bool", "str", "list", "dict", "none"])
    if t == "int":
        return int, ctx.int(tag + "i", -5, 120)
    if t == "float":
        return float, ctx.real(tag + "r", lo=-50, hi=500)
    if t == "bool":
        return bool, ctx.choice(tag + "b", [True, False])
    if t == "str":
        return str, ctx.choice(tag + "s", texts)
    if t == "list":
        return list, [1.5]
    if t == "dict":
        return dict, {"a": 1}
    return None, None


def same(ctx, a, b, label):
    if isinstance(b, (bool, str, list, tuple, dict)) or b is None or b == INF:
        ctx.check(type(a) is type(b) and a == b, label)
    else:
        ctx.eq(a, b, label)


def basic(ctx, kind, names):
    """Plain parameters take values of their type (and candidates) only."""
    ctx.int_tokens()
    name = ctx.choice("name", names)
    typ, default, cands = TABLES[kind][name]
    m = bare(kind)
    texts = (cands + ["right ", ""]) if typ is str and cands else ["x", ""]
    t, v = value(ctx, "v", texts)
    ok = t is typ or (typ is float and t is int)
    if ok and cands is not None:
        ok = ctx.Or(*[v == c for c in cands]) if typ is int else v in cands
        ok = bool(ok)
    try:
        setattr(m, name, v)
        ctx.check(ok, "wrong values are rejected")
        same(ctx, getattr(m, name), v, "the given value is kept")
    except ValueError:
        ctx.check(not ok, "right values are accepted")
        same(ctx, getattr(m, name), default, "a rejected value leaves the default")


def sequences(ctx, kind, names):
    """Sequence parameters take lists and tuples of their entry type only."""
    ctx.int_tokens()
    name = ctx.choice("name", names)
    (typ,), default, cands = TABLES[kind][name]
    m = bare(kind)
    n = ctx.choice("n", [0, 1, 2])
    box = ctx.choice("box", ["list", "tuple", "str", "dict", "none"])
    ent = []
    ok = box in ("list", "tuple")
    if box in ("list", "tuple"):
        for i in range(n):
            good = {int: ctx.int("i%d" % i, -9, 99), float: ctx.real("r%d" % i, lo=-9, hi=9), bool: True,
                    str: cands[i] if cands else "x"}[typ]
            bad = {int: 1.0, float: 1, bool: 0, str: b"x"}[typ]
            how = ctx.choice("entry%d" % i, ["good", "bad", "none"] + (["other"] if cands else []))
            ent.append({"good": good, "bad": bad, "none": None, "other": "X"}[how])
            ok = ok and how == "good"
        v = list(ent) if box == "list" else tuple(ent)
    else:
        v = {"str": "abc", "dict": {"a": 1}, "none": None}[box]
    try:
        setattr(m, name, v)
        ctx.check(ok, "wrong sequences are rejected")
        got = getattr(m, name)
        ctx.check(type(got) is type(v) and len(got) == len(v), "the given sequence is kept")
        for a, b in zip(got, v):
            same(ctx, a, b, "the given sequence is kept")
    except ValueError:
        ctx.check(not ok, "right sequences are accepted")
        same(ctx, getattr(m, name), default, "a rejected sequence leaves the default")


def long_sequences(ctx, kind, names, n):
    """One wrong entry anywhere is found."""
    name = ctx.choice("name", names)
    (typ,), default, cands = TABLES[kind][name]
    m = bare(kind)
    good = {int: 3, float: 0.5, bool: True, str: cands[0] if cands else "x"}[typ]
    v = [good] * n
    at = ctx.choice("at", list(range(n + 1)))
    if at < n:
        v[at] = ctx.choice("wrong", [None, {int: 1.0, float: 1, bool: 0, str: b"x"}[typ]] + (["X"] if cands else []))
    if at < n:
        ctx.raises(ValueError, "wrong sequences are rejected", setattr, m, name, v)
        same(ctx, getattr(m, name), default, "a rejected sequence leaves the default")
    else:
        setattr(m, name, v)
        ctx.check(list(getattr(m, name)) == [good] * n, "the given sequence is kept")


def frozen(ctx, kind, names):
    """A parameter cannot be changed after it was set or read."""
    name = ctx.choice("name", names)
    typ, default, cands = TABLES[kind][name]

    def val(tag):
        if typ is int:
            return ctx.choice(tag, cands) if cands else ctx.int(tag, 0, 99)
        if typ is float:
            return ctx.real(tag, lo=0, hi=99)
        if typ is bool:
            return ctx.choice(tag, [True, False])
        if typ is str:
            return ctx.choice(tag, cands or ["a", "b"])
        if typ is dict:
            return {"a": 1}
        return [{int: 3, float: 0.5, bool: True, str: (cands or ["q"])[0]}[typ[0]]]
    m, other = bare(kind), bare(kind)
    a, b = val("a"), val("b")
    first = ctx.choice("first", ["set", "read"])
    if first == "set":
        setattr(m, name, a)
    else:
        a = getattr(m, name)
        same(ctx, a, default, "unset parameters have their default")
    ctx.raises(AttributeError, "parameters cannot be changed later", setattr, m, name, b)
    same(ctx, getattr(m, name), a, "the value stays")
    same(ctx, getattr(other, name), default, "another model is not concerned")


def own_defaults(ctx, kind):
    """Mutable defaults and values are not shared between models."""
    a, b = bare(kind), bare(kind)
    for name, (typ, default, _) in sorted(TABLES[kind].items()):
        v = getattr(a, name)
        same(ctx, v, default, "default")
        if isinstance(v, list):
            v.append("mine")
        elif isinstance(v, dict):
            v["mine"] = 1
        same(ctx, getattr(b, name), default, "defaults are not shared")
        same(ctx, getattr(bare(kind), name), default, "defaults are not changed")
    for m in (a, b):
        d = m.species_definitions
        ctx.check(d == {}, "default")
        d["x"] = {}
        ctx.check(m.species_definitions == {}, "definitions are handed out as copies")


STEPS = ['CO_g + *_s -> CO_s', 'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s']


def source(ctx):
    """Dictionary and file give the same model; the dictionary has priority."""
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.errors.error import ParameterError
    T = ctx.choice("T", [450.0, 500])
    tol = ctx.choice("tol", [1e-6, 0.25])
    sd = dict(rxn_expressions=STEPS, species_definitions={"CO_g": {"pressure": 1.5}, "CO2_g": {"pressure": 0.5}, "s": {"type": "111", "total": 1.0}},
              temperature=T, tolerance=tol, parser="RelativeEnergyParser", solver="SteadyStateSolver", corrector="ThermodynamicCorrector",
              rate_algo="CT", unitcell_area=9e-20, active_ratio=0.25, not_a_parameter=3)
    how = ctx.choice("how", ["dict", "file", "both", "none", "no parser"])
    ctx.module("setup.mkm", **(sd if how == "file" else dict(sd, temperature=77.0)))
    if how == "none":
        return ctx.raises(ValueError, "parameters are needed", MicroKineticModel, logger_level=50)
    if how == "no parser":
        del sd["parser"]
        return ctx.raises(ParameterError, "a parser is needed", MicroKineticModel, setup_dict=sd, logger_level=50)
    kw = {"dict": dict(setup_dict=sd), "file": dict(setup_file="setup.mkm"), "both": dict(setup_dict=sd, setup_file="setup.mkm")}[how]
    before = copy.deepcopy(sd)
    m = MicroKineticModel(logger_level=50, **kw)
    for k, v in before.items():
        if k in ("parser", "solver", "corrector"):
            ctx.check(type(getattr(m, k)).__name__ == v, "components")
        elif k == "not_a_parameter":
            ctx.check(not hasattr(m, k), "unknown names are ignored")
        else:
            same(ctx, getattr(m, k), v, "parameters")
    ctx.check(sd == before, "the given dictionary is left alone")
    ctx.check(list(m.adsorbate_names) == ["CO_s", "O_s"] and sorted(m.gas_names) == ["CO2_g", "CO_g"], "species")


def two_models(ctx):
    """Models built from different parameters keep their own."""
    from scaks.models.micro_kinetic_model import MicroKineticModel
    ctx.int_tokens()
    out = []
    vals = []
    for i in range(2):
        v = dict(temperature=ctx.real("T%d" % i, lo=300, hi=900), tolerance=ctx.real("tol%d" % i, lo=0, hi=1),
                 decimal_precision=50, perturbation_size=ctx.real("ps%d" % i, lo=0, hi=1),
                 max_rootfinding_iterations=ctx.int("mi%d" % i, 1, 500))
        p = ctx.real("p%d" % i, lo=0.125, hi=9)
        rx = STEPS[:i + 1]
        sd = dict(v, rxn_expressions=rx, species_definitions={"CO_g": {"pressure": p}, "CO2_g": {"pressure": 0.5}, "s": {"type": "111", "total": 1.0}},
                  parser="RelativeEnergyParser", solver="SteadyStateSolver")
        out.append(MicroKineticModel(setup_dict=sd, logger_level=50))
        vals.append((v, p, rx))
    for m, (v, p, rx) in zip(out, vals):
        for k, x in v.items():
            ctx.eq(getattr(m, k), x, "own parameter")
        ctx.eq(m.species_definitions["CO_g"]["pressure"], p, "own species")
        ctx.check(list(m.rxn_expressions) == rx and len(m.elementary_rxns_list) == len(rx), "own reactions")
        ctx.check(m.parser._owner is m and m.solver._owner is m, "own components")
        ctx.check(list(m.adsorbate_names) == (["CO_s"] if len(rx) == 1 else ["CO_s", "O_s"]), "own adsorbates")
    ctx.check(out[0].solver is not out[1].solver and out[0].parser is not out[1].parser, "own components")


def components(ctx):
    """Components are chosen by a known name."""
    name = ctx.choice("name", ["parser", "solver", "corrector", "plotter"])
    good = {"parser": ["RelativeEnergyParser", "AbsoluteEnergyParser", "KMCParser"], "solver": ["KMCSolver", "SteadyStateSolver"],
            "corrector": ["ThermodynamicCorrector"], "plotter": ["EnergyProfilePlotter"]}
    every = sorted(sum(good.values(), [])) + ["ParserBase", "os", "", 3, None]
    v = ctx.choice("value", every)
    m = bare("micro")
    m.species_definitions = {"CO_g": {"pressure": 1.0}}
    if v in good[name]:
        if v in ("SteadyStateSolver", "KMCSolver", "EnergyProfilePlotter"):
            return
        setattr(m, name, v)
        ctx.check(type(getattr(m, name)).__name__ == v and getattr(m, name)._owner is m, "the named component is made")
    else:
        ctx.raises(ValueError, "other names are rejected", setattr, m, name, v)
        ctx.check(getattr(m, name) is None, "nothing is set")


def handed_over(ctx):
    """Ready-made components are taken if they are of the right kind."""
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.solvers.steady_state_solver import SteadyStateSolver
    from scaks.correctors.thermodynamic_corrector import ThermodynamicCorrector
    sd = dict(rxn_expressions=STEPS, species_definitions={"CO_g": {"pressure": 1.5}, "CO2_g": {"pressure": 0.5}, "s": {"type": "111", "total": 1.0}},
              temperature=ctx.real("T", lo=100, hi=900), parser="RelativeEnergyParser")
    if ctx.choice("preset", [False, True]):
        sd.update(solver="SteadyStateSolver", corrector="ThermodynamicCorrector")
    m = MicroKineticModel(setup_dict=sd, logger_level=50)
    s, c = SteadyStateSolver(m), ThermodynamicCorrector(m)
    old = m.solver, m.corrector
    which = ctx.choice("which", ["solver", "corrector"])
    what = ctx.choice("what", ["right", "other", "name", "none"])
    v = {"right": s if which == "solver" else c, "other": c if which == "solver" else s, "name": type(s).__name__, "none": None}[what]
    f = m.set_solver if which == "solver" else m.set_corrector
    if what == "right":
        f(v)
        ctx.check(getattr(m, which) is v, "the component is used")
        ctx.check((m.corrector is old[1]) if which == "solver" else (m.solver is old[0]), "the other one stays")
    else:
        ctx.raises(TypeError, "things that are no such component are rejected", f, v)
        ctx.check((m.solver, m.corrector) == old, "nothing is changed")


def definitions(ctx):
    """Gases need a pressure, reference energies are texts with floats."""
    from scaks.errors.error import SetupError
    m = bare("micro")
    key = ctx.choice("key", ["CO_g", "H2O_l", "s", "CO_s"])
    has = ctx.choice("has", ["pressure", "concentration", "both", "nothing"])
    x = ctx.real("x", lo=0, hi=9)
    d = {"pressure": {"pressure": x}, "concentration": {"concentration": x}, "both": {"pressure": x, "concentration": x}, "nothing": {}}[has]
    ok = key != "CO_g" or has in ("pressure", "both")
    try:
        m.species_definitions = {"O2_g": {"pressure": x}, key: d}
        ctx.check(ok, "gases without pressure are rejected")
        ctx.check(sorted(m.species_definitions) == sorted(["O2_g", key]), "definitions are kept")
        ctx.eq(m.species_definitions["O2_g"]["pressure"], x, "definitions are kept")
    except SetupError:
        ctx.check(not ok, "complete definitions are accepted")
    ctx.raises(SetupError, "definitions are a dict", setattr, bare("micro"), "species_definitions", [x])
    r = bare("micro")
    k = ctx.choice("k", ["CO_g", 3])
    t, v = value(ctx, "e", ["1.0"])
    try:
        r.ref_energies = {"H2_g": x, k: v}
        ctx.check(t is float and k != 3, "reference energies are floats by name")
        ctx.eq(r.ref_energies["CO_g"], v, "reference energies are kept")
    except SetupError:
        ctx.check(t is not float or k == 3, "right reference energies are accepted")


def interval(ctx, form):
    """Analysis intervals: a number, a list of numbers and (start, end, step)."""
    from scaks.errors.error import SetupError
    ctx.int_tokens()
    m = bare("kmc")
    a, b, c = (ctx.int(x, -3, 50) for x in "abc")
    if form == "number":
        t, v = value(ctx, "v", ["1"])
        ok = t is int or t is None and False
        if t is list:
            ok = False
    elif form == "list":
        t, e = value(ctx, "v", ["1"])
        v = [a, e]
        ok = t is int
        if t is list:
            ok = False
    elif form == "range":
        box = ctx.choice("box", [list, tuple])
        v = [a, box((a, b, c))]
        ok = bool(ctx.And(b >= a, c <= b - a))
    else:
        k = ctx.choice("k", [1, 2, 4])
        v = [(a,) * k]
        ok = False
    try:
        m.analysis_interval = v
        ctx.check(ok, "wrong intervals are rejected")
        ctx.check(m.analysis_interval == v, "the interval is kept")
    except SetupError:
        ctx.check(not ok, "right intervals are accepted")


def process(ctx, n, case):
    """Process definitions are complete, of one length and at different points."""
    from scaks.utilities.check_utilities import check_process_dict
    from scaks.errors.error import SetupError
    pts = [[ctx.real("p%d%d" % (i, j), lo=-5, hi=5) if j < 2 else 0.0 for j in range(3)] for i in range(n)]
    d = dict(reaction="CO_g + *_s -> CO_s", coordinates_group=[pts], elements_before=["V"] * n, elements_after=["C"] * n,
             basis_sites=[0, 1])
    ok = True
    if case == "points":
        for i in range(n):
            for j in range(i):
                if bool(ctx.And(*[ctx.And(a - b <= 1e-6, b - a <= 1e-6) for a, b in zip(pts[i], pts[j])])):
                    ok = False
    else:
        for i in range(n):                      # points clearly apart
            pts[i][2] = float(i)
        what = ctx.choice("what", sorted(d) + ["number", "text", "short", "length b", "length a", "type b", "type a", "site", "group", "second"])
        ok = False
        if what in d:
            del d[what]
        elif what == "number":
            pts[0][1] = 1
        elif what == "text":
            d["reaction"] = ["CO"]
        elif what == "short":
            pts[0].pop()
        elif what == "length b":
            d["elements_before"].append("V")
        elif what == "length a":
            d["elements_after"].pop()
        elif what == "type b":
            d["elements_before"][0] = 3
        elif what == "type a":
            d["elements_after"] = "C" * n
        elif what == "site":
            d["basis_sites"] = [0, 1.0]
        elif what == "group":
            d["coordinates_group"] = pts
        else:
            d["coordinates_group"].append([[0.0, 0.0, 9.0 + i] for i in range(n + 1)])
    try:
        r = check_process_dict(d)
        ctx.check(ok, "wrong definitions are rejected")
        ctx.check(r is d, "the definition is handed back")
    except SetupError:
        ctx.check(not ok, "right definitions are accepted")


def names(kind, plain):
    return [k for k, v in sorted(TABLES[kind].items()) if isinstance(v[0], list) != plain and v[0] is not dict]


BASIC = [dict(kind=k, names=names(k, True)[i::3]) for k in ("micro", "kmc") for i in range(3)]
SEQ = [dict(kind=k, names=names(k, False)[i::2]) for k in ("micro", "kmc") for i in range(2)]
SCENARIOS = [
    Scenario(basic, BASIC, bounds=BOUNDS),
    Scenario(sequences, SEQ, bounds=BOUNDS),
    Scenario(long_sequences, [dict(kind=d["kind"], names=d["names"], n=4) for d in SEQ],
             [dict(kind=d["kind"], names=d["names"], n=9) for d in SEQ], bounds=BOUNDS),
    Scenario(frozen, [dict(kind=k, names=sorted(TABLES[k])) for k in ("micro", "kmc")], bounds=BOUNDS),
    Scenario(own_defaults, [dict(kind="micro"), dict(kind="kmc")], bounds=BOUNDS),
    Scenario(source, bounds=BOUNDS),
    Scenario(two_models, bounds=BOUNDS),
    Scenario(components, bounds=BOUNDS),
    Scenario(handed_over, bounds=BOUNDS),
    Scenario(definitions, bounds=BOUNDS),
    Scenario(interval, [dict(form=f) for f in ("number", "list", "range", "length")], bounds=BOUNDS),
    Scenario(process, [dict(n=1, case="points"), dict(n=2, case="points"), dict(n=2, case="parts")],
             [dict(n=3, case="points")], bounds=BOUNDS),
]
