"""Only conserved equations are accepted."""
from engine.run import Scenario
from .c02 import value, check

BOUNDS = ("equations of two or three states with 1..3 formulas each; symbolic stoichiometries, "
          "element counts and site counts 1..9 and symbolic elements/site labels")
OUTSIDE = "more terms per state; counts above 9"
D = "123456789"


def digit(ctx, name, on=True):
    return ctx.char(name, D) if on else ""


def term(ctx, name, spec):
    """spec: (stoich?, [element/count...], site-number?, sites)"""
    st, els, nn, sites = spec
    s = digit(ctx, name + "s", st)
    toks = []
    for i, e in enumerate(els):
        dig = e.endswith("#")
        e = e.rstrip("#")
        c = ctx.char("%se%d" % (name, i), e) if len(e) > 1 else e
        toks.append((c, digit(ctx, "%sd%d" % (name, i), dig)))
    n = digit(ctx, name + "n", nn)
    x = ctx.char(name + "x", sites) if len(sites) > 1 else sites
    text = s
    for c, d in toks:
        text = text + c + d
    if not toks:
        text = text + "*"
    return text + "_" + n + x, s, toks, n, x


def totals(ctx, parts):
    els, sites = {e: 0 for e in "AB"}, {e: 0 for e in "st"}
    for _, s, toks, n, x in parts:
        k = value(ctx, s)
        for c, d in toks:
            for e in "AB":
                if c == e:
                    els[e] = els[e] + k * value(ctx, d)
        for e in "st":
            if x == e:
                sites[e] = sites[e] + k * value(ctx, n)
    return els, sites


def conserved(ctx, states):
    from scaks.parsers.rxn_parser import RxnEquation, ChemState
    ctx.universe(list("ABstgl"))
    built, texts = [], []
    for i, sp in enumerate(states):
        parts = [term(ctx, "q%d%d" % (i, j), t) for j, t in enumerate(sp)]
        t = parts[0][0]
        for p in parts[1:]:
            t = t + " + " + p[0]
        built.append(parts)
        texts.append(t)
    eq = texts[0] + " -> " + texts[1] if len(texts) == 2 else \
        texts[0] + " <-> " + texts[1] + " -> " + texts[2]
    first = totals(ctx, built[0])
    same = []
    for b in built[1:]:
        t = totals(ctx, b)
        same += [first[0][e] == t[0][e] for e in "AB"]
        same += [first[1][e] == t[1][e] for e in "st"]
    ok = ctx.And(*same)
    try:
        r = RxnEquation(eq).check_conservation()
        ctx.check(ok, "an accepted equation conserves elements and sites")
        ctx.check(r is True, "acceptance is reported as True")
    except ValueError:
        ctx.check(ctx.Not(ok), "a rejected equation is not conserved")


def model_rejects(ctx):
    """A model cannot be built from a non-conserved mechanism."""
    from scaks.models.micro_kinetic_model import MicroKineticModel
    a, b, n = digit(ctx, "a"), digit(ctx, "b"), digit(ctx, "n")
    d = ctx.char("d", D)
    eq = "A" + a + "_g + " + n + "*_s -> A" + b + "_" + d + "s"
    ok = ctx.And(value(ctx, a) == value(ctx, b), value(ctx, n) == value(ctx, d))
    defs = {"*_s": {"site_name": "x", "type": "site", "total": 1.0}}
    k = ctx.choice("pos", [0, 1])
    other = "C_g + *_s -> C_s"
    defs["C_g"] = {"pressure": 1.0}
    exprs = [eq, other] if k == 0 else [other, eq]
    try:
        MicroKineticModel(setup_dict=dict(rxn_expressions=exprs, species_definitions=defs,
                                          temperature=500.0, parser="RelativeEnergyParser"),
                          logger_level=50)
        ctx.check(ok, "accepted mechanism is conserved")
    except ValueError:
        ctx.check(ctx.Not(ok), "rejected mechanism is not conserved")


def only_states(ctx):
    """Comparing a state with something that is no state is an error."""
    from scaks.parsers.rxn_parser import ChemState, ChemFormula
    from scaks.errors.error import ParameterError
    a = "A" + digit(ctx, "a") + "_s"
    other = ctx.choice("other", [None, 1, "text", a])
    ctx.raises(ParameterError, "only states can be compared", ChemState(a).conserve, other)
    ctx.raises(ParameterError, "only formulas can be compared", ChemFormula(a).conserve,
               ctx.choice("other2", [None, 1, "text", a, ChemState(a)]))


def formulas(ctx, specs):
    """Two single formulas are equal exactly if they hold the same elements and sites."""
    from scaks.parsers.rxn_parser import ChemFormula
    ctx.universe(list("ABst"))
    parts = [term(ctx, "q%d" % i, t) for i, t in enumerate(specs)]
    a, b = totals(ctx, parts[:1]), totals(ctx, parts[1:])
    ok = ctx.And(*([a[0][e] == b[0][e] for e in "AB"] + [a[1][e] == b[1][e] for e in "st"]))
    f, g = ChemFormula(parts[0][0]), ChemFormula(parts[1][0])
    for x, y in ((f, g), (g, f)):
        try:
            ctx.check(x.conserve(y) is True, "acceptance is reported as True")
            ctx.check(ok, "accepted formulas hold the same")
        except ValueError:
            ctx.check(ctx.Not(ok), "rejected formulas differ")


G = (0, ["A"], 0, "g")
SCENARIOS = [
    Scenario(conserved, [
        dict(states=[[(1, ["A#"], 1, "s")], [(1, ["A#"], 1, "s")]]),
        dict(states=[[(1, ["A#"], 0, "g"), (1, [], 0, "s")], [(1, ["A#"], 1, "s")]]),
        dict(states=[[(0, ["AB"], 0, "st"), (0, ["AB"], 0, "st")], [(0, ["AB", "AB"], 1, "st")]]),
        dict(states=[[(1, ["A", "B#"], 0, "s"), (1, [], 0, "s")], [(1, ["A"], 0, "s"), (1, ["B"], 0, "s")]]),
        dict(states=[[(0, ["A"], 0, "s"), (1, ["B"], 0, "s")], [(0, ["A", "B#"], 1, "s")],
                     [(0, ["A", "B#"], 0, "gl"), (1, [], 0, "s")]]),
        dict(states=[[(0, ["A"], 0, "s"), (1, ["B"], 0, "st")], [(0, ["A", "B"], 1, "s"), (1, [], 0, "t")],
                     [(0, ["A", "B#"], 0, "s"), (1, [], 0, "st")]])],
        [dict(states=[[(1, ["A#"], 1, "st"), (1, ["B#"], 1, "st")], [(1, ["A#", "B#"], 1, "st")]]),
         dict(states=[[(1, ["AB"], 0, "s"), (1, ["AB"], 0, "s"), (1, [], 0, "t")],
                      [(1, ["AB", "AB"], 1, "st"), (1, [], 0, "st")]])], bounds=BOUNDS),
    Scenario(formulas, [dict(specs=[(1, ["A#"], 1, "s"), (1, ["A#"], 1, "s")]),
                        dict(specs=[(1, ["AB"], 0, "st"), (0, ["AB#"], 1, "st")]),
                        dict(specs=[(1, ["A", "B#"], 0, "s"), (1, ["B", "A#"], 1, "s")]),
                        dict(specs=[(1, [], 0, "st"), (1, [], 0, "st")])], bounds=BOUNDS),
    Scenario(only_states, bounds=BOUNDS),
    Scenario(model_rejects, bounds=BOUNDS),
]
