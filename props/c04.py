"""Equations are taken apart and reversed faithfully, species are classified."""
from engine.run import Scenario
from . import lib

BOUNDS = ("two- and three-state equations with 1..2 symbolic formulas per state, both arrow styles, "
          "with and without surrounding blanks")
OUTSIDE = "more terms per state, longer names"
D = "123456789"


def sp(ctx, name, st):
    t = (ctx.char(name + "s", D) if st else "")
    return t + ctx.char(name + "a", "AB*") + ctx.char(name + "b", "AB-2") + "_" + \
        ctx.char(name + "x", "glst")


def state(ctx, name, n):
    t = sp(ctx, name + "0", len(name) % 2)
    fs = [t]
    for i in range(1, n):
        u = sp(ctx, "%s%d" % (name, i), 1)
        fs.append(u)
        t = t + " + " + u
    return t, fs


def structure(ctx, n, arrows, pad):
    from scaks.parsers.rxn_parser import RxnEquation
    states = [state(ctx, "q%d" % i, k) for i, k in enumerate(n)]
    text = states[0][0]
    if len(states) == 3:
        text = text + pad + "<->" + pad + states[1][0]
        arrows = "->"
    text = text + pad + arrows + pad + states[-1][0]
    eq = RxnEquation(text)
    got = eq.tolist()
    ctx.check(len(got) == len(states), "number of states")
    for g, (t, fs) in zip(got, states):
        ctx.check(g.chem_state() == t, "state text")
        fl = g.tolist()
        ctx.check(len(fl) == len(fs) and all(f.formula() == x for f, x in zip(fl, fs)),
                  "formulas of the state in order")
    fl = eq.to_formula_list()
    ctx.check(len(fl) == len(states) and
              all(f.formula() == x for l, (t, fs) in zip(fl, states) for f, x in zip(l, fs)),
              "formula list")
    rev = eq.revert()
    rs = rev.tolist()
    ctx.check(len(rs) == len(states), "reverse: number of states")
    for g, (t, fs) in zip(rs, states[::-1]):
        ctx.check(g.chem_state() == t, "reverse: states swapped")
    back = rev.revert().tolist()
    ctx.check(len(back) == len(states) and
              all(g.chem_state() == t for g, (t, fs) in zip(back, states)),
              "reversing twice restores the reaction")
    for label, gases, fs in (("adsorption", eq.adsorption_gases(), states[0][1]),
                             ("desorption", eq.desorption_gases(), states[-1][1])):
        want = [f for f in fs if f[len(f) - 1] == "g"]
        ctx.check(len(gases) == len(want) and
                  all(g.formula() == w for g, w in zip(gases, want)), label + " gases")


def classify(ctx, k):
    """Every species of a mechanism ends up in exactly the right group."""
    names = []
    eqs, al = [], ["*B", "AB", "AB"]
    sites = ["gls", "gst", "st"]
    uni = []
    for i in range(k):
        second = ctx.choice("q%d_two" % i, [0, 1]) if i else 1
        n = ctx.char("q%da" % i, al[i])
        if second:
            if n == "*":
                ctx.assume(False)
            n = n + ctx.char("q%db" % i, "B-")
        s = ctx.char("q%dx" % i, sites[i])
        names.append((n, n + "_" + s, s))
    ctx.universe([a + b + "_" + s for a in "*AB" for b in ("", "B", "-") for s in "glst"]
                 + ["*_s", "*_t", "g", "l", "s", "t", "A", "B"])
    lhs, rhs = names[0][1], names[-1][1]
    for n in names[1:]:
        lhs = lhs + " + " + n[1]
    for n in names[:-1][::-1]:
        rhs = rhs + " + " + n[1]
    model = lib.mk_model(dict(rxn_expressions=[lhs + " -> " + rhs, "D_g + *_s -> D_s"],
                              species_definitions={}, temperature=500.0,
                              parser="RelativeEnergyParser"))
    want = {"gas": ["D_g"], "liq": [], "ads": ["D_s"], "ts": [], "site": ["*_s"]}
    for n, full, s in names:
        if s == "g":
            put(want["gas"], full)
        elif s == "l":
            put(want["liq"], full)
        else:
            put(want["site"], "*_" + s)
            if len(n) > 1 and n[1] == "-":
                put(want["ts"], full)
            elif n[0] != "*":
                put(want["ads"], full)
    for label, got, w in (("gas names", model.gas_names, want["gas"]),
                          ("liquid names", model.liquid_names, want["liq"]),
                          ("adsorbate names", model.adsorbate_names, want["ads"]),
                          ("transition state names", model.transition_state_names, want["ts"]),
                          ("site names", model.site_names, want["site"])):
        ctx.check(len(got) == len(w), label + ": no duplicates, nothing extra")
        ctx.check(all(any(bool(g == x) for g in got) for x in w), label + ": complete")
        ctx.check(all(bool(a < b) for a, b in zip(got, got[1:])), label + ": sorted")


def put(l, x):
    if not any(bool(x == y) for y in l):
        l.append(x)


def stoichiometric_order(ctx, mech):
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m))
    ctx.check(model.adsorbate_names == tuple(m.ads), "adsorbates")
    ctx.check(model.gas_names == tuple(m.gas), "gases")
    ctx.check(model.liquid_names == tuple(m.liq), "liquids")
    ctx.check(model.site_names == tuple(m.sites), "sites")
    ctx.check(model.transition_state_names == tuple(m.ts), "transition states")
    got = model.elementary_rxns_list
    ctx.check(len(got) == m.n, "one entry per reaction")
    for states, want in zip(got, m.rxns):
        ctx.check(len(states) == len(want), "states per reaction")
        for st, w in zip(states, want):
            tot = {}
            for f in st:
                tot[f.species_site()] = tot.get(f.species_site(), 0) + f.stoichiometry()
            ctx.check(tot == w, "species and stoichiometries")


def joined(ctx):
    """Adding two formulas gives the state with both."""
    from scaks.parsers.rxn_parser import ChemFormula
    a, b = sp(ctx, "a", 1), sp(ctx, "b", 0)
    st = ChemFormula(a) + ChemFormula(b)
    got = st.tolist()
    ctx.check(len(got) == 2 and got[0].formula() == a and got[1].formula() == b, "both formulas in order")
    ctx.check(st.chem_state() == a + " + " + b, "state text")


def tex_part(ctx, name, st, ndig, dash):
    """A formula and its LaTeX text."""
    s = ctx.char(name + "s", D) if st else ""
    a, b = ctx.char(name + "a", "AB*"), ctx.char(name + "b", "AB")
    d = ctx.char(name + "d", D) if ndig else ""
    if ndig > 1:
        d = d + ctx.char(name + "e", "0123456789")
    n = ctx.char(name + "n", D) if dash else ""
    x = ctx.char(name + "x", "glst")
    text = s + a + ("-" if dash else "") + b + d + "_" + n + x
    tex = a + ("-" if dash else "") + b + ("_{" + d + "}" if ndig else "") + "(" + x + ")"
    if st and s != "1":
        tex = s + tex
    return text, tex


def latex(ctx, n, spec):
    """The LaTeX text of a reaction shows every formula with its number, elements, counts and phase."""
    from scaks.parsers.rxn_parser import ChemFormula, ChemState, RxnEquation
    texts, texs = [], []
    for i, k in enumerate(n):
        parts = [tex_part(ctx, "q%d%d" % (i, j), *spec[(i + j) % len(spec)]) for j in range(k)]
        for t, x in parts:
            ctx.check(ChemFormula(t).texen() == x, "LaTeX text of a formula")
        t, x = parts[0]
        for u, y in parts[1:]:
            t, x = t + " + " + u, x + " + " + y
        ctx.check(ChemState(t).texen() == x, "LaTeX text of a state")
        texts.append(t)
        texs.append(x)
    if len(n) == 3:
        eq, tex = texts[0] + " <-> " + texts[1] + " -> " + texts[2], \
            texs[0] + r" \leftrightarrow " + texs[1] + r" \rightarrow " + texs[2]
    else:
        eq, tex = texts[0] + " -> " + texts[1], texs[0] + r" \rightarrow " + texs[1]
    r = RxnEquation(eq)
    ctx.check(r.texen() == tex, "LaTeX text of a reaction")
    ctx.check(r.rxn_equation() == eq, "the text of the reaction is kept")


SCENARIOS = [
    Scenario(structure, [dict(n=[1, 1], arrows="<->", pad=""), dict(n=[1, 1], arrows="->", pad="  "),
                         dict(n=[1, 1, 1], arrows="->", pad=" "),
                         dict(n=[2, 1], arrows="->", pad=" "), dict(n=[1, 2], arrows="<->", pad="")],
             [dict(n=[2, 2], arrows="->", pad=" "), dict(n=[1, 1, 2], arrows="->", pad=""),
              dict(n=[1, 2, 1], arrows="->", pad=" ")], bounds=BOUNDS),
    Scenario(latex, [dict(n=[1, 1], spec=[(1, 1, 0), (0, 2, 0)]), dict(n=[2, 1], spec=[(0, 0, 0), (1, 1, 1)]),
                     dict(n=[1, 1, 1], spec=[(1, 0, 0), (0, 0, 1), (0, 1, 0)])],
             [dict(n=[2, 2], spec=[(1, 1, 0), (0, 2, 1)]), dict(n=[1, 2, 1], spec=[(1, 1, 1), (0, 0, 0)])],
             bounds=BOUNDS),
    Scenario(joined, bounds=BOUNDS),
    Scenario(classify, [dict(k=2)], [dict(k=3)], bounds=BOUNDS),
    Scenario(stoichiometric_order, [dict(mech=k) for k in sorted(lib.MECHS)], bounds="13 mechanisms"),
]
