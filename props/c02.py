"""Element and site accounting is exact and additive."""
from engine.run import Scenario
from .c01 import value, DIG

BOUNDS = ("formulas of up to 3 symbolic element tokens with counts 1..99, stoichiometry 1..99, "
          "site counts 1..99; states of up to 3 formulas")
OUTSIDE = "longer species; elements named by more than one letter are counted letter by letter"
ELS = "ABC"


def token(ctx, name, ndig):
    c = ctx.char(name + "e", ELS)
    d = ctx.char(name + "d0", "123456789") if ndig else ""
    if ndig > 1:
        d = d + ctx.char(name + "d1", DIG)
    return c, d


def formula(ctx, name, toks, ns, nn, sites, dash=False):
    st = ctx.char(name + "s", "123456789") if ns else ""
    if ns > 1:
        st = st + ctx.char(name + "s1", DIG)
    ts = [token(ctx, "%st%d" % (name, i), k) for i, k in enumerate(toks)]
    nsite = ctx.char(name + "n", "123456789") if nn else ""
    site = ctx.char(name + "x", sites)
    text = st
    for i, (c, d) in enumerate(ts):
        text = text + ("-" if dash and i == 1 else "") + c + d
    text = text + "_" + nsite + site
    return text, st, ts, nsite, site


def content(ctx, parts):
    """Reference element and site totals of a list of formulas."""
    els, sites = {}, {}
    for _, st, ts, nsite, site in parts:
        n = value(ctx, st)
        for c, d in ts:
            for e in ELS:
                if c == e:
                    els[e] = els.get(e, 0) + n * value(ctx, d)
        for s in "stgl":
            if site == s:
                sites[s] = sites.get(s, 0) + n * value(ctx, nsite)
    return els, sites


def single(ctx, toks, ns, nn, dash=False):
    from scaks.parsers.rxn_parser import ChemFormula
    ctx.universe(list("ABCstgl"))
    part = formula(ctx, "f", toks, ns, nn, "stgl", dash)
    f = ChemFormula(part[0])
    els, sites = content(ctx, [part])
    got = f.get_elements_dict()
    check(ctx, got, els, "elements", ELS)
    per = {}
    for c, d in part[2]:
        for e in ELS:
            if c == e:
                per[e] = per.get(e, 0) + value(ctx, d)
    check(ctx, f.get_species_elements_dict(), per, "species elements", ELS)
    check(ctx, f.get_sites_dict(), sites, "sites", "stgl")


def check(ctx, got, want, label, keys):
    ctx.check(len(got) == len(want), label + ": no extra entries")
    for k in keys:
        ctx.eq(got.get(k, 0), want.get(k, 0), label)


def state(ctx, shapes):
    from scaks.parsers.rxn_parser import ChemState
    ctx.universe(list("ABCstgl"))
    parts = [formula(ctx, "f%d" % i, *sh) for i, sh in enumerate(shapes)]
    text = parts[0][0]
    for p in parts[1:]:
        text = text + " + " + p[0]
    s = ChemState(text)
    ctx.check(len(s.tolist()) == len(parts), "one formula per term")
    for f, p in zip(s.tolist(), parts):
        ctx.check(f.formula() == p[0], "terms in order")
    els, sites = content(ctx, parts)
    check(ctx, s.get_elements_dict(), els, "state elements", ELS)
    for x in "gl":
        sites.pop(x, None)
    check(ctx, s.get_sites_dict(), sites, "state sites", "stgl")


def empty_site(ctx):
    from scaks.parsers.rxn_parser import ChemFormula, ChemState
    n = ctx.char("n", "123456789")
    s = ctx.char("s", "st")
    f = ChemFormula(n + "*_" + s)
    ctx.check(f.get_elements_dict() == {}, "an empty site holds no element")
    ctx.eq(ChemState("A_" + s + " + " + n + "*_" + s).get_elements_dict().get("A", 0), 1,
           "an empty site adds no element")


def repeated(ctx, k):
    """A species written several times in a state counts as often as all of them together."""
    from scaks.parsers.rxn_parser import ChemState
    ctx.universe(["A_s", "B_s", "A_t", "B_t"])
    text, want = "", {}
    for i in range(k):
        n, a, s = ctx.char("n%d" % i, "123456789"), ctx.char("a%d" % i, "AB"), ctx.char("s%d" % i, "st")
        t = n + a + "_" + s
        text = t if i == 0 else text + " + " + t
        name = [x for x in ("A_s", "B_s", "A_t", "B_t") if a + "_" + s == x][0]
        want[name] = want.get(name, 0) + value(ctx, n)
    st = ChemState(text)
    ctx.check(len(st.get_species_site_list()) == k, "one name per term of a state")
    got = st.get_species_site_dict()
    check(ctx, got, want, "species of a state", ["A_s", "B_s", "A_t", "B_t"])


SCENARIOS = [
    Scenario(single, [dict(toks=[0], ns=0, nn=0), dict(toks=[1], ns=1, nn=1),
                      dict(toks=[1, 0], ns=1, nn=0), dict(toks=[0, 2], ns=2, nn=1),
                      dict(toks=[1, 1], ns=0, nn=1, dash=True)],
             [dict(toks=[1, 1, 1], ns=1, nn=1), dict(toks=[2, 1, 2], ns=2, nn=1, dash=True)],
             bounds=BOUNDS),
    Scenario(state, [dict(shapes=[([0], 1, 1, "stgl"), ([1], 0, 0, "st")]),
                     dict(shapes=[([1, 0], 0, 0, "st"), ([0], 1, 1, "s")])],
             [dict(shapes=[([1], 1, 1, "stgl"), ([1], 1, 1, "st"), ([0], 1, 0, "sg")])],
             bounds=BOUNDS),
    Scenario(repeated, [dict(k=1), dict(k=2)], [dict(k=3)], bounds=BOUNDS),
    Scenario(empty_site, bounds=BOUNDS),
]
