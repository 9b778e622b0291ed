"""Molecular composition and mass are computed exactly."""
from engine.run import Scenario

BOUNDS = ("formulas of up to four element groups, one- and two-letter elements, every multiplicity 0-99, groups in "
          "(nested) parentheses, leading multiplicities; every text of up to 3 characters; masses to 1e-12 relative")
OUTSIDE = "longer formulas; names which are no formulas (transition states)"

# reference values of the CIAM table the database states, written down independently
MASS = {"H": 1.00794, "C": 12.0107, "N": 14.0067, "O": 15.9994, "F": 18.9984032, "Ne": 20.1797, "S": 32.065,
        "Cl": 35.453}
AMU = 1.66053904e-27
ONE = "HCNOFS"
DIG = "0123456789"


def number(ctx, name, n):
    """n digits without a leading zero, and their value."""
    if n == 0:
        return "", 1
    t = ctx.char(name + "a", DIG[1:])
    if n > 1:
        t = t + ctx.string(name + "b", n - 1, DIG)
    return t, ctx.decimal(t)


def build(ctx, tree, path=""):
    """Text and composition of a formula skeleton."""
    text, comp = "", []
    for i, node in enumerate(tree):
        kind, nd = node[0], node[1]
        name = "%s%d" % (path, i)
        if kind == "e":                      # any one-letter element
            el = ctx.char("e" + name, ONE)
            num, k = number(ctx, "n" + name, nd)
            text = text + el + num
            comp.append((el, k))
        elif kind == "x":                    # a fixed element
            num, k = number(ctx, "n" + name, nd)
            text = text + node[2] + num
            comp.append((node[2], k))
        elif kind == "(":
            t, c = build(ctx, node[2], name + "_")
            num, k = number(ctx, "n" + name, nd)
            text = text + "(" + t + ")" + num
            comp += [(el, k * m) for el, m in c]
        elif kind == "*":                    # leading multiplicity of the rest
            num, k = number(ctx, "n" + name, nd)
            t, c = build(ctx, node[2], name + "_")
            text = text + num + t
            comp += [(el, k * m) for el, m in c]
    return text, comp


SHAPES = {
    "one": [("e", 0)], "one2": [("e", 2)], "two": [("e", 1), ("e", 0)], "three": [("x", 0, "C"), ("e", 1), ("x", 1, "O")],
    "two-letter": [("x", 1, "Cl"), ("x", 0, "Ne"), ("e", 0)], "no-mix": [("x", 0, "N"), ("x", 0, "O"), ("x", 1, "C"), ("x", 0, "Cl")],
    "group": [("x", 0, "C"), ("(", 1, [("x", 0, "O"), ("e", 1)])], "group0": [("(", 0, [("e", 1)]), ("e", 0)],
    "nested": [("(", 1, [("x", 0, "C"), ("(", 1, [("x", 0, "Cl")]), ("x", 0, "H")]), ("x", 0, "O")],
    "two-groups": [("(", 1, [("x", 0, "H")]), ("(", 0, [("x", 1, "O")])],
    "lead": [("*", 1, [("x", 0, "C"), ("e", 1)])], "lead-group": [("*", 1, [("(", 1, [("x", 0, "N")]), ("x", 0, "H")])],
    "in-group": [("(", 1, [("*", 1, [("x", 0, "C"), ("x", 0, "F")])]), ("x", 0, "S")],
    "deep": [("(", 1, [("(", 1, [("x", 1, "H")]), ("x", 0, "O")])],
    "group2": [("x", 0, "C"), ("(", 2, [("x", 0, "O"), ("x", 1, "H")])], "group3": [("(", 2, [("(", 1, [("x", 0, "H")])])],
    "lead2": [("*", 2, [("x", 0, "C"), ("x", 0, "O")])], "hundreds": [("x", 0, "O"), ("x", 3, "C")],
    "long": [("x", 0, "C"), ("x", 2, "H"), ("x", 1, "N"), ("e", 0)],
}


def composition(ctx, shape):
    """Every element occurs as often as its multiplicities say."""
    from scaks.functions import string2symbols
    text, comp = build(ctx, SHAPES[shape])
    got = [str(x) for x in string2symbols(ctx.text(text))]
    want = []
    for el, k in comp:
        want += [str(el)] * int(k)
    ctx.check(sorted(got) == sorted(want), "elements with multiplicities")


def mass(ctx, shape, absolute):
    from scaks.parsers.parser_base import ParserBase
    ctx.universe(sorted(MASS))
    text, comp = build(ctx, SHAPES[shape])
    kw = {} if absolute is None else dict(absolute=absolute)
    m = ParserBase.get_molecular_mass(ctx.text(text), **kw)
    want = sum(MASS[el] * int(k) for el, k in comp)
    if absolute:
        want = want * AMU
    ctx.check(abs(m - want) <= 1e-12 * abs(want), "sum of the atomic masses")


def small(ctx, n, alphabet):
    """Texts which are no formulas are rejected; formulas are never cut short."""
    from scaks.functions import string2symbols
    text = ctx.string("x", n, alphabet)
    want = parse(ctx, text, n)
    if want is None:
        ctx.raises(ValueError, "no formula", string2symbols, ctx.text(text))
    else:
        ctx.check([str(x) for x in string2symbols(ctx.text(text))] == want, "elements in order")


def isin(c, letters):
    return any(c == x for x in letters)


def parse(ctx, text, n):
    """Reference reading: position and depth of the open group."""
    def digits(i):
        j = i
        while j < n and isin(text[j], DIG):
            j += 1
        return j

    def rest(i, depth):
        out = []
        while i < n:
            c = text[i]
            if isin(c, DIG):
                j = digits(i)
                got = rest(j, depth)
                if got is None:
                    return None
                return out + int(ctx.decimal(text[i:j])) * got[0], got[1]
            if c == "(":
                got = rest(i + 1, depth + 1)
                if got is None or got[1] >= n or not text[got[1]] == ")":
                    return None
                inner, i = got[0], got[1] + 1
                j = digits(i)
                out = out + (int(ctx.decimal(text[i:j])) if j > i else 1) * inner
                i = j
            elif c == ")":
                return (out, i) if depth else None
            elif isin(c, "CHNOZ"):
                j = i + 1
                if j < n and isin(text[j], "aelz"):
                    j += 1
                el = str(text[i:j])
                i, k = j, 1
                j = digits(i)
                if j > i:
                    k = int(ctx.decimal(text[i:j]))
                out = out + k * [el]
                i = j
            else:
                return None
        return (out, i)
    got = rest(0, 0)
    return None if got is None else got[0]


def unknown(ctx):
    """Elements without a mass are reported, never ignored."""
    from scaks.parsers.parser_base import ParserBase
    from scaks.errors.error import ElementSearchingError
    el = ctx.choice("el", ["X", "Zz", "He", "B", "Pt", "Nx", "Cl"])
    pre = ctx.choice("pre", ["", "C", "(CO)2"])
    post = ctx.choice("post", ["", "2", "H"])
    k = 2 if post == "2" else 1
    if el in MASS:
        want = MASS[el] * k + {"": 0.0, "C": 12.0107, "(CO)2": 2 * 12.0107 + 2 * 15.9994}[pre] + (1.00794 if post == "H" else 0.0)
        ctx.check(abs(ParserBase.get_molecular_mass(pre + el + post) - want) < 1e-9, "known element")
    else:
        ctx.raises(ElementSearchingError, "unknown element", ParserBase.get_molecular_mass, pre + el + post)


QUICK = ["one", "one2", "two", "three", "two-letter", "no-mix", "group", "group0", "nested", "two-groups", "lead", "lead-group", "group2", "group3", "lead2"]
SCENARIOS = [
    Scenario(composition, [dict(shape=s) for s in QUICK], [dict(shape=s) for s in ("in-group", "deep", "long", "hundreds")], bounds=BOUNDS),
    Scenario(mass, [dict(shape="two", absolute=None), dict(shape="group", absolute=True), dict(shape="two-letter", absolute=False)],
             [dict(shape=s, absolute=True) for s in QUICK], bounds=BOUNDS),
    Scenario(small, [dict(n=1, alphabet="CHl2(). _-"), dict(n=2, alphabet="CHal20()-"), dict(n=3, alphabet="Cl2()")],
             [dict(n=4, alphabet="Ol2()")], bounds=BOUNDS),
    Scenario(unknown, bounds=BOUNDS),
]
