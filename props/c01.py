"""Chemical formulas are parsed exactly as documented."""
from engine.run import Scenario

UP = "ABCHNOZ"
LOW = "abz"
DIG = "0123456789"
BOUNDS = ("stoichiometry 0..2 digits, species 1..4 characters over letters, digits, '-' and '*', "
          "site count 0..2 digits, site label 1..2 letters; malformed strings up to 5 characters")
OUTSIDE = "longer strings, non-ASCII text"


def well_formed(ctx, ns, nsp, nn, nsite):
    from scaks.parsers.rxn_parser import ChemFormula
    stoich = ""
    if ns:
        stoich = ctx.char("s0", "123456789") + (ctx.string("s", ns - 1, DIG) if ns > 1 else "")
    species = ctx.char("a0", UP + LOW + "*") + \
        (ctx.string("a", nsp - 1, UP + LOW + DIG + "-") if nsp > 1 else "")
    number = ""
    if nn:
        number = ctx.char("n0", "123456789") + (ctx.string("n", nn - 1, DIG) if nn > 1 else "")
    site = ctx.string("t", nsite, UP + "glst")
    text = stoich + species + "_" + number + site
    f = ChemFormula(text)
    ctx.eq(f.stoichiometry(), value(ctx, stoich), "stoichiometry")
    ctx.eq(f.nsite(), value(ctx, number), "number of sites")
    ctx.check(f.species() == species, "species")
    ctx.check(f.site() == site, "site")
    ctx.check(f.species_site() == species + "_" + number + site, "species with site")
    ctx.check(f.formula() == text, "formula text")
    kind = f.type()
    if site == "g":
        ctx.check(kind == "gas", "gas type")
    elif site == "l":
        ctx.check(kind == "liquid", "liquid type")
    elif species[0] == "*":
        ctx.check(kind == "site", "site type")
    else:
        ctx.check(kind == "adsorbate", "adsorbate type")


def value(ctx, digits):
    """Decimal value of a (possibly symbolic) digit string, default 1."""
    return ctx.decimal(digits) if len(digits) else 1


def malformed(ctx, n):
    """Text without a species/site separator is rejected, never guessed at."""
    from scaks.parsers.rxn_parser import ChemFormula, ChemFormulaError
    text = ctx.string("x", n, UP + LOW + DIG + "-*+ .")
    ctx.raises(ChemFormulaError, "text without a site is rejected", ChemFormula, text)


def no_site_label(ctx, n):
    from scaks.parsers.rxn_parser import ChemFormula, ChemFormulaError
    text = ctx.string("x", n, UP + DIG) + "_" + ctx.string("y", 2, DIG)
    ctx.raises(ChemFormulaError, "text without a site label is rejected", ChemFormula, text)


def surrounded(ctx, where, n):
    """A formula with other text around it is rejected, not cut out of it."""
    from scaks.parsers.rxn_parser import ChemFormula, ChemFormulaError
    junk = ctx.string("j", n, "().,+ /#<>")
    ctx.assume(any(bool(c != " ") for c in (junk[i] for i in range(n))))
    core = ctx.char("a0", UP + LOW) + ctx.char("a1", UP + DIG) + "_" + ctx.char("s", "gst")
    number = ctx.char("n", "123456789")
    text = {"before": junk + number + core, "inside": number + junk + number + core,
            "after": number + core + junk}[where]
    ctx.raises(ChemFormulaError, "text around a formula is rejected", ChemFormula, text)


SCENARIOS = [
    Scenario(well_formed,
             [dict(ns=a, nsp=b, nn=c, nsite=d) for a, b, c, d in
              [(0, 1, 0, 1), (1, 1, 1, 1), (2, 1, 0, 1), (0, 2, 2, 1), (1, 2, 1, 2), (2, 2, 0, 1),
               (0, 3, 0, 1)]],
             [dict(ns=a, nsp=b, nn=c, nsite=d) for a, b, c, d in
              [(2, 2, 2, 2), (1, 3, 1, 1), (2, 3, 2, 2), (0, 4, 0, 1)]], bounds=BOUNDS),
    Scenario(malformed, [dict(n=n) for n in (0, 1, 2, 3)], [dict(n=4), dict(n=5)], bounds=BOUNDS),
    Scenario(surrounded, [dict(where=w, n=1) for w in ("before", "inside", "after")],
             [dict(where=w, n=2) for w in ("before", "inside", "after")], bounds=BOUNDS),
    Scenario(no_site_label, [dict(n=1), dict(n=2)], [dict(n=3)], bounds=BOUNDS),
]
