"""Relative energy input."""
from engine.run import Scenario
from . import lib

BOUNDS = ("mechanisms of 1..3 reactions, every real barrier and reaction energy in [-10, 10] eV (and whole numbers); "
          "lists of length 0..3 against 1..3 reactions")
OUTSIDE = "files that are not valid Python"


def data(ctx, n, k, whole=False):
    if whole:
        return [ctx.int("Ga%d" % i, -3, 3) for i in range(n)], [ctx.int("dG%d" % i, -3, 3) for i in range(n)]
    Ga = [ctx.real("Ga%d" % i, lo=-10, hi=10, typ=(-0.1, 0.8)) for i in range(n)]
    dG = [ctx.real("dG%d" % i, lo=-10, hi=10, typ=(-0.5, 0.5)) for i in range(n)]
    for i in range(n):
        ctx.assume(ctx.Not(ctx.And(Ga[i] > -k, Ga[i] < k, ctx.Not(Ga[i] == 0))))
    return Ga, dG


def barriers(ctx, mech, source):
    """Gaf - Gar = dG always; a barrierless endothermic step gets Gaf = dG."""
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m))
    Ga, dG = data(ctx, m.n, 1e-6, source == "whole")
    ctx.check(model.has_relative_energy is False, "no energies before parsing")
    if source != "file":
        model.parser.parse_data(filename="not there", energy_data={"Ga": Ga, "dG": dG})
    else:
        model.parser.parse_data(filename=ctx.module("rel.py", Ga=Ga, dG=dG),
                                energy_data={"Ga": [0.0], "dG": [0.0]})
    ctx.check(model.has_relative_energy is True, "energies are available after parsing")
    r = model.relative_energies
    for k in ("Gaf", "Gar", "dG"):
        ctx.check(len(r[k]) == m.n, "one %s per reaction" % k)
    for i in range(m.n):
        ctx.eq(r["dG"][i], dG[i], "reaction energy kept")
        ctx.eq(r["Gaf"][i] - r["Gar"][i], dG[i], "Gaf - Gar = dG", scale=1e-3)
        if ctx.And(Ga[i] == 0, dG[i] > 0):
            ctx.eq(r["Gaf"][i], dG[i], "barrierless endothermic step: Gaf = dG")
            ctx.eq(r["Gar"][i], 0, "barrierless endothermic step: Gar = 0", scale=1e-3)
        else:
            ctx.eq(r["Gaf"][i], Ga[i], "given barrier kept")


def shapes(ctx, n, na, nd):
    """Lists of the wrong length are rejected and leave the model without energies."""
    m = lib.MECHS[{1: "one", 2: "uni", 3: "co_ox"}[n]]
    model = lib.mk_model(lib.setup(m))
    Ga = [ctx.real("Ga%d" % i, lo=-10, hi=10) for i in range(na)]
    dG = [ctx.real("dG%d" % i, lo=-10, hi=10) for i in range(nd)]
    try:
        model.parser.parse_data(filename="not there", energy_data={"Ga": Ga, "dG": dG})
        ctx.check(na == n and nd == n, "only complete data is accepted")
    except ValueError:
        ctx.check(not (na == n and nd == n), "complete data is not rejected")
        ctx.check(model.has_relative_energy is False, "rejected data is not used")


def missing_file(ctx):
    model = lib.mk_model(lib.setup(lib.MECHS["one"]))
    ctx.raises(IOError, "missing energy file", model.parser.parse_data, filename="not there")


def incomplete(ctx, missing):
    """Rate constants need the forward and the reverse barriers."""
    from scaks.errors.error import ParameterError
    m = lib.MECHS["one"]
    model = lib.mk_model(lib.setup(m))
    rel = {k: [ctx.real(k, lo=-5, hi=5)] for k in ("Gaf", "Gar", "dG")}
    del rel[missing]
    ctx.raises(ParameterError, "missing barriers are reported", model.solver.get_rate_constants,
               relative_energies=rel)


SCENARIOS = [
    Scenario(barriers, [dict(mech="one", source="dict"), dict(mech="uni", source="whole"), dict(mech="uni", source="file"),
                        dict(mech="co_ox", source="dict")],
             [dict(mech="co_ox", source="file"), dict(mech="two_site", source="dict")], bounds=BOUNDS),
    Scenario(shapes, [dict(n=n, na=a, nd=d) for n in (1, 2, 3) for a in range(4) for d in range(4)
                      if abs(a - n) <= 1 and abs(d - n) <= 1], bounds=BOUNDS),
    Scenario(incomplete, [dict(missing="Gaf"), dict(missing="Gar")], bounds=BOUNDS),
    Scenario(missing_file, bounds=BOUNDS),
]
