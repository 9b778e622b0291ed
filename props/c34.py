"""Generated energy file templates, filled in, are read back."""
import re

from engine.run import Scenario
from . import lib

BOUNDS = "the mechanisms of the library (1..12 reactions), every real energy filled in, in [-10, 10] eV (in mechanisms of more than five steps the signs of the reaction energies alternate)"
OUTSIDE = "templates edited beyond filling in the numbers"


def read(name):
    with open(name) as f:
        return f.read()


def relative(ctx, mech, name=None):
    """One place per reaction for the barrier and the reaction energy, in the order of the reactions."""
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m))
    if name:
        model.generate_relative_energies_file(filename=name)
    else:
        model.generate_relative_energies_file()
    name = name or "rel_energy.py"
    Ga = [ctx.real("Ga%d" % i, lo=1e-2, hi=10, typ=(0.1, 0.8)) for i in range(m.n)]
    # the sign of each reaction energy is free in the mechanisms of up to five steps
    span = lambda i: dict(lo=-10, hi=10, typ=(-0.5, 0.5)) if m.n <= 5 else \
        dict(lo=1 / 64, hi=10, typ=(0.1, 0.5)) if i % 2 else dict(lo=-10, hi=-1 / 64, typ=(-0.5, -0.1))
    dG = [ctx.real("dG%d" % i, **span(i)) for i in range(m.n)]
    out, at, todo = [], None, dict(enumerate(m.exprs))
    for line in read(name).split("\n"):
        if line.startswith("#"):
            hits = [i for i in sorted(todo) if line[1:].strip() == todo[i]]
            if hits:
                at = hits[0]
                del todo[at]
        for k, v in (("Ga", Ga), ("dG", dG)):
            if line.strip() == k + ".append()":
                ctx.check(at is not None, "an energy follows the name of its reaction")
                line = line.replace("()", "(%r)" % (v[at],))
        out.append(line)
    ctx.check(not todo, "every reaction is in the template")
    with open(name, "w") as f:
        f.write("\n".join(out))
    fresh = lib.mk_model(lib.setup(m))
    if name == "rel_energy.py":
        fresh.parser.parse_data()
    else:
        fresh.parser.parse_data(filename=name)
    r = fresh.relative_energies
    for i in range(m.n):
        ctx.eq(r["Gaf"][i], Ga[i], "barrier of each reaction")
        ctx.eq(r["dG"][i], dG[i], "energy of each reaction")
        ctx.eq(r["Gar"][i], Ga[i] - dG[i], "reverse barrier of each reaction")


def absolute(ctx, mech, name=None):
    """One place per species, including sites and transition states."""
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m, parser="AbsoluteEnergyParser"))
    if name:
        model.generate_absolute_energies_file(filename=name)
    else:
        model.generate_absolute_energies_file()
    name = name or "abs_energy.py"
    names = m.ads + m.gas + m.liq + m.sites + m.ts
    globs = {}
    exec(read(name), globs)
    got = globs["absolute_energies"]
    ctx.check(sorted(got) == sorted(names), "every species has a place")
    ctx.check(all(v == 0 for v in got.values()), "no energy is made up")
    E = {n: ctx.real("E_" + n, lo=-10, hi=10, typ=(-3.0, 3.0)) for n in names}
    text = read(name)
    for n in names:
        text, k = re.subn(r"(['\"]%s['\"]\s*:\s*)0\.0" % re.escape(n), lambda s: s.group(1) + repr(E[n]), text)
        ctx.check(k == 1, "one place per species")
    with open(name, "w") as f:
        f.write(text)
    fresh = lib.mk_model(lib.setup(m, parser="AbsoluteEnergyParser"))
    if name == "abs_energy.py":
        fresh.parser.parse_data()
    else:
        fresh.parser.parse_data(filename=name)
    for n in names:
        ctx.eq(fresh.absolute_energies[n], E[n], "energy of each species")
    r = fresh.relative_energies
    for i, states in enumerate(m.rxns):
        d = 0.0
        for n, k in states[-1].items():
            d = d + k * E[n]
        for n, k in states[0].items():
            d = d - k * E[n]
        ctx.eq(r["dG"][i], d, "reaction energy", scale=100)


def again(ctx, mech):
    """Generating a template does not touch the model; a second template replaces the first."""
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m))
    Ga = [ctx.real("Ga%d" % i, lo=1e-2, hi=10, typ=(0.1, 0.8)) for i in range(m.n)]
    dG = [ctx.real("dG%d" % i, lo=-10, hi=10, typ=(-0.5, 0.5)) for i in range(m.n)]
    model.parser.parse_data(filename="none", energy_data={"Ga": Ga, "dG": dG})
    before = [list(x) for x in (model.adsorbate_names, model.gas_names, model.liquid_names, model.site_names,
                                model.transition_state_names, model.rxn_expressions)]
    texts = []
    for _ in range(2):
        model.generate_relative_energies_file("a.py")
        model.generate_absolute_energies_file("b.py")
        texts.append((read("a.py"), read("b.py")))
    ctx.check(texts[0] == texts[1], "same template again")
    after = [list(x) for x in (model.adsorbate_names, model.gas_names, model.liquid_names, model.site_names,
                               model.transition_state_names, model.rxn_expressions)]
    ctx.check(before == after, "the model is as before")
    for i in range(m.n):
        ctx.eq(model.relative_energies["Gaf"][i], Ga[i], "barriers as before")
        ctx.eq(model.relative_energies["dG"][i], dG[i], "reaction energies as before")


ALL = sorted(lib.MECHS)
BIG = ("twelve", "long", "three_sites", "powers")
SCENARIOS = [
    Scenario(relative, [dict(mech=n) for n in ALL] + [dict(mech="co_ox", name="energies.py")], bounds=BOUNDS),
    Scenario(absolute, [dict(mech=n) for n in ALL if n not in BIG] + [dict(mech="liquid", name="energies.py")],
             [dict(mech=n) for n in BIG], bounds=BOUNDS),
    Scenario(again, [dict(mech="co_ox"), dict(mech="two_site")], [dict(mech="liquid")], bounds=BOUNDS),
]
