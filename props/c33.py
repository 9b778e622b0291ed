"""Energy profile plots show the energies of every elementary reaction."""
import importlib
import os
import re

from engine.run import Scenario
from . import lib

BOUNDS = "mechanisms of 1..3 reactions (thorough: 12), every reaction energy in [-10, 10] eV and every barrier (at least 1 meV) above both states, where the reaction has a transition state"
OUTSIDE = "a barrier without a transition state and the reverse, which catplot refuses; how catplot draws a line (the canvas and the line are stand-ins that record what they get)"


class Line(object):
    def __init__(self, energies, n=100, hline_length=1.0, peak_width=1.0, interp_method="spline",
                 rxn_equation=None, **style):
        self.energies = list(energies)
        self.rxn = rxn_equation
        # catplot refuses these
        if len(self.energies) == 3 and self.energies[1] <= max(self.energies[0], self.energies[2]):
            raise ValueError("abnormal energies")
        if rxn_equation is not None and len(re.split("<?->", rxn_equation)) != len(self.energies):
            raise ValueError("number of states")
        self.style = dict(style, n=n, hline_length=hline_length, peak_width=peak_width,
                          interp_method=interp_method)


class Figure(object):
    def __init__(self, canvas):
        self.canvas = canvas

    def savefig(self, fname, *args, **kwargs):
        SAVED.append((fname, self.canvas.drawn, os.path.isdir(os.path.dirname(fname) or ".")))


class Canvas(object):
    def __init__(self, **kwargs):
        self.lines, self.drawn = [], None
        self.figure = Figure(self)

    def add_line(self, line):
        self.lines.append(line)

    def add_lines(self, lines):
        for x in lines:
            self.add_line(x)

    def draw(self):
        self.drawn = list(self.lines)

    def redraw(self):
        self.draw()

    def deinit(self):
        self.lines, self.drawn = [], None


SAVED = []
TWICE = lib.Mech("twice", ["CO_g + *_s -> CO_s", "CO_s + *_s <-> C-O_2s -> C_s + O_s", "CO_g + *_s -> CO_s"])


def plot(model, times=1, **style):
    """The pictures written: (file name, lines drawn, folder exists)."""
    import catplot.ep_components.ep_canvas as cm
    import catplot.ep_components.ep_lines as lm
    pm = importlib.import_module("scaks.plotters.energy_profile_plotter")
    swap = [(lm.ElementaryLine, Line), (cm.EPCanvas, Canvas)]
    old = []
    for mod in (cm, lm, pm):
        for k, v in list(vars(mod).items()):
            for a, b in swap:
                if v is a:
                    old.append((mod, k, v))
                    setattr(mod, k, b)
    del SAVED[:]
    try:
        for _ in range(times):
            model.plotter.plot_all(**style)
    finally:
        for mod, k, v in old:
            setattr(mod, k, v)
    return list(SAVED)


def given(ctx, m, tag=""):
    """A barrier above both states where there is a transition state, else none."""
    Ga, dG = [], []
    for i, states in enumerate(m.rxns):
        d = ctx.real("dG%s%d" % (tag, i), lo=-10, hi=10, typ=(-0.5, 0.5))
        g = 0.0
        if len(states) == 3:
            g = ctx.real("Ga%s%d" % (tag, i), lo=0.001, hi=10, typ=(0.6, 0.9))
            ctx.assume(g > d + 0.001)
        Ga.append(g)
        dG.append(d)
    return Ga, dG


def compare(ctx, m, i, line, Ga, dG):
    e = line.energies
    ctx.check(len(e) == len(m.rxns[i]), "a peak where there is a transition state, and only there")
    ctx.eq(e[0], 0.0, "the initial state is the zero of energy")
    ctx.eq(e[-1], dG, "the final state is at the reaction energy", scale=100)
    if len(m.rxns[i]) == 3:
        ctx.eq(e[1], Ga, "the peak is at the forward barrier", scale=100)
    ctx.check(line.rxn == m.exprs[i], "labelled with its reaction")


def profiles(ctx, mech, style=False, times=1):
    m = lib.MECHS.get(mech) or TWICE
    model = lib.mk_model(lib.setup(m))
    Ga, dG = given(ctx, m)
    model.parser.parse_data(filename="none", energy_data={"Ga": list(Ga), "dG": list(dG)})
    kw = dict(line_width=1.5, color="#A52A2A", n=50, interp_method="quadratic", hline_length=2.0,
              peak_width=0.5, shadow_depth=3, shadow_color="#111111") if style else {}
    out = plot(model, times, **kw)
    ctx.check(len(out) == m.n * times, "one picture per reaction")
    ctx.check(len(set(f for f, _, _ in out)) == m.n, "no picture overwrites another one")
    for j, (fname, lines, there) in enumerate(out):
        i = j % m.n
        ctx.check(there and fname == "energy_profile/%d_%s.png" % (i, m.exprs[i]), "name of the picture")
        ctx.check(lines is not None and len(lines) == 1, "one profile per picture, drawn before it is saved")
        compare(ctx, m, i, lines[0], Ga[i], dG[i])
        for k, v in kw.items():
            ctx.check(lines[0].style.get(k) == v, "style is passed on")


def replot(ctx, mech):
    """New energies give a new picture."""
    m = lib.MECHS[mech]
    model = lib.mk_model(lib.setup(m))
    for r in range(2):
        Ga, dG = given(ctx, m, "%d_" % r)
        model.parser.parse_data(filename="none", energy_data={"Ga": Ga, "dG": dG})
        out = plot(model)
        ctx.check(len(out) == m.n, "one picture per reaction")
        for i, (_, lines, _) in enumerate(out):
            compare(ctx, m, i, lines[0], Ga[i], dG[i])


def from_absolute(ctx, mech):
    """Profiles of energies that were read as absolute ones."""
    m = lib.MECHS[mech]
    names = m.ads + m.gas + m.liq + m.sites + m.ts
    E = {n: ctx.real("E_" + n, lo=-100, hi=100, typ=(-3.0, 3.0)) for n in names}
    Ga, dG = [], []
    for states in m.rxns:
        G = []
        for st in states:
            s = 0.0
            for n, k in st.items():
                s = s + k * E[n]
            G.append(s)
        if len(G) == 3:
            ctx.assume(ctx.And(G[1] > G[0] + 0.001, G[1] > G[2] + 0.001))
        Ga.append(G[1] - G[0])
        dG.append(G[-1] - G[0])
    model = lib.mk_model(lib.setup(m, parser="AbsoluteEnergyParser"))
    model.parser.parse_data(filename=ctx.module("abs.py", absolute_energies=E))
    out = plot(model)
    ctx.check(len(out) == m.n, "one picture per reaction")
    for i, (_, lines, _) in enumerate(out):
        compare(ctx, m, i, lines[0], Ga[i], dG[i])


SCENARIOS = [
    Scenario(profiles, [dict(mech="one"), dict(mech="co_ox", style=True), dict(mech="uni", times=2, style=True)]
             + [dict(mech="twelve"), dict(mech="twice")],
             [dict(mech="co_ox", times=3), dict(mech="liquid", style=True)], bounds=BOUNDS),
    Scenario(replot, [dict(mech="uni")], [dict(mech="co_ox")], bounds=BOUNDS),
    Scenario(from_absolute, [dict(mech="co_ox")], [dict(mech="tri"), dict(mech="two_site")], bounds=BOUNDS),
]
