"""Shared mechanisms and model builders of the scenarios.

Nothing here computes a property; the reference data of a mechanism (element
and site content, stoichiometries) is written down independently of the code
under test."""
import math
import os

# ------------------------------------------------------------ reaction library
# Every mechanism: expressions, per reaction (IS, FS) as {species: stoichiometry}
# and, if there is one, the transition state.


class Mech(object):
    def __init__(self, name, exprs, sites=None):
        self.name = name
        self.exprs = list(exprs)
        self.rxns = [parse(e) for e in exprs]
        sp = {}
        for states in self.rxns:
            for st in states:
                for n in st:
                    sp[n] = None
        self.ads = sorted(n for n in sp if kind(n) == "ads")
        self.gas = sorted(n for n in sp if kind(n) == "gas")
        self.liq = sorted(n for n in sp if kind(n) == "liq")
        self.sites = sorted(set("*_" + site_of(n)[1] for n in sp if kind(n) in ("ads", "site", "ts")))
        self.ts = sorted(n for n in sp if kind(n) == "ts")
        self.n = len(self.exprs)

    def nu(self, i, name):
        """Net stoichiometric coefficient (products minus reactants)."""
        return self.rxns[i][-1].get(name, 0) - self.rxns[i][0].get(name, 0)

    def __repr__(self):
        return self.name


def parse(e):
    states = []
    for s in e.replace("<->", "->").split("->"):
        d = {}
        for t in s.split("+"):
            t = t.strip()
            k = 0
            while t[k].isdigit():
                k += 1
            n = int(t[:k] or 1)
            d[t[k:]] = d.get(t[k:], 0) + n
        states.append(d)
    return states


def site_of(name):
    sp, s = name.rsplit("_", 1)
    k = 0
    while s[k].isdigit():
        k += 1
    return int(s[:k] or 1), s[k:]


def kind(name):
    sp = name.rsplit("_", 1)[0]
    s = site_of(name)[1]
    if s == "g":
        return "gas"
    if s == "l":
        return "liq"
    if sp == "*":
        return "site"
    if "-" in sp:
        return "ts"
    return "ads"


MECHS = {m.name: m for m in [
    Mech("co_ox", ['CO_g + *_s -> CO_s', 'O2_g + 2*_s -> 2O_s',
                   'CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s']),
    Mech("one", ['CO_g + *_s -> CO_s']),
    Mech("uni", ['CO_g + *_s -> CO_s', 'CO_s -> CO_g + *_s']),
    Mech("assoc", ['CO_g + *_s -> CO_s', 'NO_g + *_s -> NO_s',
                   'CO_s + NO_s <-> CO-NO_s + *_s -> CN_s + O2_s',
                   'CN_s -> CN_g + *_s', 'O2_s -> O2_g + *_s']),
    Mech("dissoc", ['CO_g + *_s -> CO_s', 'CO_s + *_s <-> C-O_s + *_s -> C_s + O_s',
                    '2O_s -> O2_g + 2*_s']),
    Mech("two_site", ['CO_g + *_s -> CO_s', 'H2_g + 2*_t -> 2H_t',
                      'CO_s + 2H_t <-> H-CO-H_s + 2*_t -> HCOH_s + 2*_t',
                      'HCOH_s -> HCOH_g + *_s']),
    Mech("liquid", ['H2O_l + *_s -> H2O_s', 'H2O_s + *_s <-> H-OH_s + *_s -> H_s + HO_s',
                    'H_s + H_s -> H2_g + 2*_s']),
    Mech("auto", ['CO_g + *_s -> CO_s', 'CO_g + CO_s + *_s -> 2CO_s']),
    Mech("both_sides", ['CO_g + *_s -> CO_s', 'CO_s + O_s + *_s -> CO_s + *_s + O_s',
                        'O2_g + 2*_s -> 2O_s']),
    Mech("repeat", ['CO_g + *_s -> CO_s', 'CO_s + CO_s -> C2O2_s + *_s',
                    'C2O2_s -> C2O2_g + *_s']),
    Mech("apart", ['CO_g + CO_g + *_s + *_s -> CO_s + CO_s', 'H2O_l + *_s + H2O_l + *_s -> H2O_s + H2O_s',
                   'COH2O_s + *_s + *_s -> CO_g + *_s + H2O_l + *_s + *_s']),
    Mech("spectator", ['CO_g + *_s -> CO_s', 'H2_g + 2*_s -> 2H_s', 'CO_s + H_s -> CO_g + *_s + H_s']),
    Mech("helper", ['CO_g + *_s -> CO_s', 'CO_s + N_s -> CO_g + *_s + N_s']),
    Mech("tri", ['CO_g + *_s -> CO_s', '3CO_s -> C3O3_g + 3*_s']),
    Mech("two_gas", ['2CO_g + 2*_s -> 2CO_s', 'CO_s -> CO_g + *_s']),
    Mech("mixed", ['CO_g + *_s + *_t -> C_s + O_t', 'C_s + O_t -> CO_g + *_s + *_t',
                   'C_s + *_t -> C_t + *_s']),
    Mech("liq2", ['2H2O_l + 2*_s -> 2H2O_s', 'CO_g + H2O_s <-> CO-H2O_s -> COH2O_s',
                  'COH2O_s -> CO_l + H2O_l + *_s']),
    Mech("powers", ['H2_g + 2*_s -> 2H_s', '2CO_g + 3*_s + O2_g <-> CO-OO_s + 2*_s + CO_g -> 2CO_s + O2_s',
                    '3H_s + CO_s -> CH3O_l + 4*_s', '12H_s -> 6H2_g + 12*_s']),
    Mech("twelve", ['H2_g + 2*_s -> 2H_s', '12H_s -> 6H2_g + 12*_s']),
    Mech("long", ['CO_g + *_s -> CO_s', 'O2_g + 2*_s -> 2O_s', 'CO_s + O_s -> CO2_g + 2*_s', 'NO_g + *_s -> NO_s',
                  'NO_s + *_s -> N_s + O_s', '2N_s -> N2_g + 2*_s', 'CO_s + N_s -> CN_s + O_s', 'CN_s + O_s -> CNO_s + *_s',
                  'CNO_s + *_s -> CO_s + N_s', 'N_s + NO_s -> N2O_g + 2*_s', 'CNO_s -> CNO_g + *_s',
                  'CO2_g + *_s -> CO_g + O_s']),
    Mech("three_sites", ['CO_g + *_s -> CO_s', 'CO_s + *_t -> CO_t + *_s', 'CO_t + 2*_u -> C_u + O_u + *_t',
                         'C_u + O_s -> CO_u + *_s', 'O_u + *_s -> O_s + *_u', '2O_s -> O2_g + 2*_s', 'CO_u -> CO_l + *_u']),
]}


# --------------------------------------------------------------- model builders
PLAIN = {"typ_p": (0.05, 2.0)}


def definitions(mech, p=None, c=None, total=None):
    d = {}
    for g in mech.gas:
        d[g] = {"pressure": (p or {}).get(g, 1.0)}
    for g in mech.liq:
        d[g] = {"concentration": (c or {}).get(g, 1.0)}
    for s in mech.sites:
        d[s] = {"site_name": "111", "type": "site", "total": (total or {}).get(s, 1.0)}
    return d


def setup(mech, T=500.0, p=None, c=None, total=None, **extra):
    d = dict(rxn_expressions=list(mech.exprs),
             species_definitions=definitions(mech, p, c, total),
             temperature=T, parser="RelativeEnergyParser", solver="SteadyStateSolver",
             corrector="ThermodynamicCorrector", plotter="EnergyProfilePlotter",
             rootfinding="ConstrainedNewton",
             rate_algo="TST", tolerance=1e-20, max_rootfinding_iterations=100, decimal_precision=60)
    d.update(extra)
    return d


def mk_model(sd, cls=None):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    return (cls or MicroKineticModel)(setup_dict=sd, logger_level=50)


def give_energies(model, Gaf=None, Gar=None, dG=None):
    """Relative energies through the parser (Gar = Gaf - dG by construction)."""
    if dG is None:
        dG = [a - b for a, b in zip(Gaf, Gar)]
    model.parser.parse_data(filename="no such file", energy_data={"Ga": list(Gaf), "dG": list(dG)})
    return model


def symbolic_conditions(ctx, mech, T=True, lo_T=100, hi_T=2000):
    p = {g: ctx.real("p_" + g, positive=True, typ=(0.1, 2.0)) for g in mech.gas}
    c = {g: ctx.real("c_" + g, positive=True, typ=(0.1, 2.0)) for g in mech.liq}
    t = ctx.real("T", lo=lo_T, hi=hi_T, typ=(300.0, 900.0)) if T else 500.0
    return p, c, t


def coverages(ctx, mech, positive=True, prefix="th_"):
    return [ctx.real(prefix + a, lo=0 if positive else None, hi=1 if positive else None,
                     typ=(0.02, 0.3)) for a in mech.ads]


def theta_of(mech, cvgs, total=None):
    """Coverages including free sites, written independently."""
    th = dict(zip(mech.ads, cvgs))
    for s in mech.sites:
        used = 0.0
        for a in mech.ads:
            if "*_" + site_of(a)[1] == s:
                used = used + th[a]
        th[s] = (1.0 if total is None else total[s]) - used
    return th


def rates_of(mech, kf, kr, theta, p, c):
    """Mass action rates, written independently of the code under test."""
    rf, rr = [], []
    for i, st in enumerate(mech.rxns):
        out = []
        for k, side in ((kf[i], st[0]), (kr[i], st[-1])):
            r = k
            for n, m in side.items():
                v = {"gas": p, "liq": c}.get(kind(n), theta)[n]
                for _ in range(m):
                    r = r * v
            out.append(r)
        rf.append(out[0])
        rr.append(out[1])
    return rf, rr


def dtheta_of(mech, rf, rr):
    out = []
    for a in mech.ads:
        s = 0.0
        for i in range(mech.n):
            n = mech.nu(i, a)
            if n:
                s = s + n * (rf[i] - rr[i])
        out.append(s)
    return out
