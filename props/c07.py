"""Thermodynamic corrections."""
from engine.run import Scenario
from . import lib

BOUNDS = ("all temperatures inside the tabulated Shomate ranges (and 50..6000 K outside them for the "
          "range selection), all pressures > 0, all barriers/reaction energies in [-10, 10] eV")
OUTSIDE = "species outside the shipped tables; rounding"
KJ = 0.01036427


def shomate(ctx, gas):
    """G(T) = H - TS from the tabulated Shomate parameters of the range holding T."""
    from scaks.database.thermo_data import shomate_params
    model = lib.mk_model(lib.setup(lib.MECHS["one"]))
    T = ctx.real("T", lo=100, hi=6000, typ=(100.0, 6000.0))
    ranges = [(tuple(float(x) for x in k.split(":")[1].split("-")), v)
              for k, v in shomate_params.items() if k.split(":")[0] == gas]
    k = ctx.choice("range", list(range(len(ranges))))
    (lo, hi), par = ranges[k]
    ctx.assume(ctx.And(T > lo, T < hi))
    A, B, C, D, E, F, G, H = par
    def enth(T):
        t = T / 1000.0
        return A * t + B * t ** 2 / 2.0 + C * t ** 3 / 3.0 + D * t ** 4 / 4.0 - E / t + F - H
    t = T / 1000.0
    S = A * ctx.log(t) + B * t + C * t ** 2 / 2.0 + D * t ** 3 / 3.0 - E / (2.0 * t ** 2) + G
    t0 = 298.15 / 1000.0
    Cp = A + B * t0 + C * t0 ** 2 + D * t0 ** 3 + E / t0 ** 2
    want = (298.15 * Cp / 1000.0 + enth(T) - enth(298.15)) * KJ - T * S * KJ / 1000.0
    got = model.corrector.shomate_correction(gas, T=T)
    ctx.eq(got, want, "Shomate free energy", scale=1.0)
    m2 = lib.mk_model(lib.setup(lib.MECHS["one"], T=T))
    ctx.eq(m2.corrector.shomate_correction(gas), want, "model temperature is the default", scale=1.0)


def table(gas):
    from scaks.database.thermo_data import shomate_params
    return sorted((tuple(float(x) for x in k.split(":")[1].split("-")), v) for k, v in shomate_params.items()
                  if k.split(":")[0] == gas)



def free_energy(par, T, S_T, t0):
    """Independent of the code: H and S of a Shomate set (S_T holds the logarithm)."""
    A, B, C, D, E, F, G, H = par

    def enth(T):
        t = T / 1000.0
        return A * t + B * t ** 2 / 2.0 + C * t ** 3 / 3.0 + D * t ** 4 / 4.0 - E / t + F - H
    u = t0 / 1000.0
    Cp = A + B * u + C * u ** 2 + D * u ** 3 + E / u ** 2
    return (t0 * Cp / 1000.0 + enth(T) - enth(t0)) * KJ - T * S_T * KJ / 1000.0


def entropy_of(ctx, par, T):
    A, B, C, D, E, F, G, H = par
    t = T / 1000.0
    return A * ctx.log(t) + B * t + C * t ** 2 / 2.0 + D * t ** 3 / 3.0 - E / (2.0 * t ** 2) + G


def shomate_edges(ctx, gas):
    """At both ends of every tabulated range, between ranges and beyond the last."""
    model = lib.mk_model(lib.setup(lib.MECHS["one"]))
    rows = table(gas)
    for (lo, hi), _ in rows:
        for T in (lo, hi):
            want = [free_energy(par, T, entropy_of(ctx, par, T), 298.15) for (a, b), par in rows if a <= T <= b]
            ctx.eq_any(model.corrector.shomate_correction(gas, T=T), want, "the ends of a range belong to it", scale=1.0)
    top = max(hi for (lo, hi), _ in rows)
    T = ctx.real("T", lo=100, hi=20000, typ=(300.0, 9000.0))
    ctx.assume(T > top)
    ctx.eq(model.corrector.shomate_correction(gas, T=T), 0, "no parameters for this temperature: no correction")
    low, par = rows[0][0][0], rows[0][1]
    U = ctx.real("U", lo=10, hi=1000, typ=(100.0, 290.0))
    ctx.assume(U < low)
    got = model.corrector.shomate_correction(gas, T=U)
    if low < 300:
        A, B, C, D, E, F, G, H = par
        u = low / 1000.0
        Cp = A + B * u + C * u ** 2 + D * u ** 3 + E / u ** 2
        ctx.eq(got, U * (Cp - entropy_of(ctx, par, low)) * KJ / 1000.0, "below the table: values of its lower end", scale=1.0)
    else:
        ctx.eq(got, 0, "no parameters for this temperature: no correction")


def shomate_outside(ctx):
    model = lib.mk_model(lib.setup(lib.MECHS["one"]))
    T = ctx.real("T", lo=100, hi=6000, typ=(100.0, 6000.0))
    n = ctx.choice("species", ["CO_s", "*_s", "H2O_l", "CO-O_2s", "Xx_g"])
    ctx.eq(model.corrector.shomate_correction(n, T=T), 0, "no correction for %s" % n)
    U = ctx.real("U", lo=1700, hi=6000, typ=(1700.0, 6000.0))
    ctx.eq(model.corrector.shomate_correction("CO_g", T=U), 0,
           "no parameters for this temperature: no correction")


def partition(ctx, gas, T, p, m):
    from scaks.database import thermo_data as d
    rot, vib = d.rotation_temperatures[gas], d.vibration_temperatures[gas]
    pi = 3.141592653589793
    h2 = d.h_J ** 2
    trans = (2 * pi * m * d.kB_J * T / h2) ** 1.5 * (d.kB_J * T / p)
    if len(rot["theta"]) == 1:
        th = rot["theta"][0]
        if th / T <= 0.01:
            r = T / (rot["sigma"] * th)
        else:
            r = T / (rot["sigma"] * th) * (1 + th / (3 * T) + th ** 2 / (15 * T ** 2))
    else:
        pr = rot["theta"][0] * rot["theta"][1] * rot["theta"][2]
        r = pi ** 0.5 / rot["sigma"] * (T ** 3 / pr) ** 0.5
    if len(vib) == 1:
        v = ctx.exp(-vib[0] / (2 * T)) / (1 - ctx.exp(-vib[0] / T))
    else:
        v = 1.0
        for th in vib:
            v = v * (1.0 / (1 - ctx.exp(-th / T)))
    return trans * r * v


def entropy(ctx, gas):
    """-kT ln(q) with the translational, rotational and vibrational partition functions."""
    from scaks.database import thermo_data as d
    from scaks.parsers.parser_base import ParserBase
    lo = 50 if gas == "H2_g" else 100
    T = ctx.real("T", lo=lo, hi=3000, typ=(100.0, 2000.0))
    p = ctx.real("p", lo=1, hi=10 ** 8, typ=(100.0, 1e6))
    x = ctx.real("x", lo=0.001, hi=100, typ=(0.01, 10.0))
    name = gas[:-2]
    mech = lib.Mech("m", ["%s + *_s -> %s_s" % (gas, name)])
    model = lib.mk_model(lib.setup(mech, T=T, p={gas: x}))
    c = model.corrector
    mass = ParserBase.get_molecular_mass(name, absolute=True)
    q = partition(ctx, gas, T, p, mass)
    ctx.eq(c.entropy_correction(gas, m=mass, p=p, T=T), -d.kB_eV * T * ctx.log(q),
           "free energy of the ideal gas", scale=1.0)
    ctx.eq(c.entropy_correction(gas, p=p), c.entropy_correction(gas, m=mass, p=p, T=T),
           "mass and temperature default to the species and the model", scale=1.0)
    ctx.eq(c.entropy_correction(gas), c.entropy_correction(gas, m=mass, p=101325 * x, T=T),
           "pressure defaults to the model's partial pressure", scale=1.0)
    ctx.eq(c.entropy_correction(gas, p=p * x) - c.entropy_correction(gas, p=p),
           d.kB_eV * T * ctx.log(x), "pressure enters as kT ln p", scale=1.0)


def no_entropy(ctx):
    model = lib.mk_model(lib.setup(lib.MECHS["one"]))
    T = ctx.real("T", lo=100, hi=3000, typ=(100.0, 2000.0))
    n = ctx.choice("species", ["CO_s", "*_s", "H2O_l", "CO-O_2s", "Xx_g"])
    ctx.eq(model.corrector.entropy_correction(n, m=1e-26, p=1e5, T=T), 0, "no correction for %s" % n)


def corrected_reactions(ctx, mech, method):
    """Corrections move every state by the sum over its species."""
    m = lib.MECHS[mech]
    T = ctx.real("T", lo=310, hi=1100, typ=(320.0, 1000.0))
    p = {g: ctx.real("p_" + g, lo=0.001, hi=100, typ=(0.01, 10.0)) for g in m.gas}
    model = lib.mk_model(lib.setup(m, T=T, p=p))
    c = model.corrector
    f = c.shomate_correction if method == "shomate" else c.entropy_correction
    corr = {g: f(g) for g in m.gas}
    Ga = [ctx.real("Ga%d" % i, lo=-10, hi=10, typ=(0.0, 1.0)) for i in range(m.n)]
    dG = [ctx.real("dG%d" % i, lo=-10, hi=10, typ=(-1.0, 1.0)) for i in range(m.n)]
    rel = {"Gaf": list(Ga), "dG": list(dG), "Gar": [a - b for a, b in zip(Ga, dG)]}
    out = c.correct_relative_energies(rel, method=method)
    for i, states in enumerate(m.rxns):
        d = []
        for st in states:
            s = 0.0
            for n, k in st.items():
                if n in corr:
                    s = s + k * corr[n]
            d.append(s)
        ctx.eq(out["dG"][i], dG[i] + d[-1] - d[0], "dG moves by the difference of FS and IS", scale=1.0)
        ctx.eq(out["Gaf"][i] - out["Gar"][i], out["dG"][i], "Gaf - Gar = dG is preserved", scale=1.0)
        if len(states) == 3:
            ctx.eq(out["Gaf"][i], Ga[i] + d[1] - d[0], "barrier moves by TS - IS", scale=1.0)
        elif out["dG"][i] > 0:
            ctx.eq(out["Gaf"][i], out["dG"][i], "step without TS stays barrierless (uphill)", scale=1.0)
        else:
            ctx.eq(out["Gaf"][i], 0, "step without TS stays barrierless (downhill)", scale=1.0)


def unknown_method(ctx):
    model = lib.mk_model(lib.setup(lib.MECHS["one"]))
    s = ctx.string("s", 3, "ab")
    ctx.raises(ValueError, "unknown correction method", model.corrector.correct_relative_energies,
               {"Gaf": [0.0], "Gar": [0.0], "dG": [0.0]}, method=s)


SCENARIOS = [
    Scenario(shomate, [dict(gas=g) for g in ("CO_g", "H2O_g", "O2_g", "CO2_g", "N2O_g", "H2_g", "CH4_g", "NH3_g", "N2_g", "NO2_g", "NO_g", "CH3OH_g",
                                    "HCOOH_g", "CH2O_g", "CH3CH2OH_g", "CH2CH2_g", "HCN_g", "HNO2_g", "HNO3_g", "NO3_g")],
             bounds=BOUNDS),
    Scenario(shomate_edges, [dict(gas=g) for g in ("CO_g", "H2O_g", "O2_g", "CO2_g", "N2O_g", "H2_g", "CH4_g", "NH3_g", "N2_g",
                                                   "NO2_g", "NO_g", "CH3OH_g", "HCOOH_g", "CH2O_g", "CH3CH2OH_g", "CH2CH2_g", "HCN_g",
                                                   "HNO2_g", "HNO3_g", "NO3_g")], bounds=BOUNDS),
    Scenario(shomate_outside, bounds=BOUNDS),
    Scenario(entropy, [dict(gas=g) for g in ("CO_g", "H2_g", "H2O_g", "CO2_g", "O2_g", "N2_g", "NO_g", "HCl_g", "NH3_g",
                                    "CH4_g", "N2O_g")],
             bounds=BOUNDS),
    Scenario(no_entropy, bounds=BOUNDS),
    Scenario(corrected_reactions, [dict(mech="co_ox", method="shomate"),
                                   dict(mech="co_ox", method="entropy"),
                                   dict(mech="dissoc", method="entropy"),
                                   dict(mech="two_gas", method="shomate"),
                                   dict(mech="two_gas", method="entropy")],
             [dict(mech="liquid", method="shomate"), dict(mech="auto", method="entropy")], bounds=BOUNDS),
    Scenario(unknown_method, bounds=BOUNDS),
]
