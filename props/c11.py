"""Coverages change exactly by what the reactions produce and consume."""
from engine.run import Scenario
from . import lib
from .c10 import prepare, BOUNDS as B10

BOUNDS = B10
OUTSIDE = "adsorbates spanning several sites in the free-site balance; rounding"


def balance(ctx, mech):
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    kf, kr = s.get_rate_constants(relative_energies=rel)
    theta = lib.theta_of(m, th, total)
    rf, rr = lib.rates_of(m, kf, kr, theta, p, c)
    want = lib.dtheta_of(m, rf, rr)
    got = s.steady_state_function(tuple(th), relative_energies=rel)
    ctx.check(len(got) == len(m.ads), "one rate of change per adsorbate")
    scale = sum(rf) + sum(rr)
    for g, w in zip(got, want):
        ctx.eq(g, w, "dtheta/dt = sum of stoichiometry * net rate", scale=scale)


def atoms(name):
    """Element counts of a species of the library (one-letter elements)."""
    sp = name.rsplit("_", 1)[0]
    out, i = {}, 0
    while i < len(sp):
        e = sp[i]
        i += 1
        d = ""
        while i < len(sp) and sp[i].isdigit():
            d += sp[i]
            i += 1
        if e.isalpha():
            out[e] = out.get(e, 0) + int(d or 1)
    return out


def matter(ctx, mech):
    """No element appears or disappears: what the surface gains the fluid loses."""
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    d = s.steady_state_function(tuple(th), relative_energies=rel)
    tof = s.get_tof(tuple(th), relative_energies=rel)
    fluid = list(model.gas_names) + list(model.liquid_names)
    ctx.check(len(tof) == len(fluid), "one turnover frequency per fluid species")
    kf, kr = s.get_rate_constants(relative_energies=rel)
    rf, rr = lib.rates_of(m, kf, kr, lib.theta_of(m, th, total), p, c)
    scale = sum(rf) + sum(rr)
    els = sorted(set(e for n in m.ads + fluid for e in atoms(n)))
    for e in els:
        t = 0.0
        for n, v in zip(m.ads, d):
            t = t + atoms(n).get(e, 0) * v
        for n, v in zip(fluid, tof):
            t = t + atoms(n).get(e, 0) * v
        ctx.eq(t, 0, "element balance between surface and fluid", scale=10 * scale)


def expressions(ctx, mech):
    """The generated rate-of-change expressions denote the same function."""
    m, model, p, c, total, rel, th = prepare(ctx, mech)
    s = model.solver
    kf = [ctx.real("kf%d" % i, positive=True) for i in range(m.n)]
    kr = [ctx.real("kr%d" % i, positive=True) for i in range(m.n)]
    theta = lib.theta_of(m, th, total)
    rf, rr = lib.rates_of(m, kf, kr, theta, p, c)
    want = lib.dtheta_of(m, rf, rr)
    env = {"kf": kf, "kr": kr, "theta": theta, "p": p, "c": c, "dtheta_dt": [0.0] * len(m.ads)}
    for line in s.get_dtheta_dt_expressions():
        exec(line, env)
    for g, w in zip(env["dtheta_dt"], want):
        ctx.eq(g, w, "rate-of-change expression", scale=sum(rf) + sum(rr))
    for a in m.ads:
        t = 0.0
        for e in m.exprs:
            x = s.get_elementary_dtheta_dt_expression(a, e)
            if x:
                t = t + eval(x, env)
        ctx.eq(t, want[m.ads.index(a)], "sum of elementary contributions", scale=sum(rf) + sum(rr))
    ctx.raises(ValueError, "not an adsorbate", s.get_elementary_dtheta_dt_expression, m.gas[0], m.exprs[0])


ALL = ["co_ox", "one", "dissoc", "two_site", "liquid", "auto", "both_sides", "repeat", "apart", "tri", "mixed", "liq2", "powers", "long", "three_sites",
       "spectator", "helper"]
SCENARIOS = [
    Scenario(balance, [dict(mech=k) for k in ALL], [dict(mech=k) for k in ("assoc", "two_gas", "uni")],
             bounds=BOUNDS),
    Scenario(matter, [dict(mech=k) for k in ("co_ox", "dissoc", "liquid", "repeat", "mixed", "two_site", "liq2", "long", "powers")],
             [dict(mech=k) for k in ("assoc", "two_gas", "uni", "auto", "tri", "both_sides")], bounds=BOUNDS),
    Scenario(expressions, [dict(mech=k) for k in ("co_ox", "both_sides", "repeat", "auto", "helper")],
             [dict(mech=k) for k in lib.MECHS], bounds=BOUNDS),
]
