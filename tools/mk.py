"""Regenerates properties.jsonl and MANIFEST.json from the table below.

(Not a check: run by hand after adding a property.)"""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "scaks/parsers/"
S = "scaks/solvers/"
M = "scaks/models/"

# id, title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanism, state
ROWS = [
 ("C01", "Chemical formulas are read as documented",
  "A formula written as [stoichiometry]species_[n]site is split into exactly those four parts, a missing number means one, "
  "and its kind (gas, liquid, free site, adsorbate) follows from the site label and the species alone. "
  "Text without a species/site separator or site label, or with other text around a formula, is rejected instead of being guessed at.",
  ["inputs"], "every formula text within the length bounds, well-formed or not",
  "the tests parse about ten fixed formulas; the grammar covers unboundedly many",
  [P + "rxn_parser.py"], [("ChemFormula parsing", P + "rxn_parser.py:ChemFormula")], []),
 ("C02", "Element and site accounting is exact and additive",
  "The element and site totals of a formula or of a reaction state equal the sum over its terms of stoichiometry times the "
  "counts written in each term; empty sites hold no element and gas/liquid labels are not surface sites.",
  ["inputs"], "every combination of stoichiometries, element counts and site counts, several terms per state",
  "tests check single states with small fixed counts",
  [P + "rxn_parser.py"], [("element and site dictionaries", P + "rxn_parser.py:ChemFormula,ChemState")], []),
 ("C03", "Only conserved reactions are accepted",
  "A reaction (including its transition state) is accepted if and only if every element and every kind of surface site "
  "occurs equally often in all of its states, and a model cannot be built from a mechanism containing one that is not. Single formulas and states compare by the same rule.",
  ["inputs", "programs"], "every equation with symbolic stoichiometries, element counts and site counts",
  "tests reject two fixed equations",
  [P + "rxn_parser.py", M + "kinetic_model.py"], [("conservation check", P + "rxn_parser.py:RxnEquation.check_conservation"),
                                        ("model construction", M + "kinetic_model.py:Model")], []),
 ("C04", "Reactions are taken apart, reversed and classified faithfully",
  "Splitting a reaction gives its states and formulas in the written order, reversing swaps the states and reversing twice "
  "restores the reaction. Every species of a mechanism appears exactly once in the sorted list of its kind (gas, liquid, "
  "adsorbate, transition state, site). The LaTeX text of a reaction shows all of its formulas with number, elements, counts and phase.",
  ["inputs", "programs"], "every two- or three-state equation of bounded length; every mechanism of the library",
  "tests use one CO oxidation mechanism",
  [P + "rxn_parser.py", P + "parser_base.py", M + "kinetic_model.py"],
  [("equation structure", P + "rxn_parser.py:RxnEquation"), ("classification", M + "kinetic_model.py")], []),
 ("C05", "Relative energy input is complete and thermodynamically consistent",
  "Given barriers and reaction energies are used one per reaction in order; forward barrier minus reverse barrier equals the "
  "reaction energy, and a barrierless endothermic step gets the reaction energy as barrier. Lists that do not match the "
  "mechanism are rejected and leave the model without energies.",
  ["inputs"], "all real barriers and reaction energies; list lengths around the number of reactions",
  "tests read one fixed file",
  [P + "relative_energy_parser.py"], [("energy input", P + "relative_energy_parser.py:RelativeEnergyParser")], []),
 ("C06", "Relative energies follow from absolute energies",
  "Reaction energy and barriers equal the differences of the summed absolute free energies of the states (counting every "
  "molecule); without a transition state the barrier is the uphill difference or zero.",
  ["inputs", "programs"], "all real absolute energies for each mechanism of the library",
  "tests check one data set", [P + "absolute_energy_parser.py", P + "parser_base.py"],
  [("energy conversion", P + "absolute_energy_parser.py:AbsoluteEnergyParser")], []),
 ("C07", "Thermodynamic corrections are the tabulated free energies, applied per molecule",
  "The Shomate correction is H-TS of the tabulated polynomial whose range (ends included) holds the temperature (below the table the values of its lower end, zero without parameters), the "
  "entropy correction is -kT ln q of the ideal gas, and correcting a mechanism moves every state by the sum over its "
  "molecules while keeping forward minus reverse barrier equal to the reaction energy.",
  ["inputs", "configurations"], "all temperatures, pressures and energies in range; tabulated gases",
  "tests pin values at one temperature for two gases",
  ["scaks/correctors/thermodynamic_corrector.py"],
  [("corrections", "scaks/correctors/thermodynamic_corrector.py:ThermodynamicCorrector")], []),
 ("C08", "Transition-state-theory rate constants obey Eyring and detailed balance",
  "Every rate constant equals kT/h exp(-Ga/kT) of its own barrier, is positive, and forward over reverse constant equals "
  "exp(-dG/kT). A larger barrier never gives a larger rate constant.",
  ["inputs", "configurations"], "all barriers, reaction energies and temperatures in range, any number of reactions",
  "tests compare one parameter set with stored numbers",
  [S + "solver_base.py"], [("rate constants", S + "solver_base.py:SolverBase.get_kTST,get_rate_constants")], []),
 ("C09", "Collision-theory rates obey kinetics and detailed balance",
  "Adsorption rates equal the collision flux times sticking factors, proportional to pressure; desorption rates obey detailed "
  "balance including the gas entropy and never exceed the barrierless rate; surface steps use transition state theory. "
  "Ratios above one and non-positive areas are rejected.",
  ["inputs", "configurations"], "all barriers, temperatures, pressures, areas, masses and ratios in range",
  "tests compare one parameter set with stored numbers",
  [S + "solver_base.py"], [("collision theory", S + "solver_base.py:SolverBase.get_kCT,get_rxn_rates_CT")], []),
]
exec(open(os.path.join(VERIF, "tools", "rows.py")).read())


def prop(r):
    pid, title, st, over, text, why, files, mech, state = r
    assert len(title) <= 80, title
    for f in files + [w.split(':')[0] for _, w in mech]:
        assert os.path.exists('/repo/' + f), (pid, f)
    d = {"id": pid, "title": title, "statement": st,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    return d


def main():
    import importlib
    import sys
    sys.path[:0] = [VERIF]
    checks, na = [], []
    rows = [r for r in ROWS]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(prop(r)) + "\n")
    for r in rows:
        pid = r[0]
        if pid in NOT_APPLICABLE:
            na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
            continue
        if not os.path.exists(os.path.join(VERIF, "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": "no check has been built for it yet"})
            continue
        m = importlib.import_module("props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "/opt/venv/bin/python /verif/check.py %s quick" % pid,
            "thorough_cmd": "/opt/venv/bin/python /verif/check.py %s thorough" % pid,
            "technique": "symbolic execution of the real Python functions, assertions decided by Z3, "
                         "counterexamples replayed on the unpatched code",
            "level": "other",
            "level_note": "Bounded, solver-decided. Bounds: %s. Outside: %s. Reals are exact in the "
                          "solver; floating-point rounding is outside." % (
                              m.BOUNDS, m.OUTSIDE)})
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python /verif/check.py --selftest",
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.json. Exit 2 = no answer."}
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
