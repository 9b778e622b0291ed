"""Write DESIGN.md from tools/design.md, the rows, the checks, the evidence of the last runs and the seeded changes."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ORACLE = {
 "C01": "the grammar of the documentation, read off the symbolic characters the text was assembled from; for arbitrary short texts a hand-written recogniser",
 "C02": "sums over the symbolic digits and letters of the text, computed by the harness",
 "C03": "'iff': element and site totals of the harness are equal exactly when the code accepts",
 "C04": "the parts the equation was assembled from; for species lists, set and order conditions over symbolic names",
 "C05": "the given numbers; Gaf - Gar = dG; the documented rule for barrierless endothermic steps",
 "C06": "free energies of the states summed by the harness from the stoichiometries of `lib.MECHS` (written by hand, not parsed)",
 "C07": "Shomate polynomials and the translational entropy written again in the harness; differential laws (pressure, linearity, additivity of corrections)",
 "C08": "Eyring equation, detailed balance Kf/Kr = exp(-dG/kT), common scale of both directions",
 "C09": "collision theory formula for the gas reactant, TST for the rest, detailed balance across both algorithms",
 "C10": "mass action product over `lib.MECHS` stoichiometries; site balance",
 "C11": "nu * net rate summed by the harness; element totals weighted over fluids and surface vanish",
 "C12": "derivative of the code's own coverage balance, taken symbolically by the engine (in replay: central differences of high precision)",
 "C13": "nu * net rate for each fluid species; sign and column conventions of the documentation",
 "C14": "predicates: non-negative, within the total, idempotent, identity on physical coverages, proportions",
 "C15": "ratios exp(-dE/kT) and the sum over species and empty sites",
 "C16": "the iterates, errors and guesses are free variables handed over by a stand-in root finder; predicates over what is reported",
 "C17": "the numeric route of the same model, executed on the same symbolic inputs (equality of two implementations)",
 "C18": "a fresh model asked only the last question (equality of two executions)",
 "C19": "a recorder in place of the searches; every reported quantity recomputed by mass action from the reported coverages",
 "C20": "definition of Campbell's degree of rate control over free-variable responses",
 "C21": "event log of a recording analysis against the sequence of iterates",
 "C22": "the expected process list built by the harness from definition, basis sites, coordinate groups and flags; rates by Eyring/detailed balance",
 "C23": "what the recording stand-in of KMCLib received against the input",
 "C24": "coverages, counts, rates and tables computed by the harness from the event sequence fed to the samplers",
 "C25": "concatenation of all parts = sequence, sizes within one; lengths are integer variables",
 "C26": "an independent expansion of the formula and the published atomic masses",
 "C27": "point set operations written over the symbolic coordinates",
 "C28": "evaluating the written text gives the value back",
 "C29": "functions and Jacobians are uninterpreted: any value at any point; relations between successive iterates",
 "C30": "a table of all documented parameters with type, range and default",
 "C31": "a stand-in integrator that may deliver any trajectory; its arguments and the written files are compared with the input",
 "C33": "recording stand-ins for catplot's line and canvas; energies as given or computed from absolute ones by the harness",
 "C34": "the template is filled in with symbolic numbers, read back by the parsers and compared per reaction/species",
 "C35": "partial orders: the trace of every process with times as integer variables; directories exist from the time of the mkdir; barriers share their time",
 "C36": "a stand-in disk whose operations can end the process; the position and the number of units written are integer variables",
}


def main():
    ns = {}
    src = open(os.path.join(V, "tools", "mk.py")).read().rsplit("main()", 1)[0]
    sys.argv = [os.path.join(V, "tools", "mk.py")]
    ns["__file__"] = sys.argv[0]
    ns["__name__"] = "mk"
    exec(src, ns)
    rows, na = ns["ROWS"], ns.get("NOT_APPLICABLE", {})
    out = []
    for r in rows:
        pid, title = r[0], r[1]
        if pid in na:
            out.append("* **%s %s.** Not applicable: %s." % (pid, title, na[pid]))
            continue
        m = importlib.import_module("props." + pid.lower())
        try:
            e = json.load(open(os.path.join(V, "evidence", pid + ".json")))
            c = e["coverage"]
            cost = "%d functions, %d paths, %d obligations, about %d s" % (
                len(c["functions_encoded"]), c["paths"], c["obligations"], max(1, round(e["wall_s"])))
        except (OSError, KeyError):
            cost = "see evidence"
        out.append("* **%s %s.** For %s. Oracle: %s. Bounds: %s. Outside: %s. Tests: %s. Quick run: %s." % (
            pid, title, r[4], ORACLE[pid], m.BOUNDS, m.OUTSIDE, r[5], cost))
    seeded = []
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        x = json.load(open(d))
        seeded.append("* `%s` (%s): %s" % (os.path.basename(os.path.dirname(d)), x["property"], x["what_it_breaks"]))
    t = open(os.path.join(V, "tools", "design.md")).read()
    t = t.replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(seeded))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)


main()
