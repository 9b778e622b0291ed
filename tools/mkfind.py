"""Writes known_findings.json (run by hand). Column: property, commit, what failed."""
import json, os
FIXED = [
 ("C07", "0a5be3d", "entropy correction of a linear gas below the tabulated temperature raised AttributeError instead of correcting"),
 ("C07", "f0bdcd8", "energy corrections counted a species once whatever its stoichiometry, so corrected 2CO_g got one CO correction"),
 ("C11", "2c9f7cf", "d(theta)/dt used only the first occurrence of an adsorbate that occurs repeatedly or on both sides of a reaction"),
 ("C12", "1c4a466", "a species repeated in a state (CO_s + CO_s) was derived as if it occurred once"),
 ("C12", "6ec4a0a", "derivative of a reverse rate with several factors lost its parentheses after a minus; powers of ten and more were misread"),
 ("C16", "f35f442", "initial coverages produced by the hybrid method after a failed search were not constrained"),
 ("C16", "245b415", "a root with more adsorbates than sites (negative free sites) was accepted as steady state"),
 ("C16", "15abaab", "a good initial guess was judged with the model's energies although other relative energies were given"),
 ("C21", "27f3663", "on-the-fly analysis was finalised a second time, or with another iteration counter than it was set up with"),
 ("C17", "f72b43e", "symbolic Jacobian and LaTeX output failed unless the number of adsorbates was that of the example"),
 ("C17", "ee589ff", "the symbolic route substituted pressures for the liquid concentrations"),
 ("C20", "33e1257", "computing the degree of rate control replaced the converged coverages and the archive by those of the perturbed model"),
 ("C18", "0180093", "memoized rate constants were shared by all models of a process and by calls with other arguments"),
 ("C30", "c21045d", "models shared mutable default attribute values"),
 ("C30", "6a036ca", "set_plotter set the parser slot instead of the plotter"),
 ("C19", "9a49a03", "archived steady state coverages were never found, so the archive was not used as initial guess"),
 ("C19", "8a3e323", "run without initial coverages passed no guess to the search"),
 ("C29", "6827ae6", "line search of ConstrainedNewton raised with the installed numpy and scipy"),
 ("C29", "eca5e58", "MDNewton returned the function value of another point than the one it returned"),
]
KNOWN = []   # (id, property, where, what)
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
exec(open(os.path.join(os.path.dirname(path), "tools", "findings.py")).read())
out = [{"id": "F%02d" % (i + 1), "property": p, "status": "fixed", "commit": c,
        "what": "fixed: property=%s %s %s" % (p, c, w)} for i, (p, c, w) in enumerate(FIXED)]
out += [{"id": i, "property": p, "status": "known", "where": w, "what": t} for i, p, w, t in KNOWN]
json.dump({"findings": out}, open(path, "w"), indent=1)
