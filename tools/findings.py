# more entries for mkfind.py
W = "the symbolic coverage balance takes one molecule per occurrence: "
KNOWN += [
 ("K01", "C17", {"scenario": "balance", "labels": ["coverage balance of an adsorbate with several molecules"]},
  "symbolic d(theta)/dt ignores the stoichiometry of adsorbates (2O_s counts once); existing tests pin the wrong values, so it is not repaired"),
 ("K02", "C17", {"scenario": "jacobian", "labels": ["Jacobian of an adsorbate with several molecules"]},
  "symbolic Jacobian inherits the missing stoichiometry of adsorbates from the symbolic balance (pinned by existing tests)"),
]
FIXED += [
 ("C21", "e7d5ab1", "a class derived from an analysis class got empty methods instead of those of its parent class"),
]
FIXED += [('C01', '2984dd8', '0.5O2_g was read as 5O2_g and trailing text of a formula was dropped')]
FIXED += [('C02', 'af76743', 'get_species_site_dict of CO_s + CO_s held one CO_s')]
FIXED += [('C03', '50f6f62', 'ChemState.conserve returned a (true) exception object when the other operand is no state')]
FIXED += [('C04', '31218dc', 'adding two formulas raised TypeError instead of giving the state')]
FIXED += [('C25', 'c1319ed', 'trailing items were lost unless the length is a multiple of the process number; shorter sequences raised')]
FIXED += [('C22', 'ae01d02', 'a redistribution process shifted the labels of all following processes')]
FIXED += [('C22', 'efa48c1', 'get_processes called twice doubled the process labels')]
FIXED += [('C05', '7c9bb09', 'energies without Gaf raised KeyError deep inside instead of the documented ParameterError')]
FIXED += [('C22', '154ee71', 'TST rates including pressure raised KeyError for a gas with a stoichiometric coefficient (2CO_g)')]
FIXED += [('C09', 'd5cb46c', 'CT rates including pressure raised KeyError for a gas with a stoichiometric coefficient (2CO_g)')]
FIXED += [('C24', 'a2c145e', 'element types were quoted twice, so the written coverages file could not be read')]
FIXED += [('C24', '2f956dc', 'a sample number that fills the buffer exactly left a file that raises IndexError when read')]
FIXED += [('C24', '22fd906', 'ZeroDivisionError at the end of a run with less than two steady steps, nothing was written')]
FIXED += [('C24', '8e080c3', 'with start_time > 0 the first instantaneous TOF was averaged over the time before the run')]
FIXED += [('C27', '6fb5622', 'moving by [1.0] shifted every axis by one instead of being rejected')]
FIXED += [('C24', 'b4170ad', 'every MPI process re-created (emptied) the frequency and TOF files, whatever the master had written')]
FIXED += [('C27', 'f6b1bd2', 'append with a wrong element left a point without element; extend silently dropped points beyond the shorter list')]
FIXED += [('C27', 'da0d9ba', 'moving an empty group raised a broadcasting error')]
FIXED += [('C26', '7a7df91', '(CO was read as C: the last character of an unclosed parenthesis was dropped')]
FIXED += [('C28', 'cd6c677', 'strings containing quotes or backslashes and text values of dicts were written as invalid or different literals')]
FIXED += [('C30', '39a408e', 'set_corrector was defined twice and the second definition dropped the type check, so any object was accepted as corrector')]
FIXED += [('C19', '2c77021', 'run(fsolve=True) raised AttributeError at the end or reported error and rate control of the coverages of an earlier run')]
FIXED += [('C16', '87c12b6', 'solver.good_guess was always None')]
FIXED += [('C19', 'e0291a5', "with energies given to run() the fallback guess was integrated with the model's energies (AttributeError if it has none)")]
FIXED += [('C18', 'd26f224', 'changing the list get_dtheta_dt_expressions returned changed every later balance and Jacobian of the solver')]
FIXED += [('C33', '660bd2a', 'plot_all raised ValueError (abnormal energies) for a mechanism with an endothermic step without a barrier')]
FIXED += [('C29', 'ecfefda', 'MDNewton without J raised TypeError instead of calculating the Jacobian numerically')]
FIXED += [('C35', '7798629', 'a process that was faster than the master opened its log (or archive) file before the master had made the directory: FileNotFoundError')]
FIXED += [('C36', '49b5dec', 'a run that ended within archive_data left an empty or partial data file: earlier results were lost and the next run ended with EOFError')]
