# rows C10.. (see mk.py for the columns)
T = "scaks/"
K = "scaks/plugins/"
U = "scaks/utilities/"
ROWS += [
 ("C10", "Reaction rates follow the law of mass action",
  "The forward (reverse) rate of a reaction is its rate constant times the pressure, concentration or coverage of every "
  "reactant (product) raised to its number of molecules, and the net rate is their difference. Free sites of a kind are the site total minus the "
  "coverages on it; the reversibility is reverse over forward rate, and lists of different length are rejected.",
  ["inputs", "programs"], "all rate constants, coverages, pressures, concentrations and site totals for each mechanism",
  "tests compare one coverage vector of one mechanism",
  [S + "mean_field_solver.py"], [("rates", S + "mean_field_solver.py:MeanFieldSolver.get_rates")], []),
 ("C11", "Coverages change exactly by what the reactions produce and consume",
  "The rate of change of every coverage is the sum over the reactions of stoichiometry times net rate, in the function and in every "
  "generated expression; no element appears or vanishes between surface and fluid.",
  ["inputs", "programs"], "all rates and coverages for each mechanism, including species on both sides",
  "tests compare one coverage vector of one mechanism",
  [S + "steady_state_solver.py"], [("balance", S + "steady_state_solver.py:SteadyStateSolver.steady_state_function")], []),
 ("C12", "The analytical Jacobian is the derivative of the coverage balance",
  "Every entry of the Jacobian equals the partial derivative of that adsorbate's rate of change with respect to that coverage, "
  "including powers, repeated species and the dependence of the free sites.",
  ["inputs", "programs"], "all rate constants and coverages for each mechanism",
  "tests compare expression texts and one coverage vector of one mechanism",
  [S + "steady_state_solver.py"], [("Jacobian", S + "steady_state_solver.py:SteadyStateSolver.analytical_jacobian")], []),
 ("C13", "Turnover frequencies count every molecule of a fluid species",
  "The turnover frequency of each gas or liquid is the sum over the reactions of molecules produced minus consumed times the net rate, reported in the "
  "order of the fluid names and selectable by name; unknown names are rejected. The stoichiometric "
  "matrices hold consumed species positive and produced species negative in the documented column order.",
  ["inputs", "programs"], "all rates and coverages for each mechanism",
  "tests compare one mechanism", [S + "mean_field_solver.py"],
  [("turnover frequency", S + "mean_field_solver.py:MeanFieldSolver.get_tof"),
   ("stoichiometry", P + "parser_base.py:ParserBase.get_stoichiometry_matrices")], []),
 ("C14", "Constrained coverages are physical and valid ones are untouched",
  "After constraining, no coverage is negative and the coverages on each kind of site do not exceed its total; "
  "coverages that were already physical come back unchanged, and the proportions among adsorbates that overfill a site only together are kept.",
  ["inputs"], "all real coverages including negative and overfull ones, all site totals",
  "tests constrain two fixed vectors", [S + "steady_state_solver.py"],
  [("constraint", S + "steady_state_solver.py:SteadyStateSolver.__constrain_coverages")], []),
 ("C15", "Boltzmann starting coverages are the normalised Boltzmann distribution",
  "The ratio of two starting coverages is the exponential of their free energy difference over kT, and over all adsorbates "
  "and the empty sites of every kind (if included) they add up to one.",
  ["inputs", "configurations"], "all free energies and temperatures in range", "tests compare one data set",
  [S + "mean_field_solver.py"], [("Boltzmann coverages", S + "mean_field_solver.py:MeanFieldSolver.boltzmann_coverages")], []),
 ("C16", "Reported steady states are converged and physical",
  "Whatever the root finder delivers, coverages are reported as steady state only if the residual is within the tolerance and they are "
  "physical; otherwise the search continues from a new physical guess or reports none. Start guesses handed to the root finder are physical.",
  ["inputs", "fault_sequences"], "every sequence of iterates (arbitrary reals) the root finder may deliver, within the step bounds",
  "tests converge on a few benign inputs and never see a failing root finder",
  [S + "steady_state_solver.py"], [("root finding loop", S + "steady_state_solver.py:SteadyStateSolver.get_steady_state_cvgs")],
  [("coverages and error", "the stored steady state", S + "steady_state_solver.py")]),
 ("C17", "The symbolic route computes the same numbers as the numeric route",
  "Rates, turnover frequencies, coverage balances and Jacobians obtained by symbolic algebra and substitution equal "
  "those computed numerically for the same energies, coverages and conditions.",
  ["inputs", "programs"], "all energies, coverages and conditions in range for each mechanism",
  "tests compare one mechanism", [S + "solver_base.py", S + "mean_field_solver.py", S + "steady_state_solver.py"],
  [("symbolic route", S + "mean_field_solver.py:MeanFieldSolver.get_rate_syms")], []),
 ("C18", "Results do not depend on earlier calls",
  "Asking for rate constants, rates or expressions again, with other arguments, in another order, after new energies were read or from another model in "
  "the same process gives what a fresh model gives, in any sequence of such questions, and changing a returned list does not change later answers.",
  ["histories"], "all energies and temperatures; the listed call sequences",
  "tests use one model per process and one set of arguments", [S + "solver_base.py", S + "mean_field_solver.py", S + "steady_state_solver.py", T + "descriptors/descriptors.py"],
  [("memoization", T + "descriptors/descriptors.py:Memoized")], [("cache", "memoized results", T + "descriptors/descriptors.py:Memoized")]),
 ("C19", "A model run reports mutually consistent results",
  "After a run the stored steady state, rates, net rates, reversibilities and turnover frequencies all belong to the same coverages and energies, "
  "and the initial-guess options are honoured: given coverages first, then archived ones, then a generated guess. The error, the summary of the model and the archived variables in the data file are those of that state.",
  ["configurations", "histories"], "all energies; run options", "tests run one configuration",
  [M + "micro_kinetic_model.py"], [("run", M + "micro_kinetic_model.py:MicroKineticModel.run")], []),
 ("C20", "Degree of rate control is the normalised sensitivity and leaves no trace",
  "The degree of rate control of each step is rate constant over turnover times the finite difference of turnover when both barriers "
  "of that step are shifted together, one value per step; afterwards the converged state is as before.",
  ["inputs", "histories"], "all turnover responses (arbitrary reals) and perturbations", "tests run one mechanism",
  [S + "steady_state_solver.py"], [("rate control", S + "steady_state_solver.py:SteadyStateSolver.get_single_XRC")], []),
 ("C21", "On-the-fly analyses see every step exactly once",
  "For each start of the root search every registered analysis is set up before the first step, told every step after which the search goes on and that falls on its "
  "interval, in order, and finalised once after the last, also when the search is abandoned or restarted. Intervals are positive integers; methods may be inherited.",
  ["histories", "fault_sequences"], "every length and outcome of the search within the bounds, all intervals",
  "tests register one analysis in a converging run", [S + "steady_state_solver.py", K + "analysis.py", K + "metaclasses.py"],
  [("lifecycle", S + "steady_state_solver.py:SteadyStateSolver.get_steady_state_cvgs")], []),
 ("C22", "Kinetic Monte Carlo processes carry the kinetic model's rates",
  "Every defined process yields one forward and (except for redistribution processes) one reverse process per coordinates group and basis site with swapped "
  "elements; its rate constant is the kinetic model's rate of that direction, it carries the fast and redistribution flags, and the list of "
  "process labels names the reaction of each process that is not fast, in order. Generated scripts list every process once, in order.",
  ["inputs", "programs"], "all energies, conditions and factors for the process definitions listed",
  "tests check one mechanism", [S + "kmc_solver.py"], [("process generation", S + "kmc_solver.py:KMCSolver.get_processes")], []),
 ("C23", "Kinetic Monte Carlo input is transferred completely and validated",
  "Lattice, site types, initial configuration, processes, analyses and control parameters given in the input reach the simulation that is run, unchanged and complete; "
  "files named by the caller are read in place of the usual ones; unknown empty types, wrong numbers of site types and unknown site types are rejected.",
  ["inputs", "configurations"], "lattice sizes, element and site types within the bounds", "tests read one input",
  ["scaks/parsers/kmc_parser.py", M + "kmc_model.py"], [("KMC input", "scaks/parsers/kmc_parser.py")], []),
 ("C24", "Kinetic Monte Carlo sampling counts every event once",
  "Coverages, event counts, process frequencies, turnover frequencies and event tables written by the samplers are those of the simulated events, independent of the buffer size, nothing "
  "sampled is lost when the run ends, the files read back to the sampled values, and only the master process writes.",
  ["histories"], "every short event sequence, all times, coverage ratios and intervals", "tests run one seeded trajectory",
  [S + "kmc_plugins/coverages_analysis.py"], [("samplers", S + "kmc_plugins/coverages_analysis.py")], []),
 ("C25", "Work split over processes covers every item exactly once",
  "Distributing a sequence over any number of processes and joining the parts gives back the sequence, with sizes that differ by at most one; merged results "
  "have the order of the input, a broadcast brings the data of the master, and master-only functions run on the master only.",
  ["inputs", "configurations"], "every length and process count within the bounds", "tests run on one process",
  ["scaks/mpicommons.py"], [("split", "scaks/mpicommons.py:MPIUtil.split_seq")], []),
 ("C26", "Molecular composition and mass are computed exactly",
  "A formula (with multiplicities and nested parentheses) is expanded to its elements with multiplicities, its mass is the sum of the tabulated atomic masses, and texts that are no formula or name an unknown element are rejected.",
  ["inputs"], "every formula text within the length bounds", "tests use a few fixed formulas",
  ["scaks/parsers/parser_base.py", S + "solver_base.py"], [("mass", "scaks/parsers/parser_base.py:ParserBase.get_molecular_mass")], []),
 ("C27", "Coordinate groups transform like point sets",
  "Moving a coordinate group shifts every point by the vector and keeps its elements and the original; joining keeps the points of the left group and adds those of the right one that coincide with none of them, where a wildcard "
  "element gives way; appended points keep their order; unequal lengths and wrong points are rejected and leave the group as it was.",
  ["inputs"], "all real coordinates and vectors, up to four points", "tests use fixed coordinates",
  [U + "coordinate_utilities.py"], [("coordinates", U + "coordinate_utilities.py:CoordsGroup")], []),
 ("C28", "Formatted output denotes the value it was given",
  "Durations are split into hours, minutes and seconds that add up to it, and lists and dictionaries written to result files (numbers, nested lists, any text) evaluate to the given values.",
  ["inputs"], "all durations and values in range", "tests format a few numbers",
  [U + "format_utilities.py"], [("formatting", U + "format_utilities.py")], []),
 ("C29", "Newton iterations report the residual of the point they return",
  "Every iterate comes with the function value at exactly that iterate and its norm, is obtained by a (damped) Newton step with the Jacobian at the previous one, and a constrained iterate satisfies the constraint; the damped iteration decreases the norm and stops when the point no longer moves. Numerical Jacobians are difference quotients with the documented step.",
  ["inputs", "histories"], "all values of function and Jacobian at every point asked for, one to two unknowns, up to eight steps",
  "tests solve two fixed systems", [S + "rootfinding_iterators.py"],
  [("iterators", T + "solvers/rootfinding_iterators.py")], []),
 ("C30", "Models validate their parameters and stay independent",
  "A parameter of the wrong type or range is rejected, a parameter cannot be changed after it was set or read, unset ones have their documented defaults, and no model sees another model's values. "
  "Solver, parser, corrector and plotter slots take objects of their kind only; definitions of species, processes and analysis intervals are checked.",
  ["inputs", "histories"], "every attribute, values of every basic type", "tests check three attributes",
  ["scaks/descriptors/descriptors.py", M + "kinetic_model.py"], [("descriptors", "scaks/descriptors/descriptors.py")], []),
 ("C31", "Integrated trajectories start at the initial state and stay consistent",
  "The coverage balance at the given energies is what is integrated, from the given, Boltzmann or clean-surface coverages, in equal steps up to the first point at or past the "
  "end; the last time and coverages are returned, each wanted point is written with its time, and a failure of the integrator is reported.",
  ["inputs", "histories"], "every trajectory the integrator may deliver within the step bounds, all spans", "tests compare one trajectory",
  [S + "steady_state_solver.py"], [("integration", S + "steady_state_solver.py:SteadyStateSolver.solve_ode")], []),
 ("C33", "Energy profile plots show the energies of every elementary reaction",
  "Plotting a model draws, for each reaction in order, one profile that is labelled with the reaction and goes from zero over the forward barrier (if there is one) to "
  "the reaction energy of that very reaction, saved under its own name with the wanted line style.",
  ["inputs"], "all barriers and reaction energies, read as relative or absolute energies", "the tests only construct the plotter",
  ["scaks/plotters/energy_profile_plotter.py"],
  [("profiles", "scaks/plotters/energy_profile_plotter.py:EnergyProfilePlotter.plot_all")], []),
 ("C34", "Generated energy input templates lead back to the model",
  "The template for relative energies has one place for barrier and energy of each reaction in order, that for absolute energies one for each species including sites and transition "
  "states; filled in they are read back as the energies of those reactions and species. Generating them leaves the model as it was.",
  ["inputs", "programs"], "all energies for each mechanism of the library", "the tests never fill in a template",
  [M + "kinetic_model.py"],
  [("relative template", M + "kinetic_model.py:KineticModel.generate_relative_energies_file"),
   ("absolute template", M + "kinetic_model.py:KineticModel.generate_absolute_energies_file")], []),
 ("C35", "Processes of a parallel run start at any relative speed",
  "However fast the processes of a parallel run are relative to each other and whatever directories are there already, building a model and archiving a result never fails and "
  "never blocks: every directory exists before a process writes into it, all processes meet at the same barriers, and each process has log and data files of its own.",
  ["schedules", "configurations"], "every interleaving of the file system accesses of up to four processes", "tests run in one process",
  [M + "kinetic_model.py", M + "micro_kinetic_model.py", "scaks/mpicommons.py"],
  [("log directory", M + "kinetic_model.py:KineticModel._set_logger"), ("data directory", M + "micro_kinetic_model.py:MicroKineticModel.__init__")], []),
 ("C36", "An interrupted run leaves a usable archive",
  "Wherever a process ends while it archives results, the data file is absent (nothing was archived yet) or holds whole results: those before or those after the interrupted "
  "update; a new run reads it and starts from the archived coverages.",
  ["crash_points", "histories"], "every position of the interruption within the file operations of up to three updates, every archived value", "tests do not interrupt a run",
  ["scaks/__init__.py", M + "micro_kinetic_model.py"],
  [("archive", "scaks/__init__.py:ModelShell.archive_data"), ("reading the archive", M + "micro_kinetic_model.py:MicroKineticModel.run")], []),
 ("C32", "The total reaction is the site-free combination of the elementary steps",
  "The overall equation equals a linear combination of elementary steps in which all adsorbates and sites cancel.",
  ["programs"], "every mechanism with one overall reaction", "tests check one mechanism",
  [S + "mean_field_solver.py"], [("total reaction", P + "parser_base.py:ParserBase.get_total_rxn_equation")], []),
]
NOT_APPLICABLE = {
 "C32": "the equation is produced by numpy's singular value decomposition (compiled LAPACK iterations); that code cannot be "
        "encoded for the solver, and replacing it by an exact null space would check different code",
}
