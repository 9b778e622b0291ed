From 0a5be3df083aecbbf80b6158d43c7c4da648193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 01/49] fix: entropy correction of a linear gas at low
 temperature uses the existing logger

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..98f0502 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
-- 
2.43.0


From f0bdcd89e428ba408eeb2b6c83588b6be8448348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 02/49] fix: energy corrections count every molecule of a
 species (stoichiometry)

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 98f0502..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 2c9f7cfe9451ac3dd113b4c55bf52404936e460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 03/49] fix: coverage balance counts every occurrence of an
 adsorbate in a reaction

---
 scaks/solvers/steady_state_solver.py | 43 ++++++++++++----------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..74a4547 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,40 +133,32 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
+        # Net number of adsorbates produced by the forward reaction, the adsorbate
+        # may occur more than once and on both sides of the equation.
+        stoichiometry = 0
+        for formula_list, sign in [(elementary_rxn_list[0], -1),
+                                   (elementary_rxn_list[-1], 1)]:
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
-
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
+                if formula.species_site() == adsorbate_name:
+                    stoichiometry += sign*formula.stoichiometry()
 
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # If adsorbate is neither consumed nor produced, stop.
+        if stoichiometry == 0:
             return
 
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
-            if stoichiometry == 1:
-                increase_rate, decrease_rate = r_expr, f_expr
-            else:
-                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
-                                                for rate_expr in [r_expr, f_expr]]
+        if stoichiometry < 0:
+            increase_rate, decrease_rate = r_expr, f_expr
         # Adsorbate is produced.
         else:
-            if stoichiometry == 1:
-                increase_rate, decrease_rate = f_expr, r_expr
-            else:
-                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
-                                                for rate_expr in [f_expr, r_expr]]
+            increase_rate, decrease_rate = f_expr, r_expr
+
+        if abs(stoichiometry) != 1:
+            increase_rate, decrease_rate = [str(abs(stoichiometry)) + '*' + rate_expr
+                                            for rate_expr in [increase_rate, decrease_rate]]
 
         # Return.
         return increase_rate + ' - ' + decrease_rate
@@ -193,7 +185,8 @@ class SteadyStateSolver(MeanFieldSolver):
                 dtheta_dt_expression_list.append(single_dtheta_dt)
 
         # Join the expressions.
-        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
+        # An adsorbate which is never consumed or produced keeps its coverage.
+        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list) or '0.0'
 
         return dtheta_dt_expression
         # }}}
-- 
2.43.0


From 1c4a4661b882130faf02d238ab2e819515bd74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 04/49] fix: repeated species of a state are one factor of the
 rate, so that it is derived correctly

---
 scaks/solvers/mean_field_solver.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..cf2347f 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -331,9 +331,20 @@ class MeanFieldSolver(SolverBase):
             if direction == 'r':
                 rate_str = 'kr[' + str(idx) + ']'
 
+            # A species may be written more than once, e.g. 'CO_s + CO_s'.
+            stoichiometries = {}
+            for formula in formula_list:
+                species_name = formula.species_site()
+                stoichiometries[species_name] = (stoichiometries.get(species_name, 0) +
+                                                 formula.stoichiometry())
+
+            merged_names = set()
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
                 species_name = formula.species_site()
+                if species_name in merged_names:
+                    continue
+                merged_names.add(species_name)
+                stoichiometry = stoichiometries[species_name]
                 #get type of species
                 if '*' in species_name:
                     if stoichiometry == 1:
-- 
2.43.0


From 6ec4a0a93f7d55473155da26bbc66fd39bee7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 05/49] fix: analytical Jacobian keeps derivatives of a product
 together after a minus

---
 scaks/solvers/steady_state_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 74a4547..5502b7d 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -258,7 +258,7 @@ class SteadyStateSolver(MeanFieldSolver):
         if '*' in adsorbate_name:
             adsorbate_name = '\\' + adsorbate_name
 
-        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
         #r"(.*)\*(theta\['CO_s'\])(\*\*(\d)|)(\*(.*)|)"
         ###########################################################
         # group(1) -> ((.*)\*|), group(2) -> (.*)                 #
@@ -365,7 +365,7 @@ class SteadyStateSolver(MeanFieldSolver):
         # If contains both.
         if (site_name in sites_list) and (theta(adsorbate_name) in term_expression):
             #split two parts
-            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
                 site_part = m.group(1) + '*' + m.group(6)
@@ -420,6 +420,10 @@ class SteadyStateSolver(MeanFieldSolver):
                                                                 term_expression)
                          for term_expression in terms]
 
+        # A sum must be kept together, the operator in front of it may be a minus.
+        derived_terms = ['({})'.format(term) if ' + ' in term else term
+                         for term in derived_terms]
+
         # Combine 2 lists.
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
-- 
2.43.0


From f35f442fea44d728f583769a2b1ff5777f8d18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 06/49] fix: initial coverages from the hybrid method are
 constrained like the first guess

---
 scaks/solvers/steady_state_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 5502b7d..18925d0 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -936,6 +936,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         break
                     else:
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -947,6 +948,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     break
                 else:
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
                 for ap in self._owner.analysis:
-- 
2.43.0


From 245b415627b13c16b73bfd43fa7ad0d715de1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 07/49] fix: a root with more adsorbates than sites is not
 accepted as steady state

---
 scaks/solvers/steady_state_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 18925d0..ba77088 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -877,6 +877,11 @@ class SteadyStateSolver(MeanFieldSolver):
                                     break
                                 else:
                                     lt_zero = False
+                            # More adsorbates than sites is no physical root either.
+                            theta = self._cvg_tuple2dict(x)
+                            for site_name in self._owner.site_names:
+                                if theta[site_name] < -self._owner.tolerance:
+                                    lt_zero = True
                             # check END #
                             if not lt_zero:
                                 if self._owner.log_allowed:
-- 
2.43.0


From 15abaabdc39bcabca0f0fcc6656636e976a0d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 08/49] fix: error of a good initial guess uses the given
 relative energies

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index ba77088..dd39b03 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -806,7 +806,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = self.get_residual(c0, relative_energies)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From 27f3663b087af8702fdf2127422673cd8be8a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 09/49] fix: on-the-fly analysis is finalised once per Newton
 iteration it was set up for

---
 scaks/solvers/steady_state_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index dd39b03..e794843 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -791,6 +791,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            analysis_counter = None  # outer counter the plugins are set up with
             try:
             # {{{
                 # Good initial coverages.
@@ -854,6 +855,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.info('-'*60)
 
                 # Setup analysis plugins
+                analysis_counter = icvg_counter
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
 
@@ -956,8 +958,9 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                if analysis_counter is not None:
+                    for ap in self._owner.analysis:
+                        ap.finalize(self._owner, analysis_counter)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From f72b43e9e156d1b6491d8043ee34e6dc9ecfb1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 10/49] fix: symbolic Jacobian and LaTeX output work for any
 number of adsorbates

---
 scaks/solvers/steady_state_solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index e794843..2be83d2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -589,7 +589,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
@@ -621,7 +621,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -651,7 +651,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From ee589fffee6c3e145cc7266b9a66f549ad83fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 11/49] fix: symbolic route substitutes the concentration of
 each liquid

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index cf2347f..bdbf592 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -1000,7 +1000,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
-- 
2.43.0


From 33e125784b4c36cb0c9d940ff7a960d5c61a4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 12/49] fix: rate control calculation leaves the converged
 state in place

---
 scaks/solvers/steady_state_solver.py | 31 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 2be83d2..643ba8e 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1134,18 +1134,31 @@ class SteadyStateSolver(MeanFieldSolver):
 
             return XRCi
 
+        # The perturbed states must not replace the converged one.
+        converged_state = {attr: getattr(self, attr)
+                           for attr in ("_coverages", "_error", "_good_guess")
+                           if hasattr(self, attr)}
+        archived_data = dict(self._archived_data_dict)
+
         XRCs = [None]*n_rxns
-        for i in range(n_rxns):
-            if self._owner.log_allowed:
-                self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))
+        try:
+            for i in range(n_rxns):
+                if self._owner.log_allowed:
+                    self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))
 
-            # Get XRC for that elementary reaction.
-            XRC = get_XRCi(i)
-            XRCs[i] = XRC
+                # Get XRC for that elementary reaction.
+                XRC = get_XRCi(i)
+                XRCs[i] = XRC
 
-            # Ouput log info.
-            if self._owner.log_allowed:
-                self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
+                # Ouput log info.
+                if self._owner.log_allowed:
+                    self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
+        finally:
+            for attr, value in converged_state.items():
+                setattr(self, attr, value)
+            self._archived_data_dict = archived_data
+            for data_name, data in archived_data.items():
+                self.archive_data(data_name, data)
 
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
-- 
2.43.0


From 018009357aa4b611dd42ca14724091b1c6034f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 13/49] fix: memoized results belong to one solver and one set
 of arguments

---
 scaks/descriptors/descriptors.py | 39 ++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..c236a99 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -2,8 +2,11 @@
 Definitions of attribute descriptors.
 """
 
-import numpy as np
 import copy
+import functools
+import inspect
+
+import numpy as np
 
 from ..utilities.check_utilities import check_species_definitions
 from ..utilities.check_utilities import check_ref_energies
@@ -374,27 +377,35 @@ def make_hashable(var):
 
 class Memoized(object):
     """ Descriptor for returned value memoization.
+
+    .. note::
+        Results are stored per instance, they may depend on everything that
+        does not change during the lifetime of the instance and its owner.
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
+        self.signature = inspect.signature(func)
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        return functools.partial(self.__memoized_call, instance)
 
-    def __call__(self, **kwargs):
-        # Make all arguments hashable.
-        key = make_hashable(kwargs)
+    def __memoized_call(self, instance, **kwargs):
+        # Get all arguments, including those using default value.
+        bound = self.signature.bind(instance, **kwargs)
+        bound.apply_defaults()
+        arguments = dict(list(bound.arguments.items())[1:])
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        if "relative_energies" in arguments and not arguments["relative_energies"]:
+            arguments["relative_energies"] = instance._owner.relative_energies
+
+        # Make all arguments hashable, the arguments may be changed by the caller later.
+        key = make_hashable(copy.deepcopy(arguments))
 
-        try:
-            return self.results[key]
-        except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+        results = instance.__dict__.setdefault("_memoized_results", {})
+        results = results.setdefault(self.func.__name__, {})
+        if key not in results:
+            results[key] = self.func(instance, **kwargs)
 
+        return copy.deepcopy(results[key])
-- 
2.43.0


From c21045df5b07af248341d935465ebfd8f6f9c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 14/49] fix: models do not share mutable default attribute
 values

---
 scaks/descriptors/descriptors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index c236a99..0d7abc1 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -33,7 +33,8 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            # Instances must not share a mutable default value.
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From 6a036ca7b0e313887b552e854ab4f2f02fd1a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 15/49] fix: set_plotter sets the given plotter

---
 scaks/models/kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..e700203 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -404,7 +404,7 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
+        setattr(self, mangled_name(self, 'plotter'), plotter)
 
     def set_corrector(self, corrector):
         ''' Set corrector for current model
-- 
2.43.0


From 9a49a03dc44baa2136da09356b95c1b20161d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 16/49] fix: archived steady state coverages are found and used
 as initial guess

---
 scaks/models/micro_kinetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..4bca01b 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,8 +217,8 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
-            if init_guess in data:
+            init_guess = 'steady_state_coverages'
+            if init_guess in data and len(data[init_guess]) == len(self.adsorbate_names):
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
                     self._logger.info(msg)
-- 
2.43.0


From 8a3e32300e8b1c5c018e825f8fb3599478c3dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 17/49] fix: run without initial coverages starts from the
 hybrid method's guess

---
 scaks/models/micro_kinetic_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 4bca01b..371a9f4 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -233,6 +233,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From 6827ae67cf7f66a1aae07cd9139aeea2c1eeb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 18/49] fix: line search of ConstrainedNewton works with
 current numpy and scipy

---
 scaks/solvers/rootfinding_iterators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..1ce383e 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,10 +130,11 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                # A numpy number must not broadcast over the matrix.
+                x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
-            l = golden(fl)
+                return float(norm(fx))  # scipy expects ordinary numbers
+            l = self._mpfloat(golden(fl))
 #            print l
 #            l = mp.mpf('1.0')
             x1 = self._matrix(x0) + l*s  # matrix
-- 
2.43.0


From eca5e5884b8c5f563542ba7f9badc35b03e3219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 19/49] fix: MDNewton returns the function value of the point
 it returns

---
 scaks/solvers/rootfinding_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 1ce383e..08f8865 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -250,10 +250,11 @@ class MDNewton(RootfindingIterator):
                     self.logger.info("Found stationary point.")
                     cancel = True
                     break
-                fx = mp.matrix(f(x1))
-                newnorm = norm(fx)
+                newfx = mp.matrix(f(x1))
+                newnorm = norm(newfx)
                 if newnorm < fxnorm:
                     # new x accepted
+                    fx = newfx
                     fxnorm = newnorm
                     x0 = x1
                     break
-- 
2.43.0


From e7d5ab16fe511f621f371885c97e8d1aa5c5f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 20/49] fix: an analysis class inherits the methods of the
 analysis class it extends

---
 scaks/plugins/metaclasses.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/scaks/plugins/metaclasses.py b/scaks/plugins/metaclasses.py
index 35d470f..78c449d 100644
--- a/scaks/plugins/metaclasses.py
+++ b/scaks/plugins/metaclasses.py
@@ -18,17 +18,25 @@ class AnalysisMeta(type):
             if method is not None and not callable(method):
                 msg = "{} must be a callable object".format(method)
                 raise AttributeError(msg)
-            # Set default interface methods.
-            elif method is None:
-                if method_name == 'setup':
-                    attrs[method_name] = lambda self, model, outer_counter: None
-                elif method_name == 'register_step':
-                    attrs[method_name] = lambda self, model, inner_counter, outer_counter: None
-                elif method_name == 'finalize':
-                    attrs[method_name] = lambda self, model, outer_counter: None
 
         # Set logger.
         logger_name = 'scaks.{}'.format(name)
         attrs['logger'] = logging.getLogger(logger_name)
 
-        return type.__new__(cls, name, bases, attrs)
+        new_cls = type.__new__(cls, name, bases, attrs)
+
+        # Set default interface methods, where neither the class nor a class it
+        # inherits from (except the interface itself) defines them.
+        defaults = {
+            'setup': lambda self, model, outer_counter: None,
+            'register_step': lambda self, model, inner_counter, outer_counter: None,
+            'finalize': lambda self, model, outer_counter: None,
+        }
+        interface = [c for c in new_cls.__mro__ if isinstance(c, cls)][-1]
+        for method_name, default in defaults.items():
+            method = getattr(new_cls, method_name, None)
+            if method is None or (new_cls is not interface and
+                                  method is getattr(interface, method_name, None)):
+                setattr(new_cls, method_name, default)
+
+        return new_cls
-- 
2.43.0


From 2984dd8f7c123140c60494786ce6f9108b459892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 21/49] fix: text around a chemical formula is rejected

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..2322b17 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -311,7 +311,7 @@ class ChemFormula(object):
         Private helper function to split whole formual to
         stoichiometry, species name, site number, site name.
         """
-        m = self.__formula_regex.search(self.__formula)
+        m = self.__formula_regex.fullmatch(self.__formula.strip())
         if not m:
             msg = 'Unexpected chemical formula: {}'.format(self.__formula)
             raise ChemFormulaError(msg)
-- 
2.43.0


From af7674336d862e8000c8ac0018331c6813ac2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 22/49] fix: species of a state that are written repeatedly are
 added up

---
 scaks/parsers/rxn_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 2322b17..f3cf2df 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -173,8 +173,11 @@ class ChemState(object):
         """
         formula_list = self.tolist()
 
-        species_site_dict = {formula.species_site(): formula.stoichiometry()
-                             for formula in formula_list}
+        species_site_dict = {}
+        for formula in formula_list:
+            species_site = formula.species_site()
+            number = species_site_dict.get(species_site, 0)
+            species_site_dict[species_site] = number + formula.stoichiometry()
 
         return species_site_dict
 
-- 
2.43.0


From 50f6f620c0727acccc9541c8497535de5e1550b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 23/49] fix: comparing a state with something else is an error

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index f3cf2df..b00a05d 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -237,7 +237,7 @@ class ChemState(object):
         # Check input parameter.
         if not isinstance(another, self.__class__):
             msg = "Parameter another must be instance of ChemState."
-            return ParameterError(msg)
+            raise ParameterError(msg)
 
         # Check elements.
         dict1 = self.get_elements_dict()
-- 
2.43.0


From 31218dc15aaa1648589ddf4965592b393d4038d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 24/49] fix: formulas can be added to a state

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index b00a05d..4d6959a 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -306,7 +306,7 @@ class ChemFormula(object):
     def __add__(self, formula_inst):
         """ Overload + operation function.
         """
-        chem_state = self.formula + ' + ' + formula_inst.formula
+        chem_state = self.formula() + ' + ' + formula_inst.formula()
         return ChemState(chem_state)
 
     def __split(self):
-- 
2.43.0


From c1319ed11ca0f128699600d0aa7e8c0fb2b4820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 25/49] fix: splitting a sequence over processes loses no items

---
 scaks/mpicommons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..916dc07 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,9 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        quotient, residual = divmod(len(sequence), self.size)
+        start = self.rank*quotient + min(self.rank, residual)
+        end = start + quotient + (1 if self.rank < residual else 0)
 
         return sequence[start: end]
 
-- 
2.43.0


From ae01d02bfc4e20c395674e3bbac748f9e0d81659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 26/49] fix: redistribution processes add no label for a
 reverse process

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..c121a15 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not redist and not fast:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From efa48c1ec32e7cd292d35d8efa55c401761b4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 27/49] fix: generating processes again does not repeat their
 labels

---
 scaks/solvers/kmc_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index c121a15..6b00241 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,7 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
-- 
2.43.0


From 7c9bb09cf1490ca24a0b43f436f859521fc90046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 28/49] fix: relative energies without forward barriers are
 rejected

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index bdbf592..26b043d 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -213,7 +213,7 @@ class MeanFieldSolver(SolverBase):
                 raise AttributeError(msg)
 
         # Check input parameter.
-        if "Gaf" and "Gar" not in relative_energies:
+        if "Gaf" not in relative_energies or "Gar" not in relative_energies:
             msg = "'Gaf' and 'Gar' must be in relative_energies."
             raise ParameterError(msg)
 
-- 
2.43.0


From 154ee7165926d0a25360b310bf63da0994d1f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 29/49] fix: rates with pressure work for several molecules of
 a gas

---
 scaks/solvers/solver_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..8b2edfc 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,19 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            definitions = self._owner.species_definitions
+            f = lambda gas: (definitions[gas.species_site()]["pressure"] **
+                             gas.stoichiometry())
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
-- 
2.43.0


From d5cb46c1609ce10c64ca80bda47879df1b693087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 30/49] fix: collision theory rates with pressure work for
 several molecules of a gas

---
 scaks/solvers/solver_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 8b2edfc..3268a59 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -233,7 +233,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -287,7 +287,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From a2c145ec9a783b4178601e31b587f1152c839693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 31/49] fix: coverages file of a kMC run is valid Python

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From 2f956dccfd5d4c6add10aa212c0a0a33545d06d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 32/49] fix: coverages file stays readable if the buffer is
 empty at the end

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..a6ef13d 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -137,7 +137,8 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         """
         if mpi.is_master:
             # Write to file.
-            self.__flush()
+            if self.__coverages:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From 22fd906d5cbf27158ed83161496f2b07af63e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 33/49] fix: frequencies are written for runs with a single
 steady step

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..d7c9377 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -126,7 +126,8 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Calculate rates.
         reaction_rates = {}
         for reaction, occurency in steady_reaction_occurencies.items():
-            rate = occurency/(delta_t*nsites)
+            # No rate can be told from less than two steps.
+            rate = occurency/(delta_t*nsites) if delta_t > 0.0 else 0.0
             reaction_rates.setdefault(reaction, rate)
         reaction_rates_str = get_dict_string("reaction_rates", reaction_rates)
 
-- 
2.43.0


From 8e080c3caa5354d012a2cd266355d2ed7be3e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 34/49] fix: first TOF interval begins at the start time of the
 run

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..2cf4719 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -73,6 +73,9 @@ class TOFAnalysis(KMCAnalysisPlugin):
         # }}}
 
     def setup(self, step, time, configuration, interactions):
+        # The first interval begins with the simulation.
+        self.__start_time = time
+
         # Create statistic data file.
         variables_str = ("times = []\ntofs = []\n")
         process_mapping = self.__kmc_model.process_mapping
-- 
2.43.0


From 6fb5622ee3506b18888fb4ca13f31e707529aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 35/49] fix: move vectors of a wrong length are rejected

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..75dcfb4 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -99,7 +99,7 @@ class CoordsGroup(object):
             move_vector = [0.0, 0.0, 0.0]
 
         # Check the parameter.
-        if type(move_vector) is not list and len(move_vector) != 3:
+        if len(move_vector) != 3:
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-- 
2.43.0


From b4170ad6dbfdcb136caefe3f11f8e0cc78c1486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 36/49] fix: only the master process creates kMC sampling files

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 7 ++++---
 scaks/solvers/kmc_plugins/tof_analysis.py       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index d7c9377..4d68cfd 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -63,9 +63,10 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Create statistic data file.
         variables_str = ("times = []\npicked_indices = []\n" +
                          "process_occurencies = []\n")
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Append picked index.
diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index 2cf4719..bdd93ae 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -81,9 +81,10 @@ class TOFAnalysis(KMCAnalysisPlugin):
         process_mapping = self.__kmc_model.process_mapping
         process_mapping_str = get_list_string("processes", process_mapping, 1)
 
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str + process_mapping_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str + process_mapping_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Get picked process index.
-- 
2.43.0


From f6b1bd2beb9a8481e31edee9a86fbda9fb27d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 37/49] fix: coordinates and elements of a group stay of one
 length

---
 scaks/utilities/coordinate_utilities.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 75dcfb4..598c1fc 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -59,17 +59,15 @@ class CoordsGroup(object):
         :param element: element type, default value is "V"
         :type element: str
         """
-        # Append coordinates.
+        # Check both before changing anything.
         self.__check_coordinate(coordinate)
-        self.__coords.append(coordinate)
-
-        # Append elements.
         if element is None:
-            self.__elements.append("V")
-        else:
-            if type(element) is not str:
-                raise ValueError("element must be a string.")
-            self.__elements.append(element)
+            element = "V"
+        elif type(element) is not str:
+            raise ValueError("element must be a string.")
+
+        self.__coords.append(coordinate)
+        self.__elements.append(element)
 
     def extend(self, coordinates, elements=None):
         """ Function to add new coordinates.
@@ -83,6 +81,10 @@ class CoordsGroup(object):
         if elements is None:
             elements = ["V"]*len(coordinates)
 
+        if len(coordinates) != len(elements):
+            msg = "Length of coordinates({}) and elements({}) are different."
+            raise ValueError(msg.format(len(coordinates), len(elements)))
+
         for coordinate, element in zip(coordinates, elements):
             self.append(coordinate, element)
 
-- 
2.43.0


From da0d9ba989e132014cc818491dce5b077e9c0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 38/49] fix: an empty coordinate group can be moved

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 598c1fc..ef33b6d 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -105,7 +105,7 @@ class CoordsGroup(object):
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(-1, 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From 7a7df9124cde7b918b08a28258b4f868dd37d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 39/49] fix: formulas with an unclosed parenthesis are rejected

---
 scaks/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/functions.py b/scaks/functions.py
index 7c2d4d3..6d356b4 100644
--- a/scaks/functions.py
+++ b/scaks/functions.py
@@ -30,6 +30,8 @@ def string2symbols(s):  # HACKED# copy-pasted from ase\atoms.py
                 p -= 1
                 if p == 0:
                     break
+        if p != 0:
+            raise ValueError("Unbalanced parentheses in {}".format(s))
         j = i + 1
         while j < n and s[j].isdigit():
             j += 1
-- 
2.43.0


From cd6c677c2356d0827879ca507f2250f7fda069e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 40/49] fix: text with quotes is written as valid Python

---
 scaks/utilities/format_utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scaks/utilities/format_utilities.py b/scaks/utilities/format_utilities.py
index e12adc0..5cd2dd9 100644
--- a/scaks/utilities/format_utilities.py
+++ b/scaks/utilities/format_utilities.py
@@ -36,9 +36,9 @@ def get_list_string(var_name, list_obj, ncols=5):
         if idx % ncols == 0:
             data += ('\n' + indent)
 
-        # add single quotes for string
+        # add quotes for string
         if isinstance(elem, str):
-            data += ("'" + elem + "', ")
+            data += (repr(elem) + ', ')
         else:
             data += (str(elem) + ', ')
     end = '\n]\n\n'
@@ -60,7 +60,9 @@ def get_dict_string(var_name, dict_obj):
     data = ""
     for key in sorted(dict_obj):
         value = dict_obj[key]
-        data += "    '{}': {},\n".format(key, value)
+        if isinstance(value, str):
+            value = repr(value)
+        data += "    {}: {},\n".format(repr(key), value)
     end = "}\n\n"
 
     content = begin + data + end
-- 
2.43.0


From 39a408e79ace7a426092b61e670c291e24d60476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 41/49] fix: set_corrector accepts correctors only

---
 scaks/models/kinetic_model.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e700203..f3d72b2 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -406,14 +406,6 @@ class KineticModel(object):
         '''
         setattr(self, mangled_name(self, 'plotter'), plotter)
 
-    def set_corrector(self, corrector):
-        ''' Set corrector for current model
-
-        :param corrector: Valid corrector object
-        :type corrector: any
-        '''
-        setattr(self, mangled_name(self, 'corrector'), corrector)
-
     @Property
     def log_allowed(self):
         """
-- 
2.43.0


From 2c77021f0cb8ee151752ed22649428619731d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 42/49] fix: coverages and error of the fsolve route are kept

---
 scaks/solvers/steady_state_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 643ba8e..10147bf 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -750,7 +750,11 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        # Results derived from the solver's state must refer to these coverages.
+        self._coverages = tuple(self.coarse_steady_state_cvgs(c0, relative_energies))
+        self._error = self.get_residual(self._coverages, relative_energies)
+
+        return self._coverages
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From 87c12b673750343b7235ff73b46944ef8930a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 43/49] fix: good_guess returns the guess

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 10147bf..5eaefd2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1402,4 +1402,4 @@ class SteadyStateSolver(MeanFieldSolver):
     def good_guess(self):
         """ Query function for good initial coverages.
         """
-        self._good_guess
+        return self._good_guess
-- 
2.43.0


From e0291a5debc23453e1834e744397b08c849f1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 44/49] fix: the guess is integrated with the energies asked
 for

---
 scaks/models/micro_kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 371a9f4..209f193 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -227,7 +227,7 @@ class MicroKineticModel(KineticModel):
             else:
                 if self.log_allowed:
                     self._logger.info('Do ODE integration to get initial guess...')
-                ode_traj = solver.solve_ode()
+                ode_traj = solver.solve_ode(relative_energies=relative_energies)
                 init_cvgs = ode_traj[-1]
 
         else:
-- 
2.43.0


From d26f2243392405c14eb71f27a0afa10498e55453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 45/49] fix: changing the returned coverage balances does not
 change later results

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 5eaefd2..d6836eb 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -199,7 +199,7 @@ class SteadyStateSolver(MeanFieldSolver):
         """
         # {{{
         try:
-            return self.__dtheta_dt_expressions
+            return list(self.__dtheta_dt_expressions)
         except AttributeError:
             dtheta_dt_expressions = []
             for idx, adsorbate_name in enumerate(self._owner.adsorbate_names):
@@ -209,7 +209,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
             self.__dtheta_dt_expressions = dtheta_dt_expressions
 
-            return dtheta_dt_expressions
+            return list(dtheta_dt_expressions)
         # }}}
 
     def steady_state_function(self, cvgs_tuple, relative_energies=None):
-- 
2.43.0


From 660bd2a687eb063d787d728ea915c472d4ace650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 46/49] fix: energy profiles of endothermic steps without a
 barrier can be plotted

---
 scaks/plotters/energy_profile_plotter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scaks/plotters/energy_profile_plotter.py b/scaks/plotters/energy_profile_plotter.py
index 849ba67..f99c849 100644
--- a/scaks/plotters/energy_profile_plotter.py
+++ b/scaks/plotters/energy_profile_plotter.py
@@ -59,7 +59,9 @@ class EnergyProfilePlotter(PlotterBase):
         for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                 self._owner.relative_energies['Gaf'],
                                                 self._owner.relative_energies['dG'])):
-            energies = [0.0, dG] if abs(Ga) < 1e-5 else [0.0, Ga, dG]
+            # The barrier of an endothermic step without one is its reaction energy.
+            barrierless = abs(Ga) < 1e-5 or abs(Ga - dG) < 1e-5
+            energies = [0.0, dG] if barrierless else [0.0, Ga, dG]
             canvas = EPCanvas()
             canvas.add_line(ElementaryLine(energies, rxn_equation=rxn, **kwargs))
             canvas.draw()
-- 
2.43.0


From ecfefda5e2ab5723796dbddd9da6f044624eda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 47/49] fix: MDNewton without a Jacobian calculates it
 numerically

---
 scaks/solvers/rootfinding_iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 08f8865..efa832d 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -207,8 +207,8 @@ class MDNewton(RootfindingIterator):
         if 'J' in kwargs:
             self.J = kwargs['J']
         else:
-            def J(*x):
-                return mp.jacobian(f, x)
+            def J(x):
+                return mp.jacobian(lambda *v: f(mp.matrix(v)), x)
             self.J = J
         self.norm = mp.norm
         self.verbose = kwargs['verbose']
-- 
2.43.0


From 7798629d552e74d5ef06a2ae0bdeb1a39768301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 48/49] fix: processes wait for the log and data directories

---
 scaks/models/kinetic_model.py       | 1 +
 scaks/models/micro_kinetic_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index f3d72b2..262cc01 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -196,6 +196,7 @@ class KineticModel(object):
                 mpi.barrier()
                 if not os.path.exists("./log") and mpi.is_master:
                     os.mkdir("./log")
+                mpi.barrier()
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 209f193..91b779a 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -131,6 +131,7 @@ class MicroKineticModel(KineticModel):
             mpi.barrier()
             if mpi.is_master:
                 os.mkdir("./data")
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From 49b5dec8c1587b10b9da8956b5d605b58cf82c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:19 +0000
Subject: [PATCH 49/49] fix: an interruption while archiving keeps the archive
 readable

---
 scaks/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/__init__.py b/scaks/__init__.py
index bf25d4e..972e5b3 100644
--- a/scaks/__init__.py
+++ b/scaks/__init__.py
@@ -1,3 +1,4 @@
+import os
 import time
 import sys
 
@@ -45,8 +46,11 @@ class ModelShell(object):
             self._archived_data_dict[data_name] = data
             # Dump data dict to data file
             if self._archived_data_dict:
-                with open(self._owner.data_file, 'wb') as f:
+                # An interruption must not destroy the archive.
+                temp_file = self._owner.data_file + '.tmp'
+                with open(temp_file, 'wb') as f:
                     pickle.dump(self._archived_data_dict, f)
+                getattr(os, 'replace', os.rename)(temp_file, self._owner.data_file)
 
     @staticmethod
     def write2file(filename, line):
-- 
2.43.0

