From f2d6dcf99fa31311406c96b30580aa337efac6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 01/15] fix: KL-FPI does not report success with non-finite
 parameters

Comparisons with NaN are false, so a NaN update ended the loop and was
reported as a successful optimization.
---
 bfit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..a01209e 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -420,6 +420,9 @@ class KLDivergenceFPI(_BaseFit):
         # check whether convergence is reached.
         if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
             success = False
+        elif not (np.all(np.isfinite(new_cs)) and np.all(np.isfinite(new_es))):
+            # the update broke down, e.g. the integration returned NaN.
+            success = False
         else:
             success = True
 
-- 
2.43.0


From 6e283218014565482d5fcd3093cdc222bf46d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 02/15] fix: trust-constr with constraint when only coeffs or
 exps are optimized

The norm constraint was evaluated without the fixed parameters, so the
vector being optimized was split as if it held both sets.
---
 bfit/fit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index a01209e..4d583f2 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -595,7 +595,12 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                # NonlinearConstraint does not pass args to the constraint function
+                constraints = [
+                    NonlinearConstraint(
+                        lambda x: self.const_norm(x, *args), 0.0, 0.0, jac="3-point"
+                    )
+                ]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From a81ef997d3d559b4fa9f3940e3e8d6a7e89cc549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 03/15] fix: greedy objects can be run more than once

A second run started from the number of functions (and the error
history) left by the first one, and failed.
---
 bfit/greedy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..1c1ff1a 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -503,6 +503,10 @@ class GreedyStrategy(metaclass=ABCMeta):
             raise ValueError(f"Scale {factor} should be positive.")
 
         # Initialize all the variables
+        # Start from one s-type function, whatever an earlier run left behind.
+        self.num_s, self.num_p = 1, 0
+        self.err_arr = []
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
         exit_info = None  # String containing information about how it exits.
-- 
2.43.0


From d94a0cfabe65d5b8be5f0d79d3224a3923900cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 04/15] fix: greedy pick-two does not exceed max_numb_funcs

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 1c1ff1a..c9f1594 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -521,7 +521,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
-- 
2.43.0


From 3e7d76a79c6073cc7aeef5846f504a5b6eb8c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 05/15] fix: greedy rejects a step whose objective is NaN

Such a step was neither accepted nor rejected, which left the number of
functions out of step with the stored parameters.
---
 bfit/greedy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index c9f1594..b6fc39c 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -579,7 +579,8 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval or \
+                    np.isnan(opt_lvalue):
                 # Move back one function and try a different factor to generate
                 #    better initial guesses.
                 numb_redum += 1  # Update the termination criteria
-- 
2.43.0


From 7afa901ce09c9d3d34acf149f1b69c4bba03b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 06/15] fix: greedy handles objective values above 1e10

All choices were discarded when their objective exceeded the initial
'best' value of 1e10, and the run ended in a TypeError.
---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index b6fc39c..d01e86d 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -383,7 +383,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.inf
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
-- 
2.43.0


From 14816080054c92e581a9c6b2010c3d14660990d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 07/15] fix: divergence of a NaN model is NaN and not zero

NaN values of the model were masked like values close to zero, so that a
model with NaN parameters had zero divergence: the greedy KL-FPI method
then took it for the best fit and returned NaN parameters.
---
 bfit/measure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..3300b7d 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -217,6 +217,8 @@ class KLDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=1.0)
+        # an undefined model is not masked (it would look like a perfect fit)
+        ratio[np.isnan(model)] = np.nan
 
         # compute KL divergence
         # Add ignoring division by zero and multiplying by np.nan
@@ -342,6 +344,8 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
+        # an undefined model is not masked
+        ratio[np.isnan(model)] = np.nan
         value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
         integrand = value / (self.alpha - 1.0)
         if deriv:
-- 
2.43.0


From c59dc579f702ae5d282d969eb4dcdaa51a6762f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 08/15] fix: truncated slater file does not hang the parser

At the end of the file readline returns an empty string, which was
skipped as a blank line forever.
---
 bfit/_slater.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/_slater.py b/bfit/_slater.py
index 5c9788f..f710e53 100644
--- a/bfit/_slater.py
+++ b/bfit/_slater.py
@@ -191,6 +191,8 @@ def load_slater_wfn(element, anion=False, cation=False):
         next_line = f.readline()
         # Sometimes there are blank lines.
         while len(next_line.strip()) == 0:
+            if next_line == "":
+                raise RuntimeError(f"Unexpected end of file {file_name}.")
             next_line = f.readline()
         if is_heavy_element:
             # Heavy element slater files has extra redundant information of 5 lines.
@@ -218,6 +220,8 @@ def load_slater_wfn(element, anion=False, cation=False):
 
         line = f.readline()
         while line.strip() == "":
+            if line == "":
+                raise RuntimeError(f"Unexpected end of file {file_name}.")
             line = f.readline()
         while line.strip() != "":
             # If line has ___S___ or P or D where _ = " ".
-- 
2.43.0


From d0ace875435fe942167ad8c930abc38992d1e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 09/15] fix: truncated slater file does not silently give an
 incomplete atom

A file cut between two subshells, or inside the tables of one, was
returned as an atom with electrons or coefficients missing.
---
 bfit/_slater.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bfit/_slater.py b/bfit/_slater.py
index f710e53..cc46c51 100644
--- a/bfit/_slater.py
+++ b/bfit/_slater.py
@@ -255,6 +255,15 @@ def load_slater_wfn(element, anion=False, cation=False):
             else:
                 line = f.readline()
 
+    # A truncated file should not silently give an atom that misses some of its electrons.
+    occupation = _get_number_of_electrons_per_orbital(configuration)
+    if set(orbitals) != set(occupation) or len(orbitals_energy) != len(orbitals) or \
+            len(orbitals_cusp) != (0 if is_heavy_element else len(orbitals)):
+        raise RuntimeError(f"File {file_name} does not match configuration {configuration}.")
+    for orb, coeff in orbitals_coeff.items():
+        if len(coeff) == 0 or len(coeff) != len(orbitals_exp[orb[1]]):
+            raise RuntimeError(f"Coefficients of {orb} are incomplete in file {file_name}.")
+
     data = {'configuration': configuration,
             "energy": energy,
             'kinetic_energy': kinetic_energy,
-- 
2.43.0


From 43199f68c34c939262be8f6907076597e8530492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 10/15] fix: jacobian of trust-constr fits is the gradient of
 the objective

---
 bfit/fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 4d583f2..5040349 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -677,6 +677,9 @@ class ScipyFit(_BaseFit):
         if not res["success"]:
             warnings.warn(f"Failed Optimization: {res['message']}")
 
+        # trust-constr stores the Jacobian of the constraints in "jac"
+        jacobian = res["grad"] if self.method == "trust-constr" else res["jac"]
+
         # split optimized coeffs & expons
         if opt_coeffs and opt_expons:
             coeffs, expons = res["x"][:self.model.nbasis], res["x"][self.model.nbasis:]
@@ -700,7 +703,7 @@ class ScipyFit(_BaseFit):
                    "fun": res["fun"],
                    "success": res["success"],
                    "message": res["message"],
-                   "jacobian": res["jac"],
+                   "jacobian": jacobian,
                    "performance": np.array(self.goodness_of_fit(coeffs, expons)),
                    "time": time}
         return results
-- 
2.43.0


From f07d959265bca19aa23462cfc81e6f1c7389e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 11/15] fix: trust-constr fits do not fail on extended
 precision grids

---
 bfit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 5040349..935760e 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -734,7 +734,8 @@ class ScipyFit(_BaseFit):
         d_obj = np.zeros_like(x)
         for index in range(len(x)):
             d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
-        return obj, d_obj
+        # scipy.minimize no longer supports extended precision
+        return np.float64(obj), d_obj
 
     def const_norm(self, x, *args):
         r"""Compute deviation in normalization constraint :math:`\sum c_i - \int f(x) dx`.
-- 
2.43.0


From 5125bf509001614bafc42c84187ad2183088be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 12/15] fix: greedy exit information names the threshold when
 it ended the fit

---
 bfit/greedy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index d01e86d..07ea0de 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -647,11 +647,11 @@ class GreedyStrategy(metaclass=ABCMeta):
     def _final_exit_info(num_func, max_func, best_val, prev_gval, d_threshold):
         r"""Return string that holds how the greedy algorithm teminated."""
         exit_info = None
-        if not num_func < max_func - 1:
-            exit_info = "Max number of functions reached,  " + str(num_func)
-        elif np.abs(best_val - prev_gval) < d_threshold:
+        if np.abs(best_val - prev_gval) < d_threshold:
             exit_info = "Cost function is less than some epsilon: " + \
                              str(best_val - prev_gval) + " <= " + str(d_threshold)
+        elif not num_func < max_func - 1:
+            exit_info = "Max number of functions reached,  " + str(num_func)
         if exit_info is None:
             raise RuntimeError(f"Exit information {exit_info} should not be None. "
                                f"There is an error in the termination of the algorithm.")
-- 
2.43.0


From 1183ad1d4ab6c5149b577928de4a3a3023e94c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 13/15] fix: greedy fit goes on when no choice of a step has a
 defined objective

---
 bfit/greedy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 07ea0de..f3cbcf2 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -558,6 +558,12 @@ class GreedyStrategy(metaclass=ABCMeta):
             _, best_lparam, is_s_optimal = self._find_best_lparams(
                 total_choices, num_s_choices, num_p_choices
             )
+            if best_lparam is None:
+                # No choice has a defined objective: try again with a different factor.
+                numb_redum += 1
+                factor *= 2
+                self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
+                continue
 
             # Update model for the new number of S-type and P-type functions.
             if is_s_optimal:
-- 
2.43.0


From 0c025888677d6e23824b02853349b29973c32cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 14/15] fix: greedy least-squares starts from a function with a
 defined objective

---
 bfit/greedy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index f3cbcf2..6bb0f85 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -788,7 +788,8 @@ class GreedyLeastSquares(GreedyStrategy):
         cost_func3 = self.eval_obj_function(p3)
 
         p_min = min(
-            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
+            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)],
+            key=lambda t: np.inf if np.isnan(t[0]) else t[0]
         )
         return p_min[1]
 
-- 
2.43.0


From 0a0064d77991b90e4b83f1cb08df0b7e8e6de5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 15/15] fix: a Slater file with damaged lines is refused

Lines that were not recognized were skipped, so that a damaged label or line
break silently dropped basis functions of an orbital. Unknown lines, rows with
another number of columns and anything after the orbitals now raise.
---
 bfit/_slater.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bfit/_slater.py b/bfit/_slater.py
index cc46c51..f3870a0 100644
--- a/bfit/_slater.py
+++ b/bfit/_slater.py
@@ -235,25 +235,37 @@ def load_slater_wfn(element, anion=False, cation=False):
 
                 # Get Energy, Cusp Levels
                 line = f.readline()
+                if line.split()[:1] != ["BASIS/ORB.ENERGY"]:
+                    raise RuntimeError(f"Did not recognize line '{line}' of {file_name}.")
                 orbitals_energy.extend([float(x) for x in line.split()[1:]])
                 if not is_heavy_element:
                     # Heavy atoms slater files, doesn't have cusp values,.
                     line = f.readline()
+                    if line.split()[:1] != ["CUSP"]:
+                        raise RuntimeError(f"Did not recognize line '{line}' of {file_name}.")
                     orbitals_cusp.extend([float(x) for x in line.split()[1:]])
                 line = f.readline()
 
                 # Get Exponents, Coefficients, Orbital Basis
-                while re.match(r'\A^\d' + subshell, line.lstrip()):
+                while re.match(r'\A^\d' + subshell + r'\s', line.lstrip()):
 
                     list_words = line.split()
+                    if len(list_words) != 2 + len(list_of_orbitals):
+                        raise RuntimeError(f"Did not recognize line '{line}' of {file_name}.")
                     orbitals_exp[subshell] += [float(list_words[1])]
                     orbitals_basis[subshell] += [list_words[0]]
 
                     for x in list_of_orbitals:
                         orbitals_coeff[x] += [float(list_words[_get_column(x)])]
                     line = f.readline()
-            else:
+            elif "ORBITAL ENERGIES" in line:
                 line = f.readline()
+            else:
+                raise RuntimeError(f"Did not recognize line '{line}' of {file_name}.")
+
+        # Nothing follows the orbitals.
+        if f.read().strip() != "":
+            raise RuntimeError(f"Did not expect anything after the orbitals in {file_name}.")
 
     # A truncated file should not silently give an atom that misses some of its electrons.
     occupation = _get_number_of_electrons_per_orbital(configuration)
-- 
2.43.0

