From 85580a12d9a742ccad3a81d17d9430a7ca24c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 01/29] fix: no boundary point switching constraint on the last
 finite element of a stage

For schemes without an explicit right boundary point (Gauss-Legendre), the last
finite element has no end point multipliers. The constraint was added with the
multipliers of the last RK stage, which forced c(x_end) == c(x_ns).
---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..f65c91c 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -505,7 +505,9 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        # NOTE: the last finite element of a control stage has no boundary point multipliers
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 8b1a112de3fdc9184d334a2508c13c1eaeb87a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 02/29] fix: report switch times as points in time instead of
 step sizes

---
 nosnoc/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..409aeb4 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,7 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    # finite element i ends at t_grid[i + 1]
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From 4f263910afef8dbb352106c57167fd005de9fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 03/29] fix: NosnocSimLooper.run(stop_on_failure=True) stops on
 a failed step

The status is a Status member since it replaced the IPOPT return string.
---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..9d78c4c 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if (stop_on_failure and results["status"] == Status.INFEASIBLE):
                 return False
 
         return True
-- 
2.43.0


From dc2f355bcaddd77ba9f8efd09952cc45e0e36f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 04/29] fix: creation of the global speed of time variable

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index f65c91c..e51fa43 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -650,7 +650,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 6d2b1e75af5838a19dc6740b80e88e5b9575d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 05/29] fix: control stage complementarities with stage
 dependent number of finite elements

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index e51fa43..f560d59 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -540,7 +540,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From 80067fc96bed01dc5d15fc388ab677230a9dd95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 06/29] fix: do not share solver options between NosnocOpts
 instances

opts_casadi_nlp was one dictionary for all instances, such that e.g. the IPOPT
tolerance derived from comp_tol of the first problem was used for all later ones.
---
 nosnoc/nosnoc_opts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..bd6146f 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Union, Optional
 from dataclasses import dataclass, field
 
@@ -124,6 +125,10 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    def __post_init__(self):
+        # the nested solver options are class level defaults: give every instance its own copy
+        self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-- 
2.43.0


From ed9945560bb58f4e905256ebabb4717e1cebcb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 07/29] fix: report the objective value with its sign, and the
 one of the polished solution

---
 nosnoc/solver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 409aeb4..2f4be2b 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -256,7 +256,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -266,7 +266,7 @@ class NosnocSolverBase(ABC):
             if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
                 print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -406,7 +406,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
@@ -432,7 +432,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
@@ -440,7 +440,7 @@ class NosnocSolver(NosnocSolverBase):
 
         # print constraint violation
         if opts.print_level > 1 and opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
-            threshold = np.max([np.sqrt(cost_val) / 100, opts.comp_tol * 1e2, 1e-5])
+            threshold = np.max([np.sqrt(np.abs(cost_val)) / 100, opts.comp_tol * 1e2, 1e-5])
             g_val = prob.g_fun(w_opt, self.p_val).full().flatten()
             if max(abs(g_val)) > threshold:
                 print("\nconstraint violations:")
-- 
2.43.0


From a241229e1992189f0872815722e9ad2f988f4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 08/29] fix: extract results of subsystems with different
 numbers of regions

---
 nosnoc/solver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 2f4be2b..b82aa5c 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -469,6 +469,13 @@ class NosnocSolver(NosnocSolverBase):
         return results
 
 
+def _get_algebraic_values(w: np.ndarray, ind: list) -> np.ndarray:
+    """Values with one row per subsystem, flat if the subsystems have different sizes."""
+    if len({len(ind_sys) for ind_sys in ind}) > 1:
+        ind = flatten(ind)
+    return w[ind]
+
+
 def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> dict:
     opts = prob.opts
 
@@ -484,8 +491,12 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    results["theta_list"] = [
+        _get_algebraic_values(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_theta)
+    ]
+    results["lambda_list"] = [
+        _get_algebraic_values(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_lam)
+    ]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
-- 
2.43.0


From f0464d0a3603c0e61f7a9060fb00ad834895c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 09/29] fix: step representation of subsystems with different
 numbers of regions

---
 nosnoc/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..e23c180 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -237,7 +237,7 @@ class NosnocModel:
             theta = self.theta
 
         # setup upsilon
-        upsilon = []
+        upsilon = []  # one vector per subsystem
         if opts.pss_mode == PssMode.STEP and self.F is not None:
             for ii in range(self.dims.n_sys):
                 upsilon_temp = []
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -287,7 +287,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From 27e0e1244128c79c6e6822e62a598928a97912b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 10/29] fix: initialization of theta with multiple subsystems

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index b82aa5c..8352020 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -89,7 +89,7 @@ class NosnocSolverBase(ABC):
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
                         for sssub_idx in ssub_idx:
-                            prob.w0[sssub_idx] = value[i, :]
+                            prob.w0[flatten(sssub_idx)] = value[i, :]
                         i += 1
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
-- 
2.43.0


From 6460fa235b7e839c5a726f073d55f840b63e989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 11/29] fix: polishing step keeps mu free and handles all
 problem variables

---
 nosnoc/solver.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 8352020..07fb28e 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -209,10 +209,12 @@ class NosnocSolverBase(ABC):
 
         eps_sigma = 1e1 * opts.comp_tol
 
+        # NOTE: mu is free and not part of any complementarity, it must not be fixed
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+                          prob.ind_theta)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_mu +
+                               prob.ind_sot + prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
@@ -240,9 +242,6 @@ class NosnocSolverBase(ABC):
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
         for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
             sigma_k, tau_val = 0.0, 0.0
             self.setup_p_val(sigma_k, tau_val)
 
-- 
2.43.0


From 83e79624f0e776f9011323ee9affdc761bde665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 12/29] fix: g_path_at_stg includes the last stage of every
 finite element

For schemes with explicit right boundary point, the last stage was only covered
at the end of the control stage or with g_path_at_fe.
---
 nosnoc/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index f560d59..66bfdb7 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -493,13 +493,15 @@ class FiniteElement(FiniteElementBase):
 
         # Generic path constraints
         end_allowance = 0 if opts.right_boundary_point_explicit else 1
-        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe:
+        g_path_at_end = self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe
+        if g_path_at_end:
             end_idx = opts.n_s + end_allowance - 1
             gqj = ocp.g_path_fun(X_fe[end_idx], Uk, self.p, model.v_global)
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         if opts.g_path_at_stg:
-            end_allowance = 1 if opts.right_boundary_point_explicit else 0
+            # do not add the constraint twice if the last stage is the end point
+            end_allowance = 1 if opts.right_boundary_point_explicit and g_path_at_end else 0
             for j in range(opts.n_s - end_allowance):
                 gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
-- 
2.43.0


From 6bc2d5aaad96b48c2ddbde3c011f335af9142ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 13/29] fix: dump problems with least squares constraint
 handling

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 66bfdb7..36dea0e 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -907,7 +907,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From 34463a5ee1b5459aa5330c02970dc49b5c3e6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 14/29] fix: a model without p_time_var_val can be used with
 different N_stages

---
 nosnoc/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index e23c180..a88559a 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -187,14 +187,15 @@ class NosnocModel:
                             f"p_global {self.p_global}, p_global_val {self.p_global_val}")
 
         n_p_time_var = casadi_length(self.p_time_var)
-        if self.p_time_var_val is None:
-            self.p_time_var_val = np.zeros((opts.N_stages, n_p_time_var))
-        if not self.p_time_var_val.shape == (opts.N_stages, n_p_time_var):
+        p_time_var_val = self.p_time_var_val
+        if p_time_var_val is None:
+            p_time_var_val = np.zeros((opts.N_stages, n_p_time_var))
+        if not p_time_var_val.shape == (opts.N_stages, n_p_time_var):
             raise Exception(
                 "dimension of p_time_var_val and p_time_var mismatch.",
                 f"Expected shape: ({opts.N_stages}, {n_p_time_var}), "
-                f"got p_time_var_val.shape {self.p_time_var_val.shape}"
-                f"p_time_var {self.p_time_var}, p_time_var_val {self.p_time_var_val}")
+                f"got p_time_var_val.shape {p_time_var_val.shape}"
+                f"p_time_var {self.p_time_var}, p_time_var_val {p_time_var_val}")
 
         # extend parameters for each stage
         n_p = n_p_time_var + n_p_glob
@@ -203,7 +204,7 @@ class NosnocModel:
 
         self.p_val_ctrl_stages = np.zeros((opts.N_stages, n_p))
         for i in range(opts.N_stages):
-            self.p_val_ctrl_stages[i, :n_p_time_var] = self.p_time_var_val[i, :]
+            self.p_val_ctrl_stages[i, :n_p_time_var] = p_time_var_val[i, :]
             self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val
 
         # initial guess z0
-- 
2.43.0


From ee983ebe11e68182c34398b7aa53f6824efbe434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 15/29] fix: irk_time_points are the stage points for
 IrkRepresentation.INTEGRAL

They included the left boundary point 0.0, which shifted the stage values of
InitializationStrategy.RK4_SMOOTHENED by one stage.
---
 nosnoc/nosnoc_opts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index bd6146f..22abbb6 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -162,6 +162,7 @@ class NosnocOpts:
             self.B_irk = B_irk
             self.C_irk = C_irk
             self.D_irk = D_irk
+            irk_time_points = irk_time_points[1:]  # the first one is the left boundary point
         elif (self.irk_representation
               in [IrkRepresentation.DIFFERENTIAL, IrkRepresentation.DIFFERENTIAL_LIFT_X]):
             A_irk, b_irk, irk_time_points, _ = generate_butcher_tableu(self.n_s, self.irk_scheme)
-- 
2.43.0


From d8c1d7f56f0676a342ddea9adad62f30ee91d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 16/29] fix: NosnocAutoModel with more than one switching
 function

All switching functions belong to the one subsystem of the general inclusion.
---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..9c06053 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,7 +57,7 @@ class NosnocAutoModel:
         """
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
-- 
2.43.0


From 73a1d154669010748e1b7f37ccbd54b16a91e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 17/29] fix: NosnocAutoModel._reformulate_linear()

- components with several nonsmooth functions have more than two modes and are
  handled by the general inclusion,
- the result for OP_FMIN had five instead of three entries,
- components are collated by the string of c: use one sign convention for S and
  one subsystem per string,
- rows of the ODE without smooth components.
---
 nosnoc/auto_model.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9c06053..a302c05 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,7 +55,7 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
-        if self._detect_additive():
+        if self._detect_additive() or self._detect_nonsmooth_products():
             self._reformulate_nonlin()
             return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
@@ -80,7 +80,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
@@ -102,14 +102,14 @@ class NosnocAutoModel:
                 comps = collated[c_str]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c] = S
+                    cS_map[c_str] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
                 f_i[c_str] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
+        for c_str, (c, S) in cS_map.items():
+            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
@@ -130,6 +130,19 @@ class NosnocAutoModel:
                     return True
         return False
 
+    def _detect_nonsmooth_products(self):
+        # components with several nonsmooth functions have more than two modes
+        fs_nonsmooth = ca.vertsplit(self.f_nonsmooth_ode)
+        return any(
+            self._count_nonsmooth(component) > 1
+            for f_nonsmooth in fs_nonsmooth
+            for component in self._find_nonlinear_components(f_nonsmooth))
+
+    def _count_nonsmooth(self, node: ca.SX) -> int:
+        is_nonsmooth = any(node.is_op(op) for op in (ca.OP_SIGN, ca.OP_FMAX, ca.OP_FMIN))
+        return int(is_nonsmooth) + sum(
+            self._count_nonsmooth(node.dep(i)) for i in range(node.n_dep()))
+
     # TODO type output
     def _rebuild_additive_component(self, node: ca.SX):
         if node.n_dep() == 0:
@@ -147,7 +160,8 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                # NOTE: same S for all nonsmooth functions, since they are collated by c
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From f37f661961729758f726a6519331ace9008191e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 18/29] fix: NosnocAutoModel passes its parameters on to the
 model

---
 nosnoc/auto_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index a302c05..d9c3f44 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -3,7 +3,7 @@ import numpy as np
 from itertools import product
 from collections import defaultdict
 from typing import List, Optional
-from nosnoc.utils import casadi_vertcat_list, casadi_sum_list
+from nosnoc.utils import casadi_length, casadi_vertcat_list, casadi_sum_list
 from nosnoc.model import NosnocModel
 
 
@@ -55,12 +55,17 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        params = dict()
+        if self.p is not None:
+            # values are set with solver.set("p_global", ..) or model.p_global_val
+            params = dict(p_global=self.p, p_global_val=np.zeros((casadi_length(self.p),)))
+
         if self._detect_additive() or self._detect_nonsmooth_products():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, **params)
         else:
             self._reformulate_linear()
-            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, **params)
 
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
-- 
2.43.0


From 3b4b7cb4a23fd565b8e46cf7ad5b3c650d6d6e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 19/29] fix: quadrature weights of the integral representation
 for one Radau stage

The weights were those of the interpolation polynomial including the left
boundary point, whose weight is not used in the cost: 0.5 instead of 1 for n_s=1.
---
 nosnoc/rk_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..3efd331 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1081,8 +1081,15 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
             C[j, r] = np.polyval(pder, tau_root[r])
 
         # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+        # NOTE: the quadrature uses the collocation points only, i.e. B[0] = 0, also for n_s = 1
+        if j > 0:
+            coeff = np.ones(1)
+            for r in range(1, n_s + 1):
+                if not r == j:
+                    coeff = np.convolve(coeff, [1, -tau_root[r]])
+                    coeff = coeff / (tau_root[j] - tau_root[r])
+            pint = np.polyint(coeff)
+            B[j] = np.polyval(pint, 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From 32399c9995f774b0854c29ee22e195c6ef310bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 20/29] fix: order of the initial step multipliers with
 multiple subsystems

---
 nosnoc/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index a88559a..e91c6b3 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -297,8 +297,9 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+            # NOTE: order has to match FiniteElementZero.Lambda(): lambda_n of all subsystems, then lambda_p
+            c_all = casadi_vertcat_list(self.c)
+            lambda00_expr = ca.vertcat(-ca.fmin(c_all, 0), ca.fmax(c_all, 0))
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 48c2494e51ecf3c5c07ebec87d64f0bcf3e5f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 21/29] fix: cross complementarities of the right boundary
 point in COMPLEMENT_ALL mode

---
 nosnoc/problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 36dea0e..ac87eb8 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -524,7 +524,7 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                for jj in range(len(self.ind_lam)):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -556,8 +556,8 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
-                    # within fe
+                for jj in range(len(self.ind_lam)):
+                    # within fe, including its right boundary point
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
         elif opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
-- 
2.43.0


From e40c79d878a5055f761a0cdf6ab6075971112623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 22/29] fix: least squares handling rejects upper bounds of
 constraints as well

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index ac87eb8..6f5dbfb 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -857,7 +857,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From 45f07c7d8269eec707b0f0d62f657ce5720ee79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 23/29] fix: polishing keeps the penalty weight of the elastic
 modes

---
 nosnoc/solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 07fb28e..917e500 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -7,7 +7,7 @@ import time
 
 from nosnoc.model import NosnocModel
 from nosnoc.nosnoc_opts import NosnocOpts
-from nosnoc.nosnoc_types import InitializationStrategy, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
+from nosnoc.nosnoc_types import InitializationStrategy, MpccMode, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
 from nosnoc.ocp import NosnocOcp
 from nosnoc.problem import NosnocProblem
 from nosnoc.rk_utils import rk4_on_timegrid
@@ -243,7 +243,10 @@ class NosnocSolverBase(ABC):
             )
         for i_ctrl in range(opts.N_stages):
             sigma_k, tau_val = 0.0, 0.0
-            self.setup_p_val(sigma_k, tau_val)
+            # NOTE: in the elastic modes, sigma is no relaxation, but weights the slack variable
+            # in the objective, its last value is kept.
+            if opts.mpcc_mode not in [MpccMode.ELASTIC_TWO_SIDED, MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_INEQ]:
+                self.setup_p_val(sigma_k, tau_val)
 
             # solve NLP
             t = time.time()
-- 
2.43.0


From ee54e441c3219e2d38a19ad663456bf4befb0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 24/29] fix: reject models with mismatching numbers of
 subsystems, rows or sign matrix columns

---
 nosnoc/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index e91c6b3..fed6363 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -148,6 +148,8 @@ class NosnocModel:
             if not isinstance(self.F, list):
                 raise ValueError("model.F should be a list.")
             for i, f in enumerate(self.F):
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x rows!")
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
 
@@ -166,14 +168,21 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.F) != len(self.c):
+                    raise ValueError("model.F and model.c should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if len(Si.shape) == 2 and Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(
+                            f"model.S item {i} should have as many columns as c {i} has rows")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
             n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError("model.f_x should have n_x rows!")
             if not isinstance(self.c, list):
                 raise ValueError("model.c should be a list.")
             if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
-- 
2.43.0


From 70b36157c967d0e09effb0b0b6e792443cbbca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 25/29] fix: reject Nfe_list of the wrong length

---
 nosnoc/nosnoc_opts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 22abbb6..8467ffc 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -154,6 +154,8 @@ class NosnocOpts:
 
         if len(self.Nfe_list) == 0:
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
+        elif len(self.Nfe_list) != self.N_stages:
+            raise ValueError(f"Nfe_list should be empty or of length N_stages ({self.N_stages}), got {self.Nfe_list}")
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From b82f0ae868e340d736b435b3bf50eb1410b1c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:18 +0000
Subject: [PATCH 26/29] fix: one control stage without equidistant control grid
 keeps its horizon

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 6f5dbfb..951f271 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -838,7 +838,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 97f3c5254c99db45651c764814a809d449e8f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:17 +0000
Subject: [PATCH 27/29] fix: AutoModel merged switching functions that only
 look equal when printed

They were compared by their string representation, in which constants are rounded to six digits and different symbols may have the same name.
---
 nosnoc/auto_model.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index d9c3f44..db09246 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -6,6 +6,9 @@ from typing import List, Optional
 from nosnoc.utils import casadi_length, casadi_vertcat_list, casadi_sum_list
 from nosnoc.model import NosnocModel
 
+# expressions are compared completely
+MAX_EXPRESSION_DEPTH = 10000
+
 
 class NosnocAutoModel:
     r"""
@@ -88,33 +91,39 @@ class NosnocAutoModel:
         f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
+        # NOTE: compared as expressions, since strings contain rounded constants and names need not be unique
         collated_components = []
+        distinct_c = []
         for components in nsm:
             collated = defaultdict(list)
             for component in components:
                 f, c, S = self._rebuild_additive_component(component)
-                collated[c.str()].append((f, c, S))
+                for c_idx, other_c in enumerate(distinct_c):
+                    if ca.is_equal(c, other_c, MAX_EXPRESSION_DEPTH):
+                        break
+                else:
+                    c_idx = len(distinct_c)
+                    distinct_c.append(c)
+                collated[c_idx].append((f, c, S))
             collated_components.append(collated)
 
-        all_c = set().union(*[component.keys() for component in collated_components])
-
         # Build the set of switching function and S pairs, along with the stacked vector of c -> f maps
         cS_map = {}
         fs = []
         for ii, collated in enumerate(collated_components):
             f_i = defaultdict(lambda: ca.SX.zeros(1, 2))
-            for c_str in all_c:
-                comps = collated[c_str]
+            for c_idx in range(len(distinct_c)):
+                comps = collated[c_idx]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c_str] = (c, S)
+                    cS_map[c_idx] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
-                f_i[c_str] = ca.horzcat(*f_ij)
+                f_i[c_idx] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c_str, (c, S) in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
+        for c_idx, (c, S) in sorted(cS_map.items(), key=lambda item: item[0]):
+            self.F.append(casadi_vertcat_list([f_i[c_idx] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
-- 
2.43.0


From 67dc40d6956fc10221ef0b545cb7781ba56b254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 28/29] fix: smoothed start multipliers overflowed to NaN for
 small smoothing parameters

---
 nosnoc/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index fed6363..0033342 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -397,8 +397,9 @@ class NosnocModel:
             alpha_expr_s = casadi_vertcat_list([smooth_step_fun(self.c[s][i]) for i in range(n_c)])
 
             min_in = ca.SX.sym('min_in', dims.n_f_sys[s])
-            min_out = ca.sum1(casadi_vertcat_list([min_in[i]*ca.exp(-1/smoothing_parameter * min_in[i]) for i in range(casadi_length(min_in))])) / \
-                      ca.sum1(casadi_vertcat_list([ca.exp(-1/smoothing_parameter * min_in[i]) for i in range(casadi_length(min_in))]))
+            # NOTE: weights are scaled with the largest one, since the exponentials overflow for small smoothing parameters
+            weights = ca.exp(-1/smoothing_parameter * (min_in - ca.mmin(min_in)))
+            min_out = ca.dot(min_in, weights) / ca.sum1(weights)
             smooth_min_fun = ca.Function('smooth_min_fun', [min_in], [min_out])
             mu_smooth_list.append(-smooth_min_fun(g_Stewart_list[s]))
             lambda_smooth = ca.vertcat(lambda_smooth,
-- 
2.43.0


From eb60467cf4f5402d9469be65f61585e6cc4a0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:14 +0000
Subject: [PATCH 29/29] fix: set('w', value) copies the value instead of
 writing into the caller's array later

---
 nosnoc/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 917e500..6d802c0 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -94,7 +94,8 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            # NOTE: copy, w0 is changed in place later on
+            prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0

