From 41e8c3c3580187bb4bffd245b48435d8292eb525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 01/43] fix: count the run once when the budget ends while
 sampling x0

---
 dfols/solver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..92e722f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -176,7 +176,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
-- 
2.43.0


From fe55fefac71f71a8732df48e211c869334b887c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 02/43] fix: report the evaluation number and regularised
 objective when exiting at x0

---
 dfols/solver.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 92e722f..e1c7f1c 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -188,17 +188,15 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            # x0 is evaluation point nx, and no Jacobian has been built yet
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From b5071306cd383fe04f6b3a04bda6504028dc5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 03/43] fix: keep the evaluation number of the first point of a
 hard restart

---
 dfols/controller.py | 4 ++--
 dfols/model.py      | 4 ++--
 dfols/solver.py     | 9 ++++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..869a5ad 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -101,7 +101,7 @@ class ExitInformation(object):
 
 class Controller(object):
     def __init__(self, objfun, argsf, x0, r0, r0_nsamples, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun, params,
-                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = ()):
+                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = (), r0_eval_num=1):
         self.do_logging = do_logging
         self.objfun = objfun
         self.h = h
@@ -112,7 +112,7 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, r0_eval_num=r0_eval_num)
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..a11c5ef 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, r0_eval_num=1):
         if n is None:
             n = len(x0)
         if m is None:
@@ -86,7 +86,7 @@ class Model(object):
         self.nsamples[0] = r0_nsamples
         self.objbeg = self.objval[0]  # f(x0), saved to check for sufficient reduction
         self.eval_num = np.zeros((npt,), dtype=int)  # which evaluation number (1-indexed, nx not nf) is currently stored self.points[k,:]
-        self.eval_num[0] = 1
+        self.eval_num[0] = r0_eval_num
 
         # Termination criteria
         self.abs_tol = abs_tol
diff --git a/dfols/solver.py b/dfols/solver.py
index e1c7f1c..c4d5a2e 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -150,7 +150,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -198,11 +198,14 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # x0 is evaluation point nx, and no Jacobian has been built yet
             return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
 
+        r0_eval_num = nx
+
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
         # m = len(r0_avg_old)
         r0_avg = r0_avg_old
         num_samples_run = r0_nsamples_old
+        r0_eval_num = r0_eval_num_old
         nf = nf_so_far
         nx = nx_so_far
     
@@ -220,7 +223,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
-                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox, r0_eval_num=r0_eval_num)
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1130,7 +1133,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if params("restarts.hard.use_old_rk"):
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, r0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From 5adefe418172145aeaf68adac1612b2261c67ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 04/43] fix: save the incumbent's own sample count and
 evaluation number before a soft restart

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 869a5ad..8d3b37f 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -801,8 +801,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
+                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From 1360fa17ccf081117a19f6df674f986060780ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 05/43] fix: label and keep every point of a parallel
 initialisation

---
 dfols/controller.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 8d3b37f..7a08880 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -259,6 +259,7 @@ class Controller(object):
             # then the step depends on the function value at previous steps and does point swapping
             xpts_added = np.zeros((num_directions + 1, self.n()))
             eval_obj_results = []
+            eval_nums = []
             for k in range(1, num_directions + 1):  # k = 1, ..., num_directions
                 # always have k = 1, ..., n since num_directions <= n
                 dirn = k - 1  # direction to move in (0,...,n-1)
@@ -269,22 +270,29 @@ class Controller(object):
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
                 eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_nums.append(self.nx)
             
             # Evaluations done, now add to the model
+            first_exit_info = None
             for k in range(1, num_directions + 1):
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
                 rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
-                if exit_info is not None:
+                if first_exit_info is None:
+                    first_exit_info = exit_info
+                if first_exit_info is not None:  # quitting, but all points here have been evaluated already
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_nums[k-1],
                                               x_in_abs_coords=True)
-                    return exit_info  # return & quit
+                    continue
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], eval_nums[k-1])  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
+
+            if first_exit_info is not None:
+                return first_exit_info  # return & quit
         else:
             xpts_added = np.zeros((num_directions + 1, self.n()))
             for k in range(1, num_directions + 1):
@@ -369,29 +377,37 @@ class Controller(object):
         if params("init.run_in_parallel"):
             # Run all results in parallel first, then process
             eval_obj_results = []
+            eval_nums = []
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
                 eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_nums.append(self.nx)
 
+            first_exit_info = None
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
                 rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
-                if exit_info is not None:
+                if first_exit_info is None:
+                    first_exit_info = exit_info
+                if first_exit_info is not None:  # quitting, but all points here have been evaluated already
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
-                    return exit_info  # return & quit
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run,
+                                              eval_nums[ndirns], x_in_abs_coords=True)
+                    continue
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_nums[ndirns])  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
+
+            if first_exit_info is not None:
+                return first_exit_info  # return & quit
         else:
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
-- 
2.43.0


From b6622044559d3e338a46264ba39f8fab5cf7b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 06/43] fix: keep an evaluated trial point when the iteration
 is abandoned

---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 7a08880..6a6bec7 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -466,6 +466,8 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index c4d5a2e..09d75b3 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -613,6 +613,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # Don't lose this point, it may be the best so far
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From 1a9908f845433540032007ba8d7bd7db4e0c0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 07/43] fix: never prefer a NaN objective to a finite one

---
 dfols/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index a11c5ef..80dd8c6 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -196,7 +196,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or (np.isnan(self.objopt()) and not np.isnan(self.objval[k]))):
             self.kopt = k
         return
 
@@ -223,7 +223,9 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        # make sure kopt is always the best value we have (any value is better than NaN)
+        objval = self.objval[:self.npt()]
+        self.kopt = np.argmin(objval) if np.all(np.isnan(objval)) else np.nanargmin(objval)
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -238,7 +240,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or (np.isnan(self.objopt()) and not np.isnan(obj)):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -262,7 +264,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -276,7 +278,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From bde1a1cebaa4ab229e8f5a686af16eed8d0a71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 08/43] fix: swap sample counts together with their points

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 80dd8c6..4a13b32 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -204,6 +204,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From 3e25f33e22235db2d4bd4457960445e863fbefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 09/43] fix: return a result for input errors

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 09d75b3..847f995 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1089,7 +1089,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From 60cf12074b6c3c737262d1605d0a92359db39f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 10/43] fix: expose all documented exit codes on the results
 object

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 6a6bec7..5438cee 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_TR_INCREASE_WARNING']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 847f995..ca99e13 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From 5d909ceee5d1d9ba616d1a5cbd11f2ce12ebf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 11/43] fix: document and name the auto-detected restart exit
 code

---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 1 +
 docs/userguide.rst  | 1 +
 3 files changed, 4 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 5438cee..2232b74 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -76,6 +76,8 @@ class ExitInformation(object):
             return "Warning (max evals): " + self.msg
         elif self.flag == EXIT_TR_INCREASE_WARNING:
             return "Warning (trust region increase): " + self.msg
+        elif self.flag == EXIT_AUTO_DETECT_RESTART_WARNING:
+            return "Warning (auto-detected restart): " + self.msg
         elif self.flag == EXIT_INPUT_ERROR:
             return "Error (bad input): " + self.msg
         elif self.flag == EXIT_TR_INCREASE_ERROR:
diff --git a/dfols/solver.py b/dfols/solver.py
index ca99e13..fd4e05d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -72,6 +72,7 @@ class OptimResults(object):
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
         self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
         self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
+        self.EXIT_AUTO_DETECT_RESTART_WARNING = EXIT_AUTO_DETECT_RESTART_WARNING
 
     def __str__(self):
         # Result of calling print(soln)
diff --git a/docs/userguide.rst b/docs/userguide.rst
index 0e72ab8..cc13347 100644
--- a/docs/userguide.rst
+++ b/docs/userguide.rst
@@ -55,6 +55,7 @@ The possible values of :code:`soln.flag` are defined by the following variables:
 * :code:`soln.EXIT_SLOW_WARNING` - maximum number of slow iterations reached.
 * :code:`soln.EXIT_FALSE_SUCCESS_WARNING` - DFO-LS reached the maximum number of restarts which decreased the objective, but to a worse value than was found in a previous run.
 * :code:`soln.EXIT_TR_INCREASE_WARNING` - model increase when solving the trust region subproblem with multiple arbitrary constraints.
+* :code:`soln.EXIT_AUTO_DETECT_RESTART_WARNING` - a (hard) restart was automatically detected to be necessary, but no more restarts were allowed.
 * :code:`soln.EXIT_INPUT_ERROR` - error in the inputs.
 * :code:`soln.EXIT_TR_INCREASE_ERROR` - error occurred when solving the trust region subproblem.
 * :code:`soln.EXIT_LINALG_ERROR` - linear algebra error, e.g. the interpolation points produced a singular linear system.
-- 
2.43.0


From 1e39fcf97d13210f7267f86730633d25d016a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 12/43] fix: satisfy the bounds exactly at every evaluation

---
 dfols/model.py  | 10 ++++++----
 dfols/solver.py |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 4a13b32..1a49d4a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -70,6 +70,8 @@ class Model(object):
         self.xbase = x0.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
+        self.xl = xl.copy()  # bounds in absolute coordinates (not affected by rounding errors in sl, su or xbase)
+        self.xu = xu.copy()
         self.projections = projections
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
@@ -139,9 +141,7 @@ class Model(object):
             return np.minimum(np.maximum(self.sl, self.points[k, :].copy()), self.su)
         else:
             # Apply bounds and convert back to absolute coordinates
-            if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +155,9 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        # Adding xbase can give rounding errors, so make sure the bounds hold exactly
+        xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return np.minimum(np.maximum(self.xl, xabs), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
diff --git a/dfols/solver.py b/dfols/solver.py
index fd4e05d..82bc924 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1008,11 +1008,15 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
+        # Rounding errors in scale must not allow shift + 1.0 * scale to be above the upper bound
+        scale = np.where(shift + scale > xu, np.nextafter(scale, 0.0), scale)
         scaling_changes = (shift, scale)
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
     xu = apply_scaling(xu, scaling_changes)
+    if scaling_changes is not None:
+        xu = np.minimum(xu, 1.0)
 
     exit_info = None
     # Input & parameter checks
-- 
2.43.0


From ebe2b26c32963c6cbd79c03a125db8d1e6f2a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 13/43] fix: solve the regularised subproblem over the true
 bounds

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 2232b74..bf05f38 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -514,7 +514,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # in absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -561,7 +561,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # in absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 15ec4c27cdd5047872bcca25c75357d331a54a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 14/43] fix: pass extra proximal operator arguments through

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From 45a2b97c642e0cfaef14308a871a2f97741874d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 15/43] fix: use the user's Dykstra settings for evaluation
 points and geometry steps

---
 dfols/controller.py   | 3 ++-
 dfols/model.py        | 6 ++++--
 dfols/trust_region.py | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index bf05f38..2082973 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -114,7 +114,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, r0_eval_num=r0_eval_num)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, r0_eval_num=r0_eval_num,
+                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 1a49d4a..c1cb612 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None, r0_eval_num=1):
+                 do_logging=True, scaling_changes=None, r0_eval_num=1, dykstra_max_iters=100, dykstra_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.xl = xl.copy()  # bounds in absolute coordinates (not affected by rounding errors in sl, su or xbase)
         self.xu = xu.copy()
         self.projections = projections
+        self.dykstra_max_iters = dykstra_max_iters
+        self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -154,7 +156,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
         # Adding xbase can give rounding errors, so make sure the bounds hold exactly
         xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
         return np.minimum(np.maximum(self.xl, xabs), self.xu)
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e7327ee..9eddebb 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -690,8 +690,8 @@ def ctrsbox_geometry(xbase, c, g, projections, Delta, d_max_iters=100, d_tol=1e-
     #   max_s  abs(c + g' * s)
     #   s.t.   xbase + s is is feasible w.r.t constraint set C
     #          ||s|| <= Delta
-    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # minimise g' * s
-    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # maximise g' * s
+    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # minimise g' * s
+    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # maximise g' * s
     if abs(c + np.dot(g, smin)) >= abs(c + np.dot(g, smax)):  # choose the one with largest absolute value
         return smin
     else:
-- 
2.43.0


From e23f526fc04f84cfd600026326880b8aa77285ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 16/43] fix: always start from the projection of x0

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 82bc924..4d82b79 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1104,7 +1104,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()  # always use the projection, as x0 may be infeasible by less than the tolerance of np.allclose
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From 4e836b89fce4a9a06d9155a7ec1b5dec8ce6c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 17/43] fix: avoid NaN projected gradient steps when the
 Hessian is zero

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 9eddebb..1e927bb 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -182,8 +182,8 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
     eta = 1.2 # L backtrack scaling factor
     t = 1
 
-    # Initial guess of L is norm(Hessian)
-    L = np.linalg.norm(H, 2)
+    # Initial guess of L is norm(Hessian), bounded away from zero
+    L = max(np.linalg.norm(H, 2), ZERO_THRESH)
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From 5cce2cab69d1ac375427e0781efe968b8bb7630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 18/43] fix: never report success with a non-finite objective

---
 dfols/model.py  | 2 ++
 dfols/solver.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index c1cb612..df6ee22 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -290,6 +290,8 @@ class Model(object):
 
     def min_objective_value(self):
         # Get termination criterion for f small: f <= abs_tol or f <= rel_tol * f0
+        if not np.isfinite(self.objbeg):  # no relative decrease can be measured from a bad starting value
+            return self.abs_tol
         return max(self.abs_tol, self.rel_tol * self.objbeg)
 
     def model_value(self, d, d_based_at_xopt=True, with_const_term=False):
diff --git a/dfols/solver.py b/dfols/solver.py
index 4d82b79..39edab3 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1165,6 +1165,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
+    # Never claim success if no finite objective value was ever found
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found")
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From 093ae3600d01f91a56cd3551dd4412d7588eee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 19/43] fix: survive non-finite models in the trust-region step

---
 dfols/controller.py   | 23 +++++++++++------------
 dfols/trust_region.py |  2 +-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 2082973..13c4ca2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -528,28 +528,27 @@ class Controller(object):
     def trust_region_step(self, params, criticality_measure=1e-2):
         # Build model for full least squares function
         gopt, H = self.model.build_full_model()
+        # Don't run any subproblem solver if gopt or H have bad values (here, just set d=0 and later call a safety step)
+        bad_model = not (np.all(np.isfinite(gopt)) and np.all(np.isfinite(H)))
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2) if not bad_model else np.inf,1))
 
         if self.h is None:
-            if self.model.projections:
-                # Running PGD/SFISTA is generally slower than trsbox, so don't do this if gopt or H have bad values
-                # (this will ultimately lead to a manual setting of d=0 and calling a safety step anyway)
-                if np.any(np.isnan(gopt)) or np.any(np.isnan(H)) or not np.all(np.isfinite(gopt)) or not np.all(np.isfinite(H)):
-                    module_logger.debug("nan/inf values in gopt and/or H, skipping ctrsbox_pgd")
-                    d = np.zeros(gopt.shape)
-                    gnew = gopt.copy()
-                    crvmin = -1
-                else:
-                    d, gnew, crvmin = ctrsbox_pgd(self.model.xopt(abs_coordinates=True), gopt, H, self.model.projections, self.delta, d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
+            if bad_model:
+                module_logger.debug("nan/inf values in gopt and/or H, skipping trust region subproblem")
+                d = np.zeros(gopt.shape)
+                gnew = gopt.copy()
+                crvmin = -1
+            elif self.model.projections:
+                d, gnew, crvmin = ctrsbox_pgd(self.model.xopt(abs_coordinates=True), gopt, H, self.model.projections, self.delta, d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
             else:
                 d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
         else:
             # Running PGD/SFISTA is generally slower than trsbox, so don't do this if gopt or H have bad values
             # (this will ultimately lead to a manual setting of d=0 and calling a safety step anyway)
-            if np.any(np.isnan(gopt)) or np.any(np.isnan(H)) or not np.all(np.isfinite(gopt)) or not np.all(np.isfinite(H)):
+            if bad_model:
                 module_logger.debug("nan/inf values in gopt and/or H, skipping ctrsbox_sfista")
                 d = np.zeros(gopt.shape)
                 gnew = gopt.copy()
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 1e927bb..4077357 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,7 +109,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError):  # NaN or inf number of iterations
         MAX_LOOP_ITERS = max_iters
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
-- 
2.43.0


From cc146e14209b3650b06bc416d2a0f5fbde5e36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 20/43] fix: evaluate the regulariser at the point where the
 residuals were evaluated

---
 dfols/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index df6ee22..5f18e46 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -195,7 +195,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -225,7 +225,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         # make sure kopt is always the best value we have (any value is better than NaN)
@@ -238,7 +238,7 @@ class Model(object):
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-- 
2.43.0


From 7c85316b97b0d78385a8cc31e0baf968399f64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 21/43] fix: keep the trust-region step within the box despite
 rounding

---
 dfols/trust_region.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 4077357..d655fdd 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -550,6 +550,9 @@ def d_within_bounds(d, xopt, sl, su, xbdi):
     xnew[xbdi == -1] = sl[xbdi == -1]
     xnew[xbdi == 1] = su[xbdi == 1]
     d = xnew - xopt
+    # Rounding in the subtraction above must not push xopt+d outside the bounds
+    outside = np.logical_or(xopt + d < sl, xopt + d > su)
+    d[outside] = np.nextafter(d[outside], 0.0)
     return d
 
 
-- 
2.43.0


From 0f54857481da268e09297ef0c93ec7171af5b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 22/43] fix: no random direction is longer than requested

---
 dfols/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..10452d0 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -150,7 +150,7 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
             if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
+                results[idx, n+ninactive+i] = 0.5 * sign * delta  # no longer than delta, different to direction 2
             else:
                 results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
                 # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
-- 
2.43.0


From bdc86c091a11df201e76e70f37e8396622bcc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 23/43] fix: do not depend on the global random state when
 initialising with projections

---
 dfols/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 13c4ca2..eecf93f 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -156,6 +156,7 @@ class Controller(object):
 
         if self.model.projections:
             D = np.zeros((self.n(),self.n()))
+            rng = np.random.RandomState(0)  # fixed seed, so that results are reproducible
             k = 0
             while k < self.n():
                 ek = np.zeros(self.n())
@@ -188,7 +189,7 @@ class Controller(object):
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank != num_directions and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -206,7 +207,7 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -216,7 +217,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
-- 
2.43.0


From 745f394135df097cf928a508e8c7eda753303a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 24/43] fix: restore NaN and diagnostic tables when loading
 results from a dict

---
 dfols/solver.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 39edab3..f7cece1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -121,6 +121,9 @@ class OptimResults(object):
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
         soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        for col in ['xk', 'rk']:  # optional columns, where each entry is a vector
+            if soln_dict['diagnostic_info'] is not None and col in soln_dict['diagnostic_info']:
+                soln_dict['diagnostic_info'][col] = {k: v.tolist() for k, v in soln_dict['diagnostic_info'][col].items()}
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -135,7 +138,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -148,7 +151,14 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df.index = df.index.astype(int)  # json converts integer keys to strings
+            for col in df.columns:
+                if col in ['xk', 'rk']:  # each entry is a vector
+                    df[col] = df[col].map(lambda v: np.array(v, dtype=float))
+                elif len(df) > 0 and df[col].isna().all():
+                    df[col] = np.nan  # convert None to NaN, as above
+            soln.diagnostic_info = df
         return soln
 
 
-- 
2.43.0


From e37080e022528ceba8af0f2327c168e29f312c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:33 +0000
Subject: [PATCH 25/43] fix: with projections, return and store the points as
 evaluated

---
 dfols/controller.py |  2 +-
 dfols/model.py      | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index eecf93f..593d704 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -249,7 +249,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k+1, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k+1, D[k, :], rvec_list[0, :], self.nx)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k+1, rvec_extra=rvec_list[i, :])
             
diff --git a/dfols/model.py b/dfols/model.py
index 5f18e46..3d9ef6e 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -141,6 +141,10 @@ class Model(object):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
         if not abs_coordinates:
             return np.minimum(np.maximum(self.sl, self.points[k, :].copy()), self.su)
+        elif self.projections:
+            # Points are stored after being projected, so only the last projection (bounds) is needed, to remove rounding errors
+            # (projecting again onto all sets would move the point by more than rounding, if not all of them hold exactly)
+            return self.projections[-1](self.xbase + self.points[k, :])
         else:
             # Apply bounds and convert back to absolute coordinates
             return self.as_absolute_coordinates(self.points[k, :])
@@ -161,6 +165,12 @@ class Model(object):
         xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
         return np.minimum(np.maximum(self.xl, xabs), self.xu)
 
+    def project_step(self, x):
+        # The step from xbase to the point where the objective is evaluated for x, i.e. as_absolute_coordinates(x)
+        if self.projections:
+            return self.as_absolute_coordinates(x) - self.xbase
+        return x.copy()
+
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
             ndirs = self.npt()
@@ -191,11 +201,11 @@ class Model(object):
         else:
             assert 0 <= k < self.npt(), "Invalid index %g" % k
 
-        self.points[k, :] = x.copy()
+        self.points[k, :] = self.project_step(x)
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -234,11 +244,13 @@ class Model(object):
         return
 
     def add_new_point(self, x, rvec, eval_num):
+        x = self.project_step(x)
         self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
+            xabs = self.xbase + x if self.projections else self.as_absolute_coordinates(x)
+            obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-- 
2.43.0


From 3b2cc4546247f12968ec14f8c5e80416939ac44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 26/43] fix: scale rhoend in soft restarts, which otherwise
 never end when rhoend_scale < 1

---
 dfols/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 593d704..ced223c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -831,6 +831,7 @@ class Controller(object):
         # Note: closest points because we are suddenly increasing delta & rho, so we want to encourage spreading out points
         self.delta = self.rhobeg
         self.rho = self.rhobeg
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend  # same as in solve_main
         self.diffs = [0.0, 0.0, 0.0]
         
         # Forget history of slow iterations
-- 
2.43.0


From c705683986042090dff718b60953cb9a3db492bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 27/43] fix: report alpha1=1 (endless run) and
 history_for_slow=0 (ZeroDivisionError) as input errors

---
 dfols/params.py | 2 +-
 dfols/solver.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..7d15b79 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -187,7 +187,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
diff --git a/dfols/solver.py b/dfols/solver.py
index f7cece1..8dea5b7 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1074,6 +1074,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not all_ok:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
+    if exit_info is None and params("tr_radius.alpha1") >= 1.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "tr_radius.alpha1 must be strictly less than 1, so that rho can be reduced")
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From 004588ad6897ee1cd5f8c884567004fc8e8e0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 28/43] fix: no ZeroDivisionError for boundary values of the
 S-FISTA parameters

---
 dfols/trust_region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index d655fdd..0c6b897 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,8 +109,9 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except (ValueError, OverflowError):  # NaN or inf number of iterations
+    except (ValueError, OverflowError, ZeroDivisionError):  # NaN or inf number of iterations
         MAX_LOOP_ITERS = max_iters
+    MAX_LOOP_ITERS = max(MAX_LOOP_ITERS, 1)
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
 
-- 
2.43.0


From f8279b1f4f909c2f68875b10e768fd60e36657ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 29/43] fix: allow restarts.increase_npt_amt=0

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index ced223c..26edec3 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -859,7 +859,7 @@ class Controller(object):
                 return exit_info
 
         # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
+        if params("restarts.increase_npt") and params("restarts.increase_npt_amt") > 0 and self.model.npt() < params("restarts.max_npt"):
             num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
-- 
2.43.0


From b4e67e9ed533477f7841ae49fba1afe7fb8488ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 30/43] fix: never evaluate at NaN when growing a set which
 already spans the space

---
 dfols/controller.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 26edec3..b5aaa49 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -446,10 +446,15 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
+        random_dirns = dirns.copy()
         for k in range(Q.shape[1]):
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
+        # If the current directions already span the whole space (e.g. npt > n+1), there is no orthogonal direction left
+        for j in range(dirns.shape[0]):
+            if LA.norm(dirns[j, :]) <= 1e-8 * LA.norm(random_dirns[j, :]):
+                dirns[j, :] = random_dirns[j, :]
 
         # Evaluate the points
         for j in range(num_steps):
@@ -489,9 +494,13 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
+        random_dirn = dirn.copy()
         for k in range(Q.shape[1]):
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
+        # If the current directions already span the whole space (e.g. npt > n+1), there is no orthogonal direction left
+        if LA.norm(dirn) <= 1e-8 * LA.norm(random_dirn):
+            dirn = random_dirn
 
         return dirn * (step_length / LA.norm(dirn))
 
-- 
2.43.0


From ed0b884512dee15765d709f66e8edc709f367f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 31/43] fix: never reduce rho below rhoend (for small
 tr_radius.alpha1)

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index b5aaa49..cee380c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -755,7 +755,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
-- 
2.43.0


From dd4bedc619e7c5703f1a09776f544ba6d0cd153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 32/43] fix: report bad bounds as input errors when scaling or
 using projections

---
 dfols/solver.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 8dea5b7..d6698d1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -991,6 +991,20 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nsamples is None:
         nsamples = lambda delta, rho, iter, nruns: 1  # no averaging
 
+    exit_info = None
+    # Check the bounds now, before they are used for projecting or scaling
+    if exit_info is None and np.shape(x0) != (n,):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
+
+    if exit_info is None and np.shape(x0) != np.shape(xl):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
+
+    if exit_info is None and np.shape(x0) != np.shape(xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
+
+    if exit_info is None and np.any(xu <= xl):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
+
     # If using arbitrary constraints, create projection from bounds
     if projections:
         xlb = xl.copy()
@@ -1015,7 +1029,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
-    if scaling_within_bounds:
+    if scaling_within_bounds and exit_info is None:
         shift = xl.copy()
         scale = xu - xl
         # Rounding errors in scale must not allow shift + 1.0 * scale to be above the upper bound
@@ -1028,7 +1042,6 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_changes is not None:
         xu = np.minimum(xu, 1.0)
 
-    exit_info = None
     # Input & parameter checks
     if exit_info is None and h is not None:
         if prox_uh is None:
@@ -1053,15 +1066,6 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and maxfun <= 0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "maxfun must be strictly positive")
 
-    if exit_info is None and np.shape(x0) != (n,):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
-
-    if exit_info is None and np.shape(x0) != np.shape(xl):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
-
-    if exit_info is None and np.shape(x0) != np.shape(xu):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
-
     if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
-- 
2.43.0


From 642987eee82c3b4312424532d4c845fdd86776cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 33/43] fix: report a linear algebra error, not
 ZeroDivisionError, if all points coincide

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 3d9ef6e..9d1a0fe 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -317,6 +317,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:
+                approx_delta = 1.0  # all points are identical, so no scaling is possible (the system is singular)
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From e968bb5c35d47ba4bb62408381ae0b2eb6ed1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 34/43] fix: use random initial directions when a hard restart
 needs more than (n+1)(n+2)/2 points

---
 dfols/solver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index d6698d1..03fd3a1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -242,7 +242,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
     num_directions = min(params("growing.ndirs_initial") + params("restarts.hard.increase_ndirs_initial_amt") * nruns_so_far,
                          npt - 1)  # cap at npt
-    if params("init.random_initial_directions"):
+    # Need random directions if we have too many points for coordinate directions (e.g. npt increased in a hard restart)
+    if params("init.random_initial_directions") or npt > (len(x0) + 1) * (len(x0) + 2) // 2:
         if do_logging:
             module_logger.info("Initialising (random directions)")
         exit_info = control.initialise_random_directions(number_of_samples, num_directions, params)
@@ -1105,6 +1106,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         exit_info = ExitInformation(EXIT_INPUT_ERROR,
                                     "Parallel initialisation not yet developed for coordinate initial directions")
 
+    if exit_info is None and not params("init.random_initial_directions") and npt > (n + 1) * (n + 2) // 2:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR,
+                                    "Coordinate initial directions require npt <= (n+1)*(n+2)/2")
+
     if exit_info is None and params("growing.reset_rho"):
         if not params("growing.reset_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Growing: if resetting rho, must also reset delta")
-- 
2.43.0


From 0886bc5f6b422ae21505f6b5e3e6379d5845eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:20 +0000
Subject: [PATCH 35/43] fix: restarts.rhoend_scale=0 is an input error
 (ZeroDivisionError when reducing rho)

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 03fd3a1..bf04873 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1082,6 +1082,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and params("tr_radius.alpha1") >= 1.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "tr_radius.alpha1 must be strictly less than 1, so that rho can be reduced")
 
+    if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From 0f10deb0bec5c5db43bb8238738213b218cff2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 36/43] fix: growing.delta_scale_new_dirns=0 is an input error
 (AssertionError while growing)

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index bf04873..f437dda 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1085,6 +1085,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
 
+    if exit_info is None and params("growing.delta_scale_new_dirns") <= 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "growing.delta_scale_new_dirns must be strictly positive")
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From 912c650d5964c20342b01672c1a7dc9cb5033ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 37/43] fix: soft restart while still growing only moves the
 points found so far (IndexError)

---
 dfols/controller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index cee380c..6f48d58 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -852,12 +852,10 @@ class Controller(object):
         closest_points = np.argsort(all_sq_dist)
         if params("restarts.soft.move_xk"):
             closest_points = closest_points[:params("restarts.soft.num_geom_steps")]
-            upper_limit = self.model.num_pts
         else:
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
-            upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(len(closest_points)):  # at most the number of points so far (may still be growing)
             # Determine which point to update (knew)
             knew = closest_points[i]
 
-- 
2.43.0


From a3335b71f9971458ba73b109294725864919fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 38/43] fix: new points added by a soft restart while growing
 come before the unset rows

---
 dfols/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 9d1a0fe..1ba3c6e 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -245,15 +245,16 @@ class Model(object):
 
     def add_new_point(self, x, rvec, eval_num):
         x = self.project_step(x)
-        self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
-        self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
+        # If still growing, new point goes before the rows which have not been set yet
+        self.points = np.insert(self.points, self.npt(), x, axis=0)  # add row to xpt
+        self.fval_v = np.insert(self.fval_v, self.npt(), rvec, axis=0)  # add row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
             xabs = self.xbase + x if self.projections else self.as_absolute_coordinates(x)
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        self.objval = np.append(self.objval, obj)  # append entry to fval
-        self.nsamples = np.append(self.nsamples, 1)  # add new sample number
-        self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
+        self.objval = np.insert(self.objval, self.npt(), obj)  # add entry to fval
+        self.nsamples = np.insert(self.nsamples, self.npt(), 1)  # add new sample number
+        self.eval_num = np.insert(self.eval_num, self.npt(), eval_num)  # add new evaluation number
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-- 
2.43.0


From e01d376cce73567b03e043842a377b967d9624d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 39/43] fix: refactorise the interpolation matrix after a new
 sample changes the incumbent

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 1ba3c6e..ad0fd17 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -241,6 +241,7 @@ class Model(object):
         # make sure kopt is always the best value we have (any value is better than NaN)
         objval = self.objval[:self.npt()]
         self.kopt = np.argmin(objval) if np.all(np.isnan(objval)) else np.nanargmin(objval)
+        self.factorisation_current = False  # interpolation matrix is centred at xopt, which may have changed
         return
 
     def add_new_point(self, x, rvec, eval_num):
-- 
2.43.0


From 234c93013e7059f950f78570a4fd2619efa270a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 40/43] fix: constant term of the model after completing the
 Jacobian to full rank

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index ad0fd17..8274eee 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -418,6 +418,7 @@ class Model(object):
             s = np.maximum(s, floor_val)
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
+            self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # new J has the same value at xopt
 
         interp_error = 0.0
         if verbose:
-- 
2.43.0


From 0ac4279a3c080309ff7ec0fca201c50c3b0cc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 41/43] fix: diagnostic table with a non-finite model gradient

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f437dda..8a6dbaf 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -375,7 +375,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), LA.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From c8a6413023d6f0d588e7f6e23726f0ec9b943406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 42/43] fix: cap the trust-region radius after a rejected step
 with a small criticality measure

---
 dfols/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 8a6dbaf..551285d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -658,9 +658,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From a16d5b54b2e49adc732504315f4ee3581492e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 43/43] fix: apply the chain rule for scaled variables in the
 regularised subproblem

---
 dfols/trust_region.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 0c6b897..fdecfbc 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -100,19 +100,23 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     t = 1
     k_H = np.linalg.norm(H, 2)
     crvmin = -1.0
+    # If the variables are scaled, h is applied to shift + scale * x (chain rule: factors of scale in the gradient of h)
+    scale = scaling_changes[1] if scaling_changes is not None else 1.0
+    max_scale = np.max(scale) if scaling_changes is not None else 1.0
     
     # Number of iterations & smoothing parameter, from Theorem 10.57 in 
     #   [A. Beck. First-order methods in optimization, SIAM, 2017]
     # We do not use the values of k and mu given in the theorem statement, but rather the intermediate
     # results on p313 (K1 for number of iterations, and the immediate next line for mu)
-    # Note: in the book's notation, Gamma=delta^2, alpha=1, beta=L_h^2/2, Lf=k_H [alpha and beta from Thm 10.51]
+    # Note: in the book's notation, Gamma=delta^2, alpha=max_scale^2, beta=L_h^2/2, Lf=k_H [alpha and beta from Thm 10.51]
     try:
-        MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
+        L_hs = max_scale * L_h
+        MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_hs+sqrt(L_hs*L_hs+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
     except (ValueError, OverflowError, ZeroDivisionError):  # NaN or inf number of iterations
         MAX_LOOP_ITERS = max_iters
     MAX_LOOP_ITERS = max(MAX_LOOP_ITERS, 1)
-    u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
+    u =  2 * delta * max_scale / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
 
     def gradient_Fu(xopt, g, H, u, prox_uh, d):
@@ -120,10 +124,11 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     # where Fu(d) := g(d) + h_u(d) and h_u(d) is a 1/u-smooth approximation of h.
     # We assume that h is globally Lipschitz continous with constant L_h,
     # then we can let h_u(d) be the Moreau Envelope M_h_u(d) of h.
-        return g + H @ d + (xopt + d - prox_uh(remove_scaling(xopt + d, scaling_changes), u, *argsprox)) / u
+        x = remove_scaling(xopt + d, scaling_changes)
+        return g + H @ d + scale * (x - prox_uh(x, u, *argsprox)) / u
 
     # Lipschitz constant of gradient_Fu
-    l = k_H + 1 / u 
+    l = k_H + max_scale**2 / u
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0

