From 70b1d1d092422e9e5f6a5fac5702272824bd9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:21 +0000
Subject: [PATCH 01/34] fix: support one and two time steps in
 PyrevolveCheckpointer

---
 .../pyrevolve_checkpointer.py                     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..c6b1e28 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -58,6 +58,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
     _first_complete_state: TimeIntegrationState = field(init=None)
     _revolver: pr.BaseRevolver | None = field(init=None)
     _revolver_class_type: type = field(init=None)
+    _single_step: bool = field(init=None)
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
@@ -88,11 +89,15 @@ class PyrevolveCheckpointer(CheckpointInterface):
             else:
                 self.revolver_options[key] = value
         self.revolver_options["checkpoint"] = checkpoint
-        self.revolver_options["n_timesteps"] = num_steps - 1
+        # The first step is not done by the revolver, so for a single step there is
+        # nothing left to schedule (and the revolver can't be created for that).
+        self._single_step = num_steps == 1
+        self.revolver_options["n_timesteps"] = max(num_steps - 1, 1)
 
         if "n_checkpoints" not in self.revolver_options:
             if self.revolver_type not in ["MultiLevel", "Base"]:
-                self.revolver_options["n_checkpoints"] = 1 if num_steps == 1 else None
+                # pyRevolve can't determine a number of checkpoints for one time step.
+                self.revolver_options["n_checkpoints"] = 1 if num_steps <= 2 else None
 
         self.revolver_options["fwd_operator"] = RungeKuttaForwardOperator(
             self.state,
@@ -166,7 +171,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
             self._revolver.fwd_operator.time_integration_state
         )
         self.state.set(self._revolver.fwd_operator.time_integration_state)
-        self._revolver.apply_forward()
+        if not self._single_step:
+            self._revolver.apply_forward()
         return self._revolver.fwd_operator.time_integration_state
 
     def iterate_reverse(
@@ -188,7 +194,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
-        self._revolver.apply_reverse()
+        if not self._single_step:
+            self._revolver.apply_reverse()
         self._revolver.rev_operator.time_integration_state.set(
             self._first_complete_state
         )
-- 
2.43.0


From 8467f28920883354897c4e2925dc5a78bf30917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:21 +0000
Subject: [PATCH 02/34] fix: don't modify the options passed to
 PyrevolveCheckpointer

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index c6b1e28..8584508 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -62,6 +62,9 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
+        # Below, data specific to this checkpointer is added. The passed options need to
+        # stay as they are, since they may be used for other checkpointers as well.
+        self.revolver_options = dict(self.revolver_options)
         self._first_complete_state = deepcopy(self.state)
         checkpoint = RungeKuttaCheckpoint(self.state)
 
-- 
2.43.0


From 4cb5276ef8d59dd44d41cc113b8c7c2d25aa3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:21 +0000
Subject: [PATCH 03/34] fix: consider the initial time when reusing checkpoints
 in reverse mode

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..7cafc62 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -828,6 +828,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 9631978f029a74bd6ae5f7f665c25a0570c9d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:09 +0000
Subject: [PATCH 04/34] fix: don't reuse checkpoints of incomplete forward or
 reverse iterations

---
 src/rkopenmdao/runge_kutta_integrator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 7cafc62..25a8f74 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -438,11 +438,16 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
-        self._compute_preparation_phase(inputs, self._time_integration_state)
+        # The checkpoints only become valid once the forward iteration is complete.
+        self._cached_input = None
+        cached_input = self._compute_preparation_phase(
+            inputs, self._time_integration_state
+        )
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = cached_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -454,7 +459,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
     def _compute_preparation_phase(
         self, inputs: OMVector, integration_state: TimeIntegrationState
-    ):
+    ) -> RungeKuttaDiscretizationState:
         self._to_numpy_array_time_integration(
             inputs, integration_state.discretization_state.final_state
         )
@@ -462,10 +467,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
+        cached_input = deepcopy(integration_state.discretization_state)
 
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
+        return cached_input
 
     def _to_numpy_array_time_integration(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -772,6 +778,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -788,9 +796,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
-- 
2.43.0


From 64bc1eed7fa4765a9f0b98eccaf175cb1c6dc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:09 +0000
Subject: [PATCH 05/34] fix: keep the state used by the checkpointer untouched
 in forward mode derivatives

---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 25a8f74..09a471f 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -666,15 +666,18 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The checkpointer may still need the state at the end of the primal
+        # computation for a following reverse mode, so don't work on that directly.
+        integration_state = deepcopy(self._time_integration_state)
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
-            self._time_integration_state,
+            integration_state,
             self._time_integration_state_perturbations,
         )
         self._time_integration_state_perturbations.set(
             self._compute_jacvec_fwd_run_steps(
-                self._time_integration_state, self._time_integration_state_perturbations
+                integration_state, self._time_integration_state_perturbations
             )
         )
         self._from_numpy_array_time_integration(
-- 
2.43.0


From 109a859907928c06b967378ed91457f53ebcff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:39 +0000
Subject: [PATCH 06/34] fix: accept steps below the lower bound, and only
 those, independent of their error

---
 src/rkopenmdao/error_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..96270a1 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -188,9 +188,10 @@ class ErrorController:
             Suggested step size and acceptance of current time step.
         """
         success = False
+        # A step that can't be decreased any further has to be accepted. Due to the
+        # limit by the remaining time, it may be smaller than the lower bound.
         if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 71352eb548ddf19882273500ed4ae311914d661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:39 +0000
Subject: [PATCH 07/34] fix: fail instead of retrying a rejected step with the
 same step size forever

---
 src/rkopenmdao/error_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 96270a1..a680e7d 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -148,7 +148,7 @@ class ErrorController:
             step_size_history=step_size_history,
         )
         if not status.acceptance:
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise OuterErrorControllerError(
                     f"""Suggested delta T {status.step_size_suggestion} is larger than 
                     delta t {delta_t} on failure."""
@@ -409,7 +409,7 @@ class ErrorControllerDecorator(ErrorController):
         )
         if not status.acceptance:
             self._is_not_inner = False
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
                     f"""Suggested delta T {status.step_size_suggestion} is larger than 
                     delta t {delta_t} on failure."""
-- 
2.43.0


From 9854ad4051649dbca1a517bed2c3fcdc95974549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:39 +0000
Subject: [PATCH 08/34] fix: correct exponent of the current error in the
 H0_321 controller

---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From 6d9d2fe4567210772a7068c6a90d59c9e9dfba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:10 +0000
Subject: [PATCH 09/34] fix: start each time step and each time integration
 with the first error controller

---
 src/rkopenmdao/error_controller.py       | 16 ++++++++++++++--
 src/rkopenmdao/runge_kutta_integrator.py |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index a680e7d..c9f79b2 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -155,6 +155,12 @@ class ErrorController:
                 )
         return status
 
+    def reset(self):
+        """
+        Resets data that is kept between calls for different tries of the same time
+        step. Needs to be called before each time integration.
+        """
+
     def _run(
         self,
         *,
@@ -383,6 +389,11 @@ class ErrorControllerDecorator(ErrorController):
                 step_size_history=step_size_history,
             )
 
+    def reset(self):
+        self._is_not_inner = True
+        self._outer_counter = 0
+        self.error_controller.reset()
+
     def __str__(self):
         """Prints the class data."""
         current_str = super().__str__()
@@ -399,7 +410,6 @@ class ErrorControllerDecorator(ErrorController):
         error_history: np.ndarray,
         step_size_history: np.ndarray,
     ) -> ErrorControllerStatus:
-        self._is_not_inner = True
         status = super()._run(
             error_measure=error_measure,
             delta_t=delta_t,
@@ -407,7 +417,9 @@ class ErrorControllerDecorator(ErrorController):
             error_history=error_history,
             step_size_history=step_size_history,
         )
-        if not status.acceptance:
+        if status.acceptance:
+            self.reset()
+        else:
             self._is_not_inner = False
             if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 09a471f..d8d3099 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -558,6 +558,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         return time_integration_state
 
     def _reset_error_control(self, integration_state: TimeIntegrationState):
+        self._error_controller.reset()
         integration_state.step_size_history.fill(0.0)
         integration_state.error_history.fill(self._error_controller.config.tol)
         integration_state.step_size_suggestion[0] = (
-- 
2.43.0


From eb39f895ed0d77f8037ffa8eba332df07496f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:10 +0000
Subject: [PATCH 10/34] fix: count retries of one time step for the fallback to
 the next error controller

---
 src/rkopenmdao/error_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index c9f79b2..65bdf0a 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -370,7 +370,8 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             larger than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
+                else:
+                    self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
                 return self._run(
-- 
2.43.0


From d4a47c93e32805cca053b6d00ac6931d4f68355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 11/34] fix: don't reuse checkpoints after another setup

---
 src/rkopenmdao/runge_kutta_integrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index d8d3099..3b593c2 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -426,6 +426,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         )
 
     def _setup_checkpointing(self):
+        # A new checkpointer doesn't contain the checkpoints of previous computations.
+        self._cached_input = None
         self._checkpointer = self.options["checkpointing_type"](
             termination_criterion=self._integration_config.termination_criterion,
             run_step_func=self._run_step,
-- 
2.43.0


From 1a824c8fb3cddff9105216d7bbcbad4899abd1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:52 +0000
Subject: [PATCH 12/34] fix: ignore vanishing past errors when estimating step
 sizes

---
 src/rkopenmdao/error_controller.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 65bdf0a..6bd617c 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -250,8 +250,12 @@ class ErrorController:
         """
         delta_t_new = self.config.safety_factor * delta_t
         delta_t_new *= (self.config.tol / error_measure) ** self.alpha
-        delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
-        delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
+        # As for the current step, errors of 0 can't be used for estimating step sizes
+        # (depending on the exponents, they would lead to step sizes of 0).
+        if error_history[0] != 0.0:
+            delta_t_new *= (error_history[0] / self.config.tol) ** self.beta
+        if error_history[1] != 0.0:
+            delta_t_new *= (self.config.tol / error_history[1]) ** self.gamma
         if step_size_history[0] != 0.0:
             delta_t_new *= (delta_t / step_size_history[0]) ** self.a
             if step_size_history[1] != 0.0:
-- 
2.43.0


From 31b8d92805e6ad569a0c91f2af425385555f23cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 13/34] fix: warn about any row sum of the Butcher matrix that
 doesn't match its stage time

---
 src/rkopenmdao/butcher_tableau.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..3232b39 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,9 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            if np.any(
+                np.abs(np.sum(self.butcher_matrix, 1) - butcher_time_stages) > 1e-5
+            ):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From 31cec2e4c5122208b5e1c0230cf3ef4f1eb2c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 14/34] fix: start the adjoint of a step with zero stage state
 perturbations

---
 .../stage_ordered_runge_kutta_discretization.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py b/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
index 2faf35d..3df1e85 100644
--- a/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
+++ b/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
@@ -147,6 +147,7 @@ class StageOrderedRungeKuttaDiscretization(TimeDiscretizationSchemeInterface):
         time_discretization_state_perturbation.stage_independent_outputs[:] = (
             stage_independent_output_perturbations
         )
+        time_discretization_state_perturbation.stage_states[:] = 0.0
         time_discretization_state_perturbation.final_time += final_time_perturbations
 
         time_discretization_state_perturbation.start_state[:] = (
-- 
2.43.0


From 8737688f7d3c3ff5f7a9ac5e0accde8b739daf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 15/34] fix: copy the embedded data when setting an embedded
 discretization state

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..5c7c40c 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -216,6 +216,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From 485537ab0263fdb9b2c9653471bb76ad86217b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 16/34] fix: recreate complete states in from_dict for all
 kinds of time integration states

---
 .../runge_kutta_discretization_state.py       | 25 +++++++++++--------
 src/rkopenmdao/time_integration_state.py      | 17 ++++++++-----
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 5c7c40c..1110726 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,25 +134,26 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
         )
-        state.start_state = state_dict["start_state"]
-        state.start_time = state_dict["start_time"]
-        state.stage_times = state_dict["stage_times"]
+        state.start_state[:] = state_dict["start_state"]
+        state.start_time[:] = state_dict["start_time"]
+        state.stage_times[:] = state_dict["stage_times"]
         for i in range(number_of_stages):
             state.stage_states[i, :] = state_dict[f"stage_{i}"]["state"]
             state.stage_updates[i, :] = state_dict[f"stage_{i}"]["update"]
             state.stage_independent_outputs[i, :] = state_dict[f"stage_{i}"][
                 "independent_output"
             ]
-        state.final_state = state_dict["final_state"]
-        state.independent_inputs = state_dict["independent_input"]
-        state.final_independent_outputs = state_dict["final_independent_output"]
-        state.final_time = state_dict["final_time"]
-        state.linearization_points = state_dict["linearization_points"]
+        state.final_state[:] = state_dict["final_state"]
+        state.independent_inputs[:] = state_dict["independent_input"]
+        state.final_independent_outputs[:] = state_dict["final_independent_output"]
+        state.final_time[:] = state_dict["final_time"]
+        state.step_size[:] = state_dict["step_size"]
+        state.linearization_points[:] = state_dict["linearization_points"]
         return state
 
 
@@ -230,5 +232,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
-        state.error_estimate = state_dict["error_estimate"]
+        state.embedded_state[:] = state_dict["embedded_state"]
+        state.error_estimate[:] = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..1b56884 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_state_dict = time_state_dict["discretization_state"]
+        discretization_state_class = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "embedded_state" in discretization_state_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
-            time_state_dict["step_size_history"],
-            time_state_dict["error_history"],
+            discretization_state_class.from_dict(discretization_state_dict),
+            time_state_dict["step_size_suggestion"].copy(),
+            time_state_dict["step_size_history"].copy(),
+            time_state_dict["error_history"].copy(),
         )
-- 
2.43.0


From 49333598e3c0629777c5b08dde951f2e9910e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 17/34] fix: compute state norms of order infinity with empty
 quantities and of order minus infinity

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..dec5e42 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,8 +379,10 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        # neutral element of the operation used for combining the quantities
+        neutral_element = np.inf if self._norm_order == -np.inf else 0.0
+        non_distributed_intermediate = neutral_element
+        distributed_intermediate = neutral_element
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
@@ -409,6 +411,8 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> float:
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
+        if start == end:
+            return np.inf if order == -np.inf else 0.0
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
-- 
2.43.0


From 66b82be4af2349e2f3e6d0b1915f81be6f2911a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 18/34] fix: refuse quantities that are missing in the stage
 problem

---
 src/rkopenmdao/metadata_extractor.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..be43c51 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -137,6 +137,7 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    _check_found_quantities(quantity_list, time_integration_set, "stage_output_var")
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -145,6 +146,19 @@ def extract_time_integration_metadata(
     return runge_kutta_metadata
 
 
+def _check_found_quantities(
+    quantity_list: list[Quantity], requested_quantities: set, role_tag: str
+) -> None:
+    missing_quantities = requested_quantities - {
+        quantity.name for quantity in quantity_list
+    }
+    if missing_quantities:
+        raise SetupError(
+            f"For the quantities {sorted(missing_quantities)}, there are no inner "
+            f"variables tagged with the quantity and '{role_tag}'."
+        )
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -332,6 +346,11 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    _check_found_quantities(
+        runge_kutta_metadata.time_independent_input_quantity_list,
+        time_independent_input_set,
+        "time_independent_input_var",
+    )
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From fb6f6ffeeaedfc597d7e1ba33913af5af39e5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 19/34] fix: refuse quantities whose variables have different
 sizes

---
 src/rkopenmdao/metadata_extractor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index be43c51..59215bf 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -286,6 +286,18 @@ def _extract_time_integration_quantity(
 
     # We check that there is a stage_output_var, so array_metadata must exist
     # pylint: disable=possibly-used-before-assignment
+    for var in (
+        translation_metadata.step_input_var,
+        translation_metadata.accumulated_stage_var,
+    ):
+        if var is not None and np.prod(
+            detailed_local_quantity[var]["shape"]
+        ) != np.prod(array_metadata.shape):
+            raise SetupError(
+                f"For quantity {quantity_name}, the size of {var} doesn't match the "
+                f"size of {translation_metadata.stage_output_var}."
+            )
+
     quantity = TimeIntegrationQuantity(
         name=quantity_name,
         type="time_integration",
-- 
2.43.0


From 431ccf7dd3b3b3b56b1cdf227ffe8cf6724c39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 20/34] fix: number the steps with PyrevolveCheckpointer as
 with other checkpointers

---
 .../runge_kutta_integrator_pyrevolve_classes.py              | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..461cb57 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,8 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
-            # TODO?: Add iteration to fwd_op
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
             )
-- 
2.43.0


From dd6548c778a85da5770482215a02e96c8eaa72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 21/34] fix: don't call callbacks of compute for steps
 recomputed in reverse mode

---
 src/rkopenmdao/runge_kutta_integrator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 3b593c2..b8a8eb2 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -786,9 +786,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         )
         # using the checkpoints invalidates the checkpointer in general
         self._cached_input = None
-        self._time_integration_state_perturbations.set(
-            self._checkpointer.iterate_reverse(integration_state_perturbations)
-        )
+        # The checkpointer may have to recompute steps, which isn't part of compute.
+        compute_callbacks = self._compute_callbacks
+        self._compute_callbacks = []
+        try:
+            self._time_integration_state_perturbations.set(
+                self._checkpointer.iterate_reverse(integration_state_perturbations)
+            )
+        finally:
+            self._compute_callbacks = compute_callbacks
 
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
-- 
2.43.0


From d95052c5da2100d965a7cf07c5589127a28215af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 22/34] fix: keep track of step sizes and error measures for
 steps of fixed size

---
 src/rkopenmdao/runge_kutta_integrator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index b8a8eb2..de3d414 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -639,10 +639,19 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         else:
             time_integration_state.discretization_state.set(temp_discretization_state)
-            np.roll(time_integration_state.step_size_history, 1)
+            time_integration_state.step_size_history[:] = np.roll(
+                time_integration_state.step_size_history, 1
+            )
             time_integration_state.step_size_history[0] = (
                 time_integration_state.step_size_suggestion[0]
             )
+            if self.options["butcher_tableau"].is_embedded:
+                time_integration_state.error_history[:] = np.roll(
+                    time_integration_state.error_history, 1
+                )
+                time_integration_state.error_history[0] = self._get_error_measure(
+                    temp_discretization_state
+                )
         return time_integration_state
 
     def _get_error_measure(
-- 
2.43.0


From 063b59ea75ef690dd07c9e829b9fc8048a860583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 23/34] fix: pass initial values of all quantities to the
 solution in read_hdf5_file

---
 src/rkopenmdao/file_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..de2b292 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -209,6 +209,7 @@ def read_hdf5_file(
         # Extract time metadata
         for key, group in f.items():
             time[int(key)] = group["time"][0]
+        initial_values = [f["0"][quantity][...] for quantity in quantities]
         # Extract solution and compute Error wrt. analytical solution
         for i, quantity in enumerate(quantities):
             error_data[quantity] = {}  # initialize error data for each quantity
@@ -220,11 +221,10 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-                            quan_result,
+                            initial_values,
                             time[0],
                         )[i]
                         - result[quantity][int(key)]
-- 
2.43.0


From 686f507bd829144323b700fc87f7a98339f13efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 24/34] fix: take no steps with PyrevolveCheckpointer if none
 are requested

---
 .../checkpoint_interface/pyrevolve_checkpointer.py          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 8584508..6113975 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -58,6 +58,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
     _first_complete_state: TimeIntegrationState = field(init=None)
     _revolver: pr.BaseRevolver | None = field(init=None)
     _revolver_class_type: type = field(init=None)
+    _no_step: bool = field(init=None)
     _single_step: bool = field(init=None)
 
     def __post_init__(self):
@@ -94,6 +95,7 @@ class PyrevolveCheckpointer(CheckpointInterface):
         self.revolver_options["checkpoint"] = checkpoint
         # The first step is not done by the revolver, so for a single step there is
         # nothing left to schedule (and the revolver can't be created for that).
+        self._no_step = num_steps < 1
         self._single_step = num_steps == 1
         self.revolver_options["n_timesteps"] = max(num_steps - 1, 1)
 
@@ -169,6 +171,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
             The resulting state after completing all time steps.
         """
         self._revolver.fwd_operator.time_integration_state.set(initial_state)
+        if self._no_step:
+            return self._revolver.fwd_operator.time_integration_state
         self._revolver.fwd_operator.apply(t_start=-1, t_end=0)
         self._first_complete_state.set(
             self._revolver.fwd_operator.time_integration_state
@@ -197,6 +201,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
             steps.
         """
         self.state_perturbation.set(final_state_perturbation)
+        if self._no_step:
+            return self._revolver.rev_operator.time_integration_state_perturbations
         if not self._single_step:
             self._revolver.apply_reverse()
         self._revolver.rev_operator.time_integration_state.set(
-- 
2.43.0


From 923b87ffb5ca538d31dafc7c64d64300db9f9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:47 +0000
Subject: [PATCH 25/34] fix: end adaptive time stepping at the final time if
 the initial step size is larger

---
 src/rkopenmdao/runge_kutta_integrator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index de3d414..161d46e 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -566,6 +566,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
+        if self._integration_config.use_adaptive_time_stepping:
+            # Adaptive time stepping ends at the final time, even in the first step.
+            remaining_time = self._remaining_time_func(
+                integration_state.discretization_state.final_time[0]
+            )
+            if remaining_time > 0.0:
+                integration_state.step_size_suggestion[0] = min(
+                    integration_state.step_size_suggestion[0], remaining_time
+                )
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0


From 44f33c424117c1692272460f1b45c9be8c666fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:21 +0000
Subject: [PATCH 26/34] fix: add derivative products to the vectors passed by
 OpenMDAO instead of overwriting them

---
 src/rkopenmdao/runge_kutta_integrator.py | 27 +++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 161d46e..9959bb7 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -522,7 +522,23 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 quantity.array_metadata.shape
             )
 
-    def _from_numpy_array_independent_input(
+    def _add_numpy_array_time_integration(
+        self, np_array: np.ndarray, om_vector: OMVector
+    ):
+        if om_vector._kind == "input":
+            name_suffix = "_initial"
+        else:
+            name_suffix = "_final"
+        for (
+            quantity
+        ) in self._ode.time_integration_metadata.time_integration_quantity_list:
+            start = quantity.array_metadata.start_index
+            end = quantity.array_metadata.end_index
+            om_vector[quantity.name + name_suffix] += np_array[start:end].reshape(
+                quantity.array_metadata.shape
+            )
+
+    def _add_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
     ):
         if om_vector._kind != "input":
@@ -535,7 +551,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -701,7 +717,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 integration_state, self._time_integration_state_perturbations
             )
         )
-        self._from_numpy_array_time_integration(
+        # Products are added to what OpenMDAO already collected in its vectors.
+        self._add_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
         )
@@ -814,11 +831,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         finally:
             self._compute_callbacks = compute_callbacks
 
-        self._from_numpy_array_time_integration(
+        self._add_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
         )
-        self._from_numpy_array_independent_input(
+        self._add_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-- 
2.43.0


From ba5e5968f56ac05851d8f90ee07b5fedf8490cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:56 +0000
Subject: [PATCH 27/34] fix: only use variables that are part of the
 matrix-vector product

---
 src/rkopenmdao/runge_kutta_integrator.py | 54 ++++++++++++++----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 9959bb7..ef42ee4 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -487,7 +487,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            if quantity.name + name_suffix in om_vector:
+                np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            else:
+                # Not part of the current matrix-vector product.
+                np_array[start:end] = 0.0
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -504,7 +508,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                if quantity.name in om_vector:
+                    np_array[start:end] = om_vector[quantity.name].flatten()
+                else:
+                    # Not part of the current matrix-vector product.
+                    np_array[start:end] = 0.0
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -534,9 +542,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] += np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            if quantity.name + name_suffix in om_vector:
+                om_vector[quantity.name + name_suffix] += np_array[start:end].reshape(
+                    quantity.array_metadata.shape
+                )
 
     def _add_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -551,9 +560,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] += np_array[start:end].reshape(
-                    quantity.array_metadata.shape
-                )
+                if quantity.name in om_vector:
+                    om_vector[quantity.name] += np_array[start:end].reshape(
+                        quantity.array_metadata.shape
+                    )
 
     def _run_step(
         self, step: int, time_integration_state: TimeIntegrationState
@@ -722,11 +732,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
         )
-        d_outputs[
-            "time_final"
-        ] += self._time_integration_state_perturbations.discretization_state.final_time[
-            0
-        ]
+        if "time_final" in d_outputs:
+            d_outputs["time_final"] += (
+                self._time_integration_state_perturbations.discretization_state
+            ).final_time[0]
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
@@ -753,9 +762,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -839,9 +848,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs["time_initial"] += (
+                integration_state_perturbations.discretization_state.final_time[0]
+            )
 
         if self.comm.rank == 0:
             print(
@@ -896,9 +906,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state_perturbations.discretization_state.independent_inputs.fill(
             0.0
         )
-        integration_state_perturbations.discretization_state.final_time[0] = d_outputs[
-            "time_final"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_outputs["time_final"][0] if "time_final" in d_outputs else 0.0
+        )
 
     def _run_step_jacvec_rev(
         self,
-- 
2.43.0


From c13951786ec59b39ab35053a25b7c52d4ac9ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 28/34] fix: clear the vectors of a matrix-vector product by
 assignment, so that nan and inf don't persist

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index dec5e42..2acab4e 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +196,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From 0fe1ec50d6c433e07f5a01502ab4229cb4865879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 29/34] fix: use the determinant of the linear system in the
 adjoint solve of KapsComponent2

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From 3f0ead6ff5ba9299d2d75b82a87a9ad6de6c0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:28 +0000
Subject: [PATCH 30/34] fix: let the solution of Kaps' problem start with the
 given values at the given time

---
 src/rkopenmdao/odes/kaps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..4d5e89e 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -340,13 +340,15 @@ class KapsGroup(om.Group):
         Analytical solution to Kaps problem (using Homotopy Perturbation Method) to
         compare with the components above.
         """
+        elapsed_time = time - initial_time
         return np.array(
             [
-                initial_values[1] * np.exp(-2 * time)
-                + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * time),
+                initial_values[1] ** 2 * np.exp(-2 * elapsed_time)
+                + (initial_values[0] - initial_values[1] ** 2)
+                * np.exp(-2 * elapsed_time),
                 (initial_values[1] - initial_values[0] + initial_values[1] ** 2)
-                * np.exp(-time)
-                + initial_values[0] * np.exp(-2 * time)
-                - initial_values[1] ** 2 * np.exp(-2 * time),
+                * np.exp(-elapsed_time)
+                + initial_values[0] * np.exp(-2 * elapsed_time)
+                - initial_values[1] ** 2 * np.exp(-2 * elapsed_time),
             ]
         )
-- 
2.43.0


From 9e94a01e7fc3e85b22a697f208d94848650769f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:44 +0000
Subject: [PATCH 31/34] fix: include the stiffness in the solution of the
 Prothero-Robinson problem

---
 src/rkopenmdao/odes/prothero_robinson_ode.py | 5 +++--
 src/rkopenmdao/utils/problems.py             | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rkopenmdao/odes/prothero_robinson_ode.py b/src/rkopenmdao/odes/prothero_robinson_ode.py
index dc0d05f..b1c15c6 100644
--- a/src/rkopenmdao/odes/prothero_robinson_ode.py
+++ b/src/rkopenmdao/odes/prothero_robinson_ode.py
@@ -64,9 +64,10 @@ class ProtheroRobinson(ExplicitUnsteadyComponent):
         time: float,
         initial_values=get_initial_values(),
         initial_time=0.0,
+        lambda_=-1e2,
     ):
         """Analytical solution of the ODE"""
-        # x = phi(t) + Ce^t
+        # x = phi(t) + Ce^(lambda*t)
         return ProtheroRobinson.phi(time) + (
             initial_values - ProtheroRobinson.phi(initial_time)
-        ) / np.exp(initial_time) * np.exp(time)
+        ) * np.exp(lambda_ * (time - initial_time))
diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index d5ad166..b5fc63f 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -3,6 +3,7 @@
 import argparse
 from collections.abc import Callable
 from dataclasses import dataclass, field
+from functools import partial
 import os
 import pathlib
 from typing import Tuple, Union
@@ -215,7 +216,7 @@ def prothero_robinson_problem(_lambda: float = -1e2):
         stiffness_coef,
         folder_path,
         ProtheroRobinson,
-        ProtheroRobinson.solution,
+        partial(ProtheroRobinson.solution, lambda_=_lambda),
     )
 
 
-- 
2.43.0


From d3f791e28e0affd5d5cc73969f389ef7f84f6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:21 +0000
Subject: [PATCH 32/34] fix: accept files in the working directory as output of
 example problems

---
 src/rkopenmdao/utils/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index b5fc63f..c6907e2 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -30,7 +30,7 @@ def generate_path(path: str):
     if path[-3::] == ".h5" or path[-4::] == ".png":
         idx = path.rfind("/")
         directory_path = path[: idx + 1]
-        if not os.path.exists(directory_path):
+        if directory_path and not os.path.exists(directory_path):
             os.makedirs(directory_path)
             print(f"The path to {directory_path} has been paved.")
     return path
-- 
2.43.0


From 793f7f4742e457257b41d8f423daa43b8341ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:32 +0000
Subject: [PATCH 33/34] fix: time independent inputs that are empty or not
 local on a rank can be set up

---
 src/rkopenmdao/runge_kutta_integrator.py | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index ef42ee4..46a6fd4 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -345,14 +345,23 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_independent_input_quantity_list:
-            self.add_input(
-                quantity.name,
-                shape=quantity.array_metadata.shape,
-                val=time_stage_problem.get_val(
-                    quantity.translation_metadata.time_independent_input_var
-                ),
-                distributed=quantity.array_metadata.distributed,
-            )
+            if quantity.array_metadata.local:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    # Arrays of size 0 tend to have the wrong shape when aquired from
+                    # OpenMDAO, making a manual reshape necessary in that case.
+                    val=time_stage_problem.get_val(
+                        quantity.translation_metadata.time_independent_input_var
+                    ).reshape(quantity.array_metadata.shape),
+                    distributed=quantity.array_metadata.distributed,
+                )
+            else:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    distributed=quantity.array_metadata.distributed,
+                )
 
     def _setup_wrt_and_of_vars(self):
         self._add_time_integration_derivative_info()
-- 
2.43.0


From dbe8ad32fa0fcaeef5a2c4290dd6a2259951d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:16 +0000
Subject: [PATCH 34/34] fix: global indices of distributed time independent
 inputs use the sizes of inputs

---
 src/rkopenmdao/metadata_extractor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 59215bf..553a929 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -193,13 +193,19 @@ def _create_local_array_metadata(
     detailed_data: dict,
 ) -> ArrayMetadata:
     if detailed_data["shape"] != detailed_data["global_shape"]:
+        # The sizes of inputs and outputs are indexed separately.
+        io_type = (
+            "output"
+            if detailed_var in stage_problem.model._var_allprocs_abs2meta["output"]
+            else "input"
+        )
         try:
-            sizes = stage_problem.model._var_sizes["output"][
+            sizes = stage_problem.model._var_sizes[io_type][
                 :,
                 stage_problem.model._var_allprocs_abs2idx[detailed_var],
             ]
         except KeyError:  # Have to deal with an older openMDAO version
-            sizes = stage_problem.model._var_sizes["nonlinear"]["output"][
+            sizes = stage_problem.model._var_sizes["nonlinear"][io_type][
                 :,
                 stage_problem.model._var_allprocs_abs2idx["nonlinear"][detailed_var],
             ]
-- 
2.43.0

