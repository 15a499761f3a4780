From ddb494ed9468e91eecee843d19fa23a14c401f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 01/24] fix: do not let an event overwrite the failure of the
 step it occurred on

---
 diffrax/_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..0d2d638 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -626,8 +626,10 @@ def loop(
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
+            # If the step itself failed then that takes precedence: we must not report a
+            # failed solve as having successfully found an event.
             result = RESULTS.where(
-                had_event,
+                had_event & is_okay(result),
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From dec32f97984025671a0f12b25cd7c0958275747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 02/24] fix: do not save the final step twice when using an
 event with a root finder

---
 diffrax/_integrate.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 0d2d638..e1f20ff 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -867,9 +867,14 @@ def loop(
             pred = subsaveat.t1 & t1_not_saved_via_steps
         else:
             # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+            # then we need to write the final value here if we deleted the
+            # last value after the event time above. (And if we did not delete it --
+            # e.g. no event triggered -- then we must not save it a second time.)
+            pred = jnp.where(
+                tfinal < final_state.tprev,
+                subsaveat.t1 | t1_saved_via_steps,
+                subsaveat.t1 & jnp.logical_not(t1_saved_via_steps),
+            )
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From afbea72dc5610075ae1db45707bc3fac8d74fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 03/24] fix: save the final value when steps and t1 are
 requested but no step is made

---
 diffrax/_integrate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index e1f20ff..2c25ee5 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -852,13 +852,16 @@ def loop(
             # so we might need to save it via `t1`.
             t1_saved_via_steps = False
         elif subsaveat.steps == 1:
-            # We're definitely saving the final value via `steps`,
+            # We're saving the final value via `steps`,
             # so we can skip saving it via `t1`.
-            t1_saved_via_steps = True
+            # (Unless there weren't any steps, e.g. because t0 == t1.)
+            t1_saved_via_steps = final_state.num_accepted_steps > 0
         else:
             # We might be saving the final value via `steps`,
             # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
+            t1_saved_via_steps = (final_state.num_accepted_steps > 0) & (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            )
         if event is None or event.root_finder is None:
             if type(t1_saved_via_steps) is bool:
                 t1_not_saved_via_steps = not t1_saved_via_steps
-- 
2.43.0


From bfe7dc083b60aab84c43b5d29d27eeff8d634508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 04/24] fix: pad deleted saves with +inf when solving backwards
 in time

---
 diffrax/_integrate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 2c25ee5..b736f92 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1303,7 +1303,7 @@ def diffeqsolve(
             out_size += 1
         saveat_ts_index = 0
         save_index = 0
-        ts = jnp.full(out_size, direction * jnp.inf, dtype=time_dtype)
+        ts = jnp.full(out_size, jnp.inf, dtype=time_dtype)
         struct = eqx.filter_eval_shape(subsaveat.fn, t0, y0, args)
         ys = jtu.tree_map(
             lambda y: jnp.full((out_size,) + y.shape, jnp.inf, dtype=y.dtype), struct
@@ -1488,7 +1488,10 @@ def diffeqsolve(
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        # Unused entries are always padded with positive infinity.
+        lambda s: jnp.where(jnp.isinf(s.ts), jnp.inf, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From c3c7612520bbde6ac7d2ae0e46862ee28ef742c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:28 +0000
Subject: [PATCH 05/24] fix: call event functions with the user's time when
 solving backwards in time

---
 diffrax/_integrate.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index b736f92..b30534e 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -114,6 +114,28 @@ def _is_none(x: Any) -> bool:
     return x is None
 
 
+class _DirectedCondFn(eqx.Module):
+    # Internally we always solve forwards in time. User-provided event functions should
+    # see time as the user specified it.
+    cond_fn: Callable
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        is_wrap = lambda x: isinstance(x, WrapTerm)
+        return self.cond_fn(
+            t * self.direction,
+            y,
+            args,
+            terms=jtu.tree_map(
+                lambda x: x.term if is_wrap(x) else x, terms, is_leaf=is_wrap
+            ),
+            t0=t0 * self.direction,
+            t1=t1 * self.direction,
+            dt0=None if dt0 is None else dt0 * self.direction,
+            **kwargs,
+        )
+
+
 class TermAndSolverIncompatible(ValueError):
     pass
 
@@ -1185,6 +1207,18 @@ def diffeqsolve(
         is_leaf=lambda x: isinstance(x, AbstractTerm) and not isinstance(x, MultiTerm),
     )
 
+    if event is not None:
+        event = eqx.tree_at(
+            lambda e: e.cond_fn,
+            event,
+            jtu.tree_map(
+                lambda fn: _DirectedCondFn(fn, direction),
+                event.cond_fn,
+                is_leaf=callable,
+            ),
+            is_leaf=callable,
+        )
+
     if isinstance(solver, AbstractImplicitSolver):
 
         def _get_tols(x):
-- 
2.43.0


From c0d055635d54f0a27c5c563fb126ef5250cf52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 06/24] fix: do not step backwards or overlong when resuming
 ConstantStepSize elsewhere

---
 diffrax/_step_size_controller/constant.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..5d31459 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -13,7 +13,7 @@ from .base import AbstractStepSizeController
 
 # ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -52,7 +52,7 @@ class ConstantStepSize(
         # infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
         t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0, dt0)
 
     def adapt_step_size(
         self,
@@ -73,7 +73,13 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        (
+            steps_already_completed,
+            num_steps,
+            t0_sim,
+            t1_sim_or_dt0,
+            dt0,
+        ) = controller_state
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
 
@@ -89,6 +95,12 @@ class ConstantStepSize(
         # floating-point weirdness in the above. (Not sure if necessary?)
         t1_next = jnp.where(steps_completed == num_steps, t1_sim_or_dt0, t1_next)
 
+        # If we were passed a `diffeqsolve(..., controller_state=...)` that came from
+        # solving over some other interval, then the above need not follow on from our
+        # current position. In this case just make another step of size `dt0`.
+        step = t1_next - t1
+        t1_next = jnp.where((step > 0) & (step < 1.5 * dt0), t1_next, t1 + dt0)
+
         # If `num_steps == -1` then we use that as a marker to indicate that we have an
         # infinite `diffeqsolve(..., t1=...)`. In this case then never mind everything
         # above, we really do just want to keep adding on `dt0` multiple times.
@@ -99,7 +111,7 @@ class ConstantStepSize(
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0, dt0),
             RESULTS.successful,
         )
 
-- 
2.43.0


From e0100e93416c7d090a98396b610fdf72cd1754dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 07/24] fix: evaluate interpolation increments for
 PyTree-valued solutions

---
 diffrax/_global_interpolation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
-- 
2.43.0


From b84b6550ffa3fe6adb28d6bc1265cfb7284db4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:32 +0000
Subject: [PATCH 08/24] fix: batch elements without an event keep their own
 final time and state

---
 diffrax/_integrate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index b30534e..5280afc 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -806,6 +806,12 @@ def loop(
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
+            # Batch elements without an event finish wherever they got to, which need
+            # not be the end of the most recent step. (If that step was rejected.)
+            _keep = lambda a, b: jnp.where(event_happened, a, b)
+            _tfinal = _keep(_tfinal, final_state.tprev)
+            _yfinal = jtu.tree_map(_keep, _yfinal, final_state.y)
+            _result = RESULTS.where(event_happened, _result, result)
             return _tfinal, _yfinal, _result
 
         # Fastpath: if no event happened anywhere at all, then skip the root-find
-- 
2.43.0


From f27cbe25942fe0f56dfec7389e1d5baaf877e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:42 +0000
Subject: [PATCH 09/24] fix: SRK solvers must use the drift's control, so that
 solving backwards in time works

---
 diffrax/_solver/srk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/srk.py b/diffrax/_solver/srk.py
index ddb0309..cd25187 100644
--- a/diffrax/_solver/srk.py
+++ b/diffrax/_solver/srk.py
@@ -361,7 +361,10 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             ignore_stage_g = jnp.array(self.tableau.ignore_stage_g)
 
         # time increment
+        # The control of the drift is `t1 - t0` when solving forwards in time, and its
+        # negative when solving backwards in time.
         h = t1 - t0
+        drift_contr = drift.contr(t0, t1)
 
         # First the drift related stuff
         a = self._embed_a_lower(self.tableau.a, dtype)
@@ -545,7 +548,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             z_j = (y0**ω + _drift_result**ω + _diffusion_result**ω).ω
 
             def compute_and_insert_kf_j(_h_kfs_in):
-                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h)
+                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, drift_contr)
                 return insert_jth_stage(_h_kfs_in, h_kf_j, j)
 
             if ignore_stage_f is None:
-- 
2.43.0


From a983b70b93c9d5ec1913b8654f930c23c30f08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 10/24] =?UTF-8?q?fix:=20space-time=20L=C3=A9vy=20area=20is?=
 =?UTF-8?q?=20not=20negated=20when=20solving=20backwards=20in=20time?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 diffrax/_term.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..a1aca24 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,13 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        control = self.term.contr(_t0, _t1, **kwargs)
+        reversed_control = (self.direction * control**ω).ω
+        if isinstance(control, AbstractSpaceTimeLevyArea):
+            # Reversing time negates the increments of a path, but not its space-time
+            # Lévy area: how far the path is, on average, from its chord.
+            reversed_control = eqx.tree_at(lambda c: c.H, reversed_control, control.H)
+        return reversed_control
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From b2ff2ee7c1c11e1f5be569354527ef26accc2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:02 +0000
Subject: [PATCH 11/24] fix: HalfSolver can wrap implicit solvers

---
 diffrax/_integrate.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 5280afc..22de205 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -50,6 +50,7 @@ from ._solver import (
     AbstractItoSolver,
     AbstractSolver,
     AbstractStratonovichSolver,
+    AbstractWrappedSolver,
     Euler,
     EulerHeun,
     ItoMilstein,
@@ -1227,24 +1228,28 @@ def diffeqsolve(
 
     if isinstance(solver, AbstractImplicitSolver):
 
+        def _get_root_finder(s):
+            # `isinstance(HalfSolver(...), AbstractImplicitSolver)` looks at the wrapped
+            # solver; so must we.
+            while isinstance(s, AbstractWrappedSolver):
+                s = s.solver
+            return cast(AbstractImplicitSolver, s).root_finder
+
         def _get_tols(x):
             outs = []
             for attr in ("rtol", "atol", "norm"):
-                if (
-                    getattr(cast(AbstractImplicitSolver, solver).root_finder, attr)
-                    is use_stepsize_tol
-                ):
+                if getattr(_get_root_finder(solver), attr) is use_stepsize_tol:
                     outs.append(getattr(x, attr))
             return tuple(outs)
 
         if isinstance(stepsize_controller, AbstractAdaptiveStepSizeController):
             solver = eqx.tree_at(
-                lambda s: _get_tols(s.root_finder),
+                lambda s: _get_tols(_get_root_finder(s)),
                 solver,
                 _get_tols(stepsize_controller),
             )
         else:
-            if len(_get_tols(solver.root_finder)) > 0:
+            if len(_get_tols(_get_root_finder(solver))) > 0:
                 raise ValueError(
                     "A fixed step size controller is being used alongside an implicit "
                     "solver, but the tolerances for the implicit solver have not been "
-- 
2.43.0


From 7a6c273b11d031921ae48fbdc28db84e6f6e08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:55 +0000
Subject: [PATCH 12/24] fix: ImplicitEuler and HalfSolver reject steps whose
 nonlinear solve failed

---
 diffrax/_solver/base.py           | 6 +++++-
 diffrax/_solver/implicit_euler.py | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index d4a476e..12288af 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -27,7 +27,7 @@ from jaxtyping import PyTree
 from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF, Y
 from .._heuristics import is_sde
 from .._local_interpolation import AbstractLocalInterpolation
-from .._solution import RESULTS, update_result
+from .._solution import is_okay, RESULTS, update_result
 from .._term import AbstractTerm, MultiTerm
 
 
@@ -337,6 +337,10 @@ class HalfSolver(
 
         y_error = (y1**ω - y1_alt**ω).call(jnp.abs).ω
         result = update_result(result1, update_result(result2, result3))
+        # If any of the steps failed then the overall step must be rejected.
+        y_error = jtu.tree_map(
+            lambda _y_error: jnp.where(is_okay(result), _y_error, jnp.inf), y_error
+        )
 
         return y1, y_error, dense_info, solver_state, result
 
diff --git a/diffrax/_solver/implicit_euler.py b/diffrax/_solver/implicit_euler.py
index 68477c7..4b42b6f 100644
--- a/diffrax/_solver/implicit_euler.py
+++ b/diffrax/_solver/implicit_euler.py
@@ -1,6 +1,8 @@
 from collections.abc import Callable
 from typing import ClassVar, TypeAlias
 
+import jax.numpy as jnp
+import jax.tree_util as jtu
 import optimistix as optx
 from equinox.internal import ω
 
@@ -8,7 +10,7 @@ from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF,
 from .._heuristics import is_sde
 from .._local_interpolation import LocalLinearInterpolation
 from .._root_finder import with_stepsize_controller_tols
-from .._solution import RESULTS
+from .._solution import is_okay, RESULTS
 from .._term import AbstractTerm
 from .base import AbstractAdaptiveSolver, AbstractImplicitSolver
 
@@ -97,6 +99,10 @@ class ImplicitEuler(AbstractImplicitSolver, AbstractAdaptiveSolver):
         dense_info = dict(y0=y0, y1=y1)
         solver_state = None
         result = RESULTS.promote(nonlinear_sol.result)
+        # If the nonlinear solve failed then the step must be rejected.
+        y_error = jtu.tree_map(
+            lambda _y_error: jnp.where(is_okay(result), _y_error, jnp.inf), y_error
+        )
         return y1, y_error, dense_info, solver_state, result
 
     def func(
-- 
2.43.0


From 1510105bcec63d482c256b21476e2f18e06a7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:52 +0000
Subject: [PATCH 13/24] fix: backward_hermite_coefficients is continuous across
 missing data

---
 diffrax/_global_interpolation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..3f74ff3 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -663,13 +663,14 @@ def _hermite_coeffs(t0, y0, deriv0, t1, y1):
 
 def _hermite_impl(prev_ti, prev_yi, prev_deriv_i, ti, next_ti, next_yi):
     d, c, b, a = _hermite_coeffs(prev_ti, prev_yi, prev_deriv_i, next_ti, next_yi)
-    ts = jnp.stack([prev_ti, next_ti])
-    interpolation = CubicInterpolation(
-        ts=ts, coeffs=(d[None], c[None], b[None], a[None])
-    )
-    interp_yi = interpolation.evaluate(ti)
-    interp_deriv_i = interpolation.derivative(ti)
-    return _hermite_coeffs(ti, interp_yi, interp_deriv_i, next_ti, next_yi)
+    # Expand the same cubic around `ti`. (Which differs from `prev_ti` if the value at
+    # `ti` is missing.)
+    with jax.numpy_dtype_promotion("standard"):
+        h = ti - prev_ti
+        a = a + h * (b + h * (c + h * d))
+        b = b + h * (2 * c + h * 3 * d)
+        c = c + h * 3 * d
+    return d, c, b, a
 
 
 def _backward_hermite_coefficients(
-- 
2.43.0


From faeae8445ca46e25735dee68b4bd08cf1c6f6630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:52 +0000
Subject: [PATCH 14/24] fix: backward_hermite_coefficients does not replace an
 observed initial value

---
 diffrax/_global_interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 3f74ff3..1c10dba 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -699,6 +699,7 @@ def _backward_hermite_coefficients(
         y0 = ys[0]
     else:
         y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+        y0 = jnp.where(jnp.isnan(ys[0]), y0, ys[0])
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From 46e2841559b49dda6ddfb2940fe1135ba7cb4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:38 +0000
Subject: [PATCH 15/24] fix: backward_hermite_coefficients fills forward prior
 to fitting the spline

---
 diffrax/_global_interpolation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 1c10dba..12deb39 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -687,19 +687,22 @@ def _backward_hermite_coefficients(
 ]:
     ts = left_broadcast_to(ts, ys.shape)
 
-    _, (next_ts, next_ys) = lax.scan(
-        _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
-    )
-
-    if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
-
     t0 = ts[0]
     if replace_nans_at_start is None:
         y0 = ys[0]
     else:
         y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
         y0 = jnp.where(jnp.isnan(ys[0]), y0, ys[0])
+
+    if fill_forward_nans_at_end:
+        # Must happen prior to fitting the spline.
+        ys = ys.at[0].set(y0)
+        is_nan_at_end = lax.cumprod(jnp.isnan(ys).astype(int), reverse=True)
+        ys = jnp.where(is_nan_at_end == 1, fill_forward(ys), ys)
+
+    _, (next_ts, next_ys) = lax.scan(
+        _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
+    )
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From cc0c655d10f72bfae1f4edcc5803eab4229c9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 16/24] fix: dt of VirtualBrownianTree increments with PyTree
 shape

---
 diffrax/_brownian/tree.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..9293ad4 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,10 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # Note that `x.dt` is a PyTree if `self.shape` is.
+        dt_normalized = jtu.tree_map(mult, x.dt)
+        other_normalized = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda z: z.dt, other_normalized, dt_normalized)
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From 8a385d2f7ce90f56584f8f2d7e0adabae6b52719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:44 +0000
Subject: [PATCH 17/24] fix: HalfSolver around a Runge-Kutta method works with
 DirectAdjoint and ForwardMode

---
 diffrax/_adjoint.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..b2e2145 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -21,6 +21,7 @@ from ._solver import (
     AbstractRungeKutta,
     AbstractSRK,
     AbstractStratonovichSolver,
+    AbstractWrappedSolver,
 )
 from ._term import AbstractTerm, AdjointTerm
 
@@ -36,6 +37,21 @@ def _is_subsaveat(x: Any) -> bool:
     return isinstance(x, SubSaveAt)
 
 
+def _set_scan_kind(solver, kind):
+    # `isinstance(HalfSolver(...), AbstractRungeKutta)` looks at the wrapped solver; so
+    # must we.
+    if isinstance(solver, AbstractWrappedSolver):
+        return eqx.tree_at(
+            lambda s: s.solver, solver, _set_scan_kind(solver.solver, kind)
+        )
+    if (
+        isinstance(solver, (AbstractRungeKutta, AbstractSRK))
+        and solver.scan_kind is None
+    ):
+        return eqx.tree_at(lambda s: s.scan_kind, solver, kind, is_leaf=_is_none)
+    return solver
+
+
 def _nondiff_solver_controller_state(
     adjoint, init_state, passed_solver_state, passed_controller_state
 ):
@@ -380,13 +396,7 @@ class DirectAdjoint(AbstractAdjoint):
             msg = None
         # Support forward-mode autodiff.
         # TODO: remove this hack once we can JVP through custom_vjps.
-        if (
-            isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
-        ):
-            solver = eqx.tree_at(
-                lambda s: s.scan_kind, solver, "bounded", is_leaf=_is_none
-            )
+        solver = _set_scan_kind(solver, "bounded")
         inner_while_loop = ft.partial(_inner_loop, kind=kind)
         outer_while_loop = ft.partial(_outer_loop, kind=kind)
         final_state = self._loop(
@@ -903,11 +913,7 @@ class ForwardMode(AbstractAdjoint):
         outer_while_loop = eqx.Partial(_outer_loop, kind="lax")
         # Support forward-mode autodiff.
         # TODO: remove this hack once we can JVP through custom_vjps.
-        if (
-            isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
-        ):
-            solver = eqx.tree_at(lambda s: s.scan_kind, solver, "lax", is_leaf=_is_none)
+        solver = _set_scan_kind(solver, "lax")
         final_state = self._loop(
             solver=solver,
             inner_while_loop=inner_while_loop,
-- 
2.43.0


From 95b610e6116171964f03d184f6d9642943b11091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:41 +0000
Subject: [PATCH 18/24] fix: VeryChord does not report divergence for
 increments that are rounding error

---
 diffrax/_root_finder/_verychord.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_root_finder/_verychord.py b/diffrax/_root_finder/_verychord.py
index 385a2cb..e54f928 100644
--- a/diffrax/_root_finder/_verychord.py
+++ b/diffrax/_root_finder/_verychord.py
@@ -157,7 +157,10 @@ class VeryChord(optx.AbstractRootFinder):
         at_least_two = state.step >= 2
         rate = state.diffsize / state.diffsize_prev
         factor = state.diffsize * rate / (1 - rate)
-        small = _small(state.diffsize)
+        # If both increments are already negligible compared to the tolerances, then they
+        # may be nothing but rounding error, in which case `rate` is meaningless.
+        negligible = (state.diffsize < self.kappa) & (state.diffsize_prev < self.kappa)
+        small = _small(state.diffsize) | negligible
         diverged = _diverged(rate)
         converged = _converged(factor, self.kappa)
         terminate = at_least_two & (small | diverged | converged)
-- 
2.43.0


From d7b2cfcf5edc8a90441c2e1c32bea1d4fd188614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 19/24] fix: Langevin solvers: choose the Taylor expansion by
 the magnitude of h * gamma

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..09c9acb 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -197,7 +197,7 @@ class AbstractFosterLangevinSRK(
             # c is a leaf of gamma
             # Depending on the size of h*gamma choose whether the Taylor expansion or
             # direct computation is more accurate.
-            cond = h * c < self.taylor_threshold
+            cond = jnp.abs(h * c) < self.taylor_threshold
             tay_out = self._eval_taylor(h, _tay_coeffs)
             if cond.ndim < jtu.tree_leaves(tay_out)[0].ndim:
                 # This happens when c is a scalar
-- 
2.43.0


From 8c6aceb3f7c7053b137dac6f6172fda38555f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 20/24] fix: Langevin solvers: no re-evaluation on a jump for
 non-FSAL solvers

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index 09c9acb..537f486 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -404,7 +404,7 @@ class AbstractFosterLangevinSRK(
             )
 
         x0, v0 = y0
-        if made_jump is False:
+        if not self._is_fsal or made_jump is False:
             prev_f = st.prev_f
         else:
             prev_f = lax.cond(
-- 
2.43.0


From a25a8c1cb09f4be028814e10c99722600095b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 21/24] fix: DirectAdjoint: forward-mode autodifferentiation of
 SRK solvers

---
 diffrax/_adjoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index b2e2145..07a2093 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -48,6 +48,10 @@ def _set_scan_kind(solver, kind):
         isinstance(solver, (AbstractRungeKutta, AbstractSRK))
         and solver.scan_kind is None
     ):
+        if isinstance(solver, AbstractSRK) and kind == "bounded":
+            # These use a scan of known length, for which there is no bounded loop. A
+            # `lax.scan` may be both forward- and reverse-mode autodifferentiated.
+            kind = "lax"
         return eqx.tree_at(lambda s: s.scan_kind, solver, kind, is_leaf=_is_none)
     return solver
 
-- 
2.43.0


From c351fdea0a488c478bf0d1c00213d90c6839962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 22/24] fix: BacksolveAdjoint: do not carry solver state across
 the jump made by adding a cotangent

---
 diffrax/_adjoint.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 07a2093..b86f5ec 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -659,7 +659,7 @@ def _loop_backsolve_bwd(
 
     def _scan_fun(_state, _vals, first=False):
         _t1, _t0, _y0, _grad_y0 = _vals
-        _a0, _solver_state, _controller_state = _state
+        _a0, _controller_state = _state
         _a_y0, _a_diff_args0, _a_diff_term0 = _a0
         _a_y0 = (_a_y0**ω + _grad_y0**ω).ω
         _aug0 = (_y0, _a_y0, _a_diff_args0, _a_diff_term0)
@@ -668,10 +668,12 @@ def _loop_backsolve_bwd(
             t0=_t0,
             t1=_t1,
             y0=_aug0,
-            solver_state=_solver_state,
+            # Adding _grad_y0, above, is a jump. A solver's state may include the value
+            # of y at previous times, so we must start it afresh.
+            solver_state=None,
             controller_state=_controller_state,
-            made_jump=not first,  # Adding _grad_y0, above, is a jump.
-            saveat=SaveAt(t1=True, solver_state=True, controller_state=True),
+            made_jump=not first,
+            saveat=SaveAt(t1=True, controller_state=True),
             **kwargs,
         )
 
@@ -682,12 +684,11 @@ def _loop_backsolve_bwd(
         _aug1 = ω(_sol.ys).call(__get).ω
         _, _a_y1, _a_diff_args1, _a_diff_term1 = _aug1
         _a1 = (_a_y1, _a_diff_args1, _a_diff_term1)
-        _solver_state = _sol.solver_state
         _controller_state = _sol.controller_state
 
-        return (_a1, _solver_state, _controller_state), None
+        return (_a1, _controller_state), None
 
-    state = ((zeros_like_y, zeros_like_diff_args, zeros_like_diff_terms), None, None)
+    state = ((zeros_like_y, zeros_like_diff_args, zeros_like_diff_terms), None)
     del zeros_like_y, zeros_like_diff_args, zeros_like_diff_terms
 
     # We always start backpropagating from `ts[-1]`.
@@ -697,7 +698,7 @@ def _loop_backsolve_bwd(
     # SaveaAt(t0=...) on the forward pass.)
     #
     # For some of these options, we run _scan_fun once outside the loop to get access
-    # to solver_state etc. of the correct PyTree structure.
+    # to controller_state of the correct PyTree structure.
     if saveat_t0:
         if len(ts) > 2:
             val0 = (ts[-2], ts[-1], ω(ys)[-1].ω, ω(grad_ys)[-1].ω)
@@ -719,7 +720,7 @@ def _loop_backsolve_bwd(
             val = (ts[0], ts[1], ω(ys)[1].ω, ω(grad_ys)[1].ω)
             state, _ = _scan_fun(state, val, first=True)
 
-        aug1, _, _ = state
+        aug1, _ = state
         a_y1, a_diff_args1, a_diff_terms1 = aug1
         a_y1 = (ω(a_y1) + ω(grad_ys)[0]).ω
 
@@ -742,7 +743,7 @@ def _loop_backsolve_bwd(
             val = (t0, ts[0], ω(ys)[0].ω, ω(grad_ys)[0].ω)
             state, _ = _scan_fun(state, val, first=True)
 
-        aug1, _, _ = state
+        aug1, _ = state
         a_y1, a_diff_args1, a_diff_terms1 = aug1
 
     return a_y1, a_diff_args1, a_diff_terms1
-- 
2.43.0


From 13439e68a3eb7beac29a79b7593d9efa9bffcda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 23/24] fix: interpolation data times that are NaN are refused,
 as documented

---
 diffrax/_global_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 12deb39..d2f2c55 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -411,7 +411,9 @@ def _check_ts(ts: Real[Array, " times"]) -> Real[Array, " times"]:
         raise ValueError(f"`ts` must be of length at least 2; got {ts.shape[0]}")
     # Also catches any NaN times.
     ts = eqxi.error_if(
-        ts, ts[:-1] >= ts[1:], "`ts` must be monotonically strictly increasing."
+        ts,
+        jnp.invert(ts[:-1] < ts[1:]),
+        "`ts` must be monotonically strictly increasing.",
     )
     return ts
 
-- 
2.43.0


From 7a5ba5ad164123410b080b87d54888d073030f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 24/24] fix: batched FSAL Runge-Kutta: other batch elements no
 longer decide whether an element reuses its last stage

---
 diffrax/_solver/runge_kutta.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/runge_kutta.py b/diffrax/_solver/runge_kutta.py
index 9473ab4..1db29f0 100644
--- a/diffrax/_solver/runge_kutta.py
+++ b/diffrax/_solver/runge_kutta.py
@@ -684,8 +684,10 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
         if fsal:
             assert solver_state is not None
             first_step, f0 = solver_state
-            eval_first_stage = eqxi.unvmap_any(first_step | made_jump)
+            need_first_stage = first_step | made_jump
+            eval_first_stage = eqxi.unvmap_any(need_first_stage)
             init_stage_index = jnp.where(eval_first_stage, 0, 1)
+            stored_f0 = f0
             # We do `fs.at[0].set(f0)` below. If we're actually going to evaluate the
             # first stage, then zero out `f0` so that that is a no-op.
             f0 = jtu.tree_map(lambda x: jnp.where(eval_first_stage, 0, x), f0)
@@ -1025,6 +1027,11 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
                 assert not vf_expensive
                 assert implicit_fi is not _unused
                 fi = vf(ti, yi, implicit_val=implicit_fi)
+                if fsal:
+                    # A batch evaluates its first stage if any of its elements need to.
+                    # The other elements must not be affected by this.
+                    use_stored = (stage_index == 0) & jnp.invert(need_first_stage)
+                    fi = f_map(ft.partial(jnp.where, use_stored), stored_f0, fi)
                 if store_fs:
                     ki = _unused
                 else:
-- 
2.43.0

