From c416a1961d9ab4946204028a2492b8c9f89e503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 01/23] fix: give point-mass integrators an (identity)
 orientation so that they can be instantiated

---
 safe_autonomy_dynamics/integrators.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..99e7aa3 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -85,6 +86,20 @@ class BaseIntegrator(BaseEntity):
         """Get velocity vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """
+        Get orientation of the integrator, which is always an identity rotation as a point mass model doesn't rotate.
+
+        Returns
+        -------
+        scipy.spatial.transform.Rotation
+            Rotation transformation of the entity's local reference frame basis vectors in the global reference frame.
+            i.e. applying this rotation to [1, 0, 0] yields the entity's local x-axis in the global frame.
+        """
+        # always return a no rotation quaternion as points do not have an orientation
+        return Rotation.from_quat([0, 0, 0, 1])
+
 
 class Integrator1d(BaseIntegrator):
     """
-- 
2.43.0


From 83a0f2914aa38d448d83abe9a9234a7cb774978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 02/23] fix: map each named integrator thruster to its own
 control axis

---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 99e7aa3..c5f234c 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -226,7 +226,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -324,8 +324,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From ae641eec2fa66d8280daba6e958799aeb95fc565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 03/23] fix: let 2d and 3d integrators compare equal to
 entities of their own kind

---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index c5f234c..250893a 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -232,7 +232,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -331,7 +331,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From dbb336ec34f52d8516483656ffaece942a1361af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 04/23] fix: convert number lists to arrays by value, not by
 using them as an array shape

---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From ce62d6a936b469c52588674771776e5af665e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 05/23] fix: wrap angles congruently about a nonzero wrap
 center

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From ec4e98c9169f0c394c8ac4d332fdf0ce02e3256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 06/23] fix: apply state and rate limits in RK45_JAX
 integration as in the other methods

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..9ded568 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -600,7 +600,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From 0118add6928cd765ee9ef2c14c35ac68d23fcfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/23] fix: evaluate the derivative within state limits so
 saturated states do not drive motion

---
 safe_autonomy_dynamics/base_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 9ded568..61c58fe 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -538,6 +538,8 @@ class BaseODESolverDynamics(BaseDynamics):
         np.ndarray
             Instantaneous time derivative of the state vector.
         """
+        # states cannot leave their limits, so neither can the state the derivative is evaluated at
+        state = self.np.clip(state, self.state_min, self.state_max)
         state_dot = self._compute_state_dot(t, state, control)
         state_dot = self._clip_state_dot_direct(state_dot)
         state_dot = self._clip_state_dot_by_state_limits(state, state_dot)
-- 
2.43.0


From 98d04c956a5cd4b46acb95343854f039002b3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 08/23] fix: report the derivative at the end of the step with
 Euler integration

---
 safe_autonomy_dynamics/base_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 61c58fe..99281f0 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -592,8 +592,8 @@ class BaseODESolverDynamics(BaseDynamics):
             state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
-            state_dot = self.compute_state_dot(0, state, control)
-            next_state = state + step_size * state_dot
+            next_state = state + step_size * self.compute_state_dot(0, state, control)
+            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-- 
2.43.0


From 445c9843472ad340dcea903c8c96c89fb403776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 09/23] fix: raise on non-finite derivatives and failed
 integration instead of hanging or stepping short

---
 safe_autonomy_dynamics/base_models.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 99281f0..84a47d3 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -572,7 +572,9 @@ class BaseODESolverDynamics(BaseDynamics):
             if self.trajectory_samples > 0:
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
 
-            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
+            sol = scipy.integrate.solve_ivp(self._compute_finite_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
+            if not sol.success:
+                raise RuntimeError(f"integration of the step failed: {sol.message}")
 
             self.trajectory = sol.y.T
             self.trajectory_t = sol.t
@@ -599,6 +601,14 @@ class BaseODESolverDynamics(BaseDynamics):
 
         return next_state, state_dot
 
+    def _compute_finite_state_dot(self, t, state, control):
+        """Compute state dot for solve_ivp, which never returns when given a non-finite derivative
+        """
+        state_dot = self.compute_state_dot(t, state, control)
+        if not np.all(np.isfinite(state_dot)):
+            raise ValueError(f"non-finite state derivative {state_dot} at state {state} with control {control}")
+        return state_dot
+
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-- 
2.43.0


From f0a42b2513c14032af49d03e11c716f03780c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 10/23] fix: keep Dubins acceleration defined at zero speed

---
 safe_autonomy_dynamics/dubins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/dubins.py b/safe_autonomy_dynamics/dubins.py
index 8f8b0d1..3dbf0a2 100644
--- a/safe_autonomy_dynamics/dubins.py
+++ b/safe_autonomy_dynamics/dubins.py
@@ -391,7 +391,7 @@ class Dubins2dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[3]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        acc = acc * self.orientation.apply([1, 0, 0])  # acc * unit velocity
         return acc
 
 
@@ -641,7 +641,7 @@ class Dubins3dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[6]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        acc = acc * self.orientation.apply([1, 0, 0])  # acc * unit velocity
         return acc
 
 
-- 
2.43.0


From 484757594675128a3a08cf3e956f99e6666550f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 11/23] fix: start a SixDOFSpacecraft without a given attitude
 at the identity rotation

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..1517431 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -251,6 +251,8 @@ class SixDOFSpacecraft(BaseRotationEntity):  # pylint: disable=too-many-public-m
             [self.config.x_dot, self.config.y_dot, self.config.z_dot] + [self.config.wx, self.config.wy, self.config.wz],
             dtype=np.float32
         )
+        if not state[3:7].any():
+            state[6] = 1  # no attitude given, body frame starts aligned with Hill's frame
 
         return state
 
-- 
2.43.0


From b8fbe4e2b51c4dd93c27d5004bcc6f670c0c6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 12/23] fix: let SafetyLimitsVerifier check results without
 controller integrators

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..9f28441 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -294,7 +294,7 @@ class SafetyLimitsVerifier(Freezable):
             _vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                *_ = results['states'][i]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From c9362c64226affbb407bbad0d98b46ecb6a46f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 13/23] fix: check the airspeed limits in SafetyLimitsVerifier

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 9f28441..b8d2b99 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -291,7 +291,7 @@ class SafetyLimitsVerifier(Freezable):
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
         for i in range(results['states'].size // num_state_vars):
-            _vt, alpha, beta, _phi, \
+            vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
                 *_ = results['states'][i]
@@ -308,6 +308,11 @@ class SafetyLimitsVerifier(Freezable):
                     f"Nz ({nz}) is not within the specified limits \
                         ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."
 
+            if self.safety_limits.v is not None:
+                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \
+                    f"v ({vt}) is not within the specified limits \
+                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."
+
             if self.safety_limits.alpha is not None:
                 assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \
                     f"alpha ({nz}) is not within the specified limits \
-- 
2.43.0


From af09f013d75c8a8101439ecfc7b81a65cf14adc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 14/23] fix: compare sideslip and roll rate in degrees, both
 ways, in SafetyLimitsVerifier

---
 safe_autonomy_dynamics/external/aerobench/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index b8d2b99..a21d430 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -319,7 +319,7 @@ class SafetyLimitsVerifier(Freezable):
                         ({self.safety_limits.alpha[0]}, {self.safety_limits.alpha[1]})."
 
             if self.safety_limits.psMaxAccelDeg is not None:
-                assert ps <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
+                assert abs(np.rad2deg(ps)) <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
 
             if self.safety_limits.betaMaxDeg is not None:
-                assert beta <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
+                assert abs(np.rad2deg(beta)) <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
-- 
2.43.0


From 10f2b01d62e14a420237705aeecd109536a94d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 15/23] fix: copy the given inertia matrix so that spacecraft
 do not share it with the caller and each other

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index 1517431..abcba8c 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -449,7 +449,7 @@ class SixDOFDynamics(BaseControlAffineODESolverDynamics):
         **kwargs
     ):
         self.m = m  # kg
-        self.inertia_matrix = inertia_matrix  # kg*m^2
+        self.inertia_matrix = np.copy(inertia_matrix)  # kg*m^2
         self.n = n  # rads/s
         self.body_frame_thrust = body_frame_thrust
         self.control_thrust_Hill = np.zeros(3, )
-- 
2.43.0


From 8e35e0cdf2ecaa8269d4babc089b427d3832ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 16/23] fix: allow zero-length steps while sampling
 trajectories

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 84a47d3..267dd70 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -569,7 +569,7 @@ class BaseODESolverDynamics(BaseDynamics):
         if self.integration_method == "RK45":
 
             t_eval = None
-            if self.trajectory_samples > 0:
+            if self.trajectory_samples > 0 and step_size != 0:
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
 
             sol = scipy.integrate.solve_ivp(self._compute_finite_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
-- 
2.43.0


From 240b5493520b8b629e912f15af833114e551490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 17/23] fix: keep Euler interpolants valid when the integrator
 steps on

---
 safe_autonomy_dynamics/external/aerobench/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index a21d430..96d3dec 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -116,12 +116,16 @@ class Euler(Freezable):
 
         dydt = dy / dt
 
+        # later steps must not change an interpolant already returned
+        tprev = self.tprev
+        yprev = self.yprev
+
         def fun(t):
             """return state at time t (linear interpolation)"""
 
-            deltat = t - self.tprev
+            deltat = t - tprev
 
-            return self.yprev + dydt * deltat
+            return yprev + dydt * deltat
 
         return fun
 
-- 
2.43.0


From 10c1bf43a5644f32ea12e2120abed212e1a045ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 18/23] fix: report no motion of a state held between equal
 limits

---
 safe_autonomy_dynamics/base_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 267dd70..7d7917c 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -557,9 +557,9 @@ class BaseODESolverDynamics(BaseDynamics):
         upper_bounded_states = state >= self.state_max
 
         lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)
-        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
-
         state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
+
+        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
         state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)
 
         return state_dot
-- 
2.43.0


From 52d77cb75b47b5307e6d1f4c3f3be556f039ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 19/23] fix: print a matrix under its own label

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 96d3dec..d7289aa 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -150,7 +150,7 @@ def printmat(mat, main_label, row_label_str, col_label_str):
     if len(mat.shape) == 1:
         mat.shape = (1, mat.shape[0])  # one-row matrix
 
-    print("{main_label} =")
+    print(f"{main_label} =")
 
     row_labels = None if row_label_str is None else row_label_str.split(' ')
     col_labels = col_label_str.split(' ')
-- 
2.43.0


From 25c5475ea2e3f4ae7b4d90cb74b781ff431c334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 20/23] fix: give each F-16 controller its own trim point

---
 .../external/aerobench/lowlevel/low_level_controller.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py b/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py
index 274effc..506c095 100644
--- a/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py
+++ b/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py
@@ -62,8 +62,8 @@ class LowLevelController(Freezable):
         self.K_lqr[1:, 3:] = K_lat
 
         # equilibrium points from BuildLqrControllers.py
-        self.xequil = LowLevelController.old_xequil
-        self.uequil = LowLevelController.old_uequil
+        self.xequil = LowLevelController.old_xequil.copy()
+        self.uequil = LowLevelController.old_uequil.copy()
 
         self.ctrlLimits = CtrlLimits()
 
-- 
2.43.0


From 1a72cab236af1b44e1dee6bb6f276bfb69a44523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 21/23] fix: do not truncate F-16 derivatives to integers for
 integer-valued states

---
 .../external/aerobench/lowlevel/low_level_controller.py       | 2 +-
 .../external/aerobench/lowlevel/subf16_model.py               | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py b/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py
index 506c095..9a631bd 100644
--- a/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py
+++ b/safe_autonomy_dynamics/external/aerobench/lowlevel/low_level_controller.py
@@ -73,7 +73,7 @@ class LowLevelController(Freezable):
         'get the reference commands for the control surfaces'
 
         # Calculate perturbation from trim state
-        x_delta = f16_state.copy()
+        x_delta = np.array(f16_state, dtype=float)
         x_delta[:len(self.xequil)] -= self.xequil
 
         ## Implement LQR Feedback Control
diff --git a/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py b/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py
index 7762822..7799298 100644
--- a/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py
+++ b/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py
@@ -35,6 +35,8 @@ outputs aircraft state vector derivative
 
 from math import cos, pi, sin
 
+import numpy as np
+
 from safe_autonomy_dynamics.external.aerobench.lowlevel.adc import adc
 from safe_autonomy_dynamics.external.aerobench.lowlevel.cl import cl
 from safe_autonomy_dynamics.external.aerobench.lowlevel.cm import cm
@@ -87,7 +89,7 @@ def subf16_model(x, u, model, adjust_cy=True):
     rtod = 57.29578
     g = 32.17
 
-    xd = x.copy()
+    xd = np.array(x, dtype=float)
     vt = x[0]
     alpha = x[1] * rtod
     beta = x[2] * rtod
-- 
2.43.0


From e8301df928834e98d4466fe61913bdb917b9dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 22/23] fix: keep states set as integers from truncating
 components set later

---
 safe_autonomy_dynamics/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 7d7917c..8904c17 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -210,7 +210,8 @@ class BaseEntity(abc.ABC):
 
     @state.setter
     def state(self, value: np.ndarray):
-        self._state = value.copy()
+        # an integer state vector would truncate components set later
+        self._state = value.copy() if np.issubdtype(value.dtype, np.inexact) else value.astype(float)
 
     @property
     @abc.abstractmethod
-- 
2.43.0


From 47c702920c8e6e44b429e1a665b96157e15d5903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 23/23] fix: do not truncate named controls when the neutral
 control is integer-valued

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 8904c17..008d020 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -170,7 +170,7 @@ class BaseEntity(abc.ABC):
             if isinstance(action, dict):
                 assert self.control_map is not None, "Cannot use dict-type action without a control_map " \
                                                      "(see BaseEntity __init__())"
-                control = self.control_default.copy()
+                control = np.array(self.control_default, dtype=float)
                 for action_name, action_value in action.items():
                     if action_name not in self.control_map:
                         raise KeyError(
-- 
2.43.0

