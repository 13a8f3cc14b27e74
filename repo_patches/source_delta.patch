From 38f8941ab52bdd2a49b7b3e00fc2a6311ddd3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 01/37] fix: update_parameters counted the batch dimension of
 the current value

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..2634e50 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = cur_value.shape[-1]
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From 5908ef3f69ee5c228275c8437947c3cad69ace3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 02/37] fix: update_parameters wrote part of the values before
 refusing a request

---
 moirae/models/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 2634e50..ebdaa56 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -379,6 +379,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             names = list(k for k, v in self.iter_parameters())
 
         end = pos = 0
+        new_values = []  # Applied only after every name and the total length have been checked
         for name in names:
             # Get the associated model, and which attribute to set
             my_names, models = self._get_model_chain(name)
@@ -401,8 +402,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             end = pos + num_params
             if pos + num_params > values.shape[-1]:
                 raise ValueError(f'Required at least {end} values, but only provided {len(values)}')
-            new_value = values[:, pos:end]
-            setattr(model, attr, new_value)
+            new_values.append((model, attr, values[:, pos:end]))
 
             # Increment the starting point for the next parameter
             pos = end
@@ -411,6 +411,9 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
         if end != values.shape[-1]:
             raise ValueError(f'Did not use all parameters. Provided {len(values)}, used {end}')
 
+        for model, attr, new_value in new_values:
+            setattr(model, attr, new_value)
+
     def make_copy(self, values: np.ndarray, names: Optional[Sequence[str]] = None) -> Self:
         """
         Create a copy of the current object with values specified by numpy.ndarray
-- 
2.43.0


From 1bfa8fbc0a0c8419dbf26c7f3e622e4c7f0e8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 03/37] fix: containers kept views of the array passed to
 from_numpy/make_copy

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index ebdaa56..c3617bd 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -535,7 +535,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
-- 
2.43.0


From 45c517cc8392d8398bc3afe62bc1e9a5bfab9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 04/37] fix: RC elements of the default template shared one
 resistance and capacitance

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From ea1e9b7b409f689f555ce40757cb44c12676cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 05/37] fix: SOC-dependent parameters failed when only some of
 their values were batched

---
 moirae/models/ecm/components.py | 8 ++++----
 moirae/models/ecm/utils.py      | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..0ac2c91 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,9 +61,9 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
-        gamma = self.temperature_dependence_factor
+        gamma = self.temperature_dependence_factor[:, :, None]  # shape (gamma_batch, 1, 1)
         deltaT = np.array(temp) - self.reference_temperature
         new_value = reference_value * np.exp(- gamma * deltaT)
         return new_value
@@ -135,9 +135,9 @@ class OpenCircuitVoltage(HealthVariable):
         """
         ocv = self.ocv_ref.get_value(soc=soc)
         if temp is not None:
-            T_ref = self.ocv_ref.reference_temperature
+            T_ref = self.ocv_ref.reference_temperature[:, :, None]  # shape (T_ref_batch, 1, 1)
             delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..7d9e3ae 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -70,7 +70,8 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        # Other parameters (e.g., temperature factors) may be batched differently than the values being interpolated
+        internal_batch_size = self.base_values.shape[0]
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From b93a5bf79b7dde5a1a4b2884d9010fad625b2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 06/37] fix: ECM failed when RC elements have different batch
 sizes

---
 moirae/models/ecm/__init__.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..2528613 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -75,8 +75,10 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            # Batch sizes may differ between elements, so broadcast before stacking
+            tau = np.array(np.broadcast_arrays(*[
+                RC.time_constant(soc=soc_k, temp=temp_k)
+                for RC in asoh.rc_elements]))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -179,11 +181,12 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            # Batch sizes may differ between elements, so broadcast before stacking
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From b09f4be570c514a5f15efa7d35f0a4179ff44192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 07/37] fix: hysteresis moved away from its asymptote, or
 failed, when the current ramps to zero

---
 moirae/models/ecm/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 7d9e3ae..7871465 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -141,12 +141,13 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    # The final current is subject to round-off, particularly when it should be zero
+    i_dt = i0 + (alpha * dt)
+    assert np.all((i0 * i_dt >= 0) | np.isclose(i_dt, 0, atol=1e-8 * (1 + np.abs(i0)))), \
+        'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
-    exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
+    # The current does not change sign, so the charge which passed is the magnitude of the average current times dt
+    exp_factor = -exp_factor * np.abs(i0 + (0.5 * alpha * dt))
     exp_factor = np.exp(exp_factor)
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
-- 
2.43.0


From ab04cb0ff9228a29c02801577e7f69cc26001ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 08/37] fix: linear current behavior failed on steps of zero
 length

---
 moirae/models/ecm/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 2528613..982c902 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -50,8 +50,10 @@ class EquivalentCircuitModel(CellModel):
         current_k = previous_inputs.current  # shape (current_batch, 1)
         temp_k = previous_inputs.temperature  # shape (temp_batch, 1)
         current_kp1 = new_inputs.current  # shape (current_batch, 1)
-        current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' \
-            else (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
+        if self.current_behavior == 'constant' or np.all(delta_t == 0):  # No slope to speak of in a step without length
+            current_slope = np.atleast_2d(0.0)
+        else:
+            current_slope = (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
 
         # We will assume that all health parameters remain constant between time
         # steps, independent of temperature or SOC variations. The value used
@@ -110,7 +112,7 @@ class EquivalentCircuitModel(CellModel):
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
         # We need to figure out if the current changes sign during this process
 
-        if current_k * current_kp1 >= 0 or self.current_behavior == 'constant':
+        if current_k * current_kp1 >= 0 or current_slope == 0:
             hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
                                                     M=M,
                                                     kappa=kappa,
-- 
2.43.0


From 38765d826f757db2795c33834011fba0abc247e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 09/37] fix: a current ramping up from rest used the wrong
 efficiency and hysteresis asymptote

---
 moirae/models/ecm/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 982c902..ef68d04 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -59,8 +59,11 @@ class EquivalentCircuitModel(CellModel):
         # steps, independent of temperature or SOC variations. The value used
         # will be the one at the previous SOC and temperature values.
 
+        # Determine the direction of the current. A current which ramps up from rest has the direction it ramps to
+        direction = np.sign(current_kp1 if current_k == 0 and self.current_behavior != 'constant' else current_k)
+
         # Set Coulombic efficiency to 1. if discharging
-        coul_eff = np.atleast_2d(1) if current_k < 0 else asoh.ce  # shape (ce_batch, 1)
+        coul_eff = np.atleast_2d(1) if direction < 0 else asoh.ce  # shape (ce_batch, 1)
 
         # Update SOC
         soc_k = transient_state.soc.copy()  # shape (soc_batch, 1)
@@ -102,11 +105,8 @@ class EquivalentCircuitModel(CellModel):
         # Needed parameters
         M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
-        # has to be <0. The easiest way to check for that is to multiply by the
-        # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # has to be <0.
+        M = M * direction  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-- 
2.43.0


From d1360ca79f092d7b531074c00e064b6faf97cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 10/37] fix: RC currents did not follow a linearly-varying
 current

---
 moirae/models/ecm/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index ef68d04..2d492c3 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -97,7 +97,9 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            # Relax towards a current ramp which ends at the new current (or towards the new current if there is no ramp)
+            iRC_kp1 = iRC_kp1 + (
+                (1 - exp_factor) * (current_kp1 - (current_slope * (tau + delta_t))))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From 0aa56edbab57fcb6e3eb82bd43890975fe8e14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 11/37] fix: SOC pinpoints could not be read back from JSON

---
 moirae/models/ecm/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 7871465..f124d94 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -1,8 +1,8 @@
-from typing import List, Optional, Union, Literal, Callable, Iterator
+from typing import Any, List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import Field, field_serializer, field_validator
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -18,6 +18,11 @@ class SOCInterpolatedHealth(HealthVariable):
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
 
+    @field_validator('soc_pinpoints', mode='before')
+    @classmethod
+    def _parse_numpy(cls, value: Any) -> Optional[np.ndarray]:
+        return None if value is None else np.array(value)
+
     @field_serializer('soc_pinpoints', when_used='json-unless-none')
     def _serialize_numpy(self, value: np.ndarray):
         return value.tolist()
-- 
2.43.0


From dade025d64efa885550363702a8893e5a6fb95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 12/37] fix: simulator rows were labelled with the wrong batch
 member

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..0fa434b 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))  # Rows are ordered by step then member
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From 6b3546b1973aa7054f1c123cd3e3d472478fc172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 13/37] fix: projection to the nearest positive semi-definite
 matrix multiplied by a vector of singular values

---
 moirae/estimators/online/filters/kalman/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..d77d09b 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -37,7 +37,7 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     """
     # Perform singular value decomposition
     _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
     return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
 
 
-- 
2.43.0


From d5dffac14010c58029b7c619c736cc19a54413ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 14/37] fix: projection of a non-symmetric matrix was not
 always positive semi-definite

---
 moirae/estimators/online/filters/kalman/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index d77d09b..9f51be0 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -35,8 +35,8 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     Args:
         Sig: matrix that should be positive semi-definite but isn't
     """
-    # Perform singular value decomposition
-    _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
+    # Perform singular value decomposition of the symmetric part
+    _, S_diagonal, V_complex_conjugate = np.linalg.svd((Sig + Sig.T) / 2)
     H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
     return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
 
-- 
2.43.0


From 0b461054fe58b8e46fdeb499b67dac443dcfb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 15/37] fix: state of the joint estimator was reported in
 filter coordinates

---
 moirae/estimators/online/joint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..af8431e 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,12 +42,12 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        # Convert from the coordinate system used by the filter
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
-            hidden_states=np.atleast_2d(joint_state.get_mean()))
+            hidden_states=np.atleast_2d(self.filter.hidden.get_mean()))
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 892df6c58dbe3d9e31e83246e83583f110b6fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 16/37] fix: the state of a dual estimator could not be read

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From 324916fe7700bc27ff79d370f34c031209e60513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 17/37] fix: dual estimator assumed every updatable parameter
 is being estimated

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8cf8e69 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,7 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(), names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 76d251e105e3a24eda95f4de66f0c65ad58e9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 18/37] fix: loss failed for batches of parameters

---
 moirae/estimators/offline/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -87,7 +87,7 @@ class MeanSquaredLoss(BaseLoss):
 
         # Prepare the output arrays
         num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
         true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
 
         true_y[0, :] = initial_output.to_numpy()
-- 
2.43.0


From 3b0db41e26f3cfe9531b9cbe64ef3030eec355e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 19/37] fix: model wrappers shared their ASOH, transients and
 inputs with the caller

---
 moirae/estimators/online/utils/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..0520db4 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -66,10 +66,11 @@ class BaseCellWrapper(ModelWrapper):
         if transients.batch_size > 1:
             raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
 
-        self.transients = transients
+        # Store copies so that later changes by the user do not affect the estimation
+        self.transients = transients.model_copy(deep=True)
         self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
 
         # Capture the shape of the outputs
         self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-- 
2.43.0


From f2700f446643e93b162eae100fe2eb1bc0785a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 20/37] fix: run_online_estimate skipped the first row and
 misaligned its estimates with the data

---
 moirae/interface/__init__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..a68007d 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -97,10 +97,6 @@ def run_online_estimate(
     else:
         raise ValueError(f'Unrecognized data type: {type(dataset)}')
 
-    # Update the initial inputs for the
-    initial_input, _ = row_to_inputs(next(row_iter))
-    estimator._u = initial_input
-
     # Initialize the output arrays
     if output_states:
         state_mean = np.zeros((num_rows, estimator.num_state_dimensions))
-- 
2.43.0


From 62e453321d577f0367f2e55a638abaa9b51faf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 21/37] fix: the _std columns of run_online_estimate held
 variances

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index a68007d..ee1db06 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -126,9 +126,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From 31e325ee9939b6675a5dee9beed0e6bee527f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 22/37] fix: HDF5Writer failed when the cycle number jumps past
 the end of the storage

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..4953fc6 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -206,9 +206,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 my_dataset: h5py.Dataset = my_group[key]
 
-                # Expand by one chunk size if necessary
+                # Expand by at least one chunk size if necessary
                 if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
+                    my_dataset.resize(max(ind + 1, my_dataset.shape[0] + my_dataset.chunks[0]), axis=0)
 
                 my_ind = (ind,) + (slice(None),) * value.ndim
                 my_dataset[my_ind] = value
-- 
2.43.0


From 8a200144775482c251d9cb09d54e268d840b5984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 23/37] fix: per-cycle estimates after a missing cycle number
 could not be read

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 4953fc6..5254c0e 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -280,8 +280,8 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
             return values
 
         for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
+            if np.isnan(time):  # NaN marks steps or cycles for which nothing was written
+                continue
             # Unpack the dists
             state_values = _unpack(i, 'state_')
             state_dist = dist_type(**state_values)
-- 
2.43.0


From 0e7029a804095dd6c5c04c643699253d3889c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 24/37] fix: resizable HDF5 storage could not grow past the
 expected size

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 5254c0e..2705f69 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -162,7 +162,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 if self.resizable:
                     starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
-- 
2.43.0


From e1a2eddb34d9da854922b53ed67eb8f8e85297d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 25/37] fix: estimates for datasets without cycle numbers could
 not be written to HDF5

---
 moirae/interface/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index ee1db06..73d4d70 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -82,7 +82,7 @@ def run_online_estimate(
             raise ValueError('No time series data in the provided dataset')
 
         num_rows = dataset.raw_data.shape[0]
-        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 0
+        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 1
 
         def _row_iter(d):
             for _, r in d.iterrows():
@@ -132,7 +132,8 @@ def run_online_estimate(
 
             # Store estimates
             if hdf5_output is not None:
-                h5_writer.append_step(row['test_time'], row['cycle_number'], new_state, new_outputs)
+                cycle = row['cycle_number'] if 'cycle_number' in row else 0  # Assume a single cycle if unlabeled
+                h5_writer.append_step(row['test_time'], cycle, new_state, new_outputs)
 
     # Compile the outputs into a dataframe
     output = None
-- 
2.43.0


From d9416c8d6739fd54db6ada75530bffc28c038e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 26/37] fix: hysteresis with a batch of approach rates was
 refused

---
 moirae/models/ecm/components.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 0ac2c91..642bc47 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
@@ -155,5 +155,11 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma')
+    @classmethod
+    def _check_gamma(cls, value: np.ndarray) -> np.ndarray:
+        if not np.all(value >= 0.):  # There is one rate per member of the batch
+            raise ValueError('Input should be greater than or equal to 0')
+        return value
-- 
2.43.0


From bb8773bddeee3cdbf7c740724a84a60c05b1d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 27/37] fix: Gaussian distributions kept a view of the
 covariance they were given

---
 moirae/estimators/online/filters/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 9238b00..9fca589 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -145,7 +145,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         cov_shape = sigma.shape
         if len(cov_shape) != 2:
             raise ValueError('Covariance must be a 2D matrix, but shape provided was ' + str(cov_shape) + '!')
-        return sigma
+        return sigma.copy()
 
     @model_validator(mode='after')
     def fields_dim(self) -> Self:
-- 
2.43.0


From e3742e5b41cb436bdc35866c8e46cbbb13925fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 28/37] fix: unscented filter failed once a covariance became
 singular

---
 moirae/estimators/online/filters/kalman/unscented.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..3fc11e3 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -206,7 +206,11 @@ class UnscentedKalmanFilter(BaseFilter):
 
         # Sigma points are the augmented "mean" + each individual row of the transpose of the Cholesky decomposition of
         # Cov_aug, with a weighing factor of plus and minus gamma_param
-        sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        try:
+            sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        except np.linalg.LinAlgError:  # only semi-definite, which has no Cholesky decomposition in floating point
+            eigvals, eigvecs = np.linalg.eigh(cov_aug)
+            sqrt_cov_aug = (eigvecs * np.sqrt(np.clip(eigvals, 0, None))).T
         aux_sigma_pts = np.vstack((np.zeros((self._aug_len,)),
                                    self.gamma_param * sqrt_cov_aug,
                                    -self.gamma_param * sqrt_cov_aug))
-- 
2.43.0


From c18acffccf2610a90e5ddcbf899eee1b73c40b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 29/37] fix: a refused HDF5Writer.prepare altered the metadata
 and layout of the file

---
 moirae/interface/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 2705f69..967dc4c 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -128,6 +128,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         self._check_if_ready()
         if not self.resizable and (expected_steps is None or expected_cycles is None):
             raise ValueError('Expected sizes must be provided if not writing in resizable mode')
+        for what, where in [(self.per_timestep, 'per_timestep'), (self.per_cycle, 'per_cycle')]:
+            if what != "none" and where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
 
         # Put the metadata in the attributes of the group
         self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
@@ -156,8 +159,6 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
             # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
             my_group = self._group_handle.create_group(where)
             for key, value in to_insert.items():
                 if self.resizable:
-- 
2.43.0


From ffbc269cefa7f1cc419f51b294de491256242ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 30/37] fix: HDF5Writer stored half of a step which did not fit

---
 moirae/interface/hdf5.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 967dc4c..d45f5cc 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -184,11 +184,17 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             output: Outputs predicted from the estimator
         """
         self._check_if_ready()
+        targets = [(self.position, self.per_timestep, 'per_timestep'),
+                   (int(cycle), self.per_cycle, 'per_cycle')]
+
+        # Refuse a step which does not fit before writing any part of it
+        for ind, what, where in targets:
+            if not self.resizable and what != "none" and ind >= self._group_handle[where]['time'].shape[0]:
+                raise ValueError(f'No space left in {self.storage_key}/{where} for index {ind}')
 
         # Write the column to the appropriate part of the HDF5 file
         # TODO (wardlt): Introduce a batched write implementation.
-        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
-                                 (int(cycle), self.per_cycle, 'per_cycle')]:
+        for ind, what, where in targets:
             # Determine if we must write
             if what == "none":
                 continue
-- 
2.43.0


From 11e99e9e9fbd637287671c6977d74539266d9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 31/37] fix: dual estimation failed when the estimated
 parameters do not affect the output

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 3fc11e3..801bf25 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -325,7 +325,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1c: use updated hidden states to predict outpus
         y_preds = self._predict_outputs(updated_hidden_states=x_updated, controls=new_controls, **kwargs)
         # Don't forget to include sensor noise!
-        y_preds += v_hid
+        y_preds = y_preds + v_hid  # Predictions may be shared by all points
         # Assemble y_hat
         y_k_info = self._assemble_unscented_estimate(samples=y_preds)
         y_k = MultivariateGaussian.model_validate(y_k_info)
-- 
2.43.0


From 8bbcae6e7e35197cd6e28ef98efc27c958e6fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 32/37] fix: OCVExtractor accepted datasets without time series

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..3a56e6a 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -74,7 +74,7 @@ class OCVExtractor(BaseExtractor):
 
     def check_data(self, data: CellDataset):
         # Check if there is a raw_data table
-        if 'raw_data' not in data.tables:
+        if data.tables.get('raw_data') is None:  # Cell datasets list absent tables as None
             raise ValueError('`raw_data` table is required')
 
         # Compute the per-cycle capacity if unavailable
-- 
2.43.0


From 44ac12701c5c3cea65382bd1da20aef41430bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 33/37] fix: OCVExtractor accepted datasets in which no cycle
 has a known capacity

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index 3a56e6a..721adfa 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -83,7 +83,7 @@ class OCVExtractor(BaseExtractor):
 
         # Ensure at least one cycle samples capacities within
         sampled_soc = data.tables['cycle_stats']['capacity_charge'].max() / self.capacity
-        if sampled_soc < self.soc_requirement:
+        if not sampled_soc >= self.soc_requirement:  # Also refuse if no cycle has a known capacity (NaN)
             raise ValueError(f'Dataset must sample {self.soc_requirement*100:.1f}% of SOC.'
                              f' Only sampled {sampled_soc*100:.1f}%')
 
-- 
2.43.0


From 41be9c8dd00459115ed4414409c17327ce4eac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 34/37] fix: in-place noise of predictions is kept wherever the
 model returns one row per point

---
 moirae/estimators/online/filters/kalman/unscented.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 801bf25..04da22f 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -325,7 +325,9 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1c: use updated hidden states to predict outpus
         y_preds = self._predict_outputs(updated_hidden_states=x_updated, controls=new_controls, **kwargs)
         # Don't forget to include sensor noise!
-        y_preds = y_preds + v_hid  # Predictions may be shared by all points
+        if y_preds.shape != v_hid.shape:  # Predictions may be shared by all points
+            y_preds = np.broadcast_to(y_preds, v_hid.shape).copy()
+        y_preds += v_hid
         # Assemble y_hat
         y_k_info = self._assemble_unscented_estimate(samples=y_preds)
         y_k = MultivariateGaussian.model_validate(y_k_info)
-- 
2.43.0


From 2900a64799a569c7b1cb1358768b00cbea83683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 35/37] fix: polynomial coefficients of TheveninASOH were lost
 when serialised

---
 moirae/models/thevenin/state.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/moirae/models/thevenin/state.py b/moirae/models/thevenin/state.py
index e09f9e5..6c95118 100644
--- a/moirae/models/thevenin/state.py
+++ b/moirae/models/thevenin/state.py
@@ -1,6 +1,6 @@
 """Representations for the parameters of a Thenevin model"""
 import numpy as np
-from typing import Tuple
+from typing import Tuple, Union
 
 from pydantic import Field, model_validator
 
@@ -27,13 +27,13 @@ class TheveninASOH(HealthVariable):
     """Convective coefficient (W/m^2/K)"""
     a_therm: ScalarParameter = 1
     """Heat loss area (m^2)"""
-    ocv: SOCDependentVariable = Field(default_factory=lambda: SOCPolynomialVariable(coeffs=3.5))
+    ocv: Union[SOCPolynomialVariable, SOCDependentVariable] = Field(default_factory=lambda: SOCPolynomialVariable(coeffs=3.5))
     """Open circuit voltage (V)"""
-    r: Tuple[SOCTempDependentVariable, ...] = Field(
+    r: Tuple[Union[SOCTempPolynomialVariable, SOCTempDependentVariable], ...] = Field(
         default_factory=lambda: (SOCTempPolynomialVariable(soc_coeffs=0.1),), min_length=1
     )
     """Resistance all resistors, including both the series resistor and those in RC elements (Ohm)"""
-    c: Tuple[SOCTempDependentVariable, ...] = Field(default_factory=tuple)
+    c: Tuple[Union[SOCTempPolynomialVariable, SOCTempDependentVariable], ...] = Field(default_factory=tuple)
     """Capacitance in all RC elements (C)"""
 
     @property
-- 
2.43.0


From b5fe43bc49ce9fef3e5c01075557c4f1ad7d8256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 36/37] fix: dual estimators changed the wrappers they were
 initialised from

---
 moirae/estimators/online/dual.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 8cf8e69..c3eca5a 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -1,4 +1,5 @@
 """ Framework for dual estimation of transient vector and A-SOH"""
+from copy import copy
 from typing import Tuple, Optional, TypedDict
 from typing_extensions import Self, NotRequired
 
@@ -262,8 +263,8 @@ class DualEstimator(OnlineEstimator):
             'asoh': MultivariateGaussian(
                 mean=asoh_wrapper.asoh.get_parameters(names=asoh_wrapper.asoh_inputs).flatten(),
                 covariance=covariance_asoh)}
-        # Assemble additional helper dictionaries
-        wrappers = {'transient': transient_wrapper, 'asoh': asoh_wrapper}
+        # Assemble additional helper dictionaries. The estimator changes the wrappers at each step, so it needs its own
+        wrappers = {'transient': copy(transient_wrapper), 'asoh': copy(asoh_wrapper)}
         process_noise = {'transient': transient_covariance_process_noise, 'asoh': asoh_covariance_process_noise}
         sensor_noise = {'transient': covariance_sensor_noise, 'asoh': covariance_sensor_noise}
         filters = {}
-- 
2.43.0


From 2199b7cd4d98e02a6e6ac5f7d6bcf3c381687e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 37/37] fix: RC currents jumped on very short steps of a
 linearly-varying current

---
 moirae/models/ecm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 2d492c3..7441f4f 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -99,7 +99,7 @@ class EquivalentCircuitModel(CellModel):
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
             # Relax towards a current ramp which ends at the new current (or towards the new current if there is no ramp)
             iRC_kp1 = iRC_kp1 + (
-                (1 - exp_factor) * (current_kp1 - (current_slope * (tau + delta_t))))  # shape (batch_size, num_rc)
+                -np.expm1(-delta_t / tau) * (current_kp1 - (current_slope * (tau + delta_t))))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0

