From d74cec71142ace2309b19177200dca9bdaed5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 01/95] fix: NamedValues.copy() shared its storage with the
 original

---
 aviary/utils/named_values.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..30f6684 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,10 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # do not share the underlying mapping with the original
+        new._mapping = self._mapping.copy()
+        return new
 
     def deepcopy(self):
         """
-- 
2.43.0


From 53027eff9dd81406e757deb5090da802afd29c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 02/95] fix: unit conversion of integer arrays truncated the
 converted values

---
 aviary/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..ec6e4ab 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -58,6 +58,10 @@ def wrapped_convert_units(val_unit_tuple, new_units):
         else:
             istuple = False
 
+        # converting an integer array in place would truncate the converted values
+        if isinstance(value, np.ndarray) and np.issubdtype(value.dtype, np.integer):
+            value = value.astype(float)
+
         for i, item in enumerate(value):
             # Any entry may be none.
             if value[i] is not None:
-- 
2.43.0


From b9c18494203272d241b8aaa646ed669861a1c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 03/95] fix: setting an enum option from a list of strings kept
 only the first entry

---
 aviary/utils/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index ec6e4ab..07dc21e 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -127,10 +127,13 @@ def enum_setter(opt_meta, value):
             elif isinstance(val, str):
                 try:
                     # see if str maps to ENUM value
-                    return enum_class(val)
+                    member = enum_class(val)
                 except ValueError:
                     # str instead maps to ENUM name
-                    return getattr(enum_class, val.upper())
+                    member = getattr(enum_class, val.upper())
+                if len(value_iter) == 1:
+                    return member
+                values.append(member)
             else:
                 break
         else:
-- 
2.43.0


From b5a542a1769a7757a29210ac23380efb4a50c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 04/95] fix: partial derivatives of the unsteady solved flight
 conditions

---
 .../ode/unsteady_solved_flight_conditions.py  | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 0f1f4e6..2cd5ee7 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -294,7 +294,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
 
             self.declare_partials(
-                of='dTAS_dt_approx', wrt=['dmach_dr', 'dsos_dh'], rows=ar, cols=ar
+                of='dTAS_dt_approx',
+                wrt=[
+                    'dmach_dr',
+                    'dsos_dh',
+                    Dynamic.Atmosphere.SPEED_OF_SOUND,
+                    Dynamic.Atmosphere.MACH,
+                ],
+                rows=ar,
+                cols=ar,
             )
 
     def compute(self, inputs, outputs):
@@ -393,6 +401,16 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             partials['dTAS_dt_approx', 'drho_dh'] = (
                 -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
             )
+            deas_dr = inputs['dEAS_dr']
+            drho_dh = inputs['drho_dh']
+            partials['dTAS_dt_approx', 'EAS'] = (
+                deas_dr * dTAS_dEAS * cgam * (rho_sl / rho) ** 1.5
+                - 0.5 * drho_dh * sgam * (TAS + EAS * dTAS_dEAS) * rho_sl**1.5 / rho_sl**2.5
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = (
+                deas_dr * cgam * (rho_sl / rho) ** 1.5 * (dTAS_dRho - 1.5 * TAS / rho)
+                - 0.5 * EAS * drho_dh * sgam * dTAS_dRho * rho_sl**1.5 / rho_sl**2.5
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
@@ -422,6 +440,12 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
             partials['dTAS_dt_approx', 'dmach_dr'] = TAS * cgam * sos
             partials['dTAS_dt_approx', 'dsos_dh'] = TAS**2 * sgam / sos
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.SPEED_OF_SOUND] = (
+                2.0 * inputs['dmach_dr'] * TAS * cgam + inputs['dsos_dh'] * mach**2 * sgam
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.MACH] = (
+                inputs['dmach_dr'] * sos**2 * cgam + 2.0 * inputs['dsos_dh'] * TAS * sgam
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-- 
2.43.0


From 03b4a5fbd304197d8dbaa44e30c6bc55c8550f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 05/95] fix: partial derivatives of the simple cruise equations

---
 aviary/mission/two_dof/ode/simple_cruise_eom.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/simple_cruise_eom.py b/aviary/mission/two_dof/ode/simple_cruise_eom.py
index 792f81f..5635942 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_eom.py
@@ -55,8 +55,6 @@ class DistanceComp(om.ExplicitComponent):
         self.declare_partials(
             Dynamic.Mission.DISTANCE,
             'cruise_distance_initial',
-            rows=[0],
-            cols=[0],
             val=1.0,
         )
 
-- 
2.43.0


From b3c27e273862bb8b331163cf12f0d98efde680b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 06/95] fix: partial derivatives of the skin friction
 coefficient

---
 .../aerodynamics/flops_based/skin_friction.py | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/flops_based/skin_friction.py b/aviary/subsystems/aerodynamics/flops_based/skin_friction.py
index d550659..32850be 100644
--- a/aviary/subsystems/aerodynamics/flops_based/skin_friction.py
+++ b/aviary/subsystems/aerodynamics/flops_based/skin_friction.py
@@ -20,7 +20,6 @@ class SkinFriction(om.ImplicitComponent):
         super().__init__(**kwargs)
 
         self.CONLOG = 2.302585
-        self.TAW = 1.0
         self.sea_level_pressure = 14.6959 * 144  # psi -> psf
 
         self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, atol=1e-12, rtol=1e-12)
@@ -149,7 +148,6 @@ class SkinFriction(om.ImplicitComponent):
         wall_temp = (1.0 + 0.176 * mach * mach) * rankine
         wall_temp = np.tile(wall_temp, nc).reshape((nc, nn)).T
         outputs['wall_temp'] = wall_temp
-        self.TAW = wall_temp
 
         # INITIAL GUESS AT SKIN FRICTION COEFFICIENT
         outputs['cf_iter'] = (0.242 / (np.log(reynolds_num * 0.0015) / self.CONLOG)) ** 2
@@ -183,8 +181,11 @@ class SkinFriction(om.ImplicitComponent):
 
         CFL = cf / (1.0 + 3.59 * np.sqrt(cf) * wall_temp_ratio)
 
+        # adiabatic wall temperature
+        TAW = ((1.0 + 0.176 * mach * mach) * T)[:, np.newaxis]
+
         prod = np.einsum('j,jk->jk', combined_const, wall_temp**3)
-        residuals['wall_temp'] = (self.TAW / (1.0 + prod / CFL) + wall_temp) * 0.5 - wall_temp
+        residuals['wall_temp'] = (TAW / (1.0 + prod / CFL) + wall_temp) * 0.5 - wall_temp
 
         RP = (
             reynolds_num
@@ -253,9 +254,13 @@ class SkinFriction(om.ImplicitComponent):
 
         term = np.einsum('i,ij->ij', combined_const, wall_temp**3)
         den = 1.0 + term / CFL
-        dreswt_dcomb = -0.5 * self.TAW * wall_temp**3 / (CFL * den**2)
-        dreswt_dCFL = 0.5 * self.TAW * term / (CFL * den) ** 2
-        dreswt_dwt = -0.5 - 1.5 * self.TAW * np.einsum('i,ij->ij', combined_const, wall_temp**2) / (
+        TAW = ((1.0 + 0.176 * mach * mach) * T)[:, np.newaxis]
+        dTAW_dT = (1.0 + 0.176 * mach * mach)[:, np.newaxis]
+        dTAW_dmach = (0.352 * mach * T)[:, np.newaxis]
+        dreswt_dTAW = 0.5 / den
+        dreswt_dcomb = -0.5 * TAW * wall_temp**3 / (CFL * den**2)
+        dreswt_dCFL = 0.5 * TAW * term / (CFL * den) ** 2
+        dreswt_dwt = -0.5 - 1.5 * TAW * np.einsum('i,ij->ij', combined_const, wall_temp**2) / (
             CFL * den**2
         )
 
@@ -263,10 +268,14 @@ class SkinFriction(om.ImplicitComponent):
             np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dp)
         ).ravel()
         partials['wall_temp', Dynamic.Atmosphere.TEMPERATURE] = (
-            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dT) + dreswt_dCFL * dCFL_dT
+            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dT)
+            + dreswt_dCFL * dCFL_dT
+            + dreswt_dTAW * dTAW_dT
         ).ravel()
         partials['wall_temp', Dynamic.Atmosphere.MACH] = (
-            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dmach) + dreswt_dCFL * dCFL_dmach
+            np.einsum('ij,i->ij', dreswt_dcomb, dcomb_dmach)
+            + dreswt_dCFL * dCFL_dmach
+            + dreswt_dTAW * dTAW_dmach
         ).ravel()
         partials['wall_temp', 'wall_temp'] = (dreswt_dCFL * dCFL_dwt + dreswt_dwt).ravel()
         partials['wall_temp', 'cf_iter'] = (dreswt_dCFL * dCFL_dcf).ravel()
-- 
2.43.0


From 51ad46dab517fe955675d999d04dbdbc45bf915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 07/95] fix: partial derivatives of the GASP aerodynamic
 geometry, UFac and drag components

---
 .../aerodynamics/gasp_based/gaspaero.py       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index cc5c2ac..ef578a5 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -617,12 +617,20 @@ class UFac(om.ExplicitComponent):
         sigma = inputs['sigma']
         sigstr = inputs['sigstr']
 
+        wingspan = inputs[Aircraft.Wing.SPAN]
+
+        bbar_is_input = True
+        if design_type is AircraftTypes.BLENDED_WING_BODY and bbar < 0.01 * wingspan:
+            # tailless "BWB": compute() does not use the input
+            bbar = 1.0
+            bbar_is_input = False
+
         numer = (1 + lift_ratio) ** 2
         denom = sigstr * (lift_ratio / bbar) ** 2 + 2 * sigma * lift_ratio / bbar + 1
         ufac = numer / denom
 
         # w.r.t. lift_ratio
-        dnumer = 2 * (1 + lift_ratio) / bbar
+        dnumer = 2 * (1 + lift_ratio)
         ddenom = 2 * sigstr * (lift_ratio / bbar) / bbar + 2 * sigma / bbar
         dufac_dlift_ratio = (dnumer * denom - numer * ddenom) / denom**2
 
@@ -634,16 +642,22 @@ class UFac(om.ExplicitComponent):
             - 2 * sigma * lift_ratio / bbar**2
         )
         dufac_dbbar = -numer * ddenom_dbbar / denom**2
+        if not bbar_is_input:
+            dufac_dbbar = np.zeros_like(dufac_dbbar)
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             smooth = self.options['smooth_ufac']
             if smooth:
                 mu = self.options['mu']
+                dufac_dlift_ratio = d_smooth_min(ufac, 0.975, mu) * dufac_dlift_ratio
                 dufac_dsigstr = d_smooth_min(ufac, 0.975, mu) * dufac_dsigstr
                 dufac_dsigma = d_smooth_min(ufac, 0.975, mu) * dufac_dsigma
                 dufac_dbbar = d_smooth_min(ufac, 0.975, mu) * dufac_dbbar
             else:
                 ufac = np.minimum(ufac, 0.975)
+                dufac_dlift_ratio = (
+                    np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dlift_ratio
+                )
                 dufac_dsigstr = (
                     np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dsigstr
                 )
@@ -867,6 +881,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.Nacelle.SURFACE_AREA,
             Aircraft.Wing.AREA,
             Aircraft.VerticalTail.AREA,
+            Aircraft.Strut.CHORD,
             'interference_independent_of_shielded_area',
             'drag_loss_due_to_shielded_wing_area',
         ]
@@ -884,6 +899,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.Design.PERCENT_EXCRESCENCE_DRAG,
         ]
         self.declare_partials('SA5', drag_factors, method='cs')
+        self.declare_partials('SA7', drag_factors, method='cs')
         self.declare_partials(
             'SA6', [Aircraft.Wing.FORM_FACTOR, Aircraft.Wing.AVERAGE_CHORD], method='cs'
         )
@@ -1393,6 +1409,10 @@ class DragCoefClean(om.ExplicitComponent):
             Dynamic.Vehicle.DRAG_COEFFICIENT,
             [
                 Aircraft.Design.DRAG_DIVERGENCE_SHIFT,
+                Aircraft.Design.SUBSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.SUPERSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
+                Aircraft.Design.ZERO_LIFT_DRAG_COEFF_FACTOR,
                 Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
             ],
             method='cs',
-- 
2.43.0


From 32dfe0e4519a74cc83c82d7e4a2c6d2c80987d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 08/95] fix: speed of sound derivative with altitude in the
 atmosphere component

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 06c3bef..bc51de9 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -310,10 +310,12 @@ class AtmosphereComp(om.ExplicitComponent):
         # similar to method in dymos
         coeffs = self.source_data.akima_dT[idx]
         d2T_dh2 = coeffs[:, 1] + dx * (2.0 * coeffs[:, 2] + 3.0 * coeffs[:, 3] * dx)
+        # the temperature gradient in dsos_dh is interpolated from its own table
+        table_dT_dh = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
         # dsos_dh = 0.5 * (self._K * T)**(-0.5) * dT_dh * self._K
         # product rule & chain rule
         partials['dsos_dh', Dynamic.Mission.ALTITUDE] = (
-            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (dT_dh * self._K)
+            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (table_dT_dh * self._K)
             + 0.5 * (self._K * T) ** (-0.5) * d2T_dh2 * self._K
         )
 
@@ -333,4 +335,4 @@ class AtmosphereComp(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.DENSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.DYNAMIC_VISCOSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.SPEED_OF_SOUND, Dynamic.Mission.ALTITUDE][...] *= dz_dh
-            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh**2
+            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh
-- 
2.43.0


From 564e3a16bc5e252a950b603faacb27568eeee7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 09/95] fix: partial derivatives of the main gear length

---
 .../geometry/flops_based/landing_gear.py          | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/landing_gear.py b/aviary/subsystems/geometry/flops_based/landing_gear.py
index 791fc71..5bae522 100644
--- a/aviary/subsystems/geometry/flops_based/landing_gear.py
+++ b/aviary/subsystems/geometry/flops_based/landing_gear.py
@@ -144,7 +144,7 @@ class MainGearLength(om.ExplicitComponent):
                 yee = y_eng_aft
 
             dyee_dwel = 1.0
-            dyee_dspan = 1.0
+            dyee_dspan = 0.0
             if yee < 1.0:
                 dyee_dwel = 6.0 * inputs[Aircraft.Wing.SPAN]
                 dyee_dspan = 6.0 * yee
@@ -184,12 +184,17 @@ class MainGearLength(om.ExplicitComponent):
                 dcmlg_dhw * dhw_dfuse_wid
             )
 
-            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER][
-                :
-            ] = dcmlg_dnac
+            # Only the first engine model and the first engine location are used.
+            dcmlg_dnac_all = np.zeros(np.shape(inputs[Aircraft.Nacelle.AVG_DIAMETER]))
+            dcmlg_dnac_all[0] = dcmlg_dnac
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER] = (
+                dcmlg_dnac_all
+            )
 
+            dcmlg_dwel_all = np.zeros(np.shape(inputs[Aircraft.Engine.WING_LOCATIONS]))
+            dcmlg_dwel_all[0] = (dcmlg_dyee * dyee_dwel).item()
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS] = (
-                dcmlg_dyee * dyee_dwel
+                dcmlg_dwel_all
             )
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Wing.DIHEDRAL] = (
-- 
2.43.0


From 55756fcaf62f31d47f30bbfcf717409b751a1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 10/95] fix: partial derivatives of the detailed BWB wing
 layout

---
 aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
index 7293e37..ba33fe9 100644
--- a/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
+++ b/aviary/subsystems/geometry/flops_based/wing_detailed_bwb.py
@@ -118,8 +118,8 @@ class BWBUpdateDetailedWingDist(om.ExplicitComponent):
                 val=1,
             )
 
-            rows = np.arange(nn - 3) + 2
-            cols = np.arange(nn - 3) + 1
+            rows = np.arange(nn - 2) + 1
+            cols = np.arange(nn - 2)
             self.declare_partials(
                 'BWB_LOAD_PATH_SWEEP_DISTRIBUTION',
                 Aircraft.Wing.LOAD_PATH_SWEEP_DISTRIBUTION,
-- 
2.43.0


From e79d6da2c6c61ddfadee699ea66038b6efeea12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 11/95] fix: partial derivatives of the GASP wing geometry

---
 aviary/subsystems/geometry/gasp_based/wing.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 2969b13..511953f 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -612,7 +612,7 @@ class BWBWingVolume(om.ExplicitComponent):
 
         if smooth:
             WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
-            dWID_GRX_dloc_main_gear = dSigmoidXdx(loc_main_gear, 0.0, mu) / mu
+            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.0, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6.0
@@ -644,7 +644,9 @@ class BWBWingVolume(om.ExplicitComponent):
             1.0 + 2.0 * (0.5 * fuselage_width + WID_GRX) * (taper_ratio - 1.0) / wingspan
         )
         dCFUEL_dSWF = (taper_ratio - 1.0) * center_chort / wingspan
-        dCFUEL_dloc_main_gear = 2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) / wingspan
+        dCFUEL_dloc_main_gear = (
+            2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) * center_chort / wingspan
+        )
         dCFUEL_dtaper_ratio = 2.0 * (0.5 * fuselage_width + WID_GRX) * center_chort / wingspan
         dCFUEL_dwingspan = (
             -2.0
@@ -664,7 +666,10 @@ class BWBWingVolume(om.ExplicitComponent):
             -0.5 * (CFUEL + taper_ratio * center_chort)
             + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dSWF
         )
-        dSW_NFX_dloc_main_gear = -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+        dSW_NFX_dloc_main_gear = (
+            -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+            + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dloc_main_gear
+        )
         dSW_NFX_dtaper_ratio = (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * (
             dCFUEL_dtaper_ratio + center_chort
         )
@@ -700,7 +705,11 @@ class BWBWingVolume(om.ExplicitComponent):
             - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dSWF / SW_NFX**2
         )
         dAR_NFX_dloc_main_gear = (
-            -((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
+            -4.0
+            * dWID_GRX_dloc_main_gear
+            * (wingspan - fuselage_width - 2.0 * WID_GRX)
+            / SW_NFX
+            - ((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
         )
         dAR_NFX_dwingspan = (
             2 * (wingspan - fuselage_width - 2.0 * WID_GRX) / SW_NFX
-- 
2.43.0


From ed67303b3005ca7557ff3bfa47697c4200695639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 12/95] fix: partial derivatives of the GASP BWB fuselage

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 667c704..99eab6c 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -412,8 +412,8 @@ class BWBFuselageParameters1(om.ExplicitComponent):
             0.5 * body_width * cabin_width / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.AISLE_WIDTH] = (
-            cabin_width * num_aisle * nose_height_to_length / hydraulic_diameter / 12
-        )
+            0.5 * num_aisle / 12 * (cabin_width + body_width) * nose_height_to_length
+        ) / hydraulic_diameter
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.SEAT_WIDTH_ECONOMY] = (
             0.5 * seats_abreast / 12 * (cabin_width + body_width) * nose_height_to_length
         ) / hydraulic_diameter
@@ -1082,7 +1082,7 @@ class BWBFuselageSize(om.ExplicitComponent):
         d_cabin_area_d_nose_area = 2.0
 
         d_aft_d_body_width = 2.0 * diag_a_c
-        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 * diag_a_c
+        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 / diag_a_a
         d_aft_d_aft_len = (
             2 * body_width - additional_width
         ) * aftbody_len / diag_a_c + cabin_height * aftbody_len / diag_a_a
-- 
2.43.0


From 6ca7226893a5023c0aa947b8533bc83d3a4a4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 13/95] fix: partial derivatives of the fuel system mass

---
 aviary/subsystems/mass/flops_based/fuel_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/fuel_system.py b/aviary/subsystems/mass/flops_based/fuel_system.py
index 5e37d5b..c583d9d 100644
--- a/aviary/subsystems/mass/flops_based/fuel_system.py
+++ b/aviary/subsystems/mass/flops_based/fuel_system.py
@@ -52,7 +52,7 @@ class TransportFuelSystemMass(om.ExplicitComponent):
             1.07
             * 0.58
             * capacity**-0.42
-            * num_eng**0.43
+            * num_eng_fact**0.43
             * max_mach**0.34
             * scaler
             / GRAV_ENGLISH_LBM
-- 
2.43.0


From e20feb85cf6c190299ceb58daf78893b161dbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 14/95] fix: partial derivatives of the starter mass

---
 aviary/subsystems/mass/flops_based/starter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/starter.py b/aviary/subsystems/mass/flops_based/starter.py
index 7def8a5..0d897e4 100644
--- a/aviary/subsystems/mass/flops_based/starter.py
+++ b/aviary/subsystems/mass/flops_based/starter.py
@@ -66,25 +66,28 @@ class TransportStarterMass(om.ExplicitComponent):
         thrust_ratio = inputs[Aircraft.Engine.SCALE_FACTOR]
         adjusted_d_nacelle = d_nacelle * np.sqrt(thrust_ratio)
 
+        f_nacelle = distributed_nacelle_diam_factor(adjusted_d_nacelle, num_engines)
+        # each engine type contributes to the average diameter in proportion to its engine count
         diam_deriv_fact = distributed_nacelle_diam_factor_deriv(num_engines)
+        if sum(num_engines) <= 4:
+            diam_deriv_fact = np.array(num_engines) / sum(num_engines)
         max_mach_exp = max_mach**0.32
-        d_avg = sum(adjusted_d_nacelle * num_engines) / total_engines
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
             11.0
             * 1.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
+            * diam_deriv_fact
             * np.sqrt(thrust_ratio)
-            * d_avg**0.6
+            * f_nacelle**0.6
         ) / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Engine.SCALE_FACTOR] = (
             17.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
-            * d_avg**0.6
+            * diam_deriv_fact
+            * f_nacelle**0.6
             * (d_nacelle * 0.5 / np.sqrt(thrust_ratio))
         ) / GRAV_ENGLISH_LBM
-- 
2.43.0


From 3d6265d0296dbb6773a42976b5f3067cf05204b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 15/95] fix: partial derivatives of the GASP control mass

---
 aviary/subsystems/mass/gasp_based/control.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/control.py b/aviary/subsystems/mass/gasp_based/control.py
index 26347d9..7ff366e 100644
--- a/aviary/subsystems/mass/gasp_based/control.py
+++ b/aviary/subsystems/mass/gasp_based/control.py
@@ -250,19 +250,23 @@ class SurfaceControlMass(om.ExplicitComponent):
             Aircraft.Wing.SURFACE_CONTROL_MASS_COEFFICIENT,
         ] = dSCW_dSWCC / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = dSCW_dWA / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = (
+            CK18 * dSCW_dWA / GRAV_ENGLISH_LBM
+        )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Design.GROSS_MASS] = CK18 * dSCW_dWG
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
-            dSCW_dULF / GRAV_ENGLISH_LBM
+            CK18 * dSCW_dULF / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.SURFACE_CONTROL_MASS_SCALER] = (
             intermediate_control_wt - intermediate_cockpit_control_wt
         ) / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = dSCW_dMDV / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = (
+            CK18 * dSCW_dMDV / GRAV_ENGLISH_LBM
+        )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Controls.COCKPIT_CONTROL_MASS] = -CK18 / CK15
 
-- 
2.43.0


From 83f601c8ed515f34270ece8611a7bbb75308a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 16/95] fix: partial derivatives of the GASP design loads

---
 .../subsystems/mass/gasp_based/design_load.py | 105 ++++++++++++------
 1 file changed, 74 insertions(+), 31 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index c3291d7..7bbf757 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -203,11 +203,6 @@ class LoadSpeeds(om.ExplicitComponent):
                     dVCMIN_dmax_struct_speed_mph = dVCMAX_dmax_struct_speed_mph
                     dVCMIN_dwing_loading = 0.0
 
-            # why this block?
-            if CATD == 1:
-                dVCMIN_dwing_loading = 0.0
-                dVCMIN_dmax_struct_speed_mph = 0.9 / 1.15
-
             VDCOF = 1.4
             dVDCOF_dwing_loading = 0.0
 
@@ -489,13 +484,8 @@ class LoadParameters(om.ExplicitComponent):
             DSigF = dSigmoidXdx(density_ratio, 1, 0.01)
             dV9_dmax_airspeed = (
                 vel_c * DSigF * (-ddensity_ratio_dmax_airspeed)
-                + 661.7
-                * dmax_mach_dmax_airspeed
-                * SigF
-                * 661.7
-                * max_mach
-                * DSigF
-                * ddensity_ratio_dmax_airspeed
+                + 661.7 * dmax_mach_dmax_airspeed * SigF
+                + 661.7 * max_mach * DSigF * ddensity_ratio_dmax_airspeed
             )
             dV9_dvel_c = SigE
 
@@ -513,7 +503,7 @@ class LoadParameters(om.ExplicitComponent):
                     / 0.6820
                     + ddensity_ratio_dmax_airspeed
                     * sigmoidX(density_ratio / 0.6820, 1, 0.01)
-                    * SigF
+                    * SigE
                     + density_ratio
                     * (
                         dSigmoidXdx(density_ratio / 0.6820, 1, 0.01)
@@ -549,8 +539,8 @@ class LoadParameters(om.ExplicitComponent):
                         * ddensity_ratio_dmax_airspeed
                         / 0.53281
                         * SigE
-                        + sigmoidX(density_ratio / 0.53281, 1, -0.01)
-                        * SigF
+                        + sigmoidX(density_ratio / 0.53281, 1, 0.01)
+                        * DSigF
                         * -ddensity_ratio_dmax_airspeed
                     )
                     + DSigF * ddensity_ratio_dmax_airspeed
@@ -825,9 +815,9 @@ class LoadFactors(om.ExplicitComponent):
         ) / (498.0 * wing_loading)
         ddive_load_factor_dCl_alpha = (
             dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-            + k_load_factor * 50 * min_dive_vel
+            + k_load_factor * 25 * min_dive_vel
         ) / (498.0 * wing_loading)
-        (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
+        ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
         ddive_load_factor_dV9 = 0.0
 
         dgust_load_factor_dwing_loading = dquotient(
@@ -852,13 +842,12 @@ class LoadFactors(om.ExplicitComponent):
         if smooth:
             SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
             SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-            DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
             DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
             gust_load_factor_1 = dive_load_factor * SigG + cruise_load_factor * SigH
             dgust_load_factor_dwing_loading = (
                 ddive_load_factor_dwing_loading * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -867,7 +856,7 @@ class LoadFactors(om.ExplicitComponent):
                 )
                 + dcruise_load_factor_dwing_loading * SigH
                 + cruise_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (cruise_load_factor - dive_load_factor),
                     dive_load_factor,
@@ -878,7 +867,7 @@ class LoadFactors(om.ExplicitComponent):
             dgust_load_factor_ddensity_ratio = (
                 ddive_load_factor_ddensity_ratio * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -954,6 +943,25 @@ class LoadFactors(om.ExplicitComponent):
                     ddive_load_factor_dV9,
                 )
             )
+            dgust_load_factor_dmin_dive_vel = (
+                ddive_load_factor_dmin_dive_vel * SigG
+                + dive_load_factor
+                * DSigH
+                * dquotient(
+                    (dive_load_factor - cruise_load_factor),
+                    dive_load_factor,
+                    ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+                + cruise_load_factor
+                * DSigH
+                * dquotient(
+                    (cruise_load_factor - dive_load_factor),
+                    dive_load_factor,
+                    -ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+            )
             gust_load_factor = gust_load_factor_1
         else:
             if cruise_load_factor > dive_load_factor:  # note: this creates a discontinuity
@@ -1087,7 +1095,25 @@ class LoadFactors(om.ExplicitComponent):
                     dgust_load_factor_dV9,
                 )
             )
-            dULF_dmin_dive_vel = 0.0
+            dULF_dmin_dive_vel = 1.5 * (
+                dgust_load_factor_dmin_dive_vel * SigK
+                + gust_load_factor
+                * DSigL
+                * dquotient(
+                    (gust_load_factor - max_maneuver_factor),
+                    gust_load_factor,
+                    dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+                + max_maneuver_factor
+                * DSigL
+                * dquotient(
+                    (max_maneuver_factor - gust_load_factor),
+                    gust_load_factor,
+                    -dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+            )
         else:
             if gust_load_factor > max_maneuver_factor:  # note: this creates a discontinuity
                 dULF_dmax_maneuver_factor = 0.0
@@ -1809,7 +1835,7 @@ class BWBLoadFactors(om.ExplicitComponent):
             ) / (498.0 * wing_loading)
             ddive_load_factor_dCl_alpha = (
                 dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-                + k_load_factor * 50 * min_dive_vel
+                + k_load_factor * 25 * min_dive_vel
             ) / (498.0 * wing_loading)
             ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (
                 498.0 * wing_loading
@@ -1820,13 +1846,12 @@ class BWBLoadFactors(om.ExplicitComponent):
             if smooth:
                 SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
                 SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-                DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
                 DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
                 gust_load_factor = dive_load_factor * SigG + cruise_load_factor * SigH
                 dgust_load_factor_dgross_mass = (
                     ddive_load_factor_dgross_mass * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1835,7 +1860,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dgross_mass * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1846,7 +1871,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_dexp_wing_areas = (
                     ddive_load_factor_dexp_wing_areas * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1855,7 +1880,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dexp_wing_areas * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1866,7 +1891,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_ddensity_ratio = (
                     ddive_load_factor_ddensity_ratio * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1942,7 +1967,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                         ddive_load_factor_dV9,
                     )
                 )
-                dgust_loading_dmin_dive_vel = (
+                dgust_load_factor_dmin_dive_vel = (
                     ddive_load_factor_dmin_dive_vel * SigG
                     + dive_load_factor
                     * DSigH
@@ -2141,7 +2166,25 @@ class BWBLoadFactors(om.ExplicitComponent):
                         dgust_load_factor_dV9,
                     )
                 )
-                dULF_dmin_dive_vel = 0.0
+                dULF_dmin_dive_vel = 1.5 * (
+                    dgust_load_factor_dmin_dive_vel * SigK
+                    + gust_load_factor
+                    * DSigL
+                    * dquotient(
+                        (gust_load_factor - max_maneuver_factor),
+                        gust_load_factor,
+                        dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                    + max_maneuver_factor
+                    * DSigL
+                    * dquotient(
+                        (max_maneuver_factor - gust_load_factor),
+                        gust_load_factor,
+                        -dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                )
             else:
                 if gust_load_factor > max_maneuver_factor:
                     # ULF = 1.5 * gust_load_factor
-- 
2.43.0


From 76426df082debd78c351ed34782bf2e55558e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 17/95] fix: partial derivatives of the GASP engine mass

---
 aviary/subsystems/mass/gasp_based/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 2592027..5c250b2 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -131,6 +131,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * nacelle_area
         )
         dNW_dNSA = scaler * spec_nacelle_wt
@@ -138,6 +139,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * spec_nacelle_wt
         )
         dPW_dPF = (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** 0.736
@@ -506,7 +508,6 @@ class WingMountEngineMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_engines = self.options[Aircraft.Engine.NUM_ENGINES]
         num_engine_type = len(num_engines)
-        c_instl = self.options[Aircraft.Engine.ADDITIONAL_MASS_FRACTION]
 
         eng_spec_wt = inputs[Aircraft.Engine.MASS_SPECIFIC] * GRAV_ENGLISH_LBM
         Fn_SLS = inputs[Aircraft.Engine.SCALED_SLS_THRUST]
@@ -529,7 +530,7 @@ class WingMountEngineMass(om.ExplicitComponent):
 
         dry_wt_eng = eng_spec_wt * Fn_SLS
         pod_wt = inputs[Aircraft.Engine.POD_MASS] * GRAV_ENGLISH_LBM
-        eng_instl_wt = c_instl * dry_wt_eng
+        eng_instl_wt = inputs[Aircraft.Engine.ADDITIONAL_MASS] / CK7 * GRAV_ENGLISH_LBM
         prop_wt = inputs[Aircraft.Engine.Propeller.MASS] * GRAV_ENGLISH_LBM
         # prop_wt_all = sum(num_engines * prop_wt) / GRAV_ENGLISH_LBM
         span_frac_factor = eng_span_frac / (eng_span_frac + 0.001)
-- 
2.43.0


From f34ee98ee280bae74ea5604c68fc813c4d3f6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 18/95] fix: partial derivatives of the GASP fixed masses

---
 aviary/subsystems/mass/gasp_based/fixed.py | 56 +++++++++++-----------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 7de2945..7390c18 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -660,6 +660,7 @@ class HorizontalTailMass(om.ExplicitComponent):
         htail_mom_arm = inputs[Aircraft.HorizontalTail.MOMENT_ARM]
         tc_ratio_root_htail = inputs[Aircraft.HorizontalTail.THICKNESS_TO_CHORD]
         root_chord_htail = inputs[Aircraft.HorizontalTail.ROOT_CHORD]
+        CK9 = inputs[Aircraft.HorizontalTail.MASS_SCALER]
 
         FH = (
             gross_wt_initial
@@ -724,7 +725,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             / (1000000.0 * (1.0 + taper_ratio_htail)) ** 2
         )
 
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -736,7 +737,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             ** 0.54
             * htail_area ** (-0.46)
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = CK9 * (
             350.0
             * 0.54
             * (
@@ -748,7 +749,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * FH ** (-0.46)
             * dFH_dGrossWtInitial
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -761,7 +762,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * FH ** (-0.46)
             * dFH_dCoefHtail
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -774,7 +775,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * FH ** (-0.46)
             * dFH_dFusLen
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -787,7 +788,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * FH ** (-0.46)
             * dFH_dSpanHtail
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -800,7 +801,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * FH ** (-0.46)
             * dFH_dHookFac
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -813,7 +814,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * FH ** (-0.46)
             * dFH_dTaperRatioHtail
         )
-        J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = (
+        J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -822,7 +823,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * (np.log10(min_dive_vel)) ** (-0.46)
             / (min_dive_vel * np.log(10))
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * (
@@ -835,7 +836,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * (-0.54)
             * htail_mom_arm ** (-1.54)
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * (
@@ -848,7 +849,7 @@ class HorizontalTailMass(om.ExplicitComponent):
             * (-0.54)
             * tc_ratio_root_htail ** (-1.54)
         )
-        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = (
+        J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = CK9 * (
             350.0
             / GRAV_ENGLISH_LBM
             * (
@@ -1025,6 +1026,7 @@ class VerticalTailMass(om.ExplicitComponent):
         vtail_mom_arm = inputs[Aircraft.VerticalTail.MOMENT_ARM]
         tc_ratio_root_vtail = inputs[Aircraft.VerticalTail.THICKNESS_TO_CHORD]
         root_chord_vtail = inputs[Aircraft.VerticalTail.ROOT_CHORD]
+        CK10 = inputs[Aircraft.VerticalTail.MASS_SCALER]
 
         tan_sweep_vtail_LE = (1.0 - taper_ratio_vtail) / (
             1.0 + taper_ratio_vtail
@@ -1194,36 +1196,36 @@ class VerticalTailMass(om.ExplicitComponent):
             ** 0.54
         )
 
-        J[Aircraft.VerticalTail.MASS, Aircraft.Design.GROSS_MASS] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.Design.GROSS_MASS] = CK10 * (
             temp
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * (dFV_dGrossWtInitial + htail_loc * dFH_dGrossWtInitial / 2)
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MASS_COEFFICIENT] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MASS_COEFFICIENT] = CK10 * (
             temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dCoefVtail / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.Fuselage.LENGTH] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.Fuselage.LENGTH] = CK10 * (
             temp
             / GRAV_ENGLISH_LBM
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * (dFV_dFusLen + htail_loc * dFH_dFusLen / 2)
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.Wing.SPAN] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.Wing.SPAN] = CK10 * (
             temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dWingspan / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.SPAN] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.SPAN] = CK10 * (
             temp * 0.54 * (FV + htail_loc * FH / 2.0) ** (-0.46) * dFV_dSpanVtail / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.TAPER_RATIO] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.TAPER_RATIO] = CK10 * (
             temp
             * 0.54
             * (FV + htail_loc * FH / 2.0) ** (-0.46)
             * dFV_dTaperRatioVtail
             / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = CK10 * (
             temp
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -1232,7 +1234,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * htail_loc
             / 2
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.SPAN] = CK10 * (
             temp
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -1241,7 +1243,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * htail_loc
             / 2
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = CK10 * (
             temp
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -1250,7 +1252,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * htail_loc
             / 2
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = CK10 * (
             temp
             / GRAV_ENGLISH_LBM
             * 0.54
@@ -1259,7 +1261,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * htail_loc
             / 2
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = CK10 * (
             380.0
             / GRAV_ENGLISH_LBM
             * (
@@ -1273,7 +1275,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * FH
             / 2
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = CK10 * (
             380.0
             / GRAV_ENGLISH_LBM
             * (
@@ -1285,7 +1287,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * 0.54
             * vtail_area ** (-0.46)
         )
-        J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = (
+        J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = CK10 * (
             380.0
             / GRAV_ENGLISH_LBM
             * (
@@ -1298,7 +1300,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * (np.log10(min_dive_vel)) ** (-0.46)
             / (min_dive_vel * np.log(10))
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = CK10 * (
             380.0
             / GRAV_ENGLISH_LBM
             * (
@@ -1311,7 +1313,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * (-0.54)
             * vtail_mom_arm ** (-1.54)
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = CK10 * (
             380.0
             / GRAV_ENGLISH_LBM
             * (
@@ -1324,7 +1326,7 @@ class VerticalTailMass(om.ExplicitComponent):
             * (-0.54)
             * tc_ratio_root_vtail ** (-1.54)
         )
-        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = (
+        J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = CK10 * (
             380.0
             / GRAV_ENGLISH_LBM
             * (
-- 
2.43.0


From 8dfa17f5d89013e9f02956028f7aadc983767536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 19/95] fix: partial derivatives of the GASP fuel and fuselage
 masses

---
 aviary/subsystems/mass/gasp_based/fuel.py | 76 +++++++++--------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 5cd41be..3f39c05 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -266,14 +266,8 @@ class BodyTankCalculations(om.ExplicitComponent):
                 sigmoidX(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                 + (req_fuel_wt - max_wingfuel_wt)
                 * dSigmoidXdx(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
-                * 1
-                / 50
             )
-            dextra_fuel_wt_dmax_wingfuel_wt = -1 * sigmoidX(
-                (req_fuel_wt - max_wingfuel_wt), 0, 1 / 50.0
-            ) + (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
-                req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0
-            ) * (-1 / 50)
+            dextra_fuel_wt_dmax_wingfuel_wt = -dextra_fuel_wt_dreq_fuel_wt
         else:
             if extra_fuel_wt < 0:
                 extra_fuel_wt = 0.0
@@ -288,7 +282,6 @@ class BodyTankCalculations(om.ExplicitComponent):
         dwingfuel_wt_min_dgeom_fuel_vol = -dmax_extra_fuel_wt_dgeom_fuel_vol
         dwingfuel_wt_min_drho_fuel = -dmax_extra_fuel_wt_drho_fuel
         if smooth:
-            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
             dwingfuel_wt_min_dfuel_wt_min = (
                 dwingfuel_wt_min_dfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_dfuel_wt_min
@@ -343,39 +336,21 @@ class BodyTankCalculations(om.ExplicitComponent):
         if smooth:
             Int1 = sigmoidX(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
             Int2 = sigmoidX(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
+            dsig1 = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
+            dsig2 = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
 
             # max_fuel_avail = max_fuel_avail_est * Int1 + max_fuel_avail_new * Int2
-            dInt1_dfuel_wt_des = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (
-                -1 / 110.0
-            )
-            dInt1_dreq_fuel_wt = (
-                dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
-                * -dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
-            )
-            dInt1_dmax_wingfuel_wt = (
-                dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
-                * -dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
-            )
-            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) / 110.0
-            dInt1_dOEW = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (-1 / 110.0)
-
-            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
-            dInt2_dreq_fuel_wt = (
-                dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
-                * dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
-            )
-            dInt2_dmax_wingfuel_wt = (
-                dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
-                * dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
-            )
-            dInt2_dgross_wt_initial = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) * (
-                -1 / 110.0
-            )
-            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt1_dfuel_wt_des = -dsig1
+            dInt1_dreq_fuel_wt = -dsig1 * dextra_fuel_wt_dreq_fuel_wt
+            dInt1_dmax_wingfuel_wt = -dsig1 * dextra_fuel_wt_dmax_wingfuel_wt
+            dInt1_dgross_wt_initial = dsig1
+            dInt1_dOEW = -dsig1
+
+            dInt2_dfuel_wt_des = dsig2
+            dInt2_dreq_fuel_wt = dsig2 * dextra_fuel_wt_dreq_fuel_wt
+            dInt2_dmax_wingfuel_wt = dsig2 * dextra_fuel_wt_dmax_wingfuel_wt
+            dInt2_dgross_wt_initial = -dsig2
+            dInt2_dOEW = dsig2
             dmax_fuel_avail_dfuel_wt_des = (
                 dmax_fuel_avail_est_dfuel_wt_des * Int1
                 + max_fuel_avail_est * dInt1_dfuel_wt_des
@@ -1137,7 +1112,7 @@ class FuselageMass(om.ExplicitComponent):
         J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
             dFusWt_dULF / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.Fuselage.MASS, 'MAT'] = 1
+        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11
 
 
 class BWBFuselageMass(om.ExplicitComponent):
@@ -1195,20 +1170,25 @@ class BWBFuselageMass(om.ExplicitComponent):
         area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
         uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
         fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
+        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         dFusWt_dc_fuselage = (
-            1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
-            + fus_SA * area_aft_to_total * uwt_aft
-        ) / GRAV_ENGLISH_LBM
+            CK11
+            * (
+                1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
+                + fus_SA * area_aft_to_total * uwt_aft
+            )
+            / GRAV_ENGLISH_LBM
+        )
         dFusWt_dgross_wt_initial = (
-            0.167 * c_fuselage * 1.8 * (gross_wt_initial**-0.833) * (area_cabin**1.06)
+            CK11 * 0.167 * c_fuselage * 1.8 * (gross_wt_initial**-0.833) * (area_cabin**1.06)
         )
         dFusWt_darea_cabin = (
-            1.06 * c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**0.06)
+            CK11 * 1.06 * c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**0.06)
         ) / GRAV_ENGLISH_LBM
-        dFusWt_darea_aft_to_total = c_fuselage * fus_SA * uwt_aft / GRAV_ENGLISH_LBM
-        dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
-        dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
+        dFusWt_darea_aft_to_total = CK11 * c_fuselage * fus_SA * uwt_aft / GRAV_ENGLISH_LBM
+        dFusWt_duwt_aft = CK11 * c_fuselage * fus_SA * area_aft_to_total
+        dFusWt_dfus_SA = CK11 * c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
 
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = dFusWt_dc_fuselage
         J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = dFusWt_dgross_wt_initial
-- 
2.43.0


From efa17fb27d08adfb967653d92897f3d59d3e05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 20/95] fix: partial derivatives of the GASP landing gear mass

---
 aviary/subsystems/mass/gasp_based/landing.py | 23 ++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index da0cd6b..ff283ca 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -124,6 +124,8 @@ class TotalLandingGearMass(om.ExplicitComponent):
             gear_height_temp, 6, -1 / 320.0
         )
 
+        CK12 = inputs[Aircraft.LandingGear.TOTAL_MASS_SCALER]
+
         dLGW_dCGW = (
             (0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
             + sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
@@ -140,36 +142,35 @@ class TotalLandingGearMass(om.ExplicitComponent):
         dGH_dND = (
             sigmoidX(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
             + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-        ) * dKS + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio))
+            - 6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
+        ) * dKS
 
         c_gear_mass_modified = (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(
             wing_loc, 0.005, -0.01 / 320.0
         ) + c_gear_mass * sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
 
-        dLGW_dCR = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dCR = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
         )
 
-        dLGW_dND = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dND = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.MASS_COEFFICIENT] = (
-            dLGW_dCGW / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCGW / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.CLEARANCE_RATIO] = (
-            dLGW_dCR / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCR / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
-            dLGW_dND / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dND / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
-            c_gear_mass_modified
+            CK12 * c_gear_mass_modified
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.TOTAL_MASS_SCALER] = (
-- 
2.43.0


From 98cd082b76df3c59210922a523c5884f2da1bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 21/95] fix: GASP furnishing mass between the cabin width
 limits, smooth blending and its partial derivatives

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index dfc3a8c..957fc8e 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -95,7 +95,7 @@ def common_compute(
             )
             furnishing_wt_2 = CPX * PAX + 310.0
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         furnishing_wt = smooth_max(furnishing_wt, 30.0, mu)
     else:
         if gross_wt_init <= 10000.0:
@@ -126,6 +126,8 @@ def common_compute(
                     CPX = 28.0
                 elif cabin_width > 8.90:
                     CPX = 62.0
+                else:
+                    CPX = CPX_lin
                 furnishing_wt = CPX * PAX + 310.0
         furnishing_wt = np.maximum(furnishing_wt, 30.0)
 
@@ -198,7 +200,6 @@ def common_compute_partials(
             dCPX_dcabin_width_2 = (
                 1 * dSigmoidXdx(CPX_lin / 28, 1, 0.01) * -dCPX_lin_dcabin_width
                 + dCPX_lin_dcabin_width
-                * CPX_lin
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * sigmoidX(CPX_lin / 62, 1, -0.01)
                 + CPX_lin
@@ -210,7 +211,7 @@ def common_compute_partials(
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * dSigmoidXdx(CPX_lin / 62, 1, -0.01)
                 / 62
-                * -dCPX_lin_dcabin_width
+                * dCPX_lin_dcabin_width
                 + 1 * dSigmoidXdx(CPX_lin / 62, 1, 0.01) * dCPX_lin_dcabin_width
             )
 
@@ -222,7 +223,7 @@ def common_compute_partials(
 
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
         dsmoother_dgross_wt_init = dSigmoidXdx(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         dfurnishing_wt_dcabin_width = (
             1 - smoother
         ) * dfurnishing_wt_dcabin_width_1 + smoother * dfurnishing_wt_dcabin_width_2
@@ -300,13 +301,17 @@ def common_compute_partials(
                     CPX = 28.0
                 elif cabin_width > 8.90:
                     CPX = 62.0
+                else:
+                    CPX = CPX_lin
                 furnishing_wt = CPX * PAX + 310.0
 
                 dCPX_lin_dcabin_width = 10.516
                 if cabin_width <= 5.667:
                     dCPX_dcabin_width = 0.0
-                if cabin_width > 8.90:
+                elif cabin_width > 8.90:
                     dCPX_dcabin_width = 0.0
+                else:
+                    dCPX_dcabin_width = dCPX_lin_dcabin_width
 
                 dfurnishing_wt_dcabin_width = PAX * dCPX_dcabin_width
                 dfurnishing_wt_dgross_wt_init = 0.0
-- 
2.43.0


From dbd2bb35066ad70ec5b6fcfb546e6c440bc0c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 22/95] fix: smooth math helpers for scalars and large
 arguments

---
 aviary/utils/math.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 57a17f2..245c2b1 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -45,8 +45,8 @@ def sigmoidX(x, x0, mu=1.0):
             dtype = float
         else:
             dtype = complex
-        y = 0
-        if (x - x0) * mu > -320:
+        y = 0.0
+        if np.real(x - x0) / mu > -320:
             y = 1 / (1 + np.exp(-(x - x0) / mu))
     if dtype == float:
         y = y.real
@@ -89,8 +89,12 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
-        y = 0
-        if (x - x0) * mu > -320:
+        if isinstance(x, float):
+            dtype = float
+        else:
+            dtype = complex
+        y = 0.0
+        if np.real(x - x0) / mu > -320:
             term = np.exp(-(x - x0) / mu)
             term2 = (1 + term) * (1 + term)
             y = term / mu / term2
@@ -111,7 +115,10 @@ def smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of min(x, b).
     """
-    sum_log_exp = np.log(np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b)))
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    m = np.maximum(mu_x, mu_b)
+    sum_log_exp = m + np.log(np.exp(mu_x - m) + np.exp(mu_b - m))
     rv = -(1 / mu) * sum_log_exp
     return rv
 
@@ -128,9 +135,10 @@ def d_smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of derivative of min(x, b).
     """
-    d_sum_log_exp = np.exp(np.multiply(-mu, x)) / (
-        np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b))
-    )
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    m = np.maximum(mu_x, mu_b)
+    d_sum_log_exp = np.exp(mu_x - m) / (np.exp(mu_x - m) + np.exp(mu_b - m))
     return d_sum_log_exp
 
 
-- 
2.43.0


From 970ca6ca773bb3bdc319db79474ab683c8ddae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 23/95] fix: the temperature offset given to the atmosphere
 group was ignored

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index bc51de9..a86dc05 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -47,7 +47,11 @@ class Atmosphere(om.Group):
 
         self.add_subsystem(
             name='standard_atmosphere',
-            subsys=AtmosphereComp(num_nodes=nn, h_def=h_def),
+            subsys=AtmosphereComp(
+                num_nodes=nn,
+                h_def=h_def,
+                delta_T_Celcius=self.options['delta_T_Celcius'],
+            ),
             promotes_inputs=[Dynamic.Mission.ALTITUDE],
             promotes_outputs=['*'],
         )
-- 
2.43.0


From e9b7bf515e835b0e13af70bdb85ce1ecf2ae89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 24/95] fix: preprocessing crashed on fuselage engines when the
 aircraft type was not given

---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..b5492d4 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -614,7 +614,10 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
             if (
                 Aircraft.Engine.NUM_FUSELAGE_ENGINES in aviary_options
                 and num_fulselage_engines > 1
-                and aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                and (
+                    Aircraft.Design.TYPE not in aviary_options
+                    or aviary_options.get_val(Aircraft.Design.TYPE) == AircraftTypes.TRANSPORT
+                )
             ):
                 HHT = 1
                 if verbosity >= Verbosity.BRIEF:
-- 
2.43.0


From 790c231d3c98fafa71a4718222b5b6b95fc90287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 25/95] fix: engine-count completion and vectorized engine
 variables for several engine types

---
 aviary/utils/preprocessors.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index b5492d4..777ae26 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -800,14 +800,9 @@ def preprocess_propulsion(
                 else:
                     dtype = dtype[0]
 
-            if isiterable(meta_data[var]['types']):
-                typeset = meta_data[var]['types']
-            else:
-                typeset = (meta_data[var]['types'],)
-
-            # Variables are multidimensional if their base types have iterables, and are
-            # flagged as `multivalue`
-            multidimensional = set(typeset) & set((list, tuple, np.ndarray)) and multivalue
+            # Variables are multidimensional if each engine type has its own array of values (their
+            # default is an iterable), and are flagged as `multivalue`
+            multidimensional = multivalue and isiterable(default_value)
 
             # vec is where the vectorized engine data is stored - always a list right
             # now, converted to other types like np array later
@@ -836,7 +831,10 @@ def preprocess_propulsion(
                         aviary_val = aviary_options.get_val(var, units)
                     # if the variable is not in aviary_options, use default from metadata
                     except (KeyError, IndexError):
-                        vec.append(default_value)
+                        if multidimensional:
+                            vec.extend(default_value)
+                        else:
+                            vec.append(default_value)
                     else:
                         # save value from aviary_options
                         if isiterable(aviary_val) and len(aviary_val) > 1:
@@ -940,7 +938,7 @@ def preprocess_propulsion(
                         'Mount location was not defined for all engines of EngineModel '
                         f'<{eng_name}> - unspecified engines are assumed wing-mounted.'
                     )
-            elif num_unspecified_engines == 1 and num_wing_engines != 0:
+            else:
                 num_fuse_engines_all[i] = num_fuse_engines + num_unspecified_engines
                 if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
                     warnings.warn(
-- 
2.43.0


From 882de595c1a7bc9691d6755d44885857b841d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 26/95] fix: engine decks from memory, ragged decks,
 consistency checks and negative-thrust removal

---
 aviary/subsystems/propulsion/engine_deck.py | 54 ++++++++++-----------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..4ca788d 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -190,6 +190,10 @@ class EngineDeck(EngineModel):
         # Create dict for variables present in engine data with associated units
         self.engine_variables = {}
 
+        # variables labeled as inputs or outputs in the data file (unknown for data from memory)
+        self.inputs = []
+        self.outputs = []
+
         if Aircraft.Engine.GLOBAL_THROTTLE in options:
             self.global_throttle = self.options.get_val(Aircraft.Engine.GLOBAL_THROTTLE)
         else:
@@ -373,7 +377,8 @@ class EngineDeck(EngineModel):
                         alias_dict[var] = key
                         break
 
-            # replace old names with aliased ones
+            # replace old names with aliased ones, in a copy (the provided data is not modified)
+            raw_data = NamedValues(raw_data)
             for name in alias_dict:
                 val, units = raw_data.get_item(name)
                 raw_data.delete(name)
@@ -468,7 +473,7 @@ class EngineDeck(EngineModel):
             # prefer using directly provided values for net thrust vs. calculating
             if THRUST in engine_variables:
                 res = abs(net_thrust_calc - original_data[THRUST])
-                if np.any(self.thrust_tol > res):
+                if np.any(res > self.thrust_tol):
                     raise UserWarning(
                         'Provided net thrust is not equal to difference (within tolerance) between '
                         f'gross thrust and ram drag in {self.error_message}'
@@ -528,22 +533,18 @@ class EngineDeck(EngineModel):
         # check that all required variables are present in engine data
         if not self.required_variables.issubset(engine_variables):
             # gather all missing required variables
-            missing_variables = set()
-            for var in engine_variables:
-                if var in self.required_variables:
-                    missing_variables.add(var)
-
-            # if missing_variables is not empty
-            if not missing_variables:
-                raise UserWarning(
-                    f'Required variables {missing_variables} are missing from {self.error_message}'
-                )
+            missing_variables = self.required_variables - set(engine_variables)
+            raise UserWarning(
+                f'Required variables {missing_variables} are missing from {self.error_message}'
+            )
 
         # removes data points with negative thrust if requested
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
             keep_idx = np.where(data[THRUST] >= 0)
             for key in data:
-                data[key] = data[key][keep_idx]
+                # unused variables have no data
+                if len(data[key]):
+                    data[key] = data[key][keep_idx]
 
         self.model_length = len(self.data[ALTITUDE])
 
@@ -1304,8 +1305,7 @@ class EngineDeck(EngineModel):
             if sls_idx.size == 0:
                 raise UserWarning(
                     'Could not find sea-level static max thrust point for EngineDeck '
-                    f'<{self.name}>. Please review the data file '
-                    f'<{self.get_val(Aircraft.Engine.DATA_FILE)}> or manually specify '
+                    f'<{self.name}>. Please review {self.error_message} or manually specify '
                     'aircraft:engine:reference_sls_thrust in EngineDeck options'
                 )
 
@@ -1491,7 +1491,7 @@ class EngineDeck(EngineModel):
 
                 if not self.global_throttle:
                     # normalize throttles for this flight condition from 0 to 1
-                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A] + 1])
+                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A]])
                     normalized_throttle = np.append(normalized_throttle, throttle_list)
                     throttle_min = np.append(throttle_min, min(throttle_list))
                     throttle_max = np.append(throttle_max, max(throttle_list))
@@ -1499,7 +1499,7 @@ class EngineDeck(EngineModel):
                 if not self.global_hybrid_throttle and self.use_hybrid_throttle:
                     # normalize hybrid throttles for this flight condition
                     hybrid_throttle_list = _hybrid_throttle_norm(
-                        packed_hybrid_throttle[M, A][: data_indices[M, A] + 1]
+                        packed_hybrid_throttle[M, A][: data_indices[M, A]]
                     )
                     normalized_hybrid_throttle = np.append(
                         normalized_hybrid_throttle, hybrid_throttle_list
@@ -1520,11 +1520,9 @@ class EngineDeck(EngineModel):
         # store normalized hybrid throttle data
         if self.use_hybrid_throttle:
             if self.global_hybrid_throttle:
-                norm_hybrid_throttle = _hybrid_throttle_norm(self.data[HYBRID_THROTTLE])
-
+                self.data[HYBRID_THROTTLE] = _hybrid_throttle_norm(self.data[HYBRID_THROTTLE])
                 self.hybrid_throttle_min = min(self.data[HYBRID_THROTTLE])
                 self.hybrid_throttle_max = max(self.data[HYBRID_THROTTLE])
-                self.data[HYBRID_THROTTLE] = norm_hybrid_throttle
             else:
                 self.data[HYBRID_THROTTLE] = normalized_hybrid_throttle
                 self.hybrid_throttle_min = hybrid_throttle_min
@@ -1602,8 +1600,7 @@ class EngineDeck(EngineModel):
                     # skip point if there is no data
                     continue
 
-                # number of data points is index+1
-                for D in range(data_indices[M, A] + 1):
+                for D in range(data_indices[M, A]):
                     for key in self.data:
                         unpacked_data = self.data[key]
                         if idx < len(unpacked_data):
@@ -1647,8 +1644,8 @@ class EngineDeck(EngineModel):
 
             if math.isclose(mach_num, curr_mach, abs_tol=self.mach_tol):
                 if math.isclose(alt, curr_alt, abs_tol=self.alt_tol):
-                    data_indices[mach_count - 1, alt_count - 1] = data_count
                     data_count += 1
+                    data_indices[mach_count - 1, alt_count - 1] = data_count
 
                 else:
                     # new altitude for this Mach number, count it
@@ -1659,8 +1656,7 @@ class EngineDeck(EngineModel):
                             raise UserWarning(
                                 'Only one Mach provided for altitude '
                                 f'{altitudes[alt_count]:6.3f} in engine data '
-                                'file '
-                                f'<{self.get_val(Aircraft.Engine.DATA_FILE).name}>'
+                                f'{self.error_message}'
                             )
 
                     curr_alt = alt
@@ -1683,8 +1679,7 @@ class EngineDeck(EngineModel):
                         raise UserWarning(
                             'Only one altitude provided for Mach number '
                             f'{mach_numbers[mach_count]:6.3f} in engine data '
-                            'file '
-                            f'<{self.get_val(Aircraft.Engine.DATA_FILE).name}>'
+                            f'{self.error_message}'
                         )
 
                 # record and count Mach numbers
@@ -1706,9 +1701,10 @@ class EngineDeck(EngineModel):
                 # count data associated with new altitude
                 data_indices[mach_count - 1, alt_count - 1] = 1
 
+        # include the last Mach number and flight condition
         self.mach_max_count = mach_count
-        self.alt_max_count = max_alt_count
-        self.data_max_count = max_data_count
+        self.alt_max_count = max(max_alt_count, alt_count)
+        self.data_max_count = max(max_data_count, data_count)
         self.data_indices = data_indices.astype(int)
 
 
-- 
2.43.0


From 48d94b28ad44a3e8b679d40497bf277ba7aa1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:36 +0000
Subject: [PATCH 27/95] fix: the RPM of an engine deck was lost

---
 aviary/subsystems/propulsion/engine_deck.py    | 3 +++
 aviary/subsystems/propulsion/engine_scaling.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 4ca788d..fbd3a7a 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1056,6 +1056,9 @@ class EngineDeck(EngineModel):
         outputs = []
         if getattr(self, 'use_t4', False):
             outputs.append(Dynamic.Vehicle.Propulsion.TEMPERATURE_T4)
+        # RPM is not scaled, so it also comes directly from the interpolation
+        if RPM in self.engine_variables:
+            outputs.append(Dynamic.Vehicle.Propulsion.RPM)
 
         engine_group.add_subsystem(
             'interpolation', engine, promotes_inputs=['*'], promotes_outputs=outputs
diff --git a/aviary/subsystems/propulsion/engine_scaling.py b/aviary/subsystems/propulsion/engine_scaling.py
index ef3173d..1e7a11b 100644
--- a/aviary/subsystems/propulsion/engine_scaling.py
+++ b/aviary/subsystems/propulsion/engine_scaling.py
@@ -19,10 +19,11 @@ FUEL_FLOW = EngineModelVariables.FUEL_FLOW
 ELECTRIC_POWER = EngineModelVariables.ELECTRIC_POWER_IN
 NOX_RATE = EngineModelVariables.NOX_RATE
 TEMPERATURE = EngineModelVariables.TEMPERATURE_T4
+RPM = EngineModelVariables.RPM
 # EXIT_AREA = EngineModelVariables.EXIT_AREA
 
 # these variables are not outputs or are variables that should not get scaled
-skip_variables = [MACH, ALTITUDE, THROTTLE, HYBRID_THROTTLE, TEMPERATURE]
+skip_variables = [MACH, ALTITUDE, THROTTLE, HYBRID_THROTTLE, TEMPERATURE, RPM]
 
 
 class EngineScaling(om.ExplicitComponent):
-- 
2.43.0


From 1a963ed144ca1cdb0c195c1f8fa527ef68d508a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 28/95] fix: drag and friction accelerated the aircraft in the
 landing flare equations

---
 aviary/mission/energy_state/ode/landing_eom.py |  3 ++-
 aviary/mission/energy_state/ode/takeoff_eom.py | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/aviary/mission/energy_state/ode/landing_eom.py b/aviary/mission/energy_state/ode/landing_eom.py
index 97a037c..daa0496 100644
--- a/aviary/mission/energy_state/ode/landing_eom.py
+++ b/aviary/mission/energy_state/ode/landing_eom.py
@@ -55,7 +55,8 @@ class FlareEOM(om.Group):
 
         self.add_subsystem(
             'accelerations',
-            Accelerations(num_nodes=nn),
+            # forces_horizontal follows FLOPS and is positive against the direction of flight
+            Accelerations(num_nodes=nn, retarding=True),
             promotes_inputs=inputs,
             promotes_outputs=outputs,
         )
diff --git a/aviary/mission/energy_state/ode/takeoff_eom.py b/aviary/mission/energy_state/ode/takeoff_eom.py
index 0eeb42e..8d911ba 100644
--- a/aviary/mission/energy_state/ode/takeoff_eom.py
+++ b/aviary/mission/energy_state/ode/takeoff_eom.py
@@ -272,6 +272,13 @@ class Accelerations(om.ExplicitComponent):
 
         options.declare('num_nodes', default=1, types=int, lower=0)
 
+        options.declare(
+            'retarding',
+            default=False,
+            types=bool,
+            desc='True if the horizontal force is positive against the direction of flight',
+        )
+
     def setup(self):
         nn = self.options['num_nodes']
 
@@ -341,6 +348,9 @@ class Accelerations(om.ExplicitComponent):
         f_h = inputs['forces_horizontal']
         f_v = inputs['forces_vertical']
 
+        if self.options['retarding']:
+            f_h = -f_h
+
         a_h = f_h / mass
         outputs['acceleration_horizontal'] = a_h
 
@@ -354,10 +364,12 @@ class Accelerations(om.ExplicitComponent):
 
         m2 = mass * mass
 
-        J['acceleration_horizontal', Dynamic.Vehicle.MASS] = -f_h / m2
+        sign = -1.0 if self.options['retarding'] else 1.0
+
+        J['acceleration_horizontal', Dynamic.Vehicle.MASS] = -sign * f_h / m2
         J['acceleration_vertical', Dynamic.Vehicle.MASS] = -f_v / m2
 
-        J['acceleration_horizontal', 'forces_horizontal'] = 1.0 / mass
+        J['acceleration_horizontal', 'forces_horizontal'] = sign / mass
 
         J['acceleration_vertical', 'forces_vertical'] = 1.0 / mass
 
-- 
2.43.0


From 3777fc0c096d0c6694b01447ed138f1b97b39c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 29/95] fix: pass each engine model its own subsystem options
 in the mission propulsion group

---
 aviary/subsystems/propulsion/propulsion_mission.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_mission.py b/aviary/subsystems/propulsion/propulsion_mission.py
index 2bc160b..fcf4313 100644
--- a/aviary/subsystems/propulsion/propulsion_mission.py
+++ b/aviary/subsystems/propulsion/propulsion_mission.py
@@ -127,14 +127,14 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                 else:
                     base_comp = engine.build_mission(
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                     engine_model = om.Group()
 
@@ -142,7 +142,7 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
 
                     input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
@@ -198,14 +198,14 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
             else:
                 base_comp = engine.build_mission(
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
                 engine_model = om.Group()
 
@@ -213,7 +213,7 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
 
                 input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
-- 
2.43.0


From a1564a269a82a1a38e974af0efc035808267e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 30/95] fix: pre-mission propulsion could not be built with
 three or more engine types, or with engine models that lack outputs others
 have

---
 .../propulsion/propulsion_premission.py       | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 808196d..60d1413 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -64,7 +64,11 @@ class PropulsionPreMission(om.Group):
         if num_engine_type > 1:
             # Add an empty mux comp, which will be customized to handle all required outputs in
             # configure()
-            self.add_subsystem('pre_mission_mux', subsys=om.MuxComp(), promotes_outputs=['*'])
+            self.add_subsystem(
+                'pre_mission_mux',
+                subsys=om.MuxComp(vec_size=num_engine_type),
+                promotes_outputs=['*'],
+            )
 
         self.add_subsystem(
             'propulsion_sum',
@@ -79,6 +83,7 @@ class PropulsionPreMission(om.Group):
         # vectorized inputs/outputs are a problem. Slice all needed vector inputs and pass
         # pre_mission components only the value they need, then mux all the outputs back together.
 
+        aviary_options = self.options['aviary_options']
         engine_models = self.options['engine_models']
         num_engine_type = len(engine_models)
 
@@ -105,6 +110,11 @@ class PropulsionPreMission(om.Group):
 
         for idx, engine_model in enumerate(engine_models):
             engine = self._get_subsystem(engine_model.name)
+            if engine is None:
+                # pre-mission analysis is optional for engine models
+                input_dict[engine_model.name] = {}
+                output_dict[engine_model.name] = {}
+                continue
             # Patterns to identify which inputs/outputs are vectorized and need to be
             # split then re-muxed
             pattern = ['engine:', 'nacelle:']
@@ -177,13 +187,14 @@ class PropulsionPreMission(om.Group):
                             engine + '.' + output,
                             'pre_mission_mux.' + output + '_' + str(i),
                         )
-                    else:
+                    elif output in aviary_options:
                         # If this component does not provide the output, pass the existing value for
                         # that index to the mux
-                        self.connect(
-                            output,
+                        val, units = aviary_options.get_item(output)
+                        self.set_input_defaults(
                             'pre_mission_mux.' + output + '_' + str(i),
-                            src_indices=om.slicer[i],
+                            val=np.atleast_1d(val)[i],
+                            units=units,
                         )
 
 
-- 
2.43.0


From 007c93a1ac50ab9a6be262c6bf2da216247d021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 31/95] fix: canard length and fineness kept values of an
 earlier evaluation when the canard area is zero

---
 .../subsystems/geometry/flops_based/characteristic_lengths.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
index 4b72422..4cdd43b 100644
--- a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
+++ b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
@@ -600,6 +600,8 @@ class CanardCharacteristicLength(om.ExplicitComponent):
         area = inputs[Aircraft.Canard.AREA]
 
         if area <= 0.0:
+            outputs[Aircraft.Canard.CHARACTERISTIC_LENGTH] = 0.0
+            outputs[Aircraft.Canard.FINENESS] = 0.0
             return
 
         thickness_to_chord = inputs[Aircraft.Canard.THICKNESS_TO_CHORD]
-- 
2.43.0


From 26531308bfccc24005c11ce2db68c2c449b13b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 32/95] fix: derivative of skin friction drag with Reynolds
 number kept its last laminar value after laminar flow was removed

---
 .../subsystems/aerodynamics/flops_based/skin_friction_drag.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py b/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
index 06c792b..d8dfb27 100644
--- a/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
+++ b/aviary/subsystems/aerodynamics/flops_based/skin_friction_drag.py
@@ -276,6 +276,8 @@ class SkinFrictionDrag(om.ExplicitComponent):
 
         if laminar_flow:
             partials['skin_friction_drag_coeff', 'Re'] = DCDF_dRe.ravel()
+        else:
+            partials['skin_friction_drag_coeff', 'Re'] = 0.0
 
         partials['skin_friction_drag_coeff', 'fineness_ratios'] = np.einsum(
             'ij,j->ij', DCDF_dform, dform_dfine
-- 
2.43.0


From dc356e4befb942ad46973ce6b66e04463a5910b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 33/95] fix: derivative of passenger service mass was zero for
 10 to 19 passengers

---
 aviary/subsystems/mass/gasp_based/passenger_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/passenger_service.py b/aviary/subsystems/mass/gasp_based/passenger_service.py
index 82d0a38..8b4fcf4 100644
--- a/aviary/subsystems/mass/gasp_based/passenger_service.py
+++ b/aviary/subsystems/mass/gasp_based/passenger_service.py
@@ -90,7 +90,7 @@ class PassengerServiceMass(om.ExplicitComponent):
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
-            ] = 0
+            ] = num_pax if num_pax > 9.0 else 0
 
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
-- 
2.43.0


From 29db7c913278f2de217659d230bf604587949622 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 34/95] fix: dependent options were chosen by the bare number
 of a variable, whatever its units

---
 aviary/utils/process_input_decks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 044ecbe..4f120d2 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -280,7 +280,8 @@ def update_dependent_options(aircraft_values: AviaryValues, dependent_options):
     # gets the names of all the variables that affect dependent options
     for var_name, dependency in dependent_options:
         if var_name in aircraft_values.keys():
-            var_value, var_units = aircraft_values.get_item(var_name)
+            # compare in the variable's default units, regardless of the units it was provided in
+            var_value = aircraft_values.get_val(var_name, CoreMetaData[var_name]['units'])
             # dependency is a dictionary that contains the target option, the relationship to the variable and the output values
             if dependency['relation'] in operation_dict:
                 comp = operation_dict[dependency['relation']]
-- 
2.43.0


From ec1d795f1b65f00839d0d7f74f24d191c8cf51c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 35/95] fix: reading a vehicle deck failed on a bracketed array
 without units

---
 aviary/utils/process_input_decks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 4f120d2..62e8084 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -175,7 +175,7 @@ def parse_inputs(
             if len(data_list) == 0:
                 continue
             var_name = data_list.pop(0)
-            if valid_units(data_list[-1]):
+            if valid_units(data_list[-1].strip('[]')):
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-- 
2.43.0


From 41445e2036de7f5c3b0b9c2c539f1e3e826d4ed5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 36/95] fix: an engine or flap type given by number in a
 vehicle deck became a list that models do not understand

---
 aviary/utils/process_input_decks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 62e8084..a4b130b 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -17,6 +17,7 @@ Functions:
 """
 
 import warnings
+from enum import Enum
 from operator import eq, ge, gt, le, lt, ne
 
 import numpy as np
@@ -184,8 +185,12 @@ def parse_inputs(
             # individual value. Otherwise, convert list to numpy array
             if len(var_value) <= 1:
                 if var_name in meta_data and meta_data[var_name]['multivalue']:
+                    types = meta_data[var_name]['types']
+                    if isinstance(types, type) and issubclass(types, Enum):
+                        # an Enum member given by value is a single member, same as by name
+                        var_value = var_value[0]
                     # if data is numeric, convert to numpy array
-                    if isinstance(var_value[0], (int, float)):
+                    elif isinstance(var_value[0], (int, float)):
                         var_value = np.array(var_value)
                 else:
                     var_value = var_value[0]
-- 
2.43.0


From 8aefea0963a91bcfc84f4eea26c482d5f9ae0cb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 37/95] fix: lists of Enum members were saved to csv in a form
 that cannot be read back

---
 aviary/utils/aviary_inputs_to_csv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/aviary_inputs_to_csv.py b/aviary/utils/aviary_inputs_to_csv.py
index 7c0b638..52f6235 100644
--- a/aviary/utils/aviary_inputs_to_csv.py
+++ b/aviary/utils/aviary_inputs_to_csv.py
@@ -20,7 +20,9 @@ def save_to_csv_file(filename, aviary_inputs):
         for name, (value, units) in sorted(aviary_inputs):
             output = [name]
             if isinstance(value, (np.ndarray, list, tuple)):
-                output.extend(value)
+                output.extend(
+                    item.value if isinstance(item, Enum) else item for item in value
+                )
             elif isinstance(value, Enum):
                 output.append(value.value)
             else:
-- 
2.43.0


From 0c9212de0026aa52d19aec49a78c11c9f3793a49 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 38/95] fix: whole numbers and text were refused in lists and
 arrays of engine wing locations

---
 aviary/utils/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 07dc21e..ebc8512 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -231,9 +231,13 @@ def cast_type(key, val, meta_data=CoreMetaData):
     if not isinstance(expected_types, tuple):
         expected_types = (expected_types,)
 
-    # If provided val is not in expected types, see if it can be casted to one of
-    # them (e.g. cast int to float).
-    if not isinstance(cast_val, expected_types):
+    # If provided val (or any of its items) is not in expected types, see if it can be casted to one
+    # of them (e.g. cast int to float).
+    needs_cast = not isinstance(cast_val, expected_types) or (
+        isinstance(cast_val, (list, tuple, np.ndarray))
+        and not all(isinstance(item, expected_types) for item in cast_val)
+    )
+    if needs_cast:
         # Prefer casting to Enum if possible
         # Special handling to access an Enum member from either the member name or its value.
         is_enum = False
-- 
2.43.0


From b633f9c7f8d943efa86f945098c855bc21a5a141 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 39/95] fix: consistent fuel capacities given in different
 units were refused because of conversion round-off

---
 aviary/utils/preprocessors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 777ae26..14fce8b 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -706,7 +706,9 @@ def preprocess_fuel_capacities(aviary_options: AviaryValues, verbosity=None):
             )
 
             # check if the user inputs are self consistent (as far as possible at this stage!) Aviary can still calculate outputs at runtime.
-            if capacity_count == 3 and capacity_check != total_capacity:
+            # Capacities can be provided in different units, so allow for conversion round-off
+            consistent = np.isclose(capacity_check, total_capacity, rtol=1e-6, atol=1e-6)
+            if capacity_count == 3 and not consistent:
                 raise UserWarning(
                     f'Aircraft.Fuel.MAX_CAPACITY_MASS ({total_capacity} lbm) is not equal to sum of '
                     f'Aircraft.Fuel.WING_FUEL_CAPACITY ({wing_capacity} lbm), '
@@ -714,7 +716,7 @@ def preprocess_fuel_capacities(aviary_options: AviaryValues, verbosity=None):
                     f'Aircraft.Fuel.AUXILIARY_FUEL_CAPACITY ({auxiliary_capacity} lbm)'
                     f'(total of {capacity_check} lbm)'
                 )
-            elif capacity_count < 3 and capacity_check > total_capacity:
+            elif capacity_count < 3 and capacity_check > total_capacity and not consistent:
                 raise UserWarning(
                     f'Aircraft.Fuel.MAX_CAPACITY_MASS ({total_capacity}) is less than sum of '
                     f'Aircraft.Fuel.WING_FUEL_CAPACITY ({wing_capacity} lbm), '
-- 
2.43.0


From 75b33e510fc61e8f3bcbe5d82aa1246816af48d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 40/95] fix: data files with parentheses inside units could not
 be read

---
 aviary/utils/csv_data_file.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..8184b27 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -12,6 +12,19 @@ from aviary.utils.named_values import NamedValues
 from aviary.variable_info.enums import Verbosity
 
 
+def _split_columns(line):
+    """Split line by delimiters that are not inside (possibly nested) parentheses."""
+    columns = ['']
+    depth = 0
+    for char in line:
+        depth += (char == '(') - (char == ')')
+        if char in ';,' and depth <= 0:
+            columns.append('')
+        else:
+            columns[-1] += char
+    return [columns[0]] + [column.lstrip() for column in columns[1:]]
+
+
 # multiple type annotation uses "typeA | typeB" syntax, but requires Python 3.10+
 # filename: (str, Path)
 def read_data_file(
@@ -87,7 +100,7 @@ def read_data_file(
 
             # split by delimiters, remove whitespace and newline characters
             # do not split by delimiters inside parentheses yet
-            line_data = re.split(r'[;,]\s*(?![^()]*\))', line_data.strip())
+            line_data = _split_columns(line_data.strip())
 
             # ignore empty lines
             if not line_data or line_data == ['']:
@@ -105,8 +118,11 @@ def read_data_file(
                     # list of which column goes with each valid header entry
                     valid_indices = []
                     for index in range(len(line_data)):
-                        item = re.split('[(,]', line_data[index])
-                        item = [item[i].strip(') ') for i in range(len(item))]
+                        # units can contain parentheses, only remove the outermost pair
+                        name, _, info = line_data[index].partition('(')
+                        info = info.strip().removesuffix(')')
+                        item = [name.strip()]
+                        item.extend(entry.strip() for entry in info.split(',') if entry.strip())
                         # OpenMDAO vars can't have spaces, convert to underscores
                         name = re.sub('\\s', '_', item[0])
                         if aliases:
-- 
2.43.0


From b3b1b7c16b4178be06cbb5b5f8c82e4b22ce5edd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 41/95] fix: blank fields in data files moved data to other
 columns, trailing delimiters made files unreadable

---
 aviary/utils/csv_data_file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 8184b27..429348f 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -102,13 +102,16 @@ def read_data_file(
             # do not split by delimiters inside parentheses yet
             line_data = _split_columns(line_data.strip())
 
-            # ignore empty lines
-            if not line_data or line_data == ['']:
+            # ignore blank entries at the end of the line, and empty lines
+            while line_data and line_data[-1].strip() == '':
+                line_data.pop()
+            if not line_data:
                 continue
 
-            # try to convert line_data to float, skip any blank strings
+            # try to convert line_data to float. Blank entries between others are not skipped, that
+            # would move the following data into the wrong columns
             try:
-                line_data = [float(var) for var in line_data if var != '']
+                line_data = [float(var) for var in line_data]
             # data contains things other than floats
             except ValueError:
                 # skip checking for header data if not required
-- 
2.43.0


From a43e506b7721d32083151bbef60410f2a254b6e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 42/95] fix: data of a column repeated in a data file were
 assigned to the wrong variables

---
 aviary/utils/csv_data_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 429348f..a6e62ae 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -200,6 +200,11 @@ def read_data_file(
                                     )
                             units = default_units
 
+                        if name in header:
+                            raise ValueError(
+                                f'{filepath}: More than one column provides data for <{name}>.'
+                            )
+
                         header[name] = units
                         valid_indices.append(index)
 
-- 
2.43.0


From e5b3b792ddf324d5fd27326e70d7141661296544 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 43/95] fix: data files with a variable labeled as input and
 output were refused instead of read as input

---
 aviary/utils/csv_data_file.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index a6e62ae..b6bc2e5 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -154,10 +154,12 @@ def read_data_file(
                             if 'input' in item:
                                 # edge case where user provides both for some reason
                                 if 'output' in item:
-                                    raise UserWarning(
-                                        f'{filepath}: Variable {name} is listed as both an input '
-                                        'and an output. Treating it as an input only.'
-                                    )
+                                    if verbosity > Verbosity.QUIET:  # BRIEF, VERBOSE, DEBUG
+                                        warnings.warn(
+                                            f'{filepath}: Variable {name} is listed as both an '
+                                            'input and an output. Treating it as an input only.'
+                                        )
+                                    item.pop(item.index('output'))
                                 item.pop(item.index('input'))
                                 inputs.append(name)
                             elif 'output' in item:
-- 
2.43.0


From ee0edce4c88d986baa19cd74811dcf19f0163cdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 44/95] fix: reading and writing data files changed the aliases
 and comments of the caller

---
 aviary/utils/csv_data_file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index b6bc2e5..031d3f0 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -81,9 +81,11 @@ def read_data_file(
 
     # prep aliases for case-insensitive matching, with spaces == underscores
     if aliases:
+        # do not modify the dictionary of the caller
+        aliases = {
+            key: [val] if isinstance(val, str) else list(val) for key, val in aliases.items()
+        }
         for key in aliases:
-            if isinstance(aliases[key], str):
-                aliases[key] = [aliases[key]]
             aliases[key] = [re.sub('\\s', '_', item).lower() for item in aliases[key]]
 
     with open(filepath, newline=None, encoding='utf-8-sig') as file:
@@ -281,6 +283,9 @@ def write_data_file(
 
     if type(comments) is str:
         comments = [comments]
+    else:
+        # do not modify the list of the caller
+        comments = list(comments)
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
-- 
2.43.0


From 33c624c90b4603b9e2956216af19d54b1b6fbafa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 45/95] fix: outputs labeled in an interpolator data file were
 not used unless repeated in the arguments

---
 aviary/utils/data_interpolator_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index ebc9f67..7073392 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -82,7 +82,7 @@ def build_data_interpolator(
             addtl_outputs = list(interpolator_outputs.keys())
         else:
             addtl_outputs = interpolator_outputs
-        outputs = list(set(outputs + addtl_outputs))
+        outputs = outputs + [key for key in addtl_outputs if key not in outputs]
 
     all_vars = interpolator_data.keys()
 
@@ -105,7 +105,7 @@ def build_data_interpolator(
     # Scenario 3: Both inputs and outputs provided
     # Check that nothing in interpolator_outputs conflicts with inputs - read_data_file() already
     # checks for "double labeling" of inputs/outputs in data file
-    for key in interpolator_outputs:
+    for key in outputs:
         if key in inputs:
             raise UserWarning(f'Variable <{key}> was specified as both an input and a output.')
     for key in all_vars:
@@ -125,7 +125,7 @@ def build_data_interpolator(
     for key, (val, units) in interpolator_data.items():
         if not isinstance(val, np.ndarray):
             val = np.array(val)
-        if key in interpolator_outputs:
+        if key in outputs:
             dep_vars.set_val(key, val, units)
         else:
             indep_vars.set_val(key, val, units)
-- 
2.43.0


From 17bb2e5f04dd6e343010073af20dfa58f99d20e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 46/95] fix: interpolators mixed up columns when outputs came
 before inputs

---
 aviary/utils/data_interpolator_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index 7073392..96054d2 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -130,6 +130,7 @@ def build_data_interpolator(
         else:
             indep_vars.set_val(key, val, units)
     # update interpolator_data with correctly ordered indep/dep vars in numpy arrays
+    interpolator_data.clear()
     interpolator_data.update(indep_vars)
     for key, (val, units) in dep_vars.items():
         interpolator_data.set_val(key, val, units)
-- 
2.43.0


From f1082b0656dfdbf77a5ad7eb2eb6f457e0f0ea17 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 47/95] fix: interpolators with connected training data could
 not be built on a structured grid

---
 aviary/utils/data_interpolator_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/data_interpolator_builder.py b/aviary/utils/data_interpolator_builder.py
index 96054d2..5950e20 100644
--- a/aviary/utils/data_interpolator_builder.py
+++ b/aviary/utils/data_interpolator_builder.py
@@ -157,7 +157,8 @@ def build_data_interpolator(
 
     # check outputs, should be array matching shape of input vector lengths
     # if we already know data needs formatting, don't bother checking outputs
-    if data_pre_structured:
+    # outputs provided via connections are not known yet
+    if data_pre_structured and not connect_training_data:
         for key in outputs:
             (val, units) = interpolator_data.get_item(key)
             if np.shape(val) != tuple(shape):
-- 
2.43.0


From ba6f8293d5b585325bfe972644993a634fdf2fa0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 48/95] fix: merge_hierarchies changed the hierarchies it was
 given

---
 aviary/utils/merge_hierarchies.py | 39 ++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/aviary/utils/merge_hierarchies.py b/aviary/utils/merge_hierarchies.py
index 3453d65..0ecba43 100644
--- a/aviary/utils/merge_hierarchies.py
+++ b/aviary/utils/merge_hierarchies.py
@@ -1,8 +1,31 @@
-import copy
-
 from aviary.utils.compare_hierarchies import compare_hierarchies_to_merge, compare_inner_classes
 
 
+def copy_hierarchy(hierarchy):
+    """
+    Copy a variable hierarchy, including all of its inner classes.
+
+    copy.deepcopy returns classes unchanged, so the copy is built from the attributes of each class.
+
+    Parameters
+    ----------
+    hierarchy : class
+        A class that is all or part of a variable hierarchy.
+
+    Returns
+    -------
+    class
+        A new class with the same name, superclasses and attributes as the provided one, which shares
+        no inner classes defined within it.
+    """
+    attributes = {}
+    for name, value in vars(hierarchy).items():
+        if name in ('__dict__', '__weakref__'):
+            continue
+        attributes[name] = copy_hierarchy(value) if isinstance(value, type) else value
+    return type(hierarchy)(hierarchy.__name__, hierarchy.__bases__, attributes)
+
+
 def merge_attributes(base_class, merge_class, base_class_attributes, merge_class_attributes):
     """
     Adds unique attributes of merge_class to base_class.
@@ -46,7 +69,11 @@ def merge_attributes(base_class, merge_class, base_class_attributes, merge_class
     )  # attributes present only in merge_class
 
     for attr in merge_class_unique:
-        setattr(base_class, attr, getattr(merge_class, attr))
+        value = getattr(merge_class, attr)
+        if isinstance(value, type):
+            # later merges add to this inner class, which must not change merge_class
+            value = copy_hierarchy(value)
+        setattr(base_class, attr, value)
 
     return base_class
 
@@ -187,8 +214,8 @@ def merge_hierarchies(hierarchies_to_merge):
         # checks if the given hierarchy is the first subclass of the hierarchies
         if (len(hierarchy.__mro__) > 2) and (subclass_type is None):
             # gets highest level superclass of the class before "class" itself
-            subclass_type = copy.deepcopy(hierarchy.__mro__[-2])
-            subclass_hierarchy = copy.deepcopy(hierarchy)
+            subclass_type = hierarchy.__mro__[-2]
+            subclass_hierarchy = copy_hierarchy(hierarchy)
         elif len(hierarchy.__mro__) > 2:  # checks if the given hierarchy is a subclass
             if hierarchy.__mro__[-2] != subclass_type:
                 raise ValueError(
@@ -200,7 +227,7 @@ def merge_hierarchies(hierarchies_to_merge):
     ):  # ensure that we build on the subclassed hierarchy if we have one, that way the super class information is not lost
         merged_hierarchy = subclass_hierarchy
     else:
-        merged_hierarchy = copy.deepcopy(hierarchies_to_merge[0])
+        merged_hierarchy = copy_hierarchy(hierarchies_to_merge[0])
 
     for hierarchy in hierarchies_to_merge:
         merged_hierarchy = merge_two_hierarchies(merged_hierarchy, hierarchy)
-- 
2.43.0


From bda03834aacdaa1e4813dc61c0db9345b5418d18 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 49/95] fix: merging hierarchies dropped a variable named like
 another's inner class

---
 aviary/utils/compare_hierarchies.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aviary/utils/compare_hierarchies.py b/aviary/utils/compare_hierarchies.py
index 7162f45..fc69f5c 100644
--- a/aviary/utils/compare_hierarchies.py
+++ b/aviary/utils/compare_hierarchies.py
@@ -94,6 +94,15 @@ def compare_inner_classes(class1, class2, show_all=False):
 
     class1_inner_classes_set = set(class1_inner_classes)
     class2_inner_classes_set = set(class2_inner_classes)
+
+    # a name cannot be both a variable and an inner class
+    for name in (class1_vars_set & class2_inner_classes_set) | (
+        class2_vars_set & class1_inner_classes_set
+    ):
+        raise ValueError(
+            f"You have attempted to merge two variable hierarchies together that use the same name for a variable and for an inner class. The offending name is '{name}', in '{class1.__qualname__}' and '{class2.__qualname__}'."
+        )
+
     overlapping_inner_classes = class1_inner_classes_set & class2_inner_classes_set
 
     if show_all:
-- 
2.43.0


From 62d095e5a54251e6c9d5004edc019f77d6888c93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 50/95] fix: merging hierarchies lost or overrode what one
 inherits from the core hierarchy

---
 aviary/utils/compare_hierarchies.py | 24 ++++++++++++++++++++++--
 aviary/utils/merge_hierarchies.py   | 17 ++++++++++++-----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/aviary/utils/compare_hierarchies.py b/aviary/utils/compare_hierarchies.py
index fc69f5c..1e74752 100644
--- a/aviary/utils/compare_hierarchies.py
+++ b/aviary/utils/compare_hierarchies.py
@@ -2,6 +2,26 @@ from aviary.variable_info.variables import Aircraft as _Aircraft
 from aviary.variable_info.variables import Mission as _Mission
 
 
+def get_attributes(hierarchy):
+    """
+    Return a dictionary of the attributes of a class, including those of its superclasses.
+
+    Parameters
+    ----------
+    hierarchy : class
+        A class that is all or part of a variable hierarchy.
+
+    Returns
+    -------
+    dict
+        The value of each attribute, by name.
+    """
+    attributes = {}
+    for superclass in reversed(hierarchy.__mro__[:-1]):
+        attributes.update(vars(superclass))
+    return attributes
+
+
 def compare_inner_classes(class1, class2, show_all=False):
     """
     Compare two nested class hierarchies and return a set of shared inner-classes.
@@ -48,8 +68,8 @@ def compare_inner_classes(class1, class2, show_all=False):
         If the two input classes both have a variable with the same variable name but
         different string-named value.
     """
-    class1_vars_inner_classes = vars(class1)
-    class2_vars_inner_classes = vars(class2)
+    class1_vars_inner_classes = get_attributes(class1)
+    class2_vars_inner_classes = get_attributes(class2)
 
     class1_vars = []
     class1_inner_classes = []
diff --git a/aviary/utils/merge_hierarchies.py b/aviary/utils/merge_hierarchies.py
index 0ecba43..8b3c091 100644
--- a/aviary/utils/merge_hierarchies.py
+++ b/aviary/utils/merge_hierarchies.py
@@ -1,4 +1,8 @@
-from aviary.utils.compare_hierarchies import compare_hierarchies_to_merge, compare_inner_classes
+from aviary.utils.compare_hierarchies import (
+    compare_hierarchies_to_merge,
+    compare_inner_classes,
+    get_attributes,
+)
 
 
 def copy_hierarchy(hierarchy):
@@ -19,10 +23,13 @@ def copy_hierarchy(hierarchy):
         no inner classes defined within it.
     """
     attributes = {}
-    for name, value in vars(hierarchy).items():
-        if name in ('__dict__', '__weakref__'):
-            continue
-        attributes[name] = copy_hierarchy(value) if isinstance(value, type) else value
+    for name, value in get_attributes(hierarchy).items():
+        if name not in vars(hierarchy):
+            if isinstance(value, type):
+                # extend inner classes of the superclass, so that merging does not change them
+                attributes[name] = copy_hierarchy(type(value)(name, (value,), {}))
+        elif name not in ('__dict__', '__weakref__'):
+            attributes[name] = copy_hierarchy(value) if isinstance(value, type) else value
     return type(hierarchy)(hierarchy.__name__, hierarchy.__bases__, attributes)
 
 
-- 
2.43.0


From 6d4167ec7dad44f289cc354757e29725f6b38e35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 51/95] fix: sigmoid derivative with several centers of
 symmetry

---
 aviary/utils/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 245c2b1..63cee6b 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -85,7 +85,10 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2 = np.zeros(n_size, dtype=dtype)
         # avoid overflow in squared term, underflow seems to be ok
         calc_idx = np.where((x.real - x0) / mu > -320)
-        term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
+        if isinstance(x0, np.ndarray) and len(x0) == n_size:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0[calc_idx]) / mu)
+        else:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
-- 
2.43.0


From 78003f172f31a37e686cdffa069779d95626bf63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 52/95] fix: initial time bounds were ignored in phases whose
 initial time is not linked directly

---
 aviary/mission/energy_state_problem_configurator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 5dd67c7..938ecea 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -182,8 +182,12 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
         fix_initial = initial is not None
         fix_duration = duration is not None
 
-        # All follow-on phases.
-        input_initial = phase_idx > 0
+        # All follow-on phases, unless their initial time is a design variable.
+        input_initial = (
+            phase_idx > 0
+            and user_options['time_initial_direct_link']
+            and phase_name not in aviary_group.reserve_phases[:1]
+        )
 
         # Figure out resonable refs if they aren't given.
         if initial_ref == 1.0:
-- 
2.43.0


From 449d81638191688a6345b66e0cdaed94cb1f80e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 53/95] fix: initial guesses failed for phases without a time
 guess or time bounds

---
 aviary/mission/energy_state_problem_configurator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 938ecea..508090c 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -526,11 +526,13 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
             initial = wrapped_convert_units(options['time_initial'], 's')
             if initial is None:
                 initial_bounds = wrapped_convert_units(options['time_initial_bounds'], 's')
-                initial = np.mean(initial_bounds[0])
+                if initial_bounds[0] is not None:
+                    initial = np.mean(initial_bounds[0])
             duration = wrapped_convert_units(options['time_duration'], 's')
             if duration is None:
                 duration_bounds = wrapped_convert_units(options['time_duration_bounds'], 's')
-                duration = np.mean(duration_bounds[0])
+                if duration_bounds[0] is not None:
+                    duration = np.mean(duration_bounds[0])
 
             guess_dict['time'] = ([initial, duration], 's')
 
-- 
2.43.0


From cd466bf2eb574c9bd04a456f9e55bbb754a81a13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 54/95] fix: a time guess replaced the initial time or duration
 fixed in the phase options

---
 aviary/mission/energy_state_problem_configurator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 508090c..1e1cab2 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -541,6 +541,12 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
 
             if 'time' == guess_key:
                 phase.set_time_val(initial=val[0], duration=val[1], units=units)
+                # Guesses must not replace values that are fixed by the user_options.
+                phase.set_time_val(
+                    initial=wrapped_convert_units(options['time_initial'], 's'),
+                    duration=wrapped_convert_units(options['time_duration'], 's'),
+                    units='s',
+                )
 
             elif guess_key in control_keys:
                 phase.set_control_val(guess_key, val, units=units)
-- 
2.43.0


From ef7197635e418e67cd0aa28380784af9c0b77f7d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 55/95] fix: phases with both no_climb and no_descent could not
 be built

---
 aviary/mission/flight_phase_builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/flight_phase_builder.py b/aviary/mission/flight_phase_builder.py
index c6c986e..787cd80 100644
--- a/aviary/mission/flight_phase_builder.py
+++ b/aviary/mission/flight_phase_builder.py
@@ -348,10 +348,13 @@ class FlightPhaseBase(PhaseBuilder):
         # Add Constraints #
         ###################
 
-        if no_descent and Dynamic.Mission.ALTITUDE_RATE not in constraints:
+        if no_descent and no_climb and Dynamic.Mission.ALTITUDE_RATE not in constraints:
+            phase.add_path_constraint(Dynamic.Mission.ALTITUDE_RATE, lower=0.0, upper=0.0, ref=20.0)
+
+        elif no_descent and Dynamic.Mission.ALTITUDE_RATE not in constraints:
             phase.add_path_constraint(Dynamic.Mission.ALTITUDE_RATE, lower=0.0, ref=20.0)
 
-        if no_climb and Dynamic.Mission.ALTITUDE_RATE not in constraints:
+        elif no_climb and Dynamic.Mission.ALTITUDE_RATE not in constraints:
             phase.add_path_constraint(Dynamic.Mission.ALTITUDE_RATE, upper=0.0, ref=20.0)
 
         required_available_climb_rate, units = user_options['required_available_climb_rate']
-- 
2.43.0


From 7113f3bad2458dd614dd047285e7e00d31f2bf2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 56/95] fix: missions with a directly linked control could not
 be set up

---
 aviary/core/aviary_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..bd597de 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1055,7 +1055,7 @@ class AviaryGroup(om.Group):
                     key = f'{var}_direct_link'
                 connect = connect_directly and phase_info2.get(key, connect_directly)
 
-                if opt2 is False:
+                if opt2 is not None:
                     # Controls cannot connect directly.
                     connect = False
 
-- 
2.43.0


From f215274431d0e5fe7958c71ca6d5979331785319 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 57/95] fix: phase boundary values of zero were not treated as
 fixed when linking phases

---
 aviary/core/aviary_group.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index bd597de..0327e2f 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1042,7 +1042,10 @@ class AviaryGroup(om.Group):
 
                 pin1 = phase_info1.get(f'{var}_final', (None, None))[0]
                 pin2 = phase_info2.get(f'{var}_initial', (None, None))[0]
-                if pin1 and pin2:
+                if var == 'time' and pin2 == 0:
+                    # A phase that follows another one cannot start at time zero.
+                    pin2 = None
+                if pin1 is not None and pin2 is not None:
                     # When both ends are pinned, no need to add a duplicate constraint.
                     continue
 
@@ -1059,7 +1062,7 @@ class AviaryGroup(om.Group):
                     # Controls cannot connect directly.
                     connect = False
 
-                elif pin2:
+                elif pin2 is not None:
                     # Pinned front can't take input.
                     connect = False
 
-- 
2.43.0


From 8120cb549b582eab503ca6ef7514a8d49defa1c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 58/95] fix: missions of one phase did not get their boundary
 conditions

---
 aviary/core/aviary_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 0327e2f..75d7182 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -975,6 +975,9 @@ class AviaryGroup(om.Group):
         phases = list(self.mission_info.keys())
 
         if len(phases) <= 1:
+            if self.mission_method is ENERGY_STATE:
+                # The only phase still has its boundary conditions.
+                self.configurator.configure_trajectory(self, phases)
             return
 
         # Phase linking.
-- 
2.43.0


From 81117447e9ccc651f5abe7a4ea170e3f73ab8947 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 59/95] fix: reserve fuel was wrong when the reserve mission
 has one phase

---
 aviary/core/aviary_group.py                | 27 +++++++++++++---------
 aviary/subsystems/energy/energy_builder.py | 23 ++++++++++--------
 aviary/subsystems/subsystem_builder.py     |  1 +
 3 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 75d7182..8630929 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1279,17 +1279,22 @@ class AviaryGroup(om.Group):
             for phase_name, var_mapping in subsystem.get_post_mission_bus_variables(
                 aviary_inputs=self.aviary_inputs, mission_info=self.mission_info
             ).items():
-                for mission_variable_name, variable_data in var_mapping.items():
-                    post_mission_variable_names = variable_data['post_mission_name']
-                    src_indices = variable_data.get('src_indices', None)
-                    if not isinstance(post_mission_variable_names, list):
-                        post_mission_variable_names = [post_mission_variable_names]
-
-                    for post_mission_var_name in post_mission_variable_names:
-                        # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
-                        mvn_basename = mission_variable_name.rpartition('.')[-1]
-                        src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
-                        self.connect(src_name, post_mission_var_name, src_indices=src_indices)
+                for mission_variable_name, connections in var_mapping.items():
+                    # One variable can have several connections with different indices.
+                    if not isinstance(connections, list):
+                        connections = [connections]
+
+                    for variable_data in connections:
+                        post_mission_variable_names = variable_data['post_mission_name']
+                        src_indices = variable_data.get('src_indices', None)
+                        if not isinstance(post_mission_variable_names, list):
+                            post_mission_variable_names = [post_mission_variable_names]
+
+                        for post_mission_var_name in post_mission_variable_names:
+                            # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
+                            mvn_basename = mission_variable_name.rpartition('.')[-1]
+                            src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
+                            self.connect(src_name, post_mission_var_name, src_indices=src_indices)
 
     def add_design_variables(self, problem_type: ProblemType = None, verbosity=None):
         """
diff --git a/aviary/subsystems/energy/energy_builder.py b/aviary/subsystems/energy/energy_builder.py
index 7a98e05..40246c0 100644
--- a/aviary/subsystems/energy/energy_builder.py
+++ b/aviary/subsystems/energy/energy_builder.py
@@ -81,18 +81,21 @@ class CoreEnergyBuilder(EnergyBuilder):
         }
 
         if reserve_phases:
-            post_mission_bus[reserve_phases[0]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
-                    'src_indices': [0],
-                }
+            # The first and the last reserve phase can be the same one.
+            reserve_initial = {
+                'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
+                'src_indices': [0],
             }
-            post_mission_bus[reserve_phases[-1]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
-                    'src_indices': [-1],
-                }
+            reserve_final = {
+                'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
+                'src_indices': [-1],
             }
+            for phase_name, connection in (
+                (reserve_phases[0], reserve_initial),
+                (reserve_phases[-1], reserve_final),
+            ):
+                bus = post_mission_bus.setdefault(phase_name, {})
+                bus.setdefault('mass', []).append(connection)
 
         return post_mission_bus
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..fb1dbd8 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -523,6 +523,7 @@ class SubsystemBuilder(ABC):
                 Names of the input variable to be connected in the post-mission subsystem
             - 'src_indices': int or list of ints or tuple of ints or int ndarray or Iterable or None
                 Indices of the mission variable for connection
+            A list of such dictionaries connects one variable several times.
         """
         return {}
 
-- 
2.43.0


From 5df0df9061e13ff35b28c4b920e09445a4f14dfb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 60/95] fix: hybrid objective rewarded fuel burn and ignored
 its reference value

---
 aviary/core/aviary_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..9f90dc3 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -727,7 +727,7 @@ class AviaryProblem(om.Problem):
         # Dictionary for default reference values
         default_ref_values = {
             'mass': 5e4,
-            'hybrid_objective': 5e4,
+            'hybrid_objective': 1,
             'fuel_burned': 1e4,
             'fuel': 1e4,
         }
@@ -751,7 +751,7 @@ class AviaryProblem(om.Problem):
 
             elif objective_type == 'hybrid_objective':
                 self._add_hybrid_objective(self.model.mission_info)
-                self.model.add_objective('obj_comp.obj')
+                self.model.add_objective('obj_comp.obj', ref=ref)
 
             elif objective_type == 'fuel_burned':
                 self.model.add_objective(Mission.FUEL_MASS, ref=ref)
@@ -1959,7 +1959,7 @@ class AviaryProblem(om.Problem):
         takeoff_mass = self.model.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, units='lbm')
 
         obj_comp = om.ExecComp(
-            f'obj = final_mass / {takeoff_mass} + final_time / 5.',
+            f'obj = -final_mass / {takeoff_mass} + final_time / 5.',
             final_mass={'units': 'lbm'},
             final_time={'units': 'h'},
         )
-- 
2.43.0


From 9a83e5be9d79eeb722c74716a9dd2acd5f634704 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 61/95] fix: objective mass was minimized by default

---
 aviary/core/aviary_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 9f90dc3..a777e3e 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -726,7 +726,7 @@ class AviaryProblem(om.Problem):
 
         # Dictionary for default reference values
         default_ref_values = {
-            'mass': 5e4,
+            'mass': -5e4,
             'hybrid_objective': 1,
             'fuel_burned': 1e4,
             'fuel': 1e4,
-- 
2.43.0


From 35ce7a06a7f6bf404fdd0f581ab08e86678dace5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 62/95] fix: composite objectives with independent mission and
 output weights could not be set up

---
 aviary/core/aviary_problem.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index a777e3e..436e593 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1069,26 +1069,33 @@ class AviaryProblem(om.Problem):
         # outputs = ['fuelburn','gross_mass']
         weighted_exprs = []
         connection_names = []
+        obj_inputs = []
         output_weights = [float(weight / sum(output_weights)) for weight in output_weights]
         mission_weights = [float(weight / sum(mission_weights)) for weight in mission_weights]
         for mission, mission_weight in zip(missions, mission_weights):
             for output, output_weight in zip(outputs, output_weights):
+                # ExecComp cannot intake ":" or "."
+                obj_input = f'{mission}_{output}'.replace(':', '_').replace('.', '_')
+                obj_inputs.append(obj_input)
                 connection_names.append(
-                    [f'composite_function.{mission}_{output}', f'{mission}.{output}']
+                    [f'{mission}.{output}', f'composite_function.{obj_input}']
                 )
-                weighted_exprs.append(f'{mission}_{output}*{output_weight}*{mission_weight}')
+                weighted_exprs.append(f'{obj_input}*{output_weight}*{mission_weight}')
         final_expr = ' + '.join(weighted_exprs)
         # weighted_str looks like:  'model1.fuelburn*0.67*0.5 + model1.gross_mass*0.33*0.5 + model2.fuelburn*0.67*0.5 + model2.gross_mass*0.33*0.5'
 
+        # Use the units of the sources.
+        kwargs = {k: {'units_by_conn': True} for k in obj_inputs}
+
         # adding composite execComp to super problem
         self.model.add_subsystem(
             'composite_function',
-            om.ExecComp('composite_objective = ' + final_expr, has_diag_partials=True),
+            om.ExecComp('composite_objective = ' + final_expr, **kwargs),
             promotes_outputs=['composite_objective'],
         )
         # connect from inside of the models to the composite objective
-        for target, source in connection_names:
-            self.model.connect(target, source)
+        for source, target in connection_names:
+            self.model.connect(source, target)
         # finally add the objective
         self.model.add_objective('composite_objective', ref=ref)
 
-- 
2.43.0


From f8177f5fd9ece7c2818b68ad1862fa384ee8588c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 63/95] fix: objective fuel was not available in composite
 objectives of multi-mission problems

---
 aviary/core/aviary_problem.py | 80 +++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 436e593..f757e1c 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -692,37 +692,7 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        # This isn't really a fuel objective, it's a hybrid or compound objective
-        self.model.add_subsystem(
-            'fuel_obj',
-            om.ExecComp(
-                'reg_objective = overall_fuel/10000 + ascent_duration/30.',
-                reg_objective={'val': 0.0, 'units': 'unitless'},
-                ascent_duration={'units': 's', 'shape': 1},
-                overall_fuel={'units': 'lbm'},
-            ),
-            promotes_inputs=[
-                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
-                ('overall_fuel', Mission.TOTAL_FUEL_MASS),
-            ],
-            promotes_outputs=[('reg_objective', Mission.Objectives.FUEL)],
-        )
-
-        # TODO: All references to self.model. will need to be updated
-        self.model.add_subsystem(
-            'range_obj',
-            om.ExecComp(
-                'reg_objective = -actual_range/1000 + ascent_duration/30.',
-                reg_objective={'val': 0.0, 'units': 'unitless'},
-                ascent_duration={'units': 's', 'shape': 1},
-                actual_range={'val': self.model.target_range, 'units': 'NM'},
-            ),
-            promotes_inputs=[
-                ('actual_range', Mission.RANGE),
-                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
-            ],
-            promotes_outputs=[('reg_objective', Mission.Objectives.RANGE)],
-        )
+        self._add_regularized_objectives(self.model)
 
         # Dictionary for default reference values
         default_ref_values = {
@@ -1011,6 +981,14 @@ class AviaryProblem(om.Problem):
             promotes_outputs=['composite_objective'],
         )
 
+        # these outputs are not part of an AviaryGroup until they are used as objectives
+        for model in {
+            model
+            for model, output, _ in objectives_cleaned
+            if output in (Mission.Objectives.FUEL, Mission.Objectives.RANGE)
+        }:
+            self._add_regularized_objectives(self.aviary_groups_dict[model])
+
         # connect from inside of the models to the composite objective
         for source, target in connection_names:
             self.model.connect(source, target)
@@ -1953,6 +1931,46 @@ class AviaryProblem(om.Problem):
 
             jsonfile.close()
 
+    def _add_regularized_objectives(self, group):
+        """
+        Add the components that compute Mission.Objectives.FUEL and Mission.Objectives.RANGE.
+
+        Parameters
+        ----------
+        group : AviaryGroup
+            The group whose objectives are computed.
+        """
+        # This isn't really a fuel objective, it's a hybrid or compound objective
+        group.add_subsystem(
+            'fuel_obj',
+            om.ExecComp(
+                'reg_objective = overall_fuel/10000 + ascent_duration/30.',
+                reg_objective={'val': 0.0, 'units': 'unitless'},
+                ascent_duration={'units': 's', 'shape': 1},
+                overall_fuel={'units': 'lbm'},
+            ),
+            promotes_inputs=[
+                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
+                ('overall_fuel', Mission.TOTAL_FUEL_MASS),
+            ],
+            promotes_outputs=[('reg_objective', Mission.Objectives.FUEL)],
+        )
+
+        group.add_subsystem(
+            'range_obj',
+            om.ExecComp(
+                'reg_objective = -actual_range/1000 + ascent_duration/30.',
+                reg_objective={'val': 0.0, 'units': 'unitless'},
+                ascent_duration={'units': 's', 'shape': 1},
+                actual_range={'val': group.target_range, 'units': 'NM'},
+            ),
+            promotes_inputs=[
+                ('actual_range', Mission.RANGE),
+                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
+            ],
+            promotes_outputs=[('reg_objective', Mission.Objectives.RANGE)],
+        )
+
     def _add_hybrid_objective(self, phase_info):
         """
         Add a hybrid objective that combines final mass and final time.
-- 
2.43.0


From 37e44c232278a16310c42ab0c43c8b924b605aba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 64/95] fix: saving results replaced the design gross mass by
 the mission gross mass, changed lists of enums of the problem and failed on
 tuples of enums

---
 aviary/core/aviary_problem.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f757e1c..9dd75c4 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1880,9 +1880,7 @@ class AviaryProblem(om.Problem):
                 # Get the gross mass value from the sizing problem and add it to input list
 
                 if name == Mission.GROSS_MASS or name == Aircraft.Design.GROSS_MASS:
-                    Mission_Summary_GROSS_MASS_val = self.get_val(Mission.GROSS_MASS, units=units)
-                    Mission_Summary_GROSS_MASS_val_list = Mission_Summary_GROSS_MASS_val.tolist()
-                    value = Mission_Summary_GROSS_MASS_val_list[0]
+                    value = self.get_val(name, units=units).tolist()[0]
 
                 else:
                     # there are different data types we need to handle for conversion to json format
@@ -1892,14 +1890,17 @@ class AviaryProblem(om.Problem):
                     if type_value is np.ndarray:
                         value = value.tolist()
 
-                    # Lists are fine except if they contain enums or Paths
-                    if type_value is list:
-                        if isinstance(value[0], Enum):
-                            for i in range(len(value)):
-                                value[i] = value[i].name
-                        elif isinstance(value[0], Path):
-                            for i in range(len(value)):
-                                value[i] = str(value[i])
+                    # Lists are fine except if they contain enums or Paths. Convert into a new list
+                    # so that the inputs of this problem are not changed.
+                    if isinstance(value, (list, tuple)):
+                        value = [
+                            item.name
+                            if isinstance(item, Enum)
+                            else str(item)
+                            if isinstance(item, Path)
+                            else item
+                            for item in value
+                        ]
 
                     # Enums and Paths need converting to a string
                     if isinstance(value, Enum):
-- 
2.43.0


From 0b75bb9a2cd9b1e3f239ff6e356c1640d88f51bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 65/95] fix: the gross mass guess given for an off-design
 minimum fuel mission was not used

---
 aviary/core/aviary_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 9dd75c4..85cb9a8 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1536,11 +1536,11 @@ class AviaryProblem(om.Problem):
             # set initial guess for Mission.GROSS_MASS to help optimizer with new design
             # variable bounds.
             if mission_gross_mass is None:
-                mission_gross_mass = off_design_prob.aviary_inputs.get_val(
+                mission_gross_mass = 0.9 * off_design_prob.aviary_inputs.get_val(
                     Aircraft.Design.GROSS_MASS, 'lbm'
                 )
             off_design_prob.aviary_inputs.set_val(
-                Mission.GROSS_MASS, mission_gross_mass * 0.9, units='lbm'
+                Mission.GROSS_MASS, mission_gross_mass, units='lbm'
             )
 
         elif problem_type is ProblemType.OFF_DESIGN_MAX_RANGE:
-- 
2.43.0


From 8b418bee12d336841b8ca570cfc80ba3c4c421e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 66/95] fix: off-design minimum fuel missions changed the
 phase_info of the caller

---
 aviary/core/aviary_problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 85cb9a8..8db3cb2 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1520,6 +1520,9 @@ class AviaryProblem(om.Problem):
                     )
                 mission_range = self.get_val(Mission.RANGE, units='NM')[0]
 
+            # copy, so that the phase_info of the caller or of this problem is not changed
+            phase_info = dict(phase_info)
+            phase_info['post_mission'] = dict(phase_info.get('post_mission', {}))
             phase_info['post_mission']['target_range'] = (
                 mission_range,
                 'nmi',
-- 
2.43.0


From 893167887178a096e7091fe39016e3ecf93c1ec4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 67/95] fix: the total number of passengers of an off-design
 mission was ignored

---
 aviary/core/aviary_problem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 8db3cb2..703abdf 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1474,6 +1474,13 @@ class AviaryProblem(om.Problem):
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
 
+        # If only a total is given, do not keep the class counts inherited from the sizing mission,
+        # which would override it
+        if num_pax is not None and all(
+            num is None for num in (num_first_class, num_business, num_economy)
+        ):
+            num_first_class = num_business = num_economy = 0
+
         # Sanity check passenger counts - cover specific edge case that preprocessors won't catch
         # Since we inherit mission pax count from sizing mission, we need to overwrite it
         if (
-- 
2.43.0


From da7b46bf4c9a04c933c599f8a60e6f00d3e49166 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 68/95] fix: payload-range analysis ran for unconverged
 problems when quiet

---
 aviary/core/aviary_problem.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 703abdf..bb899a1 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1677,16 +1677,18 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        if not self.result.success and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
-            )
+        if not self.result.success:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
+                )
             return ()
-        elif self.problem_type is ProblemType.MULTI_MISSION and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams currently cannot be generated for aircraft designed '
-                'using multimission capability.'
-            )
+        elif self.problem_type is ProblemType.MULTI_MISSION:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams currently cannot be generated for aircraft designed '
+                    'using multimission capability.'
+                )
             return ()
 
         # Off-design missions are not tested with 2DOF missions.
@@ -1866,6 +1868,7 @@ class AviaryProblem(om.Problem):
                 'Payload/range analysis is currently only supported for the energy equations of '
                 'motion.'
             )
+            return ()
 
     def save_results(self, json_filename='sizing_results.json'):
         """
-- 
2.43.0


From 70dde1db84bc50739e5c84dd2522fd646e640b79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 69/95] fix: payload-range analysis changed the phase_info of
 the sizing problem and failed without a cruise phase

---
 aviary/core/aviary_problem.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index bb899a1..6338953 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1701,14 +1701,19 @@ class AviaryProblem(om.Problem):
             phase_info['post_mission'] = self.model.post_mission_info.copy()
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
-            if phase_info['cruise']:
-                min_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][0]
-                max_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][1]
-                cruise_units = phase_info['cruise']['user_options']['time_duration_bounds'][1]
-
-                phase_info['cruise']['user_options'].update(
-                    {'time_duration_bounds': ((min_duration, 2 * max_duration), cruise_units)}
-                )
+            cruise_options = phase_info.get('cruise', {}).get('user_options', {})
+            if 'time_duration_bounds' in cruise_options:
+                (min_duration, max_duration), cruise_units = cruise_options['time_duration_bounds']
+                if max_duration is not None:
+                    max_duration = 2 * max_duration
+
+                phase_info['cruise'] = {
+                    **phase_info['cruise'],
+                    'user_options': {
+                        **cruise_options,
+                        'time_duration_bounds': ((min_duration, max_duration), cruise_units),
+                    },
+                }
 
             # TODO Verify that previously run point is actually max payload/fuel point, and if not
             #      run off-design mission for that point
-- 
2.43.0


From 3ed606e69d93e86aacc37d5f0a5e21dfd50ae13d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 70/95] fix: payload-range analysis used masses in whatever
 units were set as if they were in lbm

---
 aviary/core/aviary_problem.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 6338953..880398f 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1718,7 +1718,7 @@ class AviaryProblem(om.Problem):
             # TODO Verify that previously run point is actually max payload/fuel point, and if not
             #      run off-design mission for that point
             # Point 1 is along the y axis (range=0)
-            payload_1 = float(self.get_val(Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS)[0])
+            payload_1 = float(self.get_val(Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS, 'lbm')[0])
             range_1 = 0
             fuel_1 = 0
 
@@ -1726,16 +1726,16 @@ class AviaryProblem(om.Problem):
             # payload + fuel on the payload and range diagram
             payload_2 = payload_1
 
-            range_2 = float(self.get_val(Mission.RANGE)[0])
-            gross_mass = float(self.get_val(Mission.GROSS_MASS)[0])
+            range_2 = float(self.get_val(Mission.RANGE, 'NM')[0])
+            gross_mass = float(self.get_val(Mission.GROSS_MASS, 'lbm')[0])
             # NOTE this operating mass is based on the previously run mission - assumed this is the
             # design mission!! Includes cargo containers needed for design (max payload)
-            operating_mass = float(self.get_val(Mission.OPERATING_MASS)[0])
-            fuel_capacity = float(self.get_val(Aircraft.Fuel.MAX_CAPACITY_MASS)[0])
-            unusable_fuel = float(self.get_val(Aircraft.Fuel.UNUSABLE_FUEL_MASS)[0])
-            max_payload = float(self.get_val(Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS)[0])
+            operating_mass = float(self.get_val(Mission.OPERATING_MASS, 'lbm')[0])
+            fuel_capacity = float(self.get_val(Aircraft.Fuel.MAX_CAPACITY_MASS, 'lbm')[0])
+            unusable_fuel = float(self.get_val(Aircraft.Fuel.UNUSABLE_FUEL_MASS, 'lbm')[0])
+            max_payload = float(self.get_val(Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS, 'lbm')[0])
 
-            fuel_2 = self.get_val(Mission.FUEL_MASS)[0]
+            fuel_2 = self.get_val(Mission.FUEL_MASS, 'lbm')[0]
 
             # Operating mass includes unusable fuel, don't double count
             max_usable_fuel = fuel_capacity - unusable_fuel
@@ -1793,11 +1793,11 @@ class AviaryProblem(om.Problem):
 
                 # Pull the payload and range values from the OFF_DESIGN_MAX_RANGE mission
                 payload_3 = max_fuel_pyld_range_prob.get_val(
-                    Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS
+                    Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS, 'lbm'
                 )[0]
 
-                range_3 = max_fuel_pyld_range_prob.get_val(Mission.RANGE)[0]
-                fuel_3 = max_fuel_pyld_range_prob.get_val(Mission.FUEL_MASS)[0]
+                range_3 = max_fuel_pyld_range_prob.get_val(Mission.RANGE, 'NM')[0]
+                fuel_3 = max_fuel_pyld_range_prob.get_val(Mission.FUEL_MASS, 'lbm')[0]
 
                 prob_3_skip = False
             else:
@@ -1828,9 +1828,9 @@ class AviaryProblem(om.Problem):
                 verbosity=verbosity,
             )
 
-            payload_4 = ferry_range_prob.get_val(Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS)[0]
-            range_4 = ferry_range_prob.get_val(Mission.RANGE)[0]
-            fuel_4 = ferry_range_prob.get_val(Mission.FUEL_MASS)[0]
+            payload_4 = ferry_range_prob.get_val(Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS, 'lbm')[0]
+            range_4 = ferry_range_prob.get_val(Mission.RANGE, 'NM')[0]
+            fuel_4 = ferry_range_prob.get_val(Mission.FUEL_MASS, 'lbm')[0]
 
             # if max fuel + payload mission was skipped, max_fuel_pyld_range_prob is the same as ferry_range_prob
             if prob_3_skip:
-- 
2.43.0


From e9d31ee7ce5f3d14821c49f92b45a2a8526dbc24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 71/95] fix: payload-range analysis failed for aircraft whose
 full tanks exceed the gross mass

---
 aviary/core/aviary_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 880398f..39c2f8e 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1837,6 +1837,7 @@ class AviaryProblem(om.Problem):
                 max_fuel_pyld_range_prob = ferry_range_prob
                 payload_3 = payload_4
                 range_3 = range_4
+                fuel_3 = fuel_4
 
             # Check if OFF_DESIGN_MAX_RANGE missions ran successfully before writing to csv file
             # If both missions ran successfully, writes the payload/range data to a csv file
-- 
2.43.0


From c0c0fb8d16dac93d393cf35eae1e7170e8d4b935 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 72/95] fix: post-mission systems of external subsystems got
 the options meant for pre-mission

---
 aviary/core/aviary_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 8630929..df1ea5b 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -842,7 +842,7 @@ class AviaryGroup(om.Group):
         )
 
         # Add all post-mission subsystems.
-        all_subsystem_options = self.pre_mission_info.get('subsystem_options', {})
+        all_subsystem_options = self.post_mission_info.get('subsystem_options', {})
         phase_mission_bus_lengths = get_phase_mission_bus_lengths(self.traj)
         for subsystem in self.subsystems:
             name = subsystem.name
-- 
2.43.0


From d3e680810602118446d8e0b290b7694ce6ef7f1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 73/95] fix: external subsystems that are no builders were
 loaded when quiet

---
 aviary/core/aviary_group.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index df1ea5b..7dba185 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -384,11 +384,12 @@ class AviaryGroup(om.Group):
         verbosity = self._override_verbosity(verbosity)
 
         for subsystem in external_subsystems:
-            if not isinstance(subsystem, SubsystemBuilder) and verbosity >= verbosity.BRIEF:
-                warnings.warn(
-                    'Provided external subsystem is not a SubsystemBuilder object and will not be '
-                    'loaded.'
-                )
+            if not isinstance(subsystem, SubsystemBuilder):
+                if verbosity >= Verbosity.BRIEF:
+                    warnings.warn(
+                        'Provided external subsystem is not a SubsystemBuilder object and will not '
+                        'be loaded.'
+                    )
             else:
                 if isinstance(subsystem, EngineModel):
                     self.engine_models.append(subsystem)
-- 
2.43.0


From 6263948be72ce0ddab6e996a1b90481c120e90db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 74/95] fix: a subsystem constraint of unknown type was
 reported with an unrelated error

---
 aviary/mission/phase_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..7ed38e7 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -603,7 +603,7 @@ class PhaseBuilder(ABC):
                     phase.add_path_constraint(constraint_name, **con_args)
                 else:
                     raise ValueError(
-                        f'Invalid type "{con_type}" in builder for {subsystem.pathname}.'
+                        f'Invalid type "{con_type}" in builder for {subsystem.name}.'
                     )
         return phase
 
-- 
2.43.0


From 02eda3e0e7bef0a4fb1f37ff52ff0a532c6cbcba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 75/95] fix: motor maps with rows in another order were
 scrambled

---
 aviary/subsystems/propulsion/motor/model/motor_map.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/propulsion/motor/model/motor_map.py b/aviary/subsystems/propulsion/motor/model/motor_map.py
index 735bf92..89528ac 100644
--- a/aviary/subsystems/propulsion/motor/model/motor_map.py
+++ b/aviary/subsystems/propulsion/motor/model/motor_map.py
@@ -51,8 +51,10 @@ class MotorMap(om.Group):
         torque_unscaled = np.unique(data_dict['torque_unscaled'])
         torque_max = np.max(torque_unscaled)
         torque_units = units_dict['torque_unscaled']
-        efficiency = (
-            data_dict['efficiency'].reshape(len(torque_unscaled), len(rotations_per_minute)).T
+        # the rows of the file can be in any order
+        row_order = np.lexsort((data_dict['torque_unscaled'], data_dict['rotations_per_minute']))
+        efficiency = data_dict['efficiency'][row_order].reshape(
+            len(rotations_per_minute), len(torque_unscaled)
         )
         efficiency_units = units_dict['efficiency']
 
-- 
2.43.0


From 442784771bc2bdc7254c9639f2c524ebef8be878 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 76/95] fix: the largest torque of a motor map was read as N*m
 whatever its units

---
 aviary/subsystems/propulsion/motor/model/motor_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/motor/model/motor_map.py b/aviary/subsystems/propulsion/motor/model/motor_map.py
index 89528ac..339250b 100644
--- a/aviary/subsystems/propulsion/motor/model/motor_map.py
+++ b/aviary/subsystems/propulsion/motor/model/motor_map.py
@@ -84,7 +84,7 @@ class MotorMap(om.Group):
                 'torque_unscaled = torque_max * throttle',
                 torque_unscaled={'val': np.ones(n), 'units': 'N*m'},
                 torque_max={
-                    'val': torque_max,
+                    'val': om.convert_units(torque_max, torque_units, 'N*m'),
                     'units': 'N*m',
                 },  # only used as input because we need to dynamically assign the last value of torque as the max torque
                 throttle={'val': np.ones(n), 'units': 'unitless'},
-- 
2.43.0


From a827b536246a88c9ff09145533d64d75f9b9f9f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 77/95] fix: propeller data given in memory crashed the
 propeller map

---
 aviary/subsystems/propulsion/propeller/propeller_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aviary/subsystems/propulsion/propeller/propeller_map.py b/aviary/subsystems/propulsion/propeller/propeller_map.py
index 9c24d0a..a42e34c 100644
--- a/aviary/subsystems/propulsion/propeller/propeller_map.py
+++ b/aviary/subsystems/propulsion/propeller/propeller_map.py
@@ -65,6 +65,7 @@ class PropellerMap(om.Group):
                         'passed in-memory. Provided data file will be not be used.'
                     )
                 print(f'Reading propeller performance data from {data_file}')
+            outputs = ['thrust_coefficient']
 
         # determine the mach type from data
         mach_types = [key for key in ['mach', 'helical_mach'] if key in data]
-- 
2.43.0


From 2eb10daf633be996d4999a147311c5952685862e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 78/95] fix: a propeller without installation loss computation
 had no thrust at all

---
 aviary/subsystems/propulsion/propeller/propeller_performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propeller/propeller_performance.py b/aviary/subsystems/propulsion/propeller/propeller_performance.py
index f4c74e0..33bd742 100644
--- a/aviary/subsystems/propulsion/propeller/propeller_performance.py
+++ b/aviary/subsystems/propulsion/propeller/propeller_performance.py
@@ -449,7 +449,7 @@ class PropellerPerformance(om.Group):
                 promotes_outputs=['install_loss_factor'],
             )
         else:
-            self.set_input_defaults('install_loss_factor', val=np.ones(nn), units='unitless')
+            self.set_input_defaults('install_loss_factor', val=np.zeros(nn), units='unitless')
 
         self.add_subsystem(
             name='pre_hamilton_standard',
-- 
2.43.0


From e811e4dbcb7c0bc44c68691ed8f9919ebcbc8112 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 79/95] fix: inputs computed inside one of two engine types
 were connected twice in pre-mission

---
 aviary/subsystems/propulsion/propulsion_premission.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 60d1413..7462bf4 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -154,6 +154,11 @@ class PropulsionPreMission(om.Group):
                 [(key, output_dict[engine.name][key]['units']) for key in output_dict[engine.name]]
             )
 
+            # an input that is computed inside of this engine is already connected to its source
+            for key in output_dict[engine.name]:
+                input_dict[engine.name].pop(key, None)
+                eng_inputs.pop(key, None)
+
             # slice incoming inputs for this engine, so it only gets the correct index
             if num_engine_type > 1:
                 src_indices = om.slicer[idx]
-- 
2.43.0


From 2cfdfcc5c8449fdc199a0d9b8ae57a23494997e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 80/95] fix: engine parameters that only one of two engine
 types uses crashed the mission

---
 .../propulsion/propulsion_mission.py          | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_mission.py b/aviary/subsystems/propulsion/propulsion_mission.py
index fcf4313..406f4b9 100644
--- a/aviary/subsystems/propulsion/propulsion_mission.py
+++ b/aviary/subsystems/propulsion/propulsion_mission.py
@@ -177,17 +177,6 @@ class PropulsionMission(om.Group):
                         src_indices=om.slicer[:, i],
                     )
 
-                # loop through params and slice as needed
-                params = engine.get_parameters(
-                    aviary_inputs=options,
-                )
-                for param in params:
-                    self.promotes(
-                        engine.name,
-                        inputs=[(param, param + '_passthrough')],
-                        src_indices=om.slicer[i],
-                    )
-
         else:
             engine = engine_models[0]
             kwargs = {}
@@ -489,6 +478,13 @@ class PropulsionMission(om.Group):
                     comp.promotes('max', inputs=promoted_inputs)
 
             else:
+                comp_inputs = comp.list_inputs(
+                    return_format='dict', units=False, out_stream=out_stream, all_procs=True
+                )
+                input_dict[comp.name] = dict(
+                    (comp_inputs[key]['prom_name'], comp_inputs[key]) for key in comp_inputs
+                )
+
                 # identify outputs to connect to muxcomp
                 comp_outputs = comp.list_outputs(
                     return_format='dict', units=True, out_stream=out_stream, all_procs=True
@@ -541,6 +537,20 @@ class PropulsionMission(om.Group):
                     inputs=[(f'x_{i}', param)],
                     outputs=[(f'y_{i}', param + '_passthrough')],
                 )
+
+            # loop through params and slice as needed. A parameter does not have to exist in the
+            # model of the engine that declares it.
+            for i, engine in enumerate(engine_models):
+                params = engine.get_parameters(
+                    aviary_inputs=self.options['aviary_options'],
+                )
+                for param in params:
+                    if param in input_dict[engine.name]:
+                        self.promotes(
+                            engine.name,
+                            inputs=[(param, param + '_passthrough')],
+                            src_indices=om.slicer[i],
+                        )
                 #     if param in input_dict:
                 #         promotions.append((param, param + '_passthrough'))
                 # self.promotes(engine.name, inputs=promotions)
-- 
2.43.0


From 4263fb4f1751d2f73b55d1de0ebbf3505f3e9050 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 81/95] fix: every engine type got the propeller options of the
 first

---
 aviary/subsystems/propulsion/propeller/propeller_map.py | 4 ++++
 aviary/variable_info/functions.py                       | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propeller/propeller_map.py b/aviary/subsystems/propulsion/propeller/propeller_map.py
index a42e34c..2f5ce2f 100644
--- a/aviary/subsystems/propulsion/propeller/propeller_map.py
+++ b/aviary/subsystems/propulsion/propeller/propeller_map.py
@@ -53,6 +53,10 @@ class PropellerMap(om.Group):
         data_file = self.options[Aircraft.Engine.Propeller.DATA_FILE]
         verbosity = self.options[Settings.VERBOSITY]
 
+        # options of an engine in a full Aviary problem are lists
+        if isinstance(data_file, (list, np.ndarray)):
+            data_file = data_file[0]
+
         if data is None:
             data, inputs, outputs = read_data_file(data_file, aliases=aliases, verbosity=verbosity)
             if verbosity > Verbosity.BRIEF:
diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 1d8cf9d..fd2df02 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -587,6 +587,9 @@ def setup_model_options(
         # EngineDeck required options), so custom multiengine works
         opt_names = [
             Aircraft.Engine.Motor.DATA_FILE,
+            Aircraft.Engine.Propeller.COMPUTE_INSTALLATION_LOSS,
+            Aircraft.Engine.Propeller.DATA_FILE,
+            Aircraft.Engine.Propeller.NUM_BLADES,
             Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER,
             Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER,
             Aircraft.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM,
@@ -601,7 +604,9 @@ def setup_model_options(
         opts = {}
         for key in opt_names:
             if key in aviary_inputs:
-                opts[key] = aviary_inputs.get_item(key)[0][idx]
+                val = aviary_inputs.get_item(key)[0][idx]
+                # options are declared with Python types
+                opts[key] = val.item() if isinstance(val, np.generic) else val
         for key in opt_names_units:
             if key in aviary_inputs:
                 val, units = aviary_inputs.get_item(key)
-- 
2.43.0


From 1c398ae3852d9da9c414907d6beeab3bcfa40f0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 82/95] fix: an engine got the options of an engine whose name
 begins with its name

---
 aviary/variable_info/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index fd2df02..08d9e8b 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -612,5 +612,7 @@ def setup_model_options(
                 val, units = aviary_inputs.get_item(key)
                 opts[key] = (val[idx], units)
 
-        path = f'{prefix}*propulsion.{eng_name}*'
+        # the name of an engine can be the beginning of the name of another one
+        path = f'{prefix}*propulsion.{eng_name}'
         prob.model_options[path] = opts
+        prob.model_options[f'{path}.*'] = opts
-- 
2.43.0


From a86f14ea214d0744beb5a15ebfa38af296723050 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 83/95] fix: tailpipe thrust in only one of two turboprop types
 gave a conflicting connection

---
 aviary/subsystems/propulsion/turboprop_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aviary/subsystems/propulsion/turboprop_model.py b/aviary/subsystems/propulsion/turboprop_model.py
index 81fab4c..281d7f8 100644
--- a/aviary/subsystems/propulsion/turboprop_model.py
+++ b/aviary/subsystems/propulsion/turboprop_model.py
@@ -689,6 +689,12 @@ class TurbopropMission(om.Group):
             has_diag_partials=True,
         )
 
+        # source of the turboshaft thrust if the shaft power model does not compute it
+        self.add_subsystem(
+            'zero_thrust',
+            subsys=om.IndepVarComp('turboshaft_thrust', np.zeros(num_nodes), units='lbf'),
+        )
+
         self.add_subsystem(
             'thrust_summation',
             subsys=thrust_summation,
@@ -826,6 +832,8 @@ class TurbopropMission(om.Group):
                 'thrust_summation.turboshaft_thrust',
             )
             shp_output_list.remove(Dynamic.Vehicle.Propulsion.THRUST)
+        else:
+            self.connect('zero_thrust.turboshaft_thrust', 'thrust_summation.turboshaft_thrust')
 
         # Gearbox connections
         if has_gearbox:
-- 
2.43.0


From bcc762927a892c4a44810846bab9f81d27af8c21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 84/95] fix: an engine without fixed RPM next to one with it
 ran at 1 rpm

---
 aviary/subsystems/propulsion/turboprop_model.py | 12 ++++++++++--
 aviary/variable_info/variable_meta_data.py      |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/propulsion/turboprop_model.py b/aviary/subsystems/propulsion/turboprop_model.py
index 281d7f8..cdd8797 100644
--- a/aviary/subsystems/propulsion/turboprop_model.py
+++ b/aviary/subsystems/propulsion/turboprop_model.py
@@ -587,6 +587,14 @@ class TurbopropModel(EngineModel):
             self.propeller_model.report(prob, reports_folder, **kwargs)
 
 
+def _has_fixed_rpm(aviary_inputs):
+    """Check if the engine runs at a fixed RPM, zero (the default) is no fixed RPM."""
+    return (
+        Aircraft.Engine.FIXED_RPM in aviary_inputs
+        and np.ravel(aviary_inputs.get_val(Aircraft.Engine.FIXED_RPM, units='rpm'))[0] != 0.0
+    )
+
+
 class TurbopropMission(om.Group):
     def initialize(self):
         self.options.declare(
@@ -610,7 +618,7 @@ class TurbopropMission(om.Group):
         subsystem_options = self.options['subsystem_options']
         aviary_inputs = self.options['aviary_inputs']
 
-        if Aircraft.Engine.FIXED_RPM in aviary_inputs:
+        if _has_fixed_rpm(aviary_inputs):
             # NOTE this subsystem is a empty component that has fixed RPM added as an output in
             #      configure() if provided in aviary_inputs
             self.add_subsystem('rpm_source', subsys=om.IndepVarComp())
@@ -864,7 +872,7 @@ class TurbopropMission(om.Group):
         # model if any sub-builders request it as a control
         rpm_source_comp = self._get_subsystem('rpm_source')
 
-        if Aircraft.Engine.FIXED_RPM in aviary_inputs:
+        if _has_fixed_rpm(aviary_inputs):
             fixed_rpm = aviary_inputs.get_val(Aircraft.Engine.FIXED_RPM, units='rpm')
 
             if Dynamic.Vehicle.Propulsion.RPM in shp_output_list:
diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index a170848..9f69708 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -2004,10 +2004,10 @@ add_meta_data(
     meta_data=_MetaData,
     historical_name={'GASP': None, 'FLOPS': None},
     units='rpm',
-    default_value=1.0,
+    default_value=0.0,
     desc='RPM the engine is set to be running at. Overrides RPM provided by '
     'engine model or chosen by optimizer. Typically used when pairing a motor or '
-    'turboshaft using a fixed operating RPM with a propeller.',
+    'turboshaft using a fixed operating RPM with a propeller. RPM is not fixed if zero.',
     multivalue=True,
     option=True,
 )
-- 
2.43.0


From d9ce2ca8615f8aeae22f3d1f6f2f26f243a2799a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 85/95] fix: GASP decks with a gear ratio could not be
 converted

---
 aviary/utils/fortran_to_aviary.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 04d1ae9..58b53ec 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -344,14 +344,13 @@ def process_and_store_data(
         var_ind -= fortran_offset
 
     # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if current_namelist + '.' + var_name == 'INPROP.GR':
-        var_values = [1 / var for var in var_values]
+    if (current_namelist + '.' + var_name).upper() == 'INPROP.GR':
         vehicle_data['input_values'] = set_value(
             Aircraft.Engine.Gearbox.GEAR_RATIO,
-            var_values,
+            [1 / var for var in var_values],
+            data_units,
             vehicle_data['input_values'],
             var_ind=var_ind,
-            units=data_units,
         )
 
     for name in list_of_equivalent_aviary_names:
@@ -784,13 +783,6 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     # the mission
     input_values.set_val(Aircraft.Engine.GLOBAL_THROTTLE, [True])
 
-    # GEARBOX
-    # Aviary has a reduction gearbox which is 1/gear ratio of GASP gearbox
-    if Aircraft.Engine.Gearbox.GEAR_RATIO in input_values:
-        ratios = input_values.get_val(Aircraft.Engine.Gearbox.GEAR_RATIO)
-        ratios = [1 / val for val in ratios]
-        input_values.set_val(Aircraft.Engine.Gearbox.GEAR_RATIO, ratios, units='unitless')
-
     # CARGO
     if Aircraft.CrewPayload.Design.MAX_CARGO_MASS in input_values:
         if input_values.get_val(Aircraft.CrewPayload.Design.MAX_CARGO_MASS, 'lbm')[0] >= 0:
-- 
2.43.0


From 1dd96f749dbe426445aecf1dceb98531b4e18f62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 86/95] fix: FLOPS decks without a tail sweep or aspect ratio
 could not be converted

---
 aviary/utils/fortran_to_aviary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 58b53ec..8b3a904 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1228,7 +1228,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.SWEEP not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0] < -90.0
     ):
-        if Aircraft.WING.SWEEP in input_values:
+        if Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.HorizontalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1239,7 +1239,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         if Aircraft.HorizontalTail.SWEEP in input_values:
             SWPHT = input_values.get_val(Aircraft.HorizontalTail.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWPHT], 'deg')
-        elif Aircraft.WING.SWEEP in input_values:
+        elif Aircraft.Wing.SWEEP in input_values:
             SWEEP = input_values.get_val(Aircraft.Wing.SWEEP, units='deg')[0]
             input_values.set_val(Aircraft.VerticalTail.SWEEP, [SWEEP], 'deg')
 
@@ -1247,8 +1247,8 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.ASPECT_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.ASPECT_RATIO)[0] < 0
     ):
-        if Aircraft.WING.ASPECT_RATIO in input_values:
-            AR = input_values.get_val(Aircraft.WING.ASPECT_RATIO)
+        if Aircraft.Wing.ASPECT_RATIO in input_values:
+            AR = input_values.get_val(Aircraft.Wing.ASPECT_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.ASPECT_RATIO, [AR], 'unitless')
 
     if (
-- 
2.43.0


From 54d95b02f8f67143c0a62bf92b81ba0cb0104bbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 87/95] fix: FLOPS decks without taper ratios could not be
 converted

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 8b3a904..ceac14c 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1212,7 +1212,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         Aircraft.HorizontalTail.TAPER_RATIO not in input_values
         or input_values.get_val(Aircraft.HorizontalTail.TAPER_RATIO)[0] < 0.0
     ):
-        if Aircraft.HorizontalTail.TAPER_RATIO:
+        if Aircraft.Wing.TAPER_RATIO in input_values:
             TR = input_values.get_val(Aircraft.Wing.TAPER_RATIO)[0]
             input_values.set_val(Aircraft.HorizontalTail.TAPER_RATIO, [TR])
 
-- 
2.43.0


From b9e26a0b835cf93f8ebca2ac85c95f49eef07b5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 88/95] fix: Aviary variables and their units in Fortran decks
 were not converted

---
 aviary/utils/fortran_to_aviary.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index ceac14c..2de8901 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -363,7 +363,7 @@ def process_and_store_data(
             elif name in CoreMetaData:
                 if current_namelist + '.' + var_name in default_values:
                     data_units = default_values.get_item(current_namelist + '.' + var_name)[1]
-                else:
+                elif current_namelist:
                     data_units = None
                 vehicle_data['input_values'] = set_value(
                     name,
@@ -396,7 +396,9 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
     If the new variable is part of a list, the current list will be extended if needed.
     """
     if var_name in value_dict:
-        current_value, units = value_dict.get_item(var_name)
+        current_value, current_units = value_dict.get_item(var_name)
+        if not units:
+            units = current_units
     else:
         current_value = None
         if var_name in CoreMetaData:
@@ -467,6 +469,10 @@ def update_name(alternate_names, var_name, verbosity=Verbosity.BRIEF):
                     var_ind = None
                     continue
 
+    # Aviary names may be used outside of the namelists
+    if var_name.startswith('.') and var_name[1:].lower() in CoreMetaData:
+        var_name = var_name[1:].lower()
+
     # if there are no equivalent variable names, return the original name
     if len(all_equivalent_names) == 0:
         if verbosity >= Verbosity.VERBOSE:
-- 
2.43.0


From a4a3de75cfe725692b279784d641b6cd29d2f48a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 89/95] fix: a negative fuel volume margin was converted to one
 with mass units

---
 aviary/utils/fortran_to_aviary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 2de8901..a49f250 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -754,7 +754,7 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
         ValueError(
             '"FVOL_MRG" is not valid below 0. Cannot set fuel volume reserves to less than zero'
         )  #
-        input_values.set_val(Aircraft.Fuel.VOLUME_MARGIN, [0], units='lbm')
+        input_values.set_val(Aircraft.Fuel.VOLUME_MARGIN, [0], units='unitless')
 
     # FLARE LOAD FACTOR ##
     if Mission.Landing.MAXIMUM_FLARE_LOAD_FACTOR in input_values:
-- 
2.43.0


From 81f2f8e170605546a00bb48413d21a762b256e0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 90/95] fix: legacy variables that affect others were only
 found in upper case

---
 aviary/utils/fortran_to_aviary.py | 54 ++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index a49f250..c8f4391 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -431,6 +431,14 @@ def set_value(var_name, var_value, units=None, value_dict: NamedValues = None, v
     return value_dict
 
 
+def find_name(var_name, values: NamedValues):
+    """Find the name under which a legacy variable is stored, legacy names are not case-sensitive."""
+    for name, _ in values:
+        if name.lower() == var_name.lower():
+            return name
+    return var_name
+
+
 def generate_aviary_names(legacy_code):
     """
     Create a dictionary that maps the specified Fortran code to Aviary variable names.
@@ -829,7 +837,7 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
             input_values.delete(Aircraft.Furnishings.MASS)
 
     unused_values = vehicle_data['unused_values']
-    knac = unused_values.get_item('INGASP.KNAC')[0][0]
+    knac = unused_values.get_item(find_name('INGASP.KNAC', unused_values))[0][0]
     if knac != 2:
         try:
             input_values.delete(Aircraft.Nacelle.AVG_DIAMETER)
@@ -842,8 +850,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Fuselage.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Fuselage.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFFT')[0][0]
-            unused_values.delete('INGASP.FCFFT')
+            tech_name = find_name('INGASP.FCFFT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -852,8 +861,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.HorizontalTail.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.HorizontalTail.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFHTT')[0][0]
-            unused_values.delete('INGASP.FCFHTT')
+            tech_name = find_name('INGASP.FCFHTT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -862,8 +872,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Design.INTERFERENCE_DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Design.INTERFERENCE_DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCKIT')[0][0]
-            unused_values.delete('INGASP.FCKIT')
+            tech_name = find_name('INGASP.FCKIT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -872,8 +883,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Nacelle.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Nacelle.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFNT')[0][0]
-            unused_values.delete('INGASP.FCFNT')
+            tech_name = find_name('INGASP.FCFNT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -882,8 +894,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Strut.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Strut.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFSTRT')[0][0]
-            unused_values.delete('INGASP.FCFSTRT')
+            tech_name = find_name('INGASP.FCFSTRT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -892,8 +905,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.VerticalTail.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.VerticalTail.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFVTT')[0][0]
-            unused_values.delete('INGASP.FCFVTT')
+            tech_name = find_name('INGASP.FCFVTT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -902,8 +916,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     if Aircraft.Wing.DRAG_FACTOR in input_values:
         drag_scaler = input_values.get_val(Aircraft.Wing.DRAG_FACTOR, 'unitless')[0]
         try:
-            tech_factor = unused_values.get_item('INGASP.FCFWT')[0][0]
-            unused_values.delete('INGASP.FCFWT')
+            tech_name = find_name('INGASP.FCFWT', unused_values)
+            tech_factor = unused_values.get_item(tech_name)[0][0]
+            unused_values.delete(tech_name)
         except:
             tech_factor = 1.0
         drag_scaler = round(drag_scaler * tech_factor, round_position)
@@ -1054,7 +1069,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
         # TODO revisit this once CLAPP is added to metadata and is no longer skipped by fortran_to_aviary
         unused_values = vehicle_data['unused_values']
         try:
-            CLAPP = unused_values.get_item('TOLIN.CLAPP')[0][0]
+            CLAPP = unused_values.get_item(find_name('TOLIN.CLAPP', unused_values))[0][0]
             CLLDM = 1.69 * CLAPP
         except KeyError:
             CLLDM = 3.0
@@ -1279,8 +1294,9 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
                     )
 
     # if mission-wide fuel flow factor provided, combine into sub and supersonic fuel flow factors
-    if 'MISSIN.fact' in vehicle_data['unused_values']:
-        FACT = vehicle_data['unused_values'].get_item('MISSIN.fact')[0][0]
+    fact_name = find_name('MISSIN.FACT', vehicle_data['unused_values'])
+    if fact_name in vehicle_data['unused_values']:
+        FACT = vehicle_data['unused_values'].get_item(fact_name)[0][0]
         if Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER in input_values:
             sub_fuel_flow_fact = input_values.get_val(Aircraft.Engine.SUBSONIC_FUEL_FLOW_SCALER)[0]
             input_values.set_val(
@@ -1297,7 +1313,7 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
             )
         else:
             input_values.set_val(Aircraft.Engine.SUPERSONIC_FUEL_FLOW_SCALER, [FACT])
-        vehicle_data['unused_values'].delete('MISSIN.fact')
+        vehicle_data['unused_values'].delete(fact_name)
 
     # These variables should be removed if they are zero.
     rem_list = [
-- 
2.43.0


From 6f0b48908456b07a197af6c793991e2cd3e89ad6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 91/95] fix: the nacelle length of converted GASP decks
 overrode the computed one without a diameter

---
 aviary/utils/fortran_to_aviary.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index c8f4391..3b8bbfe 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -839,11 +839,9 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
     unused_values = vehicle_data['unused_values']
     knac = unused_values.get_item(find_name('INGASP.KNAC', unused_values))[0][0]
     if knac != 2:
-        try:
-            input_values.delete(Aircraft.Nacelle.AVG_DIAMETER)
-            input_values.delete(Aircraft.Nacelle.AVG_LENGTH)
-        except:
-            pass
+        for nacelle_var in (Aircraft.Nacelle.AVG_DIAMETER, Aircraft.Nacelle.AVG_LENGTH):
+            if nacelle_var in input_values:
+                input_values.delete(nacelle_var)
 
     # Friction factors (combine drag factor and technology factor into one factor)
     round_position = 6
-- 
2.43.0


From 53146a5a6a5e41ee36b872c38fea480ddc31adb2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 92/95] fix: numbers with an exponent but no decimal point were
 read as text

---
 aviary/utils/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..4cc6bca 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -121,8 +121,12 @@ def convert_strings_to_data(input_string):
             elif dat.lower() == 'false':
                 value_list[ii] = False
             else:
-                # if the value isn't a number or a boolean, store it as a string
-                value_list[ii] = dat
+                try:
+                    # numbers with an exponent need no decimal point
+                    value_list[ii] = float(dat) if dat[-1:].isdigit() else dat
+                except ValueError:
+                    # if the value isn't a number or a boolean, store it as a string
+                    value_list[ii] = dat
     # unpack output value from list if it isn't supposed to be one
     if not islist:
         value_list = value_list[0]
-- 
2.43.0


From b68a0d2521427ed0c8fc513081b7e7dd9a1d252b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 93/95] fix: legacy variables whose name begins a deprecated
 one were dropped

---
 aviary/utils/fortran_to_aviary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 3b8bbfe..db6aed6 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -18,7 +18,6 @@ ARNGE(1) = 3600 !target range in nautical miles
 
 import csv
 import getpass
-import re
 import warnings
 from datetime import datetime
 from pathlib import Path
@@ -320,7 +319,7 @@ def process_and_store_data(
     var_ind = data_units = None
     skip_variable = False
     # skip any variables that shouldn't get converted
-    if re.search(current_namelist + '.' + var_name, str(unused_vars), re.IGNORECASE):
+    if (current_namelist + '.' + var_name).upper() in [name.upper() for name in unused_vars]:
         return vehicle_data
     # remove any elements that are empty (caused by trailing commas or extra commas)
     data_list = [dat for dat in data.split(',') if dat != '']
-- 
2.43.0


From 262efceb37be0be71a07d56fc35cddf9787ad2bb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 94/95] fix: a fuselage length of zero in FLOPS decks selected
 the simple fuselage layout

---
 aviary/utils/fortran_to_aviary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index db6aed6..1e0e4f4 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -1076,7 +1076,10 @@ def update_flops_options(vehicle_data, cmts, verbosity=Verbosity.BRIEF):
     if design_type[0] == 0:
         input_values.set_val(Aircraft.Design.TYPE, ['transport'], design_units)
 
-        if Aircraft.Fuselage.LENGTH in input_values:
+        if (
+            Aircraft.Fuselage.LENGTH in input_values
+            and input_values.get_val(Aircraft.Fuselage.LENGTH, 'ft')[0] > 0.0
+        ):
             input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [True], 'unitless')
         else:
             input_values.set_val(Aircraft.Fuselage.SIMPLE_LAYOUT, [False], 'unitless')
-- 
2.43.0


From 9c865b9a6f19e606d853041828d749043974a93c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:29:21 +0000
Subject: [PATCH 95/95] fix: GASP decks without the number of seats abreast
 failed with a key error

---
 aviary/utils/fortran_to_aviary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/fortran_to_aviary.py b/aviary/utils/fortran_to_aviary.py
index 1e0e4f4..a47e9d7 100644
--- a/aviary/utils/fortran_to_aviary.py
+++ b/aviary/utils/fortran_to_aviary.py
@@ -564,7 +564,10 @@ def update_gasp_options(vehicle_data, verbosity=Verbosity.BRIEF):
         )
 
     ## Seats ##
-    if Aircraft.Fuselage.NUM_AISLES in input_values:
+    if (
+        Aircraft.Fuselage.NUM_AISLES in input_values
+        and Aircraft.CrewPayload.Design.NUM_SEATS_ABREAST_ECONOMY in input_values
+    ):
         num_aisles = input_values.get_val(Aircraft.Fuselage.NUM_AISLES, 'unitless')[0]
         num_aisles = int(num_aisles)
         input_values.set_val(Aircraft.Fuselage.NUM_AISLES, [num_aisles], 'unitless')
-- 
2.43.0

