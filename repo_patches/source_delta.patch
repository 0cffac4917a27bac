From 381e303f854f86e1c0131d4001b9f5206eac4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/25] fix: let SimplePropeller build with three blades

The three-blade map was selected and then rejected by the else branch of the
following if statement.
---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From 1fce2a9b7ca0b9ec4837b928fce68331614d892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 02/25] fix: finite advance ratio derivative at zero airspeed

Dividing the advance ratio by the airspeed gives NaN for a propeller at rest,
which then poisons every Newton solve around it.
---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 38ad1e5..815c6c9 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -280,7 +280,7 @@ class PropCoefficients(ExplicitComponent):
         J["cp", "fltcond|rho"] = -cpval / inputs["fltcond|rho"]
         J["cp", "rpm"] = -3.0 * cpval / inputs["rpm"]
         J["cp", "diameter"] = -5.0 * cpval / inputs["diameter"]
-        J["J", "fltcond|Utrue"] = jval / inputs["fltcond|Utrue"]
+        J["J", "fltcond|Utrue"] = 60.0 / inputs["rpm"] / inputs["diameter"]
         J["J", "rpm"] = -jval / inputs["rpm"]
         J["J", "diameter"] = -jval / inputs["diameter"]
         J["prop_Vtip", "rpm"] = 1 / 60 * np.pi * inputs["diameter"] * np.ones(nn)
-- 
2.43.0


From c0fa2e25be1a6055dd9d73257644269ce8b66fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/25] fix: set the failed engine's throttle before that
 engine runs

The twin turboprop evaluated engine 2 with the throttle of the previous
evaluation, so a single pass gave a failed engine thrust and fuel flow.
---
 openconcept/propulsion/systems/simple_turboprop.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openconcept/propulsion/systems/simple_turboprop.py b/openconcept/propulsion/systems/simple_turboprop.py
index 04c5a7f..2ebca78 100644
--- a/openconcept/propulsion/systems/simple_turboprop.py
+++ b/openconcept/propulsion/systems/simple_turboprop.py
@@ -116,6 +116,12 @@ class TwinTurbopropPropulsionSystem(Group):
     def setup(self):
         nn = self.options["num_nodes"]
 
+        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
+        failedengine = ElementMultiplyDivideComp()
+        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
+        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
+        self.connect("failedengine.eng2throttle", "eng2.throttle")
+
         # Introduce turboshaft and propeller components (one for each side)
         self.add_subsystem(
             "eng1",
@@ -150,12 +156,6 @@ class TwinTurbopropPropulsionSystem(Group):
         self.set_input_defaults("ac|propulsion|engine|rating", 750.0, units="hp")
         self.set_input_defaults("ac|propulsion|propeller|diameter", 2.28, units="m")
 
-        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
-        failedengine = ElementMultiplyDivideComp()
-        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
-        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
-        self.connect("failedengine.eng2throttle", "eng2.throttle")
-
         # Connect components to each other
         self.connect("eng1.shaft_power_out", "prop1.shaft_power_in")
         self.connect("eng2.shaft_power_out", "prop2.shaft_power_in")
-- 
2.43.0


From 327f1f21c9618c2c43d10abcc329443a8190d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 04/25] fix: count each side's fouling resistance once in
 UAOverall

The hot-side fouling resistance overwrote the cold-side one and was then
counted twice.
---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From 30e81804f21d659bcbde324e6f4f4595de64db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 05/25] fix: use the wick's conductivity for the heat pipe's
 wick resistance

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From ef290958506306543829ca2e81d5f7c08cfc6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 06/25] fix: finite heat pump COP when the two sides have the
 same temperature

---
 openconcept/thermal/chiller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/chiller.py b/openconcept/thermal/chiller.py
index 505cbbc..545efd7 100644
--- a/openconcept/thermal/chiller.py
+++ b/openconcept/thermal/chiller.py
@@ -331,9 +331,12 @@ class COPExplicit(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         delta_T = inputs["T_h"] - inputs["T_c"]
-        COP_raw = inputs["T_c"] / (delta_T)
+        # tanh(delta_T) / delta_T tends to one as the temperatures become equal
+        near_zero = np.abs(delta_T) < 1e-6
+        safe_delta_T = np.where(near_zero, 1.0, delta_T)
+        tanh_ratio = np.where(near_zero, 1.0, np.tanh(safe_delta_T) / safe_delta_T)
         alpha = -1.5
-        a = COP_raw * np.tanh(delta_T) * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
+        a = inputs["T_c"] * tanh_ratio * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
         b = 10.0
         COP_soft = (a * np.exp(alpha * a) + b * np.exp(alpha * b)) / (np.exp(alpha * a) + np.exp(alpha * b))
         outputs["COP"] = COP_soft
-- 
2.43.0


From 8c2d46ed037bcab289867b036f1192ad721fc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 07/25] fix: use the duct nozzle area input in the refrigerated
 hybrid propulsion system

---
 openconcept/propulsion/systems/thermal_series_hybrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/propulsion/systems/thermal_series_hybrid.py b/openconcept/propulsion/systems/thermal_series_hybrid.py
index ff76f7e..2ce1e35 100644
--- a/openconcept/propulsion/systems/thermal_series_hybrid.py
+++ b/openconcept/propulsion/systems/thermal_series_hybrid.py
@@ -396,6 +396,7 @@ class TwinSeriesHybridElectricThermalPropulsionRefrigerated(Group):
         # |                                 |
         # '----- heat exchanger/duct <------'
         self.add_subsystem("duct", ExplicitIncompressibleDuct(num_nodes=nn), promotes_inputs=["fltcond|*"])
+        self.connect("area_nozzle", "duct.area_nozzle")
         self.add_subsystem(
             "hx",
             HXGroup(num_nodes=nn),
-- 
2.43.0


From 1555ad68fc7701b0565f8448d9aef0f20dc18b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 08/25] fix: keep the units of an AddSubtractComp equation when
 setup runs again

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..57aeaaf 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From 580e47139ab7d64e15e54e8c546e79bd89dfe9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 09/25] fix: derivatives of AddSubtractComp and
 ElementMultiplyDivideComp for single-row inputs with length > 1

---
 openconcept/utilities/math/add_subtract_comp.py    | 4 ++--
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index 57aeaaf..0f7ba3d 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -224,8 +224,8 @@ class AddSubtractComp(ExplicitComponent):
                     shape = (vec_in_size, length)
 
                 if vec_in_size == 1:
-                    # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    # scalar input (a single row if length > 1)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..b147eca 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -256,8 +256,8 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 self.add_input(input_name, shape=shape, units=input_units[i], desc=desc + "_inp_" + input_name)
 
                 if vec_in_size == 1:
-                    # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    # scalar input (a single row if length > 1)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From 26ca7b3eb9fbb7ee1a9df0d1858be5bc286eaad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 10/25] fix: ElementMultiplyDivideComp output units when the
 first inputs are unitless

---
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index b147eca..7c925ce 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -267,12 +267,12 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 # derive the units of the output vector from the inputs
                 if input_units[i] is not None:
                     if divide[i]:
-                        if i == 0:
+                        if not output_units_assemble:
                             output_units_assemble.append("(" + input_units[i] + ")**-1 ")
                         else:
                             output_units_assemble.append("/ (" + input_units[i] + ") ")
                     else:
-                        if i == 0:
+                        if not output_units_assemble:
                             output_units_assemble.append(input_units[i] + " ")
                         else:
                             output_units_assemble.append("* (" + input_units[i] + ") ")
-- 
2.43.0


From 4922efd902943e5a0f066e47ebc3eb18e493124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 11/25] fix: DVLabel leaves the caller's variable list
 unchanged

---
 openconcept/utilities/dvlabel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/dvlabel.py b/openconcept/utilities/dvlabel.py
index 3d803e0..142fbe8 100644
--- a/openconcept/utilities/dvlabel.py
+++ b/openconcept/utilities/dvlabel.py
@@ -27,7 +27,7 @@ class DVLabel(ExplicitComponent):
 
     def __init__(self, vars_list):
         super(DVLabel, self).__init__()
-        self.vars_list = vars_list
+        self.vars_list = [list(var_list) for var_list in vars_list]
         for i, var_list in enumerate(self.vars_list):
             val = var_list[2]
             if isinstance(val, (float, int)) or np.isscalar(val):
-- 
2.43.0


From ab71c6079f26228a1ddb23698d859aa8ddfdfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 12/25] fix: MissionWithReserve climbs from takeoff|h

---
 openconcept/mission/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 922dc5c..6251312 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -138,7 +138,7 @@ class FullMissionWithReserve(TrajectoryGroup):
         )
         climb.connect("ode_integ_phase.fltcond|h_final", "climbdt.fltcond|h_final")
         self.connect("cruise|h0", "climb.climbdt.cruise|h0")
-        if not self.include_reserve and not self.include_takeoff:  # BasicMission
+        if not self.include_takeoff:  # BasicMission and MissionWithReserve
             self.connect("takeoff|h", "climb.ode_integ_phase.fltcond|h_initial")
 
         cruise = self.add_subsystem(
-- 
2.43.0


From 615e7c79fb62e86e8f46c818fa7e39d4a40be316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 13/25] fix: the reserve climb starts at the altitude the
 descent ends at

---
 openconcept/mission/profiles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 6251312..fac8cc8 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -210,6 +210,8 @@ class FullMissionWithReserve(TrajectoryGroup):
             )
             reserve_climb.connect("ode_integ_phase.fltcond|h_final", "reserve_climbdt.fltcond|h_final")
             self.connect("reserve|h0", "reserve_climb.reserve_climbdt.reserve|h0")
+            # the reserve climb begins where the descent ends, at the landing altitude
+            self.connect("takeoff|h", "reserve_climb.ode_integ_phase.fltcond|h_initial")
 
             reserve_cruise = self.add_subsystem(
                 "reserve_cruise",
-- 
2.43.0


From 37aba50e537c5e55a1c4bee7e35cd8e1f7e29aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 14/25] fix: cache OpenAeroStruct training inputs only once
 their training data exists

A training run that failed left its wing geometry in the cache, so the next
evaluation of the same wing returned the training data of the previous one.
---
 .../openaerostruct/aerostructural.py          | 22 +++++++++----------
 .../aerodynamics/openaerostruct/drag_polar.py | 10 ++++-----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..eef76ac 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -475,17 +475,6 @@ class OASDataGen(om.ExplicitComponent):
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
         print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
 
-        # Copy new values to cached ones
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = OASDataGen.Mach
@@ -504,6 +493,17 @@ class OASDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
+
+        # Copy new values to cached ones (only once the training has succeeded)
+        OASDataGen.S[:] = S
+        OASDataGen.AR[:] = AR
+        OASDataGen.taper[:] = taper
+        OASDataGen.c4sweep[:] = sweep
+        OASDataGen.twist[:] = twist
+        OASDataGen.toverc[:] = toverc
+        OASDataGen.skin[:] = skin
+        OASDataGen.spar[:] = spar
+        OASDataGen.temp_incr[:] = temp_incr
         OASDataGen.CL[:] = data["CL"]
         OASDataGen.CD[:] = data["CD"]
         OASDataGen.failure[:] = data["failure"]
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..a720e31 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -507,11 +507,6 @@ class VLMDataGen(om.ExplicitComponent):
             outputs["CD_train"] = VLMDataGen.CD
             return
 
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = VLMDataGen.Mach
@@ -524,6 +519,11 @@ class VLMDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
+
+        # Copy new values to cached ones (only once the training has succeeded)
+        VLMDataGen.mesh[:, :, :] = mesh
+        VLMDataGen.toverc[:] = toverc
+        VLMDataGen.temp_incr[:] = temp_incr
         VLMDataGen.CL[:] = data["CL"]
         VLMDataGen.CD[:] = data["CD"]
         VLMDataGen.partials = copy(data["partials"])
-- 
2.43.0


From 16a432068024b03a434b58bcc58d5d432f8d0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 15/25] fix: do not serve OpenAeroStruct training data of
 another instance's grid

The training grid and cached geometry are class attributes overwritten by the
setup of any other instance: an instance with another training grid trained on
the wrong points, one with another mesh size raised a broadcasting error.
---
 .../openaerostruct/aerostructural.py          | 36 +++++++++++++++----
 .../aerodynamics/openaerostruct/drag_polar.py | 26 +++++++++++---
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index eef76ac..b638040 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -422,7 +422,14 @@ class OASDataGen(om.ExplicitComponent):
         else:
             OASDataGen.surf_options = deepcopy(self.options["surf_options"])
 
-        # Generate grids and default cached values for training inputs and outputs
+        self._reset_cache()
+
+    def _reset_cache(self):
+        """
+        Generate grids and default cached values for training inputs and outputs
+        """
+        OASDataGen.mesh_size = (self.options["num_x"], self.options["num_y"])
+        OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt = self._training_grid()
         OASDataGen.S = -np.ones(1)
         OASDataGen.AR = -np.ones(1)
         OASDataGen.taper = -np.ones(1)
@@ -432,15 +439,17 @@ class OASDataGen(om.ExplicitComponent):
         OASDataGen.skin = -1 * np.ones((self.options["num_skin"],))
         OASDataGen.spar = -1 * np.ones((self.options["num_spar"],))
         OASDataGen.temp_incr = -42 * np.ones(1)
-        OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt = np.meshgrid(
-            self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
-        )
-        OASDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.failure = np.zeros((n_Mach, n_alpha, n_alt))
+        OASDataGen.CL = np.zeros(OASDataGen.Mach.shape)
+        OASDataGen.CD = np.zeros(OASDataGen.Mach.shape)
+        OASDataGen.failure = np.zeros(OASDataGen.Mach.shape)
         OASDataGen.W_wing = 0
         OASDataGen.partials = None
 
+    def _training_grid(self):
+        return np.meshgrid(
+            self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
+        )
+
     def compute(self, inputs, outputs):
         S = inputs["ac|geom|wing|S_ref"]
         AR = inputs["ac|geom|wing|AR"]
@@ -453,6 +462,19 @@ class OASDataGen(om.ExplicitComponent):
         CD_nonwing = inputs["ac|aero|CD_nonwing"]
         temp_incr = inputs["fltcond|TempIncrement"]
 
+        # The cache is shared by all instances; discard it if it was left by one with other mesh, spline, or grid sizes
+        grid = self._training_grid()
+        cached_grid = (OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt)
+        if (
+            OASDataGen.mesh_size != (self.options["num_x"], self.options["num_y"])
+            or OASDataGen.twist.shape != twist.shape
+            or OASDataGen.toverc.shape != toverc.shape
+            or OASDataGen.skin.shape != skin.shape
+            or OASDataGen.spar.shape != spar.shape
+            or not all(map(np.array_equal, grid, cached_grid))
+        ):
+            self._reset_cache()
+
         # If the inputs are unchaged, use the previously calculated values
         tol = self.options["regen_tol"]  # floating point comparison tolerance
         if (
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index a720e31..2137036 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -480,22 +480,38 @@ class VLMDataGen(om.ExplicitComponent):
         else:
             VLMDataGen.surf_options = deepcopy(self.options["surf_options"])
 
-        # Generate grids and default cached values for training inputs and outputs
+        self._reset_cache()
+
+    def _reset_cache(self):
+        """
+        Generate grids and default cached values for training inputs and outputs
+        """
+        nx = self.options["num_x"]
+        ny = self.options["num_y"]
+        VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt = self._training_grid()
         VLMDataGen.mesh = -np.ones((nx + 1, ny + 1, 3))
         VLMDataGen.toverc = -np.ones(ny)
         VLMDataGen.temp_incr = -42 * np.ones(1)
-        VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt = np.meshgrid(
+        VLMDataGen.CL = np.zeros(VLMDataGen.Mach.shape)
+        VLMDataGen.CD = np.zeros(VLMDataGen.Mach.shape)
+        VLMDataGen.partials = None
+
+    def _training_grid(self):
+        return np.meshgrid(
             self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
         )
-        VLMDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
-        VLMDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
-        VLMDataGen.partials = None
 
     def compute(self, inputs, outputs):
         mesh = inputs["ac|geom|wing|OAS_mesh"]
         toverc = inputs["ac|geom|wing|toverc"]
         temp_incr = inputs["fltcond|TempIncrement"]
 
+        # The cache is shared by all instances; discard it if it was left by one with another mesh or training grid
+        grid = self._training_grid()
+        cached_grid = (VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt)
+        if mesh.shape != VLMDataGen.mesh.shape or not all(map(np.array_equal, grid, cached_grid)):
+            self._reset_cache()
+
         # If the inputs are unchaged, use the previously calculated values
         tol = 1e-13  # floating point comparison tolerance
         if (
-- 
2.43.0


From d513c6d0e083d7044985dc42b7bd720fb3b82953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 16/25] fix: accept lists of training points in the
 OpenAeroStruct drag polars

alpha_train, Mach_train and alt_train are declared (and documented) as list or
ndarray, but a list raised AttributeError in setup.
---
 .../aerodynamics/openaerostruct/aerostructural.py    | 12 ++++++------
 .../aerodynamics/openaerostruct/drag_polar.py        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index b638040..5b4d265 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -173,9 +173,9 @@ class AerostructDragPolar(om.Group):
 
     def setup(self):
         nn = self.options["num_nodes"]
-        n_alpha = self.options["alpha_train"].size
-        n_Mach = self.options["Mach_train"].size
-        n_alt = self.options["alt_train"].size
+        n_alpha = len(self.options["alpha_train"])
+        n_Mach = len(self.options["Mach_train"])
+        n_alt = len(self.options["alt_train"])
 
         # Training data
         self.add_subsystem(
@@ -391,9 +391,9 @@ class OASDataGen(om.ExplicitComponent):
         self.add_input("ac|aero|CD_nonwing", val=0.0)
         self.add_input("fltcond|TempIncrement", val=0.0, units="degC")
 
-        n_Mach = self.options["Mach_train"].size
-        n_alpha = self.options["alpha_train"].size
-        n_alt = self.options["alt_train"].size
+        n_Mach = len(self.options["Mach_train"])
+        n_alpha = len(self.options["alpha_train"])
+        n_alt = len(self.options["alt_train"])
         self.add_output("CL_train", shape=(n_Mach, n_alpha, n_alt))
         self.add_output("CD_train", shape=(n_Mach, n_alpha, n_alt))
         self.add_output("failure_train", shape=(n_Mach, n_alpha, n_alt))
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 2137036..db0de51 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -217,9 +217,9 @@ class VLMDragPolar(om.Group):
         ny = self.options["num_y"]
         n_twist = self.options["num_twist"]
         geo = self.options["geometry"]
-        n_alpha = self.options["alpha_train"].size
-        n_Mach = self.options["Mach_train"].size
-        n_alt = self.options["alt_train"].size
+        n_alpha = len(self.options["alpha_train"])
+        n_Mach = len(self.options["Mach_train"])
+        n_alt = len(self.options["alt_train"])
 
         # Get the total number of y coordinates if it's not a scalar
         if geo == "section" and isinstance(ny, int):
@@ -451,9 +451,9 @@ class VLMDataGen(om.ExplicitComponent):
         self.add_input("ac|geom|wing|toverc", shape=(ny,), val=0.12)
         self.add_input("fltcond|TempIncrement", val=0.0, units="degC")
 
-        n_Mach = self.options["Mach_train"].size
-        n_alpha = self.options["alpha_train"].size
-        n_alt = self.options["alt_train"].size
+        n_Mach = len(self.options["Mach_train"])
+        n_alpha = len(self.options["alpha_train"])
+        n_alt = len(self.options["alt_train"])
         self.add_output("CL_train", shape=(n_Mach, n_alpha, n_alt))
         self.add_output("CD_train", shape=(n_Mach, n_alpha, n_alt))
 
-- 
2.43.0


From 62bec3bbcdac64705cb5dc5def881298f7675e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 17/25] fix: interpolate the trapezoidal drag polar's t/c with
 the mesh's uniform spacing

VLMDragPolar's trapezoidal mesh is uniformly spaced, but its thickness ratios
were interpolated at cosine-spaced stations (the interpolator's documentation
asks for cos_spacing=False with TrapezoidalPlanformMesh).
---
 openconcept/aerodynamics/openaerostruct/drag_polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index db0de51..9033066 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -303,7 +303,7 @@ class VLMDragPolar(om.Group):
             n_sections = self.options["num_sections"] if geo == "section" else 2
             self.add_subsystem(
                 "t_over_c_interp",
-                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections),
+                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections, cos_spacing=geo == "section"),
                 promotes_inputs=[("section_toverc", "ac|geom|wing|toverc")],
             )
 
-- 
2.43.0


From d86d96af01e7b90199dae0acf060e68be570c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 18/25] fix: label plot_trajectory_grid panels by variable name
 when no y_labels are given

The name was passed to Axes.set as a positional argument, a TypeError.
---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 448fc47..41c100e 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -92,7 +92,7 @@ def plot_trajectory_grid(
             if y_labels[i] is not None:
                 axs[row_no, col_no].set(ylabel=y_labels[i])
         else:
-            axs[row_no, col_no].set(y_var)
+            axs[row_no, col_no].set(ylabel=y_var)
 
         counter_within_file += 1
 
-- 
2.43.0


From 0ea464ec2a423e5e342535609c879e5c34ddd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 19/25] fix: allow single-row and single-column layouts in
 plot_trajectory_grid

subplots squeezes those to a 1D array, which the two-index lookups raise on.
---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 41c100e..6792170 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -71,7 +71,7 @@ def plot_trajectory_grid(
                 # write the file
                 if savefig is not None:
                     plt.savefig(savefig + "_" + str(file_counter) + ".pdf")
-            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize)
+            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize, squeeze=False)
             file_counter += 1
             counter_within_file = 0
 
-- 
2.43.0


From 1aef0fa551282a4ca8a451cd5bcad77a3d147b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 20/25] fix: width of the panels' back edge in
 plot_OAS_force_contours

It was always zero, which halved every panel area and doubled the plotted force
per area.
---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 6792170..d4fb5f9 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -232,7 +232,7 @@ def plot_OAS_force_contours(
 
     # Compute the panel areas
     panel_front_widths = y_mesh[:-1, 1:] - y_mesh[:-1, :-1]
-    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, 1:]
+    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, :-1]
     panel_avg_widths = 0.5 * (panel_front_widths + panel_back_widths)
     panel_left_side_lengths = x_mesh[1:, :-1] - x_mesh[:-1, :-1]
     panel_right_side_lengths = x_mesh[1:, 1:] - x_mesh[:-1, 1:]
-- 
2.43.0


From b2380fce222dc2004f56e1db277a86cec9dee967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:57 +0000
Subject: [PATCH 21/25] fix: promote the propeller's flight conditions in
 SeriesHybridElectricPropulsionSystem

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..d7e0bfe 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -174,7 +174,7 @@ class SeriesHybridElectricPropulsionSystem(Group):
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From 814551c259ccee719c1b19b6c4d7202dcc1ee496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 22/25] fix: run the engine before its generator in
 SeriesHybridElectricPropulsionSystem

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index d7e0bfe..06b7512 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -170,8 +170,8 @@ class SeriesHybridElectricPropulsionSystem(Group):
         # introduce model components
         self.add_subsystem("motor1", SimpleMotor(efficiency=0.97, num_nodes=nn), promotes_inputs=["throttle"])
         self.add_subsystem("hybrid_split", PowerSplit(rule="fraction", num_nodes=nn))
-        self.add_subsystem("gen1", SimpleGenerator(efficiency=0.97, num_nodes=nn))
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
+        self.add_subsystem("gen1", SimpleGenerator(efficiency=0.97, num_nodes=nn))
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
             "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
-- 
2.43.0


From 236cb8620edaca5b7fd9c89fac9b0107a077c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 23/25] fix: allow a trajectory with linked phases to be set up
 more than once

---
 openconcept/mission/mission_groups.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..608d5af 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -290,8 +290,15 @@ class IntegratorGroup(om.Group):
 class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
+        self._oc_static_phases_to_link = []
         self._oc_phases_to_link = []
 
+    def _setup_procs(self, *args):
+        # Links requested in the setup method are requested again whenever setup is repeated, so drop the old ones
+        # (they refer to the previous phases). Links requested before setup stay, like OpenMDAO's own static connections.
+        self._oc_phases_to_link = self._oc_static_phases_to_link.copy()
+        super(TrajectoryGroup, self)._setup_procs(*args)
+
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
         for linkage in self._oc_phases_to_link:
@@ -331,4 +338,7 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
-        self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
+        if self._static_mode:
+            self._oc_static_phases_to_link.append((phase1, phase2, states_to_skip))
+        else:
+            self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From 566f7eb3d411ee7cf6131298b964dab0fc3c13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 24/25] fix: allow Aerostruct without structural weight relief

---
 .../openaerostruct/aerostructural.py          | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 5b4d265..efbd7ab 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -1290,18 +1290,21 @@ class Aerostruct(om.Group):
             promotes_outputs=["ac|weights|W_wing"],
         )
 
+        point_inputs = [
+            ("Mach_number", "fltcond|M"),
+            ("alpha", "fltcond|alpha"),
+            "W0",
+            "empty_cg",
+            "load_factor",
+            ("total_perf.wing_structural_mass", "ac|weights|W_wing"),
+        ]
+        # The coupled group has a load factor only if it uses one to compute weight loads
+        if surf_dict["struct_weight_relief"] or surf_dict["distributed_fuel_weight"]:
+            point_inputs.append(("coupled.load_factor", "load_factor"))
         self.add_subsystem(
             "aerostruct_point",
             AerostructPoint(surfaces=[surf_dict], internally_connect_fuelburn=False),
-            promotes_inputs=[
-                ("Mach_number", "fltcond|M"),
-                ("alpha", "fltcond|alpha"),
-                "W0",
-                "empty_cg",
-                "load_factor",
-                ("coupled.load_factor", "load_factor"),
-                ("total_perf.wing_structural_mass", "ac|weights|W_wing"),
-            ],
+            promotes_inputs=point_inputs,
             promotes_outputs=[("CL", "fltcond|CL"), ("CD", "fltcond|CD"), ("wing_perf.failure", "failure")],
         )
         self.connect("airspeed.Utrue", "aerostruct_point.v")
-- 
2.43.0


From 0f6afbb0df8f1a2ba59f5060faf7ca0669ec106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:54 +0000
Subject: [PATCH 25/25] fix: integrator derivatives for rates with zeros

---
 openconcept/utilities/math/integrals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..5767266 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -211,8 +211,13 @@ def multistep_integrator(q0, dqdt, dts, tri_mat, repeat_mat, segment_names=None,
                 row_list.append([tri_mat])
             else:
                 row_list.append([sp.csr_matrix(([], ([], [])), shape=(n, n))])
-        dQddt = sp.bmat(row_list).dot(dqdt[j * n : (j + 1) * n])
-        dt_partials_list.append(sp.csr_matrix(dQddt).transpose())
+        dt_mat = sp.bmat(row_list).asformat("csr")
+        dQddt = dt_mat.dot(dqdt[j * n : (j + 1) * n])
+        # keep entries which happen to be zero for this dqdt, so that the sparsity pattern is always the declared one
+        rows = np.flatnonzero(np.diff(dt_mat.indptr))
+        dt_partials_list.append(
+            sp.csr_matrix((dQddt[rows], (rows, np.zeros_like(rows))), shape=(len(dQddt), 1)),
+        )
 
     return dQdqdt, dt_partials_list
 
-- 
2.43.0

