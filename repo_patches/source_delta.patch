From cd9dccfd1d3165a33ee0f98ff3e6a32c0497cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 01/37] fix: interpret last_time_step_hours as hours, whatever
 the unit of the time series

---
 flixOpt/flow_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..65887db 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -55,7 +55,10 @@ class FlowSystem:
         self.last_time_step_hours = (
             self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
         )
-        self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + self.last_time_step_hours)
+        last_time_step = self.last_time_step_hours
+        if not isinstance(last_time_step, np.timedelta64):  # given as a number of hours
+            last_time_step = np.timedelta64(round(last_time_step * 3600 * 1e6), 'us')
+        self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + last_time_step)
         self.previous_dt_in_hours: Union[int, float, np.ndarray] = (
             ((self.time_series[1] - self.time_series[0]) / np.timedelta64(1, 'h'))
             if previous_dt_in_hours is None
-- 
2.43.0


From 83a44cdf6310fd127eef5e9fe85a38376aa41b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 02/37] fix: accept TimeSeriesData as
 relative_minimum/relative_maximum of a Flow

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..1e1f932 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            bound.data if isinstance(bound, TimeSeriesData) else bound
+            for bound in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(relative_minimum > relative_maximum):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From 7064a473ba80755b1c9e392d3c01af754c7a6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 03/37] fix: equate the initial charge state with the charge
 state at the end of the last time step ('lastValueOfSim')

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..6a559ef 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From b3d0dfa0072bda6de6952c86d3b3ede9cc7f9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 04/37] fix: apply the final charge state limits of a Storage
 also without a given initial charge state

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a559ef..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From bc645293077a3fdaa0d6d1d9ca7aaefe4274b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 05/37] fix: combine the previous on-states of several flows
 per time step (scalars, different lengths)

---
 flixOpt/features.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..759bd7e 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -562,12 +562,12 @@ class OnOffModel(ElementModel):
 
         if not previous_values:
             return np.array([0])
-        else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+        else:  # Compute binary on/off states per variable, aligned at the last previous time step
+            previous_states = [~np.isclose(np.atleast_1d(values), 0, atol=epsilon) for values in previous_values]
+            on = np.zeros(max(len(states) for states in previous_states), dtype=bool)
+            for states in previous_states:
+                on[len(on) - len(states) :] |= states
+            return on.astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From ebe49245b23d22ee85410a89e022e8a7e171cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 06/37] fix: compute the previous consecutive duration from the
 values after the last zero

---
 flixOpt/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 759bd7e..5ec5d3d 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,9 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = len(binary_values) - (zero_indices[-1] + 1 if zero_indices.size > 0 else 0)
+        if length_of_last_duration == 0:
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
-- 
2.43.0


From 29ef58aceba2400cac28557f4d300a6b6c2fb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 07/37] fix: error message for too short dt_in_hours in
 get_consecutive_duration

---
 flixOpt/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 5ec5d3d..5f47bb5 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -614,7 +614,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From 2d38e4f15c2331b3940fbbb59efdf17cfad08c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 08/37] fix: accept arrays as
 effects_per_switch_on/effects_per_running_hour

---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..1876f86 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From 2fbd44a7a1caca03e69e4c81249afb3c0d4d99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 09/37] fix: let an optional investment be declined whatever
 the relative minimum or profile

---
 flixOpt/components.py | 8 +++++++-
 flixOpt/elements.py   | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..7786f9a 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -523,8 +523,14 @@ class StorageModel(ComponentModel):
                 relative_upper_bound * self.element.capacity_in_flow_hours,
             )
         else:
+            # if the investment is optional, not investing forces the charge state to 0
+            minimum_size = (
+                0
+                if self.element.capacity_in_flow_hours.optional
+                else self.element.capacity_in_flow_hours.minimum_size
+            )
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
+                relative_lower_bound * minimum_size,
                 relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
             )
 
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 1e1f932..b56da44 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -311,7 +311,7 @@ class FlowModel(ElementModel):
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
+            lower_bound=self._lower_bound_of_flow_rate if self.element.on_off_parameters is None else 0,
             upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
@@ -408,6 +408,13 @@ class FlowModel(ElementModel):
             return rel_min * size.fixed_size, rel_max * size.fixed_size
         return rel_min * size.minimum_size, rel_max * size.maximum_size
 
+    @property
+    def _lower_bound_of_flow_rate(self) -> Numeric:
+        """Returns the lower bound, that applies whatever the investment decision is"""
+        lower_bound = self.absolute_flow_rate_bounds[0]
+        if self.with_investment and self.element.size.optional:
+            return np.minimum(lower_bound, 0)  # not investing forces the flow rate to 0
+        return lower_bound
 
     @property
     def relative_flow_rate_bounds(self) -> Tuple[Numeric, Numeric]:
-- 
2.43.0


From 2c3131284e13c85c92dae296d88c114e57690a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 10/37] fix: accept absolute_losses of zero in a Transmission

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 7786f9a..2a912d0 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From c2960dbeb50e991bf1e1e3c140d3289a8abab1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 11/37] fix: round the results of binary variables instead of
 truncating them

---
 flixOpt/math_modeling.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..0700f30 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1012,12 +1012,11 @@ class PyomoModel(ModelingLanguage):
         math_model.result_of_objective = self.model.objective.expr()
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
-            if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
-            else:
-                dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:
+                # solvers return binaries with a small tolerance, so they need to be rounded
+                result = np.rint(result).astype(np.int8)  # geht das vielleicht noch kleiner ???
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 078311b0fae6864258932da096e7c83c84407acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 12/37] fix: select the limits of the charge state at the end
 of the last step when only some time steps are calculated

---
 flixOpt/components.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 2a912d0..4b7d994 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -537,10 +537,17 @@ class StorageModel(ComponentModel):
     @property
     def relative_charge_state_bounds(self) -> Tuple[Numeric, Numeric]:
         return (
-            self.element.relative_minimum_charge_state.active_data,
-            self.element.relative_maximum_charge_state.active_data,
+            self._active_charge_state_data(self.element.relative_minimum_charge_state),
+            self._active_charge_state_data(self.element.relative_maximum_charge_state),
         )
 
+    @staticmethod
+    def _active_charge_state_data(time_series: TimeSeries) -> Numeric:
+        # one value more than there are time steps: the charge state at the end of the last active time step
+        if time_series.is_array and time_series.active_indices is not None and time_series.aggregated_data is None:
+            return time_series.data[[*time_series.active_indices, time_series.active_indices[-1] + 1]]
+        return time_series.active_data
+
 
 class SourceAndSink(Component):
     """
-- 
2.43.0


From 13cb03d5a54576e365e4e91cb18af0c197c6cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 13/37] fix: a sum over selected indices of a variable took the
 indices twice

---
 flixOpt/math_modeling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 0700f30..60a931a 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1128,7 +1128,9 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            nr_of_factors = len(summand.factor_vec)
+            indices = summand.indices if len(summand.indices) == nr_of_factors else [summand.indices[0]] * nr_of_factors
+            return sum(pyomo_variable[index] * factor for index, factor in zip(indices, summand.factor_vec))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From 3214a585b81988f54cd261d74e17357567154f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 14/37] fix: a constant rejected for its length stayed part of
 the equation

---
 flixOpt/math_modeling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 60a931a..a4de316 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -216,14 +216,15 @@ class _Constraint:
             If the length doesnt match the Equation's length.
 
         """
-        self.constant = np.add(self.constant, value)  # Adding to current constant
-        self.parts_of_constant.append(value)  # Adding to parts of constants
+        constant = np.add(self.constant, value)  # Adding to current constant
 
-        length = 1 if np.isscalar(self.constant) else len(self.constant)
+        length = 1 if np.isscalar(constant) else len(constant)
         try:
             self._update_length(length)
         except ValueError as e:
             raise ValueError(f'Length of Constant {value=} does not fit: {e}') from e
+        self.constant = constant
+        self.parts_of_constant.append(value)  # Adding to parts of constants
 
     def description(self, at_index: int = 0) -> str:
         raise NotImplementedError('Not implemented for Abstract class <_Constraint>')
-- 
2.43.0


From 2a4df98e135ee9f2ec2bf9ab3372f2b1b4f73d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 15/37] fix: activating other time steps kept the aggregated
 data of the ones before

---
 flixOpt/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/core.py b/flixOpt/core.py
index 9ee489c..6c6e17a 100644
--- a/flixOpt/core.py
+++ b/flixOpt/core.py
@@ -110,6 +110,7 @@ class TimeSeries:
 
     def activate_indices(self, indices: Optional[Union[range, List[int]]], aggregated_data: Optional[Numeric] = None):
         self.active_indices = indices
+        self.aggregated_data = None  # belongs to the indices activated before
 
         if aggregated_data is not None:
             assert len(aggregated_data) == len(self.active_indices) or len(aggregated_data) == 1, (
-- 
2.43.0


From 71fd87784e2a5b904d28c9b035d20e9e54fd344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 16/37] fix: labels of flows, buses and effects could collide
 with those of other elements, and a flow could be registered twice

---
 flixOpt/flow_system.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 65887db..bfd2389 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -75,6 +75,7 @@ class FlowSystem:
     def add_effects(self, *args: Effect) -> None:
         for new_effect in list(args):
             logger.info(f'Registered new Effect: {new_effect.label}')
+            self._check_if_element_is_unique(new_effect)
             self.effect_collection.add_effect(new_effect)
 
     def add_components(self, *args: Component) -> None:
@@ -83,6 +84,7 @@ class FlowSystem:
         for new_component in new_components:
             logger.info(f'Registered new Component: {new_component.label}')
             self._check_if_element_is_unique(new_component)  # check if already exists:
+            self._check_flows_and_buses(new_component)
             new_component.register_component_in_flows()  # Komponente in Flow registrieren
             new_component.register_flows_in_bus()  # Flows in Bus registrieren:
             self.components[new_component.label] = new_component  # Add to existing components
@@ -222,12 +224,36 @@ class FlowSystem:
         element : Element
             new element to check
         """
-        if element in self.all_elements:
+        if element in self.all_elements.values():
             raise Exception(f'Element {element.label} already added to FlowSystem!')
         # check if name is already used:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
 
+    def _check_flows_and_buses(self, component: Component) -> None:
+        """
+        checks if the flows of a new component and their buses are unique, before anything is registered
+
+        Parameters
+        ----------
+        component : Component
+            new component to check
+        """
+        used: Dict[str, Element] = {**self.all_elements, component.label_full: component}
+        known_flows = list(self.flows.values())
+        flows = component.inputs + component.outputs
+        for flow in flows:
+            if flow in known_flows:
+                raise Exception(f'Flow {flow.label} of Component {component.label} is already part of the FlowSystem!')
+            label_full = f'{component.label}__{flow.label}'
+            if label_full in used:
+                raise Exception(f'Label of Flow {label_full} already used in another element!')
+            used[label_full] = flow
+            known_flows.append(flow)
+        for flow in flows:
+            if used.setdefault(flow.bus.label_full, flow.bus) is not flow.bus:
+                raise Exception(f'Label of Bus {flow.bus.label} already used in another element!')
+
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.float64]:
-- 
2.43.0


From a41039e65175713913e8870682d7bb348e960277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 17/37] fix: a segment whose overlap was cut off at the end
 handed over the state of a wrong time step

---
 flixOpt/calculation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..8a45faa 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -483,16 +483,16 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # The state after the last time step of the prior segment, without the overlap (which might be truncated)
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
-                final_index_of_prior_segment
+                self.segment_length - 1
             ]  # TODO: maybe more values?
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[self.segment_length]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From 17c253a72d379a65e84a6551756bd3fe44aa2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 18/37] fix: a segmented calculation of selected time steps
 calculated the first ones of the flow system

---
 flixOpt/calculation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 8a45faa..4a064f1 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -373,7 +373,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -505,9 +505,12 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, list[int]]:
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        end = min(start + self.segment_length + self.overlap_length, self._total_length)
+        if self.time_indices is None:
+            return range(start, end)
+        return self.time_indices[start:end]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From 70f53b3e6476f9c7a3771d61526357cff0eb030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 19/37] fix: a failed segmented calculation left the start
 values of its segments in the elements; solving again appended the segments

---
 flixOpt/calculation.py | 73 +++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 4a064f1..8af0623 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -352,45 +352,41 @@ class SegmentedCalculation(Calculation):
             f'{self.segment_length_with_overlap=} cant be greater than the total length {self._total_length}'
         )
 
-        # Storing all original start values
-        self._original_start_values = {
-            **{flow: flow.previous_flow_rate for flow in self.flow_system.flows.values()},
-            **{
-                comp: comp.initial_charge_state
-                for comp in self.flow_system.components.values()
-                if isinstance(comp, Storage)
-            },
-        }
+        self._store_start_values()
         self._transfered_start_values: Dict[str, Dict[str, Any]] = {}
 
     def do_modeling_and_solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = True):
         logger.info(f'{"":#^80}')
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
-
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        self._store_start_values()
+        self.sub_calculations = []
+        self._transfered_start_values = {}
+
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
@@ -497,6 +493,17 @@ class SegmentedCalculation(Calculation):
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
 
+    def _store_start_values(self):
+        """This stores the original start values of all Elements"""
+        self._original_start_values = {
+            **{flow: flow.previous_flow_rate for flow in self.flow_system.flows.values()},
+            **{
+                comp: comp.initial_charge_state
+                for comp in self.flow_system.components.values()
+                if isinstance(comp, Storage)
+            },
+        }
+
     def _reset_start_values(self):
         """This resets the start values of all Elements to its original state"""
         for flow in self.flow_system.flows.values():
-- 
2.43.0


From 01202031daf2f7ae18a1cf78c7b4c91ec12c190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:14 +0000
Subject: [PATCH 20/37] fix: a segmented calculation could end with a segment
 of a single time step, which can't be modeled or combined

---
 flixOpt/calculation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 8af0623..d3c9885 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -345,6 +345,8 @@ class SegmentedCalculation(Calculation):
         self.overlap_length = overlap_length
         self._total_length = len(self.time_indices) if self.time_indices is not None else len(flow_system.time_series)
         self.number_of_segments = math.ceil(self._total_length / self.segment_length)
+        if self.number_of_segments > 1 and self._total_length % self.segment_length == 1:
+            self.number_of_segments -= 1  # A single time step can't be modeled. It's part of the segment before
         self.sub_calculations: List[FullCalculation] = []
 
         assert segment_length > 2, 'The Segment length must be greater 2, due to unwanted internal side effects'
@@ -515,6 +517,8 @@ class SegmentedCalculation(Calculation):
     def _get_indices(self, segment_index: int) -> Union[range, list[int]]:
         start = segment_index * self.segment_length
         end = min(start + self.segment_length + self.overlap_length, self._total_length)
+        if segment_index == self.number_of_segments - 1:
+            end = self._total_length
         if self.time_indices is None:
             return range(start, end)
         return self.time_indices[start:end]
-- 
2.43.0


From 2d24c93546698af0ea86ff9286f1976c77627d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 21/37] fix: results of a calculation that was solved again
 were those of the first time

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index d3c9885..f937e02 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -165,6 +165,7 @@ class FullCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # of a prior solve
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
@@ -295,6 +296,7 @@ class AggregatedCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # of a prior solve
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
-- 
2.43.0


From 96dc2cf3709a273a883bc69fc23385628de889e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 22/37] fix: solving a calculation after another one was
 modeled failed, or reported the main results of the other one

---
 flixOpt/structure.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..0d885cd 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -121,27 +121,25 @@ class SystemModel(MathModel):
     def description_of_variables(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_variables(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_variables(structured) for model in self.component_models
             },
             'Buses': {
-                label: bus.model.description_of_variables(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_variables(structured) for model in self.bus_models
             },
-            'Effects': self.flow_system.effect_collection.model.description_of_variables(structured),
+            'Effects': self.effect_collection_model.description_of_variables(structured),
             'Others': {model.element.label: model.description_of_variables(structured) for model in self.other_models},
         }
 
     def description_of_constraints(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_constraints(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.component_models
             },
             'Buses': {
-                label: bus.model.description_of_constraints(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.bus_models
             },
             'Objective': self.objective.description(),
-            'Effects': self.flow_system.effect_collection.model.description_of_constraints(structured),
+            'Effects': self.effect_collection_model.description_of_constraints(structured),
             'Others': {
                 model.element.label: model.description_of_constraints(structured) for model in self.other_models
             },
@@ -163,21 +161,22 @@ class SystemModel(MathModel):
         main_results = {}
         effect_results = {}
         main_results['Effects'] = effect_results
-        for effect in self.flow_system.effect_collection.effects.values():
+        # The models of this SystemModel. The Elements might already have the models of another Calculation
+        for effect, effect_model in self.effect_collection_model._effect_models.items():
             effect_results[f'{effect.label} [{effect.unit}]'] = {
-                'operation': float(effect.model.operation.sum.result),
-                'invest': float(effect.model.invest.sum.result),
-                'sum': float(effect.model.all.sum.result),
+                'operation': float(effect_model.operation.sum.result),
+                'invest': float(effect_model.invest.sum.result),
+                'sum': float(effect_model.all.sum.result),
             }
         main_results['penalty'] = float(self.effect_collection_model.penalty.sum.result)
         main_results['Objective'] = self.result_of_objective
         main_results['lower bound'] = self.solver.best_bound
         buses_with_excess = []
         main_results['buses with excess'] = buses_with_excess
-        for bus in self.flow_system.buses.values():
-            if bus.with_excess:
-                if np.sum(bus.model.excess_input.result) > 1e-3 or np.sum(bus.model.excess_output.result) > 1e-3:
-                    buses_with_excess.append(bus.label)
+        for bus_model in self.bus_models:
+            if bus_model.excess_input is not None:
+                if np.sum(bus_model.excess_input.result) > 1e-3 or np.sum(bus_model.excess_output.result) > 1e-3:
+                    buses_with_excess.append(bus_model.element.label)
 
         invest_decisions = {'invested': {}, 'not invested': {}}
         main_results['Invest-Decisions'] = invest_decisions
-- 
2.43.0


From dbe77b4f5e75c231f56a148c8f93d0f1ff19920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 23/37] fix: data which was replaced after a calculation took
 part in the aggregation of later calculations

---
 flixOpt/flow_system.py | 4 +++-
 flixOpt/structure.py   | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index bfd2389..9fcb99f 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -109,6 +109,7 @@ class FlowSystem:
 
     def transform_data(self):
         for element in self.all_elements.values():
+            element.used_time_series = []  # Data might have been replaced since the last transformation
             element.transform_data()
 
     def network_infos(self) -> Tuple[Dict[str, Dict[str, str]], Dict[str, Dict[str, str]]]:
@@ -318,7 +319,8 @@ class FlowSystem:
 
     @property
     def all_time_series(self) -> List[TimeSeries]:
-        return [ts for element in self.all_elements.values() for ts in element.used_time_series]
+        all_time_series = [ts for element in self.all_elements.values() for ts in element.used_time_series]
+        return list({id(ts): ts for ts in all_time_series}.values())  # Parameters can be shared by Elements
 
 
 def create_datetime_array(
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 0d885cd..e63cb59 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -507,6 +507,8 @@ def _create_time_series(
         return None
     elif isinstance(data, TimeSeries):
         data.clear_indices_and_aggregated_data()
+        if not any(time_series is data for time_series in element.used_time_series):
+            element.used_time_series.append(data)
         return data
     else:
         time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data)
-- 
2.43.0


From 95c176a85a467452da3773f52e995726dab25fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 24/37] fix: On-Variables forced by a component or by absolute
 losses stayed with the flows in later calculations

---
 flixOpt/components.py | 12 ++++++------
 flixOpt/elements.py   | 29 +++++++++++++++--------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 4b7d994..8cd8a55 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -327,12 +327,6 @@ class TransmissionModel(ComponentModel):
 
     def do_modeling(self, system_model: SystemModel):
         """Initiates all FlowModels"""
-        # Force On Variable if absolute losses are present
-        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
-            for flow in self.element.inputs + self.element.outputs:
-                if flow.on_off_parameters is None:
-                    flow.on_off_parameters = OnOffParameters()
-
         # Make sure either None or both in Flows have InvestParameters
         if self.element.in2 is not None:
             if isinstance(self.element.in1.size, InvestParameters) and not isinstance(
@@ -356,6 +350,12 @@ class TransmissionModel(ComponentModel):
             eq_equal_size.add_summand(self.element.in1.model._investment.size, 1)
             eq_equal_size.add_summand(self.element.in2.model._investment.size, -1)
 
+    def _flows_with_on_variable(self) -> List[Flow]:
+        # Force On Variable if absolute losses are present
+        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
+            return self.element.inputs + self.element.outputs
+        return super()._flows_with_on_variable()
+
     def create_transmission_equation(self, name: str, in_flow: Flow, out_flow: Flow) -> Equation:
         """Creates an Equation for the Transmission efficiency and adds it to the model"""
         # first direction
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index b56da44..b656c23 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -299,6 +299,7 @@ class FlowModel(ElementModel):
     def __init__(self, element: Flow):
         super().__init__(element)
         self.element: Flow = element
+        self.on_off_parameters: Optional[OnOffParameters] = element.on_off_parameters
         self.flow_rate: Optional[VariableTS] = None
         self.sum_flow_hours: Optional[Variable] = None
 
@@ -311,15 +312,15 @@ class FlowModel(ElementModel):
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self._lower_bound_of_flow_rate if self.element.on_off_parameters is None else 0,
-            upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
+            lower_bound=self._lower_bound_of_flow_rate if self.on_off_parameters is None else 0,
+            upper_bound=self.absolute_flow_rate_bounds[1] if self.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
 
         # OnOff
-        if self.element.on_off_parameters is not None:
+        if self.on_off_parameters is not None:
             self._on = OnOffModel(
-                self.element, self.element.on_off_parameters, [self.flow_rate], [self.absolute_flow_rate_bounds]
+                self.element, self.on_off_parameters, [self.flow_rate], [self.absolute_flow_rate_bounds]
             )
             self._on.do_modeling(system_model)
             self.sub_models.append(self._on)
@@ -471,17 +472,11 @@ class ComponentModel(ElementModel):
     def do_modeling(self, system_model: SystemModel):
         """Initiates all FlowModels"""
         all_flows = self.element.inputs + self.element.outputs
-        if self.element.on_off_parameters:
-            for flow in all_flows:
-                if flow.on_off_parameters is None:
-                    flow.on_off_parameters = OnOffParameters()
-
-        if self.element.prevent_simultaneous_flows:
-            for flow in self.element.prevent_simultaneous_flows:
-                if flow.on_off_parameters is None:
-                    flow.on_off_parameters = OnOffParameters()
-
         self.sub_models.extend([flow.create_model() for flow in all_flows])
+        for flow in self._flows_with_on_variable():
+            if flow.model.on_off_parameters is None:  # Not stored in the Flow, which is used in other Models as well
+                flow.model.on_off_parameters = OnOffParameters()
+
         for sub_model in self.sub_models:
             sub_model.do_modeling(system_model)
 
@@ -498,3 +493,9 @@ class ComponentModel(ElementModel):
             simultaneous_use = PreventSimultaneousUsageModel(self.element, on_variables)
             self.sub_models.append(simultaneous_use)
             simultaneous_use.do_modeling(system_model)
+
+    def _flows_with_on_variable(self) -> List[Flow]:
+        """The Flows that need an On Variable, even if they don't have any OnOffParameters themselves"""
+        if self.element.on_off_parameters:
+            return self.element.inputs + self.element.outputs
+        return self.element.prevent_simultaneous_flows
-- 
2.43.0


From d557582569010d990e2f93dd40e6b0936c600b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 25/37] fix: effects given for the standard effect (None) in a
 dict got lost when the dict was used for another element as well

---
 flixOpt/effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..6d44b2e 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,6 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
+        nested_values = dict(nested_values)  # The dict of the user might be used for several Elements
         standard_value = nested_values.pop(None, None)
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
-- 
2.43.0


From 72bb228218fd05820c5b543afa731da5d6a47c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 26/37] fix: results with time stamps in whole days could not
 be saved

---
 flixOpt/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index e63cb59..237edc0 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -7,7 +7,7 @@ import inspect
 import json
 import logging
 import pathlib
-from datetime import datetime
+from datetime import date
 from io import StringIO
 from typing import TYPE_CHECKING, Any, Dict, List, Literal, Optional, Union
 
@@ -611,7 +611,7 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
-    elif isinstance(data, datetime):
+    elif isinstance(data, date):  # datetime is a subclass. Time stamps with a resolution of days are converted to date
         return data.isoformat()
 
     elif isinstance(data, (tuple, set)):
-- 
2.43.0


From 223e6831435bb33ecaa2a0925e1583430d82cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 27/37] fix: results of a segmented calculation without excess
 at a bus could not be reloaded

---
 flixOpt/results.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..783a6f6 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -105,12 +105,13 @@ class CalculationResults:
 
     def _construct_bus_results(self):
         """This has to be called after _construct_component_results(), as its using the Flows from the Components"""
-        bus_results = self.all_results['Buses']
+        # Buses without excess have no results of their own. Segmented calculations don't list them
+        bus_results = self.all_results.get('Buses', {})
         bus_infos = self.all_data['Buses']
-        if not bus_results.keys() == bus_infos.keys():
-            logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() ^ bus_infos.keys()}')
+        if not bus_results.keys() <= bus_infos.keys():
+            logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() - bus_infos.keys()}')
 
-        for bus_label in bus_results.keys():
+        for bus_label in bus_infos.keys():
             infos, results = bus_infos.get(bus_label, {}), bus_results.get(bus_label, {})
             inputs = [
                 flow
-- 
2.43.0


From 2a217f7a48f9e572be8b05e55e702874dc4d13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 28/37] fix: aggregating the data of a converter with several
 time-varying factors failed (duplicate labels of time series)

---
 flixOpt/components.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 8cd8a55..35f38f4 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -100,20 +100,20 @@ class LinearConverter(Component):
             for flow, segments in self.segmented_conversion_factors.items():
                 segmented_conversion_factors[flow] = [
                     (
-                        _create_time_series('Stuetzstelle', segment[0], self),
-                        _create_time_series('Stuetzstelle', segment[1], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}a', segment[0], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}b', segment[1], self),
                     )
-                    for segment in segments
+                    for i, segment in enumerate(segments)
                 ]
             self.segmented_conversion_factors = segmented_conversion_factors
 
     def _transform_conversion_factors(self) -> List[Dict[Flow, TimeSeries]]:
         """macht alle Faktoren, die nicht TimeSeries sind, zu TimeSeries"""
         list_of_conversion_factors = []
-        for conversion_factor in self.conversion_factors:
+        for i, conversion_factor in enumerate(self.conversion_factors):
             transformed_dict = {}
             for flow, values in conversion_factor.items():
-                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor', values, self)
+                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor{i}', values, self)
             list_of_conversion_factors.append(transformed_dict)
         return list_of_conversion_factors
 
-- 
2.43.0


From 11b36c65aea6dcc71bdc540434c920f0ff5bda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 29/37] fix: an aggregated calculation in which no typical
 period occurs twice failed

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..9c7f7e8 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -364,6 +364,8 @@ class AggregationModel(ElementModel):
             components = [component for component in self.components_to_clusterize]
 
         indices = self.aggregation_data.get_equation_indices(skip_first_index_of_period=True)
+        if len(indices[0]) == 0:
+            return  # No typical period occurs more than once: Nothing to equate
 
         for component in components:
             if isinstance(component, Storage) and not self.aggregation_parameters.fix_storage_flows:
-- 
2.43.0


From bf4785b8a864a4297f771efe8ffd641574d889dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 30/37] fix: the penalty of a variable with a single value (one
 deviating value, one time step) couldn't be modeled

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 6d44b2e..b0b48ec 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -388,7 +388,7 @@ class EffectCollectionModel(ElementModel):
         factor: Numeric,
     ) -> None:
         assert variable is not None, 'A Variable must be passed to add a share to penalty! Else its a constant Penalty!'
-        self.penalty.add_share(self._system_model, name, variable, factor, True)
+        self.penalty.add_share(self._system_model, name, variable, factor, variable.length > 1)
 
     def add_share_between_effects(self):
         for origin_effect in self.element.effects.values():
-- 
2.43.0


From 4f2d67e66e031db22e942d0fd5db82721e71e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 31/37] fix: a size of zero (of a flow or an investment)
 counted as no size given

---
 flixOpt/elements.py  | 2 +-
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index b656c23..a262774 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = CONFIG.modeling.BIG if size is None else size  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 5f47bb5..4bee268 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 1876f86..ef8695a 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = CONFIG.modeling.BIG if maximum_size is None else maximum_size  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self._minimum_size if self.fixed_size is None else self.fixed_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self._maximum_size if self.fixed_size is None else self.fixed_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From fca374918255dc28b041648057e418a89457b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 32/37] fix: plotting areas set small values to zero in the
 DataFrame of the caller

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..de60f20 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,7 +120,7 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
         negative_columns = list(data.columns[(data <= 0).all()])
-- 
2.43.0


From 6b1ddd59bb852232fc86f59ac90ebc7522fb6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 33/37] fix: columns of zeros were drawn twice in area plots

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index de60f20..33c95bc 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -123,7 +123,7 @@ def with_plotly(
         data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
-        negative_columns = list(data.columns[(data <= 0).all()])
+        negative_columns = [column for column in data.columns[(data <= 0).all()] if column not in positive_columns]
         mixed_columns = list(set(data.columns) - set(positive_columns + negative_columns))
         if mixed_columns:
             logger.warning(
-- 
2.43.0


From d05a0cc9268ae0fadc9a06ba951ae5354338c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 34/37] fix: segmented calculations of a transmission without
 absolute losses in a segment couldn't be combined

---
 flixOpt/components.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 35f38f4..3dad125 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -352,10 +352,15 @@ class TransmissionModel(ComponentModel):
 
     def _flows_with_on_variable(self) -> List[Flow]:
         # Force On Variable if absolute losses are present
-        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
+        if self._has_absolute_losses():
             return self.element.inputs + self.element.outputs
         return super()._flows_with_on_variable()
 
+    def _has_absolute_losses(self) -> bool:
+        # judged by all time steps, not only the active ones: every calculation models the same variables
+        absolute_losses = self.element.absolute_losses
+        return absolute_losses is not None and absolute_losses.data is not None and bool(np.any(absolute_losses.data != 0))
+
     def create_transmission_equation(self, name: str, in_flow: Flow, out_flow: Flow) -> Equation:
         """Creates an Equation for the Transmission efficiency and adds it to the model"""
         # first direction
@@ -364,7 +369,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
+        if self._has_absolute_losses():
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From f19258c8b7c88951bd4d8410af0e11118f572e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 35/37] fix: the description of storages and transmissions
 didn't say whether simultaneous use is prevented (always null)

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 3dad125..4e30ada 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -209,6 +209,7 @@ class Storage(Component):
         self.eta_charge: Numeric_TS = eta_charge
         self.eta_discharge: Numeric_TS = eta_discharge
         self.relative_loss_per_hour: Numeric_TS = relative_loss_per_hour
+        self.prevent_simultaneous_charge_and_discharge = prevent_simultaneous_charge_and_discharge
 
     def create_model(self) -> 'StorageModel':
         self.model = StorageModel(self)
@@ -290,6 +291,7 @@ class Transmission(Component):
 
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
+        self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
 
     def _plausibility_checks(self):
         # check buses:
-- 
2.43.0


From b3b0b3285fa45d3060294c40d0d14463694bd057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 36/37] fix: the plausibility checks of transmissions were
 never run, contradictory ones were modelled

---
 flixOpt/components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 4e30ada..ac7b794 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -292,6 +292,7 @@ class Transmission(Component):
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
         self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
+        self._plausibility_checks()
 
     def _plausibility_checks(self):
         # check buses:
-- 
2.43.0


From 202ca3e81ae760c5ea234fd40f50c0c5e5b45800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 37/37] fix: create_datetime_array read an interval that is no
 whole number (like '1.5h') as 1

---
 flixOpt/flow_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 9fcb99f..9e6f760 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -364,7 +364,9 @@ def create_datetime_array(
     """
     # Parse the frequency and interval
     unit = freq[-1]  # Get the time unit (e.g., 'h', 'm', 's')
-    interval = int(freq[:-1]) if freq[:-1].isdigit() else 1  # Default to interval=1 if not specified
+    if freq[:-1] and not freq[:-1].isdigit():
+        raise ValueError(f'The interval of {freq=} is not a whole number.')
+    interval = int(freq[:-1]) if freq[:-1] else 1  # Default to interval=1 if not specified
     step_size = np.timedelta64(interval, unit)  # Create the timedelta step size
 
     # Convert the start time to a datetime64 object
-- 
2.43.0

