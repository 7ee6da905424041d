From 52383af41b11247e92350502f2c7891eabf6162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:40 +0000
Subject: [PATCH 01/55] fix: forward-fill resampled time series from the latest
 observation

Observations at dates that are not part of the new time steps were dropped
before the forward-fill, so a later period got the value of an older one.
---
 src/libecalc/common/utils/rates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..a0be9f0 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -199,7 +199,8 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        # Forward-fill before picking the new time steps, to include observations that are not part of the new time steps
+        ds_resampled = ds.reindex(ds.index.union(new_time_steps)).ffill().reindex(new_time_steps)
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From ca1f54b1335966d6b12a226136d92d641b0c1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 02/55] fix: adding rates with different regularity gives
 regularity 0, not NaN, where nothing is produced

---
 src/libecalc/common/utils/rates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index a0be9f0..a66544b 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -776,7 +776,9 @@ class TimeSeriesRate(TimeSeries[float]):
                     periods=self.periods,
                     values=elementwise_sum(self.values, other.values).tolist(),
                     unit=self.unit,
-                    regularity=(sum_calendar_day / sum_stream_day).tolist(),
+                    regularity=np.divide(
+                        sum_calendar_day, sum_stream_day, out=np.zeros_like(sum_calendar_day), where=sum_stream_day != 0.0
+                    ).tolist(),
                     rate_type=self.rate_type,
                 )
         else:
-- 
2.43.0


From 60796a9d400a4d7a0b9d8790771e1d99f3aaaef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:37 +0000
Subject: [PATCH 03/55] fix: a rate series can be indexed by position or by a
 list of positions

---
 src/libecalc/common/utils/rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index a66544b..33ae7a5 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -998,7 +998,7 @@ class TimeSeriesRate(TimeSeries[float]):
             )
         elif isinstance(indices, int):
             return self.__class__(
-                periods=[self.periods[indices]],
+                periods=self.periods[indices],
                 values=[self.values[indices]],
                 regularity=[self.regularity[indices]],
                 unit=self.unit,
@@ -1007,7 +1007,7 @@ class TimeSeriesRate(TimeSeries[float]):
         elif isinstance(indices, list | np.ndarray):
             indices = list(indices)
             return self.__class__(
-                periods=[self.periods[i] for i in indices],
+                periods=self.periods[indices],
                 values=[self.values[i] for i in indices],
                 regularity=[self.regularity[i] for i in indices],
                 unit=self.unit,
-- 
2.43.0


From b7c34379323016914e146369f0a510a81fcd8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:15 +0000
Subject: [PATCH 04/55] fix: an expression with a missing operator or operand
 is rejected instead of partly ignored

---
 src/libecalc/expression/expression_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..9b7b088 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -136,6 +136,9 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
         else:
             stack.append(Node(token=token))
 
+    if len(stack) != 1:
+        raise ValueError("Missing operator between operands" if len(stack) > 1 else "Missing operand")
+
     return stack.pop()
 
 
-- 
2.43.0


From a74136c41805d3b73a1ef7f3b2b04506277c36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 05/55] fix: variables for a period that extends beyond the
 time vector are those of the part inside it

---
 src/libecalc/common/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From 887ccd0d4fc55ff409d40fd48cd7f8f5c97e5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 06/55] fix: no periods have no dates, so that a subset of
 variables outside the time vector is empty instead of failing

---
 src/libecalc/common/time_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/common/time_utils.py b/src/libecalc/common/time_utils.py
index fa39865..ac75498 100644
--- a/src/libecalc/common/time_utils.py
+++ b/src/libecalc/common/time_utils.py
@@ -173,7 +173,7 @@ class Periods:
 
     @property
     def all_dates(self) -> list[datetime]:
-        return self.start_dates + [self.end_dates[-1]]
+        return self.start_dates + self.end_dates[-1:]
 
     @property
     def start_dates(self) -> list[datetime]:
-- 
2.43.0


From 6e853d2d730782a66646ec34f5e6c169c6d073a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:25 +0000
Subject: [PATCH 07/55] fix: comparison operators in expressions share one
 precedence level, left to right, as documented

---
 src/libecalc/expression/expression_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 9b7b088..1a0db54 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -156,9 +156,9 @@ OPERATORS = {
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-    "!=": Operator(value="ne", function=op.ne, precedence=15, associativity="LEFT"),
-    "<": Operator(value="ne", function=op.lt, precedence=14, associativity="LEFT"),
-    ">": Operator(value="{>}", function=op.gt, precedence=13, associativity="LEFT"),
-    "<=": Operator(value="{<=}", function=op.le, precedence=12, associativity="LEFT"),
-    ">=": Operator(value="{>=}", function=op.ge, precedence=11, associativity="LEFT"),
+    "!=": Operator(value="ne", function=op.ne, precedence=16, associativity="LEFT"),
+    "<": Operator(value="ne", function=op.lt, precedence=16, associativity="LEFT"),
+    ">": Operator(value="{>}", function=op.gt, precedence=16, associativity="LEFT"),
+    "<=": Operator(value="{<=}", function=op.le, precedence=16, associativity="LEFT"),
+    ">=": Operator(value="{>=}", function=op.ge, precedence=16, associativity="LEFT"),
 }
-- 
2.43.0


From 9c8b6c15003cb1a6036564d7c94321ef2ea08c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 08/55] fix: division by zero in an expression evaluates to
 zero, as documented

---
 src/libecalc/expression/expression_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 1a0db54..c828c07 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -142,6 +142,11 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     return stack.pop()
 
 
+def _divide(dividend: NDArray[np.float64], divisor: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Division where dividing by zero gives zero"""
+    return np.divide(dividend, divisor, out=np.zeros_like(dividend), where=divisor != 0.0)
+
+
 class Operator(NamedTuple):
     value: str
     function: Callable
@@ -152,7 +157,7 @@ class Operator(NamedTuple):
 OPERATORS = {
     "{^}": Operator(value="{^}", function=op.pow, precedence=24, associativity="RIGHT"),
     "{*}": Operator(value="{*}", function=op.mul, precedence=23, associativity="LEFT"),
-    "{/}": Operator(value="{/}", function=op.truediv, precedence=23, associativity="LEFT"),
+    "{/}": Operator(value="{/}", function=_divide, precedence=23, associativity="LEFT"),
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-- 
2.43.0


From d6d1086c9a3ec7fdf4db77be870944e424f0ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:12 +0000
Subject: [PATCH 09/55] fix: a time-dependent variable uses the expression of
 its own date also when the dates are not in order

---
 .../yaml/mappers/variables_mapper/variables_mapper.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..41b347b 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -32,10 +32,11 @@ class VariableProcessor:
         if isinstance(self.variable, YamlSingleVariable):
             return list(self.variable.value.evaluate(variables, fill_length=len(periods)))
         else:
-            variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
+            variable_dates = sorted(self.variable)
+            variable_periods = Periods.create_periods(variable_dates, include_before=False)
             processed_expressions = {
-                period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                period: self.variable[date].value.evaluate(variables, fill_length=len(periods))
+                for period, date in zip(variable_periods, variable_dates)
             }
 
             variable_result = []
-- 
2.43.0


From 862733b315755ecd4b6e67e258e3f998506de32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:20 +0000
Subject: [PATCH 10/55] fix: a regularity of 0 is used as given instead of
 being replaced by the default of 1

---
 src/libecalc/domain/regularity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..00e1576 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -31,7 +31,7 @@ class Regularity:
         self.expression_evaluator = expression_evaluator
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input if expression_input is not None else self.default_expression_value(),
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From 74ef7f2763a565f98db32214fef9ef4c360981d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 11/55] fix: report the highest MAX_USAGE_FROM_SHORE within the
 reporting period

The values were first resampled to the reporting frequency, which keeps only the value at the start
of each new period, so that a peak later in the year was not reported.
---
 src/libecalc/presentation/exporter/queries.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/presentation/exporter/queries.py b/src/libecalc/presentation/exporter/queries.py
index c367740..1942764 100644
--- a/src/libecalc/presentation/exporter/queries.py
+++ b/src/libecalc/presentation/exporter/queries.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 
 from libecalc.common.time_utils import Frequency, Period, Periods, resample_periods
 from libecalc.common.units import Unit
-from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesVolumes
+from libecalc.common.utils.rates import TimeSeriesVolumes
 from libecalc.presentation.exporter.domain.exportable import Exportable
 
 
@@ -263,16 +263,12 @@ class MaxUsageFromShoreQuery(Query):
 
         sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
         sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
-        period_keys = list(sorted_result.keys())
 
         # Max usage from shore is time series float (values)
         # The maximum value with in each period in sorted_results should be found for the new periods
 
         return {
-            period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
-            .resample(freq=frequency)
-            .for_period(period)
-            .max
+            period: max(value for original, value in sorted_result.items() if Period.intersects(original, period))
             for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
         }
 
-- 
2.43.0


From ad1edda0c6dbc1ba5845ebb83dda5fe44c1be757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:47 +0000
Subject: [PATCH 12/55] fix: a model without CO2 emissions has no emission
 intensity instead of failing

---
 src/ecalc_cli/emission_intensity.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ecalc_cli/emission_intensity.py b/src/ecalc_cli/emission_intensity.py
index ba86df7..1ef33a2 100644
--- a/src/ecalc_cli/emission_intensity.py
+++ b/src/ecalc_cli/emission_intensity.py
@@ -45,6 +45,9 @@ class EmissionIntensityCalculator:
         self.emissions = emissions
         self.frequency = frequency
 
+        if self._co2_emission_result() is None:
+            return  # no CO2 emissions, no emission intensity
+
         self._hydrocarbon_export_cumulative = hydrocarbon_export_rate.to_volumes().cumulative()
         self._intensity_calculator_sm3 = EmissionIntensity(
             emission_cumulative=self._cumulative_rate_kg(),
@@ -62,7 +65,10 @@ class EmissionIntensityCalculator:
         Returns:
             EmissionIntensityResults: The calculated emission intensity results.
         """
-        emission_intensities = []
+        emission_intensities: list[EmissionIntensityResult] = []
+
+        if self._co2_emission_result() is None:
+            return EmissionIntensityResults(results=emission_intensities)
 
         if self.frequency == Frequency.YEAR:
             intensity_yearly_sm3 = self._intensity_calculator_sm3.calculate_for_periods()
@@ -83,8 +89,8 @@ class EmissionIntensityCalculator:
         )
         return EmissionIntensityResults(results=emission_intensities)
 
-    def _co2_emission_result(self) -> EmissionResult:
-        return next((value for key, value in self.emissions.items() if key.lower() == "co2"))
+    def _co2_emission_result(self) -> EmissionResult | None:
+        return next((value for key, value in self.emissions.items() if key.lower() == "co2"), None)
 
     def _cumulative_rate_kg(self) -> TimeSeriesVolumesCumulative:
         return self._co2_emission_result().get_cumulative_kg()
-- 
2.43.0


From ccee730a401ae5597b338c4a2a11ecba7ecafab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:43 +0000
Subject: [PATCH 13/55] fix: the delta profile keeps a change in power when
 only one of the models has power

---
 .../presentation/simple_result/simple.py        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/simple_result/simple.py b/src/libecalc/presentation/simple_result/simple.py
index e4100a8..49b095c 100644
--- a/src/libecalc/presentation/simple_result/simple.py
+++ b/src/libecalc/presentation/simple_result/simple.py
@@ -231,7 +231,7 @@ def _create_empty_component(component: SimpleComponentResult) -> SimpleComponent
         periods=component.periods,
         energy_usage=[0] * len(component.periods),
         energy_usage_unit=component.energy_usage_unit,
-        power=[0] * len(component.periods),
+        power=[0] * len(component.periods) if component.power is not None else None,
         emissions={
             emission.name: SimpleEmissionResult(
                 name=emission.name,
@@ -320,6 +320,18 @@ class SimpleResultData(SimpleBase):
 
         return changed_component, reference_component
 
+    @classmethod
+    def _normalize_power(cls, changed_component, reference_component):
+        # A component that has power in only one of the models uses no power in the other
+        for component, other in [
+            (changed_component, reference_component),
+            (reference_component, changed_component),
+        ]:
+            if component.power is None and other.power is not None:
+                component.power = [0] * len(component.periods)
+
+        return changed_component, reference_component
+
     @classmethod
     def normalize_components(
         cls,
@@ -354,6 +366,9 @@ class SimpleResultData(SimpleBase):
             changed_component, reference_component = cls._normalize_emissions(
                 reference_component=reference_component, changed_component=changed_component
             )
+            changed_component, reference_component = cls._normalize_power(
+                reference_component=reference_component, changed_component=changed_component
+            )
 
             normalized_reference_components.append(reference_component)
             normalized_changed_components.append(changed_component)
-- 
2.43.0


From 6ff020523d803a5f2d2b17d434f48c3cd2a25d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:07 +0000
Subject: [PATCH 14/55] fix: the turbine load compared with the largest load of
 the table is the adjusted load

---
 .../domain/infrastructure/energy_components/turbine/turbine.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
index 219fde3..c72cb4f 100644
--- a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
+++ b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
@@ -72,7 +72,7 @@ class Turbine:
         load_list = array_to_list(load_adjusted) or []
         efficiency_list = array_to_list(efficiency) or []  # type: ignore[arg-type]
         fuel_usage_list = array_to_list(fuel_usage) or []
-        exceeds_max_list = array_to_list(load > self._maximum_load) or []
+        exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
 
         return TurbineResult(
             load=load_list,
-- 
2.43.0


From 2b19493711f3cd4ca17592240d5cb8dc2e099653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:07 +0000
Subject: [PATCH 15/55] fix: the maximum rate of a turbine-driven compressor
 accounts for the power adjustment

---
 .../domain/process/compressor/core/base.py    | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index b0b0d51..886d047 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -52,12 +52,7 @@ class CompressorWithTurbineModel:
         energy_result = compressor_energy_function_result.get_energy_result()
         if energy_result.power is not None:
             # The compressor energy function evaluates to a power load in this case
-            load_adjusted = np.where(
-                np.asarray(energy_result.power.values) > 0,
-                np.asarray(energy_result.power.values) * self._energy_usage_adjustment_factor
-                + self._energy_usage_adjustment_constant,
-                np.asarray(energy_result.power.values),
-            )
+            load_adjusted = self._adjust_power(np.asarray(energy_result.power.values))
             turbine_result = self.turbine_model.evaluate(load=load_adjusted)
             compressor_energy_function_result.turbine_result = turbine_result
 
@@ -68,6 +63,14 @@ class CompressorWithTurbineModel:
 
         return compressor_energy_function_result
 
+    def _adjust_power(self, power: NDArray[np.float64]) -> NDArray[np.float64]:
+        """Power demand on the turbine for the given compressor power."""
+        return np.where(
+            power > 0,
+            power * self._energy_usage_adjustment_factor + self._energy_usage_adjustment_constant,
+            power,
+        )
+
     def _calculate_remaining_capacity_in_train_given_standard_rate(
         self, standard_rate: float, suction_pressure: float, discharge_pressure: float, max_power: float
     ) -> float:
@@ -83,7 +86,8 @@ class CompressorWithTurbineModel:
         energy_result = result.get_energy_result()
         if energy_result.power is None or len(energy_result.power.values) == 0:
             return 0.0  # Return 0 if no power value available
-        return float(energy_result.power.values[0]) - (max_power - POWER_CALCULATION_TOLERANCE)
+        power = self._adjust_power(np.asarray(energy_result.power.values))[0]
+        return float(power) - (max_power - POWER_CALCULATION_TOLERANCE)
 
     def get_max_standard_rate(
         self,
@@ -114,7 +118,7 @@ class CompressorWithTurbineModel:
         max_power = self.turbine_model.max_power
 
         if energy_result.power is not None:
-            powers = np.asarray(energy_result.power.values)
+            powers = self._adjust_power(np.asarray(energy_result.power.values))
             for i, (power, suction_pressure, discharge_pressure) in enumerate(
                 zip(powers, suction_pressures, discharge_pressures)
             ):
-- 
2.43.0


From 0b37d24bc09a6b4e02f5afcb663c69b582813062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:08 +0000
Subject: [PATCH 16/55] fix: the maximum rate of a sampled compressor in
 several variables is found at its pressures instead of failing

---
 .../core/sampled/compressor_model_sampled.py  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 517a281..f7adccf 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -145,18 +145,33 @@ class CompressorModelSampled:
         :param suction_pressures: Suction pressure [bar]
         :param discharge_pressures: Discharge pressure [bar]
         """
-        number_of_calculation_points = len(suction_pressures) if suction_pressures is not None else 1
+        pressures = suction_pressures if suction_pressures is not None else discharge_pressures
+        number_of_calculation_points = len(pressures) if pressures is not None else 1
         if self.support_max_rate:
             if self._qhull_sampled.support_max_rate:
                 return np.full(
                     shape=number_of_calculation_points,
-                    fill_value=self._qhull_sampled.get_max_rate(),  # type: ignore[call-arg]
+                    fill_value=self._get_max_rate(suction_pressures, discharge_pressures),
                 )
             else:
                 return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
         else:
             return np.full(shape=number_of_calculation_points, fill_value=np.nan)
 
+    def _get_max_rate(
+        self,
+        suction_pressures: NDArray[np.float64] | None,
+        discharge_pressures: NDArray[np.float64] | None,
+    ) -> NDArray[np.float64] | float | None:
+        """The maximum rate depends on the pressures that vary in the sampled data."""
+        if isinstance(self._qhull_sampled, CompressorModelSampled3D):
+            return self._qhull_sampled.get_max_rate(suction_pressures, discharge_pressures)
+        if isinstance(self._qhull_sampled, CompressorModelSampled2DRatePs):
+            return self._qhull_sampled.get_max_rate(suction_pressures)
+        if isinstance(self._qhull_sampled, CompressorModelSampled2DRatePd):
+            return self._qhull_sampled.get_max_rate(discharge_pressures)
+        return self._qhull_sampled.get_max_rate()
+
     def set_evaluation_input(
         self,
         rate: NDArray[np.float64],
-- 
2.43.0


From 8aae879336fa7d330ce29f78d022f8d3ac23d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:08 +0000
Subject: [PATCH 17/55] fix: repeated values in one-dimensional sampled data
 are reported instead of failing with a TypeError

---
 .../compressor/core/sampled/compressor_model_sampled_1d.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
index 42269dc..45d7b30 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
@@ -103,7 +103,7 @@ class CompressorModelSampled1D:
             msg = (
                 f"1D compressor sampled data require unique variable input values. "
                 f"I got non-unique {self._x_column_name} values "
-                f"{', '.join(duplicates)}"
+                f"{', '.join(str(x) for x in duplicates)}"
             )
             logger.error(msg)
             raise IllegalStateException(msg)
-- 
2.43.0


From 87c8dcbcaf3af90611be72c10473afcb3938bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:08 +0000
Subject: [PATCH 18/55] fix: HEAD_MARGIN is given in meter liquid column

---
 .../presentation/yaml/mappers/facility_input.py       | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..de4eb59 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,8 +1,10 @@
 from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
 from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
+from libecalc.presentation.yaml.mappers.utils import convert_head_to_joule_per_kg
 from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model import (
     YamlGeneratorSetModel,
     YamlPumpChartSingleSpeed,
@@ -17,6 +19,11 @@ def _get_float_column_or_none(resource: Resource, header: str) -> list[float] |
         return None
 
 
+def _convert_head_margin_to_joule_per_kg(head_margin: float) -> float:
+    """The head margin is given in meter liquid column."""
+    return convert_head_to_joule_per_kg([head_margin], Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN)[0]
+
+
 def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
@@ -24,7 +31,7 @@ def _create_pump_model_single_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_convert_head_margin_to_joule_per_kg(facility_data.head_margin),
     )
 
 
@@ -35,7 +42,7 @@ def _create_pump_chart_variable_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_convert_head_margin_to_joule_per_kg(facility_data.head_margin),
     )
 
 
-- 
2.43.0


From dde744fbd6dd20d79cce3e4acf33b7cd9bab77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:16 +0000
Subject: [PATCH 19/55] fix: a column of a sampled compressor with a value that
 is not a number is refused instead of left out

---
 src/libecalc/presentation/yaml/mappers/facility_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index de4eb59..ea0948f 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.errors.exceptions import HeaderNotFoundException
 from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
@@ -15,7 +15,7 @@ from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model im
 def _get_float_column_or_none(resource: Resource, header: str) -> list[float] | None:
     try:
         return resource.get_float_column(header)
-    except InvalidResourceException:
+    except HeaderNotFoundException:
         return None
 
 
-- 
2.43.0


From 698fbd69d2b9cca120dd9a573998df96d5ffe65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 20/55] fix: rates of a common stream follow the items they are
 given for, whatever the order of overflow

---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..045bf4b 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From e5fa124b57857ed71af5f2d61ec73af88212aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 21/55] fix: the secant method stops instead of dividing by
 zero when the function has the same value in both points

---
 src/libecalc/common/numeric_methods.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/common/numeric_methods.py b/src/libecalc/common/numeric_methods.py
index 757ab85..d0b7121 100644
--- a/src/libecalc/common/numeric_methods.py
+++ b/src/libecalc/common/numeric_methods.py
@@ -1,7 +1,6 @@
 from collections.abc import Callable
 from dataclasses import dataclass
 
-import numpy as np
 from scipy.optimize import root_scalar
 
 from libecalc.common.logger import logger
@@ -154,16 +153,16 @@ def secant_method(
     def limit_to_bounds(x: int | float, x_min: int | float, x_max: int | float) -> int | float:
         return max(min(x, x_max), x_min) if bounded_to_input_x_interval else x
 
-    x2 = np.nan  # Dummy value before iteration
+    x2 = x1  # The result if the function has the same value in both starting-points
     i = 0
-    f0 = 0
-    f1 = 1
 
     rel_diff = 100.0
     # Loop until we reach the target tolerance or max iterations.
-    while (abs(rel_diff) > convergence_tolerance) and (i <= maximum_number_of_iterations) and (f1 != f0):
+    while (abs(rel_diff) > convergence_tolerance) and (i <= maximum_number_of_iterations):
         f0 = f(x0)
         f1 = f(x1)
+        if f1 == f0:
+            break
         x2 = x1 - f1 * (x1 - x0) / float(f1 - f0)
         x2 = limit_to_bounds(x2, minimum_x_value, maximum_x_value)
         x0, x1 = x1, x2  # Update indexes for next iteration
-- 
2.43.0


From f201b24931b033224efeca981f601c52201ee9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 22/55] fix: splitting a stream without a rate gives streams
 without a rate instead of a division by zero

---
 .../process_units/legacy_splitter/legacy_splitter.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py b/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py
index 9d474e0..350c109 100644
--- a/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py
+++ b/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py
@@ -82,7 +82,12 @@ class LegacySplitter:
             )
             last_rate = 0.0
         all_rates_out_of_splitter = self.rates_out_of_splitter + [last_rate]
-        split_fractions = [rate / sum(all_rates_out_of_splitter) for rate in all_rates_out_of_splitter]
+        total_rate_out_of_splitter = sum(all_rates_out_of_splitter)
+        if total_rate_out_of_splitter == 0:
+            # Nothing to split, all streams out of the splitter have zero rate
+            split_fractions = [0.0] * self.number_of_outputs
+        else:
+            split_fractions = [rate / total_rate_out_of_splitter for rate in all_rates_out_of_splitter]
         return [
             FluidStream(
                 fluid=stream.fluid,
-- 
2.43.0


From 6010cb368dc88906efaf400a147cdf42cec3d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 23/55] fix: rounding does not give a negative rate where all
 of the rate overflows

---
 .../process/stream_distribution/common_stream_distribution.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 045bf4b..8e43fbb 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -81,7 +81,8 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
                     pressure_bara=self._inlet_stream.pressure_bara,
                 )
                 excess_rate = item.get_excess_rate(stream)
-                handled_rate = current_rate - excess_rate
+                # The excess rate can be all of the rate, then rounding must not give a negative rate
+                handled_rate = max(0.0, current_rate - excess_rate)
                 overflow_map[overflow.to_id].append(excess_rate)
                 adjusted_rates[item_id] = handled_rate
             else:
-- 
2.43.0


From 45cd6dd55b0906ce79648ca7156818353110ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 24/55] fix: upstream choking does not stop the run when
 choking leaves less pressure than the drop ahead of a later stage

---
 .../core/train/compressor_train_common_shaft.py  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 0b48cd9..3544f5e 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -30,6 +30,7 @@ from libecalc.domain.process.core.results.compressor import TargetPressureStatus
 from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
+from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError
 from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
 
 
@@ -757,13 +758,20 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.discharge_pressure is not None
         target_discharge_pressure = constraints.discharge_pressure
 
+        def _discharge_pressure_deviation(inlet_pressure: float) -> float:
+            try:
+                return (
+                    _calculate_train_result_given_inlet_pressure(inlet_pressure=inlet_pressure).discharge_pressure
+                    - target_discharge_pressure
+                )
+            except InsufficientInletPressureError:
+                # Choked so much that a later stage gets less than the pressure drop ahead of it
+                return -target_discharge_pressure
+
         result_inlet_pressure = find_root(
             lower_bound=EPSILON + self.stages[0].pressure_drop_ahead_of_stage,
             upper_bound=target_discharge_pressure,
-            func=lambda x: (
-                _calculate_train_result_given_inlet_pressure(inlet_pressure=x).discharge_pressure
-                - target_discharge_pressure
-            ),
+            func=_discharge_pressure_deviation,
         )
 
         train_result = _calculate_train_result_given_inlet_pressure(inlet_pressure=result_inlet_pressure)
-- 
2.43.0


From 439e9ddf577ff45c00f696c7bb687bd3d61bf438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 25/55] fix: the maximum power applies to a train with
 individual ASV pressure control too

---
 .../compressor/core/train/compressor_train_common_shaft.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 3544f5e..010af10 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -903,6 +903,11 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             outlet_stream=stage_result.outlet_stream,
             speed=self.shaft.get_speed(),
             stage_results=stage_results,
+            above_maximum_power=(
+                sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
+                if self.maximum_power
+                else False
+            ),
             target_pressure_status=target_pressure_status,
         )
 
-- 
2.43.0


From 4ed11440174db77ebab51ae4f6c21c5ed5c2e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 26/55] fix: the density at the first stage of a train is that
 after the pressure drop ahead of the stage

---
 .../compressor/core/train/compressor_train_common_shaft.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 010af10..fe46bf8 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -332,9 +332,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         """
         assert constraints.suction_pressure is not None, "suction_pressure is required for maximum rate calculation"
         fluid_model = self.fluid_model
+        # The density in the compressor of the first stage, i.e. after the pressure drop ahead of it
         inlet_density = self._fluid_service.create_fluid(
             fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
+            pressure_bara=constraints.suction_pressure - self.stages[0].pressure_drop_ahead_of_stage,
             temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
         ).density
 
@@ -941,9 +942,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             standard_rate_m3_per_day=constraints.inlet_rate,
         )
         # Iterate on rate until pressures are met
+        # (the compressor chart of the first stage applies after the pressure drop ahead of it)
         density_train_inlet_fluid = self._fluid_service.create_fluid(
             fluid_model=fluid_model,
-            pressure_bara=constraints.suction_pressure,
+            pressure_bara=constraints.suction_pressure - self.stages[0].pressure_drop_ahead_of_stage,
             temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
         ).density
 
-- 
2.43.0


From 4766dcbfcf64a436729723f7742fd6c1772bade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 27/55] fix: common ASV keeps every stage within its highest
 rate, searches between the right bounds and reports the requested rate

---
 .../train/compressor_train_common_shaft.py    | 51 ++++++++++---------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index fe46bf8..933bf24 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -968,6 +968,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 constraints=constraints,
             )
 
+        def _has_common_mass_rate_within_capacity(train_result: CompressorTrainResultSingleTimeStep) -> bool:
+            """The same mass rate through all stages, and no more than any of them can take."""
+            return train_result.mass_rate_asv_corrected_is_constant_for_stages and train_result.within_capacity
+
         # outer bounds for minimum and maximum mass rate without individual recirculation on stages will be the
         # minimum and maximum mass rate for the first stage at the current (fixed) shaft speed, adjusted for the
         # volume entering the first stage
@@ -996,16 +1000,14 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(
             mass_rate_kg_per_hour=float(maximum_mass_rate)
         )
-        if train_result_for_minimum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
-            if not train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+        if _has_common_mass_rate_within_capacity(train_result_for_minimum_mass_rate):
+            if not _has_common_mass_rate_within_capacity(train_result_for_maximum_mass_rate):
                 # find the maximum additional_mass_rate that gives train_results.is_valid
                 maximum_mass_rate = maximize_x_given_boolean_condition_function(
-                    x_min=0.0,
+                    x_min=minimum_mass_rate,
                     x_max=maximum_mass_rate,
-                    bool_func=lambda x: (
-                        _calculate_train_result_given_mass_rate(
-                            mass_rate_kg_per_hour=x
-                        ).mass_rate_asv_corrected_is_constant_for_stages
+                    bool_func=lambda x: _has_common_mass_rate_within_capacity(
+                        _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x)
                     ),
                     convergence_tolerance=1e-3,
                     maximum_number_of_iterations=20,
@@ -1013,15 +1015,13 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(
                     mass_rate_kg_per_hour=maximum_mass_rate
                 )
-        elif train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+        elif _has_common_mass_rate_within_capacity(train_result_for_maximum_mass_rate):
             # find the minimum additional_mass_rate that gives all points internal
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
                 x_min=-maximum_mass_rate,
                 x_max=-minimum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=-x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
+                bool_func=lambda x: _has_common_mass_rate_within_capacity(
+                    _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x)
                 ),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
@@ -1036,7 +1036,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             train_result_for_mass_rate = _calculate_train_result_given_mass_rate(
                 mass_rate_kg_per_hour=minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)
             )
-            while not train_result_for_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+            while not _has_common_mass_rate_within_capacity(train_result_for_mass_rate):
                 inc += 0.1
                 if inc >= 1:
                     logger.error("Single speed train with Common ASV pressure control has no solution!")
@@ -1046,24 +1046,21 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
 
             # found one solution, now find min and max
+            mass_rate_with_solution = minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
-                x_min=-(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)),
+                x_min=-mass_rate_with_solution,
                 x_max=-minimum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=-x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
+                bool_func=lambda x: _has_common_mass_rate_within_capacity(
+                    _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x)
                 ),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
             )
             maximum_mass_rate = maximize_x_given_boolean_condition_function(
-                x_min=(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)),
+                x_min=mass_rate_with_solution,
                 x_max=maximum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
+                bool_func=lambda x: _has_common_mass_rate_within_capacity(
+                    _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x)
                 ),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
@@ -1079,13 +1076,17 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             and constraints.discharge_pressure > train_result_for_minimum_mass_rate.discharge_pressure
         ):
             # will never reach target pressure, too high
-            return train_result_for_minimum_mass_rate
+            return _calculate_train_result_given_additional_mass_rate(
+                additional_mass_rate_kg_per_hour=minimum_mass_rate - minimum_mass_rate_kg_per_hour
+            )
         if (
             constraints.discharge_pressure is not None
             and constraints.discharge_pressure < train_result_for_maximum_mass_rate.discharge_pressure
         ):
             # will never reach target pressure, too low
-            return train_result_for_maximum_mass_rate
+            return _calculate_train_result_given_additional_mass_rate(
+                additional_mass_rate_kg_per_hour=maximum_mass_rate - minimum_mass_rate_kg_per_hour
+            )
 
         # This method requires discharge_pressure for the Newton iteration
         assert constraints.discharge_pressure is not None
-- 
2.43.0


From cfa9e10f2ad444b934ff7208c037734f6f998612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 28/55] fix: downstream choking with a maximum discharge
 pressure judges the maximum power by the power it reports

---
 .../compressor/core/train/compressor_train_common_shaft.py       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 933bf24..61b64ff 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -700,6 +700,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
                 train_result.stage_results = new_train_result.stage_results
                 train_result.outlet_stream = new_train_result.outlet_stream
+                train_result.above_maximum_power = new_train_result.above_maximum_power
                 train_result.target_pressure_status = self.check_target_pressures(
                     constraints=constraints,
                     results=train_result,
-- 
2.43.0


From 9da7f39ba2674ef85981784d79030c5029c27152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 29/55] fix: a part of a train with an intermediate pressure
 does not look for the intermediate pressure itself

---
 src/libecalc/domain/process/compressor/core/train/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..047b179 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -329,7 +329,7 @@ class CompressorTrainModel(ABC):
             if constraints.rates is not None:
                 calculated_intermediate_pressure = (
                     results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure
-                    if self.stage_number_interstage_pressure is not None
+                    if self.stage_number_interstage_pressure is not None and constraints.interstage_pressure is not None
                     else None
                 )
             else:
-- 
2.43.0


From e382fb7c9d7d2539f8f22f746ba8ac6fc2f97ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 30/55] fix: the intermediate pressure of a train is judged
 after the choke that controls it

---
 src/libecalc/domain/process/compressor/core/train/base.py    | 5 +++++
 .../compressor/core/train/compressor_train_common_shaft.py   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 047b179..27642d6 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -308,11 +308,14 @@ class CompressorTrainModel(ABC):
         self,
         constraints: CompressorTrainEvaluationInput,
         results: CompressorTrainResultSingleTimeStep | list[CompressorTrainStageResultSingleTimeStep],
+        intermediate_pressure_after_choke: float | None = None,
     ) -> TargetPressureStatus:
         """Check to see how the calculated pressures compare to the required pressures
         Args:
             constraints: The evaluation constraints given to the evaluation
             results: The results from the compressor train evaluation
+            intermediate_pressure_after_choke: The pressure delivered by the first part of a train with an intermediate
+                pressure, when it is not the pressure at the outlet of the last stage in the first part
 
         Returns:
             TargetPressureStatus: The status of the target pressures
@@ -334,6 +337,8 @@ class CompressorTrainModel(ABC):
                 )
             else:
                 calculated_intermediate_pressure = None
+            if intermediate_pressure_after_choke is not None:
+                calculated_intermediate_pressure = intermediate_pressure_after_choke
         if stage_suction_pressure is not None:
             if (stage_suction_pressure / train_suction_pressure) - 1 > PRESSURE_CALCULATION_TOLERANCE:
                 return TargetPressureStatus.ABOVE_TARGET_SUCTION_PRESSURE
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 61b64ff..83af05f 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1469,6 +1469,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         target_pressure_status = self.check_target_pressures(
             constraints=constraints,
             results=train_result,
+            intermediate_pressure_after_choke=compressor_train_results_to_return_first_part.discharge_pressure,
         )
 
         train_result.target_pressure_status = target_pressure_status
-- 
2.43.0


From efdd7c23364da3f6944c2acda5e43d37ffe497b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 31/55] fix: a part of a train that runs faster than its
 pressure needs because of its rate is pressure controlled too

---
 .../train/compressor_train_common_shaft.py    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 83af05f..ec589c3 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1388,6 +1388,16 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                     constraints=constraints_first_part,
                 )
             )
+            if (
+                compressor_train_results_first_part_with_optimal_speed_result.target_pressure_status
+                == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+            ):
+                # The rate requires a higher speed than the pressure does
+                compressor_train_results_first_part_with_optimal_speed_result = (
+                    compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
+                        constraints=constraints_first_part,
+                    )
+                )
 
         assert isinstance(compressor_train_last_part._fluid_model, list)  # for mypy
         compressor_train_last_part._fluid_model[0] = FluidModel(
@@ -1418,6 +1428,16 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                     constraints=constraints_last_part,
                 )
             )
+            if (
+                compressor_train_results_last_part_with_optimal_speed_result.target_pressure_status
+                == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+            ):
+                # The rate requires a higher speed than the pressure does
+                compressor_train_results_last_part_with_optimal_speed_result = (
+                    compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
+                        constraints=constraints_last_part,
+                    )
+                )
 
         """
         Determine which of the first and last part will govern the speed to use
-- 
2.43.0


From 6a39fed6cc588b66ac55586a4ddb022fd5b6e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 32/55] fix: individual ASV pressure control takes the side
 streams of the stages into account

---
 .../core/train/compressor_train_common_shaft.py  | 16 +++++++++++++++-
 .../process/compressor/core/train/stage.py       | 12 +++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index ec589c3..ec9d283 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -886,11 +886,25 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         )
         inlet_stream_stage = inlet_stream_train
         stage_results = []
-        for stage in self.stages:
+        for stage_number, stage in enumerate(self.stages):
             outlet_pressure_for_stage = inlet_stream_stage.pressure_bara * pressure_ratio_per_stage
             stage_result = stage.evaluate_given_speed_and_target_discharge_pressure(
                 target_discharge_pressure=outlet_pressure_for_stage,
                 inlet_stream_stage=inlet_stream_stage,
+                rates_out_of_splitter=[
+                    constraints.rates[stream_number]
+                    for stream_number in self.outlet_port_connected_to_stage.get(stage_number, [])
+                ],
+                streams_in_to_mixer=[
+                    self._fluid_service.create_stream_from_standard_rate(
+                        fluid_model=self._fluid_model[stream_number],
+                        pressure_bara=inlet_stream_stage.pressure_bara,
+                        temperature_kelvin=inlet_stream_stage.temperature_kelvin,
+                        standard_rate_m3_per_day=constraints.rates[stream_number],
+                    )
+                    for stream_number in self.inlet_port_connected_to_stage.get(stage_number, [])
+                    if stream_number > 0
+                ],
             )
             inlet_stream_stage = stage_result.outlet_stream
             stage_results.append(stage_result)
diff --git a/src/libecalc/domain/process/compressor/core/train/stage.py b/src/libecalc/domain/process/compressor/core/train/stage.py
index 58eb21b..359be1c 100644
--- a/src/libecalc/domain/process/compressor/core/train/stage.py
+++ b/src/libecalc/domain/process/compressor/core/train/stage.py
@@ -279,6 +279,8 @@ class CompressorTrainStage:
         self,
         inlet_stream_stage: FluidStream,
         target_discharge_pressure: float,
+        rates_out_of_splitter: list[float] | None = None,
+        streams_in_to_mixer: list[FluidStream] | None = None,
     ) -> CompressorTrainStageResultSingleTimeStep:
         """
         Calculate the result of a single-speed compressor stage given a target discharge pressure.
@@ -297,6 +299,8 @@ class CompressorTrainStage:
             inlet_stream_stage (FluidStream): The inlet stream for the stage, containing pressure, temperature,
                 and other fluid properties.
             target_discharge_pressure (float): The target discharge pressure for the stage in bar absolute [bara].
+            rates_out_of_splitter (list[float] | None, optional): Additional rates to the LegacySplitter if defined.
+            streams_in_to_mixer (list[FluidStream] | None, optional): Additional streams to the LegacyMixer if defined.
 
         Returns:
             CompressorTrainStageResultSingleTimeStep: The result of the evaluation for the compressor stage,
@@ -307,6 +311,8 @@ class CompressorTrainStage:
         self.rate_modifier.mass_rate_to_recirculate = 0
         result_no_recirculation = self.evaluate(
             inlet_stream_stage=inlet_stream_stage,
+            rates_out_of_splitter=rates_out_of_splitter,
+            streams_in_to_mixer=streams_in_to_mixer,
         )
 
         # result_no_recirculation.inlet_stream.density_kg_per_m3 will have correct pressure and temperature
@@ -315,13 +321,15 @@ class CompressorTrainStage:
 
         max_recirculation = max(
             maximum_rate * float(result_no_recirculation.inlet_stream.density)
-            - inlet_stream_stage.mass_rate_kg_per_h
+            - result_no_recirculation.inlet_stream.mass_rate_kg_per_h
             - EPSILON,
             0,
         )
         self.rate_modifier.mass_rate_to_recirculate = max_recirculation
         result_max_recirculation = self.evaluate(
             inlet_stream_stage=inlet_stream_stage,
+            rates_out_of_splitter=rates_out_of_splitter,
+            streams_in_to_mixer=streams_in_to_mixer,
         )
         if result_no_recirculation.discharge_pressure < target_discharge_pressure:
             return result_no_recirculation
@@ -334,6 +342,8 @@ class CompressorTrainStage:
             self.rate_modifier.mass_rate_to_recirculate = additional_mass_rate
             return self.evaluate(
                 inlet_stream_stage=inlet_stream_stage,
+                rates_out_of_splitter=rates_out_of_splitter,
+                streams_in_to_mixer=streams_in_to_mixer,
             )
 
         result_mass_rate = find_root(
-- 
2.43.0


From cff48e73057606a268906a262095faabdb453f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 33/55] fix: the rates and fluids of a train with multiple
 streams go to the stages their streams are connected to in whatever order the
 streams are listed

---
 .../process/compressor/core/train/base.py       | 17 +++++++++++++++--
 .../core/train/compressor_train_common_shaft.py |  2 ++
 .../yaml/mappers/consumer_function_mapper.py    | 16 ++++++++++++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 27642d6..71013cd 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -48,7 +48,13 @@ class CompressorTrainModel(ABC):
         maximum_discharge_pressure: float | None = None,
         calculate_max_rate: bool | None = False,
         stage_number_interstage_pressure: int | None = None,
+        stream_number_per_port: list[int] | None = None,
     ):
+        """
+        Args:
+            stream_number_per_port: For each port, the number of its stream in the rates and fluid models given as
+                evaluation input. By default, these are given in the order of the ports.
+        """
         self.energy_usage_adjustment_constant = energy_usage_adjustment_constant
         self.energy_usage_adjustment_factor = energy_usage_adjustment_factor
         self.stages = stages
@@ -58,6 +64,7 @@ class CompressorTrainModel(ABC):
         self._pressure_control = pressure_control
         self.calculate_max_rate = calculate_max_rate
         self.stage_number_interstage_pressure = stage_number_interstage_pressure
+        self._stream_number_per_port = stream_number_per_port
 
         self.ports: list[StreamPort] = [
             StreamPort(is_inlet_port=True, connected_to_stage_no=0)
@@ -150,7 +157,13 @@ class CompressorTrainModel(ABC):
         self._suction_pressure = suction_pressure
         self._discharge_pressure = discharge_pressure
         self._intermediate_pressure = intermediate_pressure
-        self._fluid_model = fluid_model if isinstance(fluid_model, list) else [fluid_model]
+        self._fluid_model = self._in_port_order(fluid_model if isinstance(fluid_model, list) else [fluid_model])
+
+    def _in_port_order(self, value_per_stream: list) -> list:
+        """The values given per stream, in the order of the ports the streams are connected to."""
+        if self._stream_number_per_port is None:
+            return value_per_stream
+        return [value_per_stream[stream_number] for stream_number in self._stream_number_per_port]
 
     def reset_rate_modifiers(self):
         for stage in self.stages:
@@ -200,7 +213,7 @@ class CompressorTrainModel(ABC):
             self.reset_rate_modifiers()
             if isinstance(rate_value, np.ndarray):
                 rate_value = list(rate_value)
-                constraints_rates = rate_value
+                constraints_rates = self._in_port_order(rate_value)
             else:
                 constraints_rates = [rate_value]
             evaluation_constraints = CompressorTrainEvaluationInput(
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index ec9d283..8055b69 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -78,6 +78,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         maximum_power: float | None = None,
         maximum_discharge_pressure: float | None = None,
         stage_number_interstage_pressure: int | None = None,
+        stream_number_per_port: list[int] | None = None,
     ):
         logger.debug(f"Creating CompressorTrainCommonShaft with n_stages: {len(stages)}")
         self.shaft = shaft
@@ -91,6 +92,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             calculate_max_rate=calculate_max_rate,
             maximum_discharge_pressure=maximum_discharge_pressure,
             stage_number_interstage_pressure=stage_number_interstage_pressure,
+            stream_number_per_port=stream_number_per_port,
         )
 
         self._validate_maximum_discharge_pressure()
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cc58f8e..41eb10c 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -770,12 +770,28 @@ class CompressorModelMapper:
         interstage_pressures = {i for i, stage in enumerate(stages) if stage.has_control_pressure}
         stage_number_interstage_pressure = interstage_pressures.pop() if interstage_pressures else None
 
+        # The ports of the train are ordered by stage - first what goes out of, then what comes in to the stage - after
+        # the inlet of the first stage. The streams may be defined in any order.
+        stream_numbers = {stream.name: stream_number for stream_number, stream in enumerate(model.streams)}
+        stream_number_per_port: list[int] = []
+        for stage_index, stage_config in enumerate(model.stages):
+            stage_streams = [
+                stream_numbers[stream_name]
+                for stream_name in (stage_config.stream or [])
+                if stream_to_stage_map.get(stream_name) == stage_index
+            ]
+            ingoing = [n for n in stage_streams if isinstance(model.streams[n], YamlMultipleStreamsStreamIngoing)]
+            outgoing = [n for n in stage_streams if isinstance(model.streams[n], YamlMultipleStreamsStreamOutgoing)]
+            number_of_inlets = 1 if stage_index == 0 else 0
+            stream_number_per_port.extend(ingoing[:number_of_inlets] + outgoing + ingoing[number_of_inlets:])
+
         compressor_model = CompressorTrainCommonShaft(
             energy_usage_adjustment_constant=model.power_adjustment_constant,
             energy_usage_adjustment_factor=model.power_adjustment_factor,
             stages=stages,
             shaft=shaft,
             fluid_service=fluid_service,
+            stream_number_per_port=stream_number_per_port,
             calculate_max_rate=False,
             maximum_power=model.maximum_power,
             pressure_control=_pressure_control_mapper(model),
-- 
2.43.0


From 6c953157b125dd780680ff11e5446446786877d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 34/55] fix: the maximum rate of a train does not depend on the
 recirculation of a previous evaluation

---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 8055b69..43257aa 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -333,6 +333,8 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
 
         """
         assert constraints.suction_pressure is not None, "suction_pressure is required for maximum rate calculation"
+        # Recirculation from a previous evaluation does not apply
+        self.reset_rate_modifiers()
         fluid_model = self.fluid_model
         # The density in the compressor of the first stage, i.e. after the pressure drop ahead of it
         inlet_density = self._fluid_service.create_fluid(
-- 
2.43.0


From 2161ea28be87682f67b4fb77118f4c712e918ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 35/55] fix: the process solver finds roots accurately enough
 for the pressure tolerance they are judged by

---
 src/libecalc/process/process_solver/search_strategies.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_solver/search_strategies.py b/src/libecalc/process/process_solver/search_strategies.py
index 73d2fe2..eb5a3f6 100644
--- a/src/libecalc/process/process_solver/search_strategies.py
+++ b/src/libecalc/process/process_solver/search_strategies.py
@@ -8,6 +8,9 @@ from libecalc.common.errors.exceptions import EcalcError
 from libecalc.process.process_solver.boundary import Boundary
 
 CONVERGENCE_TOLERANCE = 1e-5
+# The outlet pressure at the root is compared with the target pressure to within PRESSURE_CALCULATION_TOLERANCE (1e-3
+# bara), a root found to within CONVERGENCE_TOLERANCE is not accurate enough for that
+ROOT_CONVERGENCE_TOLERANCE = 1e-9
 
 
 class BisectResult(NamedTuple):
@@ -136,7 +139,7 @@ class RootFindingStrategy(abc.ABC):
 
 
 class ScipyRootFindingStrategy(RootFindingStrategy):
-    def __init__(self, tolerance: float = CONVERGENCE_TOLERANCE, max_iterations: int = 50):
+    def __init__(self, tolerance: float = ROOT_CONVERGENCE_TOLERANCE, max_iterations: int = 50):
         """
 
         Args:
-- 
2.43.0


From f64326004ee540c39c86d6f048750dc193d0efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 36/55] fix: an upstream choke can lower the outlet pressure by
 however little it is above the target

---
 .../process_solver/pressure_control/upstream_choke.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..cabee67 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -54,10 +54,10 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
         target_pressure: FloatConstraint,
         inlet_stream: FluidStream,
     ) -> Solution[Sequence[Configuration[RecirculationConfiguration | ChokeConfiguration]]]:
-        # Use a small margin to avoid evaluating exactly at the physical/numerical extremes:
-        # ΔP = 0 (no choke) and ΔP = inlet_pressure (zero/negative suction pressure).
+        # Without choking the outlet pressure is above the target, however little. Use a small margin to avoid evaluating
+        # exactly at the physical/numerical extreme ΔP = inlet_pressure (zero/negative suction pressure).
         delta_pressure_boundary = Boundary(
-            min=PRESSURE_CALCULATION_TOLERANCE,
+            min=0.0,
             max=inlet_stream.pressure_bara - PRESSURE_CALCULATION_TOLERANCE,
         )
 
-- 
2.43.0


From d000b315d2ba53c5830bae75420171bdd49e2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:52 +0000
Subject: [PATCH 37/55] fix: a recirculation for a pressure is found also where
 the highest recirculation leaves too little pressure further down

---
 .../process_solver/finders/recirculation_loop_rate_finder.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/process_solver/finders/recirculation_loop_rate_finder.py b/src/libecalc/process/process_solver/finders/recirculation_loop_rate_finder.py
index ca10470..873f731 100644
--- a/src/libecalc/process/process_solver/finders/recirculation_loop_rate_finder.py
+++ b/src/libecalc/process/process_solver/finders/recirculation_loop_rate_finder.py
@@ -109,13 +109,13 @@ class RecirculationLoopRateFinder(Finder):
     def _find_max_within_capacity_rate(self, func: Callable[[RecirculationConfiguration], FluidStream]) -> float:
         """Return the largest recirculation rate within flow capacity.
 
-        ``RateTooHigh`` at the boundary maximum is recoverable: search downward.
+        ``RateTooHigh`` and insufficient pressure downstream at the boundary maximum are recoverable: search downward.
         """
         maximum_rate = self._recirculation_rate_boundary.max
         try:
             func(RecirculationConfiguration(recirculation_rate=maximum_rate))
             return maximum_rate
-        except CompressorStonewallError:
+        except (CompressorStonewallError, InsufficientInletPressureError):
             return self._search_strategy.search(
                 boundary=self._recirculation_rate_boundary,
                 func=lambda x: self._bool_func(func, x, mode="maximize"),
-- 
2.43.0


From e5e0768c3b374360a6f69e257a8016efaa5af30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 38/55] fix: individual recirculation finds a pressure also
 where the train cannot take the maximum recirculation of every stage

Running with the maximum recirculation on every stage raised the process error,
although a pressure above that is met with less recirculation.
---
 .../pressure_control/individual_asv.py        | 88 +++++++++++++------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/src/libecalc/process/process_solver/pressure_control/individual_asv.py b/src/libecalc/process/process_solver/pressure_control/individual_asv.py
index e92a51e..5558d30 100644
--- a/src/libecalc/process/process_solver/pressure_control/individual_asv.py
+++ b/src/libecalc/process/process_solver/pressure_control/individual_asv.py
@@ -1,6 +1,7 @@
 from collections.abc import Sequence
 
 from libecalc.process.fluid_stream.fluid_stream import FluidStream
+from libecalc.process.process_pipeline.process_error import CompressorStonewallError, InsufficientInletPressureError
 from libecalc.process.process_solver.boundary import Boundary
 from libecalc.process.process_solver.configuration import (
     ChokeConfiguration,
@@ -16,6 +17,7 @@ from libecalc.process.process_solver.search_strategies import Bisect, RootFindin
 from libecalc.process.process_solver.solver import (
     Solution,
     TargetDirection,
+    process_error_to_failure,
 )
 from libecalc.process.process_units.compressor import Compressor
 
@@ -51,19 +53,24 @@ class IndividualASVPressureControlStrategy(PressureControlStrategy):
         inlet_stream: FluidStream,
     ) -> Solution[Sequence[Configuration[RecirculationConfiguration | ChokeConfiguration]]]:
         self.reset()
-        min_configurations, min_pressure_bara = compute_minimum_achievable_pressure(
-            simulator=self._simulator,
-            recirculation_loop_ids=self._recirculation_loop_ids,
-            compressors=self._compressors,
-            inlet_stream=inlet_stream,
-        )
-        if min_pressure_bara > target_pressure.value:
-            return Solution.target_pressure_unreachable(
-                configuration=min_configurations,
-                achievable_pressure_bara=min_pressure_bara,
-                target_pressure_bara=target_pressure.value,
-                direction=TargetDirection.MIN_ABOVE_TARGET,
+        try:
+            min_configurations, min_pressure_bara = compute_minimum_achievable_pressure(
+                simulator=self._simulator,
+                recirculation_loop_ids=self._recirculation_loop_ids,
+                compressors=self._compressors,
+                inlet_stream=inlet_stream,
             )
+        except (CompressorStonewallError, InsufficientInletPressureError):
+            # Maximum recirculation on every stage is more than the train can handle, the target may be met with less
+            self.reset()
+        else:
+            if min_pressure_bara > target_pressure.value:
+                return Solution.target_pressure_unreachable(
+                    configuration=min_configurations,
+                    achievable_pressure_bara=min_pressure_bara,
+                    target_pressure_bara=target_pressure.value,
+                    direction=TargetDirection.MIN_ABOVE_TARGET,
+                )
 
         n_stages = len(self._recirculation_loop_ids)
         pressure_ratio_per_stage = (target_pressure.value / inlet_stream.pressure_bara) ** (1.0 / n_stages)
@@ -156,19 +163,6 @@ class IndividualASVRateControlStrategy(PressureControlStrategy):
         inlet_stream: FluidStream,
     ) -> Solution[Sequence[Configuration[RecirculationConfiguration | ChokeConfiguration]]]:
         self.reset()
-        min_configurations, min_pressure_bara = compute_minimum_achievable_pressure(
-            simulator=self._simulator,
-            recirculation_loop_ids=self._recirculation_loop_ids,
-            compressors=self._compressors,
-            inlet_stream=inlet_stream,
-        )
-        if min_pressure_bara > target_pressure.value:
-            return Solution.target_pressure_unreachable(
-                configuration=min_configurations,
-                achievable_pressure_bara=min_pressure_bara,
-                target_pressure_bara=target_pressure.value,
-                direction=TargetDirection.MIN_ABOVE_TARGET,
-            )
 
         def get_outlet_stream(rate_fraction: float) -> FluidStream:
             test_configurations = self._get_configurations_from_fraction(
@@ -178,11 +172,49 @@ class IndividualASVRateControlStrategy(PressureControlStrategy):
             self._simulator.apply_configurations(test_configurations)
             return self._simulator.run(inlet_stream=inlet_stream)
 
-        # find_root searches for the recirculation fraction [0, 1] where
+        def within_capacity(rate_fraction: float) -> bool:
+            try:
+                get_outlet_stream(rate_fraction)
+                return True
+            except (CompressorStonewallError, InsufficientInletPressureError):
+                return False
+
+        max_fraction = 1.0
+        try:
+            min_configurations, min_pressure_bara = compute_minimum_achievable_pressure(
+                simulator=self._simulator,
+                recirculation_loop_ids=self._recirculation_loop_ids,
+                compressors=self._compressors,
+                inlet_stream=inlet_stream,
+            )
+        except (CompressorStonewallError, InsufficientInletPressureError) as e:
+            # Maximum recirculation on every stage is more than the train can handle, the target may be met with less
+            largest_fraction = Bisect().highest_true(Boundary(min=0.0, max=1.0), within_capacity)
+            if largest_fraction is None:
+                raise
+            max_fraction = largest_fraction
+            min_pressure_bara = get_outlet_stream(max_fraction).pressure_bara
+            if min_pressure_bara > target_pressure.value:
+                return Solution(
+                    configuration=self._get_configurations_from_fraction(
+                        inlet_stream=inlet_stream, asv_rate_fraction=max_fraction
+                    ),
+                    failure=process_error_to_failure(e),
+                )
+        else:
+            if min_pressure_bara > target_pressure.value:
+                return Solution.target_pressure_unreachable(
+                    configuration=min_configurations,
+                    achievable_pressure_bara=min_pressure_bara,
+                    target_pressure_bara=target_pressure.value,
+                    direction=TargetDirection.MIN_ABOVE_TARGET,
+                )
+
+        # find_root searches for the recirculation fraction [0, max_fraction] where
         # outlet_pressure(fraction) == target_pressure.
-        # Raises DidNotConvergeError if no solution is found within [0, 1].
+        # Raises DidNotConvergeError if no solution is found within [0, max_fraction].
         result_fraction = self._root_finding_strategy.find_root(
-            boundary=Boundary(min=0.0, max=1.0),
+            boundary=Boundary(min=0.0, max=max_fraction),
             func=lambda x: get_outlet_stream(x).pressure_bara - target_pressure.value,
         )
         # Re-propagate with converged fraction so loops store correct rates
-- 
2.43.0


From 399c3b641a09a00464a3795318815eebc2b4d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:13 +0000
Subject: [PATCH 39/55] fix: the capacity of a train is a rate the train can
 handle

The search for the largest feasible rate returned the last rate it tried, feasible or not,
so that the rate left for the train after the excess was redirected could be more than it can handle.
---
 .../process/process_solver/feasibility_solver.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..1e55ff6 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,14 +58,13 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
-            return self._search_strategy.search(
-                boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
-            )
+            return self._search_strategy.search(boundary=boundary, func=probe)
         except DidNotConvergeError:
             return 0.0
 
-- 
2.43.0


From e743abadb4db994c8b361264ea6d5a9f338e180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 40/55] fix: the recirculation given with an upstream choke is
 the one for the choking given

It was the one of the last choking evaluated in the search, with which the train can be
in surge at the choking found.
---
 .../process/process_solver/pressure_control/upstream_choke.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index cabee67..3c00785 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -78,6 +78,8 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
+        # The last choking evaluated in the search is not necessarily the one found, and the recirculation depends on it
+        choke_func(finding.configuration)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
-- 
2.43.0


From 021d32c35a903cbb7a6614dd0f685ca1c74ecc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 41/55] fix: a process constraint at the outlet with no process
 units left is refused instead of ending with an error

---
 .../yaml/mappers/process/process_partitioner.py            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
index 5e6cdc7..e8f4fe0 100644
--- a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
+++ b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
@@ -70,6 +70,13 @@ class ProcessPartitioner:
             current_units = []
 
         if terminal_constraint is not None:
+            if not current_units:
+                raise EcalcValidationException(
+                    "A constraint targets the process pipeline outlet, but no process units are left for it; "
+                    "the last process unit already has a constraint."
+                    if sections
+                    else "A constraint targets the process pipeline outlet, but the process has no process units."
+                )
             sections.append(
                 MappedSection(
                     process_units=current_units,
-- 
2.43.0


From 220e064b5f7e6e511b4b5f956a62aaf3d9fca713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 42/55] fix: the constraint of a process section was put at the
 wrong process unit in the last section

---
 .../presentation/yaml/mappers/process_simulation_mapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 17a9239..2bffefc 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -436,12 +436,11 @@ class ProcessSimulationMapper:
                 zip(process_pipeline_sections, mapped_sections, assembled_sections, strict=True)
             ):
                 # For the first n-1 sections, we put it at the last unit, for the nth section we put it before the outlet unit
-                constraint_position = -2
-                if nr == len(process_pipeline_sections):
-                    constraint_position = -1
+                is_last_section = nr == len(process_pipeline_sections) - 1
+                constraint_position = -2 if is_last_section else -1
                 target_process_unit_id = pipeline_section.get_process_units()[
                     constraint_position
-                ].get_id()  # The last unit is the outlet, so we take the one before that
+                ].get_id()
                 # TODO: The mapped_section.target_process_unit_id is incorrect, as that is before we apply ASV and Pressure Control ...
                 try:
                     constraint = Constraint(
-- 
2.43.0


From 43299d69d32666e12e8a82c99358fbc1a02b9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 43/55] fix: a pipeline event that changes an unknown process
 unit is refused instead of ending with KeyError

---
 .../presentation/yaml/mappers/process_simulation_mapper.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 2bffefc..559c661 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -271,6 +271,12 @@ class ProcessSimulationMapper:
                         f"Pipeline event CHANGE_TO '{change_to_yaml_process_unit}' does not match any compressor (chart) unit."
                     )
 
+            if yaml_event.change_target not in unit_name_to_id:
+                raise EcalcValidationException(
+                    f"Pipeline event CHANGE_TARGET '{yaml_event.change_target}' does not refer to a named process unit "
+                    f"in the process '{yaml_pipeline.name}'."
+                )
+
             events.append(
                 PipelineEvent(
                     action=PipelineEventAction(yaml_event.type.value),
-- 
2.43.0


From 8e21e7cd24fa20b212b5f264990dbaf556a66d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 44/55] fix: CONDITION: 0 was ignored, so that the consumer was
 always on

---
 .../presentation/yaml/mappers/consumer_function_mapper.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 41eb10c..1077412 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -178,7 +178,7 @@ class ConditionedModel(Protocol):
 
 
 def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float | None:
-    if energy_usage_model.condition:
+    if energy_usage_model.condition is not None:
         condition_value = energy_usage_model.condition
         return condition_value
     elif energy_usage_model.conditions:
-- 
2.43.0


From 316ff04a56b8942ab106a8506d561d541653d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 45/55] fix: CONDITIONS of the rates of venting emitters were
 ignored

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 02bf75e..16a5fd8 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -46,6 +46,7 @@ from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
 from libecalc.presentation.yaml.mappers.consumer_function_mapper import (
     ConsumerFunctionMapper,
     InvalidEnergyUsageModelException,
+    _map_condition,
 )
 from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
 from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
@@ -569,7 +570,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=emission.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=emission.rate.condition,
+                                condition=_map_condition(emission.rate),
                             ),
                             unit=emission.rate.unit.to_unit(),
                             rate_type=emission.rate.type,
@@ -598,7 +599,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=data.volume.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=data.volume.rate.condition,
+                                condition=_map_condition(data.volume.rate),
                             ),
                             unit=data.volume.rate.unit.to_unit(),
                             rate_type=data.volume.rate.type,
-- 
2.43.0


From 10b773cd2696be41db6d8a06e3a1e0be130da68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 46/55] fix: MAX_USAGE_FROM_SHORE: 0 was taken as no limit

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 16a5fd8..7615f76 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -341,7 +341,7 @@ class EcalcModelMapper:
                         expression=data.max_usage_from_shore, expression_evaluator=self._expression_evaluator
                     )
                 )
-                if data.max_usage_from_shore
+                if data.max_usage_from_shore is not None
                 else None
             )
         except (InvalidExpressionError, EcalcValidationException) as e:
-- 
2.43.0


From 74b241ea5a203fccfe316b5b2b82cf526d2e5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 47/55] fix: a tabulated consumer used the energy of its table
 at zero where its condition was not met

---
 .../tabulated/tabular_consumer_function.py          |  5 +++++
 .../yaml/mappers/consumer_function_mapper.py        | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
index 78a7e6c..2c92c41 100644
--- a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
+++ b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
@@ -36,6 +36,7 @@ class TabularConsumerFunction(ConsumerFunction):
         energy_usage_adjustment_factor (float): Factor to adjust energy usage.
         variables (list[TimeSeriesVariable]): Variables to evaluate and use for interpolation.
         power_loss_factor (TimeSeriesPowerLossFactor | None): Optional power loss factor.
+        is_on (list[bool] | None): Whether the consumer is on, per period. It uses no energy when it is not.
     """
 
     def __init__(
@@ -44,6 +45,7 @@ class TabularConsumerFunction(ConsumerFunction):
         data: list[list[float]],
         variables: list[TimeSeriesVariable],
         power_loss_factor: TimeSeriesPowerLossFactor | None = None,
+        is_on: list[bool] | None = None,
     ):
         """Tabulated consumer function [MW] (energy) or [Sm3/day] (fuel)."""
         # Consistency of variables between tabulated_energy_function and variables_expressions must be validated up
@@ -56,6 +58,7 @@ class TabularConsumerFunction(ConsumerFunction):
 
         # Typically used for power line loss subsea et.c.
         self._power_loss_factor = power_loss_factor
+        self._is_on = is_on
 
     def evaluate(self) -> ConsumerFunctionResult:
         """
@@ -110,6 +113,8 @@ class TabularConsumerFunction(ConsumerFunction):
         variables_array_for_evaluation = np.squeeze(variables_array_for_evaluation)  # Remove empty dimensions
         variables_array_for_evaluation = np.transpose(variables_array_for_evaluation)
         energy_usage = self._tabular_energy_function.interpolate(variables_array_for_evaluation)
+        if self._is_on is not None:
+            energy_usage = np.where(self._is_on, energy_usage, 0)
 
         energy_usage_list = array_to_list(energy_usage)
         if energy_usage_list is None:
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 1077412..f2333ae 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1093,11 +1093,24 @@ class ConsumerFunctionMapper:
             for variable in model.variables
         ]
 
+        condition = _map_condition(model)
+        is_on = (
+            [
+                value != 0
+                for value in TimeSeriesExpression(
+                    expression=condition, expression_evaluator=period_evaluator
+                ).get_evaluated_expression()
+            ]
+            if condition is not None
+            else None
+        )
+
         return TabularConsumerFunction(
             headers=energy_model.headers,
             data=energy_model.data,
             variables=variables,
             power_loss_factor=power_loss_factor,
+            is_on=is_on,
         )
 
     def _map_pump(
-- 
2.43.0


From 94f8059177055eca59f8309c089ba8d098804ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 48/55] fix: simplified trains failed on periods not running,
 on no compression, and got too few or too many stages

Pressures may be zero where the compressor is not running, the quotient of two logarithms may be rounded to just above
the number of stages needed, and a train has at least one stage.
---
 .../yaml/mappers/consumer_function_mapper.py  |  3 +++
 .../mappers/simplified_train_mapping_utils.py | 27 ++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index f2333ae..1c44650 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -557,6 +557,9 @@ class CompressorModelMapper:
         # Get fluid model
         fluid_model = self._get_fluid_model(model.fluid_model)
 
+        if operational_data is not None:
+            operational_data = operational_data.with_positive_pressures()
+
         train_spec = model.compressor_train
         shaft = SingleSpeedShaft()  # Not used for simplified trains, but required by compressor
 
diff --git a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
index 0a35293..19596e8 100644
--- a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
+++ b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
@@ -57,6 +57,19 @@ class CompressorOperationalTimeSeries:
             else None,
         )
 
+    def with_positive_pressures(self) -> CompressorOperationalTimeSeries:
+        """The periods where the pressures are positive. Any pressures may be given where the compressor is not running."""
+        if self.suction_pressures is None or self.discharge_pressures is None:
+            return self
+        positive = (self.suction_pressures > 0) & (self.discharge_pressures > 0)
+        if not positive.any():
+            return self
+        return CompressorOperationalTimeSeries(
+            rates=self.rates[positive],
+            suction_pressures=self.suction_pressures[positive],
+            discharge_pressures=self.discharge_pressures[positive],
+        )
+
 
 def calculate_number_of_stages(
     maximum_pressure_ratio_per_stage: float,
@@ -75,7 +88,15 @@ def calculate_number_of_stages(
     """
     # Calculate number of stages needed based on maximum pressure ratio
     pressure_ratios = discharge_pressures / suction_pressures
-    maximum_train_pressure_ratio = max(pressure_ratios)
+    maximum_train_pressure_ratio = max(pressure_ratios, default=1.0)
+
+    # There is at least one stage, also when there is nothing to compress
+    if maximum_train_pressure_ratio <= maximum_pressure_ratio_per_stage:
+        return 1
+
+    number_of_stages = math.ceil(math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage))
 
-    x = math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage)
-    return math.ceil(x)
+    # The quotient of the logarithms may be rounded to just above the number of stages needed
+    if maximum_train_pressure_ratio <= maximum_pressure_ratio_per_stage ** (number_of_stages - 1):
+        return number_of_stages - 1
+    return number_of_stages
-- 
2.43.0


From d660cfbb6f74865c8422b73e9eb282dc594d1f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 49/55] fix: stages of multi-stream trains were silently
 dropped

A stage whose stream was also connected to another stage was left out of the train, a reference to a stream which does
not exist was ignored, and a stream without a stage failed with a KeyError. Such models are refused.
---
 .../yaml/mappers/consumer_function_mapper.py  | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 1c44650..6c83d75 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -699,6 +699,8 @@ class CompressorModelMapper:
         self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures
     ) -> tuple[CompressorTrainCommonShaft, list[FluidModel | None]]:
         stream_references = {stream.name for stream in model.streams}
+        if len(stream_references) != len(model.streams):
+            raise EcalcValidationException("The streams of the model must have different names.")
 
         shaft = VariableSpeedShaft()
 
@@ -708,8 +710,24 @@ class CompressorModelMapper:
         stream_to_stage_map: dict[str, int] = {}
         for stage_index, stage_config in enumerate(model.stages):
             for stream_reference in stage_config.stream or []:
-                if stream_reference in stream_references:
-                    stream_to_stage_map.setdefault(stream_reference, stage_index)
+                if stream_reference not in stream_references:
+                    raise EcalcValidationException(
+                        f"Stage {stage_index + 1} refers to stream '{stream_reference}', which is not one of the streams "
+                        f"of the model."
+                    )
+                if stream_reference in stream_to_stage_map:
+                    raise EcalcValidationException(f"Stream '{stream_reference}' is connected more than once.")
+                stream_to_stage_map[stream_reference] = stage_index
+
+        for stream in model.streams:
+            if stream.name not in stream_to_stage_map:
+                raise EcalcValidationException(f"Stream '{stream.name}' is not connected to any stage.")
+
+        if not any(
+            isinstance(stream, YamlMultipleStreamsStreamIngoing) and stream_to_stage_map[stream.name] == 0
+            for stream in model.streams
+        ):
+            raise EcalcValidationException("The first stage requires a stream of type INGOING.")
 
         stages = [
             self._create_compressor_train_stage(
@@ -753,11 +771,6 @@ class CompressorModelMapper:
                 ),
             )
             for stage_index, stage_config in enumerate(model.stages)
-            if not any(
-                stream_to_stage_map.setdefault(stream_reference, stage_index) != stage_index
-                for stream_reference in (stage_config.stream or [])
-                if stream_reference not in stream_references or stream_reference in stream_to_stage_map
-            )
         ]
 
         fluid_models = [
-- 
2.43.0


From d37da0bc56ba43a6b2db27bdd50977156841ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 50/55] fix: dates out of order in a temporal model were not
 always refused

Dates after the end of the calculation hid the order, so that one model was used where another was given, or the
evaluation failed. Categories, regularity and hydrocarbon export out of order failed with an unhandled error.
---
 .../yaml/yaml_types/yaml_temporal_model.py    | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
index ea9b5bb..987bae6 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
@@ -1,6 +1,7 @@
+from datetime import datetime
 from typing import Annotated, Any, Literal, TypeVar, Union
 
-from pydantic import Discriminator, Tag
+from pydantic import Discriminator, Tag, ValidatorFunctionWrapHandler, WrapValidator
 
 from libecalc.common.errors.exceptions import InvalidDateException
 from libecalc.common.time_utils import is_temporal_model
@@ -33,11 +34,32 @@ def discriminate_temporal_model(v: Any) -> Literal["single", "temporal"]:
 
 
 TModel = TypeVar("TModel")
+
+
+def check_dates_in_order(
+    data: dict[Any, Any], handler: ValidatorFunctionWrapHandler
+) -> dict[datetime, TModel]:
+    temporal_model = handler(data)
+    if len(temporal_model) != len(data):
+        # Two keys in different formats, e.g. 2020-01-01 and 2020-01-01 00:00:00
+        raise ValueError("A date can only be used once in a temporal model.")
+
+    dates = list(temporal_model)
+    for previous_date, next_date in zip(dates[:-1], dates[1:]):
+        if not previous_date < next_date:
+            raise ValueError(
+                f"Dates in a temporal model should be sorted with the earliest date first. "
+                f"Got '{next_date}' after '{previous_date}'."
+            )
+    return temporal_model
+
+
 YamlTemporalModel = Annotated[
     Union[
         Annotated[TModel, Tag("single")],
         Annotated[
             dict[YamlDefaultDatetime, TModel],
+            WrapValidator(check_dates_in_order),
             Tag("temporal"),
         ],
     ],
-- 
2.43.0


From c0ea70d75e437f4a2cd199697212a20f2ace4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:17 +0000
Subject: [PATCH 51/55] fix: simplified trains with a table as chart, or
 sharing their name, failed with an AttributeError

---
 .../yaml/yaml_types/models/yaml_compressor_trains.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index 8d54650..014cc6e 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -152,7 +152,7 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
     @model_validator(mode="after")
     def check_compressor_chart(self, info: ValidationInfo):
         if info.context is not None:
-            train = info.context["model_types"][self.name].compressor_train
+            train = self.compressor_train
             allowed_charts_simplified_trains = [
                 YamlChartType.GENERIC_FROM_INPUT.value,
                 YamlChartType.GENERIC_FROM_DESIGN_POINT.value,
@@ -174,9 +174,10 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
             else:
                 # Unknown compressor stages
                 compressor_chart = info.context["model_types"][train.compressor_chart]
-                if compressor_chart.chart_type not in allowed_charts_simplified_trains:
+                chart_type = getattr(compressor_chart, "chart_type", compressor_chart.type)
+                if chart_type not in allowed_charts_simplified_trains:
                     raise ValueError(
-                        f"{compressor_chart.chart_type} compressor chart is not supported for {self.type}. "
+                        f"{chart_type} compressor chart is not supported for {self.type}. "
                         f"Allowed charts are {', '.join(allowed_charts_simplified_trains)}."
                     )
         return self
-- 
2.43.0


From a2083a5c2af596a27fb73825080b6348b766de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 52/55] fix: contradictory consumer systems failed with
 unhandled errors, or were evaluated with part of the input ignored

---
 ...yaml_energy_usage_model_consumer_system.py | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 8c5bac0..a5d9213 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -1,3 +1,4 @@
+from collections.abc import Sequence
 from typing import Literal
 
 from pydantic import Field, field_validator, model_validator
@@ -69,6 +70,16 @@ class YamlCompressorSystemOperationalSetting(YamlBase):
         description="Set suction pressure equal for all consumers in a consumer system operational setting. \n\n$ECALC_DOCS_KEYWORDS_URL/SUCTION_PRESSURE",
     )
 
+    @model_validator(mode="after")
+    def ensure_mutually_exclusive_rates(self):
+        if self.rates is None and self.rate_fractions is None:
+            raise ValueError("One of RATES or RATE_FRACTIONS must be specified.")
+
+        if self.rates is not None and self.rate_fractions is not None:
+            raise ValueError("Only one of RATES or RATE_FRACTIONS may be specified.")
+
+        return self
+
     @model_validator(mode="after")
     def ensure_mutually_exclusive_discharge_pressures(self):
         if self.discharge_pressure is None and self.discharge_pressures is None:
@@ -98,6 +109,34 @@ class YamlPumpSystemOperationalSettings(YamlCompressorSystemOperationalSetting):
     )
 
 
+def _validate_system_operational_settings(
+    operational_settings: Sequence[YamlCompressorSystemOperationalSetting],
+    number_of_consumers: int,
+    has_total_system_rate: bool,
+) -> None:
+    if len(operational_settings) == 0:
+        raise ValueError("At least one operational setting must be specified.")
+
+    for setting_number, setting in enumerate(operational_settings, start=1):
+        if setting.rate_fractions is not None and not has_total_system_rate:
+            raise ValueError(
+                f"Operational setting {setting_number}: RATE_FRACTIONS requires TOTAL_SYSTEM_RATE to be specified."
+            )
+
+        if setting.crossover:
+            if len(setting.crossover) != number_of_consumers:
+                raise ValueError(
+                    f"Operational setting {setting_number}: CROSSOVER has {len(setting.crossover)} values "
+                    f"but system has {number_of_consumers} consumers."
+                )
+            for consumer_number, receiver_number in enumerate(setting.crossover, start=1):
+                if not 0 <= receiver_number <= number_of_consumers or receiver_number == consumer_number:
+                    raise ValueError(
+                        f"Operational setting {setting_number}: CROSSOVER for consumer {consumer_number} must be 0 or "
+                        f"the number of another consumer in the system, got {receiver_number}."
+                    )
+
+
 class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
     type: Literal["COMPRESSOR_SYSTEM"] = Field(
         ...,
@@ -205,6 +244,12 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
                         f"but system has {num_compressors} compressors."
                     )
 
+        _validate_system_operational_settings(
+            operational_settings=self.operational_settings,
+            number_of_consumers=num_compressors,
+            has_total_system_rate=self.total_system_rate is not None,
+        )
+
         return self
 
 
@@ -309,4 +354,15 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                         f"but system has {num_pumps} pumps."
                     )
 
+            if not setting.fluid_densities and self.fluid_density is None:
+                raise ValueError(
+                    f"Operational setting {setting_num}: One of FLUID_DENSITY or FLUID_DENSITIES must be specified."
+                )
+
+        _validate_system_operational_settings(
+            operational_settings=self.operational_settings,
+            number_of_consumers=num_pumps,
+            has_total_system_rate=self.total_system_rate is not None,
+        )
+
         return self
-- 
2.43.0


From cd0a828fbfd879ff48b662c213d7cdbd35e167f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:26 +0000
Subject: [PATCH 53/55] fix: tabulated consumers whose variables do not match
 the table failed with an unhandled error, or ignored one of two

---
 .../presentation/yaml/mappers/consumer_function_mapper.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 6c83d75..0fb3852 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1090,6 +1090,13 @@ class ConsumerFunctionMapper:
         if consumes != energy_usage_type_as_consumption_type:
             raise InvalidConsumptionType(actual=energy_usage_type_as_consumption_type, expected=consumes)
 
+        variable_names = [variable.name for variable in model.variables]
+        if sorted(variable_names) != sorted(energy_model.required_variables):
+            raise EcalcValidationException(
+                f"VARIABLES must correspond to the columns of '{model.energy_function}', each given once. "
+                f"Expected: {', '.join(energy_model.required_variables)}. Got: {', '.join(variable_names)}."
+            )
+
         power_loss_factor_expression = TimeSeriesExpression(
             expression=model.power_loss_factor, expression_evaluator=period_evaluator
         )
-- 
2.43.0


From dbc024bdf30db5990a2a24ec153587d22435e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 54/55] fix: of two emissions of a venting emitter with the
 same name, one was silently dropped

---
 .../emitters/yaml_venting_emitter.py          | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index 97d6fcd..3b7adc5 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -9,7 +9,7 @@ from pydantic import (
 from pydantic_core.core_schema import ValidationInfo
 
 from libecalc.common.component_type import ComponentType
-from libecalc.common.string.string_utils import generate_id
+from libecalc.common.string.string_utils import generate_id, get_duplicates
 from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -28,6 +28,13 @@ class YamlVentingType(enum.StrEnum):
     DIRECT_EMISSION = "DIRECT_EMISSION"
 
 
+def _ensure_unique_emission_names(emissions: list) -> list:
+    duplicated_names = get_duplicates(emission.name for emission in emissions)
+    if len(duplicated_names) > 0:
+        raise ValueError(f"EMISSIONS names must be unique. Duplicated names are: {', '.join(sorted(duplicated_names))}")
+    return emissions
+
+
 class YamlVentingVolumeEmission(YamlBase):
     name: str = Field(
         ...,
@@ -52,6 +59,11 @@ class YamlVentingVolume(YamlBase):
         description="The emission types and volume-emission-factors associated with oil loading/storage",
     )
 
+    @field_validator("emissions", mode="after")
+    @classmethod
+    def ensure_unique_emission_names(cls, emissions: list[YamlVentingVolumeEmission]):
+        return _ensure_unique_emission_names(emissions)
+
 
 class YamlVentingEmission(YamlBase):
     name: str = Field(
@@ -100,6 +112,11 @@ class YamlDirectTypeEmitter(YamlBase):
         description="The emissions for the emitter of type DIRECT_EMISSION",
     )
 
+    @field_validator("emissions", mode="after")
+    @classmethod
+    def ensure_unique_emission_names(cls, emissions: list[YamlVentingEmission]):
+        return _ensure_unique_emission_names(emissions)
+
     @field_validator("category", mode="before")
     def check_user_defined_category(cls, category, info: ValidationInfo):
         """Provide which value and context to make it easier for user to correct wrt mandatory changes."""
-- 
2.43.0


From 42863700e2e3f6452d60221c8253e561a7f721fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 55/55] fix: list entries of the wrong kind failed with
 AttributeError instead of being reported

---
 .../presentation/yaml/yaml_models/pyyaml_yaml_model.py    | 8 +++++---
 .../yaml/yaml_types/emitters/yaml_venting_emitter.py      | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 8fa31b6..ef722f4 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -315,11 +315,13 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
             model.get(model_curves)
             for model in self._get_yaml_list_or_empty(EcalcYamlKeywords.models)
             for model_curves in [EcalcYamlKeywords.consumer_chart_curves, EcalcYamlKeywords.consumer_chart_curve]
-            if isinstance(model.get(model_curves), dict)
+            if isinstance(model, dict) and isinstance(model.get(model_curves), dict)
         ]
         resource_data = facility_input_data + model_curves_data
         resource_names: list[str] = [
-            data.get(EcalcYamlKeywords.file) for data in resource_data if data.get(EcalcYamlKeywords.file) is not None
+            data.get(EcalcYamlKeywords.file)
+            for data in resource_data
+            if isinstance(data, dict) and data.get(EcalcYamlKeywords.file) is not None
         ]
 
         # Pick up FILE references nested in the new YAML sections (DEFINITIONS.PROCESS_UNITS, PROCESS_PIPELINES, ...).
@@ -339,7 +341,7 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
     def timeseries_resource_names(self) -> list[str]:
         timeseries_resources = []
         for resource in self._get_yaml_list_or_empty(EcalcYamlKeywords.time_series):
-            resource_name = resource.get(EcalcYamlKeywords.file)
+            resource_name = resource.get(EcalcYamlKeywords.file) if isinstance(resource, dict) else None
             if resource_name is not None:
                 timeseries_resources.append(resource_name)
         return timeseries_resources
diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index 3b7adc5..c36f771 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -48,7 +48,7 @@ class YamlVentingVolumeEmission(YamlBase):
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-        return name.lower()
+        return name.lower() if isinstance(name, str) else name
 
 
 class YamlVentingVolume(YamlBase):
@@ -76,7 +76,7 @@ class YamlVentingEmission(YamlBase):
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-        return name.lower()
+        return name.lower() if isinstance(name, str) else name
 
 
 class YamlDirectTypeEmitter(YamlBase):
-- 
2.43.0

