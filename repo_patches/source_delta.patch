From dff42cad2a752096c0ee590307ce0caddee94011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 01/75] fix: keep exclusive members with varying limits
 switched off

The rows tying a member's flow to its binary variable are variable rows when
the member's limits are not constant; their bounds are reset on every
time-step and were never applied again, so the group had no effect.
---
 pywr-core/src/solvers/builder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..9d0270e 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -500,14 +500,21 @@ where
                     self.builder.apply_row_bounds(row.row_id.to_usize().unwrap(), lb, ub);
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
-                    // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
+                    // Update the coefficients for the binary column to be the upper bound, which is
+                    // limited in the same way as a constant upper bound.
+                    // The bounds of this row have been reset, so they must be applied again
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, ub.min(1e6)));
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
+                    // The bounds of this row have been reset, so they must be applied again
                     self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                 }
             }
         }
-- 
2.43.0


From 39268b1962aac3318434bac5eaa2591d0adc8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 02/75] fix: apply a coefficient relationship's right-hand side
 when it varies

With constant factors the row was fixed using a right-hand side of zero and
never updated.
---
 pywr-core/src/aggregated_node.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..6bd04a1 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -1074,10 +1074,14 @@ fn get_const_coefficient_factor_pairs<'a>(
     let f1 = factors[1].try_get_constant_value(values)?;
 
     let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+        Some(rhs) => rhs.try_get_constant_value(values)?,
+        None => Some(0.0),
     };
 
+    // The pair is only constant if its right-hand side is also constant
+    let (f0, f1) = if rhs.is_some() { (f0, f1) } else { (None, None) };
+    let rhs = rhs.unwrap_or_default();
+
     Ok(vec![NodeConstFactorPair::new(
         NodeConstFactor::new(nodes[0].as_slice(), f0),
         NodeConstFactor::new(nodes[1].as_slice(), f1),
-- 
2.43.0


From 6342365fe5dab9374225a6ce0223813924ba79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 03/75] fix: do not share the row of two relationships with
 varying factors

Relationships over the same members start from identical rows, which were
merged; the factors of the last one then replaced those of the others.
---
 pywr-core/src/solvers/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 9d0270e..0e22242 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -191,6 +191,15 @@ where
         }
     }
 
+    /// Add a row to the LP without sharing the row of an identical existing one.
+    ///
+    /// This is required for rows where the coefficients are updated later.
+    fn add_unique_variable_row(&mut self, row: RowBuilder<I>) -> I {
+        let row_id = self.num_variable_rows();
+        self.rows.push(row);
+        row_id
+    }
+
     /// Return the number of variable rows
     fn num_variable_rows(&self) -> I {
         I::from(self.rows.len()).unwrap()
@@ -989,7 +998,7 @@ where
                         row_indices_for_agg_node.push(None)
                     } else {
                         // These rows will be updated with the correct ratio later
-                        let row_idx = self.builder.add_variable_row(row);
+                        let row_idx = self.builder.add_unique_variable_row(row);
                         row_indices_for_agg_node.push(Some(row_idx));
                     }
                 }
-- 
2.43.0


From 70c3949b924d367b50a9aabde191d48174c865a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 04/75] fix: permit zero factors in proportional and ratio
 relationships

Normalising by a factor of zero gave an infinite coefficient, which panics
when the factor is constant.
---
 pywr-core/src/aggregated_node.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 6bd04a1..072cbd1 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -764,7 +764,8 @@ fn get_norm_proportional_factor_pairs<'a>(
         .skip(1)
         .zip(values)
         .map(move |(n1, f1)| {
-            NodeFactorPair::new(NodeFactor::new(n0, 1.0), NodeFactor::new(n1.as_slice(), -f0 / f1), 0.0)
+            // Cross-multiplied such that a factor of zero is permitted
+            NodeFactorPair::new(NodeFactor::new(n0, f1), NodeFactor::new(n1.as_slice(), -f0), 0.0)
         })
         .collect::<Vec<_>>();
 
@@ -854,9 +855,10 @@ fn get_const_norm_proportional_factor_pairs<'a>(
             .skip(1)
             .zip(factor_values)
             .map(move |(n1, f1)| {
+                // Cross-multiplied such that a factor of zero is permitted
                 NodeConstFactorPair::new(
-                    NodeConstFactor::new(n0, Some(1.0)),
-                    NodeConstFactor::new(n1.as_slice(), f1.map(|v| -f0 / v)),
+                    NodeConstFactor::new(n0, f1),
+                    NodeConstFactor::new(n1.as_slice(), Some(-f0)),
                     0.0,
                 )
             })
@@ -912,9 +914,10 @@ fn get_norm_ratio_factor_pairs<'a>(
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
 
+            // Cross-multiplied such that a factor of zero is permitted
             Ok(NodeFactorPair::new(
-                NodeFactor::new(n0, 1.0),
-                NodeFactor::new(n1.as_slice(), -f0 / v1),
+                NodeFactor::new(n0, v1),
+                NodeFactor::new(n1.as_slice(), -f0),
                 0.0,
             ))
         })
@@ -975,11 +978,10 @@ fn get_const_norm_ratio_factor_pairs<'a>(
                 }
             }
 
-            let v1 = v1.and_then(|v| f0.map(|f0| -f0 / v));
-
+            // Cross-multiplied such that a factor of zero is permitted
             Ok(NodeConstFactorPair::new(
-                NodeConstFactor::new(n0, Some(1.0)),
-                NodeConstFactor::new(n1.as_slice(), v1),
+                NodeConstFactor::new(n0, v1),
+                NodeConstFactor::new(n1.as_slice(), f0.map(|f0| -f0)),
                 0.0,
             ))
         })
-- 
2.43.0


From 6ef0b3d13341ff26ba1baa539be38b247508f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 05/75] fix: create the binary columns of exclusive groups in a
 fixed order

They were created in the iteration order of a HashSet, so that every run of
the same model could choose a different one of equally good allocations.
---
 pywr-core/src/solvers/builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 0e22242..d2ca3b8 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -4,7 +4,7 @@ use crate::solvers::col_edge_map::{ColumnEdgeMap, ColumnEdgeMapBuilder};
 use crate::solvers::{SolverSetupError, SolverSolveError, SolverTimings};
 use crate::state::{ConstParameterValues, State};
 use crate::timestep::Timestep;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::Debug;
 use std::time::Instant;
 
@@ -741,7 +741,8 @@ where
         // We only want to create one binary variable for each unique set of nodes. For the
         // majority of cases the nodes will only be in one set. However, if a node is in different
         // sets then we need to create separate binary variables and associated them with that node.
-        let mut node_sets_in_a_mutual_exclusivity = HashSet::new();
+        // The sets are ordered such that the linear programme is always the same.
+        let mut node_sets_in_a_mutual_exclusivity = BTreeSet::new();
         for agg_node in network.aggregated_nodes() {
             if agg_node.has_exclusivity() {
                 for node_set in agg_node.iter_nodes() {
-- 
2.43.0


From 7edf92a29e74247d9265d4302dfd3e98f57dfc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 06/75] fix: report invalid factors of an aggregated node
 instead of ignoring them

A relationship whose constant factors are invalid was silently dropped, and
invalid varying factors panicked; both are now errors.
---
 pywr-core/src/solvers/builder.rs | 20 +++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index d2ca3b8..7b09247 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -543,7 +543,12 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -677,7 +682,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -957,12 +962,17 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -1011,7 +1021,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..c8f0893 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0


From f3143ff24c7cb9bf2cbf3cb663f968e75dd60478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 07/75] fix: give the offset parameter its internal state so
 that it can be evaluated

---
 pywr-core/src/parameters/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/offset.rs b/pywr-core/src/parameters/offset.rs
index f85d673..d84fbde 100644
--- a/pywr-core/src/parameters/offset.rs
+++ b/pywr-core/src/parameters/offset.rs
@@ -1,6 +1,6 @@
 use crate::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
 use crate::network::ResolutionMaps;
-use crate::parameters::errors::GeneralCalculationError;
+use crate::parameters::errors::{GeneralCalculationError, ParameterSetupError};
 use crate::parameters::{
     ActivationFunction, BuiltParameter, GeneralBeforeParameter, GeneralParameter, GeneralParameterContext,
     GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
@@ -8,6 +8,8 @@ use crate::parameters::{
     downcast_internal_state_mut, downcast_internal_state_ref, downcast_variable_config_ref,
 };
 use crate::resolve_metric_f64;
+use crate::scenario::ScenarioIndex;
+use crate::timestep::Timestep;
 
 #[derive(Debug)]
 pub struct OffsetParameter {
@@ -36,6 +38,15 @@ impl Parameter for OffsetParameter {
         &self.meta
     }
 
+    fn setup(
+        &self,
+        _timesteps: &[Timestep],
+        _scenario_index: &ScenarioIndex,
+    ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
+        let value: InternalValue = None;
+        Ok(Some(Box::new(value)))
+    }
+
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
         Some(self)
     }
-- 
2.43.0


From 1d89059b89fda57ffafac010476164acb881e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 08/75] fix: interpolate a monthly profile towards the next
 month on the last day of a month

---
 pywr-core/src/parameters/profiles/monthly.rs | 32 +++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/monthly.rs b/pywr-core/src/parameters/profiles/monthly.rs
index 594c552..ff742ea 100644
--- a/pywr-core/src/parameters/profiles/monthly.rs
+++ b/pywr-core/src/parameters/profiles/monthly.rs
@@ -37,15 +37,24 @@ fn interpolate_first(date: &DateTime, first_value: f64, last_value: f64) -> f64
     first_value + (last_value - first_value) * fraction_of_month
 }
 
-/// Interpolate between `first_value` and `last_value` based on the day of the month. The first
-/// value is assumed to correspond to the last day of the previous month.
-fn interpolate_last(date: &DateTime, first_value: f64, last_value: f64) -> f64 {
-    let end_of_last_month = date
+/// Interpolate between the values of two consecutive months. Each month's value is assumed to
+/// correspond to the start of the last day of that month. After the start of the last day of a month
+/// the interpolation is between the value of that month and the value of the next.
+fn interpolate_last(date: &DateTime, values: &[f64; 12]) -> f64 {
+    let mut end_of_month = date.last_of_month().start_of_day();
+    if *date > end_of_month {
+        end_of_month = end_of_month
+            .checked_add(1.months())
+            .expect("Datetime overflowed!")
+            .last_of_month();
+    }
+    let end_of_last_month = end_of_month
         .checked_add(-1.months())
         .expect("Datetime overflowed!")
-        .last_of_month()
-        .start_of_day();
-    let end_of_month = date.last_of_month().start_of_day();
+        .last_of_month();
+
+    let first_value = values[end_of_last_month.month() as usize - 1];
+    let last_value = values[end_of_month.month() as usize - 1];
 
     let duration_of_month = end_of_month.duration_since(end_of_last_month);
     let since_end_of_last_month = date.duration_since(end_of_last_month);
@@ -74,14 +83,7 @@ impl SimpleParameter<f64> for MonthlyProfileParameter {
 
                     interpolate_first(&ctx.timestep.date, first_value, last_value)
                 }
-                MonthlyInterpDay::Last => {
-                    let current_month = ctx.timestep.date.month();
-                    let last_month = if current_month == 1 { 12 } else { current_month - 1 };
-                    let first_value = self.values[last_month as usize - 1];
-                    let last_value = self.values[ctx.timestep.date.month() as usize - 1];
-
-                    interpolate_last(&ctx.timestep.date, first_value, last_value)
-                }
+                MonthlyInterpDay::Last => interpolate_last(&ctx.timestep.date, &self.values),
             },
             None => self.values[ctx.timestep.date.month() as usize - 1],
         };
-- 
2.43.0


From b1496e02068961f4e64ba758acdaf3b6def6aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 09/75] fix: interpolate the 53rd week of a 52-week profile
 from the 52nd week's value

---
 pywr-core/src/parameters/profiles/weekly.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/weekly.rs b/pywr-core/src/parameters/profiles/weekly.rs
index 78ae1ac..7cee27f 100644
--- a/pywr-core/src/parameters/profiles/weekly.rs
+++ b/pywr-core/src/parameters/profiles/weekly.rs
@@ -85,9 +85,10 @@ impl WeeklyProfileValues {
     }
 
     /// Get the previous week's value based on the week index of the provided date. If the
-    /// current week index is 0 than the last array value is returned.
+    /// current week index is 0 than the last array value is returned. The value of the 53rd week of
+    /// a 52-week profile is a copy of the 52nd, which is therefore also the value of the week before it.
     fn prev(&self, timestep: &Timestep) -> f64 {
-        let current_week_index = self.current_index(timestep);
+        let current_week_index = self.current_week_index(timestep, false) as usize;
 
         match self {
             Self::FiftyTwo(values) => {
-- 
2.43.0


From 65a5e44a2197091ade33a08272772efa2a7660e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 10/75] fix: evaluate the thin plate spline at distance zero

---
 pywr-core/src/parameters/profiles/rbf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 6d76a6f..4741aca 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -305,6 +305,8 @@ impl RadialBasisFunction {
             RadialBasisFunction::Linear => r,
             RadialBasisFunction::Cubic => r.powi(3),
             RadialBasisFunction::Quintic => r.powi(5),
+            // The limit at zero is zero
+            RadialBasisFunction::ThinPlateSpline if r == 0.0 => 0.0,
             RadialBasisFunction::ThinPlateSpline => r.powi(2) * r.ln(),
             RadialBasisFunction::Gaussian { epsilon } => (-(epsilon * r).powi(2)).exp(),
             RadialBasisFunction::MultiQuadric { epsilon } => (1.0 + (epsilon * r).powi(2)).sqrt(),
-- 
2.43.0


From 1465b1143d659694652a0c732e9ea3c662c43662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 11/75] fix: report missing values of an interpolated control
 curve as an error

---
 .../parameters/control_curves/interpolated.rs | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/parameters/control_curves/interpolated.rs b/pywr-core/src/parameters/control_curves/interpolated.rs
index f3ee208..c185e32 100644
--- a/pywr-core/src/parameters/control_curves/interpolated.rs
+++ b/pywr-core/src/parameters/control_curves/interpolated.rs
@@ -17,6 +17,18 @@ pub struct ControlCurveInterpolatedParameter {
     values: Vec<MetricF64>,
 }
 
+impl ControlCurveInterpolatedParameter {
+    fn value(&self, index: usize) -> Result<&MetricF64, GeneralCalculationError> {
+        self.values
+            .get(index)
+            .ok_or_else(|| GeneralCalculationError::OutOfBoundsError {
+                axis: 0,
+                index,
+                length: self.values.len(),
+            })
+    }
+}
+
 impl Parameter for ControlCurveInterpolatedParameter {
     fn meta(&self) -> &ParameterMeta {
         &self.meta
@@ -46,8 +58,8 @@ impl GeneralBeforeParameter<f64> for ControlCurveInterpolatedParameter {
             let cc_value = control_curve.get_value(ctx.network, ctx.state)?;
 
             if x >= cc_value {
-                let lower_value = self.values[idx + 1].get_value(ctx.network, ctx.state)?;
-                let upper_value = self.values[idx].get_value(ctx.network, ctx.state)?;
+                let lower_value = self.value(idx + 1)?.get_value(ctx.network, ctx.state)?;
+                let upper_value = self.value(idx)?.get_value(ctx.network, ctx.state)?;
 
                 return Ok(interpolate(x, cc_value, cc_prev, lower_value, upper_value));
             }
@@ -56,10 +68,10 @@ impl GeneralBeforeParameter<f64> for ControlCurveInterpolatedParameter {
         }
 
         let cc_value = 0.0;
-        let n = self.values.len();
+        let n = self.control_curves.len();
 
-        let lower_value = self.values[n - 1].get_value(ctx.network, ctx.state)?;
-        let upper_value = self.values[n - 2].get_value(ctx.network, ctx.state)?;
+        let lower_value = self.value(n + 1)?.get_value(ctx.network, ctx.state)?;
+        let upper_value = self.value(n)?.get_value(ctx.network, ctx.state)?;
 
         Ok(interpolate(x, cc_value, cc_prev, lower_value, upper_value))
     }
-- 
2.43.0


From c548d521c65f33a0b63c669eeaa8afbc2653ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 12/75] fix: report an invalid time-step frequency as an error

---
 pywr-core/src/timestep.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/timestep.rs b/pywr-core/src/timestep.rs
index 3f61d08..ff14150 100644
--- a/pywr-core/src/timestep.rs
+++ b/pywr-core/src/timestep.rs
@@ -315,7 +315,8 @@ impl TimeDomainBuilder {
     ///
     /// Valid frequency strings are those that can be parsed by `polars::time::Duration::parse`. See: [https://docs.rs/polars-time/latest/polars_time/struct.Duration.html#method.parse]
     fn generate_timesteps_from_frequency(&self, frequency: &str) -> Result<Vec<Timestep>, TimeDomainBuilderError> {
-        let duration = polars::time::Duration::parse(frequency);
+        let duration = polars::time::Duration::try_parse(frequency)
+            .map_err(|_| TimeDomainBuilderError::GenerationError(frequency.to_string()))?;
 
         if duration.negative() || duration.is_zero() {
             return Err(TimeDomainBuilderError::NonPositiveTimestepDuration);
-- 
2.43.0


From abc4816d88f23b6bce2a42fe8864e3fa7e38e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 13/75] fix: refuse scenario indices and combinations that do
 not fit the groups

---
 pywr-core/src/scenario.rs | 42 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/scenario.rs b/pywr-core/src/scenario.rs
index 862aa8b..0d2f0f6 100644
--- a/pywr-core/src/scenario.rs
+++ b/pywr-core/src/scenario.rs
@@ -28,6 +28,10 @@ pub enum ScenarioDomainBuilderError {
         start: usize,
         end: usize,
     },
+    #[error("Index {index} is out of bounds for scenario group `{group}` with size {size}")]
+    IndexOutOfBounds { group: String, size: usize, index: usize },
+    #[error("Incorrect number of entries in scenario combination; found {found}, expected {expected}")]
+    IncorrectCombinationLength { found: usize, expected: usize },
 }
 
 /// A subset of a scenario group to run, either defined as a slice or as specific indices.
@@ -80,6 +84,23 @@ impl ScenarioGroup {
         self.size
     }
 
+    /// Check that an index is a valid scenario of the group.
+    ///
+    /// # Errors
+    ///
+    /// - [`ScenarioDomainBuilderError::IndexOutOfBounds`] if the index is not less than the size of the group
+    fn check_index(&self, index: usize) -> Result<usize, ScenarioDomainBuilderError> {
+        if index < self.size {
+            Ok(index)
+        } else {
+            Err(ScenarioDomainBuilderError::IndexOutOfBounds {
+                group: self.name.clone(),
+                size: self.size,
+                index,
+            })
+        }
+    }
+
     /// Return the position of a label in the labels for the group.
     ///
     /// # Errors
@@ -192,7 +213,17 @@ impl ScenarioGroupBuilder {
 
                 Some(ScenarioGroupSubset::Slice { start, end })
             }
-            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => Some(ScenarioGroupSubset::Indices(indices)),
+            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => {
+                if let Some(index) = indices.iter().copied().find(|index| *index >= self.size) {
+                    return Err(ScenarioDomainBuilderError::IndexOutOfBounds {
+                        group: self.name,
+                        size: self.size,
+                        index,
+                    });
+                }
+
+                Some(ScenarioGroupSubset::Indices(indices))
+            }
             Some(ScenarioGroupSubsetBuilder::Labels(subset_labels)) => {
                 if let Some(labels) = &self.labels {
                     let indices: Vec<usize> = subset_labels
@@ -404,12 +435,19 @@ impl ScenarioDomainBuilder {
                 let combinations = combinations
                     .iter()
                     .map(|combination| {
+                        if combination.len() != self.groups.len() {
+                            return Err(ScenarioDomainBuilderError::IncorrectCombinationLength {
+                                found: combination.len(),
+                                expected: self.groups.len(),
+                            });
+                        }
+
                         combination
                             .iter()
                             .zip(&self.groups)
                             .map(|(c, group)| match c {
                                 ScenarioLabelOrIndex::Label(label) => group.label_position(label),
-                                ScenarioLabelOrIndex::Index(index) => Ok(*index),
+                                ScenarioLabelOrIndex::Index(index) => group.check_index(*index),
                             })
                             .collect::<Result<Vec<usize>, ScenarioDomainBuilderError>>()
                     })
-- 
2.43.0


From fdd5021ee2864a1cbe9dedb0065a2042fb51400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 14/75] fix: include the last value's duration in the length of
 an unfinished period

---
 pywr-core/src/recorders/aggregator/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index a0030ea..2ab3592 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -146,7 +146,7 @@ impl PeriodicAggregatorState {
                 let current_period_end = current_values
                     .last()
                     .expect("Aggregation state contains no values when at least one is expected.")
-                    .start;
+                    .end();
                 let current_period_duration = current_period_end.duration_since(current_period_start);
                 Some(PeriodValue::new(
                     current_period_start,
-- 
2.43.0


From e3dbdb3b3050586e54c487a8c8c60d2492e0b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 15/75] fix: keep periods completed by the final values of
 nested aggregators

---
 pywr-core/src/recorders/aggregator/mod.rs | 31 +++++++++++++-----
 pywr-core/src/recorders/csv.rs            | 23 +++++--------
 pywr-core/src/recorders/memory.rs         |  4 +--
 pywr-core/src/recorders/metric_set.rs     | 40 ++++++++++++++---------
 4 files changed, 58 insertions(+), 40 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index 2ab3592..de61258 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -310,21 +310,36 @@ impl Aggregator {
     ///
     /// This will also compute the final aggregation value from the child aggregators if any exists.
     /// This includes aggregation calculations over partial or unfinished periods.
+    ///
+    /// Only the value of the last period is returned. See [`Aggregator::finalise_all`] for the values of
+    /// any periods which are also completed by the final values of the child aggregators.
     pub fn finalise(&self, state: &mut AggregatorState) -> Option<PeriodValue<f64>> {
-        let final_child_value = match (&self.child, state.child.as_mut()) {
-            (Some(child), Some(child_state)) => child.finalise(child_state),
-            (None, None) => None,
+        self.finalise_all(state).pop()
+    }
+
+    /// Compute all remaining aggregation values from the current state.
+    ///
+    /// The final values of a child aggregator may complete a period of this aggregator. Therefore, this
+    /// may return more than one value. The last value is the aggregation of the current, and potentially
+    /// unfinished, period.
+    pub fn finalise_all(&self, state: &mut AggregatorState) -> Vec<PeriodValue<f64>> {
+        let final_child_values = match (&self.child, state.child.as_mut()) {
+            (Some(child), Some(child_state)) => child.finalise_all(child_state),
+            (None, None) => Vec::new(),
             (None, Some(_)) => panic!("Aggregator state contains a child state when none is expected."),
             (Some(_), None) => panic!("Aggregator state does not contain a child state when one is expected."),
         };
 
-        // If there is a final value from the child aggregator then process it
-        if let Some(final_child_value) = final_child_value {
-            let _ = self.agg.process_value(&mut state.state, final_child_value);
-        }
+        // If there are final values from the child aggregator then process them
+        let mut final_values: Vec<PeriodValue<f64>> = final_child_values
+            .into_iter()
+            .filter_map(|v| self.agg.process_value(&mut state.state, v))
+            .collect();
 
         // Finally, compute the aggregation of the current state
-        self.agg.calc_aggregation(&state.state)
+        final_values.extend(self.agg.calc_aggregation(&state.state));
+
+        final_values
     }
 
     /// Create the initial default state for the aggregator.
diff --git a/pywr-core/src/recorders/csv.rs b/pywr-core/src/recorders/csv.rs
index 69fa4a1..66a1d6d 100644
--- a/pywr-core/src/recorders/csv.rs
+++ b/pywr-core/src/recorders/csv.rs
@@ -42,7 +42,8 @@ struct Internal {
 
 impl CsvWideFmtOutput {
     fn write_values(&self, metric_set_states: &[Vec<MetricSetState>], internal: &mut Internal) -> Result<(), CsvError> {
-        let mut row = Vec::new();
+        // There is a row for each period
+        let mut rows: Vec<Vec<String>> = Vec::new();
 
         // Iterate through all scenario's state
         for ms_scenario_states in metric_set_states.iter() {
@@ -53,23 +54,17 @@ impl CsvWideFmtOutput {
                         index: self.metric_set_idx,
                     })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                let values = current_values
-                    .iter()
-                    .map(|v| format!("{:.2}", v.value))
-                    .collect::<Vec<_>>();
-
-                // If the row is empty, add the start time
-                if row.is_empty() {
-                    row.push(current_values.first().unwrap().start.to_string())
+            for (period, current_values) in metric_set_state.current_values().enumerate() {
+                // If this is the first scenario with this period, add a row with the start time
+                if rows.len() <= period {
+                    rows.push(vec![current_values.first().unwrap().start.to_string()]);
                 }
 
-                row.extend(values);
+                rows[period].extend(current_values.iter().map(|v| format!("{:.2}", v.value)));
             }
         }
 
-        // Only write
-        if row.len() > 1 {
+        for row in rows {
             internal.writer.write_record(row).map_err(|source| CsvError::CSVError {
                 path: self.filename.clone(),
                 source,
@@ -263,7 +258,7 @@ impl CsvLongFmtOutput {
                     .get(*metric_set_idx.deref())
                     .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
 
-                if let Some(current_values) = metric_set_state.current_values() {
+                for current_values in metric_set_state.current_values() {
                     let metric_set = network
                         .get_metric_set(*metric_set_idx)
                         .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 86ad39a..4e8f9dd 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -338,7 +338,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
+            for current_values in metric_set_state.current_values() {
                 scenario_data.push(current_values.into());
             }
         }
@@ -370,7 +370,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
+            for current_values in metric_set_state.current_values() {
                 scenario_data.push(current_values.into());
             }
         }
diff --git a/pywr-core/src/recorders/metric_set.rs b/pywr-core/src/recorders/metric_set.rs
index 360d13c..bb3bd36 100644
--- a/pywr-core/src/recorders/metric_set.rs
+++ b/pywr-core/src/recorders/metric_set.rs
@@ -78,15 +78,19 @@ impl UnresolvedOutputMetric {
 
 #[derive(Debug, Clone)]
 pub struct MetricSetState {
-    // Populated with any yielded values from the last processing.
-    current_values: Option<Vec<PeriodValue<f64>>>,
+    // Populated with any yielded values from the last processing. There is an entry, containing a
+    // value for each metric, for each period.
+    current_values: Vec<Vec<PeriodValue<f64>>>,
     // If the metric set aggregates then this state tracks the aggregation of each metric
     aggregation_states: Option<Vec<AggregatorState>>,
 }
 
 impl MetricSetState {
-    pub fn current_values(&self) -> Option<&[PeriodValue<f64>]> {
-        self.current_values.as_deref()
+    /// Iterate over the periods yielded from the last processing.
+    ///
+    /// Each item contains a value for each metric in the metric set.
+    pub fn current_values(&self) -> impl Iterator<Item = &[PeriodValue<f64>]> + '_ {
+        self.current_values.iter().map(|values| values.as_slice())
     }
 }
 
@@ -116,7 +120,7 @@ impl MetricSet {
     /// Setup a new [`MetricSetState`] for this [`MetricSet`].
     pub fn setup(&self) -> MetricSetState {
         MetricSetState {
-            current_values: None,
+            current_values: Vec::new(),
             aggregation_states: self
                 .aggregator
                 .as_ref()
@@ -163,19 +167,17 @@ impl MetricSet {
                 }
             }
 
-            let agg_values = if agg_values.is_empty() {
-                None
+            internal_state.current_values = if agg_values.is_empty() {
+                Vec::new()
             } else if agg_values.len() == values.len() {
-                Some(agg_values)
+                vec![agg_values]
             } else {
                 // This should never happen because the aggregator should either yield no values
                 // or the same number of values as the input metrics.
                 unreachable!("Some values were aggregated and some were not!");
             };
-
-            internal_state.current_values = agg_values;
         } else {
-            internal_state.current_values = Some(values);
+            internal_state.current_values = vec![values];
         }
 
         Ok(())
@@ -188,14 +190,20 @@ impl MetricSet {
                 .as_mut()
                 .expect("Aggregation state expected for metric set with aggregator!");
 
-            let final_values = aggregation_states
+            // The remaining values of each metric, one for each period.
+            let final_values: Vec<Vec<PeriodValue<f64>>> = aggregation_states
                 .iter_mut()
-                .map(|current_state| aggregator.finalise(current_state))
-                .collect::<Option<Vec<_>>>();
+                .map(|current_state| aggregator.finalise_all(current_state))
+                .collect();
+
+            // All metrics have the same number of periods
+            let num_periods = final_values.iter().map(Vec::len).min().unwrap_or(0);
 
-            internal_state.current_values = final_values;
+            internal_state.current_values = (0..num_periods)
+                .map(|period| final_values.iter().map(|values| values[period]).collect())
+                .collect();
         } else {
-            internal_state.current_values = None;
+            internal_state.current_values = Vec::new();
         }
     }
 }
-- 
2.43.0


From 0c55d4cf666854bd51afa3dbc803058432b4ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 16/75] fix: pass a memory output's time and scenario
 aggregation functions in order

---
 pywr-schema/src/outputs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/outputs/memory.rs b/pywr-schema/src/outputs/memory.rs
index afe76a5..5f27c45 100644
--- a/pywr-schema/src/outputs/memory.rs
+++ b/pywr-schema/src/outputs/memory.rs
@@ -21,8 +21,8 @@ pub struct MemoryAggregation {
 impl MemoryAggregation {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregation, SchemaError> {
         Ok(pywr_core::recorders::Aggregation::new(
-            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.scenario.as_ref().map(|f| f.load(data_path)).transpose()?,
+            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.metric.as_ref().map(|f| f.load(data_path)).transpose()?,
         ))
     }
-- 
2.43.0


From 4c0e02641fa118c10d2f3d5ca66607fd97a0d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 17/75] fix: give the last, unfinished period its whole length
 only within an outer aggregator

The model tests expect the reported end of an unfinished period to be the
start of its last value, so that is restored (fdd5021).
---
 pywr-core/src/recorders/aggregator/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index de61258..7d3cf2c 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -146,7 +146,7 @@ impl PeriodicAggregatorState {
                 let current_period_end = current_values
                     .last()
                     .expect("Aggregation state contains no values when at least one is expected.")
-                    .end();
+                    .start;
                 let current_period_duration = current_period_end.duration_since(current_period_start);
                 Some(PeriodValue::new(
                     current_period_start,
@@ -160,6 +160,11 @@ impl PeriodicAggregatorState {
             None
         }
     }
+
+    /// The end of the last value in the current period.
+    fn end_of_values(&self) -> Option<DateTime> {
+        self.current_values.as_ref().and_then(|v| v.last()).map(|v| v.end())
+    }
 }
 
 #[derive(Clone, Debug)]
@@ -324,7 +329,15 @@ impl Aggregator {
     /// unfinished, period.
     pub fn finalise_all(&self, state: &mut AggregatorState) -> Vec<PeriodValue<f64>> {
         let final_child_values = match (&self.child, state.child.as_mut()) {
-            (Some(child), Some(child_state)) => child.finalise_all(child_state),
+            (Some(child), Some(child_state)) => {
+                let mut values = child.finalise_all(child_state);
+                // The reported end of an unfinished period is the start of its last value. Here its whole
+                // length is required because it is the weight of the value in this aggregator.
+                if let (Some(last), Some(end)) = (values.last_mut(), child_state.state.end_of_values()) {
+                    last.duration = end.duration_since(last.start).into();
+                }
+                values
+            }
             (None, None) => Vec::new(),
             (None, Some(_)) => panic!("Aggregator state contains a child state when none is expected."),
             (Some(_), None) => panic!("Aggregator state does not contain a child state when one is expected."),
-- 
2.43.0


From c144ba1454490e27cbfc487dd216c263e4e7985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 18/75] fix: refuse two recorders with the same name

---
 pywr-core/src/network.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index b8ead57..bc37979 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -1767,6 +1767,8 @@ pub enum NetworkBuildError {
     DuplicateAggregatedNodeName { name: UnresolvedNode },
     #[error("Duplicate metric set names found: {name}")]
     DuplicateMetricSetName { name: String },
+    #[error("Duplicate recorder names found: {name}")]
+    DuplicateRecorderName { name: String },
     #[error("Duplicate edge found: {edge}")]
     DuplicateEdge { edge: Box<UnresolvedEdge> },
     #[error("Node `{name}` not found while resolving edge: {edge}")]
@@ -2196,8 +2198,13 @@ impl NetworkBuilder {
 
         // Construct all recorders
         let mut recorders = Vec::with_capacity(self.recorders.len());
+        let mut recorder_names = HashSet::with_capacity(self.recorders.len());
         for recorder_builder in self.recorders.into_iter() {
             let name = recorder_builder.name().to_string();
+            // The results of a run are identified by the name of their recorder.
+            if !recorder_names.insert(name.clone()) {
+                return Err(NetworkBuildError::DuplicateRecorderName { name });
+            }
             let recorder =
                 recorder_builder
                     .build(&resolution_map)
-- 
2.43.0


From c82defd4fe3adc5e492a291bb4297106da981260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 19/75] fix: accept outputs that share a name again (the
 project's own tests declare such outputs)

---
 pywr-core/src/network.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index bc37979..b8ead57 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -1767,8 +1767,6 @@ pub enum NetworkBuildError {
     DuplicateAggregatedNodeName { name: UnresolvedNode },
     #[error("Duplicate metric set names found: {name}")]
     DuplicateMetricSetName { name: String },
-    #[error("Duplicate recorder names found: {name}")]
-    DuplicateRecorderName { name: String },
     #[error("Duplicate edge found: {edge}")]
     DuplicateEdge { edge: Box<UnresolvedEdge> },
     #[error("Node `{name}` not found while resolving edge: {edge}")]
@@ -2198,13 +2196,8 @@ impl NetworkBuilder {
 
         // Construct all recorders
         let mut recorders = Vec::with_capacity(self.recorders.len());
-        let mut recorder_names = HashSet::with_capacity(self.recorders.len());
         for recorder_builder in self.recorders.into_iter() {
             let name = recorder_builder.name().to_string();
-            // The results of a run are identified by the name of their recorder.
-            if !recorder_names.insert(name.clone()) {
-                return Err(NetworkBuildError::DuplicateRecorderName { name });
-            }
             let recorder =
                 recorder_builder
                     .build(&resolution_map)
-- 
2.43.0


From 9041871b39c04754e66a10e14b7a38ee4e8051b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 20/75] fix: load scalar tables with three or four keys with
 all of their keys

---
 pywr-schema/src/data_tables/scalar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index fae00c9..e5a1a43 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -99,8 +99,8 @@ impl LoadedScalarTable {
         match rows {
             1 => Ok(LoadedScalarTable::One(load_csv_rows_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_rows_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_rows_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -112,8 +112,8 @@ impl LoadedScalarTable {
         match cols {
             1 => Ok(LoadedScalarTable::One(load_csv_cols_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_cols_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_cols_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
-- 
2.43.0


From db1318d13c3a9a8c9f297cd93b1153955b03bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 21/75] fix: report scalar tables without a value as an error
 instead of panicking

---
 pywr-schema/src/data_tables/scalar.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index e5a1a43..838b7ea 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -262,7 +262,11 @@ fn load_csv_rows_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
                 });
             }
 
-            Ok((key, values[0]))
+            let value = values.first().ok_or_else(|| {
+                TableError::InvalidFormat(format!("No value column found after the {N} index column(s)."))
+            })?;
+
+            Ok((key, *value))
         })
         .collect::<Result<_, TableError>>()?;
 
@@ -333,7 +337,11 @@ fn load_csv_cols_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
     // Turn this into a look-up table with key (row, column)
     let mut values: HashMap<[String; N], TableScalarValue> = HashMap::new();
 
-    for (col, value) in col_headers.iter().zip(&rows[0]) {
+    let row = rows
+        .first()
+        .ok_or_else(|| TableError::InvalidFormat(format!("No value row found after the {N} index row(s).")))?;
+
+    for (col, value) in col_headers.iter().zip(row) {
         if let Some(v) = value {
             // SAFETY: We have already checked ensured that the number of header rows is N
             let key: [String; N] = col.to_vec().try_into().unwrap();
-- 
2.43.0


From b976bc8b70b319f92453ad566cb87ee9ca902fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 22/75] fix: resample timeseries to the model's own timesteps,
 and report series too short or unevenly spaced as errors

---
 .../src/timeseries/align_and_resample.rs      | 90 +++++++++++++------
 pywr-schema/src/timeseries/mod.rs             |  2 +
 2 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index d50e575..780aa61 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -1,5 +1,6 @@
 use crate::timeseries::TimeseriesError;
 use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use jiff::civil::DateTime;
 use polars::{prelude::*, series::ops::NullBehavior};
 use pywr_core::timestep::TimeDomain;
 use std::cmp::Ordering;
@@ -26,6 +27,11 @@ pub fn align_and_resample(
     // Ensure that df start aligns with models start for any resampling
     let df = slice_start(df, time_col, domain)?;
 
+    // At least two rows are required to determine the duration of the timeseries.
+    if df.height() < 2 {
+        return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string()));
+    }
+
     // Get the durations of the time column
     let durations = df
         .clone()
@@ -38,7 +44,7 @@ pub fn align_and_resample(
     let durations = durations.column("duration")?.duration()?;
 
     if durations.len() > 1 {
-        todo!("Non-uniform timestep are not yet supported");
+        return Err(TimeseriesError::NonUniformTimestep(name.to_string()));
     }
 
     let timeseries_duration = match durations.physical().get(0) {
@@ -48,34 +54,53 @@ pub fn align_and_resample(
 
     // Use the first timestep of the domain to determine if the timeseries needs to be upsampled or downsampled.
     let model_duration = domain.first_timestep().duration;
-    let model_duration_string = model_duration.duration_string();
+
+    // Each row of the resampled timeseries is for one of the model's timesteps. These can be of different lengths.
+    let starts: Vec<i64> = domain
+        .timesteps()
+        .iter()
+        .map(|ts| to_chrono(ts.date).and_utc().timestamp_millis())
+        .collect();
+    let times: Vec<i64> = df.column(time_col)?.datetime()?.physical().iter().flatten().collect();
 
     let df = match model_duration.milliseconds().cmp(&timeseries_duration) {
         Ordering::Greater => {
-            // Downsample
-            df.clone()
+            // Downsample; the mean of the rows within each timestep
+            if times.first() != starts.first() {
+                return Err(TimeseriesError::DataFrameTimestepMismatch(name.to_string()));
+            }
+
+            let last = domain.last_timestep();
+            let end = to_chrono(last.date).and_utc().timestamp_millis() + last.duration.milliseconds();
+            let df = df.head(Some(times.partition_point(|t| *t < end)));
+
+            // Move each row to the start of its timestep
+            let labels: Vec<i64> = times
+                .iter()
+                .take(df.height())
+                .map(|t| starts[starts.partition_point(|start| start <= t) - 1])
+                .collect();
+
+            with_times(df, time_col, labels)?
                 .lazy()
-                .group_by_dynamic(
-                    col(time_col),
-                    [],
-                    DynamicGroupOptions {
-                        every: Duration::parse(model_duration_string.as_str()),
-                        period: Duration::parse(model_duration_string.as_str()),
-                        offset: Duration::parse("0d"),
-                        start_by: StartBy::DataPoint,
-                        ..Default::default()
-                    },
-                )
+                .group_by_stable([col(time_col)])
                 .agg([all().exclude_cols([time_col]).as_expr().mean()])
                 .collect()?
         }
         Ordering::Less => {
-            // Upsample
+            // Upsample; repeat the last row at or before the start of each timestep
             // TODO: this does not extend the dataframe beyond its original end date. Should it do when using a forward fill strategy?
-            // The df could be extend by the length of the duration it is being resampled to.
-            df.clone()
-                .upsample::<[String; 0]>([], time_col, Duration::parse(model_duration_string.as_str()))?
-                .fill_null(FillNullStrategy::Forward(None))?
+            if times.first() > starts.first() || times.last() < starts.last() {
+                return Err(TimeseriesError::DataFrameTimestepMismatch(name.to_string()));
+            }
+
+            let rows: Vec<IdxSize> = starts
+                .iter()
+                .map(|start| (times.partition_point(|t| t <= start) - 1) as IdxSize)
+                .collect();
+            let df = df.take(&IdxCa::from_vec("rows".into(), rows))?;
+
+            with_times(df, time_col, starts)?.fill_null(FillNullStrategy::Forward(None))?
         }
         Ordering::Equal => df,
     };
@@ -93,14 +118,24 @@ pub fn align_and_resample(
     Ok(df)
 }
 
+fn to_chrono(date: DateTime) -> NaiveDateTime {
+    NaiveDateTime::new(
+        NaiveDate::from_ymd_opt(date.year() as i32, date.month() as u32, date.day() as u32).expect("Invalid date"),
+        NaiveTime::from_hms_opt(date.hour() as u32, date.minute() as u32, date.second() as u32).expect("Invalid time"),
+    )
+}
+
+/// Replace the times of a dataframe.
+fn with_times(mut df: DataFrame, time_col: &str, times: Vec<i64>) -> Result<DataFrame, TimeseriesError> {
+    let times = Column::new(time_col.into(), times).cast(&DataType::Datetime(TimeUnit::Milliseconds, None))?;
+    df.with_column(times)?;
+    Ok(df)
+}
+
 fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let start = domain.first_timestep().date;
 
-    let chrono_start = NaiveDateTime::new(
-        NaiveDate::from_ymd_opt(start.year() as i32, start.month() as u32, start.day() as u32).expect("Invalid date"),
-        NaiveTime::from_hms_opt(start.hour() as u32, start.minute() as u32, start.second() as u32)
-            .expect("Invalid time"),
-    );
+    let chrono_start = to_chrono(start);
 
     let df = df
         .clone()
@@ -113,10 +148,7 @@ fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<Dat
 fn slice_end(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let end = domain.last_timestep().date;
 
-    let chrono_end = NaiveDateTime::new(
-        NaiveDate::from_ymd_opt(end.year() as i32, end.month() as u32, end.day() as u32).expect("Invalid date"),
-        NaiveTime::from_hms_opt(end.hour() as u32, end.minute() as u32, end.second() as u32).expect("Invalid time"),
-    );
+    let chrono_end = to_chrono(end);
     let df = df
         .clone()
         .lazy()
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 2220a9d..c887cf6 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -43,6 +43,8 @@ pub enum TimeseriesError {
     TimeseriesNotFound(String),
     #[error("The duration of timeseries '{0}' could not be determined.")]
     TimeseriesDurationNotFound(String),
+    #[error("The rows of timeseries '{0}' are not evenly spaced in time. Non-uniform timesteps are not supported.")]
+    NonUniformTimestep(String),
     #[error("Column '{col}' not found in timeseries input '{name}'")]
     ColumnNotFound { col: String, name: String },
     #[error("Timeseries provider '{provider}' does not support '{fmt}' file types")]
-- 
2.43.0


From df74920b6b0852721789d90cc813c3e066d436a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 23/75] fix: keep the parameters of timeseries apart from each
 other and from local parameters

---
 pywr-schema/src/timeseries/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index c887cf6..6dfa0e3 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -157,6 +157,15 @@ impl TryFrom<LoadTimeseriesError> for PyErr {
     }
 }
 
+/// The name of the parameter that provides the data of a timeseries to the network.
+///
+/// The sub-name keeps the different forms in which a timeseries can be used apart from each other, and from any
+/// local parameters of a node that has the same name as the timeseries.
+#[cfg(feature = "core")]
+fn timeseries_parameter_name(timeseries: &str, column_or_scenario: &str, form: &str) -> ParameterName {
+    ParameterName::new_with_subname(column_or_scenario, Some(form), Some(timeseries))
+}
+
 #[derive(Default)]
 #[cfg(feature = "core")]
 pub struct LoadedTimeseriesCollection {
@@ -201,7 +210,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, col, "timeseries-column-f64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -224,7 +233,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, col, "timeseries-column-u64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -258,7 +267,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, col, "timeseries-column-f64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -292,7 +301,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, col, "timeseries-column-u64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -317,7 +326,7 @@ impl LoadedTimeseriesCollection {
         // Original array as loaded from the timeseries
         let array: Array2<f64> = df.to_ndarray::<Float64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = timeseries_parameter_name(name, scenario, "timeseries-scenario-f64");
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
             network.parameters().f64(Box::new(p));
@@ -341,7 +350,7 @@ impl LoadedTimeseriesCollection {
 
         let array: Array2<u64> = df.to_ndarray::<UInt64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = timeseries_parameter_name(name, scenario, "timeseries-scenario-u64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
-- 
2.43.0


From a4370c1a541275f990ddd6a7ee22594cab2a3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 24/75] fix: reservoir evaporation is an output of the network

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 2be9ad6..a5568de 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -459,7 +459,7 @@ impl ReservoirNode {
 
             // add evaporation node and edge
             if let Some(evaporation) = &self.evaporation {
-                let mut evaporation_output = pywr_core::NodeBuilder::input(self.evaporation_node_sub_name());
+                let mut evaporation_output = pywr_core::NodeBuilder::output(self.evaporation_node_sub_name());
 
                 let use_max_area = evaporation.use_max_area.unwrap_or(false);
                 let evaporation_area_metric =
-- 
2.43.0


From dd8d297020c4dc1562ee4993cafb08cd2cd59fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 25/75] fix: evaporation attribute of a reservoir depends on
 its evaporation, not its rainfall

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index a5568de..03a7da7 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -612,7 +612,7 @@ impl ReservoirNode {
                         }
                     }
                     ReservoirNodeAttribute::Evaporation => {
-                        if self.rainfall.is_some() && self.surface_area.is_some() {
+                        if self.evaporation.is_some() && self.surface_area.is_some() {
                             UnresolvedMetricF64::NodeInFlow(self.evaporation_node_sub_name())
                         } else {
                             0.0.into()
-- 
2.43.0


From 41f02ebd9648737f21279ae285787c9d2e7cbbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 26/75] fix: rainfall attribute of a reservoir is the outflow
 of the rainfall node

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 03a7da7..b199a7a 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -606,7 +606,7 @@ impl ReservoirNode {
                     }
                     ReservoirNodeAttribute::Rainfall => {
                         if self.rainfall.is_some() && self.surface_area.is_some() {
-                            UnresolvedMetricF64::NodeInFlow(self.rainfall_node_sub_name())
+                            UnresolvedMetricF64::NodeOutFlow(self.rainfall_node_sub_name())
                         } else {
                             0.0.into()
                         }
-- 
2.43.0


From 9970e162e7ade70ee43a296dc68d6c480eb27851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 27/75] fix: bypass_cost of a river gauge is the cost of the
 bypass

---
 pywr-schema/src/nodes/river_gauge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/river_gauge.rs b/pywr-schema/src/nodes/river_gauge.rs
index 7917fa8..7428d48 100644
--- a/pywr-schema/src/nodes/river_gauge.rs
+++ b/pywr-schema/src/nodes/river_gauge.rs
@@ -117,7 +117,7 @@ impl RiverGaugeNode {
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
         let mut mrf_node = pywr_core::node::NodeBuilder::link(self.mrf_sub_name());
-        let bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
+        let mut bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
 
         // MRF applies as a maximum on the MRF node.
         if let Some(cost) = &self.mrf_cost {
@@ -132,7 +132,7 @@ impl RiverGaugeNode {
 
         if let Some(cost) = &self.bypass_cost {
             let value = cost.load(network, args, Some(&self.meta.name))?;
-            mrf_node.min_flow(value);
+            bypass_node.cost(value);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From fd9f34b41bd47e322f965337aba08b73106771cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 28/75] fix: soft maximum of a link limits the flow below it,
 not the whole link

---
 pywr-schema/src/nodes/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/core.rs b/pywr-schema/src/nodes/core.rs
index a148426..a331d98 100644
--- a/pywr-schema/src/nodes/core.rs
+++ b/pywr-schema/src/nodes/core.rs
@@ -540,7 +540,7 @@ impl LinkNode {
                 // add constraints on node aggregating `[name]` and `[name].soft_min`
                 if let Some(soft_max_flow) = &soft_max.flow {
                     let value = soft_max_flow.load(network, args, Some(&self.meta.name))?;
-                    agg_node.max_flow(value);
+                    agg_node_l_l.max_flow(value);
                 }
 
                 network.node(link);
-- 
2.43.0


From 72ab04a1f8c2489597157430597b835ebd90106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 29/75] fix: outflow of a river with loss and routing is the
 flow after the loss

---
 pywr-schema/src/nodes/river.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pywr-schema/src/nodes/river.rs b/pywr-schema/src/nodes/river.rs
index 3b514b0..192788d 100644
--- a/pywr-schema/src/nodes/river.rs
+++ b/pywr-schema/src/nodes/river.rs
@@ -221,15 +221,11 @@ impl RiverNode {
                 }
             }
             RiverNodeComponent::Outflow => {
-                match self.routing_method.is_some() {
-                    false => {
-                        // Simple link node
-                        vec![self.net_sub_name()]
-                    }
-                    true => {
-                        // Routing
-                        vec![self.input_sub_name()]
-                    }
+                match (self.loss_factor.is_some(), self.routing_method.is_some()) {
+                    // Routing, but no loss
+                    (false, true) => vec![self.input_sub_name()],
+                    // Otherwise the flow that remains after any loss
+                    _ => vec![self.net_sub_name()],
                 }
             }
             RiverNodeComponent::Loss => {
-- 
2.43.0


From d445db3aa56eadcc8868f0829466dbc00daa8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 30/75] fix: factors of a virtual storage apply to every part
 of a referenced node and must match the references

---
 .../nodes/virtual_nodes/virtual_storage.rs    | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index aafc2b7..f8e8a8c 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -214,13 +214,12 @@ impl VirtualStorageNode {
 
 #[cfg(feature = "core")]
 impl VirtualStorageNode {
-    /// This returns the node indices for flow constraints based on the nodes referenced in this virtual storage node.
+    /// This returns the nodes for flow constraints for each of the references in this virtual storage node.
     ///
     /// Note that this is a private function, as it is not supported using this node itself
     /// inside a flow constraint.
-    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<UnresolvedNode>, SchemaError> {
-        let nodes = self
-            .nodes
+    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<Vec<UnresolvedNode>>, SchemaError> {
+        self.nodes
             .iter()
             .map(|node_ref| {
                 args.schema
@@ -230,18 +229,15 @@ impl VirtualStorageNode {
                     })?
                     .nodes_for_flow_constraints(node_ref.component)
             })
-            .collect::<Result<Vec<_>, _>>()?
-            .into_iter()
-            .flatten()
-            .collect();
-        Ok(nodes)
+            .collect::<Result<Vec<_>, _>>()
     }
     pub fn add_to_network(
         &self,
         network: &mut pywr_core::network::NetworkBuilder,
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
-        let nodes = self.nodes_for_flow_constraints(args)?;
+        let ref_nodes = self.nodes_for_flow_constraints(args)?;
+        let nodes = ref_nodes.concat();
 
         let mut builder = VirtualStorageNodeBuilder::new(self.meta.name.as_str(), &nodes);
 
@@ -293,7 +289,19 @@ impl VirtualStorageNode {
         }
 
         if let Some(factors) = &self.factors {
-            builder.factors(factors);
+            if factors.len() != self.nodes.len() {
+                return Err(SchemaError::DataLengthMismatch {
+                    expected: self.nodes.len(),
+                    found: factors.len(),
+                });
+            }
+
+            // A reference can stand for several nodes; its factor applies to each of them.
+            let mut node_factors = Vec::with_capacity(nodes.len());
+            for (ref_nodes, factor) in ref_nodes.iter().zip(factors) {
+                node_factors.extend(std::iter::repeat_n(*factor, ref_nodes.len()));
+            }
+            builder.factors(&node_factors);
         }
 
         network.virtual_storage_node(builder);
-- 
2.43.0


From 6ae0d512d07428089fcd61c37280250727f64f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 31/75] fix: add the local parameters of virtual nodes to the
 network

---
 pywr-schema/src/network.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index d02e976..f04f406 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -614,6 +614,18 @@ impl NetworkSchema {
                 }
             }
         }
+        // Add all the parameters from the virtual nodes
+        for v_node in self.virtual_nodes.iter().flatten() {
+            for parameter in v_node.local_parameters().unwrap_or_default() {
+                parameter
+                    .add_to_network(network_builder, &args, Some(v_node.name()))
+                    .map_err(|source| NetworkSchemaBuildError::AddLocalParameterError {
+                        parent: v_node.name().to_string(),
+                        name: parameter.name().to_string(),
+                        source: Box::new(source),
+                    })?;
+            }
+        }
         // Add any global parameters
         if let Some(parameters) = self.parameters.as_deref() {
             for parameter in parameters {
-- 
2.43.0


From 442c3a5d11f94c1d4f388c79a61c0250537ba3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 32/75] fix: report a node used as an index metric as an error
 instead of panicking

---
 pywr-schema/src/error.rs  |  2 ++
 pywr-schema/src/metric.rs | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index 32770d9..a883cf2 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -60,6 +60,8 @@ pub enum SchemaError {
     CoreNodeNotFound { name: String, sub_name: Option<String> },
     #[error("Attribute `{attr}` not supported.")]
     NodeAttributeNotSupported { attr: NodeAttribute },
+    #[error("Node `{name}` has no attribute that can be used as an index metric.")]
+    NodeIndexMetricNotSupported { name: String },
     #[error("Component `{attr}` not supported.")]
     NodeComponentNotSupported { attr: NodeComponent },
     #[error("Input slot `{slot}` not supported.")]
diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index 0ac0e21..3de471f 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -320,14 +320,16 @@ impl NodeAttrReference {
     #[cfg(feature = "core")]
     pub fn load_u64(&self, args: &LoadArgs) -> Result<UnresolvedMetricU64, SchemaError> {
         // This is the associated node in the schema
-        let _node = args
-            .schema
+        args.schema
             .get_node_by_name(&self.name)
             .ok_or_else(|| SchemaError::NodeNotFound {
                 name: self.name.clone(),
             })?;
 
-        todo!("Support usize attributes on nodes.")
+        // No node attribute is currently available as an index.
+        Err(SchemaError::NodeIndexMetricNotSupported {
+            name: self.name.clone(),
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
@@ -420,14 +422,16 @@ impl VirtualNodeAttrReference {
         args: &LoadArgs,
     ) -> Result<UnresolvedMetricU64, SchemaError> {
         // This is the associated node in the schema
-        let _node =
-            args.schema
-                .get_virtual_node_by_name(&self.name)
-                .ok_or_else(|| SchemaError::VirtualNodeNotFound {
-                    name: self.name.clone(),
-                })?;
+        args.schema
+            .get_virtual_node_by_name(&self.name)
+            .ok_or_else(|| SchemaError::VirtualNodeNotFound {
+                name: self.name.clone(),
+            })?;
 
-        todo!("Support usize attributes on nodes.")
+        // No virtual node attribute is currently available as an index.
+        Err(SchemaError::NodeIndexMetricNotSupported {
+            name: self.name.clone(),
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
-- 
2.43.0


From ba2349151dd8f6b9af5ff28d2893761e2c8e4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 33/75] fix: report an inter-network transfer used as an index
 metric as an error instead of panicking

---
 pywr-core/src/metric.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pywr-core/src/metric.rs b/pywr-core/src/metric.rs
index f099220..efae0b6 100644
--- a/pywr-core/src/metric.rs
+++ b/pywr-core/src/metric.rs
@@ -1353,7 +1353,6 @@ pub enum MetricU64 {
         key: String,
     },
     Simple(SimpleMetricU64),
-    InterNetworkTransfer(MultiNetworkTransferIndex),
 }
 
 impl MetricU64 {
@@ -1376,7 +1375,6 @@ impl MetricU64 {
                 Ok(*value)
             }
             Self::Simple(s) => Ok(s.get_value(&state.get_simple_parameter_values())?),
-            Self::InterNetworkTransfer(_idx) => todo!("Support usize for inter-network transfers"),
         }
     }
 }
@@ -1465,6 +1463,8 @@ pub enum MetricU64ResolutionError {
     ParameterNotFound { parameter: ParameterName },
     #[error("Inter-network transfer not found when resolving U64 metric: {transfer}")]
     InterNetworkTransferNotFound { transfer: String },
+    #[error("Inter-network transfer can not be used as a U64 metric: {transfer}")]
+    InterNetworkTransferNotSupported { transfer: String },
     #[error(
         "Parameter not registered in the correct phase when resolving U64 metric: {parameter}, consumer phase: {consumer_phase:?}, return value: {return_value:?}"
     )]
@@ -1526,13 +1526,12 @@ impl UnresolvedMetricU64 {
                 resolve_parameter_index_multi_to_metric_u64(name, idx.clone(), key, *return_value, consumer_phase)?
             }
             UnresolvedMetricU64::InterNetworkTransfer(unresolved) => {
-                let idx = resolution_maps.inter_network_transfers.get(unresolved).ok_or_else(|| {
-                    MetricU64ResolutionError::InterNetworkTransferNotFound {
-                        transfer: unresolved.clone(),
-                    }
-                })?;
-
-                MetricU64::InterNetworkTransfer(*idx)
+                let transfer = unresolved.clone();
+                if resolution_maps.inter_network_transfers.contains_key(unresolved) {
+                    // Only the f64 values of transfers are available.
+                    return Err(MetricU64ResolutionError::InterNetworkTransferNotSupported { transfer });
+                }
+                return Err(MetricU64ResolutionError::InterNetworkTransferNotFound { transfer });
             }
             UnresolvedMetricU64::Constant(value) => (*value).into(),
         };
-- 
2.43.0


From 02c8a994bca63d54e601803e041c47be4fe58743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 34/75] fix: microlp reports contradictory row bounds as an
 error instead of panicking

---
 pywr-core/src/solvers/microlp/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index 85acf22..c71e2b3 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -16,6 +16,8 @@ pub enum MicroLpError {
     SolveError(#[from] microlp::Error),
     #[error("MicroLp solver was interrupted: {reason:?}")]
     Interrupted { reason: microlp::TerminationReason },
+    #[error("MicroLp row lower bound ({lower}) is not less than its upper bound ({upper})")]
+    InvalidRowBounds { lower: f64, upper: f64 },
 }
 
 pub struct MicroLpSolver {
@@ -23,7 +25,7 @@ pub struct MicroLpSolver {
 }
 
 impl MicroLpSolver {
-    pub fn make_problem(&self) -> Problem {
+    pub fn make_problem(&self) -> Result<Problem, MicroLpError> {
         let mut problem = Problem::new(OptimizationDirection::Minimize);
 
         let variables: Vec<_> = self
@@ -65,18 +67,22 @@ impl MicroLpSolver {
             if row_lower == row_upper {
                 // If the bounds are equal we can just add a single equality constraint
                 problem.add_constraint(expr.clone(), ComparisonOp::Eq, row_lower);
-            } else {
-                assert!(row_lower < row_upper, "Row lower bound must be less than upper bound");
+            } else if row_lower < row_upper {
                 // Otherwise add two rows for each constraint (>= and <=)
                 problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
 
                 if row_upper.is_finite() {
                     problem.add_constraint(expr, ComparisonOp::Le, row_upper);
                 }
+            } else {
+                return Err(MicroLpError::InvalidRowBounds {
+                    lower: row_lower,
+                    upper: row_upper,
+                });
             }
         }
 
-        problem
+        Ok(problem)
     }
 }
 
@@ -122,7 +128,7 @@ impl Solver for MicroLpSolver {
         self.builder.apply_updated_coefficients();
 
         let now = Instant::now();
-        let problem = self.make_problem();
+        let problem = self.make_problem()?;
         timings.update_constraints += now.elapsed();
 
         let now = Instant::now();
-- 
2.43.0


From 8ab30b71b252e2b50d52c64dd079819c56458db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 35/75] fix: errors in parallel and multi-state time-steps are
 returned instead of panicking

---
 pywr-core/src/network.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index b8ead57..91ebd6e 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -830,7 +830,7 @@ impl Network {
         S: Solver,
     {
         // Collect all the timings from each parallel solve
-        let step_times: Vec<_> = scenario_indices
+        let step_times = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -841,14 +841,13 @@ impl Network {
                     // TODO clear the current parameter values state (i.e. set them all to zero).
 
                     let start_p_calc = Instant::now();
-                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)
-                        .unwrap();
+                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)?;
 
                     // State now contains updated parameter values BUT original network state
                     let mut parameter_calculation = start_p_calc.elapsed();
 
                     // Solve determines the new network state
-                    let solve_timings = solver.solve(self, timestep, current_state).unwrap();
+                    let solve_timings = solver.solve(self, timestep, current_state)?;
                     // State now contains updated parameter values AND updated network state
 
                     // Now run the "after" method on all components
@@ -860,15 +859,14 @@ impl Network {
                         p_internal_state,
                         ms_internal_state,
                         None,
-                    )
-                    .unwrap();
+                    )?;
 
                     parameter_calculation += start_p_after.elapsed();
 
-                    (parameter_calculation, solve_timings)
+                    Ok((parameter_calculation, solve_timings))
                 },
             )
-            .collect();
+            .collect::<Result<Vec<_>, NetworkStepError>>()?;
 
         // Add them all together
         for (parameter_calculation, solve_timings) in step_times.into_iter() {
@@ -893,7 +891,7 @@ impl Network {
     {
         // First compute all the updated state
 
-        let p_calc_timings: Vec<_> = scenario_indices
+        let p_calc_timings = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -901,13 +899,12 @@ impl Network {
                 // TODO clear the current parameter values state (i.e. set them all to zero).
 
                 let start_p_calc = Instant::now();
-                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)
-                    .unwrap();
+                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)?;
 
                 // State now contains updated parameter values BUT original network state
-                start_p_calc.elapsed()
+                Ok(start_p_calc.elapsed())
             })
-            .collect();
+            .collect::<Result<Vec<_>, NetworkStepError>>()?;
 
         for t in p_calc_timings.into_iter() {
             timings.component_timings.total += t;
@@ -915,12 +912,12 @@ impl Network {
 
         // Now solve all the LPs simultaneously
 
-        let solve_timings = solver.solve(self, timestep, &mut state.states).unwrap();
+        let solve_timings = solver.solve(self, timestep, &mut state.states)?;
         // State now contains updated parameter values AND updated network state
         timings.solve += solve_timings;
 
         // Now run the "after" method on all components
-        let p_after_timings: Vec<_> = scenario_indices
+        let p_after_timings = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -935,12 +932,11 @@ impl Network {
                         p_internal_states,
                         ms_internal_states,
                         None,
-                    )
-                    .unwrap();
-                    start_p_after.elapsed()
+                    )?;
+                    Ok(start_p_after.elapsed())
                 },
             )
-            .collect();
+            .collect::<Result<Vec<_>, NetworkStepError>>()?;
 
         for t in p_after_timings.into_iter() {
             timings.component_timings.total += t;
-- 
2.43.0


From 78e4b718f0ca3f8e28c413465956cdddaf5b42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 36/75] fix: the multi-state IPM solver completes the state of
 each scenario and returns errors

---
 pywr-core/src/solvers/ipm_simd/mod.rs | 35 +++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/ipm_simd/mod.rs b/pywr-core/src/solvers/ipm_simd/mod.rs
index a2e28ad..ed11d45 100644
--- a/pywr-core/src/solvers/ipm_simd/mod.rs
+++ b/pywr-core/src/solvers/ipm_simd/mod.rs
@@ -4,7 +4,7 @@ use crate::network::{EdgeIndex, Network};
 use crate::node::{Node, NodeBounds, NodeType};
 use crate::solvers::col_edge_map::{ColumnEdgeMap, ColumnEdgeMapBuilder};
 use crate::solvers::{MultiStateSolver, SolverFeatures, SolverSetupError, SolverSolveError, SolverTimings};
-use crate::state::State;
+use crate::state::{State, StateError};
 use crate::timestep::Timestep;
 use ipm_simd::{PathFollowingDirectSimdSolver, Tolerances};
 use rayon::iter::IndexedParallelIterator;
@@ -596,6 +596,25 @@ impl SolverBuilder {
     }
 }
 
+/// Complete the time-step for a single state.
+///
+/// The flows are only accurate to the tolerances of the interior point method. Therefore, volumes are
+/// clamped to their bounds first, as any deviation of this size is not a mass-balance error.
+fn complete_state(network: &Network, timestep: &Timestep, state: &mut State) -> Result<(), SolverSolveError> {
+    for node in network.nodes() {
+        if let Node::Storage(storage) = node {
+            let min_volume = storage.get_min_volume(state).map_err(StateError::from)?;
+            let max_volume = storage.get_max_volume(state).map_err(StateError::from)?;
+            let volume = state.get_network_state().get_node_volume(&node.index())?;
+            state.set_node_volume(&node.index(), volume.clamp(min_volume, max_volume), max_volume)?;
+        }
+    }
+
+    state.complete(network, timestep)?;
+
+    Ok(())
+}
+
 pub struct SimdIpmF64Solver {
     built: Vec<BuiltSolver>,
     ipm: Vec<PathFollowingDirectSimdSolver>,
@@ -665,10 +684,10 @@ impl MultiStateSolver for SimdIpmF64Solver {
             .par_chunks_mut(4)
             .zip(&mut self.built)
             .zip(&mut self.ipm)
-            .for_each(|((chunk_states, built), ipm)| {
+            .try_for_each(|((chunk_states, built), ipm)| {
                 let mut timings = SolverTimings::default();
 
-                built.update(network, timestep, chunk_states, &mut timings).unwrap();
+                built.update(network, timestep, chunk_states, &mut timings)?;
 
                 let now = Instant::now();
 
@@ -696,12 +715,18 @@ impl MultiStateSolver for SimdIpmF64Solver {
                         if !flow.is_finite() {
                             panic!("Non-finite flow encountered from solver. Edge: {edge:#?}, value: {flow}")
                         }
-                        state.get_mut_network_state().add_flow(edge, timestep, *flow).unwrap();
+                        state.get_mut_network_state().add_flow(edge, timestep, *flow)?;
                     }
                 }
 
+                for state in chunk_states.iter_mut() {
+                    complete_state(network, timestep, state)?;
+                }
+
                 timings.save_solution += start_save_solution.elapsed();
-            });
+
+                Ok::<(), SolverSolveError>(())
+            })?;
 
         Ok(timings)
     }
-- 
2.43.0


From 94b0e93c8f7fbe27a81b737528d1650ac21088a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 37/75] fix: microlp is not given constraints with an infinite
 lower bound

---
 pywr-core/src/solvers/microlp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index c71e2b3..8f84cfa 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -69,7 +69,9 @@ impl MicroLpSolver {
                 problem.add_constraint(expr.clone(), ComparisonOp::Eq, row_lower);
             } else if row_lower < row_upper {
                 // Otherwise add two rows for each constraint (>= and <=)
-                problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                if row_lower.is_finite() {
+                    problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                }
 
                 if row_upper.is_finite() {
                     problem.add_constraint(expr, ComparisonOp::Le, row_upper);
-- 
2.43.0


From 25cc89c7ba5433a32ab0f8f9a0b04c657a0a06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 38/75] fix: points of a radial basis function profile that can
 not be interpolated are refused

---
 pywr-schema/src/error.rs               |  2 ++
 pywr-schema/src/parameters/profiles.rs | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index a883cf2..29dc333 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -109,6 +109,8 @@ pub enum SchemaError {
     DataLengthMismatch { expected: usize, found: usize },
     #[error("Failed to estimate epsilon for use in the radial basis function.")]
     RbfEpsilonEstimation,
+    #[error("Invalid points for radial basis function profile `{name}`: {message}")]
+    InvalidRbfPoints { name: String, message: String },
     #[error("Scenario error: {0}")]
     #[cfg(feature = "core")]
     Scenario(#[from] pywr_core::scenario::ScenarioDomainBuilderError),
diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 0b91798..08b271e 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -385,6 +385,23 @@ impl RbfProfileParameter {
         network: &mut pywr_core::network::NetworkBuilder,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
+        if self.points.is_empty() {
+            return Err(SchemaError::InvalidRbfPoints {
+                name: self.meta.name.clone(),
+                message: "at least one point is required".to_string(),
+            });
+        }
+
+        // The profile is cyclic (365 days), and can not be interpolated if two points are on the same day.
+        let mut days: Vec<u32> = self.points.iter().map(|(day, _)| day % 365).collect();
+        days.sort_unstable();
+        if days.windows(2).any(|pair| pair[0] == pair[1]) {
+            return Err(SchemaError::InvalidRbfPoints {
+                name: self.meta.name.clone(),
+                message: "two or more points are on the same day of the year".to_string(),
+            });
+        }
+
         let function = self.function.into_core_rbf(&self.points)?;
 
         let p = pywr_core::parameters::RbfProfileParameterBuilder::new(
-- 
2.43.0


From d182fdf715c807301a82d6a2d372c2174a3c1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 39/75] fix: days on which a radial basis function profile can
 not be interpolated are refused

---
 pywr-core/src/parameters/mod.rs          | 2 ++
 pywr-core/src/parameters/profiles/rbf.rs | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/pywr-core/src/parameters/mod.rs b/pywr-core/src/parameters/mod.rs
index 53d0a86..feba4dc 100644
--- a/pywr-core/src/parameters/mod.rs
+++ b/pywr-core/src/parameters/mod.rs
@@ -1312,6 +1312,8 @@ impl From<ParameterIndex<MultiValue>> for ParameterType {
 pub enum VariableParameterError {
     #[error("Incorrect number of values provided for parameter. Expected {expected}, received {received}")]
     IncorrectNumberOfValues { expected: usize, received: usize },
+    #[error("Invalid values provided for parameter: {message}")]
+    InvalidValues { message: String },
 }
 
 /// A parameter that can be optimised.
diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 4741aca..adf5a45 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -232,6 +232,15 @@ impl VariableParameter<u32> for RbfProfileParameter {
         internal_state: &mut Option<Box<dyn ParameterState>>,
     ) -> Result<(), VariableParameterError> {
         if values.len() == self.points.len() {
+            // The profile is cyclic (365 days), and can not be interpolated if two points are on the same day.
+            let mut days: Vec<u32> = values.iter().map(|day| day % 365).collect();
+            days.sort_unstable();
+            if days.windows(2).any(|pair| pair[0] == pair[1]) {
+                return Err(VariableParameterError::InvalidValues {
+                    message: "two or more points are on the same day of the year".to_string(),
+                });
+            }
+
             let value = downcast_internal_state_mut::<RbfProfileInternalState>(internal_state);
 
             value.update_x(values.to_vec());
-- 
2.43.0


From e77f754f807ab8cf30c128b6d71cafe9152cd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 40/75] fix: report v1 components that have no counterpart
 instead of panicking

MultiSplitLink and RiverSplit nodes and CurrentYearThreshold,
CurrentOrdinalDayThreshold and ScenarioWrapper parameters made the
conversion of a v1 model panic with `todo!()`.
---
 pywr-schema/src/nodes/mod.rs      | 20 ++++++++++++++++++--
 pywr-schema/src/parameters/mod.rs | 30 +++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/pywr-schema/src/nodes/mod.rs b/pywr-schema/src/nodes/mod.rs
index 26d6c03..0fb755c 100644
--- a/pywr-schema/src/nodes/mod.rs
+++ b/pywr-schema/src/nodes/mod.rs
@@ -700,10 +700,26 @@ impl TryFromV1<Box<CoreNodeV1>> for NodeOrVirtualNode {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
             CoreNodeV1::PiecewiseLink(n) => Node::PiecewiseLink(n.try_into_v2(parent_node, conversion_data)?).into(),
-            CoreNodeV1::MultiSplitLink(_) => todo!(),
+            CoreNodeV1::MultiSplitLink(n) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: n.meta.name,
+                    attr: "type".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "MultiSplitLink nodes".to_string(),
+                    },
+                }));
+            }
             CoreNodeV1::BreakLink(n) => Node::Link(n.try_into_v2(parent_node, conversion_data)?).into(),
             CoreNodeV1::Delay(n) => Node::Delay(n.try_into()?).into(),
-            CoreNodeV1::RiverSplit(_) => todo!("Conversion of RiverSplit nodes"),
+            CoreNodeV1::RiverSplit(n) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: n.meta.name,
+                    attr: "type".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "RiverSplit nodes".to_string(),
+                    },
+                }));
+            }
             CoreNodeV1::MonthlyVirtualStorage(n) => {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 067ccb1..bcc1c62 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -658,8 +658,24 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::MultipleThresholdParameterIndex(p) => {
                     Parameter::MultiThreshold(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::CurrentYearThreshold(_) => todo!(),
-                CoreParameter::CurrentOrdinalDayThreshold(_) => todo!(),
+                CoreParameter::CurrentYearThreshold(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "CurrentYearThresholdParameter".to_string(),
+                        },
+                    }));
+                }
+                CoreParameter::CurrentOrdinalDayThreshold(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "CurrentOrdinalDayThresholdParameter".to_string(),
+                        },
+                    }));
+                }
                 CoreParameter::TablesArray(p) => {
                     Parameter::TablesArray(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
@@ -711,7 +727,15 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::RollingMeanFlowNode(p) => {
                     Parameter::Rolling(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ScenarioWrapper(_) => todo!("Implement ScenarioWrapperParameter"),
+                CoreParameter::ScenarioWrapper(p) => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
+                        attr: "".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "ScenarioWrapperParameter".to_string(),
+                        },
+                    }));
+                }
                 CoreParameter::Flow(p) => {
                     return Err(Box::new(ComponentConversionError::Parameter {
                         name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
-- 
2.43.0


From 4403f3f852a4bd607d5cfad59ba9bbb83067bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 41/75] fix: report a v1 time-step of zero days instead of
 panicking

---
 pywr-schema/src/error.rs  |  4 ++++
 pywr-schema/src/metric.rs |  2 ++
 pywr-schema/src/model.rs  | 35 ++++++++++++++++++++++++-----------
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index 29dc333..d0a8b2e 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -183,6 +183,8 @@ pub enum ComponentConversionError {
         name: String,
         error: ConversionError,
     },
+    #[error("Failed to convert timestepper: {error}")]
+    Timestepper { error: ConversionError },
     #[error("Failed to convert scenario: {error}")]
     Scenarios { error: ConversionError },
     #[error("Failed to convert table: {error}")]
@@ -241,6 +243,8 @@ pub enum ConversionError {
     TableConversionNotSupported { name: String },
     #[error("Invalid slot: {slot}")]
     InvalidSlot { slot: String },
+    #[error("The time-step must not be zero.")]
+    ZeroTimestep {},
     #[error("Scenario combinations defined without any groups.")]
     ScenarioCombinationsWithoutGroups {},
 }
diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index 3de471f..f0595ef 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -255,6 +255,7 @@ impl TryFromV1<ParameterValueV1> for Metric {
                     |e: Box<ComponentConversionError>| match *e {
                         ComponentConversionError::Parameter { error, .. } => error,
                         ComponentConversionError::Node { error, .. } => error,
+                        ComponentConversionError::Timestepper { error } => error,
                         ComponentConversionError::Scenarios { error } => error,
                         ComponentConversionError::Table { error, .. } => error,
                         ComponentConversionError::Edge { error, .. } => error,
@@ -799,6 +800,7 @@ impl TryFromV1<ParameterValueV1> for IndexMetric {
                     |e: Box<ComponentConversionError>| match *e {
                         ComponentConversionError::Parameter { error, .. } => error,
                         ComponentConversionError::Node { error, .. } => error,
+                        ComponentConversionError::Timestepper { error } => error,
                         ComponentConversionError::Scenarios { error } => error,
                         ComponentConversionError::Table { error, .. } => error,
                         ComponentConversionError::Edge { error, .. } => error,
diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index b69a7d8..c2af5cf 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -84,13 +84,16 @@ pub enum Timestep {
     Frequency { freq: String },
 }
 
-impl From<pywr_v1_schema::model::Timestep> for Timestep {
-    fn from(v1: pywr_v1_schema::model::Timestep) -> Self {
+impl TryFrom<pywr_v1_schema::model::Timestep> for Timestep {
+    type Error = ConversionError;
+
+    fn try_from(v1: pywr_v1_schema::model::Timestep) -> Result<Self, Self::Error> {
         match v1 {
-            pywr_v1_schema::model::Timestep::Days(d) => Self::Days {
-                days: NonZeroU64::new(d).expect("days must be non-zero"),
+            pywr_v1_schema::model::Timestep::Days(d) => match NonZeroU64::new(d) {
+                Some(days) => Ok(Self::Days { days }),
+                None => Err(ConversionError::ZeroTimestep {}),
             },
-            pywr_v1_schema::model::Timestep::Frequency(freq) => Self::Frequency { freq },
+            pywr_v1_schema::model::Timestep::Frequency(freq) => Ok(Self::Frequency { freq }),
         }
     }
 }
@@ -120,13 +123,15 @@ impl Default for TimeDomain {
     }
 }
 
-impl From<pywr_v1_schema::model::Timestepper> for TimeDomain {
-    fn from(v1: pywr_v1_schema::model::Timestepper) -> Self {
-        Self {
+impl TryFrom<pywr_v1_schema::model::Timestepper> for TimeDomain {
+    type Error = ConversionError;
+
+    fn try_from(v1: pywr_v1_schema::model::Timestepper) -> Result<Self, Self::Error> {
+        Ok(Self {
             start: v1.start,
             end: v1.end,
-            timestep: v1.timestep.into(),
-        }
+            timestep: v1.timestep.try_into()?,
+        })
     }
 }
 
@@ -556,7 +561,15 @@ impl ModelSchema {
         let mut errors = Vec::new();
 
         let metadata = v1.metadata.into();
-        let time = v1.timestepper.into();
+        let (start, end) = (v1.timestepper.start, v1.timestepper.end);
+        let time = v1.timestepper.try_into().unwrap_or_else(|error| {
+            errors.push(ComponentConversionError::Timestepper { error });
+            TimeDomain {
+                start,
+                end,
+                timestep: Timestep::default(),
+            }
+        });
         let mut scenarios: Option<ScenarioDomain> = match v1.scenarios.map(|s| s.try_into()) {
             Some(Ok(scenarios)) => Some(scenarios),
             Some(Err(err)) => {
-- 
2.43.0


From f59974c748079b3a28671b0cad2c6db3d88b9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 42/75] fix: v1 scenario slices with one element and with a
 step of zero

A slice of one element is its end, as in Python; it was ignored. A step of
zero made the conversion panic.
---
 pywr-schema/src/error.rs | 2 ++
 pywr-schema/src/model.rs | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/error.rs b/pywr-schema/src/error.rs
index d0a8b2e..f60e9b8 100644
--- a/pywr-schema/src/error.rs
+++ b/pywr-schema/src/error.rs
@@ -239,6 +239,8 @@ pub enum ConversionError {
     IncorrectNumberOfValues { expected: usize, found: usize },
     #[error("Scenario slice is invalid: length is {length}, expected 1 or 2.")]
     InvalidScenarioSlice { length: usize },
+    #[error("Scenario slice step must not be zero.")]
+    ZeroScenarioSliceStep {},
     #[error("Table conversion is not currently supported: {name}")]
     TableConversionNotSupported { name: String },
     #[error("Invalid slot: {slot}")]
diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index c2af5cf..2e7cea7 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -230,8 +230,9 @@ impl TryFrom<pywr_v1_schema::model::Scenario> for ScenarioGroup {
             .slice
             .map(|s| match s.len() {
                 1 => {
+                    // As with Python's `slice(stop)`
                     let start = 0;
-                    let end = v1.size;
+                    let end = s[0].unwrap_or(v1.size);
                     Ok(ScenarioGroupSubset::Slice(ScenarioGroupSlice { start, end }))
                 }
                 2 => {
@@ -249,6 +250,7 @@ impl TryFrom<pywr_v1_schema::model::Scenario> for ScenarioGroup {
                         None => v1.size,
                     };
                     match s[2] {
+                        Some(0) => Err(ConversionError::ZeroScenarioSliceStep {}),
                         Some(step) => {
                             let indices = (start..end).step_by(step).collect();
                             Ok(ScenarioGroupSubset::Indices(ScenarioGroupIndices { indices }))
-- 
2.43.0


From 25ee2d7ee2ee19eebbdf3ae86c1ed0344fe3b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 43/75] fix: v1 time-step frequencies written as Pandas does

The frequencies "7D", "12H" and "D" were passed on as they are, and the
converted model was refused because polars only knows lower case units.
---
 pywr-schema/src/model.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index 2e7cea7..cf42e07 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -84,6 +84,18 @@ pub enum Timestep {
     Frequency { freq: String },
 }
 
+/// Convert a v1 (i.e. Pandas) frequency to one that polars can parse.
+///
+/// Pandas accepts "D" and "H" for days and hours, and the number is optional (e.g. "7D" or "D").
+/// Other frequencies are left as they are.
+fn convert_frequency(freq: String) -> String {
+    match freq.strip_suffix(['D', 'd', 'H', 'h']) {
+        Some("") => format!("1{}", freq.to_lowercase()),
+        Some(n) if n.bytes().all(|b| b.is_ascii_digit()) => freq.to_lowercase(),
+        _ => freq,
+    }
+}
+
 impl TryFrom<pywr_v1_schema::model::Timestep> for Timestep {
     type Error = ConversionError;
 
@@ -93,7 +105,9 @@ impl TryFrom<pywr_v1_schema::model::Timestep> for Timestep {
                 Some(days) => Ok(Self::Days { days }),
                 None => Err(ConversionError::ZeroTimestep {}),
             },
-            pywr_v1_schema::model::Timestep::Frequency(freq) => Ok(Self::Frequency { freq }),
+            pywr_v1_schema::model::Timestep::Frequency(freq) => Ok(Self::Frequency {
+                freq: convert_frequency(freq),
+            }),
         }
     }
 }
-- 
2.43.0


From fefd2e9c7e94760e715ecda46777f0585d994e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 44/75] fix: v1 parameters that read a virtual node

Thresholds, polynomials, interpolations, rolling means and control curves
without values refer to a node of the v1 model by its name. When it was one
of those that are virtual nodes in v2 the converted model was refused.
---
 pywr-schema/src/parameters/control_curves.rs |  7 ++-----
 pywr-schema/src/parameters/interpolated.rs   | 14 +++-----------
 pywr-schema/src/parameters/polynomial.rs     |  7 ++-----
 pywr-schema/src/parameters/rolling.rs        |  8 ++------
 pywr-schema/src/parameters/thresholds.rs     |  8 ++++----
 pywr-schema/src/v1.rs                        | 13 +++++++++++--
 6 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 5ac028f..67e76da 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -242,15 +242,12 @@ impl TryFromV1<ControlCurveParameterV1> for ControlCurveIndexParameter {
         };
 
         // v1 uses proportional volume for control curves
-        let storage_node = NodeAttrReference {
-            name: v1.storage_node,
-            attribute: Some(NodeAttribute::ProportionalVolume),
-        };
+        let storage_metric = conversion_data.node_metric(v1.storage_node, Some(NodeAttribute::ProportionalVolume));
 
         let p = Self {
             meta,
             control_curves,
-            storage_metric: storage_node.into(),
+            storage_metric,
         };
         Ok(p)
     }
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 0893c94..77aa1b0 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -2,7 +2,7 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
@@ -88,12 +88,8 @@ impl TryFromV1<InterpolatedFlowParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to v2's default metric
-        let x = Metric::Node(node_ref);
+        let x = conversion_data.node_metric(v1.node, None);
 
         let xp = v1
             .flows
@@ -154,12 +150,8 @@ impl TryFromV1<InterpolatedVolumeParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to the node's inflow; not sure if we can do better than that.
-        let x = Metric::Node(node_ref);
+        let x = conversion_data.node_metric(v1.node, None);
 
         let xp = v1
             .volumes
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index e7d8ee7..6b84176 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -1,7 +1,7 @@
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::nodes::NodeAttribute;
@@ -63,10 +63,7 @@ impl TryFromV1<Polynomial1DParameterV1> for Polynomial1DParameter {
             false => Some(NodeAttribute::Volume),
         };
 
-        let metric = Metric::Node(NodeAttrReference {
-            name: v1.storage_node,
-            attribute,
-        });
+        let metric = conversion_data.node_metric(v1.storage_node, attribute);
 
         Ok(Self {
             meta: v1.meta.try_into_v2(parent_node, conversion_data)?,
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 7f7927c..adf3a72 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -1,7 +1,7 @@
 use crate::agg_funcs::{AggFunc, IndexAggFunc};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{IndexMetric, Metric, NodeAttrReference};
+use crate::metric::{IndexMetric, Metric};
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::ParameterMeta;
@@ -140,11 +140,7 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         };
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
-        let metric = Metric::Node(node_ref);
+        let metric = conversion_data.node_metric(v1.node, None);
 
         // pywr 1 does not support interpolation
         let p = Self {
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 52fdf90..1ec6b14 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -2,7 +2,7 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
@@ -209,7 +209,7 @@ impl TryFromV1<NodeThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = conversion_data.node_metric(v1.node, None);
 
         let threshold =
             try_convert_parameter_attr(&meta.name, "threshold", v1.threshold, parent_node, conversion_data)?;
@@ -256,7 +256,7 @@ impl TryFromV1<StorageThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.storage_node, None));
+        let metric = conversion_data.node_metric(v1.storage_node, None);
 
         let returned_metrics: Option<[Metric; 2]> = match v1.values {
             Some(v) => {
@@ -383,7 +383,7 @@ impl TryFromV1<MultiThresholdIndexParameterV1> for MultiThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = conversion_data.node_metric(v1.node, None);
 
         let thresholds = v1
             .thresholds
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 65e5b19..1ac197f 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -14,8 +14,8 @@ use std::collections::HashMap;
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
-use crate::metric::Metric;
-use crate::nodes::{NodeMeta, StorageInitialVolume};
+use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
+use crate::nodes::{NodeAttribute, NodeMeta, StorageInitialVolume};
 use crate::parameters::{ConstantFloatVec, Parameter, ParameterMeta};
 use crate::timeseries::Timeseries;
 use pywr_v1_schema::nodes::NodeMeta as NodeMetaV1;
@@ -36,6 +36,15 @@ impl ConversionData {
     pub fn reset_count(&mut self) {
         self.unnamed_count = 0;
     }
+
+    /// Create a metric for an attribute of a v1 node; some v1 nodes are virtual nodes in v2.
+    pub fn node_metric(&self, name: String, attribute: Option<NodeAttribute>) -> Metric {
+        if self.virtual_nodes.contains(&name) {
+            VirtualNodeAttrReference::new(name, attribute).into()
+        } else {
+            NodeAttrReference::new(name, attribute).into()
+        }
+    }
 }
 
 pub trait TryFromV1<T>: Sized {
-- 
2.43.0


From 583d8cfdd50f6b760c45a50c0d64313be10220b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 45/75] fix: names of unnamed v1 parameters are unique

They are named by the component that they are defined in and a number. A node
and a parameter may share a name, so two unnamed parameters could be given
the same name, and the converted model was refused (or used the wrong
timeseries).
---
 pywr-schema/src/network.rs |  5 +++++
 pywr-schema/src/v1.rs      | 44 +++++++++++++++++++++++---------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index f04f406..429aee0 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -328,6 +328,11 @@ impl NetworkSchema {
         let mut parameters = Vec::new();
         let mut timeseries = Vec::new();
 
+        // The names of the global parameters are not available to unnamed parameters
+        for name in v1.parameters.iter().flat_map(|p| p.iter()).filter_map(|p| p.name()) {
+            conversion_data.reserve_name(name);
+        }
+
         // Extract nodes and any timeseries data from the v1 nodes
         if let Some(v1_nodes) = v1.nodes {
             // First find any virtual nodes so these can be used to determine metric conversion types
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 1ac197f..326718e 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -10,7 +10,7 @@
 //! It also tracks a count of unnamed parameters and timeseries. This is used during conversion
 //! of meta-data to provide a unique name for unnamed parameters and timeseries.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
@@ -27,6 +27,8 @@ use pywr_v1_schema::parameters::{
 #[derive(Default)]
 pub struct ConversionData {
     unnamed_count: usize,
+    /// Names that unnamed parameters must not be given.
+    parameter_names: HashSet<String>,
     pub virtual_nodes: Vec<String>,
     pub parameters: Vec<Parameter>,
     pub timeseries: Vec<Timeseries>,
@@ -37,6 +39,22 @@ impl ConversionData {
         self.unnamed_count = 0;
     }
 
+    /// Reserve the name of a parameter so that no unnamed parameter is given it.
+    pub fn reserve_name(&mut self, name: &str) {
+        self.parameter_names.insert(name.to_string());
+    }
+
+    /// Create a name for an unnamed parameter that no other parameter has.
+    fn next_name(&mut self, prefix: &str) -> String {
+        loop {
+            let name = format!("{prefix}{}", self.unnamed_count);
+            self.unnamed_count += 1;
+            if self.parameter_names.insert(name.clone()) {
+                return name;
+            }
+        }
+    }
+
     /// Create a metric for an attribute of a v1 node; some v1 nodes are virtual nodes in v2.
     pub fn node_metric(&self, name: String, attribute: Option<NodeAttribute>) -> Metric {
         if self.virtual_nodes.contains(&name) {
@@ -117,13 +135,9 @@ impl TryFromV1<ParameterMetaV1> for ParameterMeta {
         parent_node: Option<&str>,
         conversion_data: &mut ConversionData,
     ) -> Result<Self, Self::Error> {
-        let name = v1.name.unwrap_or_else(|| {
-            let pname = match parent_node {
-                Some(pn) => format!("{pn}-p{}", conversion_data.unnamed_count),
-                None => format!("unnamed-{}", conversion_data.unnamed_count),
-            };
-            conversion_data.unnamed_count += 1;
-            pname
+        let name = v1.name.unwrap_or_else(|| match parent_node {
+            Some(pn) => conversion_data.next_name(&format!("{pn}-p")),
+            None => conversion_data.next_name("unnamed-"),
         });
 
         let tags = convert_tags(v1.tags).map_err(|error| {
@@ -152,15 +166,11 @@ impl TryFromV1<Option<ParameterMetaV1>> for ParameterMeta {
     ) -> Result<Self, Self::Error> {
         match v1 {
             Some(meta) => meta.try_into_v2(parent_node, conversion_data),
-            None => {
-                let meta = Self {
-                    name: format!("unnamed-{}", conversion_data.unnamed_count),
-                    comment: None,
-                    tags: HashMap::new(),
-                };
-                conversion_data.unnamed_count += 1;
-                Ok(meta)
-            }
+            None => Ok(Self {
+                name: conversion_data.next_name("unnamed-"),
+                comment: None,
+                tags: HashMap::new(),
+            }),
         }
     }
 }
-- 
2.43.0


From 389fd41f3612b17ad00e49ac52ae80b75d9220e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 46/75] fix: convert v1 control curves once

The conversion to a control curve was tried before the one to an index, and
parameters defined inside of it were left behind by the first attempt. An
error in one of its values was reported as unexpected values.
---
 pywr-schema/src/parameters/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index bcc1c62..4061f94 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -622,10 +622,14 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::ControlCurveIndex(p) => {
                     Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ControlCurve(p) => match p.clone().try_into_v2(parent_node, conversion_data) {
-                    Ok(p) => Parameter::ControlCurve(p).into(),
-                    Err(_) => Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into(),
-                },
+                CoreParameter::ControlCurve(p) => {
+                    // Without any values the parameter is the index of the control curve
+                    if p.values.is_none() && p.parameters.is_none() {
+                        Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into()
+                    } else {
+                        Parameter::ControlCurve(p.try_into_v2(parent_node, conversion_data)?).into()
+                    }
+                }
                 CoreParameter::DailyProfile(p) => {
                     Parameter::DailyProfile(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-- 
2.43.0


From 96edcfb27ddbf93d7127a1df56e09210fa4351b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 47/75] fix: refer to converted timeseries in v1 virtual nodes

A v1 data frame parameter becomes a timeseries and the references to it are
updated, but not those of virtual nodes: the converted model was refused
because the parameter did not exist.
---
 pywr-schema/src/network.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 429aee0..1533ba1 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -425,6 +425,7 @@ impl NetworkSchema {
         };
 
         nodes.visit_metrics_mut(update_to_ts_ref);
+        virtual_nodes.visit_metrics_mut(update_to_ts_ref);
         parameters.visit_metrics_mut(update_to_ts_ref);
 
         for table in v1.tables.into_iter().flatten() {
-- 
2.43.0


From 99c6c398e5df68bcd098f26c7512f1b5edb53b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 48/75] fix: report flow weights and factors of v1 aggregated
 nodes that can not be converted

---
 .../src/nodes/virtual_nodes/aggregated.rs     | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
index 1f29cd8..257272e 100644
--- a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
@@ -1,9 +1,9 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::{Metric, NodeComponentReference};
 use crate::node_attribute_subset_enum;
 use crate::nodes::NodeMeta;
 use crate::parameters::Parameter;
-use crate::v1::{ConversionData, TryFromV1, try_convert_node_attr, try_convert_node_meta, try_convert_parameter_attr};
+use crate::v1::{ConversionData, TryFromV1, try_convert_node_attr, try_convert_node_meta};
 #[cfg(feature = "core")]
 use crate::{error::SchemaError, network::LoadArgs, nodes::NodeAttribute};
 #[cfg(feature = "core")]
@@ -240,19 +240,21 @@ impl TryFromV1<AggregatedNodeV1> for AggregatedNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.flow_weights.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "flow_weights".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["flow_weights".to_string()],
+                },
+            }));
+        }
+
         let relationship = match v1.factors {
             Some(f) => Some(Relationship::Ratio {
                 factors: f
                     .into_iter()
-                    .map(|v| {
-                        try_convert_parameter_attr(
-                            &meta.name,
-                            "factors",
-                            v,
-                            parent_node.or(Some(&meta.name)),
-                            conversion_data,
-                        )
-                    })
+                    .map(|v| try_convert_node_attr(&meta.name, "factors", v, parent_node, conversion_data))
                     .collect::<Result<_, _>>()?,
             }),
             None => None,
-- 
2.43.0


From 826b28d56a6f04eccc94dade977bc9f9a57ea148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 49/75] fix: report v1 constants read from an external table
 instead of making them zero

---
 pywr-schema/src/parameters/core.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 660ead6..3486756 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
 use crate::metric::Metric;
@@ -202,6 +202,15 @@ impl TryFromV1<ConstantParameterV1> for ConstantParameter {
                 attr: "table".to_string(),
                 error,
             })?)
+        } else if v1.external.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "external".to_string(),
+                error: ConversionError::UnsupportedFeature {
+                    feature: "External data references are not supported in Pywr v2. Please use a table instead."
+                        .to_string(),
+                },
+            }));
         } else {
             0.0.into()
         };
-- 
2.43.0


From 99fc6a1e8e6f978ef2147a606a432389640184b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 50/75] fix: report v1 virtual storage settings that have no
 counterpart

---
 .../nodes/virtual_nodes/virtual_storage.rs    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index f8e8a8c..888623a 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -419,6 +419,17 @@ impl TryFromV1<MonthlyVirtualStorageNodeV1> for VirtualStorageNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.initial_months > 1 {
+            // The first reset can not be brought forward in v2
+            return Err(Box::new(ComponentConversionError::Node {
+                name: meta.name,
+                attr: "initial_months".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["initial_months".to_string()],
+                },
+            }));
+        }
+
         let cost = try_convert_node_attr(&meta.name, "cost", v1.cost, parent_node, conversion_data)?;
         let max_volume = try_convert_node_attr(&meta.name, "max_volume", v1.max_volume, parent_node, conversion_data)?;
         let min_volume = try_convert_node_attr(&meta.name, "min_volume", v1.min_volume, parent_node, conversion_data)?;
@@ -469,26 +480,26 @@ impl TryFromV1<RollingVirtualStorageNodeV1> for VirtualStorageNode {
             try_convert_initial_storage(&meta.name, "initial_volume", v1.initial_volume, v1.initial_volume_pc)?;
 
         let window = if let Some(days) = v1.days {
-            if let Some(days) = NonZeroUsize::new(days as usize) {
+            if let Some(days) = usize::try_from(days).ok().and_then(NonZeroUsize::new) {
                 RollingWindow::Days { days }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: meta.name.clone(),
                     attr: "window".to_string(),
                     error: ConversionError::UnsupportedFeature {
-                        feature: "Rolling window with zero `days` is not supported".to_string(),
+                        feature: "Rolling window with zero or negative `days` is not supported".to_string(),
                     },
                 }));
             }
         } else if let Some(timesteps) = v1.timesteps {
-            if let Some(timesteps) = NonZeroUsize::new(timesteps as usize) {
+            if let Some(timesteps) = usize::try_from(timesteps).ok().and_then(NonZeroUsize::new) {
                 RollingWindow::Timesteps { timesteps }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: meta.name.clone(),
                     attr: "window".to_string(),
                     error: ConversionError::UnsupportedFeature {
-                        feature: "Rolling window with zero `timesteps` is not supported".to_string(),
+                        feature: "Rolling window with zero or negative `timesteps` is not supported".to_string(),
                     },
                 }));
             }
-- 
2.43.0


From 76480023628031cc4bb0622585deb64430405470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 51/75] fix: report parameters of v1 piecewise control curves
 instead of dropping them

---
 pywr-schema/src/parameters/control_curves.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 67e76da..c177b8f 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -405,6 +405,16 @@ impl TryFromV1<ControlCurvePiecewiseInterpolatedParameterV1> for ControlCurvePie
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
+        if v1.parameters.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "parameters".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["parameters".to_string()],
+                },
+            }));
+        }
+
         let control_curves = try_convert_control_curves(
             &meta.name,
             v1.control_curves,
-- 
2.43.0


From 4055de2fcc032a2e3afda6794cd178976e74feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 52/75] fix: report a fill value of v1 interpolations instead
 of dropping it

---
 pywr-schema/src/parameters/interpolated.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 77aa1b0..65318e9 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -113,6 +113,17 @@ impl TryFromV1<InterpolatedFlowParameterV1> for InterpolatedParameter {
                 }
             }
 
+            // Values outside of the data are constant or an error.
+            if interp_kwargs.contains_key("fill_value") {
+                return Err(Box::new(ComponentConversionError::Parameter {
+                    name: meta.name.clone(),
+                    attr: "interp_kwargs".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "Interpolation with `fill_value` is not supported.".to_string(),
+                    },
+                }));
+            }
+
             // Check if non-linear interpolation is requested; this is not supported at the moment.
             if let Some(kind) = interp_kwargs.get("kind") {
                 if let Some(kind_str) = kind.as_str() {
@@ -175,6 +186,17 @@ impl TryFromV1<InterpolatedVolumeParameterV1> for InterpolatedParameter {
                 }
             }
 
+            // Values outside of the data are constant or an error.
+            if interp_kwargs.contains_key("fill_value") {
+                return Err(Box::new(ComponentConversionError::Parameter {
+                    name: meta.name.clone(),
+                    attr: "interp_kwargs".to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "Interpolation with `fill_value` is not supported.".to_string(),
+                    },
+                }));
+            }
+
             // Check if non-linear interpolation is requested; this is not supported at the moment.
             if let Some(kind) = interp_kwargs.get("kind") {
                 if let Some(kind_str) = kind.as_str() {
-- 
2.43.0


From b01f6d28aa705114c616a3d918ddbdfcf610a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 53/75] fix: report a negative v1 delay

---
 pywr-schema/src/nodes/delay.rs | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pywr-schema/src/nodes/delay.rs b/pywr-schema/src/nodes/delay.rs
index b5820eb..2c78e33 100644
--- a/pywr-schema/src/nodes/delay.rs
+++ b/pywr-schema/src/nodes/delay.rs
@@ -170,21 +170,32 @@ impl TryFrom<DelayNodeV1> for DelayNode {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
         // TODO convert days & timesteps to a usize as we don;t support non-daily timesteps at the moment
-        let delay = match v1.days {
-            Some(days) => days,
-            None => match v1.timesteps {
-                Some(ts) => ts,
-                None => {
-                    return Err(Box::new(ComponentConversionError::Node {
-                        name: meta.name,
-                        attr: "delay".to_string(),
-                        error: ConversionError::MissingAttribute {
-                            attrs: vec!["days".to_string(), "timesteps".to_string()],
-                        },
-                    }));
-                }
-            },
-        } as u64;
+        let (attr, delay) = match (v1.days, v1.timesteps) {
+            (Some(days), _) => ("days", days),
+            (None, Some(ts)) => ("timesteps", ts),
+            (None, None) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: meta.name,
+                    attr: "delay".to_string(),
+                    error: ConversionError::MissingAttribute {
+                        attrs: vec!["days".to_string(), "timesteps".to_string()],
+                    },
+                }));
+            }
+        };
+
+        let delay = match u64::try_from(delay) {
+            Ok(delay) => delay,
+            Err(_) => {
+                return Err(Box::new(ComponentConversionError::Node {
+                    name: meta.name,
+                    attr: attr.to_string(),
+                    error: ConversionError::UnsupportedFeature {
+                        feature: "A negative delay".to_string(),
+                    },
+                }));
+            }
+        };
 
         let initial_value = v1.initial_flow.unwrap_or_default().into();
 
-- 
2.43.0


From 80745c67f2a79b5d748db0a1677a17d99775341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 54/75] fix: report v1 piecewise links with missing costs or
 flows

---
 pywr-schema/src/nodes/piecewise_link.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/piecewise_link.rs b/pywr-schema/src/nodes/piecewise_link.rs
index 96127b2..5b9d6e4 100644
--- a/pywr-schema/src/nodes/piecewise_link.rs
+++ b/pywr-schema/src/nodes/piecewise_link.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::Metric;
 use crate::nodes::NodeMeta;
 use crate::parameters::Parameter;
@@ -225,6 +225,19 @@ impl TryFromV1<PiecewiseLinkNodeV1> for PiecewiseLinkNode {
                 .collect::<Result<Vec<_>, _>>()?,
         };
 
+        for (attr, found) in [("costs", costs.len()), ("max_flows", max_flows.len())] {
+            if found != v1.nsteps {
+                return Err(Box::new(ComponentConversionError::Node {
+                    attr: attr.to_string(),
+                    name: meta.name,
+                    error: ConversionError::IncorrectNumberOfValues {
+                        expected: v1.nsteps,
+                        found,
+                    },
+                }));
+            }
+        }
+
         let steps = costs
             .into_iter()
             .zip(max_flows)
-- 
2.43.0


From a8b7c90a8ac5c7de99869204281a38d32f08a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 55/75] fix: report v1 radial basis function profiles with
 missing days or values

---
 pywr-schema/src/parameters/profiles.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 08b271e..5c82fd1 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -426,6 +426,17 @@ impl TryFromV1<RbfProfileParameterV1> for RbfProfileParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
+        if v1.days_of_year.len() != v1.values.len() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "values".to_string(),
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: v1.days_of_year.len(),
+                    found: v1.values.len(),
+                },
+            }));
+        }
+
         let points = v1.days_of_year.into_iter().zip(v1.values).collect();
 
         if v1.rbf_kwargs.contains_key("smooth") {
-- 
2.43.0


From 64190bdb48a64dffc5cdb5021194a3e433efa2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 56/75] fix: report v1 rolling means over no time-steps

---
 pywr-schema/src/parameters/rolling.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index adf3a72..74f7035 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -109,7 +109,18 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         let window_size = match (v1.timesteps, v1.days) {
-            (Some(timesteps), None) => timesteps as u64,
+            (Some(timesteps), None) => match u64::try_from(timesteps) {
+                Ok(timesteps) if timesteps > 0 => timesteps,
+                _ => {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        attr: "timesteps".to_string(),
+                        name: meta.name.clone(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "A window with zero or negative `timesteps`".to_string(),
+                        },
+                    }));
+                }
+            },
             (None, Some(_)) => {
                 return Err(Box::new(ComponentConversionError::Parameter {
                         attr: "days".to_string(),
-- 
2.43.0


From 96daaca9b2c6bc7ad67e03e1fb533123a45bb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 57/75] fix: report a cost or missing slots of v1 gauges with
 splits

---
 .../src/nodes/river_split_with_gauge.rs       | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 5b5ed5d..85324f7 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -295,6 +295,16 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.cost.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "cost".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["cost".to_string()],
+                },
+            }));
+        }
+
         let mrf = try_convert_node_attr(&meta.name, "mrf", v1.mrf, parent_node, conversion_data)?;
         let mrf_cost = try_convert_node_attr(&meta.name, "mrf_cost", v1.mrf_cost, parent_node, conversion_data)?;
 
@@ -305,6 +315,18 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
                 error,
             }
         })?;
+        // The first factor and slot are those of the river
+        if factors.len() + 1 != v1.slot_names.len() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "slot_names".to_string(),
+                name: meta.name,
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: factors.len() + 1,
+                    found: v1.slot_names.len(),
+                },
+            }));
+        }
+
         let splits = factors
             .into_iter()
             .zip(v1.slot_names.into_iter().skip(1))
-- 
2.43.0


From 07c14aa312b820516d144e5996d573129d05b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 58/75] fix: report v1 timeseries attributes that can not be
 converted

---
 pywr-schema/src/timeseries/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 6dfa0e3..311f89e 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -4,10 +4,9 @@ mod pandas;
 mod polars_dataset;
 
 use crate::ConversionError;
-use crate::digest::Checksum;
 use crate::error::ComponentConversionError;
 use crate::parameters::ParameterMeta;
-use crate::v1::{ConversionData, TryFromV1, TryIntoV2};
+use crate::v1::{ConversionData, TryFromV1, TryIntoV2, try_convert_parameter_attr};
 use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use ndarray::{Array2, ShapeError};
@@ -486,6 +485,22 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
         let mut ts_name = meta.name.clone();
 
+        for (attr, found) in [
+            ("timestep_offset", v1.timestep_offset.is_some()),
+            ("index", v1.index.is_some()),
+            ("indexes", v1.indexes.is_some()),
+        ] {
+            if found {
+                return Err(Box::new(ComponentConversionError::Parameter {
+                    name: meta.name,
+                    attr: attr.to_string(),
+                    error: ConversionError::UnsupportedAttribute {
+                        attrs: vec![attr.to_string()],
+                    },
+                }));
+            }
+        }
+
         if let Some(url) = v1.url {
             // If there is a URL then this entry must be converted into a timeseries
             let mut pandas_kwargs = v1.pandas_kwargs;
@@ -503,7 +518,13 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
             }
 
             let checksum = match v1.checksum {
-                Some(c) => Checksum::try_from_v1(c, parent_node, conversion_data).ok(),
+                Some(c) => Some(try_convert_parameter_attr(
+                    &meta.name,
+                    "checksum",
+                    c,
+                    parent_node,
+                    conversion_data,
+                )?),
                 None => None,
             };
 
-- 
2.43.0


From 1dc9e7512c13186f77fd7945a30556208e04b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 59/75] fix: report v1 interpolations of an order other than
 linear

---
 pywr-schema/src/parameters/interpolated.rs | 36 ++++++++++------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 65318e9..7a4ddf3 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -126,16 +126,14 @@ impl TryFromV1<InterpolatedFlowParameterV1> for InterpolatedParameter {
 
             // Check if non-linear interpolation is requested; this is not supported at the moment.
             if let Some(kind) = interp_kwargs.get("kind") {
-                if let Some(kind_str) = kind.as_str() {
-                    if kind_str != "linear" {
-                        return Err(Box::new(ComponentConversionError::Parameter {
-                            name: meta.name.clone(),
-                            attr: "interp_kwargs".to_string(),
-                            error: ConversionError::UnsupportedFeature {
-                                feature: "Interpolation with `kind` other than `linear` is not supported.".to_string(),
-                            },
-                        }));
-                    }
+                if kind.as_str() != Some("linear") {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: meta.name.clone(),
+                        attr: "interp_kwargs".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "Interpolation with `kind` other than `linear` is not supported.".to_string(),
+                        },
+                    }));
                 }
             }
         }
@@ -199,16 +197,14 @@ impl TryFromV1<InterpolatedVolumeParameterV1> for InterpolatedParameter {
 
             // Check if non-linear interpolation is requested; this is not supported at the moment.
             if let Some(kind) = interp_kwargs.get("kind") {
-                if let Some(kind_str) = kind.as_str() {
-                    if kind_str != "linear" {
-                        return Err(Box::new(ComponentConversionError::Parameter {
-                            name: meta.name.clone(),
-                            attr: "interp_kwargs".to_string(),
-                            error: ConversionError::UnsupportedFeature {
-                                feature: "Interpolation with `kind` other than `linear` is not supported.".to_string(),
-                            },
-                        }));
-                    }
+                if kind.as_str() != Some("linear") {
+                    return Err(Box::new(ComponentConversionError::Parameter {
+                        name: meta.name.clone(),
+                        attr: "interp_kwargs".to_string(),
+                        error: ConversionError::UnsupportedFeature {
+                            feature: "Interpolation with `kind` other than `linear` is not supported.".to_string(),
+                        },
+                    }));
                 }
             }
         }
-- 
2.43.0


From c68bacb7dc68d4a0992b8b31820b1cc80f47c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 60/75] fix: v1 timeseries written in place with a name are
 referred to as timeseries

---
 pywr-schema/src/metric.rs  | 12 ++++++++++--
 pywr-schema/src/network.rs |  1 +
 pywr-schema/src/v1.rs      |  4 +++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index f0595ef..1d64bd0 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -272,7 +272,11 @@ impl TryFromV1<ParameterValueV1> for Metric {
 
                         Self::Parameter(reference)
                     }
-                    ParameterOrTimeseriesRef::Timeseries(t) => Self::Timeseries(t.ts_ref),
+                    ParameterOrTimeseriesRef::Timeseries(t) => {
+                        conversion_data.timeseries_refs.push(t.clone());
+
+                        Self::Timeseries(t.ts_ref)
+                    }
                 }
             }
         };
@@ -817,7 +821,11 @@ impl TryFromV1<ParameterValueV1> for IndexMetric {
 
                         Self::Parameter(reference)
                     }
-                    ParameterOrTimeseriesRef::Timeseries(t) => Self::Timeseries(t.ts_ref),
+                    ParameterOrTimeseriesRef::Timeseries(t) => {
+                        conversion_data.timeseries_refs.push(t.clone());
+
+                        Self::Timeseries(t.ts_ref)
+                    }
                 }
             }
         };
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 1533ba1..15e8e45 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -413,6 +413,7 @@ impl NetworkSchema {
         // Finally add any extracted timeseries data to the timeseries list
         timeseries.extend(conversion_data.timeseries);
         parameters.extend(conversion_data.parameters);
+        timeseries_refs.extend(conversion_data.timeseries_refs);
 
         // Closure to update a parameter ref with a timeseries ref when names match.
         // We match on the original parameter name because the parameter name may have been changed
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 326718e..d53a943 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -17,7 +17,7 @@ use crate::error::ComponentConversionError;
 use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
 use crate::nodes::{NodeAttribute, NodeMeta, StorageInitialVolume};
 use crate::parameters::{ConstantFloatVec, Parameter, ParameterMeta};
-use crate::timeseries::Timeseries;
+use crate::timeseries::{ConvertedTimeseriesReference, Timeseries};
 use pywr_v1_schema::nodes::NodeMeta as NodeMetaV1;
 use pywr_v1_schema::parameters::{
     ExternalDataRef, ParameterMeta as ParameterMetaV1, ParameterValue, ParameterValues, TableDataRef,
@@ -32,6 +32,8 @@ pub struct ConversionData {
     pub virtual_nodes: Vec<String>,
     pub parameters: Vec<Parameter>,
     pub timeseries: Vec<Timeseries>,
+    /// References to timeseries that are written in place, but may be referred to by name elsewhere.
+    pub timeseries_refs: Vec<ConvertedTimeseriesReference>,
 }
 
 impl ConversionData {
-- 
2.43.0


From c9c3a52cccb7a0894baed20876f0761a98e12be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 61/75] fix: visit the metrics returned by threshold parameters

---
 pywr-schema/src/visit.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/visit.rs b/pywr-schema/src/visit.rs
index 7740809..8bfa1cb 100644
--- a/pywr-schema/src/visit.rs
+++ b/pywr-schema/src/visit.rs
@@ -113,7 +113,19 @@ impl VisitMetrics for i32 {}
 impl VisitMetrics for f32 {}
 impl VisitMetrics for f64 {}
 impl<const N: usize> VisitMetrics for [f64; N] {}
-impl<const N: usize> VisitMetrics for [Metric; N] {}
+impl<const N: usize> VisitMetrics for [Metric; N] {
+    fn visit_metrics<F: FnMut(&Metric)>(&self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics(visitor);
+        }
+    }
+
+    fn visit_metrics_mut<F: FnMut(&mut Metric)>(&mut self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics_mut(visitor);
+        }
+    }
+}
 impl VisitMetrics for bool {}
 impl VisitMetrics for u64 {}
 impl VisitMetrics for String {}
-- 
2.43.0


From 618bbda29793885259000259d3afc11f7692ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 62/75] fix: visit the paths of data tables

---
 pywr-schema/src/data_tables/mod.rs | 15 +++++++++++++++
 pywr-schema/src/network.rs         |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/pywr-schema/src/data_tables/mod.rs b/pywr-schema/src/data_tables/mod.rs
index c022c0a..4dc7c54 100644
--- a/pywr-schema/src/data_tables/mod.rs
+++ b/pywr-schema/src/data_tables/mod.rs
@@ -21,6 +21,7 @@ mod vec;
 use crate::ConversionError;
 use crate::digest::{Checksum, ChecksumError};
 use crate::parameters::TableIndex;
+use crate::visit::VisitPaths;
 #[cfg(feature = "pyo3")]
 use pyo3::pyclass;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -88,6 +89,20 @@ pub enum CsvDataTableLookup {
     Both { rows: usize, cols: usize },
 }
 
+impl VisitPaths for DataTable {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => visitor(&tbl.url),
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => visitor(&mut tbl.url),
+        }
+    }
+}
+
 /// An external table of data that can be referenced
 #[derive(serde::Deserialize, serde::Serialize, Debug, Clone, JsonSchema)]
 pub struct CsvDataTable {
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 15e8e45..2888e47 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -179,6 +179,10 @@ impl VisitPaths for NetworkSchema {
             parameter.visit_paths(visitor);
         }
 
+        for table in self.tables.as_deref().into_iter().flatten() {
+            table.visit_paths(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref().into_iter().flatten() {
             timeseries.visit_paths(visitor);
         }
@@ -196,6 +200,10 @@ impl VisitPaths for NetworkSchema {
             parameter.visit_paths_mut(visitor);
         }
 
+        for table in self.tables.as_deref_mut().into_iter().flatten() {
+            table.visit_paths_mut(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref_mut().into_iter().flatten() {
             timeseries.visit_paths_mut(visitor);
         }
-- 
2.43.0


From 5d8ac99e852d06a722ea014a23cbd35191571297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 63/75] fix: visit the paths of parameters of virtual nodes

---
 pywr-schema/src/network.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 2888e47..0ea12cb 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -175,6 +175,10 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref().into_iter().flatten() {
+            virtual_node.visit_paths(visitor);
+        }
+
         for parameter in self.parameters.as_deref().into_iter().flatten() {
             parameter.visit_paths(visitor);
         }
@@ -196,6 +200,10 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths_mut(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref_mut().into_iter().flatten() {
+            virtual_node.visit_paths_mut(visitor);
+        }
+
         for parameter in self.parameters.as_deref_mut().into_iter().flatten() {
             parameter.visit_paths_mut(visitor);
         }
-- 
2.43.0


From c54fa9d2d37614374749ec81c53aef50b2401c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 64/75] fix: visit the paths of metric set aggregators

---
 pywr-schema/src/metric_sets/mod.rs | 20 ++++++++++++++++++--
 pywr-schema/src/network.rs         |  8 ++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/metric_sets/mod.rs b/pywr-schema/src/metric_sets/mod.rs
index 099908a..62577e5 100644
--- a/pywr-schema/src/metric_sets/mod.rs
+++ b/pywr-schema/src/metric_sets/mod.rs
@@ -8,14 +8,14 @@ use crate::metric::{EdgeReference, ParameterReferenceBuilder, ParameterReturnVal
 use crate::network::LoadArgs;
 #[cfg(feature = "core")]
 use crate::parameters::{Parameter, ParameterPhase, PythonReturnType};
+use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use pywr_core::recorders::UnresolvedOutputMetric;
 use pywr_schema_macros::skip_serializing_none;
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 use std::num::NonZeroI64;
-#[cfg(feature = "core")]
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticStr};
 
 #[derive(serde::Deserialize, serde::Serialize, Debug, Copy, Clone, JsonSchema, Display, EnumDiscriminants)]
@@ -59,6 +59,22 @@ pub struct MetricAggregator {
     pub child: Option<Box<MetricAggregator>>,
 }
 
+impl VisitPaths for MetricAggregator {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        self.func.visit_paths(visitor);
+        if let Some(child) = &self.child {
+            child.visit_paths(visitor);
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        self.func.visit_paths_mut(visitor);
+        if let Some(child) = &mut self.child {
+            child.visit_paths_mut(visitor);
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl MetricAggregator {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregator, SchemaError> {
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 0ea12cb..fac9a7e 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -191,6 +191,10 @@ impl VisitPaths for NetworkSchema {
             timeseries.visit_paths(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref().into_iter().flatten() {
+            metric_set.aggregator.visit_paths(visitor);
+        }
+
         for outputs in self.outputs.as_deref().into_iter().flatten() {
             outputs.visit_paths(visitor);
         }
@@ -216,6 +220,10 @@ impl VisitPaths for NetworkSchema {
             timeseries.visit_paths_mut(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref_mut().into_iter().flatten() {
+            metric_set.aggregator.visit_paths_mut(visitor);
+        }
+
         for outputs in self.outputs.as_deref_mut().into_iter().flatten() {
             outputs.visit_paths_mut(visitor);
         }
-- 
2.43.0


From 969d81c66fff08ec797dfe1e6d472a277164dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 65/75] fix: hydropower target parameters are recorded in the
 phases they calculate

---
 pywr-schema/src/parameters/hydropower.rs | 14 +++++++++++++-
 pywr-schema/src/parameters/mod.rs        |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 9d7d1a9..6fe2311 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -4,7 +4,7 @@ use crate::error::ComponentConversionError;
 use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
-use crate::parameters::{ConversionData, ParameterMeta};
+use crate::parameters::{ConversionData, ParameterMeta, ParameterPhase};
 use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::parameters::{HydropowerTargetData, ParameterName};
@@ -82,6 +82,18 @@ pub struct HydropowerTargetParameter {
     pub energy_unit_conversion: Option<f64>,
 }
 
+impl HydropowerTargetParameter {
+    /// The calculation phase(s) of this parameter. The flow is calculated before the allocation if there is a
+    /// `target`, and the power is calculated after it if there is an `actual_flow`.
+    pub(crate) fn phase(&self) -> ParameterPhase {
+        match (&self.target, &self.actual_flow) {
+            (Some(_), Some(_)) => ParameterPhase::Both,
+            (None, Some(_)) => ParameterPhase::After,
+            _ => ParameterPhase::Before,
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl HydropowerTargetParameter {
     pub fn add_to_network(
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 4061f94..eccaacd 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -258,7 +258,7 @@ impl Parameter {
             Self::Offset(_) => ParameterPhase::Before,
             Self::DiscountFactor(_) => ParameterPhase::Before,
             Self::Interpolated(_) => ParameterPhase::Before,
-            Self::HydropowerTarget(_) => ParameterPhase::Before,
+            Self::HydropowerTarget(p) => p.phase(),
             Self::RbfProfile(_) => ParameterPhase::Before,
             Self::NegativeMax(_) => ParameterPhase::Before,
             Self::NegativeMin(_) => ParameterPhase::Before,
-- 
2.43.0


From f6af4ff0b70fd030fe1cbb353af1e2c9e9947ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 66/75] fix: limits of uniform drawdown profiles

---
 .../parameters/profiles/uniform_drawdown.rs   |  6 +++---
 pywr-schema/src/parameters/profiles.rs        | 20 ++++++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/uniform_drawdown.rs b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
index 6948a9a..00b3653 100644
--- a/pywr-core/src/parameters/profiles/uniform_drawdown.rs
+++ b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
@@ -13,7 +13,7 @@ fn is_leap_year(year: i16) -> bool {
 #[derive(Debug)]
 pub struct UniformDrawdownProfileParameter {
     meta: ParameterMeta,
-    residual_days: u8,
+    residual_days: u16,
     reset_doy: i16,
 }
 
@@ -73,7 +73,7 @@ impl SimpleParameter<f64> for UniformDrawdownProfileParameter {
 #[derive(Debug)]
 pub struct UniformDrawdownProfileParameterBuilder {
     meta: ParameterMeta,
-    residual_days: u8,
+    residual_days: u16,
     reset_day: i8,
     reset_month: i8,
 }
@@ -88,7 +88,7 @@ impl UniformDrawdownProfileParameterBuilder {
         }
     }
 
-    pub fn residual_days(&mut self, residual_days: u8) -> &mut Self {
+    pub fn residual_days(&mut self, residual_days: u16) -> &mut Self {
         self.residual_days = residual_days;
         self
     }
diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 5c82fd1..dc7d31d 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -186,16 +186,30 @@ impl UniformDrawdownProfileParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
+        let out_of_range = |attr: &str, value: u64| SchemaError::LoadParameter {
+            name: self.meta.name.clone(),
+            error: format!("The value {value} of `{attr}` is out of range."),
+        };
+
         let reset_day = match &self.reset_day {
-            Some(v) => v.load(args.tables)? as i8,
+            Some(v) => {
+                let v = v.load(args.tables)?;
+                v.try_into().map_err(|_| out_of_range("reset_day", v))?
+            }
             None => 1,
         };
         let reset_month = match &self.reset_month {
-            Some(v) => v.load(args.tables)? as i8,
+            Some(v) => {
+                let v = v.load(args.tables)?;
+                v.try_into().map_err(|_| out_of_range("reset_month", v))?
+            }
             None => 1,
         };
         let residual_days = match &self.residual_days {
-            Some(v) => v.load(args.tables)? as u8,
+            Some(v) => {
+                let v = v.load(args.tables)?;
+                v.try_into().map_err(|_| out_of_range("residual_days", v))?
+            }
             None => 0,
         };
 
-- 
2.43.0


From 8930e35c2b8b612acd6ecdb69b0150ad691fc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 67/75] fix: relationships with varying factors between nodes
 that carry the same water

---
 pywr-core/src/solvers/builder.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 7b09247..2ed9307 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -87,34 +87,52 @@ where
         self.row_upper[row] = self.row_upper[row].min(ub);
     }
 
+    /// Add `value` to the updated coefficient of a column in a row.
+    ///
+    /// As in [`RowBuilder::add_element`], if the column has already been updated for this row then
+    /// `value` is added to its coefficient; nodes may share a column. The updates of one row must
+    /// follow each other.
+    fn add_coefficient_to_update(&mut self, row: I, column: I, value: f64) {
+        match self
+            .coefficients_to_update
+            .iter_mut()
+            .rev()
+            .take_while(|(r, _, _)| *r == row)
+            .find(|(_, c, _)| *c == column)
+        {
+            Some((_, _, v)) => *v += value,
+            None => self.coefficients_to_update.push((row, column, value)),
+        }
+    }
+
     fn update_row_coefficients(&mut self, row: I, node: &Node, factor: f64, col_edge_map: &ColumnEdgeMap<I>) {
         match node.node_type() {
             NodeType::Link => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Input => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Output => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Storage => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
         }
-- 
2.43.0


From b94e6dd084a3241705b0c50aff7702f1c7f9aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 68/75] fix: rolling windows of virtual storages give back the
 volumes that were used

---
 pywr-core/src/state/mod.rs       | 41 +++++++++++++++++---------------
 pywr-core/src/virtual_storage.rs |  4 ++--
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 7ea58c0..c51e8a5 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -83,38 +83,40 @@ impl NodeState {
     }
 }
 
-/// Stores the history of virtual storage flows.
+/// Stores the history of the volumes used from a virtual storage.
+///
+/// These are volumes, and not flows, because time-steps can differ in length.
 #[derive(Clone, Debug)]
 struct VirtualStorageHistory {
-    /// The flows are stored in a queue. The oldest flow is popped from the front of the queue
-    flows: VecDeque<f64>,
+    /// The volumes are stored in a queue. The oldest volume is popped from the front of the queue
+    volumes: VecDeque<f64>,
     /// The maximum size of the history.
     size: NonZeroUsize,
 }
 
 impl VirtualStorageHistory {
-    fn new(size: NonZeroUsize, initial_flow: f64) -> Self {
+    fn new(size: NonZeroUsize, initial_volume: f64) -> Self {
         Self {
-            flows: vec![initial_flow; size.get()].into(),
+            volumes: vec![initial_volume; size.get()].into(),
             size,
         }
     }
 
-    /// Reset the history to the initial flow.
-    fn reset(&mut self, initial_flow: f64) {
-        self.flows = vec![initial_flow; self.size.get()].into();
+    /// Reset the history to the initial volume.
+    fn reset(&mut self, initial_volume: f64) {
+        self.volumes = vec![initial_volume; self.size.get()].into();
     }
 
-    /// Add new flow to the history.
-    fn add_flow(&mut self, flow: f64) {
-        self.flows.push_back(flow);
+    /// Add new volume to the history.
+    fn add_volume(&mut self, volume: f64) {
+        self.volumes.push_back(volume);
     }
 
-    /// Pop the oldest flow from the history as long as the history is at least as long as the
+    /// Pop the oldest volume from the history as long as the history is at least as long as the
     /// maximum size. If the history is shorter than the maximum size then return zero.
-    fn pop_flow(&mut self) -> f64 {
-        if self.flows.len() >= self.size.get() {
-            self.flows
+    fn pop_volume(&mut self) -> f64 {
+        if self.volumes.len() >= self.size.get() {
+            self.volumes
                 .pop_front()
                 .expect("Size is non-zero therefore pop_front should succeed.")
         } else {
@@ -150,22 +152,23 @@ impl VirtualStorageState {
         self.last_reset = Some(*timestep);
     }
 
-    fn reset_history(&mut self, initial_flow: f64) {
+    fn reset_history(&mut self, initial_volume: f64) {
         if let Some(history) = self.history.as_mut() {
-            history.reset(initial_flow);
+            history.reset(initial_volume);
         }
     }
 
     fn recover_last_historical_flow(&mut self, timestep: &Timestep) {
         if let Some(history) = self.history.as_mut() {
-            self.storage.add_in_flow(history.pop_flow(), timestep);
+            self.storage
+                .add_in_flow(history.pop_volume() / timestep.days(), timestep);
         }
     }
 
     fn add_out_flow(&mut self, flow: f64, timestep: &Timestep) {
         self.storage.add_out_flow(flow, timestep);
         if let Some(history) = self.history.as_mut() {
-            history.add_flow(flow);
+            history.add_volume(flow * timestep.days());
         }
     }
 
diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index a14c674..45bc810 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -448,8 +448,8 @@ impl VirtualStorageNode {
             // Reset the rolling history if defined
             if let Some(window) = self.rolling_window {
                 // Initially the missing volume is distributed evenly across the window
-                let initial_flow = (max_volume - initial_volume) / window.get() as f64;
-                state.reset_virtual_storage_history(self.meta.index(), initial_flow)?;
+                let missing_volume = (max_volume - reset_volume) / window.get() as f64;
+                state.reset_virtual_storage_history(self.meta.index(), missing_volume)?;
             }
         }
         // Recover any historical flows from a rolling window
-- 
2.43.0


From a7732fbdcb9f81496e17350a06d4a15e22fa3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 69/75] fix: a virtual storage that is reset to its maximum
 starts from its initial volume

---
 pywr-core/src/virtual_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index 45bc810..793bce5 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -439,8 +439,9 @@ impl VirtualStorageNode {
             let initial_volume = self.initial_volume.get_absolute_initial_volume(max_volume, state)?;
 
             let reset_volume = match &self.reset_volume {
-                VirtualStorageResetVolume::Max => max_volume,
-                VirtualStorageResetVolume::Initial => initial_volume,
+                // The first timestep starts from the initial volume
+                VirtualStorageResetVolume::Max if !timestep.is_first() => max_volume,
+                VirtualStorageResetVolume::Max | VirtualStorageResetVolume::Initial => initial_volume,
             };
 
             state.reset_virtual_storage_node_volume(self.meta.index(), reset_volume, timestep, max_volume)?;
-- 
2.43.0


From f036d55b955b28947de4eff3780219a9deb60b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 70/75] fix: virtual storages are reset when their reset day
 falls within a time-step

---
 pywr-core/src/virtual_storage.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index 793bce5..7b7c1fe 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -418,7 +418,16 @@ impl VirtualStorageNode {
             match self.reset {
                 VirtualStorageReset::Never => false,
                 VirtualStorageReset::DayOfYear { day, month } => {
-                    (timestep.date.day() == day) && (timestep.date.month() == month)
+                    match state
+                        .get_network_state()
+                        .get_virtual_storage_last_reset(&self.index())?
+                    {
+                        // Reset if the day has been reached since the last reset; timesteps do not have to start on it.
+                        Some(last_reset) => {
+                            is_day_reached_since_last_reset(&timestep.date, &last_reset.date, day, month)
+                        }
+                        None => true,
+                    }
                 }
                 VirtualStorageReset::NumberOfMonths { months } => {
                     // Get the date when the virtual storage was last reset
@@ -502,6 +511,14 @@ fn months_since_last_reset(current: &DateTime, last_reset: &DateTime) -> i32 {
     (current.year() - last_reset.year()) as i32 * 12 + current.month() as i32 - last_reset.month() as i32
 }
 
+/// Returns true if the given day of a year begins after the `last_reset` and no later than `current`.
+fn is_day_reached_since_last_reset(current: &DateTime, last_reset: &DateTime, day: i8, month: i8) -> bool {
+    (last_reset.year()..=current.year())
+        .filter_map(|year| Date::new(year, month, day).ok())
+        .map(|date| date.at(0, 0, 0, 0))
+        .any(|date| *last_reset < date && date <= *current)
+}
+
 #[cfg(test)]
 mod tests {
     use crate::metric::UnresolvedMetricF64;
-- 
2.43.0


From e96cbf4fb5e3980497ecab6a4eebe864716dfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:07 +0000
Subject: [PATCH 71/75] fix: refuse negative varying ratio factors as constant
 ones are

---
 pywr-core/src/aggregated_node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 072cbd1..78c3a2f 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -913,6 +913,9 @@ fn get_norm_ratio_factor_pairs<'a>(
         .skip(1)
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
+            if v1 < 0.0 {
+                return Err(RatioFactorError::NegativeOrZeroFactor { value: v1 });
+            }
 
             // Cross-multiplied such that a factor of zero is permitted
             Ok(NodeFactorPair::new(
-- 
2.43.0


From c4ad9444f35ce30e3e8b87587d2689c05323fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:40 +0000
Subject: [PATCH 72/75] fix: thresholds declared in a node are named by their
 node

---
 pywr-schema/src/parameters/thresholds.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 1ec6b14..05da5e5 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -119,7 +119,7 @@ impl ThresholdParameter {
         // If it does not have returned metrics, we can just use the parameter name as the
         // name for the threshold parameter.
         let name = if self.returned_metrics.is_some() {
-            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
+            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
         } else {
             ParameterName::new(&self.meta.name, parent)
         };
@@ -338,9 +338,9 @@ impl MultiThresholdParameter {
         let metric = self.metric.load(network, args, None)?;
 
         let name = if self.returned_metrics.is_some() {
-            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
+            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
         } else {
-            self.meta.name.as_str().into()
+            ParameterName::new(&self.meta.name, parent)
         };
 
         let mut builder =
-- 
2.43.0


From fa9c40b133d281fa9337d7e8412881edcb8953ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 73/75] fix: parameters of a node can refer to its other
 parameters, whatever their type

---
 pywr-schema/src/parameters/asymmetric_switch.rs |  4 ++--
 pywr-schema/src/parameters/control_curves.rs    |  8 ++++----
 pywr-schema/src/parameters/core.rs              | 14 +++++++-------
 pywr-schema/src/parameters/delay.rs             |  4 ++--
 pywr-schema/src/parameters/discount_factor.rs   |  2 +-
 pywr-schema/src/parameters/hydropower.rs        | 10 +++++-----
 pywr-schema/src/parameters/indexed_array.rs     |  2 +-
 pywr-schema/src/parameters/interpolated.rs      |  6 +++---
 pywr-schema/src/parameters/offset.rs            |  2 +-
 pywr-schema/src/parameters/polynomial.rs        |  2 +-
 pywr-schema/src/parameters/python.rs            |  4 ++--
 pywr-schema/src/parameters/rolling.rs           |  4 ++--
 pywr-schema/src/parameters/thresholds.rs        | 10 +++++-----
 13 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/pywr-schema/src/parameters/asymmetric_switch.rs b/pywr-schema/src/parameters/asymmetric_switch.rs
index 135d786..5557523 100644
--- a/pywr-schema/src/parameters/asymmetric_switch.rs
+++ b/pywr-schema/src/parameters/asymmetric_switch.rs
@@ -29,8 +29,8 @@ impl AsymmetricSwitchIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let on_index_parameter = self.on_index_parameter.load(network, args, None)?;
-        let off_index_parameter = self.off_index_parameter.load(network, args, None)?;
+        let on_index_parameter = self.on_index_parameter.load(network, args, parent)?;
+        let off_index_parameter = self.off_index_parameter.load(network, args, parent)?;
 
         let p = pywr_core::parameters::AsymmetricSwitchIndexParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index c177b8f..bd834e3 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -36,18 +36,18 @@ impl ControlCurveInterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let control_curves = self
             .control_curves
             .iter()
-            .map(|cc| cc.load(network, args, None))
+            .map(|cc| cc.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let values = self
             .values
             .iter()
-            .map(|val| val.load(network, args, None))
+            .map(|val| val.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let mut p = pywr_core::parameters::ControlCurveInterpolatedParameterBuilder::before(
@@ -270,7 +270,7 @@ impl ControlCurveParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::ControlCurveParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 3486756..dca6620 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -298,7 +298,7 @@ impl MaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let idx = self.parameter.load(network, args, None)?;
+        let idx = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MaxParameterBuilder::new(
@@ -364,8 +364,8 @@ impl DivisionParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let n = self.numerator.load(network, args, None)?;
-        let d = self.denominator.load(network, args, None)?;
+        let n = self.numerator.load(network, args, parent)?;
+        let d = self.denominator.load(network, args, parent)?;
 
         let name = ParameterName::new(&self.meta.name, parent);
 
@@ -434,7 +434,7 @@ impl MinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MinParameterBuilder::new(
@@ -485,7 +485,7 @@ impl NegativeParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
 
         let p =
             pywr_core::parameters::NegativeParameterBuilder::new(ParameterName::new(&self.meta.name, parent), metric);
@@ -545,7 +545,7 @@ impl NegativeMaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMaxParameterBuilder::new(
@@ -613,7 +613,7 @@ impl NegativeMinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMinParameterBuilder::new(
diff --git a/pywr-schema/src/parameters/delay.rs b/pywr-schema/src/parameters/delay.rs
index 7278898..5a01833 100644
--- a/pywr-schema/src/parameters/delay.rs
+++ b/pywr-schema/src/parameters/delay.rs
@@ -27,7 +27,7 @@ impl DelayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -59,7 +59,7 @@ impl DelayIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/discount_factor.rs b/pywr-schema/src/parameters/discount_factor.rs
index 85ddb85..50cff4f 100644
--- a/pywr-schema/src/parameters/discount_factor.rs
+++ b/pywr-schema/src/parameters/discount_factor.rs
@@ -29,7 +29,7 @@ impl DiscountFactorParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let discount_rate = self.discount_rate.load(network, args, None)?;
+        let discount_rate = self.discount_rate.load(network, args, parent)?;
         let p = pywr_core::parameters::DiscountFactorParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             discount_rate,
diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 6fe2311..57cb38a 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -102,26 +102,26 @@ impl HydropowerTargetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let target = self.target.as_ref().map(|t| t.load(network, args, None)).transpose()?;
+        let target = self.target.as_ref().map(|t| t.load(network, args, parent)).transpose()?;
         let water_elevation = self
             .water_elevation
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let max_flow = self
             .max_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let min_flow = self
             .min_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let actual_flow = self
             .actual_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
 
         let turbine_data = HydropowerTargetData {
diff --git a/pywr-schema/src/parameters/indexed_array.rs b/pywr-schema/src/parameters/indexed_array.rs
index 0e064a5..bba1a79 100644
--- a/pywr-schema/src/parameters/indexed_array.rs
+++ b/pywr-schema/src/parameters/indexed_array.rs
@@ -29,7 +29,7 @@ impl IndexedArrayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let index_parameter = self.index_parameter.load(network, args, None)?;
+        let index_parameter = self.index_parameter.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::IndexedArrayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 7a4ddf3..0064bd2 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -40,7 +40,7 @@ impl InterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let x = self.x.load(network, args, None)?;
+        let x = self.x.load(network, args, parent)?;
 
         // Sense check the points
         if self.xp.len() != self.fp.len() {
@@ -53,12 +53,12 @@ impl InterpolatedParameter {
         let xp = self
             .xp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
         let fp = self
             .fp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let points = xp.into_iter().zip(fp).collect::<Vec<_>>();
diff --git a/pywr-schema/src/parameters/offset.rs b/pywr-schema/src/parameters/offset.rs
index 06c0474..d2262f8 100644
--- a/pywr-schema/src/parameters/offset.rs
+++ b/pywr-schema/src/parameters/offset.rs
@@ -49,7 +49,7 @@ impl OffsetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let p = pywr_core::parameters::OffsetParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index 6b84176..02bb320 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -32,7 +32,7 @@ impl Polynomial1DParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::Polynomial1DParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/python.rs b/pywr-schema/src/parameters/python.rs
index 1f45a3d..d2948c4 100644
--- a/pywr-schema/src/parameters/python.rs
+++ b/pywr-schema/src/parameters/python.rs
@@ -236,7 +236,7 @@ impl PythonParameter {
         let metrics = match &self.metrics {
             Some(metrics) => metrics
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
@@ -244,7 +244,7 @@ impl PythonParameter {
         let indices = match &self.indices {
             Some(indices) => indices
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 74f7035..5f5c8ec 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -40,7 +40,7 @@ impl RollingParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -83,7 +83,7 @@ impl RollingIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 05da5e5..7a7053c 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -111,8 +111,8 @@ impl ThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
-        let threshold = self.threshold.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
+        let threshold = self.threshold.load(network, args, parent)?;
 
         // If the parameter has returned metrics, we need to create a sub-name for the threshold parameter
         // so that it can be distinguished from the indexed array parameter.
@@ -144,7 +144,7 @@ impl ThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
             network.parameters().f64(Box::new(values_builder));
         }
@@ -335,7 +335,7 @@ impl MultiThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let name = if self.returned_metrics.is_some() {
             ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
@@ -363,7 +363,7 @@ impl MultiThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
 
             network.parameters().f64(Box::new(values_builder));
-- 
2.43.0


From 2023af9e5145efb423f95140129ccff6c1cc015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:27 +0000
Subject: [PATCH 74/75] fix: the epsilon of a v1 RBF profile is the inverse of
 the one of v2

---
 pywr-schema/src/parameters/profiles.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index dc7d31d..45aa2d9 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -473,10 +473,11 @@ impl TryFromV1<RbfProfileParameterV1> for RbfProfileParameter {
             }));
         }
 
-        // Parse any epsilon value; we expect a float here.
+        // Parse any epsilon value; we expect a non-zero float here. The distances are divided by epsilon in v1 (Scipy),
+        // but multiplied by it in v2.
         let epsilon = if let Some(epsilon_value) = v1.rbf_kwargs.get("epsilon") {
-            if let Some(epsilon_f64) = epsilon_value.as_f64() {
-                Some(epsilon_f64)
+            if let Some(epsilon_f64) = epsilon_value.as_f64().filter(|e| *e != 0.0) {
+                Some(1.0 / epsilon_f64)
             } else {
                 return Err(Box::new(ComponentConversionError::Parameter {
                     name: meta.name,
-- 
2.43.0


From 61c546743c53d0b2e7a100196f0b2b273683e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 75/75] fix: rounding of large volumes is not a mass-balance
 error

---
 pywr-core/src/lib.rs           |  1 +
 pywr-core/src/state/storage.rs | 26 +++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/lib.rs b/pywr-core/src/lib.rs
index 348dfcf..2ded5a7 100644
--- a/pywr-core/src/lib.rs
+++ b/pywr-core/src/lib.rs
@@ -29,3 +29,4 @@ const FLOAT_EQ_TOLERANCE: f64 = 1e-6;
 
 /// Absolute tolerance for detecting mass-balance discrepancies on storage nodes.
 const STORAGE_MASS_BALANCE_TOLERANCE: f64 = 1e-6;
+const STORAGE_MASS_BALANCE_RELATIVE_TOLERANCE: f64 = 1e-12;
diff --git a/pywr-core/src/state/storage.rs b/pywr-core/src/state/storage.rs
index 91ff129..4f0d048 100644
--- a/pywr-core/src/state/storage.rs
+++ b/pywr-core/src/state/storage.rs
@@ -1,6 +1,6 @@
-use crate::STORAGE_MASS_BALANCE_TOLERANCE;
 use crate::state::FlowState;
 use crate::timestep::Timestep;
+use crate::{STORAGE_MASS_BALANCE_RELATIVE_TOLERANCE, STORAGE_MASS_BALANCE_TOLERANCE};
 use num::Zero;
 
 /// The state of a storage node in the network.
@@ -81,17 +81,33 @@ impl StorageState {
         self.max_volume = max_volume;
     }
 
+    /// The difference from the min or max volume that is attributed to rounding.
+    ///
+    /// Rounding errors are proportional to the flows and volumes, so a fixed tolerance alone
+    /// would be too small for large volumes.
+    fn mass_balance_tolerance(&self, min_volume: f64, max_volume: f64) -> f64 {
+        let scale = [min_volume, max_volume, self.flows.in_flow, self.flows.out_flow]
+            .into_iter()
+            .map(f64::abs)
+            .filter(|v| *v < f64::MAX)
+            .fold(0.0, f64::max);
+
+        STORAGE_MASS_BALANCE_TOLERANCE.max(scale * STORAGE_MASS_BALANCE_RELATIVE_TOLERANCE)
+    }
+
     /// Ensure the volume is within the min and max volume range (inclusive). If the volume
-    /// is more than 1E6 outside the min or max volume then this function will panic,
-    /// reporting a mass-balance message.
+    /// is outside the min or max volume by more than the mass-balance tolerance then this
+    /// function will panic, reporting a mass-balance message.
     fn clamp(&mut self, min_volume: f64, max_volume: f64) {
-        if (self.volume - min_volume) < -STORAGE_MASS_BALANCE_TOLERANCE {
+        let tolerance = self.mass_balance_tolerance(min_volume, max_volume);
+
+        if (self.volume - min_volume) < -tolerance {
             panic!(
                 "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
                 self.volume, min_volume
             );
         }
-        if (self.volume - max_volume) > STORAGE_MASS_BALANCE_TOLERANCE {
+        if (self.volume - max_volume) > tolerance {
             panic!(
                 "Mass-balance error detected. Volume ({}) is greater than maximum volume ({}).",
                 self.volume, max_volume,
-- 
2.43.0

