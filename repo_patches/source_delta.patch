From 25eb49423af44ed041454e580dac10344a3358af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 01/12] fix: compare standard deviations, not variances, with
 tol_x in the TolX check

---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..dabede0 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 755d1ed42ae8de7ec3543ed5d882e5ce9d8e332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 02/12] fix: count the evaluations made in a generation that
 ends with an invalid function value

---
 src/sampling.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..86f504f 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -7,6 +7,8 @@ use rand_chacha::ChaCha12Rng;
 use rayon::prelude::*;
 use statrs::distribution::Normal;
 
+use std::sync::atomic::{AtomicUsize, Ordering};
+
 use crate::mode::Mode;
 use crate::state::State;
 use crate::{ObjectiveFunction, ParallelObjectiveFunction};
@@ -79,7 +81,11 @@ impl<F> Sampler<F> {
 
     /// Shared logic between `sample` and `sample_parallel`
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(
+            Vec<DVector<f64>>,
+            &mut F,
+            &AtomicUsize,
+        ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
     >(
         &mut self,
         state: &State,
@@ -143,10 +149,13 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
+        // Count the evaluations individually, as some are made even if the generation fails
+        let evals = AtomicUsize::new(0);
+        let result = evaluate_points(y, &mut self.objective_function, &evals);
 
-        self.function_evals += points.len();
+        self.function_evals += evals.into_inner();
 
+        let mut points = result?;
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
     }
@@ -172,10 +181,11 @@ impl<F: ObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, objective_function, evals| {
             y.into_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate(x)
                     })
                 })
@@ -192,10 +202,11 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, objective_function, evals| {
             y.into_par_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate_parallel(x)
                     })
                 })
-- 
2.43.0


From 1147aef88af6274a3e1553a3ce776a6e1e1927aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 03/12] fix: keep the best individual of a restart run that
 ends with an invalid function value

---
 src/restart/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1cf0c7a..c753aed 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -373,6 +373,10 @@ impl Restarter {
             function_evals += final_state.function_evals();
             runs += 1;
 
+            if let Some(best) = final_state.overall_best_individual().cloned() {
+                self.update_best_individual(best);
+            }
+
             // Check RestartTerminationReason::InvalidFunctionValue
             if reasons
                 .iter()
@@ -382,10 +386,6 @@ impl Restarter {
                 break;
             }
 
-            if let Some(best) = final_state.overall_best_individual().cloned() {
-                self.update_best_individual(best);
-            }
-
             // Check RestartTerminationReason::FunTarget if enabled
             if reasons.iter().any(|&r| r == TerminationReason::FunTarget) {
                 reason = RestartTerminationReason::FunTarget;
-- 
2.43.0


From 290fb9151da4875a115c7bc3bd2437a62881bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 04/12] fix: limit the function evaluations of BIPOP local
 restarts even without a per-run limit

---
 src/restart/bipop.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..79fb386 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -117,9 +117,12 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let lr_limit = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(lr_limit, |max_fevals| max_fevals.min(lr_limit)),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From 9a8d9ff456bc55a29e48caa70f30fead52b4336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 05/12] fix: prevent a NAN median function value, which could
 panic the TolStagnation check

---
 src/history.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index a417dbd..9d4ec61 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -137,12 +137,20 @@ impl History {
 /// Returns the median function value of the generation
 /// Assumes that `individuals` is already sorted by function value
 fn get_median_value(individuals: &[EvaluatedPoint]) -> f64 {
+    let middle = individuals[individuals.len() / 2].value();
+
     if individuals.len() % 2 == 0 {
-        (individuals[individuals.len() / 2 - 1].value()
-            + individuals[individuals.len() / 2].value())
-            / 2.0
+        // Halving before adding avoids overflow
+        let median = individuals[individuals.len() / 2 - 1].value() / 2.0 + middle / 2.0;
+
+        // The values have no average if they are infinite and opposite, so use the worse one
+        if median.is_nan() {
+            middle
+        } else {
+            median
+        }
     } else {
-        individuals[individuals.len() / 2].value()
+        middle
     }
 }
 
-- 
2.43.0


From 85000b9069af4896b81f1047b3c8b0c681062ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 06/12] fix: do not print the final generation twice if it was
 one of the first few

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..9710e01 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,8 +217,11 @@ pub struct CMAES<F> {
     /// The minimum number of function evaluations to wait for in between each automatic
     /// [`CMAES::print_info`] call
     print_gap_evals: Option<usize>,
-    /// The last time [`CMAES::print_info`] was called, in function evaluations
+    /// The last time [`CMAES::print_info`] was called, in function evaluations (not updated by the
+    /// calls that are always made for the first few generations)
     last_print_evals: usize,
+    /// Like `last_print_evals`, but updated by every automatic call
+    last_auto_print_evals: usize,
     /// The time at which the `CMAES` was created
     time_created: Instant,
 }
@@ -281,6 +284,7 @@ impl<F> CMAES<F> {
             plot,
             print_gap_evals: options.print_gap_evals,
             last_print_evals: 0,
+            last_auto_print_evals: 0,
             time_created: Instant::now(),
         };
 
@@ -343,10 +347,12 @@ impl<F> CMAES<F> {
             if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
+                self.last_auto_print_evals = self.sampler.function_evals();
             } else if self.state.generation() < 4 {
                 // Don't update last_print_evals so the printed generation numbers can remain
                 // multiples of 10
                 self.print_info();
+                self.last_auto_print_evals = self.sampler.function_evals();
             }
         }
 
@@ -562,7 +568,7 @@ impl<F> CMAES<F> {
     /// called manually after termination to print the final state if [`run`][`Self::run`] isn't
     /// used.
     pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) {
-        if self.sampler.function_evals() != self.last_print_evals {
+        if self.sampler.function_evals() != self.last_auto_print_evals {
             self.print_info();
         }
 
-- 
2.43.0


From 495e158db25aa70669175792412f1badbc0ed5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 07/12] fix: reject non-finite and vanishing search ranges when
 building a Restarter

---
 src/restart/mod.rs     | 2 +-
 src/restart/options.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index c753aed..7e67f23 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -166,7 +166,7 @@ impl Restarter {
 
         if options.dimensions == 0 {
             Err(InvalidRestartOptionsError::Dimensions)
-        } else if options.search_range.end() - options.search_range.start() == 0.0 {
+        } else if !(options.search_range.end() - options.search_range.start()).is_normal() {
             Err(InvalidRestartOptionsError::SearchRange)
         } else {
             Ok(Self {
diff --git a/src/restart/options.rs b/src/restart/options.rs
index 53a43a8..d85fc2a 100644
--- a/src/restart/options.rs
+++ b/src/restart/options.rs
@@ -12,7 +12,7 @@ use crate::{CMAESOptions, Mode};
 pub enum InvalidRestartOptionsError {
     /// The number of dimensions is set to zero.
     Dimensions,
-    /// The search range size is zero.
+    /// The search range size is zero or non-normal (e.g. one of its bounds is not finite).
     SearchRange,
 }
 
-- 
2.43.0


From bf7a1e15e6ee2c2482a3ecfe06f4af84ee1f3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 08/12] fix: leave values that cannot be drawn out of the plot
 instead of hanging

---
 src/plotting/draw.rs | 61 ++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index e5417a7..9665546 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -18,13 +18,14 @@ use super::data::PlotData;
 use super::options::PlotOptions;
 use super::utils::apply_offset;
 use super::{Backend, DrawingError};
-use crate::utils::partial_cmp;
 use crate::Mode;
 
 /// The font to use for text in the plot
 const FONT: &str = "sans-serif";
 /// The maximum number of elements to allow in a legend before removing it
 const MAX_LEGEND_VALUES: usize = 18;
+/// The maximum magnitude of values to draw, which leaves room for the axis range to remain finite
+const MAX_DRAWABLE_VALUE: f64 = 1e300;
 
 /// Parameters for a y-axis
 struct YAxis<Y> {
@@ -70,7 +71,7 @@ pub fn draw_single_dimensioned<'a>(
         .iter()
         .cloned()
         .enumerate()
-        .filter(|(_, y)| !y.is_nan())
+        .filter(|(_, y)| is_drawable(*y))
         .min_by(|(_, a), (_, b)| mode.sort_cmp(*a, *b));
 
     // The number of times the overall best function value appears, used to decide whether to
@@ -111,9 +112,7 @@ pub fn draw_single_dimensioned<'a>(
         );
     }
 
-    // Filter out dummy values added at initialization
-    let all_y_values = all_y_values.into_iter().filter(|y| !y.is_nan());
-    let y_axis = get_log_y_axis(all_y_values);
+    let y_axis = get_log_y_axis(all_y_values.into_iter());
 
     let draw = |context: &mut ChartContext<_, _>| {
         let function_evals = data.function_evals().iter().cloned();
@@ -148,12 +147,10 @@ pub fn draw_single_dimensioned<'a>(
             context.draw_series(LineSeries::new(points_dist_right, &colors::CYAN))?;
 
             // Marker for overall best function value
-            if !best_value.is_nan() {
-                let abs_overall_best = (data.function_evals()[best_index], best_value.abs());
-                context
-                    .plotting_area()
-                    .draw(&Cross::new(abs_overall_best, 10, colors::RED))?;
-            }
+            let abs_overall_best = (data.function_evals()[best_index], best_value.abs());
+            context
+                .plotting_area()
+                .draw(&Cross::new(abs_overall_best, 10, colors::RED))?;
         }
 
         // Per-generation best function values
@@ -405,7 +402,12 @@ fn add_to_legend<C: Color + 'static>(annotation: &mut SeriesAnno<Backend>, label
         .legend(move |(x, y)| PathElement::new(vec![(x, y), (x + 20, y)], &color));
 }
 
-/// Returns an iterator of (x, y) points with NAN y points filtered out
+/// Returns whether the value can be drawn (NAN, infinite, and extremely large values can't)
+fn is_drawable(y: f64) -> bool {
+    y.abs() <= MAX_DRAWABLE_VALUE
+}
+
+/// Returns an iterator of (x, y) points with y points that can't be drawn filtered out
 fn get_points<'a, X, Y>(x: X, y: Y) -> impl Iterator<Item = (usize, f64)> + 'a
 where
     X: IntoIterator<Item = usize> + 'a,
@@ -413,22 +415,26 @@ where
 {
     x.into_iter()
         .zip(y)
-        .filter(|&(_, y)| !y.is_nan())
+        .filter(|&(_, y)| is_drawable(y))
         .map(|(x, y)| (x, y))
 }
 
-/// Returns a log axis encompassing all values in the iterator. The range has a small margin added
-/// to either end.
-fn get_log_y_axis<I: Iterator<Item = f64> + Clone>(iter: I) -> YAxis<LogCoord<f64>> {
+/// Returns the minimum and maximum of the values in the iterator that can be drawn
+fn get_drawable_range<I: Iterator<Item = f64>>(iter: I) -> Option<(f64, f64)> {
+    iter.filter(|y| is_drawable(*y)).fold(None, |range, y| {
+        let (min, max) = range.unwrap_or((y, y));
+        Some((min.min(y), max.max(y)))
+    })
+}
+
+/// Returns a log axis encompassing all drawable values in the iterator. The range has a small margin
+/// added to either end.
+fn get_log_y_axis<I: Iterator<Item = f64>>(iter: I) -> YAxis<LogCoord<f64>> {
     // Margin to be added to the top and bottom of the range
     let margin = 0.4;
-    let log_min = iter
-        .clone()
-        .min_by(|a, b| partial_cmp(*a, *b))
-        .unwrap()
-        .log10()
-        - margin;
-    let log_max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap().log10() + margin;
+    let (min, max) = get_drawable_range(iter).unwrap_or((1.0, 1.0));
+    let log_min = min.log10() - margin;
+    let log_max = max.log10() + margin;
 
     let num_labels = ((log_max - log_min).round() as usize).min(26);
     let y_range: LogCoord<f64> = (10f64.powf(log_min)..10f64.powf(log_max))
@@ -438,16 +444,15 @@ fn get_log_y_axis<I: Iterator<Item = f64> + Clone>(iter: I) -> YAxis<LogCoord<f6
     YAxis::new(y_range, num_labels, YAxisKind::Log)
 }
 
-/// Returns a linear axis encompassing all values in the iterator. The range has a small margin
-/// added to either end.
+/// Returns a linear axis encompassing all drawable values in the iterator. The range has a small
+/// margin added to either end.
 ///
 /// Uses scientific notation for axis labels if `scientific_notation` is true
-fn get_linear_y_axis<I: Iterator<Item = f64> + Clone>(
+fn get_linear_y_axis<I: Iterator<Item = f64>>(
     iter: I,
     scientific_notation: bool,
 ) -> YAxis<Range<f64>> {
-    let mut min = iter.clone().min_by(|a, b| partial_cmp(*a, *b)).unwrap();
-    let mut max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap();
+    let (mut min, mut max) = get_drawable_range(iter).unwrap_or((0.0, 0.0));
     let mut margin = (max - min) * 0.15;
 
     if margin == 0.0 {
-- 
2.43.0


From 74358d4b47053936f03cf2aafeb246b4966100d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 09/12] fix: don't overflow with a huge plot gap

---
 src/plotting/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From 9529b75bfcafec407d43a8a9e05021c19414e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 10/12] fix: correct flipped search ranges that were set
 directly instead of panicking in the run

---
 src/restart/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 7e67f23..a7a1200 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -164,9 +164,15 @@ impl Restarter {
     pub fn new(options: RestartOptions) -> Result<Self, InvalidRestartOptionsError> {
         let seed = options.seed.unwrap_or_else(rand::random);
 
+        // The range may still be flipped if the field was set directly
+        let mut search_range = options.search_range;
+        if search_range.is_empty() {
+            search_range = *search_range.end()..=*search_range.start();
+        }
+
         if options.dimensions == 0 {
             Err(InvalidRestartOptionsError::Dimensions)
-        } else if !(options.search_range.end() - options.search_range.start()).is_normal() {
+        } else if !(search_range.end() - search_range.start()).is_normal() {
             Err(InvalidRestartOptionsError::SearchRange)
         } else {
             Ok(Self {
@@ -175,7 +181,7 @@ impl Restarter {
                 mode: options.mode,
                 parallel_update: options.parallel_update,
                 default_options: options.default_options,
-                search_range: options.search_range,
+                search_range,
                 fun_target: options.fun_target,
                 max_function_evals: options.max_function_evals,
                 max_time: options.max_time,
-- 
2.43.0


From bcd93e5eee88fa7489237a8afd1030d721d328db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 11/12] fix: do not print the last generation again when the
 following one is invalid

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9710e01..a659b28 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -220,8 +220,8 @@ pub struct CMAES<F> {
     /// The last time [`CMAES::print_info`] was called, in function evaluations (not updated by the
     /// calls that are always made for the first few generations)
     last_print_evals: usize,
-    /// Like `last_print_evals`, but updated by every automatic call
-    last_auto_print_evals: usize,
+    /// The generation that was last printed automatically
+    last_auto_print_generation: usize,
     /// The time at which the `CMAES` was created
     time_created: Instant,
 }
@@ -284,7 +284,7 @@ impl<F> CMAES<F> {
             plot,
             print_gap_evals: options.print_gap_evals,
             last_print_evals: 0,
-            last_auto_print_evals: 0,
+            last_auto_print_generation: 0,
             time_created: Instant::now(),
         };
 
@@ -347,12 +347,12 @@ impl<F> CMAES<F> {
             if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
-                self.last_auto_print_evals = self.sampler.function_evals();
+                self.last_auto_print_generation = self.state.generation();
             } else if self.state.generation() < 4 {
                 // Don't update last_print_evals so the printed generation numbers can remain
                 // multiples of 10
                 self.print_info();
-                self.last_auto_print_evals = self.sampler.function_evals();
+                self.last_auto_print_generation = self.state.generation();
             }
         }
 
@@ -568,7 +568,7 @@ impl<F> CMAES<F> {
     /// called manually after termination to print the final state if [`run`][`Self::run`] isn't
     /// used.
     pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) {
-        if self.sampler.function_evals() != self.last_auto_print_evals {
+        if self.state.generation() != self.last_auto_print_generation {
             self.print_info();
         }
 
-- 
2.43.0


From 07c8be3fdcda5ffd23fa0689453d443b32d6fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 12/12] fix: do not hang when drawing values so far apart that
 their ratio overflows

---
 src/plotting/draw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index 9665546..7d56cc3 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -25,7 +25,8 @@ const FONT: &str = "sans-serif";
 /// The maximum number of elements to allow in a legend before removing it
 const MAX_LEGEND_VALUES: usize = 18;
 /// The maximum magnitude of values to draw, which leaves room for the axis range to remain finite
-const MAX_DRAWABLE_VALUE: f64 = 1e300;
+/// (including the ratio of its ends for log axes, which are never below the offset of the values)
+const MAX_DRAWABLE_VALUE: f64 = 1e250;
 
 /// Parameters for a y-axis
 struct YAxis<Y> {
-- 
2.43.0

