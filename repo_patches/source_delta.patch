From 5f7aba1df0a67f88282211b13451adba85609450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 1/6] verif: cfg(cmaes_verif)-guarded include hooks for
 contract harnesses

---
 src/functions.rs          | 4 ++++
 src/history.rs            | 4 ++++
 src/lib.rs                | 6 ++++++
 src/matrix.rs             | 4 ++++
 src/mode.rs               | 4 ++++
 src/objective_function.rs | 4 ++++
 src/options.rs            | 4 ++++
 src/parameters/mod.rs     | 4 ++++
 src/parameters/weights.rs | 4 ++++
 src/plotting/data.rs      | 4 ++++
 src/plotting/mod.rs       | 4 ++++
 src/restart/bipop.rs      | 4 ++++
 src/restart/ipop.rs       | 4 ++++
 src/restart/local.rs      | 4 ++++
 src/restart/mod.rs        | 4 ++++
 src/restart/options.rs    | 4 ++++
 src/restart/strategy.rs   | 4 ++++
 src/sampling.rs           | 4 ++++
 src/state.rs              | 4 ++++
 src/termination.rs        | 4 ++++
 src/utils.rs              | 4 ++++
 21 files changed, 86 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index bf8865b..857fc05 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -122,3 +122,7 @@ where
         .overall_best
         .expect(INVALID_VALUE)
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/functions.rs"));
diff --git a/src/history.rs b/src/history.rs
index a417dbd..6de21da 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -369,3 +369,7 @@ mod tests {
         median_value_worsening(Mode::Maximize);
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/history.rs"));
diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..2251aff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,6 +103,8 @@
 //
 // Automatic restart algorithms are contained in the `restart` module.
 
+#![allow(unexpected_cfgs)]
+
 pub mod functions;
 mod history;
 mod matrix;
@@ -791,3 +793,7 @@ mod tests {
         );
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/lib.rs"));
diff --git a/src/matrix.rs b/src/matrix.rs
index a2ee39f..df31044 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -158,3 +158,7 @@ mod tests {
         assert!(cov.update_eigendecomposition().is_err());
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/matrix.rs"));
diff --git a/src/mode.rs b/src/mode.rs
index a0d172a..a98fd2c 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -82,3 +82,7 @@ mod tests {
         assert_eq!(2.0, Mode::Maximize.choose_best(2.0, 1.0));
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/mode.rs"));
diff --git a/src/objective_function.rs b/src/objective_function.rs
index dc503e9..2135335 100644
--- a/src/objective_function.rs
+++ b/src/objective_function.rs
@@ -264,3 +264,7 @@ mod tests {
         assert_eq!(14.0, scale.evaluate(&vec![1.0; 3].into()));
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/objective_function.rs"));
diff --git a/src/options.rs b/src/options.rs
index 0be35f0..57eebb8 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -421,3 +421,7 @@ mod tests {
         ));
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/options.rs"));
diff --git a/src/parameters/mod.rs b/src/parameters/mod.rs
index ba66293..074710d 100644
--- a/src/parameters/mod.rs
+++ b/src/parameters/mod.rs
@@ -305,3 +305,7 @@ impl Parameters {
         self.parallel_update
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/parameters_mod.rs"));
diff --git a/src/parameters/weights.rs b/src/parameters/weights.rs
index 942b5c3..a5aa87b 100644
--- a/src/parameters/weights.rs
+++ b/src/parameters/weights.rs
@@ -200,3 +200,7 @@ mod tests {
         }
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/parameters_weights.rs"));
diff --git a/src/plotting/data.rs b/src/plotting/data.rs
index 022d15b..6f9f0d4 100644
--- a/src/plotting/data.rs
+++ b/src/plotting/data.rs
@@ -162,3 +162,7 @@ impl PlotData {
         }
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/plotting_data.rs"));
diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..ebf9036 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -322,3 +322,7 @@ mod tests {
             .is_ok());
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/plotting_mod.rs"));
diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..0f0c12c 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -346,3 +346,7 @@ mod tests {
         assert_eq!(bipop_fevals, bipop.ipop_function_evals);
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/restart_bipop.rs"));
diff --git a/src/restart/ipop.rs b/src/restart/ipop.rs
index f972e31..8d31b52 100644
--- a/src/restart/ipop.rs
+++ b/src/restart/ipop.rs
@@ -151,3 +151,7 @@ mod tests {
         assert_eq!(2, ipop.increase_factor);
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/restart_ipop.rs"));
diff --git a/src/restart/local.rs b/src/restart/local.rs
index 114a1be..b0d1947 100644
--- a/src/restart/local.rs
+++ b/src/restart/local.rs
@@ -158,3 +158,7 @@ mod tests {
         assert_eq!(5, local.max_runs)
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/restart_local.rs"));
diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1cf0c7a..505bac2 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -720,3 +720,7 @@ mod tests {
         assert_approx_eq!(0.9999999989799438, best.point[1], eps);
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/restart_mod.rs"));
diff --git a/src/restart/options.rs b/src/restart/options.rs
index 53a43a8..9f2a77c 100644
--- a/src/restart/options.rs
+++ b/src/restart/options.rs
@@ -211,3 +211,7 @@ mod tests {
         ));
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/restart_options.rs"));
diff --git a/src/restart/strategy.rs b/src/restart/strategy.rs
index 6526125..d610852 100644
--- a/src/restart/strategy.rs
+++ b/src/restart/strategy.rs
@@ -127,3 +127,7 @@ impl Strategy for RestartStrategy {
         }
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/restart_strategy.rs"));
diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..f155c7d 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -422,3 +422,7 @@ mod tests {
         sample_sort(Mode::Maximize, [5.0, 4.0, 3.0, 2.0, 1.0]);
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/sampling.rs"));
diff --git a/src/state.rs b/src/state.rs
index 1b1986f..b850deb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -232,3 +232,7 @@ where
         .map(map_weights)
         .reduce(identity, |a, b| a + b)
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/state.rs"));
diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..4d551cf 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -781,3 +781,7 @@ mod tests {
         );
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/termination.rs"));
diff --git a/src/utils.rs b/src/utils.rs
index 83b6d92..65fbb89 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -83,3 +83,7 @@ mod tests {
         assert!(range([]).is_none());
     }
 }
+
+// Verification contracts and harnesses; compiled only with `--cfg cmaes_verif`
+#[cfg(cmaes_verif)]
+include!(concat!(env!("CMAES_VERIF_SPECS"), "/utils.rs"));
-- 
2.43.0


From f79cf8a7e6c9b155673f5523d45f7d212af219dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 2/6] fix: TolX compares the standard deviation, not the
 variance, of each coordinate

TolX is documented as the standard deviation of the distribution being smaller
than tol_x in every coordinate, but the diagonal of the covariance matrix was
used without taking its square root (print_info and the plot do take it).
---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4d551cf..0a49149 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 667d816992a0a3c24cd157108672b0e36082b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 3/6] fix: limit BIPOP local restarts even without a per-run
 evaluation limit

Half the evaluations of the most recent IPOP run is meant to be the limit for
local restarts unless max_function_evals is stricter, but no limit at all was
applied when max_function_evals was unset (the default).
---
 src/restart/bipop.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index 0f0c12c..2896aaf 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -117,9 +117,12 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let lr_max_fevals = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(lr_max_fevals, |max_fevals| max_fevals.min(lr_max_fevals)),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From 924122d04f963e9f3968a6a94acb469f6f42e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 4/6] fix: keep the best individual of a restart run that ends
 with an invalid value

Restarter checked for InvalidFunctionValue before updating the overall best
individual, so everything found in that run was lost from the results.
---
 src/restart/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 505bac2..6da8de9 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -373,6 +373,10 @@ impl Restarter {
             function_evals += final_state.function_evals();
             runs += 1;
 
+            if let Some(best) = final_state.overall_best_individual().cloned() {
+                self.update_best_individual(best);
+            }
+
             // Check RestartTerminationReason::InvalidFunctionValue
             if reasons
                 .iter()
@@ -382,10 +386,6 @@ impl Restarter {
                 break;
             }
 
-            if let Some(best) = final_state.overall_best_individual().cloned() {
-                self.update_best_individual(best);
-            }
-
             // Check RestartTerminationReason::FunTarget if enabled
             if reasons.iter().any(|&r| r == TerminationReason::FunTarget) {
                 reason = RestartTerminationReason::FunTarget;
-- 
2.43.0


From 79663451210457bf9bd2ced1756a889693fd0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 5/6] fix: count evaluations of a generation in which an
 invalid value was returned

function_evals is documented as the number of times the objective function has
been evaluated, but the calls made in a generation that ended with NaN were not
counted (neither in CMAES::function_evals nor in RestartResults).
---
 src/sampling.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index f155c7d..e6d7f6b 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -7,6 +7,8 @@ use rand_chacha::ChaCha12Rng;
 use rayon::prelude::*;
 use statrs::distribution::Normal;
 
+use std::sync::atomic::{AtomicUsize, Ordering};
+
 use crate::mode::Mode;
 use crate::state::State;
 use crate::{ObjectiveFunction, ParallelObjectiveFunction};
@@ -79,7 +81,11 @@ impl<F> Sampler<F> {
 
     /// Shared logic between `sample` and `sample_parallel`
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(
+            Vec<DVector<f64>>,
+            &mut F,
+            &AtomicUsize,
+        ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
     >(
         &mut self,
         state: &State,
@@ -143,10 +149,12 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
-
-        self.function_evals += points.len();
+        // Evaluations are counted even if one of them returns an invalid value
+        let evals = AtomicUsize::new(0);
+        let points = evaluate_points(y, &mut self.objective_function, &evals);
+        self.function_evals += evals.into_inner();
 
+        let mut points = points?;
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
     }
@@ -172,10 +180,11 @@ impl<F: ObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, objective_function, evals| {
             y.into_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate(x)
                     })
                 })
@@ -192,10 +201,11 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, objective_function, evals| {
             y.into_par_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate_parallel(x)
                     })
                 })
-- 
2.43.0


From ed23456ba7b34505aa4d3a97e76f02d50718dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 6/6] fix: do not record a NaN median when the middle values
 are opposite infinities

---
 src/history.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 6de21da..f466d32 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -138,9 +138,17 @@ impl History {
 /// Assumes that `individuals` is already sorted by function value
 fn get_median_value(individuals: &[EvaluatedPoint]) -> f64 {
     if individuals.len() % 2 == 0 {
-        (individuals[individuals.len() / 2 - 1].value()
+        let median = (individuals[individuals.len() / 2 - 1].value()
             + individuals[individuals.len() / 2].value())
-            / 2.0
+            / 2.0;
+
+        // Opposite infinities have no mean, and a NaN must not enter the history (computing the
+        // median for TolStagnation would panic), so the better of the two is used instead
+        if median.is_nan() {
+            individuals[individuals.len() / 2 - 1].value()
+        } else {
+            median
+        }
     } else {
         individuals[individuals.len() / 2].value()
     }
-- 
2.43.0

