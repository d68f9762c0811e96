From 70e2bd873f1ad8085483b8475fd7243a0fbef87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 01/19] fix: keep child weights within inherited monotone
 bounds on every split

The bounds a constrained split hands to its children were only applied when
the child's own split feature was constrained too, so an unconstrained split
below a constrained one could break monotonicity (and trip the assertion of
force_children_to_bound_parent).
---
 src/utils.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..212af62 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -120,20 +120,17 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
+    _constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    // The bounds come from constrained splits further up in the tree, so they
+    // apply regardless of whether this feature is itself constrained.
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From 5ecd1c9408825ea9702b170fa011c89f153d002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 02/19] fix: count two new leaves for a missing-branch split

new_leaves_added was an inherent method of MissingBranchSplitter, so trees were
grown with the trait default of one and could exceed max_leaves.
---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From acd6aabe04089beaee77230077181bb33aebf945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:38 +0000
Subject: [PATCH 03/19] fix: skip splits with an undefined weight before
 bounding children

With l2 = 0 and l1 > 0 an empty side whose gradient is only rounding noise has
weight 0/0, which tripped the assertion of force_children_to_bound_parent and
aborted training.
---
 src/splitter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/splitter.rs b/src/splitter.rs
index b54a76c..ef90cc4 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -388,6 +388,12 @@ impl Splitter for MissingBranchSplitter {
             constraint,
         );
 
+        // An undefined weight means one of the sides is empty, there is nothing
+        // to split on.
+        if left_weight.is_nan() || right_weight.is_nan() {
+            return None;
+        }
+
         if self.force_children_to_bound_parent {
             (left_weight, right_weight) = bound_to_parent(parent_weight, left_weight, right_weight);
             assert!(between(lower_bound, upper_bound, left_weight));
-- 
2.43.0


From 94ff6004739252a288f7c56eb28bc3be7df3866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:02 +0000
Subject: [PATCH 04/19] fix: treat an empty list of evaluation sets like none

---
 src/gradientbooster.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..d278d27 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -559,8 +559,11 @@ impl GradientBooster {
         let bdata = Matrix::new(&binned_data.binned_data, data.rows, data.cols);
 
         // Create the predictions, saving them with the evaluation data.
-        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> =
-            evaluation_data.as_ref().map(|evals| {
+        // An empty list of evaluation sets is the same as not providing any.
+        let mut evaluation_sets: Option<Vec<TrainingEvaluationData>> = evaluation_data
+            .as_ref()
+            .filter(|evals| !evals.is_empty())
+            .map(|evals| {
                 evals
                     .iter()
                     .map(|(d, y, w)| (d, *y, *w, vec![self.base_score; y.len()]))
-- 
2.43.0


From 49d6bde8fe714bc6cf9261176aa148263a67eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 05/19] fix: keep the log loss metric defined for saturated
 probabilities

---
 src/metric.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/metric.rs b/src/metric.rs
index 45f61cb..cd6d4ee 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -131,13 +131,18 @@ pub fn log_loss(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
         .zip(sample_weight)
         .map(|((y_, yhat_), w_)| {
             w_sum += *w_;
-            let yhat_ = f64::ONE / (f64::ONE + (-*yhat_).exp());
-            -(*y_ * yhat_.ln() + (f64::ONE - *y_) * ((f64::ONE - yhat_).ln())) * *w_
+            // Calculated from the log odds, so that it stays accurate, and
+            // defined, when the probability rounds to zero or one.
+            (*y_ * softplus(-*yhat_) + (f64::ONE - *y_) * softplus(*yhat_)) * *w_
         })
         .sum::<f64>();
     res / w_sum
 }
 
+fn softplus(v: f64) -> f64 {
+    v.max(0.) + (-v.abs()).exp().ln_1p()
+}
+
 pub fn root_mean_squared_log_error(y: &[f64], yhat: &[f64], sample_weight: &[f64]) -> f64 {
     let mut w_sum = 0.;
     let res = y
-- 
2.43.0


From 3f95ed49ab159fba68bd6c3560de44652a84d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 06/19] fix: reject NaN training features before the previous
 model is discarded

With a non-NaN missing marker, a NaN in the training data panicked in binning,
after the trees and base score of the previous fit were already gone. Return
the (so far unused) NANVAlueFound error before anything is changed.
---
 src/gradientbooster.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index d278d27..6688140 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -441,6 +441,9 @@ impl GradientBooster {
         evaluation_data: Option<Vec<EvaluationData>>,
     ) -> Result<(), ForustError> {
         // Validate inputs
+        if !self.missing.is_nan() && data.data.iter().any(|v| v.is_nan()) {
+            return Err(ForustError::NANVAlueFound(self.missing));
+        }
         validate_not_nan_vec(y, "y".to_string())?;
         validate_positive_not_nan_vec(sample_weight, "sample_weight".to_string())?;
         if let Some(eval_data) = &evaluation_data {
-- 
2.43.0


From fb9e10a1bac136f103a0ad723232d903a2a007be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:13 +0000
Subject: [PATCH 07/19] fix: load models whose evaluation history holds a NaN
 metric

serde_json writes NaN as null, which the history's f64 deserializer rejected,
so a model trained with e.g. AUC on a one-class evaluation set could be saved
but never loaded again.
---
 src/gradientbooster.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 6688140..aa76ce3 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -168,7 +168,10 @@ pub struct GradientBooster {
     #[serde(default = "default_terminate_missing_features")]
     pub terminate_missing_features: HashSet<usize>,
     /// A matrix of the evaluation history on the evaluation datasets.
-    #[serde(default = "default_evaluation_history")]
+    #[serde(
+        default = "default_evaluation_history",
+        deserialize_with = "parse_evaluation_history"
+    )]
     pub evaluation_history: Option<RowMajorMatrix<f64>>,
     #[serde(default = "default_best_iteration")]
     pub best_iteration: Option<usize>,
@@ -254,6 +257,18 @@ where
     Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
 }
 
+// JSON has no NaN, so a NaN metric is written as null.
+fn parse_evaluation_history<'de, D>(d: D) -> Result<Option<RowMajorMatrix<f64>>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let history: Option<RowMajorMatrix<Option<f64>>> = Deserialize::deserialize(d)?;
+    Ok(history.map(|h| {
+        let data = h.data.iter().map(|v| v.unwrap_or(f64::NAN)).collect();
+        RowMajorMatrix::new(data, h.rows, h.cols)
+    }))
+}
+
 impl Default for GradientBooster {
     fn default() -> Self {
         Self::new(
-- 
2.43.0


From dc175b00ecb7e3179dcc929cd4de89ad2314d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:21 +0000
Subject: [PATCH 08/19] fix: do not abort training when GOSS top_rate is above
 one

A top rate above one is accepted by the parameter validation, but made the
sampler slice past the end of the sorted rows. Keep every row instead.
---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index a1dd21c..1453397 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -83,7 +83,7 @@ impl Sampler for GossSampler {
         hess: &mut [f32],
     ) -> (Vec<usize>, Vec<usize>) {
         let fact = ((1. - self.a) / self.b) as f32;
-        let top_n = (self.a * index.len() as f64) as usize;
+        let top_n = ((self.a * index.len() as f64) as usize).min(index.len());
         let rand_n = (self.b * index.len() as f64) as usize;
 
         // sort gradient by absolute value from highest to lowest
-- 
2.43.0


From 149fd814bc8c3e57325b3ea9d853819fee0a5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:35 +0000
Subject: [PATCH 09/19] fix: keep bin numbers within u16 for 65536 distinct
 values

With nbins = 65535 a feature with exactly 65536 distinct values kept them all,
and binning panicked because the last bin number does not fit a u16.
---
 src/binning.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binning.rs b/src/binning.rs
index 6ae1d91..83f1280 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -15,7 +15,8 @@ where
     let mut v_u = v.to_owned();
     v_u.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());
     v_u.dedup();
-    if v_u.len() <= pcts.len() + 1 {
+    // The bins have to be numbered with a u16, the first being used for missing.
+    if v_u.len() <= pcts.len() + 1 && v_u.len() <= usize::from(u16::MAX) {
         v_u
     } else {
         percentiles(v, sample_weight, pcts)
-- 
2.43.0


From 228606aeb81b4488c083730e17a513ddf9ac3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 10/19] fix: accept strided and byte-swapped arrays in the
 Python interface

Targets and weights that are views (e.g. y[::2]) or not in native byte order
were passed on as they are and refused by the extension.
---
 py-forust/forust/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..66136f6 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -258,7 +258,7 @@ def _convert_input_frame(X: FrameLike) -> tuple[list[str], np.ndarray, int, int]
         # Assume it's a numpy array.
         X_ = X
         features_ = []
-    if not np.issubdtype(X_.dtype, "float64"):
+    if X_.dtype != np.float64:
         X_ = X_.astype(dtype="float64", copy=False)
     flat_data = X_.ravel(order="F")
     rows, cols = X_.shape
@@ -270,9 +270,7 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x.to_numpy()
     else:
         x_ = x
-    if not np.issubdtype(x_.dtype, "float64"):
-        x_ = x_.astype(dtype="float64", copy=False)
-    return x_
+    return np.ascontiguousarray(x_, dtype="float64")
 
 
 class GradientBooster:
-- 
2.43.0


From 9b7d91dc69daadb107e8443381b03799a5ed559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 11/19] fix: record the features of a fit only once it has
 succeeded

A rejected fit replaced the feature names of the previous model, which then
refused its own data, and fitting an array after a DataFrame kept the
DataFrame's names.
---
 py-forust/forust/__init__.py | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 66136f6..a23dc6e 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -573,12 +573,6 @@ class GradientBooster:
         """
 
         features_, flat_data, rows, cols = _convert_input_frame(X)
-        self.n_features_ = cols
-        self._set_metadata_attributes("n_features_", self.n_features_)
-        if len(features_) > 0:
-            self.feature_names_in_ = features_
-            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
-
         y_ = _convert_input_array(y)
 
         if sample_weight is None:
@@ -604,10 +598,11 @@ class GradientBooster:
                     eval_X, eval_y = eval_  # type: ignore
                     eval_w_ = np.ones(eval_X.shape[0], dtype="float64")
 
-                features_, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(
-                    eval_X
+                eval_features_, eval_flat_data, eval_rows, eval_cols = (
+                    _convert_input_frame(eval_X)
                 )
-                self._validate_features(features_)
+                if min(len(features_), len(eval_features_)) > 0:
+                    self._validate_features(eval_features_, features_)
                 evaluation_data_.append(
                     (
                         eval_flat_data,
@@ -633,14 +628,30 @@ class GradientBooster:
             evaluation_data=evaluation_data_,  # type: ignore
         )
 
+        # Only record what describes the data once the fit has succeeded, otherwise
+        # a rejected fit would leave the previous model with the wrong features.
+        self.n_features_ = cols
+        self._set_metadata_attributes("n_features_", self.n_features_)
+        if len(features_) > 0:
+            self.feature_names_in_ = features_
+            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # The names belong to an earlier fit.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
+
         # Once it's been fit, reset the `base_score`
         # this will account for the fact that's it's adjusted after fit.
         self.base_score = self.booster.base_score
         return self
 
-    def _validate_features(self, features: list[str]):
-        if len(features) > 0 and hasattr(self, "feature_names_in_"):
-            if features != self.feature_names_in_:
+    def _validate_features(
+        self, features: list[str], expected: list[str] | None = None
+    ):
+        if expected is None:
+            expected = getattr(self, "feature_names_in_", None)
+        if len(features) > 0 and expected is not None:
+            if features != expected:
                 raise ValueError(
                     "Columns mismatch between data passed, and data used at fit."
                 )
@@ -964,6 +975,8 @@ class GradientBooster:
         for m in c.meta_data_attributes:
             try:
                 m_ = c._get_metadata_attributes(m)
+                if m_ is None:
+                    continue
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-- 
2.43.0


From 7ec66dffc403e92954296fb2121a80ebb602c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 12/19] fix: restore feature names of constraints when loading
 a booster

Constraints on only some of the features stayed keyed by number, and so did
terminate_missing_features, so a loaded booster could not be refitted.
---
 py-forust/forust/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index a23dc6e..4893c82 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -987,7 +987,14 @@ class GradientBooster:
                         c.monotone_constraints = {
                             ft: c.monotone_constraints[i]
                             for i, ft in enumerate(c.feature_names_in_)
+                            if i in c.monotone_constraints
                         }
+                    # The same applies to the terminate missing features.
+                    c.terminate_missing_features = {
+                        ft
+                        for i, ft in enumerate(c.feature_names_in_)
+                        if i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From b9f5cb72af7f34bfc42e6a63890bda877a89a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 13/19] fix: reject unknown sample methods

Any unknown sample_method silently meant "Random".
---
 py-forust/forust/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 4893c82..4ea68a4 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -445,7 +445,7 @@ class GradientBooster:
         sample_method_ = (
             "None"
             if sample_method is None
-            else SAMPLE_METHODS.get(sample_method, "Random")
+            else SAMPLE_METHODS.get(sample_method, sample_method)
         )
         sample_method_ = (
             "Random"
-- 
2.43.0


From 08d9bfb732d64728bc1a2080959d19408216a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 14/19] fix: compute the partial dependence grid in double
 precision

The grid of a float32 feature was rounded differently from the same values as
float64, and boolean or object columns were refused.
---
 py-forust/forust/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 4ea68a4..cc77440 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -868,6 +868,7 @@ class GradientBooster:
             raise ValueError(
                 f"The parameter `feature` must be a string, or an int, however an object of type {type(feature)} was passed."
             )
+        values = _convert_input_array(values)
         min_p, max_p = percentile_bounds
         values = values[~(np.isnan(values) | (values == self.missing))]
         if samples is None:
-- 
2.43.0


From cf8f312871c7836577c3b36a618928088567cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 15/19] fix: pivot records correctly when one side of a split
 is empty

With a zero min_leaf_weight, rounding residue of subtracted histograms can
select a split that leaves one side without records. The last record of the
node was then moved to the wrong child, and pivoting an empty node underflowed.
---
 src/utils.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 212af62..1044429 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -416,6 +416,10 @@ pub fn pivot_on_split(
     split_value: u16,
     missing_right: bool,
 ) -> usize {
+    // A node without any records has nothing to pivot.
+    if index.is_empty() {
+        return 0;
+    }
     // I think we can do this in O(n) time...
     let mut low = 0;
     let mut high = index.len() - 1;
@@ -445,6 +449,13 @@ pub fn pivot_on_split(
             index.swap(high, low);
         }
     }
+    // The last value is not examined above if all the values before it
+    // are lower than the split value, it could be lower as well.
+    if low == max_idx
+        && missing_compare(&split_value, feature[index[low]], missing_right) == Ordering::Greater
+    {
+        low += 1;
+    }
     low
 }
 
@@ -458,9 +469,6 @@ pub fn pivot_on_split(
 /// index, the second is the first value that is greater than
 /// our provided split value.
 ///
-/// WARNING!!! Currently, this function fails, if all the values are
-/// missing...
-///
 /// * `index` - The index values to sort.
 /// * `feature` - The feature vector to use to sort the index by.
 /// * `split_value` - the split value to use to pivot on.
@@ -470,6 +478,10 @@ pub fn pivot_on_split_exclude_missing(
     feature: &[u16],
     split_value: u16,
 ) -> (usize, usize) {
+    // A node without any records has nothing to pivot.
+    if index.is_empty() {
+        return (0, 0);
+    }
     // I think we can do this in O(n) time...
     let mut low = 0;
     let mut high = index.len() - 1;
@@ -520,6 +532,15 @@ pub fn pivot_on_split_exclude_missing(
             index.swap(high, low);
         }
     }
+    // The last value is not examined above if all the values before it
+    // are missing or lower than the split value, it could be so as well.
+    if low == max_idx && feature[index[low]] < split_value {
+        if feature[index[low]] == 0 {
+            index.swap(missing, low);
+            missing += 1;
+        }
+        low += 1;
+    }
     (missing, low)
 }
 
-- 
2.43.0


From 76eb699b7c4639824cffd41e505411ff1d66a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 16/19] fix: a rejected fit keeps the constraints of the
 previous model

The constraints of the Python booster are translated to the columns of the
data being fit. A rejected fit left the underlying booster with constraints
translated for the rejected data, which saving and loading then showed under
the feature names of the previous model.
---
 py-forust/forust/__init__.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index cc77440..69ff4e5 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -582,10 +582,7 @@ class GradientBooster:
         # Convert the monotone constraints into the form needed
         # by the rust code.
         monotone_constraints_ = self._standardize_monotonicity_map(X)
-        self.booster.monotone_constraints = monotone_constraints_
-        self.booster.terminate_missing_features = (
-            self._standardize_terminate_missing_features(X)
-        )
+        terminate_missing_features_ = self._standardize_terminate_missing_features(X)
 
         # Create evaluation data
         if evaluation_data is not None:
@@ -619,14 +616,25 @@ class GradientBooster:
         else:
             evaluation_data_ = None
 
-        self.booster.fit(
-            flat_data=flat_data,
-            rows=rows,
-            cols=cols,
-            y=y_,
-            sample_weight=sample_weight_,
-            evaluation_data=evaluation_data_,  # type: ignore
-        )
+        previous_params = self.booster.get_params()
+        try:
+            self.booster.monotone_constraints = monotone_constraints_
+            self.booster.terminate_missing_features = terminate_missing_features_
+            self.booster.fit(
+                flat_data=flat_data,
+                rows=rows,
+                cols=cols,
+                y=y_,
+                sample_weight=sample_weight_,
+                evaluation_data=evaluation_data_,  # type: ignore
+            )
+        except Exception:
+            # The previous model keeps the constraints that it was fit with.
+            self.booster.monotone_constraints = previous_params["monotone_constraints"]
+            self.booster.terminate_missing_features = previous_params[
+                "terminate_missing_features"
+            ]
+            raise
 
         # Only record what describes the data once the fit has succeeded, otherwise
         # a rejected fit would leave the previous model with the wrong features.
-- 
2.43.0


From 84ae079751706270513593f386c3f9f66bf778b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 17/19] fix: let the largest feature values be split apart

Every column's cuts were closed with f64::MAX, which was merged with a feature
value of f64::MAX and was out of order after an infinite one: no split could
separate f64::MAX from the next smaller or from an infinite value.
---
 src/binning.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binning.rs b/src/binning.rs
index 83f1280..50f41f0 100644
--- a/src/binning.rs
+++ b/src/binning.rs
@@ -100,8 +100,8 @@ pub fn bin_matrix(
             .unzip();
         assert_eq!(no_miss.len(), w.len());
         let mut col_cuts = percentiles_or_value(&no_miss, &w, &pcts);
-        col_cuts.push(f64::MAX);
         col_cuts.dedup();
+        col_cuts.push(f64::INFINITY);
         // if col_cuts.len() < 2 {
         //     return Err(ForustError::NoVariance(i));
         // }
-- 
2.43.0


From 3d8ee2a811e578bb2f70dc530d083d8de2ae1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 18/19] fix: read back infinite and NaN numbers of a saved
 model

JSON has neither, so they were written as null: an infinite missing marker came
back as NaN and changed the predictions, and a model with an infinite threshold
(infinite feature values), an infinite base score (one-class target) or a NaN
weight could be saved or pickled but not loaded.
---
 py-forust/forust/__init__.py |  2 ++
 src/gradientbooster.rs       | 20 ++++++++---------
 src/node.rs                  | 16 ++++++++++++--
 src/utils.rs                 | 42 ++++++++++++++++++++++++++++++++++++
 4 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 69ff4e5..37acf5b 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -1218,6 +1218,8 @@ class GradientBooster:
             for n in t["nodes"]:
                 if not n["is_leaf"]:
                     n["split_feature"] = feature_map[n["split_feature"]]
+                    # Infinite numbers are strings in the json dump.
+                    n["split_value"] = float(n["split_value"])
                 else:
                     n["split_feature"] = leaf_split_feature
                 tree.append(Node(**n))
diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index aa76ce3..fac6ff4 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -12,7 +12,7 @@ use crate::shapley::predict_contributions_row_shapley;
 use crate::splitter::{MissingBranchSplitter, MissingImputerSplitter, Splitter};
 use crate::tree::Tree;
 use crate::utils::{
-    fmt_vec_output, odds, validate_not_nan_vec, validate_positive_float_field,
+    fmt_vec_output, json_float, odds, validate_not_nan_vec, validate_positive_float_field,
     validate_positive_not_nan_vec,
 };
 use log::info;
@@ -91,6 +91,7 @@ pub struct GradientBooster {
     /// Step size to use at each iteration. Each
     /// leaf weight is multiplied by this number. The smaller the value, the more
     /// conservative the weights will be.
+    #[serde(with = "json_float")]
     pub learning_rate: f32,
     /// Maximum depth of an individual tree. Valid values are 0 to infinity.
     pub max_depth: usize,
@@ -99,21 +100,25 @@ pub struct GradientBooster {
     pub max_leaves: usize,
     /// L1 regularization term applied to the weights of the tree. Valid values
     /// are 0 to infinity. 0 Means no regularization applied.
-    #[serde(default = "default_l1")]
+    #[serde(default = "default_l1", with = "json_float")]
     pub l1: f32,
     /// L2 regularization term applied to the weights of the tree. Valid values
     /// are 0 to infinity.
+    #[serde(with = "json_float")]
     pub l2: f32,
     /// The minimum amount of loss required to further split a node.
     /// Valid values are 0 to infinity.
+    #[serde(with = "json_float")]
     pub gamma: f32,
     /// Maximum delta step allowed at each leaf. This is the maximum magnitude a leaf can take. Setting to 0 results in no constrain.
-    #[serde(default = "default_max_delta_step")]
+    #[serde(default = "default_max_delta_step", with = "json_float")]
     pub max_delta_step: f32,
     /// Minimum sum of the hessian values of the loss function
     /// required to be in a node.
+    #[serde(with = "json_float")]
     pub min_leaf_weight: f32,
     /// The initial prediction value of the model.
+    #[serde(with = "json_float")]
     pub base_score: f64,
     /// Number of bins to calculate to partition the data. Setting this to
     /// a smaller number, will result in faster training time, while potentially sacrificing
@@ -142,7 +147,7 @@ pub struct GradientBooster {
     /// Integer value used to seed any randomness used in the algorithm.
     pub seed: u64,
     /// Value to consider missing.
-    #[serde(deserialize_with = "parse_missing")]
+    #[serde(with = "json_float")]
     pub missing: f64,
     /// Should missing be split out it's own separate branch?
     pub create_missing_branch: bool,
@@ -250,13 +255,6 @@ fn default_force_children_to_bound_parent() -> bool {
     false
 }
 
-fn parse_missing<'de, D>(d: D) -> Result<f64, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
-}
-
 // JSON has no NaN, so a NaN metric is written as null.
 fn parse_evaluation_history<'de, D>(d: D) -> Result<Option<RowMajorMatrix<f64>>, D::Error>
 where
diff --git a/src/node.rs b/src/node.rs
index fbcd2a4..5218c5f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -1,8 +1,8 @@
 use crate::data::FloatData;
 use crate::histogram::HistogramMatrix;
 use crate::splitter::{MissingInfo, NodeInfo, SplitInfo};
-use crate::utils::is_missing;
-use serde::{Deserialize, Serialize};
+use crate::utils::{is_missing, json_float};
+use serde::{Deserialize, Deserializer, Serialize};
 use std::cmp::Ordering;
 use std::fmt::{self, Debug};
 
@@ -32,11 +32,15 @@ pub struct SplittableNode {
 #[derive(Deserialize, Serialize)]
 pub struct Node {
     pub num: usize,
+    #[serde(deserialize_with = "parse_float")]
     pub weight_value: f32,
+    #[serde(deserialize_with = "parse_float")]
     pub hessian_sum: f32,
     pub depth: usize,
+    #[serde(with = "json_float")]
     pub split_value: f64,
     pub split_feature: usize,
+    #[serde(deserialize_with = "parse_float")]
     pub split_gain: f32,
     pub missing_node: usize,
     pub left_child: usize,
@@ -44,6 +48,14 @@ pub struct Node {
     pub is_leaf: bool,
 }
 
+// JSON has no NaN, it is written as null.
+fn parse_float<'de, D>(d: D) -> Result<f32, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f32::NAN))
+}
+
 impl Ord for SplittableNode {
     fn cmp(&self, other: &Self) -> Ordering {
         self.gain_value.total_cmp(&other.gain_value)
diff --git a/src/utils.rs b/src/utils.rs
index 1044429..92e51c8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,6 +30,48 @@ pub fn fmt_vec_output<T: FloatData<T>>(v: &[T]) -> String {
     res
 }
 
+/// JSON has no NaN and no infinite numbers. Write infinite numbers as a string,
+/// and NaN as null, so that they can be read again.
+pub mod json_float {
+    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
+    use std::str::FromStr;
+
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum JsonFloat<T> {
+        Number(T),
+        Text(String),
+        Null,
+    }
+
+    pub fn serialize<T, S>(v: &T, s: S) -> Result<S::Ok, S::Error>
+    where
+        T: Copy + Into<f64> + Serialize,
+        S: Serializer,
+    {
+        let value: f64 = (*v).into();
+        if value.is_infinite() {
+            s.serialize_str(if value > 0. { "inf" } else { "-inf" })
+        } else {
+            v.serialize(s)
+        }
+    }
+
+    pub fn deserialize<'de, T, D>(d: D) -> Result<T, D::Error>
+    where
+        T: Deserialize<'de> + FromStr,
+        D: Deserializer<'de>,
+    {
+        let text = match JsonFloat::deserialize(d)? {
+            JsonFloat::Number(v) => return Ok(v),
+            JsonFloat::Text(t) => t,
+            JsonFloat::Null => String::from("NaN"),
+        };
+        text.parse()
+            .map_err(|_| D::Error::custom(format!("invalid number: {}", text)))
+    }
+}
+
 // Validation
 pub fn validate_positive_float_parameter<T: FloatData<T>>(
     value: T,
-- 
2.43.0


From 0f99ce10b3253d482d22573644344588c867e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 19/19] fix: do not split a node without separating its records

Rounding can leave a little gain for a split with an empty side. With
min_leaf_weight = 0 and no depth limit such splits were repeated on the same
records without end and training did not finish.
---
 src/splitter.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/splitter.rs b/src/splitter.rs
index ef90cc4..ec4a448 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -554,6 +554,11 @@ impl Splitter for MissingBranchSplitter {
         let n_right = total_recs - split_idx;
         let n_left = total_recs - n_right - missing_split_idx;
         let n_missing = total_recs - (n_right + n_left);
+        // Rounding can leave some gain for a split that doesn't separate any
+        // records, splitting on it could go on forever.
+        if n_left == 0 || n_right == 0 {
+            return Vec::new();
+        }
         let max_ = match [n_missing, n_left, n_right]
             .iter()
             .enumerate()
@@ -990,6 +995,11 @@ impl Splitter for MissingImputerSplitter {
         let total_recs = node.stop_idx - node.start_idx;
         let n_right = total_recs - split_idx;
         let n_left = total_recs - n_right;
+        // Rounding can leave some gain for a split that doesn't separate any
+        // records, splitting on it could go on forever.
+        if n_left == 0 || n_right == 0 {
+            return Vec::new();
+        }
 
         // Now that we have calculated the number of records
         // add the start index, to make the split_index
-- 
2.43.0

