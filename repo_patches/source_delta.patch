From 481c0b7dfe93777fecca8446ccece56c9401305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 01/54] fix: sparse per-label mean used the rows of the other
 labels

---
 src/sample/feature_struct.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..c49b770 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -450,9 +450,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|&(i, f)|
+                if target[i] != y { 0.0 } else { weight[i] * f }
             )
             .sum::<f64>()
             / total_weight
-- 
2.43.0


From 1f7aa207c09a3e2319e7e3c00e7e7ac503af63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 02/54] fix: sparse per-label variance counted zeros of the
 other labels

---
 src/sample/feature_struct.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index c49b770..9c3e575 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -496,14 +496,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From ea34f8ff78c7d67b5af54cf43f6b75023b8393f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 03/54] fix: row indices of sparse features in cross-validation
 folds

---
 src/sample/sample_struct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..a244643 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -578,12 +578,12 @@ impl Sample {
 
         for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
             let (x, y) = self.at(ii);
-            test.append(i, x, y);
+            test.append(i - start, x, y);
         }
 
         for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(i - test_size, x, y);
         }
 
         (train, test)
-- 
2.43.0


From 1654b197b63997bb591259cfde214f5f729b76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 04/54] fix: cross-validation folds stored zeros in sparse
 features

---
 src/sample/feature_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 9c3e575..243aabb 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -79,7 +79,9 @@ impl Feature {
     pub(crate) fn append(&mut self, i: usize, f: f64) {
         match self {
             Self::Dense(feat) => { feat.append(f); },
-            Self::Sparse(feat) => { feat.append((i, f)); }
+            Self::Sparse(feat) => {
+                if f != 0.0 { feat.append((i, f)); }
+            }
         }
     }
 
-- 
2.43.0


From a69c48dab8acf2c6d9e475a11a4af51dcfcdcbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 05/54] fix: cross validation panicked when the folds outnumber
 the test parts

---
 src/research/cross_validation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..1d4c4ff 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -157,6 +157,11 @@ impl Iterator for CrossValidation<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_fold >= self.n_folds { return None; }
 
+        // No example is left for another test fold.
+        let sample_size = self.sample.shape().0;
+        let test_size = sample_size - self.train_size;
+        if self.current_fold * test_size >= sample_size { return None; }
+
         let output = self.fold_at(self.current_fold);
         self.current_fold += 1;
 
-- 
2.43.0


From 8329f0f294041f7ae6ac266d082fb0041ed7eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 06/54] fix: number of bins of the decision tree was off by
 rounding errors

---
 src/weak_learner/decision_tree/bin.rs | 51 +++++++++------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..094d3cc 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -17,9 +17,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -119,22 +116,14 @@ impl Bins {
 
         let intercept = (max - min) / n_bin as f64;
 
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
+        // Compute each edge from its index; accumulating the width
+        // leads an unexpected number of bins by numerical error.
+        let bins = (0..n_bin).map(|k| {
+                let left = min + intercept * k as f64;
+                let right = min + intercept * (k + 1) as f64;
+                Bin::new(left..right)
+            })
+            .collect::<Vec<_>>();
 
         Self(bins)
     }
@@ -173,22 +162,14 @@ impl Bins {
 
         let intercept = (max - min) / n_bin as f64;
 
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
+        // Compute each edge from its index; accumulating the width
+        // leads an unexpected number of bins by numerical error.
+        let bins = (0..n_bin).map(|k| {
+                let left = min + intercept * k as f64;
+                let right = min + intercept * (k + 1) as f64;
+                Bin::new(left..right)
+            })
+            .collect::<Vec<_>>();
 
         Self(bins)
     }
-- 
2.43.0


From bfb6f961ec01a6118301fc58aed984637f8f7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 07/54] fix: number of bins of the regression tree was off by
 rounding errors

---
 src/weak_learner/regression_tree/bin.rs | 51 ++++++++-----------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..f6356a9 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -13,9 +13,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -119,22 +116,14 @@ impl Bins {
 
         let intercept = (max - min) / n_bin as f64;
 
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
+        // Compute each edge from its index; accumulating the width
+        // leads an unexpected number of bins by numerical error.
+        let bins = (0..n_bin).map(|k| {
+                let left = min + intercept * k as f64;
+                let right = min + intercept * (k + 1) as f64;
+                Bin::new(left..right)
+            })
+            .collect::<Vec<_>>();
 
         Self(bins)
     }
@@ -173,22 +162,14 @@ impl Bins {
 
         let intercept = (max - min) / n_bin as f64;
 
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
+        // Compute each edge from its index; accumulating the width
+        // leads an unexpected number of bins by numerical error.
+        let bins = (0..n_bin).map(|k| {
+                let left = min + intercept * k as f64;
+                let right = min + intercept * (k + 1) as f64;
+                Bin::new(left..right)
+            })
+            .collect::<Vec<_>>();
 
         Self(bins)
     }
-- 
2.43.0


From 90818543e3b15e07377e4bd1234863768ea6734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 08/54] fix: Gini split panicked when rounding had already
 removed a label

---
 src/weak_learner/decision_tree/criterion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..e872bea 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -285,12 +285,12 @@ fn split_by_gini(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
             right_weight_sum -= w;
-
-
-            if *entry <= 0f64 { right_weight.remove(&y); }
+            // By numerical error, `y` may be already removed.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0


From 5c21debc19b108981434331b3ff124280960f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 09/54] fix: the gradient of the L1 loss had the opposite sign

---
 src/common/loss_functions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..d9a910b 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,10 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| {
+                        let diff = p - y;
+                        if diff == 0f64 { 0f64 } else { diff.signum() }
+                    })
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From 9eabb9ba02ecdd5ea5c1a1d53b780b2dacbb80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 10/54] fix: regression tree dropped bins whose gradients
 cancel out

---
 src/weak_learner/regression_tree/bin.rs | 52 +++++++++++++------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index f6356a9..bdb78de 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -186,6 +186,7 @@ impl Bins {
         let n_bins = self.0.len();
         let mut grad_pack = vec![0f64; n_bins];
         let mut hess_pack = vec![0f64; n_bins];
+        let mut is_occupied = vec![false; n_bins];
 
         for &i in indices {
             let xi = feat[i];
@@ -200,49 +201,50 @@ impl Bins {
                 .unwrap();
             grad_pack[pos] += gradient[i];
             hess_pack[pos] += hessian[i];
+            is_occupied[pos] = true;
         }
-        self.remove_zero_weight_pack_and_normalize(grad_pack, hess_pack)
+        self.remove_empty_pack(grad_pack, hess_pack, is_occupied)
     }
 
 
 
-    /// This method removes bins with zero weights.
+    /// This method removes bins that contain no instance.
+    /// Note that a non-empty bin may have zero gradient and zero hessian,
+    /// so emptiness cannot be judged from their values.
     /// # Example
-    /// Assume that we have bins and its weight.
+    /// Assume that we have the following bins.
     /// ```text
-    /// Bins       | [-3.0, 2.5), [2.5, 7.0), [7.0, 8.1), [8.1, 9.0)
-    /// Weights(+) |     0.5,        0.0,        0.0,        0.2
-    /// Weights(-) |     0.0,        0.0,        0.0,        0.1
+    /// Bins         | [-3.0, 2.5), [2.5, 7.0), [7.0, 8.1), [8.1, 9.0)
+    /// Gradient sum |     0.5,        0.0,        0.0,        0.2
+    /// # of items   |     3,          0,          0,          2
     /// ```
-    /// This method remove zero-weight bins and normalize the weights
-    /// like this:
+    /// This method removes the empty bins and adjusts the bin bounds.
     /// ```text
-    /// Bins       | [-3.0, 5.3), [5.3, 9.0)
-    /// Weights(+) |     0.625,      0.25
-    /// Weights(-) |     0.0,        0.125
+    /// Bins         | [-3.0, 5.3), [5.3, 9.0)
+    /// Gradient sum |     0.5,        0.2
     /// ```
-    /// That is, this method
-    /// - Change the bin bounds,
-    /// - 
-    fn remove_zero_weight_pack_and_normalize(
+    fn remove_empty_pack(
         &self,
         grad_pack: Vec<Gradient>,
         hess_pack: Vec<Hessian>,
+        is_occupied: Vec<bool>,
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
-        let mut iter = self.0.iter().zip(grad_pack.into_iter().zip(hess_pack));
+        let first_bin_is_empty = !is_occupied[0];
+        let mut iter = self.0.iter()
+            .zip(is_occupied)
+            .zip(grad_pack.into_iter().zip(hess_pack))
+            .map(|((bin, occupied), gh)| (bin, occupied, gh));
 
-        let (prev_bin, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
+        let (prev_bin, _, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
 
         let mut prev_bin = Bin::new(prev_bin.0.clone());
-        let mut iter = iter.filter(|(_, (grad, hess))| {
-            *grad != 0.0 || *hess != 0.0
-        });
+        let mut iter = iter.filter(|(_, occupied, _)| *occupied);
 
-        // The left-most bin might have zero weight.
-        // In this case, find the next non-zero weight bin and merge.
-        if prev_grad == 0.0 && prev_hess == 0.0 {
-            let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
+        // The left-most bin might be empty.
+        // In this case, find the next non-empty bin and merge.
+        if first_bin_is_empty {
+            let (next_bin, _, (next_grad, next_hess)) = iter.next().unwrap();
 
             let start = prev_bin.0.start;
             let end = next_bin.0.end;
@@ -252,7 +254,7 @@ impl Bins {
         }
 
         let mut bin_and_gh = Vec::new();
-        for (next_bin, (next_grad, next_hess)) in iter {
+        for (next_bin, _, (next_grad, next_hess)) in iter {
             let start = prev_bin.0.start;
             let end = (prev_bin.0.end + next_bin.0.start) / 2.0;
             let bin = Bin::new(start..end);
-- 
2.43.0


From a3458a15336abedf09a9a52ec2b2c53353c2c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 11/54] fix: regression tree stopped growing on targets whose
 gradients cancel out

---
 .../regression_tree/regression_tree_algorithm.rs     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..6734227 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,8 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If one cannot grow the tree, construct a leaf node.
+        if max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
@@ -299,11 +299,15 @@ fn best_split_at(
     let mut left_hess_sum = 0.0;
 
 
-    let mut best_score = f64::MIN;
+    // The score without splitting.
+    let mut best_score = right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
+    if best_score.is_nan() { best_score = f64::MIN; }
     let mut best_threshold = f64::MIN;
 
 
-    for (bin, grad, hess) in pack {
+    // The right-most bin is ignored since it does not split the instances.
+    let n_thresholds = pack.len() - 1;
+    for (bin, grad, hess) in pack.into_iter().take(n_thresholds) {
         left_grad_sum  += grad;
         left_hess_sum  += hess;
         right_grad_sum -= grad;
-- 
2.43.0


From c847b8f661746edc3fbee029eea8062334a5396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 12/54] fix: Twoing score blew up on negative rounding residues
 of the right weights

---
 src/weak_learner/decision_tree/criterion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index e872bea..d2a8173 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -332,11 +332,11 @@ fn split_by_twoing(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
         for (y, w) in map {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
+            // By numerical error, `y` may be already removed.
             if let Some(entry) = right_weight.get_mut(&y) {
                 *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
             }
-
-            if *entry <= 0f64 { right_weight.remove(&y); }
         }
 
 
-- 
2.43.0


From 75c44fa7ddd6ecc20ea488b501ad6f25f8ace414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 13/54] fix: best coefficient of the L2 loss was a ratio of
 sums, not the minimiser

---
 src/common/loss_functions.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index d9a910b..e71180b 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -161,13 +161,13 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
@@ -177,12 +177,18 @@ impl LossFunction for GBMLoss {
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
+                let numerator = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let denominator = predictions.iter()
+                    .map(|p| p.powi(2))
+                    .sum::<f64>();
 
-                assert_ne!(p_sum, 0.0);
+                // All predictions are zero, so any coefficient is the best.
+                if denominator == 0.0 { return 0.0; }
 
-                y_sum / p_sum
+                numerator / denominator
             },
         }
     }
-- 
2.43.0


From 7e2cafa12b930402c17f154c6b574315529e9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 14/54] fix: best coefficient of the L1 loss panicked on a zero
 prediction vector

---
 src/common/loss_functions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index e71180b..24b03ad 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -174,6 +174,9 @@ impl LossFunction for GBMLoss {
                     )
                     .collect::<Vec<_>>();
 
+                // All predictions are zero, so any coefficient is the best.
+                if items.is_empty() { return 0.0; }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-- 
2.43.0


From 06d5a8a51c0cd684de86bd3f42e871aea49a01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 15/54] fix: GBM fitted coefficients to the targets instead of
 the residuals

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..44bd577 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
-- 
2.43.0


From 2b3bae9cae30b9faa1bfb2570fdea802bbbaedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 16/54] fix: GBM normalised the coefficients of its additive
 model

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 44bd577..1d63957 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,12 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The weights are the coefficients of an additive model,
+        // so they must not be normalized.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From 1e70753ccbc139e0300ad3020c884c02f1ee7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 17/54] fix: Gaussian log-density counted the log-variances
 n_features times

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From bf058f1520d9086696bd929278c95156345bdb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 18/54] fix: naive Bayes compared probabilities that underflow
 to zero

---
 src/weak_learner/naive_bayes/nbayes_classifier.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index 894c8a0..96f6558 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -65,7 +65,12 @@ impl<P: Probability> Classifier for NBayesClassifier<P>
 {
     fn confidence(&self, sample: &Sample, row: usize) -> f64 {
 
-        self.probabilities(sample, row).into_iter()
+        // Compare the probabilities in the logarithmic scale,
+        // since they may underflow to zero simultaneously.
+        self.conditionals.iter()
+            .map(|(y, prior, density)| {
+                (*y, prior.ln() + density.log_probability(sample, row))
+            })
             .reduce(|a, b| if a.1 > b.1 { a } else { b })
             .expect("Faied to compare the probabilities")
             .0
-- 
2.43.0


From faaa632d54153e5c8b07625bafe93eebb2ebb201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 19/54] fix: naive Bayes predicted labels of zero total weight

---
 src/weak_learner/naive_bayes/nbayes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/weak_learner/naive_bayes/nbayes.rs b/src/weak_learner/naive_bayes/nbayes.rs
index 30e1950..ec063f1 100644
--- a/src/weak_learner/naive_bayes/nbayes.rs
+++ b/src/weak_learner/naive_bayes/nbayes.rs
@@ -43,6 +43,8 @@ impl WeakLearner for GaussianNB {
         for y in uniq {
             let prior = utils::total_weight_for_label(y, target, dist)
                 .clamp(0.0, 1.0);
+            // The density is undefined for a label with no weight.
+            if prior == 0.0 { continue; }
             let (means, vars) = sample
                 .weighted_mean_and_variance_for_label(y, dist)
                 .into_iter()
-- 
2.43.0


From bb17245bb9798ecda9db329f629717dc45e51600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 20/54] fix: AdaBoost and AdaBoostV produced NaN once two
 weights underflowed to zero

---
 src/booster/adaboost/adaboost_algorithm.rs   | 8 +++++++-
 src/booster/adaboostv/adaboostv_algorithm.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 3f1e332..260c4b1 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -228,7 +228,13 @@ impl<'a, F> AdaBoost<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
-            normalizer = a + (1.0 + (b - a).exp()).ln();
+            // `b` is the log of a vanished weight; adding it changes nothing,
+            // and `b - a` would be `NaN` if `a` vanished, too.
+            normalizer = if b == f64::NEG_INFINITY {
+                a
+            } else {
+                a + (1.0 + (b - a).exp()).ln()
+            };
         }
 
 
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index ada5e76..9dc8336 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -264,7 +264,13 @@ impl<'a, F> AdaBoostV<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
-            normalizer = a + (1.0 + (b - a).exp()).ln();
+            // `b` is the log of a vanished weight; adding it changes nothing,
+            // and `b - a` would be `NaN` if `a` vanished, too.
+            normalizer = if b == f64::NEG_INFINITY {
+                a
+            } else {
+                a + (1.0 + (b - a).exp()).ln()
+            };
         }
 
 
-- 
2.43.0


From 07b70d0c6c365d6df9fde77456d6a284fc7e1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 21/54] fix: MadaBoost added beta instead of its logarithm to
 the log-weights

---
 src/booster/madaboost/madaboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..6901ec3 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
-- 
2.43.0


From 8fea72aa8aae530db0b93beab4fd72049a30c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 22/54] fix: MadaBoost capped and initialised its log-weights
 as if they were weights

---
 src/booster/madaboost/madaboost_algorithm.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index 6901ec3..db60a62 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,7 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        self.betas = vec![0f64; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From 5e2e34a8154ea597f74fc4c81c8094dcff721bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 23/54] fix: SmoothBoost weighted as many hypotheses as there
 are examples

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..37b59b7 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From b0cca6712e9a8482a5992738a09eff0e296b5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 24/54] fix: SmoothBoost started its margin counters at 1
 instead of 0

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 37b59b7..69d47f9 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
 
 
         self.m = vec![1.0; self.n_sample];
-        self.n = vec![1.0; self.n_sample];
+        self.n = vec![0.0; self.n_sample];
     }
 
 
-- 
2.43.0


From 426f659d6922e57563c5415dc3919f5ef133eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 25/54] fix: AdaBoostV stopped one round short of the bound its
 margin guarantee needs

---
 src/booster/adaboostv/adaboostv_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index 9dc8336..c732882 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -190,7 +190,7 @@ impl<'a, F> AdaBoostV<'a, F> {
     pub fn max_loop(&self) -> usize {
         let n_sample = self.sample.shape().0 as f64;
 
-        (2.0 * n_sample.ln() / self.tolerance.powi(2)) as usize
+        (2.0 * n_sample.ln() / self.tolerance.powi(2)).ceil() as usize
     }
 
 
-- 
2.43.0


From 69a6b5d28dbceecc4e6090216a90119d5ee0e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 26/54] fix: LPBoost charged nu instead of 1/nu for a violated
 margin

---
 src/booster/lpboost/lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..4f8e127 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -82,7 +82,7 @@ impl LPModel {
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From 78aacbac0172278858073c1eafe4a9c25e164ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 27/54] fix: ERLPBoost left its sub-problem before it was
 solved

---
 src/booster/erlpboost/qp_model.rs | 55 +++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index cadebb8..5aebd73 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -12,7 +12,7 @@ use crate::hypothesis::Classifier;
 
 use std::iter;
 
-const EPS: f64 = 1e-100;
+const EPS: f64 = 1e-5;
 const QP_TOLERANCE: f64 = 1e-9;
 
 /// A quadratic programming model for edge minimization. 
@@ -129,7 +129,7 @@ impl QPModel {
         let rhs = self.build_rhs();
 
 
-        let mut old_objval = 1e3;
+        let mut old_objval = f64::MAX;
 
         // Initialize `dist` as the uniform distribution.
         self.dist.iter_mut()
@@ -154,32 +154,51 @@ impl QPModel {
             );
 
             solver.solve();
-            assert!(
-                solver.solution.status == SolverStatus::Solved
-                || solver.solution.status == SolverStatus::AlmostSolved
-                || solver.solution.status == SolverStatus::InsufficientProgress,
-                "unexpected solver status. got {}",
-                solver.solution.status,
-            );
-
-            let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE
-                || solver.solution.status == SolverStatus::InsufficientProgress
-            {
+            let solved = solver.solution.status == SolverStatus::Solved
+                || solver.solution.status == SolverStatus::AlmostSolved;
+            if !solved {
+                // Keep the last solution, if there is one.
+                assert!(
+                    old_objval < f64::MAX,
+                    "unexpected solver status. got {}",
+                    solver.solution.status,
+                );
                 break;
             }
-            old_objval = objval;
-            self.dist = solver.solution.x[1..].into_iter()
-                .map(|di| di.max(0f64))
-                .collect();
+
             let start = 1 + 2 * self.n_examples;
             self.weights = solver.solution.z[start..].into_iter()
                 .map(|wi| wi.max(0f64))
                 .collect();
+
+            // The objective of the sub-problem is an approximation around
+            // `self.dist,` so the progress is measured by the true one.
+            let dist = solver.solution.x[1..].iter()
+                .map(|di| di.max(0f64))
+                .collect::<Vec<_>>();
+            let objval = self.objval(&dist[..]);
+            if old_objval - objval < QP_TOLERANCE { break; }
+            old_objval = objval;
+            self.dist = dist;
         }
     }
 
 
+    /// Returns the regularized max-edge of `dist`:
+    /// `max_h Σ_i d_i y_i h(x_i) + (1/η) Σ_i d_i ln( d_i )`
+    pub(self) fn objval(&self, dist: &[f64]) -> f64 {
+        let max_edge = (0..self.n_hypotheses)
+            .map(|j| {
+                self.margins.iter()
+                    .zip(dist)
+                    .map(|(margins, d)| d * margins[j])
+                    .sum::<f64>()
+            })
+            .fold(f64::MIN, f64::max);
+        max_edge + utils::entropy(dist) / self.eta
+    }
+
+
     pub(self) fn build_linear_part_objective(&self, dist: &[f64]) -> Vec<f64> {
         let mut linear = Vec::with_capacity(1 + self.n_examples);
         linear.push(1f64);
-- 
2.43.0


From 1b759351ca69e037cd7b23198e0094a85a6922b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 28/54] fix: Frank-Wolfe line search bisected in the wrong
 direction

---
 src/common/frank_wolfe.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..338582b 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -193,6 +193,9 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
+        if hypotheses.len() == 1 { return vec![1.0]; }
+
+
         // base: w
         // dir:  e_h - w
         let base = weights.clone();
@@ -215,16 +218,19 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
-        // `dot` is `d * A (e_h - w)`
+        // `dot` is `d * A (e_h - w)`, the slope of the (concave) objective.
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +255,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
-- 
2.43.0


From 2d0015942a38a5c24f52ec0a99389cec30fb7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 29/54] fix: blended pairwise Frank-Wolfe moved weights between
 the wrong hypotheses

---
 src/common/frank_wolfe.rs | 49 ++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 338582b..3b1ab20 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -282,13 +282,15 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
-        // Find a hypothesis that has a smallest edge.
+        if hypotheses.len() == 1 { return vec![1.0]; }
+
+
+        // Find hypotheses that have the smallest/largest edges
+        // among the ones of positive weight.
         let mut worst_edge = 2.0;
         let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
         let mut position_of_worst_one = hypotheses.len();
         let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -301,16 +303,11 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
-                if edge > global_best_edge {
-                    global_best_edge = edge;
-                    position_of_global_best_one = j;
-                }
-
 
                 if edge < worst_edge {
                     worst_edge = edge;
@@ -318,13 +315,10 @@ impl FrankWolfe {
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
+        // The newly attained hypothesis is the global FW atom.
+        let global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one]
+        );
 
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
@@ -357,22 +351,19 @@ impl FrankWolfe {
             );
 
 
-            let margins = dir_margins.iter()
-                .zip(base_margins.iter())
-                .map(|(dir, cur)| cur + max_stepsize * dir)
-                .collect::<Vec<_>>();
-
-
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let margins = base_margins.iter()
+                .zip(&dir_margins[..])
+                .map(|(&b, &d)| b + max_stepsize * d);
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins,
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Add `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
+                weights[position_of_local_best_one] += max_stepsize;
                 weights[position_of_worst_one] = 0.0;
                 return weights;
             }
@@ -393,9 +384,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From 4a45f8b93174a3808eb3af6a112e888ad36ffb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 30/54] fix: projection onto the capped simplex overshot the
 cap by rounding and panicked

---
 src/common/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index fcf726f..8c368af 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -230,15 +230,16 @@ pub fn project_log_distribution_to_capped_simplex<I>(
     // Note that the parameter `ν` in the paper corresponds to
     // `1/nu` in this code.
     for (i, (i_sorted, logsum)) in ix_with_logsum.by_ref() {
-        let log_xi = (1.0 - ub * i as f64).ln() - logsum;
+        let log_xi = (1.0 - ub * i as f64).max(0.0).ln() - logsum;
         // TODO replace this line by `get_unchecked`
         let d = dist[i_sorted];
 
         // Check the stopping criterion
         if log_xi + d + log_nu <= 0.0 {
-            dist[i_sorted] = (log_xi + d).exp();
+            // Rounding errors must not push a coordinate beyond the cap.
+            dist[i_sorted] = (log_xi + d).exp().min(ub);
             for (_, (ii, _)) in ix_with_logsum {
-                dist[ii] = (log_xi + dist[ii]).exp();
+                dist[ii] = (log_xi + dist[ii]).exp().min(ub);
             }
             break;
         }
-- 
2.43.0


From 7d37aa36b656aab03634ab1ca75326dbc8aa9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 31/54] fix: CERLPBoost returned an empty vote when the first
 edge was small

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..67dec72 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -356,7 +356,8 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
         let diff = new_edge - old_edge;
 
         // Update the parameters
-        if diff <= self.half_tolerance {
+        // (the first hypothesis is always taken: there is nothing to return yet)
+        if !self.hypotheses.is_empty() && diff <= self.half_tolerance {
             self.terminated = iteration;
             return ControlFlow::Break(iteration);
         }
-- 
2.43.0


From c913f4de62571f88600e09ee03c902870386bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 32/54] fix: CERLPBoost took no round at all when nu is the
 sample size

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 67dec72..bf48ffa 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -210,9 +210,9 @@ impl<'a, F> CERLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     #[inline(always)]
     fn regularization_param(&mut self) {
-        let m = self.dist.len() as f64;
+        let m = self.sample.shape().0 as f64;
         let ln_part = (m / self.nu).ln();
-        self.eta = ln_part / self.half_tolerance;
+        self.eta = 0.5_f64.max(ln_part / self.half_tolerance);
 
         self.frank_wolfe.eta(self.eta);
     }
@@ -224,10 +224,11 @@ impl<'a, F> CERLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&mut self) -> usize {
 
-        let m = self.dist.len() as f64;
+        let m = self.sample.shape().0 as f64;
 
         let ln_m = (m / self.nu).ln();
-        let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
+        let max_iter = (4.0 / self.half_tolerance)
+            .max(8.0 * ln_m / self.half_tolerance.powi(2));
 
         max_iter.ceil() as usize
     }
-- 
2.43.0


From c01385a6ef47a22769bcc5aaf6f25b9272e1b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 33/54] fix: MLPBoost took no round at all when nu is the
 sample size

---
 src/booster/mlpboost/mlpboost_algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..ae84ef8 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -259,7 +259,7 @@ impl<'a, F> MLPBoost<'a, F> {
     #[inline(always)]
     fn eta(&mut self) {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        self.eta = ln_m / self.half_tolerance;
+        self.eta = 0.5_f64.max(ln_m / self.half_tolerance);
         self.primary.eta(self.eta);
     }
 
@@ -297,7 +297,9 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        (4.0 / self.half_tolerance)
+            .max(8.0_f64 * ln_m / self.half_tolerance.powi(2))
+            .ceil() as usize
     }
 
 
-- 
2.43.0


From 8c808da07d684261f0aea0381a7d3f0af4522883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 34/54] fix: MLPBoost panicked on LP weights that sum to one up
 to the solver's accuracy only

---
 src/booster/mlpboost/perturbed_lp_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..acb59a4 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -134,7 +134,13 @@ impl LPModel {
             solver.solve();
 
             let ix = 2 * self.n_examples + 1;
-            self.weights = solver.solution.z[ix..].to_vec();
+            // The solution is a probability vector up to the accuracy
+            // of the solver. Make it an exact one.
+            let weights = &solver.solution.z[ix..];
+            let sum = weights.iter().map(|w| w.max(0f64)).sum::<f64>();
+            self.weights = weights.iter()
+                .map(|w| w.max(0f64) / sum)
+                .collect();
             self.dist = solver.solution.x[1..].to_vec();
         }
 
-- 
2.43.0


From 738afc6b7a1468a2b5a42031984e7a74d3b4cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 35/54] fix: SoftBoost and TotalBoost capped distributions at 1
 instead of 1/nu

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..706f4ec 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From c47b18e08f72ddcf61741e673673e1385fe47f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 36/54] fix: SoftBoost took no round at all when nu is the
 sample size

---
 src/booster/softboost/softboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..389e527 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -219,7 +219,8 @@ impl<'a, F> SoftBoost<'a, F>
         let n_sample = self.sample.shape().0 as f64;
 
         let temp = (n_sample / self.nu).ln();
-        let max_iter = 2.0 * temp / self.tolerance.powi(2);
+        // At least one round is needed to receive a hypothesis.
+        let max_iter = (2.0 * temp / self.tolerance.powi(2)).max(1.0);
 
         max_iter.ceil() as usize
     }
-- 
2.43.0


From 7b9985dc991f50e8f8b46cf0606f291c38a1b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 37/54] fix: SoftBoost did not demand progress by its tolerance
 in a round

---
 src/booster/softboost/softboost_algorithm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index 389e527..7522a4c 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -250,10 +250,13 @@ impl<F> SoftBoost<'_, F>
     /// Returns `None` if the stopping criterion satisfied.
     fn update_params_mut(&mut self) -> Option<()> {
         let h = self.hypotheses.last().unwrap();
+        // Every hypothesis must lose `self.tolerance` of the edge
+        // that the weak learner has guaranteed so far.
+        let target_edge = self.gamma_hat - self.tolerance;
         self.qp_model.as_ref()
             .expect("Failed to call `.as_ref()` to `self.qp_model`")
             .borrow_mut()
-            .update(self.sample, &mut self.dist[..], self.gamma_hat, h)
+            .update(self.sample, &mut self.dist[..], target_edge, h)
     }
 }
 
-- 
2.43.0


From 6a677f371ee61920b5fb938408224650fe71d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 38/54] fix: SoftBoost took an unsolved sub-problem for the end
 of the run

---
 src/booster/softboost/qp_model.rs | 58 +++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 706f4ec..27fa302 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,6 +13,8 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const QP_TOLERANCE: f64 = 1e-9;
+const FEAS_TOLERANCE: f64 = 1e-6;
+const EPS: f64 = 1e-5;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -121,7 +123,11 @@ impl QPModel {
         let rhs = self.build_rhs(ghat);
 
 
-        let mut old_objval = 1e9;
+        let mut old_objval = f64::MAX;
+
+        // Initialize `dist` as the uniform distribution.
+        let uni = 1f64 / self.n_examples as f64;
+        dist.fill(uni);
         loop {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
@@ -140,29 +146,45 @@ impl QPModel {
             );
 
             solver.solve();
-            let solution = &solver.solution.x[..];
-
-            // breaks if there is a zero-valued coordinate in the solution.
-            if !self.all_positive(solution) { return None; }
-            dist.iter_mut()
-                .zip(solution)
-                .for_each(|(di, s)| { *di = *s; });
-
-            let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE {
+            // The solver may give up at a good solution,
+            // so look at the solution instead of the status.
+            if !self.is_feasible(&solver.solution.x[..], ghat) {
+                // No distribution satisfies the constraints
+                // if even the first sub-problem has no solution.
+                if old_objval == f64::MAX { return None; }
                 break;
             }
+
+            // The objective of the sub-problem is an approximation around
+            // `dist,` so the progress is measured by the true one.
+            let mut solution = solver.solution.x.iter()
+                .map(|di| di.max(0f64))
+                .collect::<Vec<_>>();
+            let sum = solution.iter().sum::<f64>();
+            solution.iter_mut().for_each(|di| { *di /= sum; });
+            let objval = utils::entropy(&solution);
+            if old_objval - objval < QP_TOLERANCE { break; }
             old_objval = objval;
+            dist.copy_from_slice(&solution);
         }
         Some(())
     }
 
 
-    /// Returns `true` if `dist[i] > 0` holds for all `i = 1, 2, ..., m.` 
-    pub(self) fn all_positive(&self, dist: &[f64]) -> bool {
-        dist.iter()
-            .copied()
-            .all(|d| d > 0f64)
+    /// Returns `true` if `dist` satisfies all constraints
+    /// up to `FEAS_TOLERANCE`.
+    pub(self) fn is_feasible(&self, dist: &[f64], ghat: f64) -> bool {
+        let sum = dist.iter().sum::<f64>();
+        let range = -FEAS_TOLERANCE..=self.cap_inv + FEAS_TOLERANCE;
+        (sum - 1f64).abs() <= FEAS_TOLERANCE
+            && dist.iter().all(|d| range.contains(d))
+            && (0..self.n_hypotheses).all(|j| {
+                let edge = self.margins.iter()
+                    .zip(dist)
+                    .map(|(margins, d)| margins[j] * d)
+                    .sum::<f64>();
+                edge <= ghat + FEAS_TOLERANCE
+            })
     }
 
 
@@ -170,7 +192,7 @@ impl QPModel {
         let mut linear = Vec::with_capacity(self.n_examples);
         let iter = dist.iter()
             .copied()
-            .map(|di| di.ln());
+            .map(|di| (di + EPS).ln());
         linear.extend(iter);
         linear
     }
@@ -198,7 +220,7 @@ impl QPModel {
         for (i, &di) in (0..).zip(dist) {
             col_ptr.push(i);
             row_val.push(i);
-            nonzero.push(1f64 / di);
+            nonzero.push(1f64 / (di + EPS));
         }
         col_ptr.push(row_val.len());
 
-- 
2.43.0


From e60eab34f4a9d0e8572d792b81fdaaa5f1e81319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 39/54] fix: networks with a scalar output predicted the
 opposite label

---
 src/common/task.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
-- 
2.43.0


From 0e9ee6ab13f66065e93791f662e7fb1cc77396e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 40/54] fix: derivative of the sigmoid was wrong and NaN on
 large negative inputs

---
 src/weak_learner/neural_network/activation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..cf29e3f 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -84,8 +84,8 @@ fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
     let x = x.as_ref();
     x.iter()
         .map(|xi| {
-            let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
+            let s = 1.0 / (1.0 + (-eta * xi).exp());
+            eta * s * (1.0 - s)
         })
         .collect()
 }
-- 
2.43.0


From 230a435f4b9a1fe8a67d6f19b62cb9ef419dcaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 41/54] fix: networks with a scalar output were trained to
 output -1 for negatives

---
 src/weak_learner/neural_network/nn_hypothesis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 947802a..28dc577 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -177,7 +177,11 @@ impl NNHypothesis {
                 });
 
             // Vectorize the target value to compute `delta`.
-            let y = task::vectorize(y, dim);
+            let y = match self.task {
+                // A scalar output is the probability to be `+1.`
+                Task::Binary if dim == 1 => vec![if y > 0.0 { 1.0 } else { 0.0 }],
+                _ => task::vectorize(y, dim),
+            };
             // Compute the `delta` for the last layer.
             let delta = loss_func.diff(final_output, y);
             batch_delta.push(delta);
-- 
2.43.0


From b90cb6274311addf366172329e17d82a2315a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 42/54] fix: CSV lines with missing cells shifted the columns

---
 src/sample/sample_struct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index a244643..1bc50c1 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -113,6 +113,12 @@ impl Sample {
                 continue;
             }
 
+            let n_cell = line.split(',').count();
+            assert_eq!(
+                n_cell, features.len(),
+                "The number of cells differs from the one of columns. \
+                Got {n_cell} cells in Line {i}"
+            );
             line.split(',')
                 .map(|x| x.trim().parse::<f64>().unwrap())
                 .enumerate()
-- 
2.43.0


From 835c3a6b19d63c3d851ae33e74f16cd62c4a2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 43/54] fix: labels that do not fit in 32 bits were merged

---
 src/sample/sample_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 1bc50c1..adfa2fa 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -411,7 +411,7 @@ impl Sample {
         // Check whether the target values takes exactly 2 kinds.
         let set = self.target.iter()
             .copied()
-            .map(|yi| yi as i32)
+            .map(|yi| yi as i64)
             .collect::<HashSet<_>>();
         let n_label = set.len();
         match set.len().cmp(&2) {
-- 
2.43.0


From fd123b26139f6953f5ac213e1d7d07091ceca674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 44/54] fix: LPBoost handed raw solver duals to the weak
 learner, which may not be a distribution

---
 src/booster/lpboost/lp_model.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f8e127..cde1730 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -200,6 +200,14 @@ impl LPModel {
             );
         }
 
+        // The solver satisfies the constraints up to its accuracy only,
+        // but weak learners expect a probability vector.
+        self.dist.iter_mut().for_each(|d| { *d = d.max(0f64); });
+        let dsum = self.dist.iter().sum::<f64>();
+        if dsum > 0f64 {
+            self.dist.iter_mut().for_each(|d| { *d /= dsum; });
+        }
+
         // Since this method solves 
         // the minimization problem instead of the maximization,
         // it returns the negated optimal value
-- 
2.43.0


From 06e056926c71669bbec0ed1e70f3efb8bcc13f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 45/54] fix: ERLPBoost handed raw solver solutions to the weak
 learner, which may not be a distribution

---
 src/booster/erlpboost/qp_model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index 5aebd73..d3b77ff 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -173,9 +173,13 @@ impl QPModel {
 
             // The objective of the sub-problem is an approximation around
             // `self.dist,` so the progress is measured by the true one.
-            let dist = solver.solution.x[1..].iter()
+            let mut dist = solver.solution.x[1..].iter()
                 .map(|di| di.max(0f64))
                 .collect::<Vec<_>>();
+            // The solver satisfies the constraints up to its accuracy only,
+            // but weak learners expect a probability vector.
+            let sum = dist.iter().sum::<f64>();
+            dist.iter_mut().for_each(|di| { *di /= sum; });
             let objval = self.objval(&dist[..]);
             if old_objval - objval < QP_TOLERANCE { break; }
             old_objval = objval;
-- 
2.43.0


From db9e5c60bbd360745b1a7d183eebf2c3f55eec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 46/54] fix: CERLPBoost reported its capping ratio as a
 fraction with a percent sign

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index bf48ffa..feede73 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -270,7 +270,7 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
 
     fn info(&self) -> Option<Vec<(&str, String)>> {
         let (n_sample, n_feature) = self.sample.shape();
-        let ratio = self.nu / n_sample as f64;
+        let ratio = self.nu * 100f64 / n_sample as f64;
         let nu = utils::format_unit(self.nu);
         let fw = self.frank_wolfe.current_type();
         let info = Vec::from([
-- 
2.43.0


From ceef0ac2e244932e81ac8d4f743d168d2c274f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:14 +0000
Subject: [PATCH 47/54] fix: AdaBoostV's weights became NaN when the smallest
 edge was below the tolerance minus one

---
 src/booster/adaboostv/adaboostv_algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index c732882..1bdd762 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -232,7 +232,9 @@ impl<'a, F> AdaBoostV<'a, F> {
 
         // Update edge & margin estimation parameters
         self.gamma = edge.min(self.gamma);
-        self.rho = self.gamma - self.tolerance;
+        // No margin is smaller than `-1`,
+        // and the logarithm below is `NaN` for an estimate beyond that.
+        self.rho = (self.gamma - self.tolerance).max(-1.0 + f64::EPSILON);
 
 
         let weight = {
-- 
2.43.0


From cfe66499befa683d805ea3ede285532f9cd31681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:15 +0000
Subject: [PATCH 48/54] fix: cross-validation folds replaced columns of the
 same name by empty placeholders

---
 src/sample/sample_struct.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index adfa2fa..2539597 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -565,8 +565,9 @@ impl Sample {
             target: Vec::with_capacity(test_size),
         };
 
-        for (name, &i) in self.name_to_index.iter() {
-            if self.features[i].is_sparse() {
+        for (i, feature) in self.features.iter().enumerate() {
+            let name = feature.name();
+            if feature.is_sparse() {
                 train.features[i] = Feature::new_sparse(name.to_string());
                 test.features[i] = Feature::new_sparse(name.to_string());
                 train.features[i].set_n_sample(train_size);
-- 
2.43.0


From 9f259ca5d96f1015c68bf0803f69ae669f6683d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:15 +0000
Subject: [PATCH 49/54] fix: infinite labels were accepted as integers

---
 src/sample/sample_struct.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 2539597..4bd32c4 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -395,6 +395,7 @@ impl Sample {
         // Check whether the target values can be converted into integers.
         let non_integers = self.target.iter()
             .filter(|&yi| !yi.trunc().eq(yi))
+            .chain(self.target.iter().filter(|yi| yi.is_infinite()))
             .collect::<Vec<_>>();
         if !non_integers.is_empty() {
             let line = non_integers.iter().take(5)
-- 
2.43.0


From 8a7d314b3bb5c38e9b1ed2654b0d671420bd5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:08 +0000
Subject: [PATCH 50/54] fix: quotes in column names made the Graphviz export of
 trees unreadable

---
 src/weak_learner/decision_tree/node.rs   | 5 ++++-
 src/weak_learner/regression_tree/node.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/decision_tree/node.rs b/src/weak_learner/decision_tree/node.rs
index 7f81b87..0fe1239 100644
--- a/src/weak_learner/decision_tree/node.rs
+++ b/src/weak_learner/decision_tree/node.rs
@@ -149,9 +149,12 @@ impl Node {
     pub(super) fn to_dot_info(&self, id: usize) -> (Vec<String>, usize) {
         match self {
             Node::Branch(b) => {
+                // A name may contain characters to be escaped in a DOT string.
+                let feat = b.rule.feature
+                    .replace('\\', "\\\\")
+                    .replace('"', "\\\"");
                 let b_info = format!(
                     "\tnode_{id} [ label = \"{feat} < {thr:.2} ?\" ];\n",
-                    feat = b.rule.feature,
                     thr = b.rule.threshold.0
                 );
 
diff --git a/src/weak_learner/regression_tree/node.rs b/src/weak_learner/regression_tree/node.rs
index bf8af88..28d43e0 100644
--- a/src/weak_learner/regression_tree/node.rs
+++ b/src/weak_learner/regression_tree/node.rs
@@ -156,9 +156,12 @@ impl Node {
     pub(super) fn to_dot_info(&self, id: usize) -> (Vec<String>, usize) {
         match self {
             Node::Branch(b) => {
+                // A name may contain characters to be escaped in a DOT string.
+                let feat = b.rule.feature
+                    .replace('\\', "\\\\")
+                    .replace('"', "\\\"");
                 let b_info = format!(
                     "\tnode_{id} [ label = \"{feat} < {thr:.2} ?\" ];\n",
-                    feat = b.rule.feature,
                     thr = b.rule.threshold.0
                 );
 
-- 
2.43.0


From 4bd84eb77fdc2dcabb630acb1afbd605631a856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:50 +0000
Subject: [PATCH 51/54] fix: cross-validation ignored a seed given after the
 shuffle was requested

---
 src/research/cross_validation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 1d4c4ff..8e350cc 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -64,6 +64,7 @@ pub struct CrossValidation<'a> {
     seed: u64,
     sample: &'a Sample,
     ix: Vec<usize>,
+    shuffled: bool,
     verbose: bool,
 }
 
@@ -79,6 +80,7 @@ impl<'a> CrossValidation<'a> {
             current_fold: 0,
             n_folds: 5,
             seed: 1234,
+            shuffled: false,
             verbose: false,
             train_size,
             sample,
@@ -115,7 +117,8 @@ impl<'a> CrossValidation<'a> {
     #[inline]
     pub fn seed(mut self, seed: u64) -> Self {
         self.seed = seed;
-        self
+        // A shuffle requested before must follow the new seed.
+        if self.shuffled { self.shuffle() } else { self }
     }
 
 
@@ -134,7 +137,10 @@ impl<'a> CrossValidation<'a> {
     /// By default, `CrossValidation` does not shuffle the sample.
     #[inline]
     pub fn shuffle(mut self) -> Self {
+        let n_sample = self.sample.shape().0;
         let mut rng = StdRng::seed_from_u64(self.seed);
+        self.ix = (0..n_sample).collect();
+        self.shuffled = true;
         self.ix.shuffle(&mut rng);
         self
     }
-- 
2.43.0


From b8d0d54596af66b4c321e23fff125509312edbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:46 +0000
Subject: [PATCH 52/54] fix: rounds shorter than a millisecond never counted
 towards the logger's time limit

---
 src/research/logger.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/research/logger.rs b/src/research/logger.rs
index 523826e..6707a3c 100644
--- a/src/research/logger.rs
+++ b/src/research/logger.rs
@@ -11,7 +11,7 @@ use super::ObjectiveFunction;
 use std::fs::File;
 use std::io::prelude::*;
 use std::path::Path;
-use std::time::Instant;
+use std::time::{Duration, Instant};
 use std::ops::ControlFlow;
 
 const DEFAULT_ROUND: usize = 100;
@@ -225,7 +225,7 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
 
         // Cumulative time
-        let mut time_acc = 0;
+        let mut time_total = Duration::ZERO;
 
         // ---------------------------------------------------------------------
         // Boosting step
@@ -236,11 +236,12 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
             let flow = self.booster.boost(&self.weak_learner, iter);
 
-            // Stop measuring and convert `Duration` to Milliseconds.
-            let time = now.elapsed().as_millis();
+            // Stop measuring and update the cumulative time.
+            time_total += now.elapsed();
 
-            // Update the cumulative time
-            time_acc += time;
+            // Convert `Duration` to Milliseconds after the summation,
+            // since a single round may take less than a millisecond.
+            let time_acc = time_total.as_millis();
 
             let hypothesis = self.booster.current_hypothesis();
 
-- 
2.43.0


From ac1d9c567cf3bec2f17f49ed2f482a0eb9a51dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:08 +0000
Subject: [PATCH 53/54] fix: columns with values up to the largest finite
 number could not be binned

---
 src/weak_learner/decision_tree/bin.rs   | 50 +++++++++++--------------
 src/weak_learner/regression_tree/bin.rs | 50 +++++++++++--------------
 2 files changed, 44 insertions(+), 56 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 094d3cc..3f749f6 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -39,6 +39,21 @@ impl Bin {
 }
 
 
+/// Divide the interval `[min, max)` into `n_bin` bins of the same width.
+/// The halves of the given values are used
+/// since `max - min` may exceed `f64::MAX`.
+fn equal_width_bins(min: f64, max: f64, n_bin: usize) -> Vec<Bin> {
+    let min = min / 2f64;
+    let intercept = (max / 2f64 - min) / n_bin as f64;
+
+    // Compute each edge from its index; accumulating the width
+    // leads an unexpected number of bins by numerical error.
+    let edge = |k: usize| 2f64 * (min + intercept * k as f64);
+    (0..n_bin).map(|k| Bin::new(edge(k)..edge(k + 1)))
+        .collect()
+}
+
+
 /// A wrapper of `Vec<Bin>`.
 pub struct Bins(Vec<Bin>);
 
@@ -61,8 +76,9 @@ impl Bins {
 
         // The `start` of the left-most bin should be `f64::MIN`.
         bins.0.first_mut().unwrap().0.start = f64::MIN;
-        // The `end` of the right-most bin should be `f64::MAX`.
-        bins.0.last_mut().unwrap().0.end = f64::MAX;
+        // The `end` of the right-most bin should be `f64::INFINITY`,
+        // since the end is exclusive and `f64::MAX` is a finite value.
+        bins.0.last_mut().unwrap().0.end = f64::INFINITY;
 
         bins
     }
@@ -114,18 +130,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        // Compute each edge from its index; accumulating the width
-        // leads an unexpected number of bins by numerical error.
-        let bins = (0..n_bin).map(|k| {
-                let left = min + intercept * k as f64;
-                let right = min + intercept * (k + 1) as f64;
-                Bin::new(left..right)
-            })
-            .collect::<Vec<_>>();
-
-        Self(bins)
+        Self(equal_width_bins(min, max, n_bin))
     }
 
 
@@ -160,18 +165,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        // Compute each edge from its index; accumulating the width
-        // leads an unexpected number of bins by numerical error.
-        let bins = (0..n_bin).map(|k| {
-                let left = min + intercept * k as f64;
-                let right = min + intercept * (k + 1) as f64;
-                Bin::new(left..right)
-            })
-            .collect::<Vec<_>>();
-
-        Self(bins)
+        Self(equal_width_bins(min, max, n_bin))
     }
 
 
@@ -258,7 +252,7 @@ impl Bins {
         let mut bin_and_weight = Vec::new();
         for (next_bin, next_weight) in iter {
             let start = prev_bin.0.start;
-            let end = (prev_bin.0.end + next_bin.0.start) / 2.0;
+            let end = prev_bin.0.end / 2.0 + next_bin.0.start / 2.0;
             let bin = Bin::new(start..end);
             bin_and_weight.push((bin, prev_weight));
 
@@ -436,7 +430,7 @@ impl fmt::Display for Bin {
             let start = start.abs();
             format!("{sgn}{start: >.2}")
         };
-        let end = if self.0.end == f64::MAX {
+        let end = if self.0.end == f64::INFINITY {
             String::from("+Inf")
         } else {
             let end = self.0.end;
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index bdb78de..c0d5e84 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -39,6 +39,21 @@ impl Bin {
 }
 
 
+/// Divide the interval `[min, max)` into `n_bin` bins of the same width.
+/// The halves of the given values are used
+/// since `max - min` may exceed `f64::MAX`.
+fn equal_width_bins(min: f64, max: f64, n_bin: usize) -> Vec<Bin> {
+    let min = min / 2f64;
+    let intercept = (max / 2f64 - min) / n_bin as f64;
+
+    // Compute each edge from its index; accumulating the width
+    // leads an unexpected number of bins by numerical error.
+    let edge = |k: usize| 2f64 * (min + intercept * k as f64);
+    (0..n_bin).map(|k| Bin::new(edge(k)..edge(k + 1)))
+        .collect()
+}
+
+
 /// A wrapper of `Vec<Bin>`.
 pub struct Bins(Vec<Bin>);
 
@@ -61,8 +76,9 @@ impl Bins {
 
         // The `start` of the left-most bin should be `f64::MIN`.
         bins.0.first_mut().unwrap().0.start = f64::MIN;
-        // The `end` of the right-most bin should be `f64::MAX`.
-        bins.0.last_mut().unwrap().0.end = f64::MAX;
+        // The `end` of the right-most bin should be `f64::INFINITY`,
+        // since the end is exclusive and `f64::MAX` is a finite value.
+        bins.0.last_mut().unwrap().0.end = f64::INFINITY;
 
         bins
     }
@@ -114,18 +130,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        // Compute each edge from its index; accumulating the width
-        // leads an unexpected number of bins by numerical error.
-        let bins = (0..n_bin).map(|k| {
-                let left = min + intercept * k as f64;
-                let right = min + intercept * (k + 1) as f64;
-                Bin::new(left..right)
-            })
-            .collect::<Vec<_>>();
-
-        Self(bins)
+        Self(equal_width_bins(min, max, n_bin))
     }
 
 
@@ -160,18 +165,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        // Compute each edge from its index; accumulating the width
-        // leads an unexpected number of bins by numerical error.
-        let bins = (0..n_bin).map(|k| {
-                let left = min + intercept * k as f64;
-                let right = min + intercept * (k + 1) as f64;
-                Bin::new(left..right)
-            })
-            .collect::<Vec<_>>();
-
-        Self(bins)
+        Self(equal_width_bins(min, max, n_bin))
     }
 
 
@@ -256,7 +250,7 @@ impl Bins {
         let mut bin_and_gh = Vec::new();
         for (next_bin, _, (next_grad, next_hess)) in iter {
             let start = prev_bin.0.start;
-            let end = (prev_bin.0.end + next_bin.0.start) / 2.0;
+            let end = prev_bin.0.end / 2.0 + next_bin.0.start / 2.0;
             let bin = Bin::new(start..end);
             bin_and_gh.push((bin, prev_grad, prev_hess));
 
@@ -314,7 +308,7 @@ impl fmt::Display for Bin {
             let start = start.abs();
             format!("{sgn}{start: >.1}")
         };
-        let end = if self.0.end == f64::MAX {
+        let end = if self.0.end == f64::INFINITY {
             String::from("+Inf")
         } else {
             let end = self.0.end;
-- 
2.43.0


From 222058f0621158622cbf3d5b3e7e6ffe13fef824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:08 +0000
Subject: [PATCH 54/54] fix: rounding errors of opposite signs made the entropy
 of an empty side arbitrarily small

---
 src/weak_learner/decision_tree/criterion.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index d2a8173..b513bcb 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -205,9 +205,12 @@ fn split_by_entropy(pack: Vec<(Bin, LabelToWeight)>)
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
             right_weight_sum -= w;
+            // By numerical error, `y` may be already removed.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0

