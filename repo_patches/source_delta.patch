From d7fd800f67bbabef36d73270cdb55189dff162ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 01/30] fix: renumber graphs with several components or
 unconnected vertices

---
 src/matrix/graph.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..f65fd33 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,9 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // fill out any trailing unconnected vertices
+        res.indices.resize(v_count, res.adjacent.len());
+
         res
     }
 
@@ -189,7 +192,13 @@ impl Graph {
         // identify a pseudoperipheral node of the graph by George and Liu's method
 
         // choose an arbitrary starting node
-        let mut x = 0;
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, root: usize) -> usize {
+        // identify a pseudoperipheral node of the root's connected component
+
+        let mut x = root;
         let mut longest = 0;
 
         loop {
@@ -208,12 +217,18 @@ impl Graph {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
         let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
 
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // all of the components reached so far are ordered, start on another one
+                let unvisited = mask.iter().position(|&x| x).unwrap();
+                let root = self.pseudo_peripheral_from(unvisited);
+                mask[root] = false;
+                ordering.push(root);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From cfac05bc7babe57e6b1b9622336794d6407e3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 02/30] fix: pivot dense elimination on magnitude and report
 singular systems

---
 src/matrix/inverse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..e835172 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,17 +36,18 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
-            if max == None {
-                return Err(MatrixError::solve("no non-zero values remain in column"));
-            }
-            let (max_idx, _) = max.unwrap();
+                .map(|(i, x)| (i, x.abs()))
+                .max_by(|(_, x), (_, y)| x.total_cmp(y));
+            let max_idx = match max {
+                Some((i, x)) if x > 0.0 && x.is_finite() => i,
+                _ => return Err(MatrixError::solve("no usable pivot remains in column")),
+            };
 
             self.swap_rows(col, max_idx);
             b.swap_rows(col, max_idx);
-- 
2.43.0


From d4dff3ea0149325902439eef3a06489f1ff9067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 03/30] fix: keep a full support added to a node already
 supported in one direction

---
 src/element/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..40caf9d 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -204,6 +204,9 @@ impl ElementAssemblage {
             (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
+            (_, Constraint::XYFixed) => {
+                self.constraints[n.0] = Constraint::XYFixed;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From bfe393decf1a9c8674689e7b6bee51ad3e5fae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 04/30] fix: accumulate loads that meet at a node and apply
 line loads once per edge

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 40caf9d..3f71cf7 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -253,7 +253,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -262,8 +262,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // an edge shared by two elements carries the force only once
+                    break;
                 }
             }
         }
-- 
2.43.0


From 929517970b56e1c998ecff26e6a8bca043ded7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 05/30] fix: clockwise elements contribute positive stiffness

---
 src/element/element.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..2875962 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -211,10 +211,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mut mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // the integrand for K is thickness * (det J) * B_t * C * B
+            // the integrand for K is thickness * |det J| * B_t * C * B
+            // (det J is negative for clockwise elements)
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs();
             inter *= mats.thickness;
             mats.b.transpose();
 
-- 
2.43.0


From 1c056f7e11f34740881d67194b9bf64fcff9d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 06/30] fix: scale the element mass matrix by the element size

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 2875962..4bbc733 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -232,11 +232,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * thickness * |det J| * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From 1f62ebd75a805405e117bdb6eee3b2e37e8a5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 07/30] fix: solvers return a renumbered system's solution in
 the caller's numbering

---
 src/matrix/solve/direct.rs    | 13 ++++++++++---
 src/matrix/solve/iterative.rs | 13 +++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..5bb4634 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -9,12 +9,13 @@ use super::{Solver, System};
 pub struct DenseGaussSolver {
     k: LinearMatrix,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for DenseGaussSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
-        Self { k, r }
+        let (k, r, perm) = sys.into_krp();
+        Self { k, r, perm }
     }
 
     fn solve(mut self) -> Result<Vec<f64>, ()> {
@@ -22,7 +23,13 @@ impl Solver for DenseGaussSolver {
         let res = self.k.solve_gausselim(self.r).map_err(|_| ())?;
         eprintln!("dense gauss solution complete");
 
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+        if let Some(perm) = self.perm {
+            // invert the permutation
+            perm.permute_slice(x.as_mut_slice());
+        }
+
+        Ok(x)
     }
 }
 
diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..1ac5595 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -1,4 +1,5 @@
 use super::{Solver, System};
+use crate::matrix::graph::Permutation;
 use crate::matrix::{CompressedRow, LinearMatrix, MatrixLike, Norm};
 
 #[derive(Clone, Debug)]
@@ -7,11 +8,12 @@ pub struct GaussSeidelSolver {
     max_iter: usize,
     k: CompressedRow,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for GaussSeidelSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
+        let (k, r, perm) = sys.into_krp();
 
         Self {
             // TODO add interface for tol, max_iter specification
@@ -20,6 +22,7 @@ impl Solver for GaussSeidelSolver {
 
             k,
             r,
+            perm,
         }
     }
 
@@ -29,7 +32,13 @@ impl Solver for GaussSeidelSolver {
 
         // TODO pass informative errors up, remove gauss_seidel panics
         eprintln!("iteration converged, gauss-seidel solution complete");
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+        if let Some(perm) = self.perm {
+            // invert the permutation
+            perm.permute_slice(x.as_mut_slice());
+        }
+
+        Ok(x)
     }
 }
 
-- 
2.43.0


From 6b5ad1ff141a312b41b7792dbd81f1924abde002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 08/30] fix: envelope cholesky reports systems that are not
 positive definite

---
 src/matrix/solve/direct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index 5bb4634..88a0a21 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -78,6 +78,11 @@ impl Solver for CholeskyEnvelopeSolver {
 
         let chol = cholesky_envelope(&self.k);
 
+        // the factor of a matrix that isn't positive definite has an unusable diagonal
+        if (0..dofs).any(|i| !(chol[(i, i)] > 0.0)) {
+            return Err(());
+        }
+
         eprintln!(
             "decomposition computed in {}ms\nsubstituting system...",
             t.elapsed().as_millis()
-- 
2.43.0


From eb117ea0a9ef1a5fbbe97a9f79db0f64bd088992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 09/30] fix: gauss-seidel accepts a zero load and never a
 diverged iterate

---
 src/matrix/solve/iterative.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 1ac5595..d495b7d 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -91,7 +91,10 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        let norm = u.frobenius();
+
+        // (an overflowing norm means the iteration is diverging)
+        if norm.is_finite() && diff_norm <= tol * norm {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From b022f537ae4db10b186943589deacf6ce2d861af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 10/30] fix: factor shifted eigensystems whose pivots vanish

---
 src/matrix/solve/eigen.rs | 54 +++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index e3a7903..869255c 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -1,6 +1,6 @@
 use crate::matrix::graph::Permutation;
 use crate::matrix::solve::{direct, System};
-use crate::matrix::{dot, BiEnvelope, LinearMatrix, LowerRowEnvelope, MatrixLike};
+use crate::matrix::{dot, BiEnvelope, Diagonal, LinearMatrix, LowerRowEnvelope, MatrixLike};
 
 // a range known to contain an eigenvalue
 // stores the number of eigenvalues under this one (same as val index)
@@ -186,11 +186,8 @@ impl DeterminantSearcher {
         // find the number of eigenvalues under the supplied value
 
         // find the LDL' decomposition of (K - lM)
-        let mut a = self.sys.k_mat.clone();
-        a.add_scaled_bienv(&self.sys.m_mat, -1.0 * l);
-        let (_, d) = direct::cholesky_envelope_no_root(&a);
+        let (_, _, d) = shifted_ldl(&self.sys.k_mat, &self.sys.m_mat, l);
 
-        // TODO add handling for too-singular K-lM (solution: just test a different value)
         d.num_neg()
     }
 
@@ -310,6 +307,45 @@ impl DeterminantSearcher {
     }
 }
 
+fn shifted_ldl(
+    k: &LowerRowEnvelope,
+    m: &BiEnvelope,
+    shift: f64,
+) -> (f64, LowerRowEnvelope, Diagonal) {
+    // find the LDL' decomposition of (K - shift * M)
+    // returns the shift in use along with L and D
+
+    // a zero pivot spoils the decomposition, in which case use a very slightly smaller shift
+    // (to begin with, also if a pivot is so small that it may be nothing but rounding errors)
+    let n = k.shape().0;
+    let start = shift.abs();
+    let mut shift = shift;
+    let mut step = if start == 0.0 { 1e-9 } else { start * 1e-9 };
+    let mut min_pivot = 1e-10;
+
+    loop {
+        // for now, clone the supplied K - maybe investigate nonallocating alternatives in the future
+        let mut a = k.clone();
+        a.add_scaled_bienv(m, -1.0 * shift);
+        let (l, d) = direct::cholesky_envelope_no_root(&a);
+
+        let sound = (0..n).all(|i| {
+            let size = k[(i, i)].abs() + (shift * m[(i, i)]).abs();
+            d[i].is_finite() && d[i].abs() > min_pivot * size
+        });
+
+        if sound || !shift.is_finite() {
+            break (shift, l, d);
+        }
+
+        shift -= step;
+        step *= 2.0;
+        if step > 1e-8 * start {
+            min_pivot = 0.0;
+        }
+    }
+}
+
 fn inverse_iterate(
     k: &LowerRowEnvelope,
     m: &BiEnvelope,
@@ -327,15 +363,11 @@ fn inverse_iterate(
     assert_eq!(k.shape(), m.shape());
     let n = k.shape().0;
 
-    // for now, clone the supplied K - maybe investigate nonallocating alternatives in the future
-    let mut k = k.clone();
-    k.add_scaled_bienv(m, -1.0 * shift);
+    // decompose the shifted matrix (this only needs to happen once)
+    let (shift, k_l, k_d) = shifted_ldl(k, m, shift);
     // for all intents and purposes (K - shift * M) is now the K to be used
     // the following algorithm iterates on the system K * v = l * M * v
 
-    // decompose the shifted matrix (this only needs to happen once)
-    let (k_l, k_d) = direct::cholesky_envelope_no_root(&k);
-
     let mut old_rho: Option<f64> = None;
 
     // generate a random starting vector
-- 
2.43.0


From d386a6e168e7dff505bc9abef361cdaf12a467de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 11/30] fix: search again when inverse iteration stops away
 from the eigenvalue in its range

---
 src/matrix/solve/eigen.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index 869255c..0e84bcd 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -20,6 +20,12 @@ impl OneEigenRange {
     fn mid_val(&self) -> f64 {
         (self.lower + self.upper) / 2.0
     }
+
+    fn contains(&self, val: f64) -> bool {
+        // with some leeway, as the ends are only as exact as the eigenvalue counts
+        let leeway = 1e-7 * self.upper.abs();
+        self.lower - leeway <= val && val <= self.upper + leeway
+    }
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -191,7 +197,15 @@ impl DeterminantSearcher {
         d.num_neg()
     }
 
-    fn process_one(&mut self, r: OneEigenRange) {
+    fn is_next(&self, val: f64) -> bool {
+        // check that the lowest undiscovered eigenvalue is close to the supplied value
+        let found = self.eigenpairs.len();
+        let close = 1e-4 * val.abs();
+
+        self.eigenvalues_under(val - close) <= found && self.eigenvalues_under(val + close) > found
+    }
+
+    fn process_one(&mut self, mut r: OneEigenRange) {
         // refine an eigenrange, then send it to inverse iteration and store the result
         // TODO improve this procedure - might need to improve guess first
 
@@ -209,8 +223,22 @@ impl DeterminantSearcher {
             Some(&self.eigenpairs[lower_idx..])
         };
 
-        // accept the middle of the resulting range for inverse iteration
-        let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+        // use the middle of the range for inverse iteration
+        let pair = loop {
+            let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+
+            if r.contains(pair.value()) && self.is_next(pair.value()) {
+                break pair;
+            }
+
+            // stopped at a neighbor of the eigenvalue in the range or before it was close,
+            // narrow the range and retry
+            if self.eigenvalues_under(r.mid_val()) > self.eigenpairs.len() {
+                r = OneEigenRange::new(r.lower, r.mid_val());
+            } else {
+                r = OneEigenRange::new(r.mid_val(), r.upper);
+            }
+        };
 
         self.eigenpairs.push(pair);
 
-- 
2.43.0


From 0d107b44545a55d20ad317e6fd65f02631a8975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 12/30] fix: compressed row zero and identity matrices are
 readable

---
 src/matrix/sparse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..d5ebb33 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -691,10 +691,16 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
+    fn eye<T: Into<MatrixShape>>(dim: T) -> Self {
+        // (values cannot be put into a zero matrix)
+        let n = dim.into().max_dim;
+        Self::from_labeled_vals((n, n), (0..n).map(|i| ((i, i), 1.0)).collect())
+    }
+
     fn from_flat<T: Into<MatrixShape>, U: IntoIterator<Item = f64>>(shape: T, vals: U) -> Self {
         let shape: MatrixShape = shape.into();
         let shape = (shape.nrow, shape.ncol);
-- 
2.43.0


From 44ce4c810ebd9b4bc61421bb900d6a4b1ed3e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 13/30] fix: a transposed dictionary matrix has the transposed
 shape

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index d5ebb33..00634b1 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -520,7 +520,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From 21dea8179a1b3864d3bc1b3bfae07ef5d88031ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 14/30] fix: envelope substitution ignores what the output
 buffer held

---
 src/matrix/sparse.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 00634b1..05f6b14 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -240,6 +240,8 @@ impl LowerRowEnvelope {
 
         for i in 0..self.n {
             let (start_col, row_stored) = self.row_stored(i);
+            // x[i] may still hold anything, the diagonal stays out of the dot product
+            let (diag, row_stored) = row_stored.split_last().unwrap();
 
             let dot: f64 = row_stored
                 .iter()
@@ -247,7 +249,7 @@ impl LowerRowEnvelope {
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-            x[i] = (b[i] - dot) / row_stored.last().unwrap();
+            x[i] = (b[i] - dot) / diag;
         }
     }
 
@@ -269,7 +271,7 @@ impl LowerRowEnvelope {
                 0
             };
 
-            let row_stored = &row_stored[offset..];
+            let (diag, row_stored) = row_stored[offset..].split_last().unwrap();
             let start_col = start_col + offset;
 
             let sub_start_col = start_col - range.0;
@@ -279,7 +281,7 @@ impl LowerRowEnvelope {
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-            x[sub_i] = (b[sub_i] - dot) / row_stored.last().unwrap();
+            x[sub_i] = (b[sub_i] - dot) / diag;
         }
     }
 
-- 
2.43.0


From 723a798f444cb36fab61894e5318b7e1d0bc1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 15/30] fix: full envelope matrices may have empty rows

---
 src/matrix/sparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 05f6b14..65edaf3 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -404,6 +404,13 @@ impl BiEnvelope {
         let n = bnd.len();
         // for now, this matrix type is always square
 
+        // an empty row is stored as no values at the diagonal
+        let bnd: Vec<(usize, usize)> = bnd
+            .into_iter()
+            .enumerate()
+            .map(|(r, (a, b))| if a < b { (a, b) } else { (r, r) })
+            .collect();
+
         let mut row_starts = vec![0];
 
         for &(a, b) in bnd.iter() {
-- 
2.43.0


From d1e864c5569435b360be471b228d92420cc4cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 16/30] fix: drawing an image reports write errors of the final
 flush

---
 src/visual/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..3e6a37a 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -1,7 +1,7 @@
 use crate::matrix::{LinearMatrix, MatrixLike};
 use crate::spatial::Point;
 
-use image::{Rgb, RgbImage};
+use image::{DynamicImage, ImageFormat, Rgb, RgbImage};
 
 mod bresenham;
 pub mod color;
@@ -217,7 +217,13 @@ impl Visualizer {
             }
         }
 
-        img.save(fileloc).unwrap();
+        // encode in memory so that no write error can get lost in a buffer's final flush
+        let format = ImageFormat::from_path(fileloc).unwrap();
+        let mut bytes = Vec::new();
+        DynamicImage::ImageRgb8(img)
+            .write_to(&mut bytes, format)
+            .unwrap();
+        std::fs::write(fileloc, bytes).unwrap();
     }
 }
 
-- 
2.43.0


From b41da6dbed607dafc9f75d03051972662ea1863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 17/30] fix: a corner where constrained sides meet keeps both
 constraints

---
 src/mesher/bounds.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 96abe86..3a1111b 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -403,26 +403,21 @@ impl PlaneBoundary {
             if let Some(c) = dist_c {
                 self.distributed_constraints
                     .insert((cur, new_point_id).into(), c);
-
-                // distributed constraints are just bookkeeping
-                // they mark segments where new points should have cosntraints
-                self.constraints.insert(new_point_id, c);
             }
 
             cur = new_point_id;
             new_point = new_point + leg;
         }
 
-        if let Some(c) = dist_c {
-            self.constraints.insert(start, c);
-            self.constraints.insert(end, c);
-        }
-
         self.store_segment_unchecked((cur, end));
 
         if let Some(f) = dist_f {
             self.distributed_forces.insert((cur, end).into(), f);
         }
+
+        if let Some(c) = dist_c {
+            self.distributed_constraints.insert((cur, end).into(), c);
+        }
     }
 
     pub fn split_segment(&mut self, s: Segment) -> (Segment, Segment, Vertex) {
@@ -489,19 +484,20 @@ impl PlaneBoundary {
 
     pub fn all_constraints(&self) -> Vec<(Vertex, Constraint)> {
         // include the vertices of distributed constraints
+        // a vertex where several constraints meet is listed with each of them
 
-        let mut res: HashMap<Vertex, Constraint> = HashMap::new();
+        let mut res: Vec<(Vertex, Constraint)> = Vec::new();
 
         for (v, c) in self.constraints.iter() {
-            res.insert(*v, *c);
+            res.push((*v, *c));
         }
 
         for (s, c) in self.distributed_constraints.iter() {
-            res.insert(s.0, *c);
-            res.insert(s.1, *c); // will just overwrite any duplicates
+            res.push((s.0, *c));
+            res.push((s.1, *c));
         }
 
-        res.into_iter().collect()
+        res
     }
 
     pub fn visualize(&self) -> Visualizer {
-- 
2.43.0


From 827cae8bae326306123545b1904be24678b92d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 18/30] fix: damaged mesh and boundary files are refused, not a
 panic

---
 src/file/bbnd.rs | 12 +++++-----
 src/file/bmsh.rs | 61 ++++++++++++++++++++++++++----------------------
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index b3b58eb..d3bfbcc 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -13,7 +13,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{self, alphanumeric1, not_line_ending},
-    combinator::map,
+    combinator::{map, map_res},
     multi::{separated_list0, separated_list1},
     number::complete::double,
     sequence::{delimited, preceded, separated_pair, tuple},
@@ -127,9 +127,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             ParseItem::Condition(Condition::Axisymmetric)
         }),
     ));
-    // TODO fix material error handling
-    let material = map(preceded(tag("material "), alphanumeric1), |m: &str| {
-        ParseItem::Material(m.parse::<Material>().unwrap())
+    let material = map_res(preceded(tag("material "), alphanumeric1), |m: &str| {
+        m.parse::<Material>().map(ParseItem::Material)
     });
 
     let dist_force = map(
@@ -145,7 +144,7 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
         |f: (&str, &str, f64, f64)| ParseItem::DistForce(f.0, f.1, f.2, f.3),
     );
 
-    let dist_constraint = map(
+    let dist_constraint = map_res(
         preceded(
             tag("distributed_constraint "),
             tuple((
@@ -155,7 +154,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             )),
         ),
         |f: (&str, &str, &str)| {
-            ParseItem::DistConstraint(f.0, f.1, f.2.parse::<Constraint>().unwrap())
+            f.2.parse::<Constraint>()
+                .map(|c| ParseItem::DistConstraint(f.0, f.1, c))
         },
     );
 
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index efd3d85..e604cd0 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -13,10 +13,13 @@ use super::FileError;
 
 type NomStrErr<'a> = nom::error::Error<&'a str>;
 
-fn code_to_desc(code: Vec<NodeId>) -> ElementDescriptor {
-    assert!(code.len() == 3);
-
-    ElementDescriptor::new([code[0], code[1], code[2]])
+fn plane_point(coors: Vec<f64>) -> Result<Point, &'static str> {
+    // points in mesh files have two finite components
+    if coors.len() == 2 && coors.iter().all(|x| x.is_finite()) {
+        coors.try_into()
+    } else {
+        Err("bad point")
+    }
 }
 
 fn desc_to_code(desc: ElementDescriptor) -> [NodeId; 3] {
@@ -160,7 +163,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         branch::alt,
         bytes::complete::tag,
         character::complete::{self, alphanumeric1, not_line_ending},
-        combinator::map,
+        combinator::{map, map_res},
         multi::separated_list0,
         number::complete::double,
         sequence::{preceded, separated_pair, terminated, tuple},
@@ -180,7 +183,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     // parse the header
     let version = named_value("version", complete::u8);
-    let material = named_value("material", alphanumeric1);
+    let material = named_value(
+        "material",
+        map_res(alphanumeric1, |m: &str| m.parse::<Material>()),
+    );
 
     let condition_parser = alt((
         map(preceded(tag("planestrain "), double), |t: f64| {
@@ -199,7 +205,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         map(tuple((version, material, condition)), |(v, m, c)| {
             ParseHeader {
                 version: v,
-                material: m.parse().expect("bad material"),
+                material: m,
                 condition: c,
             }
         }),
@@ -215,16 +221,14 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     // parse the remaining segments
     let (input, nodes): (_, Vec<Point>) = section_parse(
         "Nodes",
-        monotonic_list(map(separated_list0(tag("/"), double), |x| {
-            x.try_into().expect("bad node position string")
-        })),
+        monotonic_list(map_res(separated_list0(tag("/"), double), plane_point)),
     )(input)?;
 
-    let (input, elements): (_, Vec<Vec<usize>>) = section_parse(
+    let (input, elements): (_, Vec<[usize; 3]>) = section_parse(
         "Elements",
-        monotonic_list(separated_list0(
-            tag("/"),
-            map(complete::u64, |x| x as usize),
+        monotonic_list(map_res(
+            separated_list0(tag("/"), map(complete::u64, |x| x as usize)),
+            |ns: Vec<usize>| ns.try_into(),
         )),
     )(input)?;
 
@@ -233,10 +237,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(
+            map_res(
                 not_line_ending,
                 // TODO: remove redundant info from make_constraint
-                |con: &str| con.parse::<Constraint>().expect("bad constraint"),
+                |con: &str| con.parse::<Constraint>(),
             ),
         )),
     )(input)?;
@@ -246,9 +250,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), plane_point),
         )),
     )(input)?;
 
@@ -257,9 +259,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), plane_point),
         ))),
     )(input)?;
 
@@ -267,24 +267,29 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     let mut elas = header.into_elas();
 
     let node_ids = elas.add_nodes(&nodes);
+    let node_id = |i: usize| {
+        node_ids
+            .get(i)
+            .copied()
+            .ok_or_else(|| FileError::parse(format!("node {} does not exist", i)))
+    };
 
     // TODO write an elas API to generate an element with the suggested type
-    for ns in elements.into_iter() {
-        let nids = ns.into_iter().map(|i| node_ids[i]).collect();
-        let desc = code_to_desc(nids);
+    for [a, b, c] in elements.into_iter() {
+        let desc = ElementDescriptor::new([node_id(a)?, node_id(b)?, node_id(c)?]);
         elas.add_element(desc);
     }
 
     for (n, con) in constraints.into_iter() {
-        elas.add_constraint(node_ids[n], con);
+        elas.add_constraint(node_id(n)?, con);
     }
 
     for (n, frc) in forces.into_iter() {
-        elas.add_conc_force(node_ids[n], frc);
+        elas.add_conc_force(node_id(n)?, frc);
     }
 
     for (na, nb, frc) in dist_forces.into_iter() {
-        elas.add_dist_line_force(node_ids[na], node_ids[nb], frc);
+        elas.add_dist_line_force(node_id(na)?, node_id(nb)?, frc);
     }
 
     Ok(elas)
-- 
2.43.0


From 5ae157ea3de070607b6b33f56a77a15d72ab5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 19/30] fix: a boundary file with crossing sides is refused,
 not a panic

---
 src/file/bbnd.rs     |  4 +++-
 src/mesher/bounds.rs | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index d3bfbcc..c8ef5d8 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -72,7 +72,9 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 vertex_labels.push(l);
             }
 
-            let vertices = res.store_polygon(&vertex_points);
+            let vertices = res
+                .try_store_polygon(&vertex_points)
+                .map_err(FileError::parse)?;
             for (&l, vertex) in vertex_labels.iter().zip(vertices) {
                 if let Some(label) = l {
                     label_map.insert(label, vertex);
diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 3a1111b..8edd1eb 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -195,7 +195,7 @@ impl PlaneBoundary {
         self.seg_set.insert(s);
     }
 
-    fn store_base_segment<S: Into<Segment>>(&mut self, s: S) {
+    fn store_base_segment<S: Into<Segment>>(&mut self, s: S) -> Result<(), &'static str> {
         // store a segment into both the main and base maps
         let s = s.into();
 
@@ -203,12 +203,13 @@ impl PlaneBoundary {
 
         // possibly avoid this O(n) check for at-scale work
         if self.intersects(a, b, Some(s)) {
-            panic!("segment overlaps with existing segment");
+            return Err("segment overlaps with existing segment");
         }
 
         self.seg_map.insert(s.0, s.1);
         self.base_seg_map.insert(s.0, s.1);
         self.seg_set.insert(s);
+        Ok(())
     }
 
     pub fn set_condition(&mut self, c: Condition) {
@@ -319,6 +320,14 @@ impl PlaneBoundary {
     }
 
     pub fn store_polygon<T>(&mut self, poly: &[T]) -> Vec<Vertex>
+    where
+        T: Into<Point> + Copy,
+    {
+        self.try_store_polygon(poly)
+            .expect("could not store polygon")
+    }
+
+    pub fn try_store_polygon<T>(&mut self, poly: &[T]) -> Result<Vec<Vertex>, &'static str>
     where
         T: Into<Point> + Copy,
     {
@@ -338,13 +347,13 @@ impl PlaneBoundary {
         for p in poly {
             let p_idx = self.store_vertex(p);
             ids.push(p_idx);
-            self.store_base_segment((prev_idx, p_idx));
+            self.store_base_segment((prev_idx, p_idx))?;
 
             prev_idx = p_idx;
         }
 
-        self.store_base_segment((prev_idx, start_idx));
-        ids
+        self.store_base_segment((prev_idx, start_idx))?;
+        Ok(ids)
     }
 
     pub fn divide_segment(&mut self, s: Segment, h: f64) {
-- 
2.43.0


From 99e22fd5658f9ec958d3d997536d954bd755ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:04 +0000
Subject: [PATCH 20/30] fix: loading an element of overflowing size does not
 panic

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 4bbc733..3328179 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -343,11 +343,11 @@ impl Element {
         // unwrap here is ok because jacobians should never be an empty list
         let a = jacobians
             .iter()
-            .max_by(|x, y| x.partial_cmp(y).unwrap())
+            .max_by(|x, y| x.total_cmp(y))
             .unwrap();
         let b = jacobians
             .iter()
-            .min_by(|x, y| x.partial_cmp(y).unwrap())
+            .min_by(|x, y| x.total_cmp(y))
             .unwrap();
 
         // note this may return a negative number
-- 
2.43.0


From 3c85108e50e27615a5003656ff29bb8230c5fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 21/30] fix: the perturbation against cocircular points scales
 with the coordinates

---
 src/mesher/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesher/mod.rs b/src/mesher/mod.rs
index 9a024bc..92e5430 100644
--- a/src/mesher/mod.rs
+++ b/src/mesher/mod.rs
@@ -62,14 +62,17 @@ impl Vertex {
         // apply a perturbation unique to this vertex
         // for use in avoiding cocircular edge cases in meshing
 
+        // relative to the coordinates, so that it is never lost in their rounding
         const MAX_PERTURB: f64 = 1e-9;
 
         let mut hasher = DefaultHasher::new();
         self.hash(&mut hasher);
 
-        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB;
+        let (x, y): (f64, f64) = self.1.into();
+        let scale = x.abs().max(y.abs()).max(1.0);
+
+        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB * scale;
 
-        let (x, y) = self.1.into();
         (x + perturb, y + perturb).into()
     }
 
-- 
2.43.0


From 675d248785aed682a7d287160f9975131e449ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 22/30] fix: ruppert meshing splits the wall that hides a
 circumcenter from its triangle

---
 src/mesher/plane.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 9dc98a5..ac46196 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -496,6 +496,32 @@ impl PlaneTriangulation {
         }
     }
 
+    fn wall_before(&self, tri: Triangle, p: Vertex) -> Option<Segment> {
+        // find the wall hiding p from the inside of tri, by walking through the triangulation
+        let (u, v, w) = tri.get();
+        let start = Vertex::new(u.mid(v).mid(w));
+        let right = |x: Vertex| self.triangle_dir((start, p, x)) == Orient::Negative;
+        let mut tri = tri;
+
+        loop {
+            // the line from start to p leaves tri between a vertex to its right and one to its left
+            let e = tri
+                .edges()
+                .iter()
+                .copied()
+                .find(|e| right(e.0) && !right(e.1))?;
+
+            if self.triangle_dir((e.0, e.1, p)) != Orient::Negative {
+                return None; // p is in tri
+            }
+
+            match self.adjacent(e.rev()) {
+                Some(x) => tri = (e.1, e.0, x).into(),
+                None => return Some(e.into()),
+            }
+        }
+    }
+
     pub fn ruppert_mesh(&mut self, max_size: f64) {
         eprintln!("beginning ruppert mesh generation ...");
         eprint!("triangulating initial boundary ... ");
@@ -523,7 +549,13 @@ impl PlaneTriangulation {
             let center = self.circumcenter(tri).unwrap(); // todo get rid of wrapping method
             let center = Vertex::new(center); // ok to do this outside of storage
 
-            if let Some(segs) = self.segments_encroached_by(center) {
+            // a wall between the triangle and its center must be split, whatever lies beyond it
+            let segs = match self.wall_before(tri, center) {
+                Some(s) => Some(vec![s]),
+                None => self.segments_encroached_by(center),
+            };
+
+            if let Some(segs) = segs {
                 self.ruppert_split_many(center, segs, false);
             } else {
                 let center_id = self.store_vertex(center.get()); // this'll spin a new id, but that doesn't matter
-- 
2.43.0


From bee229e4c3e6e3f80d5b022d7a2602a8b33f85cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 23/30] fix: a wall is not encroached by what lies behind it

---
 src/mesher/plane.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index ac46196..3e87674 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -420,6 +420,10 @@ impl PlaneTriangulation {
             return false; // a segment is not encroached by its own end points
         }
 
+        if self.triangle_dir((s.0, s.1, p)) == Orient::Negative {
+            return false; // nor by anything behind it
+        }
+
         // check if p is in the diametral circle
         let (a, b) = (s.0.get(), s.1.get());
         let mid = a.mid(b);
-- 
2.43.0


From 737d09ebec7ae3412a537a28ccbf30f178ddf8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 24/30] fix: a load added to a loaded node or edge replaced the
 earlier one

---
 src/element/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 3f71cf7..ea4ec79 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -165,7 +165,12 @@ impl ElementAssemblage {
     }
 
     pub fn add_conc_force(&mut self, n: NodeId, force: Point) {
-        self.concentrated_forces.insert(n, force);
+        // loads added to the same node act together
+        let total = match self.concentrated_forces.get(&n) {
+            Some(&f) => f + force,
+            None => force,
+        };
+        self.concentrated_forces.insert(n, total);
     }
 
     pub fn dist_forces(&self) -> Vec<((NodeId, NodeId), Point)> {
@@ -176,7 +181,12 @@ impl ElementAssemblage {
     }
 
     pub fn add_dist_line_force(&mut self, n: NodeId, m: NodeId, force: Point) {
-        self.line_forces.insert((n, m), force);
+        // loads added to the same edge act together
+        let total = match self.line_forces.get(&(n, m)) {
+            Some(&f) => f + force,
+            None => force,
+        };
+        self.line_forces.insert((n, m), total);
     }
 
     pub fn constraints(&self) -> Vec<(NodeId, Constraint)> {
-- 
2.43.0


From b6c104b9897e80b0c599cfd38c48253fbdf24458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 25/30] fix: stresses on the axis of a solid of revolution were
 not numbers

---
 src/element/strain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index 5820f4b..3b19712 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -72,7 +72,8 @@ impl Condition {
                     b[(1, u_i_y)] = dhi_dy;
                     b[(2, u_i_x)] = dhi_dy;
                     b[(2, u_i_y)] = dhi_dx;
-                    b[(3, u_i_x)] = h_i / r;
+                    // on the axis the hoop strain tends to the radial strain
+                    b[(3, u_i_x)] = if r == 0.0 { dhi_dx } else { h_i / r };
                 }
 
                 b
-- 
2.43.0


From ceacfd0a6f44f5ed67eb8f3c4e7734ef87c464b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 26/30] fix: visibility tests of the mesher ignored walls of
 regions measured in small units

---
 src/mesher/bounds.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 8edd1eb..a3726bd 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -294,6 +294,7 @@ impl PlaneBoundary {
 
     pub fn midpoint_visible(&self, s: Segment, x: Vertex) -> bool {
         // determine whether the midpoint of s is visible from v
+        // (the tolerance is relative to the wall)
         const TOLERANCE: f64 = 1e-6;
 
         let (p, q) = s.get();
@@ -308,8 +309,9 @@ impl PlaneBoundary {
             let x = x.get();
             let ab = spacemath::two::Segment::new(a, b);
             let mx = spacemath::two::Segment::new(m, x);
+            let near = TOLERANCE * a.dist(b);
             if ab.intersects(&mx).is_nonzero() {
-                if !((ab.dist(m) < TOLERANCE) || (ab.dist(x) < TOLERANCE)) {
+                if !((ab.dist(m) < near) || (ab.dist(x) < near)) {
                     // if they intersect and neither m nor x lie on ab
                     return false;
                 }
-- 
2.43.0


From dc813fc15a5b44b16e0b6678f00a97d443e89a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 27/30] fix: of several loads or supports stated for one side
 only the last was kept

---
 src/mesher/bounds.rs | 45 +++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index a3726bd..6d8c780 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -150,9 +150,9 @@ pub struct PlaneBoundary {
     // also store some BC / material information
     condition: Option<Condition>,
     material: Option<Material>,
-    constraints: HashMap<Vertex, Constraint>,
+    constraints: HashMap<Vertex, Vec<Constraint>>,
     distributed_forces: HashMap<Segment, Point>,
-    distributed_constraints: HashMap<Segment, Constraint>,
+    distributed_constraints: HashMap<Segment, Vec<Constraint>>,
 }
 
 impl PlaneBoundary {
@@ -229,15 +229,30 @@ impl PlaneBoundary {
     }
 
     pub fn store_constraint(&mut self, v: Vertex, c: Constraint) {
-        self.constraints.insert(v, c);
+        self.constraints.entry(v).or_default().push(c);
     }
 
     pub fn store_distributed_force(&mut self, v: Vertex, w: Vertex, f: Point) {
-        self.distributed_forces.insert((v, w).into(), f);
+        // forces stored for the same segment, in either direction, act together
+        let s: Segment = (v, w).into();
+        let old = self
+            .distributed_forces
+            .remove(&s.rev())
+            .or_else(|| self.distributed_forces.remove(&s));
+        self.distributed_forces
+            .insert(s, old.map_or(f, |g| g + f));
     }
 
     pub fn store_distributed_constraint(&mut self, v: Vertex, w: Vertex, c: Constraint) {
-        self.distributed_constraints.insert((v, w).into(), c);
+        // so do constraints
+        let s: Segment = (v, w).into();
+        let mut all = self
+            .distributed_constraints
+            .remove(&s.rev())
+            .or_else(|| self.distributed_constraints.remove(&s))
+            .unwrap_or_default();
+        all.push(c);
+        self.distributed_constraints.insert(s, all);
     }
 
     pub fn is_segment<S: Into<Segment>>(&self, s: S) -> bool {
@@ -411,9 +426,9 @@ impl PlaneBoundary {
                     .insert((cur, new_point_id).into(), f);
             }
 
-            if let Some(c) = dist_c {
+            if let Some(c) = &dist_c {
                 self.distributed_constraints
-                    .insert((cur, new_point_id).into(), c);
+                    .insert((cur, new_point_id).into(), c.clone());
             }
 
             cur = new_point_id;
@@ -456,7 +471,7 @@ impl PlaneBoundary {
         self.store_segment_unchecked((m, b));
 
         if let Some(c) = dist_c {
-            self.distributed_constraints.insert((a, m).into(), c);
+            self.distributed_constraints.insert((a, m).into(), c.clone());
             self.distributed_constraints.insert((m, b).into(), c);
         }
 
@@ -499,13 +514,17 @@ impl PlaneBoundary {
 
         let mut res: Vec<(Vertex, Constraint)> = Vec::new();
 
-        for (v, c) in self.constraints.iter() {
-            res.push((*v, *c));
+        for (v, cs) in self.constraints.iter() {
+            for c in cs {
+                res.push((*v, *c));
+            }
         }
 
-        for (s, c) in self.distributed_constraints.iter() {
-            res.push((s.0, *c));
-            res.push((s.1, *c));
+        for (s, cs) in self.distributed_constraints.iter() {
+            for c in cs {
+                res.push((s.0, *c));
+                res.push((s.1, *c));
+            }
         }
 
         res
-- 
2.43.0


From 89a75c71f3f5534b27094c5bc2fed8e1c78d1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 28/30] fix: boundary files with repeated labels or conditions
 that name no side were accepted

---
 src/file/bbnd.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index c8ef5d8..9692c39 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -77,7 +77,9 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 .map_err(FileError::parse)?;
             for (&l, vertex) in vertex_labels.iter().zip(vertices) {
                 if let Some(label) = l {
-                    label_map.insert(label, vertex);
+                    if label_map.insert(label, vertex).is_some() {
+                        return Err(FileError::parse("repeated vertex label"));
+                    }
                 }
             }
         }
@@ -100,6 +102,7 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 let b_vertex = label_map
                     .get(&b)
                     .ok_or_else(|| FileError::parse("invalid vertex label"))?;
+                check_side(&res, *a_vertex, *b_vertex)?;
                 res.store_distributed_force(*a_vertex, *b_vertex, (x, y).into());
             }
             ParseItem::DistConstraint(a, b, c) => {
@@ -109,6 +112,7 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 let b_vertex = label_map
                     .get(&b)
                     .ok_or_else(|| FileError::parse("invalid vertex label"))?;
+                check_side(&res, *a_vertex, *b_vertex)?;
                 res.store_distributed_constraint(*a_vertex, *b_vertex, c);
             }
         }
@@ -117,6 +121,15 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
     Ok(res)
 }
 
+fn check_side(bound: &PlaneBoundary, a: Vertex, b: Vertex) -> Result<(), FileError> {
+    // conditions act on the sides of polygons, there is nothing else to hold them
+    if bound.is_segment((a, b)) || bound.is_segment((b, a)) {
+        Ok(())
+    } else {
+        Err(FileError::parse("labels do not name a side"))
+    }
+}
+
 fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
     let condition = alt((
         map(preceded(tag("condition planestrain "), double), |t: f64| {
-- 
2.43.0


From 5f5cd2f9aede8b9478534ee3517724e85f49c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:48 +0000
Subject: [PATCH 29/30] fix: infinities and NaN in mesh and boundary files were
 accepted

---
 src/element/constraint.rs |  8 ++++----
 src/file/bbnd.rs          | 17 ++++++++---------
 src/file/bmsh.rs          |  6 +++---
 src/file/mod.rs           |  7 +++++++
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index b6ae8f8..eb786fa 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -43,10 +43,10 @@ impl FromStr for Constraint {
             "xy" => Ok(Constraint::XYFixed),
             other => {
                 if other.starts_with("angle:") {
-                    other[6..]
-                        .parse::<f64>()
-                        .map(|x| Constraint::AngleFixed(x))
-                        .map_err(|_| ())
+                    match other[6..].parse::<f64>() {
+                        Ok(x) if x.is_finite() => Ok(Constraint::AngleFixed(x)),
+                        _ => Err(()),
+                    }
                 } else {
                     Err(())
                 }
diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index 9692c39..6cb9e4d 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -6,7 +6,7 @@ use crate::element::strain::Condition;
 use crate::mesher::bounds::PlaneBoundary;
 use crate::mesher::Vertex;
 
-use super::FileError;
+use super::{finite, FileError};
 
 use nom::{
     self,
@@ -15,7 +15,6 @@ use nom::{
     character::complete::{self, alphanumeric1, not_line_ending},
     combinator::{map, map_res},
     multi::{separated_list0, separated_list1},
-    number::complete::double,
     sequence::{delimited, preceded, separated_pair, tuple},
 };
 
@@ -132,10 +131,10 @@ fn check_side(bound: &PlaneBoundary, a: Vertex, b: Vertex) -> Result<(), FileErr
 
 fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
     let condition = alt((
-        map(preceded(tag("condition planestrain "), double), |t: f64| {
+        map(preceded(tag("condition planestrain "), finite), |t: f64| {
             ParseItem::Condition(Condition::PlaneStrain(t))
         }),
-        map(preceded(tag("condition planestress "), double), |t: f64| {
+        map(preceded(tag("condition planestress "), finite), |t: f64| {
             ParseItem::Condition(Condition::PlaneStress(t))
         }),
         map(tag("condition axisymmetric"), |_| {
@@ -152,8 +151,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             tuple((
                 alphanumeric1,
                 preceded(complete::char(' '), alphanumeric1),
-                preceded(complete::char(' '), double),
-                preceded(complete::char(' '), double),
+                preceded(complete::char(' '), finite),
+                preceded(complete::char(' '), finite),
             )),
         ),
         |f: (&str, &str, f64, f64)| ParseItem::DistForce(f.0, f.1, f.2, f.3),
@@ -177,14 +176,14 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
     let vertex = alt((
         map(
             tuple((
-                double,
-                preceded(complete::char(' '), double),
+                finite,
+                preceded(complete::char(' '), finite),
                 preceded(complete::char(' '), alphanumeric1),
             )),
             |v: (f64, f64, &str)| ParseVertex::Labeled(v.0, v.1, v.2),
         ),
         map(
-            separated_pair(double, complete::char(' '), double),
+            separated_pair(finite, complete::char(' '), finite),
             |v: (f64, f64)| ParseVertex::Plain(v.0, v.1),
         ),
     ));
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index e604cd0..e80185f 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -9,7 +9,7 @@ use crate::spatial::Point;
 
 use nom::{self, IResult, Parser};
 
-use super::FileError;
+use super::{finite, FileError};
 
 type NomStrErr<'a> = nom::error::Error<&'a str>;
 
@@ -189,10 +189,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     );
 
     let condition_parser = alt((
-        map(preceded(tag("planestrain "), double), |t: f64| {
+        map(preceded(tag("planestrain "), finite), |t: f64| {
             Condition::PlaneStrain(t)
         }),
-        map(preceded(tag("planestress "), double), |t: f64| {
+        map(preceded(tag("planestress "), finite), |t: f64| {
             Condition::PlaneStress(t)
         }),
         map(tag("axisymmetric"), |_| Condition::Axisymmetric),
diff --git a/src/file/mod.rs b/src/file/mod.rs
index e8a4afd..beb25ac 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -48,6 +48,13 @@ pub fn save_elas<P: AsRef<Path>>(path: P, elas: ElementAssemblage) {
     fs::write(path, serialized).expect("could not write to file");
 }
 
+fn finite(input: &str) -> nom::IResult<&str, f64> {
+    // parser for the numbers in files, which are neither infinite nor NaN
+    use nom::{combinator::verify, number::complete::double};
+
+    verify(double, |x: &f64| x.is_finite())(input)
+}
+
 #[derive(Debug, Clone)]
 pub enum FileError {
     NoExt,
-- 
2.43.0


From 74f18f9d74e23c5156f1a86ce4bcccf199204176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:59 +0000
Subject: [PATCH 30/30] fix: pictures can be stored as tiff and in any pnm
 format again

---
 src/visual/mod.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 3e6a37a..9d2c173 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -1,7 +1,10 @@
 use crate::matrix::{LinearMatrix, MatrixLike};
 use crate::spatial::Point;
 
-use image::{DynamicImage, ImageFormat, Rgb, RgbImage};
+use image::codecs::pnm::{PNMSubtype, PnmEncoder, SampleEncoding};
+use image::codecs::tiff::TiffEncoder;
+use image::{ColorType, DynamicImage, ImageFormat, ImageResult, Rgb, RgbImage};
+use std::io::Cursor;
 
 mod bresenham;
 pub mod color;
@@ -218,15 +221,41 @@ impl Visualizer {
         }
 
         // encode in memory so that no write error can get lost in a buffer's final flush
-        let format = ImageFormat::from_path(fileloc).unwrap();
-        let mut bytes = Vec::new();
-        DynamicImage::ImageRgb8(img)
-            .write_to(&mut bytes, format)
-            .unwrap();
+        let bytes = encode(img, fileloc).unwrap();
         std::fs::write(fileloc, bytes).unwrap();
     }
 }
 
+fn encode(img: RgbImage, fileloc: &str) -> ImageResult<Vec<u8>> {
+    // encode the image in the format the file's extension asks for
+    let (width, height) = img.dimensions();
+    let mut bytes = Cursor::new(Vec::new());
+
+    match ImageFormat::from_path(fileloc)? {
+        ImageFormat::Tiff => {
+            TiffEncoder::new(&mut bytes).encode(&img, width, height, ColorType::Rgb8)?
+        }
+        ImageFormat::Pnm => {
+            // colors need a pixmap, anything else is up to the encoder
+            let subtype = match &fileloc[fileloc.len() - 3..].to_ascii_lowercase()[..] {
+                "pam" => PNMSubtype::ArbitraryMap,
+                "pgm" => PNMSubtype::Graymap(SampleEncoding::Binary),
+                "pbm" => PNMSubtype::Bitmap(SampleEncoding::Binary),
+                _ => PNMSubtype::Pixmap(SampleEncoding::Binary),
+            };
+            PnmEncoder::new(&mut bytes).with_subtype(subtype).encode(
+                &*img.into_raw(),
+                width,
+                height,
+                ColorType::Rgb8,
+            )?
+        }
+        format => DynamicImage::ImageRgb8(img).write_to(&mut bytes, format)?,
+    }
+
+    Ok(bytes.into_inner())
+}
+
 impl From<Vec<Point>> for Visualizer {
     fn from(points: Vec<Point>) -> Self {
         let dim = points[0].dim();
-- 
2.43.0

