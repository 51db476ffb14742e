From 1552650df3d3a78f720d50bfe761ecbb1edcd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 01/25] fix: pass CSC row indexes and column pointers to
 CSC::new in the right order

---
 src/csc/std_ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From be7f7e5db12ae32e90fa66076f2675e6ecf4edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 02/25] fix: reject mismatched shapes in CSR and CSC addition
 and subtraction operators

---
 src/csc/std_ops.rs |  2 ++
 src/csr/std_ops.rs | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..86a6126 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,7 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.shape(), rhs.shape(), "dimension mismatch");
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +44,7 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.shape(), rhs.shape(), "dimension mismatch");
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..2a9d8f5 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,11 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(
+        (self.rows(), self.cols()),
+        (rhs.rows(), rhs.cols()),
+        "dimension mismatch"
+    );
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +47,11 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(
+        (self.rows(), self.cols()),
+        (rhs.rows(), rhs.cols()),
+        "dimension mismatch"
+    );
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From 8bec38716b3b6928aff0cfe506ff448129aa8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 03/25] fix: sorted and canonical checks no longer subtract or
 add in the index type

---
 src/row.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From 1887405eb11bc73040b9299ab225d7f50ec91f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 04/25] fix: count occupied diagonals below the main one
 without underflow

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..e2a97bb 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1575,14 +1575,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_isize().unwrap() - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From a9529bf88e7f092d2b23d7ea8bcd0f933aac3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:54 +0000
Subject: [PATCH 05/25] fix: a diagonal beyond the matrix is empty instead of
 underflowing

---
 src/row.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/row.rs b/src/row.rs
index e2a97bb..179acd1 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -38,7 +38,10 @@ pub fn csr_diagonal<I: Integer, T: Scalar>(
 ) {
     let first_row: usize = if k >= 0 { 0 } else { (-1 * k) as usize };
     let first_col: usize = if k >= 0 { k as usize } else { 0 };
-    let n: usize = min(n_row - first_row, n_col - first_col);
+    let n: usize = min(
+        n_row.saturating_sub(first_row),
+        n_col.saturating_sub(first_col),
+    );
 
     for i in 0..n {
         let row: usize = first_row + i;
-- 
2.43.0


From c4d315601acb3dd8650415aa96fa7be144a78347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 06/25] fix: build CSR and CSC matrices from dense data without
 rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..8218288 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -50,7 +50,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |row| row.len());
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..5907087 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -62,7 +62,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |row| row.len());
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From be7b6373c4c4fa2d4069c70c7e15f506afd758b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 07/25] fix: strong components of an empty graph

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..4e3394a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,9 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, vec![]);
+    }
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From 2b3362d462a505764f79a0a51c72151ca4960a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 08/25] fix: depth-first order from a node outside the graph is
 an error

---
 src/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 4e3394a..a4b632c 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -459,6 +459,9 @@ pub fn depth_first_order<I: Integer, T: Scalar>(
 ) -> Result<(Vec<usize>, Vec<Option<usize>>)> {
     validate_graph(csgraph, directed)?;
     let n = csgraph.cols();
+    if i_start >= n {
+        return Err(format_err!("start node out of range: {}", i_start));
+    }
 
     let mut node_list = vec![0; n];
     let mut predecessors = vec![None; n];
-- 
2.43.0


From fee0c9686b3c8799423692460ce5313fa5c74559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 09/25] fix: a graph without edges has no components instead of
 being corrupted

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index a4b632c..8b91687 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -360,6 +360,10 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        return Ok(n_comp);
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From f60aeac575fb3f0ad55473b3a76d33d2eca1ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 10/25] fix: CSR::to_coo takes only the stored entries

---
 src/csr/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 5907087..b4fe530 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -364,13 +364,14 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
     pub fn to_coo(&self) -> Coo<I, T> {
         // let values = vec![T::zero(); self.values.len()];
         // copy(values, self.values);
-        let values = self.values.clone();
+        let nnz = self.nnz();
+        let values = self.values[..nnz].to_vec();
 
         // let colidx = vec![I::zero(); self.colidx.len()];
         // copy(colidx, self.colidx);
-        let colidx = self.colidx.clone();
+        let colidx = self.colidx[..nnz].to_vec();
 
-        let mut rowidx = vec![I::zero(); self.colidx.len()];
+        let mut rowidx = vec![I::zero(); nnz];
 
         expandptr(self.rows, &self.rowptr, &mut rowidx);
 
-- 
2.43.0


From 036826dc0b4cfa5240598a77136d2c7ec3d8d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 11/25] fix: CSR::get sums duplicate entries

---
 src/csr/csr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index b4fe530..17af6d5 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -496,13 +496,13 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
         let start = self.rowptr[i].to_usize().unwrap();
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
-        // Iterate over the column indices of row k.
+        // Iterate over the column indices of row i, summing duplicates.
+        let mut v = T::zero(); // If not found, the element is zero.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                v += self.values[k];
             }
         }
-
-        T::zero() // If not found, the element is zero.
+        v
     }
 }
-- 
2.43.0


From 1a50cb4d49288cdcf87cbffedb92dad85d9f23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 12/25] fix: Coo::extend refuses slices of unequal length

---
 src/coo/coo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..125ab66 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -221,6 +221,10 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     }
 
     pub fn extend(&mut self, row: &[I], col: &[I], v: &[T]) {
+        assert!(
+            row.len() == v.len() && col.len() == v.len(),
+            "row, column, and values must all be the same length"
+        );
         self.rowidx.extend(row);
         self.colidx.extend(col);
         self.values.extend(v);
-- 
2.43.0


From dbb0c129ded2b33a8c681430b10fcac711107652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 13/25] fix: stacking fails instead of wrapping when an index
 does not fit

---
 src/coo/coo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index 125ab66..5a8583e 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -417,7 +417,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
             b_mat
                 .rowidx
                 .iter()
-                .map(|&r| r + I::from(a_mat.rows).unwrap()),
+                .map(|&r| I::from(r.to_usize().unwrap() + a_mat.rows).unwrap()),
         );
 
         let mut colidx = Vec::with_capacity(nnz);
@@ -491,7 +491,7 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
             b_mat
                 .colidx
                 .iter()
-                .map(|&c| c + I::from(a_mat.cols).unwrap()),
+                .map(|&c| I::from(c.to_usize().unwrap() + a_mat.cols).unwrap()),
         );
 
         let mut values = Vec::with_capacity(nnz);
-- 
2.43.0


From 341a2a2656ba4cb2266367e32000c10ec960403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:10 +0000
Subject: [PATCH 14/25] fix: Coo::upper does not wrap when row plus offset
 exceeds the index type

---
 src/coo/coo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index 5a8583e..a427ffd 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -345,7 +345,10 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            if self.rowidx[i]
+                .checked_add(&k)
+                .map_or(false, |r| r <= self.colidx[i])
+            {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From 95f1d17fb8291c5e4dddab6a5e971cb271f9269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 15/25] fix: products and general binary operations count
 entries without wrapping

---
 src/row.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 179acd1..58ee271 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -436,13 +436,13 @@ pub fn csr_matmat<I: Integer, T: Scalar>(
     // std::vector<T> sums(n_col, 0);
     let mut sums: Vec<T> = vec![T::zero(); n_col];
 
-    let mut nnz = I::zero();
+    let mut nnz: usize = 0;
 
     c_p[0] = I::zero();
 
     for i in 0..n_row {
         let mut head: isize = -2;
-        let mut length: I = I::zero();
+        let mut length: usize = 0;
 
         let jj_start = a_p[i].to_usize().unwrap();
         let jj_end = a_p[i + 1].to_usize().unwrap();
@@ -460,16 +460,16 @@ pub fn csr_matmat<I: Integer, T: Scalar>(
                 if next[k] == -1 {
                     next[k] = head;
                     head = k as isize;
-                    length += I::one();
+                    length += 1;
                 }
             }
         }
 
-        for _jj in 0..length.to_usize().unwrap() {
+        for _jj in 0..length {
             if sums[head as usize] != T::zero() {
-                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
-                c_x[nnz.to_usize().unwrap()] = sums[head as usize];
-                nnz += I::one();
+                c_j[nnz] = I::from(head).unwrap();
+                c_x[nnz] = sums[head as usize];
+                nnz += 1;
             }
 
             let temp = head as usize;
@@ -479,7 +479,7 @@ pub fn csr_matmat<I: Integer, T: Scalar>(
             sums[temp] = T::zero();
         }
 
-        c_p[i + 1] = nnz;
+        c_p[i + 1] = I::from(nnz).unwrap();
     }
 }
 
@@ -525,12 +525,12 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
     // std::vector<T> B_row(n_col, 0);
     let mut b_row: Vec<T> = vec![T::zero(); n_col];
 
-    let mut nnz: I = I::zero();
+    let mut nnz: usize = 0;
     c_p[0] = I::zero();
 
     for i in 0..n_row {
         let mut head: isize = -2;
-        let mut length: I = I::zero();
+        let mut length: usize = 0;
 
         //add a row of A to A_row
         let i_start = a_p[i].to_usize().unwrap();
@@ -543,7 +543,7 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
             if next[j] == -1 {
                 next[j] = head;
                 head = j as isize;
-                length += I::one();
+                length += 1;
             }
         }
 
@@ -558,19 +558,19 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
             if next[j] == -1 {
                 next[j] = head;
                 head = j as isize;
-                length += I::one();
+                length += 1;
             }
         }
 
         // scan through columns where A or B has
         // contributed a non-zero entry
-        for _jj in 0..length.to_usize().unwrap() {
+        for _jj in 0..length {
             let result: T2 = op(a_row[head as usize], b_row[head as usize]);
 
             if result.nonzero() {
-                c_j[nnz.to_usize().unwrap()] = I::from(head).unwrap();
-                c_x[nnz.to_usize().unwrap()] = result;
-                nnz += I::one();
+                c_j[nnz] = I::from(head).unwrap();
+                c_x[nnz] = result;
+                nnz += 1;
             }
 
             let temp = head as usize;
@@ -581,7 +581,7 @@ pub fn csr_binop_csr_general<I: Integer, T: Scalar, T2: Nonzero>(
             b_row[temp] = T::zero();
         }
 
-        c_p[i + 1] = nnz;
+        c_p[i + 1] = I::from(nnz).unwrap();
     }
 }
 
-- 
2.43.0


From c1cbd18d15b92550b3f2149effb5f53317825db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 16/25] fix: column indexing counts entries without wrapping

---
 src/row.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 58ee271..8cbb9d7 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1500,6 +1500,8 @@ pub fn csr_column_index1<I: Integer>(
     col_offsets: &mut [I],
     b_p: &mut [I],
 ) {
+    assert!(I::from(n_idx).is_some(), "too many column indices");
+
     // bincount(col_idxs)
     for jj in 0..n_idx {
         let j = col_idxs[jj];
@@ -1507,16 +1509,16 @@ pub fn csr_column_index1<I: Integer>(
     }
 
     // Compute new indptr
-    let mut new_nnz = I::zero();
+    let mut new_nnz: usize = 0;
     b_p[0] = I::zero();
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            new_nnz += col_offsets[a_j[jj].to_usize().unwrap()];
+            new_nnz += col_offsets[a_j[jj].to_usize().unwrap()].to_usize().unwrap();
         }
-        b_p[i + 1] = new_nnz;
+        b_p[i + 1] = I::from(new_nnz).unwrap();
     }
 
     // cumsum in-place
-- 
2.43.0


From 4de5c265c087a4e7ad0ceeda89013df7e2b4027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 17/25] fix: a row slice with zero step terminates

---
 src/row.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 8cbb9d7..947121d 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1455,19 +1455,6 @@ pub fn csr_row_slice<I: Integer, T: Scalar>(
             // Bx = copy(Ax + row_start, Ax + row_end, Bx);
             b_x.extend_from_slice(&a_x[row_start..row_end]);
 
-            row += step;
-        }
-    } else {
-        let mut row = start;
-        while row > stop {
-            let row_start = a_p[row].to_usize().unwrap();
-            let row_end = a_p[row + 1].to_usize().unwrap();
-
-            // Bj = copy(Aj + row_start, Aj + row_end, Bj);
-            b_j.extend_from_slice(&a_j[row_start..row_end]);
-            // Bx = copy(Ax + row_start, Ax + row_end, Bx);
-            b_x.extend_from_slice(&a_x[row_start..row_end]);
-
             row += step;
         }
     }
-- 
2.43.0


From b258d98d240037961eefa1bf621e3dc606a99b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 18/25] fix: sums and products keep no unused slots behind
 their entries

---
 src/csc/csc.rs     | 4 ++++
 src/csc/std_ops.rs | 8 ++++++++
 src/csr/csr.rs     | 4 ++++
 src/csr/std_ops.rs | 8 ++++++++
 4 files changed, 24 insertions(+)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 8218288..9bca009 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -296,6 +296,10 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
             &mut values,
         );
 
+        let nnz = colptr[cols].to_usize().unwrap();
+        rowidx.truncate(nnz);
+        values.truncate(nnz);
+
         CSC::new(rows, cols, rowidx, colptr, values)
     }
 
diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index 86a6126..5888c8c 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -39,6 +39,10 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
+    let nnz = colptr[self.cols()].to_usize().unwrap();
+    rowidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
@@ -64,6 +68,10 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
+    let nnz = colptr[self.cols()].to_usize().unwrap();
+    rowidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 17af6d5..fba2f49 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -291,6 +291,10 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             &mut values,
         );
 
+        let nnz = rowptr[rows].to_usize().unwrap();
+        colidx.truncate(nnz);
+        values.truncate(nnz);
+
         CSR::new(rows, cols, rowptr, colidx, values)
     }
 
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index 2a9d8f5..6137648 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -42,6 +42,10 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
+    let nnz = rowptr[self.rows()].to_usize().unwrap();
+    colidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
 }
 
@@ -71,6 +75,10 @@ fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
+    let nnz = rowptr[self.rows()].to_usize().unwrap();
+    colidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
 }
 
-- 
2.43.0


From 43a03b4bf4c6787370cd44422f0909d72a6a2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 19/25] fix: complex values print the sign of the imaginary
 part once

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From e86eacda50f28334054a6302afa5cdff524a54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 20/25] fix: hold the ARPACK lock for a whole eigenvalue
 session

---
 src/eigen/real.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db66f1c..e618a17 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -73,8 +73,10 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut ipntr = vec![0i32; 14];
 
+    // The solver keeps state between calls: hold the lock for the whole session.
+    let _lock = MUTEX.lock().unwrap();
+
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dnaupd_c(
             &mut ido,
             bmat.as_ptr() as *const i8,
@@ -93,7 +95,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
 
     while ido == IDO_COMPUTE1 {
@@ -101,7 +102,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
 
         unsafe {
-            let lock = MUTEX.lock().unwrap();
             dnaupd_c(
                 &mut ido,
                 bmat.as_ptr() as *const i8,
@@ -120,7 +120,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
                 lworkl as i32,
                 &mut info,
             );
-            drop(lock);
         }
     }
     if info < 0 {
@@ -138,7 +137,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut workev = vec![0.0; 2 * ncv];
 
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dneupd_c(
             rvec as i32,
             howmny.as_ptr() as *const i8,
@@ -166,7 +164,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
     if info != 0 {
         // return ArpackError(info);
-- 
2.43.0


From 6bb1061dbd4fcff39e0ba255fda50ead3996f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 21/25] fix: sizes of the buffers handed to dneupd

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index e618a17..fe69fad 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -133,8 +133,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut dr = vec![0.0; nev + 1];
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
-    let ldz = n + 1;
-    let mut workev = vec![0.0; 2 * ncv];
+    let ldz = n;
+    let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
         dneupd_c(
-- 
2.43.0


From 589e07b05a0f99152b5150a8345ae1ffadd40aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 22/25] fix: answer every product request of the eigen-solver,
 within its work array

---
 src/eigen/real.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index fe69fad..555ffaa 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -19,6 +19,9 @@ const WHICH_LARGEST_MAGNITUDE: &str = "LM";
 // First call to the reverse communication interface
 const IDO_FIRST: i32 = 0;
 
+// Compute  Y = OP * X  for the initial vector.
+const IDO_COMPUTE_INITIAL: i32 = -1;
+
 // Compute  Y = OP * X  where
 // IPNTR(1) is the pointer into WORKD for X,
 // IPNTR(2) is the pointer into WORKD for Y.
@@ -97,9 +100,9 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         );
     }
 
-    while ido == IDO_COMPUTE1 {
+    while ido == IDO_COMPUTE1 || ido == IDO_COMPUTE_INITIAL {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
-        workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
+        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
             dnaupd_c(
-- 
2.43.0


From bd6b79833b1c3b9cfc6e53a8323748da35881879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 23/25] fix: eigenvalues of an empty matrix are an error, not
 an underflow

---
 src/eigen/real.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 555ffaa..984334e 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -43,8 +43,8 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev >= n - 1 {
-        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, n - 1));
+    if nev + 1 >= n {
+        return Err(format_err!("invalid nev: {} (0 < nev, nev + 1 < {})", nev, n));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
-- 
2.43.0


From d226caf42da86355f9fd39b81057d6d2beae4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 24/25] fix: eigenvalues carry their imaginary part, real
 vectors their own components

---
 src/eigen/real.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 984334e..f3d586b 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -44,7 +44,11 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let n = a_mat.rows();
 
     if nev + 1 >= n {
-        return Err(format_err!("invalid nev: {} (0 < nev, nev + 1 < {})", nev, n));
+        return Err(format_err!(
+            "invalid nev: {} (0 < nev, nev + 1 < {})",
+            nev,
+            n
+        ));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
@@ -179,7 +183,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     // for i in 0..d.len() {
     //     d[i] = Complex64::new(dr[i], di[i]);
     // }
-    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], dr[i])).collect();
+    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], di[i])).collect();
 
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
@@ -190,7 +194,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             let j = i * n;
             let zr = &z[j..j + n];
             for j in 0..zz.cols() {
-                zz[(i, j)] = Complex64::new(zr[i], 0.0);
+                zz[(i, j)] = Complex64::new(zr[j], 0.0);
             }
         } else {
             // The complex Ritz vector associated with the Ritz value
-- 
2.43.0


From 898115c9c7c90d7355f39010e6a0a0d646471d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 25/25] fix: strong components of a graph storing the same edge
 twice no longer panic

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 8b91687..c2181b0 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -187,7 +187,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A duplicate entry may find w already on top of the stack.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0

