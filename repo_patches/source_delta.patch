From f1cadeb230290889b9b015cee09ec047648bcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 1/4] fix: column cache must not keep its RefCell borrowed
 while an iterator is alive

---
 phlite/src/matrices/adaptors.rs | 58 ++++++++-------------------------
 1 file changed, 13 insertions(+), 45 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..012f9be 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,12 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
-    cmp::Reverse,
-    collections::HashMap,
-    hash::Hash,
-    marker::PhantomData,
-    ops::Deref,
+    cell::RefCell, cmp::Reverse, collections::HashMap, hash::Hash, marker::PhantomData, ops::Deref,
 };
 
 use crate::columns::{BHCol, ColumnEntry};
@@ -198,29 +193,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -236,22 +208,18 @@ where
         col: Self::ColT,
     ) -> impl Iterator<Item = (Self::CoefficientField, Self::RowT)> {
         // Compute column if not yet cached
-        if !self.cache.borrow().contains_key(&col) {
-            let col_as_vec: Vec<_> = self.oracle.column(col.clone()).collect();
-            self.cache
-                .borrow_mut()
-                .insert(col.clone(), col_as_vec.clone());
-        }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        let cached = self.cache.borrow().get(&col).cloned();
+        let col_as_vec = match cached {
+            Some(col_as_vec) => col_as_vec,
+            None => {
+                let col_as_vec: Vec<_> = self.oracle.column(col.clone()).collect();
+                self.cache.borrow_mut().insert(col, col_as_vec.clone());
+                col_as_vec
+            }
+        };
+        // The returned iterator must own its entries: if it kept a borrow of the cache then
+        // no other column could be computed (and inserted) whilst the iterator is alive
+        col_as_vec.into_iter()
     }
 }
 
-- 
2.43.0


From 7318a9ce435628e32b7765f052822c07c9d3186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 2/4] fix: never list a paired birth as essential, whatever
 order columns are read off in

---
 phlite/src/reduction/standard.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phlite/src/reduction/standard.rs b/phlite/src/reduction/standard.rs
index 6e94415..af0304b 100644
--- a/phlite/src/reduction/standard.rs
+++ b/phlite/src/reduction/standard.rs
@@ -138,13 +138,17 @@ where
                 essential.insert(basis_element);
             }
             Some(piv) => {
-                pairings.insert((piv.row_index.clone(), basis_element));
-                essential.remove(&piv.row_index);
+                pairings.insert((piv.row_index, basis_element));
             }
         }
         if r_i.pop_pivot().is_none() {}
     }
 
+    // A birth may be visited after the death it is paired with, so only remove paired births at the end
+    for (birth, _death) in &pairings {
+        essential.remove(birth);
+    }
+
     Diagram {
         essential,
         pairings,
-- 
2.43.0


From c46c413109b4162127f2de6478d44ec4ff5912fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 3/4] fix: Rips coboundary must compute filtration values from
 the vertex it inserted, not the one after

---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From 10812457795895dbed190f243ca941f67e255f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 4/4] fix: build only the vertices of the Rips basis when the
 maximum dimension is 0

---
 phlite_rips/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..1d7fde9 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -191,13 +191,15 @@ pub fn build_rips_bases(
             NotNan::new(0.0_f64).unwrap(),
             RipsIndex::from_indices(vec![v].into_iter(), n_points).unwrap(),
         ));
-        add_cofacets(
-            &mut bases,
-            &mut simplex,
-            NotNan::new(0 as f64).unwrap(),
-            distances,
-            max_dim,
-        );
+        if max_dim > 0 {
+            add_cofacets(
+                &mut bases,
+                &mut simplex,
+                NotNan::new(0 as f64).unwrap(),
+                distances,
+                max_dim,
+            );
+        }
     }
 
     for basis in bases.iter_mut().take(max_dim + 1) {
-- 
2.43.0

