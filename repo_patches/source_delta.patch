From b2d96060f628eb9859a59cb51b9e73c6b84570ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 01/16] fix: validate the data before building a tree from it

The build ran concurrently with check_data and viewed the data as NotNan, so
NaN reached unwrap_unchecked in the median selection (abort or undefined
behaviour) before InvalidInputData could be returned.
---
 src/lib.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..ef5ba4c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -145,9 +145,10 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        // Perform checks for valid data
-        std::thread::scope(|s| {
-            let handle = s.spawn(|| check_data(input));
+        // Perform checks for valid data. This must happen before the build, which
+        // treats the data as NotNan
+        check_data(input)?;
+        {
 
             // This is used to determine the size several allocations
             let data_len = input.len();
@@ -246,9 +247,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             };
             let root_node = unsafe { nodes.pop().unwrap_unchecked() };
 
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -261,7 +259,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 root_node,
                 boxsize: None,
             })
-        })
+        }
     }
 
     // A recursive private function.
@@ -466,9 +464,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        std::thread::scope(|s| {
-            // SAFETY: the thread is joined within this
-            let handle = s.spawn(|| check_data(input));
+        // This must happen before the build, which treats the data as NotNan
+        check_data(input)?;
+        {
 
             // This is used to determine the size several allocations
             let data_len = input.len();
@@ -558,9 +556,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
             let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -573,7 +568,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                 root_node,
                 boxsize: None,
             })
-        })
+        }
     }
 
     // A recursive private function.
-- 
2.43.0


From 3b408079f7bd438edd039b487c68ad5fbdd9811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 02/16] fix: query trees whose root is a leaf, and k = 0

Every query seeded its search with root_node.stem() as a placeholder
neighbor, which panics if all points fit in one leaf, and k = 0 left the
placeholder in an empty heap (peek_mut().unwrap_unchecked() on None). The k
nearest neighbor containers now start empty and admit anything until full.
---
 src/lib.rs                    |  9 ---------
 src/query.rs                  |  3 ++-
 src/query_k.rs                |  6 ++----
 src/query_k/container.rs      | 13 ++++++++++++-
 src/query_k/container_axis.rs | 13 ++++++++++++-
 src/query_k/parallel.rs       |  2 --
 src/query_k/parallel_axis.rs  |  8 --------
 src/query_k/parallel_with.rs  |  2 --
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef5ba4c..196e131 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,13 +110,6 @@ impl<T: Float, const D: usize> Node<T, D> {
         }
     }
 
-    fn stem<'a>(&'a self) -> &'a Point<T, D> {
-        match self {
-            Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
-        }
-    }
-
     // fn stem_position(&self) -> &'t [NotNan<T>; D] {
     //     match self {
     //         Node::Stem { split_dim: .. } => position,
@@ -149,7 +142,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         // treats the data as NotNan
         check_data(input)?;
         {
-
             // This is used to determine the size several allocations
             let data_len = input.len();
             let height_hint = data_len.ilog2() as usize;
@@ -467,7 +459,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         // This must happen before the build, which treats the data as NotNan
         check_data(input)?;
         {
-
             // This is used to determine the size several allocations
             let data_len = input.len();
             let height_hint = data_len.ilog2() as usize;
diff --git a/src/query.rs b/src/query.rs
index db1b8d2..159583e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -40,7 +40,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             Vec::with_capacity(self.height_hint);
 
         let mut current_best_dist_sq = T::max_value();
-        let mut current_best_neighbor: &'q Point<T, D> = current_node.stem();
+        // The data is never empty; any point will do until the first candidate is checked
+        let mut current_best_neighbor: &'q Point<T, D> = &self.data[0];
 
         // Recurse down (and then up and down) the stem
         self.check_stem(
diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..165cb39 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -52,9 +52,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut points_to_check: Vec<(&usize, &Point<T, D>, T)> =
             Vec::with_capacity(self.height_hint);
 
-        // Initialize candidate container with dummy point
+        // Initialize candidate container
         let mut container = Container::new(k.min(self.input.len()));
-        container.push((T::max_value(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -82,9 +81,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
 
-            // Initialize candidate container with dummy point
+            // Initialize candidate container
             let mut container = Container::new(k.min(self.input.len()));
-            container.push((T::max_value(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
diff --git a/src/query_k/container.rs b/src/query_k/container.rs
index 1e98e19..cd25454 100644
--- a/src/query_k/container.rs
+++ b/src/query_k/container.rs
@@ -16,6 +16,8 @@ pub(crate) struct Candidate<'t, T: Float, const D: usize>((T, &'t Point<T, D>));
 pub struct Container<'t, T: Float, const D: usize> {
     items: BinaryHeap<Candidate<'t, T, D>>,
     k_or_datalen: usize,
+    /// Bound on dist2 used until there are k elements
+    unfilled_dist2: T,
 }
 
 impl<'t, T: Float, const D: usize> Container<'t, T, D> {
@@ -23,6 +25,12 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
         Container {
             items: BinaryHeap::with_capacity(k),
             k_or_datalen: k,
+            // Anything fits while there is room; nothing fits if k == 0
+            unfilled_dist2: if k == 0 {
+                T::neg_infinity()
+            } else {
+                T::infinity()
+            },
         }
     }
 
@@ -49,7 +57,10 @@ impl<'t, T: Float, const D: usize> Container<'t, T, D> {
 
     // Euclidean needs access to this one
     pub(crate) fn best_dist2(&self) -> &T {
-        &self.items.peek().unwrap().0 .0
+        match self.items.peek() {
+            Some(furthest) if self.items.len() >= self.k_or_datalen => &furthest.0 .0,
+            _ => &self.unfilled_dist2,
+        }
     }
 
     #[allow(unused_mut)] // if sqrt-dist2 is on, mut is not used
diff --git a/src/query_k/container_axis.rs b/src/query_k/container_axis.rs
index 2dc22ad..f04feb1 100644
--- a/src/query_k/container_axis.rs
+++ b/src/query_k/container_axis.rs
@@ -16,6 +16,8 @@ pub(crate) struct CandidateAxis<'t, T: Float, const D: usize>(((T, T, T), &'t Po
 pub struct ContainerAxis<'t, T: Float, const D: usize> {
     items: BinaryHeap<CandidateAxis<'t, T, D>>,
     k_or_datalen: usize,
+    /// Bound on dist2 used until there are k elements
+    unfilled_dist2: T,
 }
 
 impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
@@ -23,6 +25,12 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
         ContainerAxis {
             items: BinaryHeap::with_capacity(k),
             k_or_datalen: k,
+            // Anything fits while there is room; nothing fits if k == 0
+            unfilled_dist2: if k == 0 {
+                T::neg_infinity()
+            } else {
+                T::infinity()
+            },
         }
     }
 
@@ -50,7 +58,10 @@ impl<'t, T: Float, const D: usize> ContainerAxis<'t, T, D> {
     // Euclidean needs access to this one
     // Note this is best kth, not best 1NN
     pub(crate) fn best_dist2(&self) -> &T {
-        &self.items.peek().unwrap().0 .0 .0
+        match self.items.peek() {
+            Some(furthest) if self.items.len() >= self.k_or_datalen => &furthest.0 .0 .0,
+            _ => &self.unfilled_dist2,
+        }
     }
 
     // #[allow(unused_mut)] // if sqrt-dist2 is on, mut is not used
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..7e3f765 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -107,7 +107,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -133,7 +132,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..6283e9c 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -124,10 +124,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((
-            (T::max_value(), T::max_value(), T::max_value()),
-            current_node.stem(),
-        ));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k_axis(query, current_node, container, points_to_check, axis);
@@ -164,10 +160,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut ContainerAxis<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((
-                (T::max_value(), T::max_value(), T::max_value()),
-                current_node.stem(),
-            ));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k_axis(query, current_node, container, points_to_check, axis);
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..9620801 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -122,7 +122,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -148,7 +147,6 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
-- 
2.43.0


From 0e3f29e69d87a3c3c5c5276fbe1780f179c4e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 03/16] fix: keep searching when squared distances overflow to
 infinity

The bound for an unfilled container was T::max_value(), so points whose
squared distance overflows were skipped, leaving uninitialised entries in the
k nearest neighbor results and T::max_value() as the nearest distance.
---
 src/query.rs                 | 2 +-
 src/query_k.rs               | 3 ++-
 src/query_k/parallel_axis.rs | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index 159583e..9edfb3e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -39,7 +39,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut points_to_check: Vec<(&usize, &Point<T, D>, T)> =
             Vec::with_capacity(self.height_hint);
 
-        let mut current_best_dist_sq = T::max_value();
+        let mut current_best_dist_sq = T::infinity();
         // The data is never empty; any point will do until the first candidate is checked
         let mut current_best_neighbor: &'q Point<T, D> = &self.data[0];
 
diff --git a/src/query_k.rs b/src/query_k.rs
index 165cb39..ad402f0 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -301,7 +301,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            // Not strictly less: both are infinite if squared distances overflow
+            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
             if better_dist2 {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
             }
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 6283e9c..e8e89ce 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -387,7 +387,8 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            let better_dist2 = dist_sq_to_space < *container.best_dist2();
+            // Not strictly less: both are infinite if squared distances overflow
+            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
             if better_dist2 {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
             }
-- 
2.43.0


From d9f86126415c2930aa5657d02f780a97c784b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 04/16] fix: batch k nearest neighbor queries with k larger
 than the data

Rows were written with a stride of min(k, n) (or with the placeholder in
parallel_with) but the results were sized for k, exposing uninitialised
memory. Rows now have min(k, n) entries, as in query_nearest_k.
---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 7e3f765..ca7e8b8 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -22,6 +22,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are only so many neighbors
+        let k = k.min(self.data.len());
+
         let mut distances = Vec::with_capacity(queries.len() * k);
         let mut indices = Vec::with_capacity(queries.len() * k);
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index e8e89ce..7b9953e 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -26,6 +26,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are only so many neighbors
+        let k = k.min(self.data.len());
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 9620801..f66df8d 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -23,6 +23,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
+        // There are only so many neighbors
+        let k = k.min(self.data.len());
+
         let mut distances = Vec::with_capacity(queries.len() * k);
         let mut indices = Vec::with_capacity(queries.len() * k);
         let dist_ptr_usize = distances.as_mut_ptr() as usize;
-- 
2.43.0


From fe92825af91e18bac591e0027773f13f2def9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 05/16] fix: size_of_tree underflow when leafsize is 0

datalen / 2 - 1 underflows for datalen 1, which is only reached with
leafsize 0: a panic in debug builds, unbounded recursion in release builds.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 196e131..29a3a0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -806,8 +806,8 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        let left = (datalen / 2).saturating_sub(1);
+        let right = (datalen / 2).saturating_sub(datalen % 2);
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From cd9b07ee986f40e7419ebe96a02a887cbface4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 06/16] fix: balance the approximate median split between equal
 components

With many points sharing a component the split left them all on one side, so
the recursion depth was linear in their number and large builds overflowed
the stack (e.g. 200,000 identical points).
---
 src/moms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..c534b58 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,6 +296,9 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
+    // Any of the equal elements can be the split point. Take the one closest to the
+    // middle: the recursion would be as deep as there are duplicates otherwise
+    let left = (slice.len() / 2).clamp(left, left + equal - 1);
     let (left, remainder) = slice.split_at_mut(left);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
-- 
2.43.0


From d1f4f24cfb85de5fb830b25bf4377ee695ac9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 07/16] fix: negative zero is not negative

with_boxsize refused data with a -0.0 component, and periodic queries with
one hit a debug assertion.
---
 src/lib.rs                   | 2 +-
 src/query.rs                 | 6 +++---
 src/query_k.rs               | 6 +++---
 src/query_k/parallel.rs      | 6 +++---
 src/query_k/parallel_axis.rs | 6 +++---
 src/query_k/parallel_with.rs | 6 +++---
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 29a3a0e..76b84dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -731,7 +731,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
         // Check that the data bounding box is in R_+^n
         for component in lower {
-            if component.is_sign_negative() {
+            if **component < T::zero() {
                 return Err(FnntwError::NegativeDataPeriodicQuery);
             } else if component.is_infinite() || component.is_nan() {
                 return Err(FnntwError::InvalidBoxsize);
diff --git a/src/query.rs b/src/query.rs
index 9edfb3e..fff8c04 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -82,9 +82,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe with const gneric
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // !negative includes zero, of either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k.rs b/src/query_k.rs
index ad402f0..37b0997 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -101,9 +101,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // !negative includes zero, of either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index ca7e8b8..b5102c2 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -153,9 +153,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // !negative includes zero, of either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 7b9953e..d824222 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -181,9 +181,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // !negative includes zero, of either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index f66df8d..62b455b 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -168,9 +168,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // !negative includes zero, of either sign
+            debug_assert!(*upper >= T::zero());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
-- 
2.43.0


From 5a1db5b463064bb791af331b67e2e5afacacc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 08/16] fix: pyfnntw raises ValueError for invalid data and
 queries

Treef64 unwrapped the build result and both classes unwrapped nearest neighbor
queries, so NaN or empty input raised PanicException, which is not an
Exception.
---
 pyfnntw/src/lib.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..f0c5f1a 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -226,10 +226,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -262,10 +261,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
@@ -486,12 +484,15 @@ macro_rules! tree_impl {
                     let query_size = query.len();
                     let mut distances = Vec::with_capacity(query_size);
                     let mut indices = Vec::with_capacity(query_size);
-                    query
+                    let neighbors = query
                         .into_par_iter()
-                        .map_with(kdtree, |t, q| {
-                            t.query_nearest(q).expect("you likely have a nan")
-                        })
-                        .unzip_into_vecs(&mut distances, &mut indices);
+                        .map_with(kdtree, |t, q| t.query_nearest(q))
+                        .collect::<FnntwResult<Vec<_>, $float>>()
+                        .map_err(|e| PyValueError::new_err(format!("query failed {e}")))?;
+                    for (distance, index) in neighbors {
+                        distances.push(distance);
+                        indices.push(index);
+                    }
 
                     Ok((distances, indices))
                 }
-- 
2.43.0


From 6b1491ffdd04e710c7b1aa27536b10026cec16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 09/16] fix: pyfnntw raises ValueError for arrays that are not
 C-contiguous

as_slice().unwrap() raised PanicException, which is not an Exception.
---
 pyfnntw/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index f0c5f1a..71ad102 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -59,7 +59,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -94,7 +94,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -214,7 +214,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -249,7 +249,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -449,6 +449,10 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+fn not_contiguous() -> PyErr {
+    PyValueError::new_err("arrays must be C-contiguous")
+}
+
 trait FNTree<T: Float> {
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
@@ -478,7 +482,7 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().ok_or_else(not_contiguous)?);
 
                     let kdtree = self.borrow_tree();
                     let query_size = query.len();
@@ -517,7 +521,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     {
@@ -598,7 +602,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From 563f1027642ee8f686c720b9379c93635104a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 10/16] fix: pyfnntw queries with k larger than the data

Rows of k were copied from results of min(k, n), reading out of bounds, and
the returned arrays claimed k columns. Rows now have min(k, n) entries.
---
 pyfnntw/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 71ad102..1540596 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -137,7 +137,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                // There are only so many neighbors
+                let k = k.unwrap_or(1).min(slf.0.num_points());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -157,7 +158,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    // There are only so many neighbors
+                    let k = k.unwrap().min(slf.0.num_points());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -323,7 +325,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // }
 
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                // There are only so many neighbors
+                let k = k.unwrap_or(1).min(slf.0.num_points());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -343,7 +346,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    // There are only so many neighbors
+                    let k = k.unwrap().min(slf.0.num_points());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -454,6 +458,7 @@ fn not_contiguous() -> PyErr {
 }
 
 trait FNTree<T: Float> {
+    fn num_points(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k_axis(
@@ -468,6 +473,10 @@ macro_rules! tree_impl {
     ($float:ty, $dim:literal) => {
         concat_idents::concat_idents!(tree = Tree, $dim {
             impl<'a> FNTree<$float> for tree<'a, $float> {
+                fn num_points(&self) -> usize {
+                    self.borrow_tree().get_data().len()
+                }
+
                 fn query(&self, query: ArrayView2<$float>) -> PyResult<(Vec<$float>, Vec<u64>)> {
                     // Check dimensions of data
                     let dims: [usize; 2] = query
-- 
2.43.0


From 933e4318e269c9c772475fdb05c752ed31f40f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 11/16] fix: pyfnntw trees keep the data array they borrow
 alive

The tree read freed memory once the caller dropped the array.
---
 pyfnntw/src/lib.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 1540596..5103456 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // Keeps alive the data borrowed by the tree
+        #[allow(unused)] Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // Keeps alive the data borrowed by the tree
+        #[allow(unused)] Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -51,12 +59,12 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 .try_into()
                 .expect("2D array should have two dimensions");
 
+            let owner = (&*data).into();
+
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by the owner stored next to the tree.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -86,12 +94,10 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by the owner stored next to the tree.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -120,7 +126,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -208,12 +214,12 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 .try_into()
                 .expect("2D array should have two dimensions");
 
+            let owner = (&*data).into();
+
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by the owner stored next to the tree.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -243,12 +249,10 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python and is kept alive by the owner stored next to the tree.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().ok_or_else(not_contiguous)?,
@@ -278,7 +282,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), owner))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From 4e30895e584636ba9b56138fb489d0ebcaee01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 12/16] fix: new_parallel deadlocks in a rayon pool and
 exhausts threads

The builder threads use the global rayon pool in moms_seq. When all threads of
that pool are building trees they block on those threads, which wait for the
pool: e.g. building 16 trees of 300,000 points from a par_iter over 8 threads
never returned. Also, a large par_split_level started a thread per node and
panicked when the OS refused (100,000 points, leafsize 1, par_split_level 64).
rayon::join does neither.
---
 src/lib.rs | 54 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76b84dd..e30b439 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,29 +370,28 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             #[cfg(feature = "timing")]
             STEM_MEDIAN.fetch_add(stem_median as usize, Ordering::SeqCst);
 
-            let mut left_idx = 0;
-            let mut right_idx = 0;
+            let left_idx;
+            let right_idx;
             if split_level < par_split_level {
                 //&& par_split_level > 0 {
                 // We are at a level over which user has specified
-                // we should parallelize the build. Handle in scoped threads
+                // we should parallelize the build. Handle in parallel
                 let left_arc = Arc::clone(&nodes);
                 let right_arc = Arc::clone(&nodes);
 
-                std::thread::scope(|s| {
-                    let left_handle = s.spawn(|| {
-                        Tree::build_nodes_parallel::<NOT_FIRST, IS_LEFT>(
-                            left,
-                            split_level,
-                            leafsize,
-                            left_arc,
-                            Some((lower, upper)),
-                            Some(split_val),
-                            par_split_level,
-                        )
-                    });
-
-                    right_idx = Tree::build_nodes_parallel::<NOT_FIRST, IS_RIGHT>(
+                let build_left = || {
+                    Tree::build_nodes_parallel::<NOT_FIRST, IS_LEFT>(
+                        left,
+                        split_level,
+                        leafsize,
+                        left_arc,
+                        Some((lower, upper)),
+                        Some(split_val),
+                        par_split_level,
+                    )
+                };
+                let build_right = || {
+                    Tree::build_nodes_parallel::<NOT_FIRST, IS_RIGHT>(
                         right,
                         split_level,
                         leafsize,
@@ -400,10 +399,23 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                         Some((lower, upper)),
                         Some(split_val),
                         par_split_level,
-                    );
-
-                    left_idx = left_handle.join().unwrap();
-                });
+                    )
+                };
+
+                // The builders use the rayon pool too (in moms_seq), so a pool thread must
+                // not block on them: all threads of the pool could be waiting for the pool
+                #[cfg(feature = "parallel")]
+                {
+                    (left_idx, right_idx) = rayon::join(build_left, build_right);
+                }
+                #[cfg(not(feature = "parallel"))]
+                {
+                    (left_idx, right_idx) = std::thread::scope(|s| {
+                        let left_handle = s.spawn(build_left);
+                        let right_idx = build_right();
+                        (left_handle.join().unwrap(), right_idx)
+                    });
+                }
             } else {
                 left_idx = Tree::build_nodes_parallel::<NOT_FIRST, IS_LEFT>(
                     left,
-- 
2.43.0


From 1d4f1f71c1182d0ea77f6c03f87be278fa58c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 13/16] fix: new_parallel exhausts threads when built without
 rayon

A large par_split_level started a thread per node and panicked when the OS
refused (e.g. 100,000 points, leafsize 1, par_split_level 64).
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e30b439..acb6543 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,6 +36,10 @@ static STEM_WRITE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsi
 #[cfg(feature = "timing")]
 static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
 
+/// At most 2^8 threads at once
+#[cfg(not(feature = "parallel"))]
+const MAX_THREAD_SPLIT_LEVEL: usize = 8;
+
 const FIRST: bool = true;
 const NOT_FIRST: bool = false;
 
@@ -141,6 +145,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         // Perform checks for valid data. This must happen before the build, which
         // treats the data as NotNan
         check_data(input)?;
+        // Without rayon every parallel split starts a thread, and the OS limits those
+        #[cfg(not(feature = "parallel"))]
+        let par_split_level = par_split_level.min(MAX_THREAD_SPLIT_LEVEL);
         {
             // This is used to determine the size several allocations
             let data_len = input.len();
-- 
2.43.0


From 6ea209f189364cb8b8626730f1716e914d9a95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 14/16] fix: queries recursed as deep as there are stems to
 check

k queries for many neighbours, and nearest neighbour queries with many
equally near candidates, overflowed the stack (60,000 points, 2 MB).
---
 src/query.rs                 | 28 +++++++++++++++++++++++++---
 src/query_k.rs               | 21 ++++++++++++++++++---
 src/query_k/parallel_axis.rs | 22 +++++++++++++++++++---
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index fff8c04..7d81e56 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -207,7 +207,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent(query, stem, current_best_dist_sq, current_best_neighbor);
-                self.check_stem(
+                self.descend_stem(
                     query,
                     sibling,
                     current_best_dist_sq,
@@ -240,9 +240,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down
 
-    fn check_stem<'i, 'o>(
+    fn descend_stem<'i, 'o>(
         &'i self,
         query: &[NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -311,6 +311,28 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             current_best_dist_sq,
             current_best_neighbor,
         );
+    }
+
+    /// Check everything below `stem` that may be close enough. This does not recurse, as
+    /// the recursion would be as deep as there are stems to check
+    fn check_stem<'i, 'o>(
+        &'i self,
+        query: &[NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        current_best_dist_sq: &'o mut T,
+        current_best_neighbor: &'o mut &'i Point<T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem(
+            query,
+            stem,
+            current_best_dist_sq,
+            current_best_neighbor,
+            points_to_check,
+        );
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k.rs b/src/query_k.rs
index 37b0997..e51c39f 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -213,7 +213,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k(query, stem, container);
-                self.check_stem_k(query, sibling, container, points_to_check)
+                self.descend_stem_k(query, sibling, container, points_to_check)
             }
         }
     }
@@ -233,9 +233,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down
 
-    fn check_stem_k<'i, 'o>(
+    fn descend_stem_k<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -298,6 +298,21 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k(query, current_node.iter(), container);
+    }
+
+    /// Check everything below `stem` that may be close enough. This does not recurse, as
+    /// the recursion would be as deep as there are stems to check
+    fn check_stem_k<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut Container<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k(query, stem, container, points_to_check);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index d824222..4c5a062 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -304,7 +304,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k_axis(query, stem, container, axis);
-                self.check_stem_k_axis(query, sibling, container, points_to_check, axis)
+                self.descend_stem_k_axis(query, sibling, container, points_to_check, axis)
             }
         }
     }
@@ -325,9 +325,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down
 
-    fn check_stem_k_axis<'i, 'o>(
+    fn descend_stem_k_axis<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -387,6 +387,22 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k_axis(query, current_node.iter(), container, axis);
+    }
+
+    /// Check everything below `stem` that may be close enough. This does not recurse, as
+    /// the recursion would be as deep as there are stems to check
+    fn check_stem_k_axis<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut ContainerAxis<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+        axis: usize,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k_axis(query, stem, container, points_to_check, axis);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-- 
2.43.0


From 0f99d1a9ee4111e46edad29e34e30d76110a1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:39 +0000
Subject: [PATCH 15/16] fix: do not visit every tie in k queries

The bound has to be inclusive only while it is infinite; with many duplicates
an inclusive bound visits all of them.
---
 src/query_k.rs               | 5 +++--
 src/query_k/parallel_axis.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/query_k.rs b/src/query_k.rs
index e51c39f..22827a5 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -316,8 +316,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            // Not strictly less: both are infinite if squared distances overflow
-            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
+            // Both are infinite if squared distances overflow
+            let best_dist2 = *container.best_dist2();
+            let better_dist2 = dist_sq_to_space < best_dist2 || best_dist2 == T::infinity();
             if better_dist2 {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
             }
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 4c5a062..c9746ed 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -406,8 +406,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-            // Not strictly less: both are infinite if squared distances overflow
-            let better_dist2 = dist_sq_to_space <= *container.best_dist2();
+            // Both are infinite if squared distances overflow
+            let best_dist2 = *container.best_dist2();
+            let better_dist2 = dist_sq_to_space < best_dist2 || best_dist2 == T::infinity();
             if better_dist2 {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
             }
-- 
2.43.0


From 69dcfd149d7004f74e66fafd22b9e33b5e6cfbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 16/16] fix: refuse misaligned numpy arrays instead of making
 references to them

---
 pyfnntw/src/lib.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 5103456..3c1f535 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -59,6 +59,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 .try_into()
                 .expect("2D array should have two dimensions");
 
+            check_aligned(&*data)?;
+            if let Some(boxsize) = &boxsize {
+                check_aligned(&**boxsize)?;
+            }
+
             let owner = (&*data).into();
 
             // Check dimensionality is as expected
@@ -142,6 +147,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             k: Option<usize>,
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
+            check_aligned(&*query)?;
+
             if let Some(axis) = axis {
                 // There are only so many neighbors
                 let k = k.unwrap_or(1).min(slf.0.num_points());
@@ -214,6 +221,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 .try_into()
                 .expect("2D array should have two dimensions");
 
+            check_aligned(&*data)?;
+            if let Some(boxsize) = &boxsize {
+                check_aligned(&**boxsize)?;
+            }
+
             let owner = (&*data).into();
 
             // Check dimensionality is as expected
@@ -298,6 +310,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             k: Option<usize>,
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
+            check_aligned(&*query)?;
+
             // if k == Some(1) || k.is_none() {
             //     let (distances, indices) = slf.0.query(query.as_array())?;
             //     // let distances = Array1::from_vec(distances);
@@ -461,6 +475,17 @@ fn not_contiguous() -> PyErr {
     PyValueError::new_err("arrays must be C-contiguous")
 }
 
+// References to the data of an array require it to be aligned.
+fn check_aligned<T: Element, D: ndarray::Dimension>(array: &PyArray<T, D>) -> PyResult<()> {
+    // SAFETY: the array is alive
+    let data = unsafe { (*array.as_array_ptr()).data };
+    if data as usize % std::mem::align_of::<T>() == 0 {
+        Ok(())
+    } else {
+        Err(PyValueError::new_err("arrays must be aligned"))
+    }
+}
+
 trait FNTree<T: Float> {
     fn num_points(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
-- 
2.43.0

