From eadf251952dd372eea328fd189a8799727db425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 01/12] fix: give a cloned VecOption the length of its source

Clone wrote the items into the new allocation but never set its length,
so the clone reported len() == 0 while its presence bits covered every item.
---
 trellis/src/vec_option.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..8b74217 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,9 +49,13 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        let present = self.present.clone();
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
-            present: self.present.clone(),
+            present,
         }
     }
 }
-- 
2.43.0


From dfc1a2450f6b2e69adf267c23f058668a429cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 02/12] fix: do not drop VecOption items twice when an item's
 drop panics

Drop emptied the inner Vec only after running the items' destructors. If one of
them panicked, unwinding dropped the Vec with its full length, which dropped
items a second time and dropped slots that were never initialized.
---
 trellis/src/vec_option.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 8b74217..3335d17 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -755,6 +755,10 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // Do this first: if dropping an item panics, then the Vec must not drop the items again.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -764,9 +768,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From dcdf48474fd0908a70264b54e67baebde366804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 03/12] fix: keep PQ heap-ordered on remove

Sifting down swapped with the left child whenever it was greater than the parent,
even if the right child was greater still, so removing from {10, 5, 8, 1} panicked
in the queue's own consistency check.
---
 trellis/src/priority_queue.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..1f6dfd1 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -62,16 +62,15 @@ impl<T: Ord> PQ<T> {
         let result = self.pq.pop();
         let mut i: usize = 0;
         loop {
-            let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
+            // Pick the greater of the two children.
+            let mut child = left(i);
             let right = right(i);
-            if right < self.pq.len() && self.pq[i] < self.pq[right] {
-                self.pq.swap(i, right);
-                i = right;
+            if right < self.pq.len() && self.pq[child] < self.pq[right] {
+                child = right;
+            }
+            if child < self.pq.len() && self.pq[i] < self.pq[child] {
+                self.pq.swap(i, child);
+                i = child;
                 continue;
             }
             break;
-- 
2.43.0


From a41d02313a249b5ef73403d350b4f3c4025b603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 04/12] fix: remove the lightest path first in ortho's path
 queue

pq_reorder_down swapped with the left child even when the right child was lighter,
so the entry at the front of the queue was not always the lightest one.
---
 trellis/src/ortho/shortest_path.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..d51b67c 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -52,16 +52,15 @@ impl FindPathState {
         let mut i: usize = index;
         while i < self.pq.len() {
             let i_key = &self.pq[i];
-            let left = left(i);
-            if left < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[left]) {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
+            // Pick the lesser of the two children.
+            let mut child = left(i);
             let right = right(i);
-            if right < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[right]) {
-                self.pq.swap(i, right);
-                i = right;
+            if right < self.pq.len() && Self::pq_is_ordered(&self.pq[right], &self.pq[child]) {
+                child = right;
+            }
+            if child < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[child]) {
+                self.pq.swap(i, child);
+                i = child;
                 continue;
             }
             break;
-- 
2.43.0


From 3d35f6bed4fccee67e1a6ab9731d74ab78f31e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 05/12] fix: stop rebuilding the shortest path at its first
 entry

The loop compared an index into the explored paths with the source vertex number.
Unless those happened to coincide it ran off the start of the path and panicked,
or returned a truncated path.
---
 trellis/src/ortho/shortest_path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index d51b67c..1556b83 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -152,10 +152,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi == -1 {
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From 7beb3329f60dcebab1cdfc74fdffc6f6e5a6ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 06/12] fix: terminate the shortest path search on graphs with
 cycles

The search queued every extension of every path, so any cycle reachable from the
source kept it running (and allocating) forever.
---
 trellis/src/ortho/shortest_path.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index 1556b83..4e57c7c 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -74,6 +74,19 @@ impl FindPathState {
         result
     }
 
+    // Returns true if the given path visits a vertex.
+    fn path_contains(&self, path: i32, vert: V) -> bool {
+        let mut pi = path;
+        while pi != -1 {
+            let path = &self.paths[pi as usize];
+            if path.vert == vert {
+                return true;
+            }
+            pi = path.prev_path;
+        }
+        false
+    }
+
     fn pq_insert(&mut self, value: PQEntry) {
         let index = self.pq.len();
         self.pq.push(value);
@@ -135,6 +148,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             // Find all the forward edges from this path and generate
             // new path entries.
             for (next_vert_index, edge_weight) in edges(current_vert) {
+                if state.path_contains(current_path.path, next_vert_index) {
+                    // Going around a cycle never makes a path shorter.
+                    continue;
+                }
                 let next_path_index = state.paths.len();
                 let next_path_weight = current_path.weight + edge_weight;
                 state.paths.push(Path {
-- 
2.43.0


From c81f93ca590a1d16bf783aa78b7fb3becca25157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 07/12] fix: do not lose connections between possibly-disjoint
 subgraphs

Connecting two possible-subgraphs overwrote the alias of the higher one even when
it already pointed at a third, so that connection was forgotten and one connected
subgraph was reported as several.
---
 trellis/src/disjoint.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..6bde015 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,15 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+// Follows the aliases from a possible-subgraph to the lowest one that it is connected to.
+fn find_leader(graph_alias: &[u32], g: u32) -> u32 {
+    let mut leader = g;
+    while graph_alias[leader as usize] != leader {
+        leader = graph_alias[leader as usize];
+    }
+    leader
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,6 +70,9 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
+                    // Connect the leaders, so that earlier connections are not forgotten.
+                    let g_from = find_leader(&graph_alias, g_from);
+                    let g_to = find_leader(&graph_alias, g_to);
                     let g_low = g_from.min(g_to);
                     let g_high = g_from.max(g_to);
                     graph_alias[g_high as usize] = g_low;
-- 
2.43.0


From b7cfb21b2e9b456cb8d4bb680dd81d9e62ec54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 08/12] fix: do not write the disjoint subgraphs to standard
 output

Every other diagnostic of this function goes to the log.
---
 trellis/src/disjoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 6bde015..ddf56e4 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -188,7 +188,7 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
         values: output_values,
     };
 
-    println!("Disjoint subgraphs: {:#?}", subgraphs);
+    debug!("Disjoint subgraphs: {:#?}", subgraphs);
 
     DisjointSubgraphs { subgraphs }
 }
-- 
2.43.0


From 0e4da8fdf600f04d38d392bfe9ed8354e5bcb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 09/12] fix: report the right keys from iter_pairs_manual

The keys were two too high, because the leading 0 of the index was counted as a key
and the key was incremented before it was used. It also panicked on a table with
unowned values, which iter_pairs skips.
---
 trellis/src/ramp_table.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..8d36125 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -201,14 +201,14 @@ impl<T> RampTable<T> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        // If there is no next key, then the value is unowned.
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,8 +217,8 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
-            current_key: 0,
+            index_iter: self.index[1..].iter(),
+            current_key: 0, // the number of keys taken from index_iter
             current_index: 0,
             num_values: 0,
         }
-- 
2.43.0


From aedc57fac8e1fe7ce27743818b5f6bd99b370c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 10/12] fix: do not underflow in compVis for the first vertices

The loop over the earlier vertices started at i - 1 or i - 2 even for i = 0 and
i = 1, so Pobsopen panicked for every non-empty set of barriers.
---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..6aeaf66 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let end = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From 9115fa6b28d03443d70eea4a4cf3adfc6ee5f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 11/12] fix: set up the point and deque storage in
 Pshortestpath

The points were copied into a vector of length 0 and the deque was left empty with
its indices computed from that, so the function panicked on every call.
---
 trellis/src/pathplan/shortest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..4301f7c 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, NULL_PNLS);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From 8f3846c55cedd355d29dd596274e0d429a430fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 12/12] fix: count each common root once in
 splineintersectsline

For a zero-length barrier, repeated roots of the x and y cubics were matched pairwise,
which gave up to nine roots and overran the caller's four-element array.
---
 trellis/src/pathplan/route.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trellis/src/pathplan/route.rs b/trellis/src/pathplan/route.rs
index c124ad4..f7a4fe9 100644
--- a/trellis/src/pathplan/route.rs
+++ b/trellis/src/pathplan/route.rs
@@ -379,10 +379,8 @@ fn splineintersectsline(sps: &[Ppoint_t], lps: &[Ppoint_t], roots: &mut [f64]) -
                 }
             } else {
                 for i in 0..xrootn {
-                    for j in 0..yrootn {
-                        if xroots[i] == yroots[j] {
-                            addroot(xroots[i], roots, &mut rootn);
-                        }
+                    if yroots[..yrootn].contains(&xroots[i]) {
+                        addroot(xroots[i], roots, &mut rootn);
                     }
                 }
             }
-- 
2.43.0

