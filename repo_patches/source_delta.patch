From 95afb915e83fc5fed37828eea615ab9b236ec98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 1/5] fix: restore the output when the first fan of
 DelimitedFanFormat contains the delimiter

initialize pushed a delimiter and leading indices before detecting the clash,
and fail is not called for a builder that was never initialized, so the partial
fan was left in the caller's collection.
---
 src/outputs/formats/delimited_fan.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..b8464c5 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -65,9 +65,13 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
             _phantom: PhantomData,
         };
 
-        fb.push_index(vi0)?;
-        fb.push_index(vi1)?;
-        fb.push_index(vi2)?;
+        for vi in [vi0, vi1, vi2] {
+            if let Err(err) = fb.push_index(vi) {
+                // `fail` is only called on an initialized builder, so clean up here
+                fb.fans.truncate(initial_vert_count);
+                return Err(err);
+            }
+        }
 
         Ok(fb)
     }
-- 
2.43.0


From 6d451a1fa4a4cef5e4d0b2d8da3a4967250d04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 2/5] fix: call fail on a list builder whose very first
 add_triangle fails

FanToListFormat::initialize dropped the list builder it had just created
without giving it the chance to clean up.
---
 src/outputs/formats/fan_to_list.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..a3858b5 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,8 +18,16 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
-        
+        if let Err(err) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder already exists, so it must get the chance to clean up
+            let err = TriangulationError::FanBuilder(err);
+            list_builder.fail(&err);
+            return match err {
+                TriangulationError::FanBuilder(err) => Err(err),
+                _ => unreachable!(),
+            };
+        }
+
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
     }
-- 
2.43.0


From a3bc0a916fa25528e29e921ed1c695e7934d1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 3/5] fix: emit directly built fans with the requested winding
 for clockwise formats

The corners of the first triangle were swapped depending on the side of the
chain, which is only right for counterclockwise formats. The swap belongs to
the fan direction (backtracking), so clockwise builders and reverse_winding
received counterclockwise triangles for fans emitted without deferral.
---
 src/monotone.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..24ef79b 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,7 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From b115dbb70192b45d5a2af3c824525b6c57cd80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 4/5] fix: keep leftover values of a flat list when rolling
 back a failed triangulation

---
 src/outputs/list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/outputs/list.rs b/src/outputs/list.rs
index 134fb19..4edf5ba 100644
--- a/src/outputs/list.rs
+++ b/src/outputs/list.rs
@@ -27,7 +27,9 @@ impl<V> List<V> for Vec<V> {
     }
 
     fn truncate(&mut self, len: usize) {
-        self.truncate(len * 3)
+        // Values which were present before and do not form a complete triangle are not ours to remove
+        let remainder = Vec::len(self) % 3;
+        self.truncate(len * 3 + remainder)
     }
 }
 
-- 
2.43.0


From be7d37ae6b9f60d88bbb7fe861700f25dd1a07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:11 +0000
Subject: [PATCH 5/5] fix: triangulate a monotone chain in one pass when a fan
 ends in front of a skipped vertex

The vertices before the root of an advancing fan were not looked at again until every other vertex of the
chain had been pushed, so chains with many of them took a full pass for each (quadratic time).
---
 src/monotone.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/monotone.rs b/src/monotone.rs
index 24ef79b..c298a42 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -156,6 +156,13 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                         }
                     }
                 }
+
+                // The last vertex of an advancing fan may allow backtracking past the fan root, which was not possible at the start of the fan.
+                // Return it to pending so it is checked against the stack before moving on, otherwise every such root costs another pass over all vertices
+                if !is_backtracking {
+                    self.return_pending();
+                    continue;
+                }
             }
 
             if self.has_pending() {
@@ -208,6 +215,14 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
         self.pending_top += 1;
     }
 
+    fn return_pending(&mut self) {
+        self.skipped_top -= 1;
+        self.pending_top -= 1;
+        if self.skipped_top != self.pending_top {
+            self.skipped_and_pending.swap(self.skipped_top, self.pending_top);
+        }
+    }
+
     fn reset_position(&mut self) {
         self.skipped_and_pending.truncate(self.skipped_top);
         self.skipped_top = 2;
-- 
2.43.0

