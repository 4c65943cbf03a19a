From f070abbd163b99bfd38ff2eef7364bddb6415550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 01/12] fix: keep phrases below the first boundary out of the
 prefix bins

Phrases with IDs below the first bin boundary were added to the first bin, so
that a range query answered from that bin returned them. A phrase ID equal to
u32::MAX, with or without boundaries, made finish() loop forever.
---
 rust-src/src/gridstore/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..f984bfe 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,11 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
+        let mut next_boundary = bin_seq.peek().cloned();
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            while next_boundary.map_or(false, |boundary| key.phrase_id >= boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
+                next_boundary = bin_seq.peek().cloned();
             }
 
             current_bin
-- 
2.43.0


From 020f2329e165dd255b635aef0f388ab29bf41d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 02/12] fix: truncate scores to four bits when adding entries

Scores are documented to be truncated to four bits; a score of 16 or more
changed the relevance of the stored entry instead.
---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index f984bfe..37067e7 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From d78e5af41872a2aad0f9ed791da33c3dd36ecefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 03/12] fix: look up the last phrase ID without overflowing

An exact match on phrase ID u32::MAX computed id + 1 for the end of its range:
a panic in debug builds, no results in release builds. Key matching already
knows about exact matches, so there is no need for a range.
---
 rust-src/src/gridstore/store.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..1207906 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,21 +321,20 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
+        let range_key = match_key.clone();
         let mut db_key: Vec<u8> = Vec::new();
         range_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
-- 
2.43.0


From 792a79873a90433ec9b7d6917af7fc2dbc43f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 04/12] fix: leave the builder's data alone when renumber fails

A renumber that failed, because of an ID out of bounds or of two keys that
became one, had already moved some of the data and dropped all the rest.
---
 rust-src/src/gridstore/builder.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 37067e7..7962d18 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -1,5 +1,5 @@
 use std::collections::hash_map::Entry as HmEntry;
-use std::collections::{btree_map::Entry, BTreeMap, HashMap};
+use std::collections::{btree_map::Entry, BTreeMap, BTreeSet, HashMap};
 use std::path::{Path, PathBuf};
 
 use failure::{Error, Fail};
@@ -153,6 +153,20 @@ impl GridStoreBuilder {
     /// In situations under which data has been inserted using temporary phrase IDs, renumber
     /// the data in the index to use final phrase IDs, given a temporary-to-final-ID mapping
     pub fn renumber(&mut self, tmp_phrase_ids_to_ids: &[u32]) -> Result<(), Error> {
+        // check all keys before moving any data, so that a failure leaves the data as it was
+        let mut new_keys: BTreeSet<GridKey> = BTreeSet::new();
+        for key in self.data.keys() {
+            let new_phrase_id = tmp_phrase_ids_to_ids
+                .get(key.phrase_id as usize)
+                .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;
+            let new_key = GridKey { phrase_id: *new_phrase_id, ..key.clone() };
+            if !new_keys.insert(new_key) {
+                return Err(Error::from(BuildError::DuplicateRenumberEntry {
+                    target_id: *new_phrase_id,
+                }));
+            }
+        }
+
         let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
         std::mem::swap(&mut old_data, &mut self.data);
 
-- 
2.43.0


From 2e01951dd72ffd0a4522b2623cdfac72c4a96172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 05/12] fix: adjust coordinates across 16 zoom levels without
 overflowing

Scaling by 2^16 does not fit the 16-bit arithmetic in use: adjusting options or
boxes between zooms 0 and 16, and stacking a zoom 16 index (even on nothing,
since the previous zoom then counts as 0), panicked in debug builds and used a
factor of 1 in release builds.
---
 rust-src/src/gridstore/coalesce.rs | 12 ++++++------
 rust-src/src/gridstore/common.rs   | 15 ++++++++++-----
 rust-src/src/gridstore/spatial.rs  | 22 +++++++++++-----------
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..f11db98 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -230,11 +230,11 @@ fn coalesce_multi<T: Borrow<GridStore> + Clone>(
             // See which other zooms are compatible.
             // These should all be lower zooms, so "zoom out" by dividing by 2^(difference in zooms)
             for other_zoom in compatible_zooms.iter() {
-                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
+                let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - *other_zoom);
                 let other_zxy = (
                     *other_zoom,
-                    entries[0].grid_entry.x / scale_factor,
-                    entries[0].grid_entry.y / scale_factor,
+                    (u32::from(entries[0].grid_entry.x) / scale_factor) as u16,
+                    (u32::from(entries[0].grid_entry.y) / scale_factor) as u16,
                 );
 
                 if let Some(already_coalesced) = coalesced.get(&other_zxy) {
@@ -702,7 +702,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                     let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
 
-                    let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
+                    let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
 
                     let mut state_contexts: Vec<CoalesceContext> = Vec::new();
 
@@ -722,8 +722,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             // we're stacking on top of something that was already there
                             for grid in grids.iter() {
                                 let prev_zoom_xy = (
-                                    grid.grid_entry.x / scale_factor,
-                                    grid.grid_entry.y / scale_factor,
+                                    (u32::from(grid.grid_entry.x) / scale_factor) as u16,
+                                    (u32::from(grid.grid_entry.y) / scale_factor) as u16,
                                 );
 
                                 let entry = grid_to_coalesce_entry(
diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..fb0b678 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -132,18 +132,23 @@ impl MatchOpts {
                         // If this is a zoom out, divide by 2 for every level of zooming out.
                         let zoom_levels = self.zoom - target_z;
                         // Shifting to the right by a number is the same as dividing by 2 that number of times.
-                        Some([x >> zoom_levels, y >> zoom_levels])
+                        // Do this at u32 because there might be 16 levels.
+                        Some([
+                            (u32::from(*x) >> zoom_levels) as u16,
+                            (u32::from(*y) >> zoom_levels) as u16,
+                        ])
                     } else {
                         // If this is a zoom in, choose the closest to the middle of the possible tiles at the higher zoom level.
                         // The scale of the coordinates for zooming in is 2^(difference in zs).
-                        let scale_multiplier = 1 << (target_z - self.zoom);
+                        // Do this at u32 because there might be 16 levels.
+                        let scale_multiplier: u32 = 1 << (target_z - self.zoom);
                         // Pick a coordinate halfway between the possible higher zoom tiles,
                         // subtracting one to pick the one on the top left of the four middle tiles for consistency.
                         let mid_coord_adjuster = scale_multiplier / 2 - 1;
-                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
-                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_x = u32::from(*x) * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_y = u32::from(*y) * scale_multiplier + mid_coord_adjuster;
 
-                        Some([adjusted_x, adjusted_y])
+                        Some([adjusted_x as u16, adjusted_y as u16])
                     }
                 }
                 None => None,
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 38034b5..d2e015b 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -600,30 +600,30 @@ pub fn scoredist(mut zoom: u16, mut distance: f64, mut score: u8, radius: f64) -
 
 #[inline(always)]
 pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4] {
+    // do this at u32 because there might be 16 levels between the two zooms
+    let bbox = [bbox[0] as u32, bbox[1] as u32, bbox[2] as u32, bbox[3] as u32];
     if target_z < source_z {
         let zoom_levels = source_z - target_z;
         // If this is a zoom out, divide each coordinate by 2^(number of zoom levels).
         // This is the same as shifting bits to the right by the number of zoom levels.
         [
-            bbox[0] >> zoom_levels,
-            bbox[1] >> zoom_levels,
-            bbox[2] >> zoom_levels,
-            bbox[3] >> zoom_levels,
+            (bbox[0] >> zoom_levels) as u16,
+            (bbox[1] >> zoom_levels) as u16,
+            (bbox[2] >> zoom_levels) as u16,
+            (bbox[3] >> zoom_levels) as u16,
         ]
     } else {
         // If this is a zoom in
-        let scale_multiplier = 1 << (target_z - source_z);
+        let scale_multiplier: u32 = 1 << (target_z - source_z);
 
         // Scale the top left (min x and y) tile coordinates by 2^(zoom diff).
         // Scale the bottom right (max x and y) tile coordinates by 2^(zoom diff),
         // and add the new number of tiles (-1) to get the outer edge of possible tiles.
-        // We subtract 1 from the scale_multiplier before adding to prevent an integer overflow
-        // given that we're using a 16bit integer
         [
-            bbox[0] * scale_multiplier,
-            bbox[1] * scale_multiplier,
-            bbox[2] * scale_multiplier + (scale_multiplier - 1),
-            bbox[3] * scale_multiplier + (scale_multiplier - 1),
+            (bbox[0] * scale_multiplier) as u16,
+            (bbox[1] * scale_multiplier) as u16,
+            (bbox[2] * scale_multiplier + (scale_multiplier - 1)) as u16,
+            (bbox[3] * scale_multiplier + (scale_multiplier - 1)) as u16,
         ]
     }
 }
-- 
2.43.0


From 23e0f40541cba6aa2eb2bc412b0ee313b89a1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 06/12] fix: handle nearby-only boxes at the edge of the world
 and outside the bbox

Near the right or bottom edge of zoom 16 the padding overflowed. When the area
around the proximity point and the bbox did not overlap, the resulting box had
its corners swapped, which failed an assertion in debug builds.
---
 rust-src/src/gridstore/common.rs  | 4 ++--
 rust-src/src/gridstore/spatial.rs | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index fb0b678..cff7f37 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -174,8 +174,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding), // ditto, at the other end of the range
+            prox[1].saturating_add(padding), // ditto
         ];
 
         if let Some(old_box) = constrained.bbox {
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index d2e015b..9cb9ba4 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -14,7 +14,10 @@ use crate::gridstore::gridstore_format;
 pub fn bbox_range<'a>(coords: UniformVec<'a, Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
     let min = interleave_morton(bbox[0], bbox[1]);
     let max = interleave_morton(bbox[2], bbox[3]);
-    debug_assert!(min <= max, "Invalid bounding box");
+    if min > max {
+        // nothing is inside, e.g. after intersecting boxes that don't overlap
+        return None;
+    }
 
     let len = coords.len();
     if len == 0 {
-- 
2.43.0


From d094743a54938e0c80f38f75d02eec50ee3d2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 07/12] verif: expose the record format under cfg(carmen_verif)

---
 rust-src/src/gridstore/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust-src/src/gridstore/mod.rs b/rust-src/src/gridstore/mod.rs
index 3267774..e8a7d29 100644
--- a/rust-src/src/gridstore/mod.rs
+++ b/rust-src/src/gridstore/mod.rs
@@ -13,6 +13,14 @@ pub use spatial::global_bbox_for_zoom;
 pub use stackable::stackable;
 pub use store::*;
 
+/// Private modules, for the checks that look at them from outside.
+#[cfg(carmen_verif)]
+pub mod verif_hooks {
+    pub mod format {
+        pub use super::super::gridstore_format::*;
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From baa4193d55b57ee0e8a3657e269e26936c10c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 08/12] fix: coalesce an empty stack to an empty result

---
 rust-src/src/gridstore/coalesce.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index f11db98..7e6a1b5 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -25,6 +25,9 @@ pub fn coalesce<T: Borrow<GridStore> + Clone + Debug>(
     stack: Vec<PhrasematchSubquery<T>>,
     match_opts: &MatchOpts,
 ) -> Result<Vec<CoalesceContext>, Error> {
+    if stack.is_empty() {
+        return Ok(Vec::new());
+    }
     let contexts = if stack.len() <= 1 {
         coalesce_single(&stack[0], match_opts)?
     } else {
-- 
2.43.0


From 3fd29ede55fb44c3a8d6c6dec25339da97db5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 09/12] fix: keep feature 0 with score 0 when coalescing

---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 7e6a1b5..3e06c0f 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -89,7 +89,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -101,7 +101,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -143,7 +143,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -152,7 +152,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -874,7 +874,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -886,7 +886,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -928,7 +928,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -937,7 +937,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From 58254ea6b8bee2e1e24d9a923b6da357699ab6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 10/12] fix: count each feature once when limiting features in
 coalesce

---
 rust-src/src/gridstore/coalesce.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 3e06c0f..32c80da 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -139,13 +139,11 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
                 }
             }
             Entry::Vacant(entry) => {
+                feature_count += 1;
                 entry.insert(coalesce_entry);
             }
         }
 
-        if previous_id != Some(current_id) {
-            feature_count += 1;
-        }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
             break;
         }
@@ -924,13 +922,11 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
                 }
             }
             Entry::Vacant(entry) => {
+                feature_count += 1;
                 entry.insert(coalesce_entry);
             }
         }
 
-        if previous_id != Some(current_id) {
-            feature_count += 1;
-        }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
             break;
         }
-- 
2.43.0


From 36c0a942fc976f9de5a71073663fcfbce156378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 11/12] fix: keep every key when merging subqueries

---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 32c80da..891cc59 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -962,7 +962,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0


From f3392a88521963dae3a5c39dd4c316f2413da112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 12/12] fix: follow up on the last chunk of stacks before
 stopping early

---
 rust-src/src/gridstore/coalesce.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 891cc59..147c10f 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -497,7 +497,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                     if step.node.max_relev
                         <= contexts.peek_min().expect("contexts can't be empty").relev
                     {
-                        complete = true;
+                        // steps already in this chunk may still yield better ones to follow up on
+                        complete = step_chunk.is_empty();
                         break;
                     }
                 }
-- 
2.43.0

