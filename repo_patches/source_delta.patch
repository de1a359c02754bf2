From 5d6c6fd85c4f7eaa3046c72978a2f9e269527f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 01/86] fix: next codepoint boundary from an offset inside a
 codepoint

BaseMetric::next derived the length from the byte at the offset, so that
at_or_next_codepoint_boundary skipped past the boundary (or past the end of
the text) when called with an offset inside a multi-byte codepoint.
---
 rust/rope/src/rope.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index b678bb1..a72ccce 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -200,8 +200,13 @@ impl Metric<RopeInfo> for BaseMetric {
             // with offset == s.len(), but be defensive.
             None
         } else {
-            let b = s.as_bytes()[offset];
-            Some(offset + len_utf8_from_first_byte(b))
+            // `offset` may lie inside a codepoint, so the length can't be
+            // derived from the byte at `offset`.
+            let mut len = 1;
+            while !s.is_char_boundary(offset + len) {
+                len += 1;
+            }
+            Some(offset + len)
         }
     }
 
-- 
2.43.0


From 8a2db2ddcc4f09bbcec59cad07cb5142c1f90036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 02/86] fix: grapheme motion across more than two leaves

next_grapheme and prev_grapheme lost their place when a cluster spanned three
or more leaves, and gave GraphemeCursor context in pieces it does not handle
(an emoji ZWJ sequence cut before the joiner).
---
 rust/rope/src/rope.rs | 76 +++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index a72ccce..82bc96a 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -678,59 +678,59 @@ impl<'a> Cursor<'a, RopeInfo> {
     }
 
     pub fn next_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (leaf, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
-        while offset < l.len() && !l.is_char_boundary(offset) {
+        let mut start = pos - offset;
+        while offset < leaf.len() && !leaf.is_char_boundary(offset) {
             pos -= 1;
             offset -= 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, self.total_len(), true);
-        let mut next_boundary = c.next_boundary(&l, leaf_offset);
-        while let Err(incomp) = next_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::NextChunk {
-                self.set(pos);
-                let (nl, noffset) = self.next_leaf()?;
-                l = nl;
-                leaf_offset = self.pos() - noffset;
-                pos = leaf_offset + nl.len();
-            } else {
-                return None;
+        // A cluster (or the context needed to find its end) may extend over several
+        // leaves; grow the text under consideration until it is large enough.
+        let mut text = Cow::from(leaf.as_str());
+        loop {
+            let mut c = GraphemeCursor::new(pos, self.total_len(), true);
+            match c.next_boundary(&text, start) {
+                Ok(boundary) => return boundary,
+                Err(GraphemeIncomplete::PreContext(_)) => {
+                    self.set(start);
+                    let (prev, _) = self.prev_leaf()?;
+                    start = self.pos();
+                    text = Cow::from([prev.as_str(), text.as_ref()].concat());
+                }
+                Err(GraphemeIncomplete::NextChunk) => {
+                    self.set(start + text.len());
+                    let (next, _) = self.get_leaf()?;
+                    text = cow_append(text, next);
+                }
+                Err(_) => return None,
             }
-            next_boundary = c.next_boundary(&l, leaf_offset);
         }
-        next_boundary.unwrap_or(None)
     }
 
     pub fn prev_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (leaf, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
-        while offset < l.len() && !l.is_char_boundary(offset) {
+        let mut start = pos - offset;
+        while offset < leaf.len() && !leaf.is_char_boundary(offset) {
             pos += 1;
             offset += 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, l.len() + leaf_offset, true);
-        let mut prev_boundary = c.prev_boundary(&l, leaf_offset);
-        while let Err(incomp) = prev_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::PrevChunk {
-                self.set(pos);
-                let (pl, poffset) = self.prev_leaf()?;
-                l = pl;
-                leaf_offset = self.pos() - poffset;
-                pos = leaf_offset + pl.len();
-            } else {
-                return None;
+        // See `next_grapheme`.
+        let mut text = Cow::from(leaf.as_str());
+        loop {
+            let mut c = GraphemeCursor::new(pos, start + text.len(), true);
+            match c.prev_boundary(&text, start) {
+                Ok(boundary) => return boundary,
+                Err(GraphemeIncomplete::PreContext(_)) | Err(GraphemeIncomplete::PrevChunk) => {
+                    self.set(start);
+                    let (prev, _) = self.prev_leaf()?;
+                    start = self.pos();
+                    text = Cow::from([prev.as_str(), text.as_ref()].concat());
+                }
+                Err(_) => return None,
             }
-            prev_boundary = c.prev_boundary(&l, leaf_offset);
         }
-        prev_boundary.unwrap_or(None)
     }
 }
 
-- 
2.43.0


From 992bc0733387b373e8ef3a43ede48f3d4fdc67a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 03/86] fix: backward comparison stopping inside a codepoint
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Two different codepoints sharing exactly their last byte (é and ĩ) were
reported as having one equal byte, so that the diff of two such texts
panicked slicing inside a codepoint.
---
 rust/rope/src/compare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index 36da4b9..fc38331 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -248,7 +248,7 @@ impl<'a> RopeScanner<'a> {
                 ne_idx_rev(self.base_chunk.as_bytes(), self.target_chunk.as_bytes())
             {
                 // find nearest codepoint boundary
-                while idx > 1 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
+                while idx > 0 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
                     idx -= 1;
                 }
                 return stop.min(self.scanned + idx);
-- 
2.43.0


From a8b23b3412d293e629f732f73cd8500a46bc9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 04/86] fix: diff copying the same base region twice

A match found by line hash was extended in the base document over regions
already copied (or part of the common suffix), so that the delta copied some
base text twice. Deltas with overlapping copies corrupt the document when
they go through the engine.
---
 rust/rope/src/diff.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rust/rope/src/diff.rs b/rust/rope/src/diff.rs
index cead72e..8a4206c 100644
--- a/rust/rope/src/diff.rs
+++ b/rust/rope/src/diff.rs
@@ -114,21 +114,26 @@ impl Diff<RopeInfo> for LineHashDiff {
         // we keep track of how far forward we extend it each time, to avoid
         // having a subsequent scan extend backwards over the same region.
         let mut prev_end = start_offset;
+        // the same goes for the base document: copied regions may not overlap.
+        let mut prev_base_end = start_offset;
+        let base_end = base.len() - diff_end;
 
         for (targ_off, base_off) in longest_subseq {
-            if targ_off <= prev_end {
+            if targ_off <= prev_end || base_off < prev_base_end || base_off >= base_end {
                 continue;
             }
+            let max_left = (targ_off - prev_end).min(base_off - prev_base_end);
             let (left_dist, mut right_dist) =
-                expand_match(base, target, base_off, targ_off, prev_end);
+                expand_match(base, target, base_off, targ_off, max_left);
 
-            // don't let last match expand past target_end
-            right_dist = right_dist.min(target_end - targ_off);
+            // don't let last match expand past target_end or base_end
+            right_dist = right_dist.min(target_end - targ_off).min(base_end - base_off);
 
             let targ_start = targ_off - left_dist;
             let base_start = base_off - left_dist;
             let len = left_dist + right_dist;
             prev_end = targ_start + len;
+            prev_base_end = base_start + len;
 
             builder.copy(base_start, targ_start, len);
         }
@@ -146,16 +151,16 @@ impl Diff<RopeInfo> for LineHashDiff {
 ///
 /// The return value is a pair of offsets, each of which represents an absolute
 /// distance. That is to say, the position of the start and end boundaries
-/// relative to the input offset.
+/// relative to the input offset. The match is not extended to the left by more
+/// than `max_left`.
 fn expand_match(
     base: &Rope,
     target: &Rope,
     base_off: usize,
     targ_off: usize,
-    prev_match_targ_end: usize,
+    max_left: usize,
 ) -> (usize, usize) {
     let mut scanner = RopeScanner::new(base, target);
-    let max_left = targ_off - prev_match_targ_end;
     let start = scanner.find_ne_char_back(base_off, targ_off, max_left);
     debug_assert!(start <= max_left, "{} <= {}", start, max_left);
     let end = scanner.find_ne_char(base_off, targ_off, None);
-- 
2.43.0


From c89e005e6b25d52d9dfc236793179b10cbd18c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 05/86] fix: case-insensitive search for a non-ASCII uppercase
 first letter
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The scanner compares lowercased text with the first character of the
pattern, which must be lowercased as well; searching for É found nothing.
---
 rust/rope/src/find.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index b5862ac..5ef5d81 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -137,7 +137,7 @@ pub fn find_progress(
                         let scanner = |s: &str| memchr(b, s.as_bytes());
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     } else {
-                        let c = pat.chars().next().unwrap();
+                        let c = pat_lower.chars().next().unwrap();
                         let scanner = |s: &str| scan_lowercase(c, s);
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     }
-- 
2.43.0


From 47835cda8639747720c47467aeb673de87a7a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 06/86] fix: case-insensitive search for a pattern ending in
 capital sigma

---
 rust/rope/src/find.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index 5ef5d81..06a42c1 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -119,7 +119,9 @@ pub fn find_progress(
                     find_progress_iter(cursor, lines, pat, scanner, matcher, num_steps)
                 }
                 CaseMatching::CaseInsensitive => {
-                    let pat_lower = pat.to_lowercase();
+                    // Lowercase each codepoint on its own, as the matcher does with the text;
+                    // `str::to_lowercase` treats a final sigma differently.
+                    let pat_lower: String = pat.chars().flat_map(char::to_lowercase).collect();
                     let b = pat_lower.as_bytes()[0];
                     let matcher = compare_cursor_str_casei;
                     if b == b'i' {
-- 
2.43.0


From d82c7ceada2b63c2665d69d28e1360c56f3aadff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 07/86] fix: deleted regions of a change that also inserts

---
 rust/rope/src/delta.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rust/rope/src/delta.rs b/rust/rope/src/delta.rs
index a904217..21c67ff 100644
--- a/rust/rope/src/delta.rs
+++ b/rust/rope/src/delta.rs
@@ -654,7 +654,6 @@ impl<'a, N: NodeInfo> Iterator for InsertsIter<'a, N> {
                 DeltaElement::Insert(ref n) => {
                     result = Some(DeltaRegion::new(self.last_end, self.pos, n.len()));
                     self.pos += n.len();
-                    self.last_end += n.len();
                     break;
                 }
             }
@@ -689,7 +688,6 @@ impl<'a, N: NodeInfo> Iterator for DeletionsIter<'a, N> {
                 }
                 DeltaElement::Insert(ref n) => {
                     self.pos += n.len();
-                    self.last_end += n.len();
                 }
             }
         }
-- 
2.43.0


From 32d7540705f2b4a5985acb57c3ed762189b5bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 08/86] fix: collecting an undo group whose edits are
 interleaved with later groups

---
 rust/rope/src/engine.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 14ab7da..b93291e 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -606,6 +606,9 @@ impl Engine {
             self.tombstones = dels_from_tombstones.delete_from(&self.tombstones);
             self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);
         }
+        // Characters inserted by dropped revisions that stay in the union: a retained revision
+        // before such an insert must count them as having been there already.
+        let mut kept = Subset::new(self.deletes_from_union.len());
         let old_revs = std::mem::replace(&mut self.revs, Vec::new());
         for rev in old_revs.into_iter().rev() {
             match rev.edit {
@@ -615,17 +618,22 @@ impl Engine {
                     } else {
                         Some(gc_dels.transform_shrink(&inserts))
                     };
+                    let (inserts, deletes) = if gc_dels.is_empty() {
+                        (inserts, deletes)
+                    } else {
+                        (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
+                    };
                     if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
-                        let (inserts, deletes) = if gc_dels.is_empty() {
-                            (inserts, deletes)
-                        } else {
-                            (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
-                        };
+                        let (inserts, deletes) =
+                            (inserts.transform_expand(&kept), deletes.transform_expand(&kept));
+                        kept = kept.transform_shrink(&inserts);
                         self.revs.push(Revision {
                             rev_id: rev.rev_id,
                             max_undo_so_far: rev.max_undo_so_far,
                             edit: Edit { priority, undo_group, inserts, deletes },
                         });
+                    } else {
+                        kept = inserts.transform_union(&kept);
                     }
                     if let Some(new_gc_dels) = new_gc_dels {
                         gc_dels = new_gc_dels;
-- 
2.43.0


From ad81af789f5a15971bfc04072bddf069f84b6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 09/86] fix: an undone edit reappearing after its group was
 collected

---
 rust/rope/src/engine.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index b93291e..9476c7b 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -581,7 +581,7 @@ impl Engine {
         {
             for rev in &self.revs {
                 if let Edit { ref undo_group, ref inserts, ref deletes, .. } = rev.edit {
-                    if !retain_revs.contains(&rev.rev_id) && gc_groups.contains(undo_group) {
+                    if gc_groups.contains(undo_group) {
                         if self.undone_groups.contains(undo_group) {
                             if !inserts.is_empty() {
                                 gc_dels = gc_dels.transform_union(inserts);
@@ -623,7 +623,7 @@ impl Engine {
                     } else {
                         (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
                     };
-                    if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
+                    if !gc_groups.contains(&undo_group) {
                         let (inserts, deletes) =
                             (inserts.transform_expand(&kept), deletes.transform_expand(&kept));
                         kept = kept.transform_shrink(&inserts);
@@ -634,6 +634,19 @@ impl Engine {
                         });
                     } else {
                         kept = inserts.transform_union(&kept);
+                        if retain_revs.contains(&rev.rev_id) {
+                            // only the identity is kept, there is nothing left to undo or redo
+                            self.revs.push(Revision {
+                                rev_id: rev.rev_id,
+                                max_undo_so_far: rev.max_undo_so_far,
+                                edit: Edit {
+                                    priority,
+                                    undo_group,
+                                    inserts: Subset::new(kept.len()),
+                                    deletes: Subset::new(kept.len()),
+                                },
+                            });
+                        }
                     }
                     if let Some(new_gc_dels) = new_gc_dels {
                         gc_dels = new_gc_dels;
-- 
2.43.0


From 92dd193fda97266bb8f82a74d82b77d33d4baa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 10/86] fix: concurrent insertions of three peers merging in
 different orders

---
 rust/rope/src/engine.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 9476c7b..02e611b 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -876,25 +876,25 @@ fn compute_deltas(
 /// from the new revisions on the left.
 ///
 /// Applies an optimization where it combines sequential revisions with the
-/// same priority into one transform to decrease the number of transforms that
+/// same priority and session into one transform to decrease the number of transforms that
 /// have to be considered in `rebase` substantially for normal editing
 /// patterns. Any large runs of typing in the same place by the same user (e.g
 /// typing a paragraph) will be combined into a single segment in a transform
 /// as opposed to thousands of revisions.
 fn compute_transforms(revs: Vec<Revision>) -> Vec<(FullPriority, Subset)> {
     let mut out = Vec::new();
-    let mut last_priority: Option<usize> = None;
+    let mut last_priority: Option<FullPriority> = None;
     for r in revs {
         if let Contents::Edit { priority, inserts, .. } = r.edit {
             if inserts.is_empty() {
                 continue;
             }
-            if Some(priority) == last_priority {
+            let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+            if Some(prio) == last_priority {
                 let last: &mut (FullPriority, Subset) = out.last_mut().unwrap();
                 last.1 = last.1.transform_union(&inserts);
             } else {
-                last_priority = Some(priority);
-                let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+                last_priority = Some(prio);
                 out.push((prio, inserts));
             }
         }
-- 
2.43.0


From fc68b817b62b62a7e983648a0b72510044edec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 11/86] Guarded hooks: drive the core's handlers outside of a
 run loop (cfg xi_verif)

---
 rust/core-lib/src/core.rs        | 8 ++++++++
 rust/core-lib/src/plugins/mod.rs | 8 ++++++++
 rust/rpc/src/lib.rs              | 6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index 9e659eb..d0200c7 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -77,6 +77,14 @@ impl XiCore {
     }
 }
 
+#[cfg(xi_verif)]
+impl XiCore {
+    /// The handle that plugin threads use, for a verification harness that plays the plugin.
+    pub fn verif_weak(&self) -> Option<WeakXiCore> {
+        self.weak_self()
+    }
+}
+
 /// Handler for messages originating with the frontend.
 impl Handler for XiCore {
     type Notification = CoreNotification;
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 07b2af2..111329a 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -66,6 +66,14 @@ pub struct Plugin {
     process: Child,
 }
 
+#[cfg(xi_verif)]
+impl Plugin {
+    /// A plugin which is reached through `peer`; the process behind it is a placeholder.
+    pub fn for_verif(peer: RpcPeer, id: PluginId, name: String, process: Child) -> Plugin {
+        Plugin { peer, process, name, id }
+    }
+}
+
 impl Plugin {
     //TODO: initialize should be sent automatically during launch,
     //and should only send the plugin_id. We can just use the existing 'new_buffer'
diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 14d79bd..cb959ec 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -391,6 +391,12 @@ fn do_idle<H: Handler>(handler: &mut H, ctx: &RpcCtx, token: usize) {
 }
 
 impl RpcCtx {
+    /// Builds a context outside of a run loop, so that a verification harness can drive a `Handler`.
+    #[cfg(xi_verif)]
+    pub fn for_verif(peer: RpcPeer) -> RpcCtx {
+        RpcCtx { peer }
+    }
+
     pub fn get_peer(&self) -> &RpcPeer {
         &self.peer
     }
-- 
2.43.0


From 14df8a94e18cb8c7b123d249f7bea1de0b740d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 12/86] fix: capitalizing words with multi-byte first letters
 or in overlapping regions

---
 rust/core-lib/src/edit_ops.rs |  8 ++++++--
 rust/core-lib/src/editor.rs   | 12 +++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 075695a..185d8fe 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -381,6 +381,8 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
 pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Selection) {
     let mut builder = DeltaBuilder::new(base.len());
     let mut final_selection = Selection::new();
+    // end of the last capitalized word, a word can be part of several regions
+    let mut last = 0;
 
     for &region in regions {
         final_selection.add_region(SelRegion::new(region.max(), region.max()));
@@ -390,14 +392,16 @@ pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Select
             // capitalize each word in the current selection
             let (start, end) = word_cursor.select_word();
 
-            if start < end {
+            if start < end && start >= last {
                 let interval = Interval::new(start, end);
                 let word = base.slice_to_cow(start..end);
 
                 // first letter is uppercase, remaining letters are lowercase
-                let (first_char, rest) = word.split_at(1);
+                let first_len = word.chars().next().map(char::len_utf8).unwrap_or(0);
+                let (first_char, rest) = word.split_at(first_len);
                 let capitalized_text = [first_char.to_uppercase(), rest.to_lowercase()].concat();
                 builder.replace(interval, Rope::from(capitalized_text));
+                last = end;
             }
 
             if word_cursor.next_boundary().is_none() || end > region.max() {
diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26e4bdb..18dac33 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -482,15 +482,17 @@ impl Editor {
 
     fn do_capitalize_text(&mut self, view: &mut View) {
         let (delta, final_selection) = edit_ops::capitalize_text(&self.text, view.sel_regions());
-        if !delta.is_identity() {
-            self.this_edit_type = EditType::Other;
-            self.add_delta(delta);
-        }
 
         // at the end of the transformation carets are located at the end of the words that were
-        // transformed last in the selections
+        // transformed last in the selections; these are positions in the text before the edit, the
+        // delta moves them along
         view.collapse_selections(&self.text);
         view.set_selection(&self.text, final_selection);
+
+        if !delta.is_identity() {
+            self.this_edit_type = EditType::Other;
+            self.add_delta(delta);
+        }
     }
 
     fn do_modify_indent(&mut self, view: &View, config: &BufferItems, direction: IndentDirection) {
-- 
2.43.0


From b692d09f1ba7a472b7ba6a5484e81165ebb67b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 13/86] fix: transposing at the end of a line with multi-byte
 or overlapping regions

---
 rust/core-lib/src/edit_ops.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 185d8fe..fbdce1a 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -289,7 +289,7 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
     let mut optional_previous_selection: Option<(Interval, Rope)> =
         last_selection_region(regions).map(|&region| sel_region_to_interval_and_rope(base, region));
 
-    for &region in regions {
+    for (i, &region) in regions.iter().enumerate() {
         if region.is_caret() {
             let mut middle = region.end;
             let mut start = base.prev_grapheme_offset(middle).unwrap_or(0);
@@ -297,16 +297,21 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
 
             // Note: this matches Emac's behavior. It swaps last
             // two characters of line if at end of line.
-            if start >= last {
-                let end_line_offset =
-                    LogicalLines.offset_of_line(base, LogicalLines.line_of_offset(base, end));
-                // include end != base.len() because if the editor is entirely empty, we dont' want to pull from empty space
-                if (end == middle || end == end_line_offset) && end != base.len() {
-                    middle = start;
-                    start = base.prev_grapheme_offset(middle).unwrap_or(0);
-                    end = middle.wrapping_add(1);
-                }
+            let end_line_offset =
+                LogicalLines.offset_of_line(base, LogicalLines.line_of_offset(base, end));
+            // include end != base.len() because if the editor is entirely empty, we dont' want to pull from empty space
+            if (end == middle || end == end_line_offset) && end != base.len() {
+                end = middle;
+                middle = start;
+                start = base.prev_grapheme_offset(middle).unwrap_or(0);
+            }
 
+            // leave text alone that is already part of the edit, or will be
+            let limit = match regions.get(i + 1) {
+                Some(next) if !next.is_caret() => next.min(),
+                _ => base.len(),
+            };
+            if start >= last && end <= limit {
                 let interval = Interval::new(start, end);
                 let before = base.slice_to_cow(start..middle);
                 let after = base.slice_to_cow(middle..end);
@@ -317,6 +322,7 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
         } else if let Some(previous_selection) = optional_previous_selection {
             let current_interval = sel_region_to_interval_and_rope(base, region);
             builder.replace(current_interval.0, previous_selection.1);
+            last = region.max();
             optional_previous_selection = Some(current_interval);
         }
     }
-- 
2.43.0


From 3d2ec09410bb8a20f3696eb2a696c49832b0c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 14/86] fix: splitting a selection into lines cut into
 characters

---
 rust/core-lib/src/view.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 24283d2..09f84c1 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -546,10 +546,8 @@ impl View {
                 while cursor.pos() < region.max() {
                     let sel_start = cursor.pos();
                     let end_of_line = match cursor.next::<LinesMetric>() {
-                        Some(end) if end >= region.max() => max(0, region.max() - 1),
-                        Some(end) => max(0, end - 1),
-                        None if cursor.pos() == text.len() => cursor.pos(),
-                        _ => break,
+                        Some(end) if end <= region.max() => end - 1,
+                        _ => region.max(),
                     };
 
                     selection.add_region(SelRegion::new(sel_start, end_of_line));
-- 
2.43.0


From 5ad4073a1801b9abaf81399e53b77b134360c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 15/86] fix: find with empty matches and with whole words next
 to multi-byte characters

---
 rust/core-lib/src/find.rs      | 20 ++++++++++++++------
 rust/core-lib/src/selection.rs |  6 +++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index ae9e712..616b515 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -281,6 +281,13 @@ impl Find {
             let end = find_cursor.pos();
 
             if self.whole_words && !self.is_matching_whole_words(text, start, end) {
+                // an empty match would be found again at the same position
+                if start == end {
+                    match text.next_codepoint_offset(end) {
+                        Some(next) if next < text.len() => find_cursor.set(next),
+                        _ => break,
+                    }
+                }
                 raw_lines = text.lines_raw(find_cursor.pos()..to);
                 continue;
             }
@@ -305,10 +312,9 @@ impl Find {
             if start == end {
                 // determine whether end of text is reached and stop search or increase
                 // cursor manually
-                if end + 1 >= text.len() {
-                    break;
-                } else {
-                    find_cursor.set(end + 1);
+                match text.next_codepoint_offset(end) {
+                    Some(next) if next < text.len() => find_cursor.set(next),
+                    _ => break,
                 }
             }
 
@@ -389,8 +395,10 @@ impl Find {
 
     /// Checks if the start and end of a match is matching whole words.
     fn is_matching_whole_words(&self, text: &Rope, start: usize, end: usize) -> bool {
-        let mut word_end_cursor = WordCursor::new(text, end - 1);
-        let mut word_start_cursor = WordCursor::new(text, start + 1);
+        let before_end = text.prev_codepoint_offset(end).unwrap_or(0);
+        let after_start = text.next_codepoint_offset(start).unwrap_or_else(|| text.len());
+        let mut word_end_cursor = WordCursor::new(text, before_end);
+        let mut word_start_cursor = WordCursor::new(text, after_start);
 
         if let Some(start_boundary) = word_start_cursor.prev_boundary() {
             if start_boundary != start {
diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index acde566..dceafcb 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -166,6 +166,9 @@ impl Selection {
         let mut ix = self.search(region.min());
 
         if ix < self.regions.len() && self.regions[ix].max() == region.min() {
+            if self.regions[ix].min() == region.min() && region.is_caret() {
+                return (region.min(), region.max());
+            }
             ix += 1;
         }
 
@@ -184,7 +187,8 @@ impl Selection {
         if last < self.regions.len() && self.regions[last].min() < region.max() {
             last += 1;
         }
-        remove_n_at(&mut self.regions, ix, last - ix);
+        // an empty region can follow directly on the region to its left
+        remove_n_at(&mut self.regions, ix, last.saturating_sub(ix));
 
         if ix == self.regions.len() {
             self.regions.push(region);
-- 
2.43.0


From bd05f9ffb8b49064bb41d37ead098bc0be45ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 16/86] fix: scroll and line requests with an inverted or
 negative range

---
 rust/core-lib/src/event_context.rs     | 2 +-
 rust/core-lib/src/line_cache_shadow.rs | 3 +++
 rust/core-lib/src/view.rs              | 6 ++++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 55df61a..a8a6465 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -170,7 +170,7 @@ impl<'a> EventContext<'a> {
                 ed.get_layers().debug_print_spans(iv);
             }),
             SpecialEvent::RequestLines(LineRange { first, last }) => {
-                self.do_request_lines(first as usize, last as usize)
+                self.do_request_lines(first.max(0) as usize, last.max(0) as usize)
             }
             SpecialEvent::RequestHover { request_id, position } => {
                 self.do_request_hover(request_id, position)
diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 3bbdf4f..708b100 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -280,6 +280,9 @@ impl RenderPlan {
 
     /// Upgrade a range of lines to the "Render" tactic.
     pub fn request_lines(&mut self, start: usize, end: usize) {
+        if end <= start {
+            return;
+        }
         let mut spans: Vec<(usize, RenderTactic)> = Vec::new();
         let mut i = 0;
         let mut line_num = 0;
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 09f84c1..7d2a0f1 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -330,7 +330,7 @@ impl View {
         let first = max(first, 0) as usize;
         let last = max(last, 0) as usize;
         self.first_line = first;
-        self.height = last - first;
+        self.height = last.saturating_sub(first);
     }
 
     pub fn scroll_height(&self) -> usize {
@@ -343,7 +343,7 @@ impl View {
         if line < self.first_line {
             self.first_line = line;
         } else if self.first_line + self.height <= line {
-            self.first_line = line - (self.height - 1);
+            self.first_line = line - self.height.saturating_sub(1);
         }
         // We somewhat arbitrarily choose the last region for setting the old-style
         // selection state, and for scrolling it into view if needed. This choice can
@@ -930,6 +930,8 @@ impl View {
         pristine: bool,
     ) {
         let height = self.line_of_offset(text, text.len()) + 1;
+        let last_line = min(last_line, height);
+        let first_line = min(first_line, last_line);
         let mut plan = RenderPlan::create(height, self.first_line, self.height);
         plan.request_lines(first_line, last_line);
         self.send_update_for_plan(text, client, styles, style_spans, &plan, pristine);
-- 
2.43.0


From 0f2ea60cbadb991f4ebe30f4b0df83213734570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 17/86] fix: changing a number that several carets are next to

---
 rust/core-lib/src/edit_ops.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index fbdce1a..865cc78 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -364,6 +364,8 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
     transform_function: F,
 ) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
+    // end of the last changed number, a number can be next to several regions
+    let mut last = 0;
     for region in regions {
         let mut cursor = WordCursor::new(base, region.end);
         let (mut start, end) = cursor.select_word();
@@ -373,10 +375,15 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
             start -= 1;
         }
 
+        if start < last {
+            continue;
+        }
+
         let word = base.slice_to_cow(start..end);
         if let Some(number) = word.parse::<i128>().ok().and_then(&transform_function) {
             let interval = Interval::new(start, end);
             builder.replace(interval, Rope::from(number.to_string()));
+            last = end;
         }
     }
 
-- 
2.43.0


From e6d5ca02eeab9d0171d676a1d460501b959cc559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 18/86] fix: deleting backwards with carets whose deletions
 overlap

---
 rust/core-lib/src/edit_ops.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 865cc78..79b11fa 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -111,16 +111,14 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 pub fn delete_backward(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
     // TODO: this function is workable but probably overall code complexity
     // could be improved by implementing a "backspace" movement instead.
-    let mut builder = DeltaBuilder::new(base.len());
+    // As in `delete_by_movement`, a selection merges deletions that overlap.
+    let mut deletions = Selection::new();
     for region in regions {
         let start = offset_for_delete_backwards(&region, base, &config);
-        let iv = Interval::new(start, region.max());
-        if !iv.is_empty() {
-            builder.delete(iv);
-        }
+        deletions.add_region(SelRegion::new(start, region.max()));
     }
 
-    builder.build()
+    delete_sel_regions(base, &deletions)
 }
 
 /// Common logic for a number of delete methods. For each region in the
-- 
2.43.0


From c65c11fe8b2299184e9a1b463d1f71060229e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:30 +0000
Subject: [PATCH 19/86] fix: regex search not ending when it runs out of lines

---
 rust/rope/src/find.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index 06a42c1..026bd01 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -295,10 +295,16 @@ pub fn compare_cursor_regex(
     } else {
         match lines.next() {
             Some(line) => text = line,
-            _ => return None,
+            _ => text = Cow::from(""),
         }
     }
 
+    if text.is_empty() {
+        // there are no more lines to search
+        cursor.set(cursor.total_len());
+        return None;
+    }
+
     // match regex against text
     match regex.find(&text) {
         Some(mat) => {
-- 
2.43.0


From d2b40f850ad6db1e5e8a2c445f93f19c01e88b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:59 +0000
Subject: [PATCH 20/86] fix: inserting tabs with several regions on one line

---
 rust/core-lib/src/edit_ops.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 79b11fa..efac0d8 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -15,7 +15,7 @@
 //! Functions for editing ropes.
 
 use std::borrow::Cow;
-use std::collections::BTreeSet;
+use std::collections::{BTreeMap, BTreeSet};
 
 use xi_rope::{Cursor, DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta};
 
@@ -204,6 +204,8 @@ pub fn insert_newline(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
     let const_tab_text = get_tab_text(config, None);
+    // ordered by position, as several regions can be on the same line
+    let mut edits = BTreeMap::new();
 
     for region in regions {
         let line_range = LogicalLines.get_line_range(base, region);
@@ -211,8 +213,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
         if line_range.len() > 1 {
             for line in line_range {
                 let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                let iv = Interval::new(offset, offset);
-                builder.replace(iv, Rope::from(const_tab_text));
+                edits.insert((offset, offset), const_tab_text);
             }
         } else {
             let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
@@ -220,11 +221,14 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
             tab_size = tab_size - (col % tab_size);
             let tab_text = get_tab_text(config, Some(tab_size));
 
-            let iv = Interval::new(region.min(), region.max());
-            builder.replace(iv, Rope::from(tab_text));
+            edits.insert((region.min(), region.max()), tab_text);
         }
     }
 
+    for ((start, end), text) in edits {
+        builder.replace(Interval::new(start, end), Rope::from(text));
+    }
+
     builder.build()
 }
 
-- 
2.43.0


From f7008714d8a877f3e21535a873bc54b45dc944a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 21/86] fix: adding a selection next to an empty last line

---
 rust/core-lib/src/movement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 210005b..748d5a7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -111,7 +111,7 @@ fn vertical_motion_exact_pos(
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
     // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length - 1 } else { col };
+    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
 
     loop {
         line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
-- 
2.43.0


From 13bdf80ad8a4e0b3a2e71ce9dff0082bda590e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 22/86] fix: cursors not removed from lines that keep their
 text

---
 rust/core-lib/src/view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 7d2a0f1..cf0e96a 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -678,7 +678,8 @@ impl View {
                 style_spans
             ));
         }
-        if !cursors.is_empty() {
+        // in an "update" op, a line without cursors has to say so
+        if text.is_none() || !cursors.is_empty() {
             result["cursor"] = json!(cursors);
         }
         if let Some(line_num) = line.line_num {
-- 
2.43.0


From 6973e7631dfb2895d3447a38844088bf06f2e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 23/86] fix: find highlights not sent for lines the front-end
 already has

---
 rust/core-lib/src/view.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index cf0e96a..cf7c3a2 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -766,8 +766,14 @@ impl View {
             .chain(plugin_annotations)
             .collect::<Vec<_>>();
 
+        let total_lines = self.line_of_offset(text, text.len()) + 1;
+
+        // the styles of lines include the highlights, wherever these have changed
+        if self.highlight_find && self.find.iter().any(|f| f.hls_dirty()) {
+            self.lc_shadow.partial_invalidate(0, total_lines, line_cache_shadow::STYLES_VALID);
+        }
+
         if !self.lc_shadow.needs_render(plan) {
-            let total_lines = self.line_of_offset(text, text.len()) + 1;
             let update =
                 Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
             client.update_view(self.view_id, &update);
-- 
2.43.0


From cc77d9b5cdc2e2ef70998420e66b285c62602cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:19 +0000
Subject: [PATCH 24/86] fix: caret at the end of the text drawn on the last two
 lines

---
 rust/core-lib/src/view.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index cf7c3a2..c7a0769 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -620,7 +620,7 @@ impl View {
         line: VisualLine,
         text: Option<&Rope>,
         style_spans: Option<&Spans<Style>>,
-        last_pos: usize,
+        is_last_line: bool,
     ) -> Value {
         let start_pos = line.interval.start;
         let pos = line.interval.end;
@@ -633,7 +633,7 @@ impl View {
             if (c > start_pos && c < pos)
                 || (!region.is_upstream() && c == start_pos)
                 || (region.is_upstream() && c == pos)
-                || (c == pos && c == last_pos)
+                || (c == pos && is_last_line)
             {
                 cursors.push(c - start_pos);
             }
@@ -839,14 +839,15 @@ impl View {
                                 .lines
                                 .iter_lines(text, start_line)
                                 .take(seg.n)
-                                .map(|l| {
+                                .enumerate()
+                                .map(|(i, l)| {
                                     self.encode_line(
                                         client,
                                         styles,
                                         l,
                                         /* text = */ None,
                                         /* style_spans = */ None,
-                                        text.len(),
+                                        start_line + i + 1 == total_lines,
                                     )
                                 })
                                 .collect::<Vec<_>>();
@@ -867,14 +868,15 @@ impl View {
                                 .lines
                                 .iter_lines(text, start_line)
                                 .take(seg.n)
-                                .map(|l| {
+                                .enumerate()
+                                .map(|(i, l)| {
                                     self.encode_line(
                                         client,
                                         styles,
                                         l,
                                         Some(text),
                                         Some(style_spans),
-                                        text.len(),
+                                        start_line + i + 1 == total_lines,
                                     )
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From d25ff96c7ca62537d97a4604f79018550da61d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 25/86] fix: cursors of merged selections left behind on lines
 that were not edited

---
 rust/core-lib/src/view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index c7a0769..cdc4736 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1018,7 +1018,12 @@ impl View {
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
         let new_sel = self.selection.apply_delta(delta, true, drift);
+        let merged = new_sel.len() != self.selection.len();
         self.set_selection_for_edit(text, new_sel);
+        if merged {
+            // the cursors can change on lines that were not edited
+            self.invalidate_selection(text);
+        }
     }
 
     fn do_selection_for_find(&mut self, text: &Rope, case_sensitive: bool) {
-- 
2.43.0


From 505589ef4409d6710f3cd79cbb942e7e6d8bacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 26/86] fix: deleting to the end of the paragraph does nothing
 on a last line without line ending

---
 rust/core-lib/src/movement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 748d5a7..c022b24 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -272,6 +272,9 @@ pub fn region_movement(
                         }
                     }
                 }
+            } else {
+                // the last line has no line ending
+                offset = text.len();
             }
             (offset, None)
         }
-- 
2.43.0


From bf8b097eb7bed3804f0b48a85fc16d0f9609e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 27/86] fix: duplicate line does nothing on a last line without
 line ending and adds a blank line before an empty one

---
 rust/core-lib/src/edit_ops.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index efac0d8..46cf2ca 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -17,7 +17,7 @@
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet};
 
-use xi_rope::{Cursor, DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta};
+use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta};
 
 use crate::backspace::offset_for_delete_backwards;
 use crate::config::BufferItems;
@@ -78,28 +78,23 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
         let (first_line, _) = LogicalLines.offset_to_line_col(base, region.min());
         let line_start = LogicalLines.offset_of_line(base, first_line);
 
-        let mut cursor = match region.is_caret() {
-            true => Cursor::new(base, line_start),
-            false => {
-                // duplicate all lines together that are part of the same selections
-                let (last_line, _) = LogicalLines.offset_to_line_col(base, region.max());
-                let line_end = LogicalLines.offset_of_line(base, last_line);
-                Cursor::new(base, line_end)
-            }
-        };
-
-        if let Some(line_end) = cursor.next::<LinesMetric>() {
+        // duplicate all lines together that are part of the same selections
+        let (last_line, _) = LogicalLines.offset_to_line_col(base, region.max());
+        let line_end = LogicalLines.offset_of_line(base, last_line + 1);
+        if line_end > line_start {
             to_duplicate.insert((line_start, line_end));
         }
     }
 
+    let last_line_start =
+        LogicalLines.offset_of_line(base, LogicalLines.line_of_offset(base, base.len()));
     for (start, end) in to_duplicate {
         // insert duplicates
         let iv = Interval::new(start, start);
         builder.replace(iv, base.slice(start..end));
 
         // last line does not have new line character so it needs to be manually added
-        if end == base.len() {
+        if end == base.len() && last_line_start < end {
             builder.replace(iv, Rope::from(&config.line_ending))
         }
     }
-- 
2.43.0


From 3b1426dd78fae9fd6a24a7f364f3a1a5a6c17ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 28/86] fix: outdent does nothing when a wide cluster follows
 less than a tab of blanks

---
 rust/core-lib/src/edit_ops.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 46cf2ca..6fd767c 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -266,15 +266,13 @@ fn outdent(base: &Rope, lines: BTreeSet<usize>, tab_text: &str) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
     for line in lines {
         let offset = LogicalLines.line_col_to_offset(base, line, 0);
-        let tab_offset = LogicalLines.line_col_to_offset(base, line, tab_text.len());
-        let interval = Interval::new(offset, tab_offset);
-        let leading_slice = base.slice_to_cow(interval.start()..interval.end());
-        if leading_slice == tab_text {
-            builder.delete(interval);
-        } else if let Some(first_char_col) = leading_slice.find(|c: char| !c.is_whitespace()) {
-            let first_char_offset = LogicalLines.line_col_to_offset(base, line, first_char_col);
-            let interval = Interval::new(offset, first_char_offset);
-            builder.delete(interval);
+        let line_text = base.slice_to_cow(offset..LogicalLines.offset_of_line(base, line + 1));
+        if line_text.starts_with(tab_text) {
+            builder.delete(Interval::new(offset, offset + tab_text.len()));
+        } else if let Some(first_char_col) = line_text.find(|c: char| !c.is_whitespace()) {
+            if first_char_col < tab_text.len() {
+                builder.delete(Interval::new(offset, offset + first_char_col));
+            }
         }
     }
     builder.build()
-- 
2.43.0


From dbe2cf67e1c2fa8475f8e8b8c6b9da8414b77faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 29/86] fix: panic when deleting an empty range of regions at a
 region's end

---
 rust/core-lib/src/selection.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index dceafcb..f51a382 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -145,6 +145,7 @@ impl Selection {
         }
         if !delete_adjacent && self.regions[first].max() == start {
             first += 1;
+            last = last.max(first);
         }
         if last < self.regions.len()
             && ((delete_adjacent && self.regions[last].min() <= end)
-- 
2.43.0


From a736f67713ce4be2abd203c61f37f6fc617d2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 30/86] fix: second of two touching regions left out of range
 queries and deletions

---
 rust/core-lib/src/selection.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index f51a382..20e0ecf 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -130,7 +130,8 @@ impl Selection {
     pub fn regions_in_range(&self, start: usize, end: usize) -> &[SelRegion] {
         let first = self.search(start);
         let mut last = self.search(end);
-        if last < self.regions.len() && self.regions[last].min() <= end {
+        // two regions can meet at the end of the range
+        while last < self.regions.len() && self.regions[last].min() <= end {
             last += 1;
         }
         &self.regions[first..last]
@@ -147,7 +148,8 @@ impl Selection {
             first += 1;
             last = last.max(first);
         }
-        if last < self.regions.len()
+        // two regions can meet at the end of the range
+        while last < self.regions.len()
             && ((delete_adjacent && self.regions[last].min() <= end)
                 || (!delete_adjacent && self.regions[last].min() < end))
         {
-- 
2.43.0


From b8ac93c3f48425c23cdf421235ed72a943cd1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 31/86] fix: search matches lost, split or stale after edits
 next to them

---
 rust/core-lib/src/find.rs | 49 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 616b515..23a1bc9 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -147,44 +147,39 @@ impl Find {
 
             // invalidate occurrences around insert positions
             for DeltaRegion { new_offset, len, .. } in delta.iter_inserts() {
-                // also invalidate previous occurrence since it might expand after insertion
-                // eg. for regex .* every insertion after match will be part of match
-                self.occurrences.delete_range(
-                    new_offset.saturating_sub(1),
-                    new_offset + len,
-                    false,
-                );
+                self.occurrences.delete_range(new_offset, new_offset + len, false);
             }
 
             // update find for the whole delta and everything after
             let (iv, new_len) = delta.summary();
 
-            // get last valid occurrence that was unaffected by the delta
-            let start = match self.occurrences.regions_in_range(0, iv.start()).last() {
-                Some(reg) => reg.end,
-                None => 0,
-            };
-
-            // invalidate all search results from the point of the last valid search result until ...
             let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
 
-            if is_multiline || self.is_multiline_regex() {
+            // invalidate all search results from ...
+            let start = if self.is_multiline_regex() {
+                // ... the start of the file, as any of them can depend on the text that follows
+                0
+            } else if is_multiline {
+                // ... the last valid occurrence that was unaffected by the delta
+                let valid = self.occurrences.regions_in_range(0, iv.start());
+                valid.iter().rev().find(|o| o.max() < iv.start()).map_or(0, |o| o.max())
+            } else {
+                // ... the start of the line
+                text.offset_of_line(text.line_of_offset(iv.start()))
+            };
+
+            // ... until ...
+            let end = if is_multiline || self.is_multiline_regex() {
                 // ... the end of the file
-                self.occurrences.delete_range(iv.start(), text.len(), false);
-                self.update_find(text, start, text.len(), false);
+                text.len()
             } else {
                 // ... the end of the line including line break
-                let mut cursor = Cursor::new(&text, iv.end() + new_len);
-
-                let end_of_line = match cursor.next::<LinesMetric>() {
-                    Some(end) => end,
-                    None if cursor.pos() == text.len() => cursor.pos(),
-                    _ => return,
-                };
+                let mut cursor = Cursor::new(&text, iv.start() + new_len);
+                cursor.next::<LinesMetric>().unwrap_or_else(|| text.len())
+            };
 
-                self.occurrences.delete_range(iv.start(), end_of_line, false);
-                self.update_find(text, start, end_of_line, false);
-            }
+            self.occurrences.delete_range(start, end, false);
+            self.update_find(text, start, end, false);
         }
     }
 
-- 
2.43.0


From 13b98b51edec21bb170b7602cc9d9b1cb6874e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 32/86] fix: finding the next match stuck between two adjacent
 matches

---
 rust/core-lib/src/find.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 23a1bc9..85820bf 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -361,7 +361,7 @@ impl Find {
                     .regions_in_range(0, text.len())
                     .iter()
                     .cloned()
-                    .filter(|o| sel.regions_in_range(o.min(), o.max()).is_empty())
+                    .filter(|o| !is_selected(o, sel))
                     .collect::<Vec<SelRegion>>()
                     .last()
                     .cloned();
@@ -378,7 +378,7 @@ impl Find {
                     .regions_in_range(0, text.len())
                     .iter()
                     .cloned()
-                    .filter(|o| sel.regions_in_range(o.min(), o.max()).is_empty())
+                    .filter(|o| !is_selected(o, sel))
                     .collect::<Vec<SelRegion>>()
                     .first()
                     .cloned();
@@ -411,6 +411,16 @@ impl Find {
     }
 }
 
+/// Whether the occurrence or a part of it is selected. Regions that merely touch it do not count,
+/// except for carets.
+fn is_selected(occurrence: &SelRegion, sel: &Selection) -> bool {
+    sel.regions_in_range(occurrence.min(), occurrence.max()).iter().any(|r| {
+        r.is_caret()
+            || occurrence.is_caret()
+            || (r.min() < occurrence.max() && occurrence.min() < r.max())
+    })
+}
+
 /// Implementing the `ToAnnotation` trait allows to convert finds to annotations.
 impl ToAnnotation for Find {
     fn get_annotations(&self, interval: Interval, view: &View, text: &Rope) -> AnnotationSlice {
-- 
2.43.0


From 409f874fb0d04844533fb2ade2f22ee42b62b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 33/86] fix: column widths and measured widths mixed up between
 views that wrap differently

---
 rust/core-lib/src/linewrap.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index badf218..826d46f 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -368,8 +368,17 @@ impl Lines {
         debug_assert_eq!(cursor.offset, task.start, "task_start must be valid offset");
 
         let mut ctx = match self.wrap {
-            Bytes(b) => RewrapCtx::new(text, &CodepointMono, b as f64, width_cache, task.start),
-            Width(w) => RewrapCtx::new(text, client, w, width_cache, task.start),
+            Bytes(b) => RewrapCtx::new(
+                text,
+                &CodepointMono,
+                b as f64,
+                width_cache,
+                MONO_WIDTH_ID,
+                task.start,
+            ),
+            Width(w) => {
+                RewrapCtx::new(text, client, w, width_cache, N_RESERVED_STYLES, task.start)
+            }
             None => unreachable!(),
         };
 
@@ -473,6 +482,8 @@ struct RewrapCtx<'a> {
     lb_cursor_pos: usize,
     width_cache: &'a mut WidthCache,
     client: &'a dyn WidthMeasure,
+    /// The id under which widths are cached.
+    width_id: usize,
     pot_breaks: Vec<PotentialBreak>,
     /// Index within `pot_breaks`
     pot_break_ix: usize,
@@ -483,6 +494,10 @@ struct RewrapCtx<'a> {
 // RPC overhead becomes significant. More than that, interactivity suffers.
 const MAX_POT_BREAKS: usize = 10_000;
 
+/// The id under which columnar widths are kept in the width cache, which is shared between
+/// views; these must not be confused with the widths measured by the front-end.
+const MONO_WIDTH_ID: usize = usize::max_value();
+
 impl<'a> RewrapCtx<'a> {
     fn new(
         text: &'a Rope,
@@ -490,6 +505,7 @@ impl<'a> RewrapCtx<'a> {
         client: &'a dyn WidthMeasure,
         max_width: f64,
         width_cache: &'a mut WidthCache,
+        width_id: usize,
         start: usize,
     ) -> RewrapCtx<'a> {
         let lb_cursor_pos = start;
@@ -500,6 +516,7 @@ impl<'a> RewrapCtx<'a> {
             lb_cursor_pos,
             width_cache,
             client,
+            width_id,
             pot_breaks: Vec::new(),
             pot_break_ix: 0,
             max_width,
@@ -515,7 +532,7 @@ impl<'a> RewrapCtx<'a> {
         while pos < self.text.len() && self.pot_breaks.len() < MAX_POT_BREAKS {
             let (next, hard) = self.lb_cursor.next();
             let word = self.text.slice_to_cow(pos..next);
-            let tok = req.request(N_RESERVED_STYLES, &word);
+            let tok = req.request(self.width_id, &word);
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-- 
2.43.0


From 818f3702667c91e57774fd9e065fd04ec4e431cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 34/86] fix: lines outside of the visible part never wrapped
 after an edit

---
 rust/core-lib/src/event_context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index a8a6465..d7fde89 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -299,14 +299,20 @@ impl<'a> EventContext<'a> {
         let mut width_cache = self.width_cache.borrow_mut();
         let iter_views = iter::once(&self.view).chain(self.siblings.iter());
         iter_views.for_each(|view| {
-            view.borrow_mut().after_edit(
+            let mut view = view.borrow_mut();
+            view.after_edit(
                 ed.get_buffer(),
                 last_text,
                 delta,
                 self.client,
                 &mut width_cache,
                 drift,
-            )
+            );
+            // only the visible part is guaranteed to have been rewrapped
+            if view.needs_more_wrap() {
+                let view_id: usize = view.get_view_id().into();
+                self.client.schedule_idle(REWRAP_VIEW_IDLE_MASK | view_id);
+            }
         });
     }
 
-- 
2.43.0


From 8656e49384e3dd411c5ae6d2f98c8f3ff415300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 35/86] fix: a response with an id that is not a number stopped
 the reader and hung the loop

---
 rust/rpc/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index cb959ec..1ec58de 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -281,7 +281,14 @@ impl<W: Write + Send> RpcLoop<W> {
                         }
                     };
                     if json.is_response() {
-                        let id = json.get_id().unwrap();
+                        let id = match json.get_id() {
+                            Some(id) => id,
+                            None => {
+                                // none of our requests can have this id
+                                warn!("response with invalid id");
+                                continue;
+                            }
+                        };
                         let _resp =
                             trace_block_payload("read loop response", &["rpc"], format!("{}", id));
                         match json.into_response() {
-- 
2.43.0


From f21b758d7b8683ccb36aa288902d5756f195ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 36/86] fix: requests made while or after a connection ends
 could deadlock or wait forever

The callbacks of pending requests were called with the lock of the pending
requests held, the callback of a request that could not be sent was called by
the sender, with whatever locks it holds, and a request made once the reader
was gone was never answered.
---
 rust/rpc/src/lib.rs | 62 +++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 1ec58de..266c8ac 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -42,6 +42,7 @@ pub mod test_utils;
 use std::cmp;
 use std::collections::{BTreeMap, BinaryHeap, VecDeque};
 use std::io::{self, BufRead, Write};
+use std::mem;
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::mpsc;
 use std::sync::{Arc, Condvar, Mutex};
@@ -182,6 +183,17 @@ impl ResponseHandler {
             ResponseHandler::Callback(f) => f.call(result),
         }
     }
+
+    /// Like `invoke`, but to be used by the thread that makes the request: it might hold
+    /// locks that the callback takes, so that is not called on this thread.
+    fn invoke_elsewhere(self, result: Result<Value, Error>) {
+        match self {
+            ResponseHandler::Chan(..) => self.invoke(result),
+            ResponseHandler::Callback(f) => {
+                thread::spawn(move || f.call(result));
+            }
+        }
+    }
 }
 
 #[derive(Debug, PartialEq, Eq)]
@@ -190,16 +202,23 @@ struct Timer {
     token: usize,
 }
 
+/// The requests that have not been answered yet.
+#[derive(Default)]
+struct Pending {
+    handlers: BTreeMap<usize, ResponseHandler>,
+    /// Set once nothing will be read from the peer anymore.
+    closed: bool,
+}
+
 struct RpcState<W: Write> {
     rx_queue: Mutex<VecDeque<Result<RpcObject, ReadError>>>,
     rx_cvar: Condvar,
     writer: Mutex<W>,
     id: AtomicUsize,
-    pending: Mutex<BTreeMap<usize, ResponseHandler>>,
+    pending: Mutex<Pending>,
     idle_queue: Mutex<VecDeque<usize>>,
     timers: Mutex<BinaryHeap<Timer>>,
     needs_exit: AtomicBool,
-    is_blocked: AtomicBool,
 }
 
 /// A structure holding the state of a main loop for handling RPC's.
@@ -217,11 +236,10 @@ impl<W: Write + Send> RpcLoop<W> {
             rx_cvar: Condvar::new(),
             writer: Mutex::new(writer),
             id: AtomicUsize::new(0),
-            pending: Mutex::new(BTreeMap::new()),
+            pending: Mutex::new(Pending::default()),
             idle_queue: Mutex::new(VecDeque::new()),
             timers: Mutex::new(BinaryHeap::new()),
             needs_exit: AtomicBool::new(false),
-            is_blocked: AtomicBool::new(false),
         }));
         RpcLoop { reader: MessageReader::default(), peer: rpc_peer }
     }
@@ -272,10 +290,8 @@ impl<W: Write + Send> RpcLoop<W> {
                     let json = match self.reader.next(&mut stream) {
                         Ok(json) => json,
                         Err(err) => {
-                            if self.peer.0.is_blocked.load(Ordering::Acquire) {
-                                error!("failed to parse response json: {}", err);
-                                self.peer.disconnect();
-                            }
+                            // there will be no more responses
+                            self.peer.disconnect();
                             self.peer.put_rx(Err(err));
                             break;
                         }
@@ -436,7 +452,6 @@ impl<W: Write + Send + 'static> Peer for RawPeer<W> {
 
     fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
         let _trace = trace_block_payload("send req sync", &["rpc"], method.to_owned());
-        self.0.is_blocked.store(true, Ordering::Release);
         let (tx, rx) = mpsc::channel();
         self.send_rpc_request_common(method, params, ResponseHandler::Chan(tx));
         rx.recv().unwrap_or(Err(Error::PeerDisconnect))
@@ -480,16 +495,21 @@ impl<W: Write> RawPeer<W> {
         let id = self.0.id.fetch_add(1, Ordering::Relaxed);
         {
             let mut pending = self.0.pending.lock().unwrap();
-            pending.insert(id, rh);
+            if pending.closed {
+                drop(pending);
+                rh.invoke_elsewhere(Err(Error::PeerDisconnect));
+                return;
+            }
+            pending.handlers.insert(id, rh);
         }
         if let Err(e) = self.send(&json!({
             "id": id,
             "method": method,
             "params": params,
         })) {
-            let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.remove(&id) {
-                rh.invoke(Err(Error::Io(e)));
+            let rh = self.0.pending.lock().unwrap().handlers.remove(&id);
+            if let Some(rh) = rh {
+                rh.invoke_elsewhere(Err(Error::Io(e)));
             }
         }
     }
@@ -498,7 +518,7 @@ impl<W: Write> RawPeer<W> {
         let id = id as usize;
         let handler = {
             let mut pending = self.0.pending.lock().unwrap();
-            pending.remove(&id)
+            pending.handlers.remove(&id)
         };
         match handler {
             Some(responsehandler) => responsehandler.invoke(resp),
@@ -552,12 +572,15 @@ impl<W: Write> RawPeer<W> {
         Some(Ok(timers.pop().unwrap().token))
     }
 
-    /// send disconnect error to pending requests.
+    /// send disconnect error to pending requests, and to those made from now on.
     fn disconnect(&self) {
-        let mut pending = self.0.pending.lock().unwrap();
-        let ids = pending.keys().cloned().collect::<Vec<_>>();
-        for id in &ids {
-            let callback = pending.remove(id).unwrap();
+        let handlers = {
+            let mut pending = self.0.pending.lock().unwrap();
+            pending.closed = true;
+            mem::take(&mut pending.handlers)
+        };
+        // the lock must not be held here, a callback can make requests and take other locks
+        for (_, callback) in handlers {
             callback.invoke(Err(Error::PeerDisconnect));
         }
         self.0.needs_exit.store(true, Ordering::Relaxed);
@@ -569,6 +592,7 @@ impl<W: Write> RawPeer<W> {
     }
 
     fn reset_needs_exit(&self) {
+        self.0.pending.lock().unwrap().closed = false;
         self.0.needs_exit.store(false, Ordering::SeqCst);
     }
 }
-- 
2.43.0


From d577282edfcf1aecb56b923ac998e98eb1f723bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 37/86] fix: what was left of a connection ended the next one
 on the same loop

---
 rust/rpc/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 266c8ac..af0b0e3 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -274,7 +274,7 @@ impl<W: Write + Send> RpcLoop<W> {
     {
         let exit = crossbeam_utils::thread::scope(|scope| {
             let peer = self.get_raw_peer();
-            peer.reset_needs_exit();
+            peer.reset();
 
             let ctx = RpcCtx { peer: Box::new(peer.clone()) };
             scope.spawn(move |_| {
@@ -591,7 +591,10 @@ impl<W: Write> RawPeer<W> {
         self.0.needs_exit.load(Ordering::Relaxed)
     }
 
-    fn reset_needs_exit(&self) {
+    /// Prepares for a new connection.
+    fn reset(&self) {
+        // what the reader of the previous connection still read
+        self.0.rx_queue.lock().unwrap().clear();
         self.0.pending.lock().unwrap().closed = false;
         self.0.needs_exit.store(false, Ordering::SeqCst);
     }
-- 
2.43.0


From ac2261cd56380544691fa9cffccba419eceefdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 38/86] fix: a plugin's answer to an undo became part of the
 undone step

---
 rust/core-lib/src/editor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 18dac33..f91caee 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -141,7 +141,8 @@ impl Editor {
     }
 
     pub(crate) fn get_active_undo_group(&self) -> usize {
-        *self.live_undos.last().unwrap_or(&0)
+        // groups that are undone are not active
+        *self.live_undos[..self.cur_undo].last().unwrap_or(&0)
     }
 
     pub(crate) fn update_edit_type(&mut self) {
-- 
2.43.0


From 850f36f013afe003dec2f7fc79bd455595a1109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 39/86] fix: refused plugin edits discarded redo and added an
 empty undo step

---
 rust/core-lib/src/editor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index f91caee..cd25ee0 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -235,6 +235,12 @@ impl Editor {
         let _t = trace_block("Editor::apply_plugin_edit", &["core"]);
         //TODO: get priority working, so that plugin edits don't necessarily move cursor
         let PluginEdit { rev, delta, priority, undo_group, .. } = edit;
+        // an edit that can't be applied must not affect the undo history
+        match self.get_rev(rev) {
+            Some(ref text) if text.len() == delta.base_len => (),
+            Some(_) => return error!("Error applying plugin edit: malformed delta"),
+            None => return error!("Error applying plugin edit: no revision {}", rev),
+        }
         let priority = priority as usize;
         let undo_group = undo_group.unwrap_or_else(|| self.calculate_undo_group());
         match self.engine.try_edit_rev(priority, undo_group, rev, delta) {
-- 
2.43.0


From 19edfe2624d14d8006b3346c7d232923a700ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 40/86] fix: line_count and get_selections requests of plugins
 were never understood

---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/plugins/rpc.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index d7fde89..2c736ff 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -260,11 +260,11 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_plugin_cmd_sync(&mut self, _plugin: PluginId, cmd: PluginRequest) -> Value {
         use self::PluginRequest::*;
         match cmd {
-            LineCount => json!(self.editor.borrow().plugin_n_lines()),
+            LineCount {} => json!(self.editor.borrow().plugin_n_lines()),
             GetData { start, unit, max_size, rev } => {
                 json!(self.editor.borrow().plugin_get_data(start, unit, max_size, rev))
             }
-            GetSelections => json!("not implemented"),
+            GetSelections {} => json!("not implemented"),
         }
     }
 
diff --git a/rust/core-lib/src/plugins/rpc.rs b/rust/core-lib/src/plugins/rpc.rs
index 1cd163e..f8fedd0 100644
--- a/rust/core-lib/src/plugins/rpc.rs
+++ b/rust/core-lib/src/plugins/rpc.rs
@@ -178,8 +178,8 @@ pub enum TextUnit {
 /// RPC requests sent from plugins.
 pub enum PluginRequest {
     GetData { start: usize, unit: TextUnit, max_size: usize, rev: u64 },
-    LineCount,
-    GetSelections,
+    LineCount {},
+    GetSelections {},
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
-- 
2.43.0


From 88c6c7781cc4649ba4399dc805cc2bcefca5c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 41/86] fix: a change made to a file while it was being read
 went unnoticed

The modification time remembered for an open file was taken after its
contents were read: a change in between belonged to the new time, but not
to the buffer.
---
 rust/core-lib/src/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 2467780..f769c1a 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -183,13 +183,15 @@ where
     let mut f =
         File::open(path.as_ref()).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
     let mut bytes = Vec::new();
+    // taken before reading, so that a change made meanwhile is noticed later
+    let mod_time = f.metadata().and_then(|meta| meta.modified()).ok();
     f.read_to_end(&mut bytes).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
 
     let encoding = CharacterEncoding::guess(&bytes);
     let rope = try_decode(bytes, encoding, path.as_ref())?;
     let info = FileInfo {
         encoding,
-        mod_time: get_mod_time(&path),
+        mod_time,
         #[cfg(target_family = "unix")]
         permissions: get_permissions(&path),
         path: path.as_ref().to_owned(),
-- 
2.43.0


From fd03bfe0f84761fa43f733d1f9d6df81d4539c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 42/86] fix: saving a file under another name dropped its byte
 order mark

A file that begins with a byte order mark kept it when saved in place, but
save_new always wrote plain UTF-8, and made that the encoding of the buffer.
---
 rust/core-lib/src/file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index f769c1a..514b482 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -138,10 +138,11 @@ impl FileManager {
     }
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
-        try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
+        let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
+        try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
-            encoding: CharacterEncoding::Utf8,
+            encoding,
             path: path.to_owned(),
             mod_time: get_mod_time(path),
             has_changed: false,
-- 
2.43.0


From 986fd97a9b63f6d6ffa5e1a5a51841220bcc3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 43/86] fix: saving overwrote an unrelated file named like the
 temporary one

Saving 'notes.txt' truncated an existing 'notes.txt.swp', whatever it was, and
renamed it away. The temporary file is now always a new one, and is removed
again when the save fails.
---
 rust/core-lib/src/file.rs | 62 ++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 514b482..ef29c40 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -17,7 +17,7 @@
 use std::collections::HashMap;
 use std::ffi::OsString;
 use std::fmt;
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 use std::str;
@@ -208,28 +208,14 @@ fn try_save(
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<()> {
-    let tmp_extension = path.extension().map_or_else(
-        || OsString::from("swp"),
-        |ext| {
-            let mut ext = ext.to_os_string();
-            ext.push(".swp");
-            ext
-        },
-    );
-    let tmp_path = &path.with_extension(tmp_extension);
-
-    let mut f = File::create(tmp_path)?;
-    match encoding {
-        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
-        CharacterEncoding::Utf8 => (),
+    let (tmp_path, mut f) = create_temp_file(path)?;
+    let written =
+        write_text(&mut f, text, encoding).and_then(|()| fs::rename(&tmp_path, path));
+    if let Err(e) = written {
+        let _ = fs::remove_file(&tmp_path);
+        return Err(e);
     }
 
-    for chunk in text.iter_chunks(..text.len()) {
-        f.write_all(chunk.as_bytes())?;
-    }
-
-    fs::rename(tmp_path, path)?;
-
     #[cfg(target_family = "unix")]
     {
         if let Some(info) = file_info {
@@ -243,6 +229,40 @@ fn try_save(
     Ok(())
 }
 
+/// Creates the file that is to become `path`, beside it. Nothing that exists
+/// is touched.
+fn create_temp_file(path: &Path) -> io::Result<(PathBuf, File)> {
+    let mut attempt = 0;
+    loop {
+        let mut extension = path.extension().map_or_else(OsString::new, |ext| {
+            let mut ext = ext.to_os_string();
+            ext.push(".");
+            ext
+        });
+        extension.push("swp");
+        if attempt > 0 {
+            extension.push(attempt.to_string());
+        }
+        let tmp_path = path.with_extension(extension);
+        match OpenOptions::new().write(true).create_new(true).open(&tmp_path) {
+            Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
+            result => return result.map(|f| (tmp_path, f)),
+        }
+    }
+}
+
+fn write_text(f: &mut File, text: &Rope, encoding: CharacterEncoding) -> io::Result<()> {
+    match encoding {
+        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
+        CharacterEncoding::Utf8 => (),
+    }
+
+    for chunk in text.iter_chunks(..text.len()) {
+        f.write_all(chunk.as_bytes())?;
+    }
+    Ok(())
+}
+
 fn try_decode(bytes: Vec<u8>, encoding: CharacterEncoding, path: &Path) -> Result<Rope, FileError> {
     match encoding {
         CharacterEncoding::Utf8 => Ok(Rope::from(
-- 
2.43.0


From fae58ff3deb3bd95f3dd58aab1bc8c37aca57292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 44/86] fix: a crash of the system after a save could lose the
 old and the new text

The renaming of the temporary file could reach the disk before its contents.
---
 rust/core-lib/src/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index ef29c40..df16b94 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -260,7 +260,8 @@ fn write_text(f: &mut File, text: &Rope, encoding: CharacterEncoding) -> io::Res
     for chunk in text.iter_chunks(..text.len()) {
         f.write_all(chunk.as_bytes())?;
     }
-    Ok(())
+    // what replaces the old contents has to be safe on disk before it does so
+    f.sync_all()
 }
 
 fn try_decode(bytes: Vec<u8>, encoding: CharacterEncoding, path: &Path) -> Result<Rope, FileError> {
-- 
2.43.0


From e2755809360aa615182768b9dda97ddc0b2b1744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 45/86] fix: a private file was readable by everybody for a
 moment during a save

The permissions were set only after the new contents were in place, and after
a crash in between they stayed wrong.
---
 rust/core-lib/src/file.rs | 49 ++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index df16b94..87c73d8 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -33,7 +33,10 @@ use crate::tabs::OPEN_FILE_EVENT_TOKEN;
 #[cfg(feature = "notify")]
 use crate::watcher::FileWatcher;
 #[cfg(target_family = "unix")]
-use std::{fs::Permissions, os::unix::fs::PermissionsExt};
+use std::{
+    fs::Permissions,
+    os::unix::fs::{OpenOptionsExt, PermissionsExt},
+};
 
 const UTF8_BOM: &str = "\u{feff}";
 
@@ -208,30 +211,44 @@ fn try_save(
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<()> {
-    let (tmp_path, mut f) = create_temp_file(path)?;
-    let written =
-        write_text(&mut f, text, encoding).and_then(|()| fs::rename(&tmp_path, path));
+    let (tmp_path, mut f) = create_temp_file(path, file_info.is_some())?;
+    let written = write_text(&mut f, text, encoding).and_then(|()| {
+        #[cfg(target_family = "unix")]
+        {
+            if let Some(info) = file_info {
+                f.set_permissions(Permissions::from_mode(info.permissions.unwrap_or(0o644)))
+                    .unwrap_or_else(|e| {
+                        warn!(
+                            "Couldn't set permissions on file {} due to error {}",
+                            path.display(),
+                            e
+                        )
+                    });
+            }
+        }
+        fs::rename(&tmp_path, path)
+    });
     if let Err(e) = written {
         let _ = fs::remove_file(&tmp_path);
         return Err(e);
     }
 
+    Ok(())
+}
+
+/// Creates the file that is to become `path`, beside it. Nothing that exists
+/// is touched. With `private`, only the user can read it until its permissions
+/// are set.
+fn create_temp_file(path: &Path, private: bool) -> io::Result<(PathBuf, File)> {
+    let mut options = OpenOptions::new();
+    options.write(true).create_new(true);
     #[cfg(target_family = "unix")]
     {
-        if let Some(info) = file_info {
-            fs::set_permissions(path, Permissions::from_mode(info.permissions.unwrap_or(0o644)))
-                .unwrap_or_else(|e| {
-                    warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
-                });
+        if private {
+            options.mode(0o600);
         }
     }
 
-    Ok(())
-}
-
-/// Creates the file that is to become `path`, beside it. Nothing that exists
-/// is touched.
-fn create_temp_file(path: &Path) -> io::Result<(PathBuf, File)> {
     let mut attempt = 0;
     loop {
         let mut extension = path.extension().map_or_else(OsString::new, |ext| {
@@ -244,7 +261,7 @@ fn create_temp_file(path: &Path) -> io::Result<(PathBuf, File)> {
             extension.push(attempt.to_string());
         }
         let tmp_path = path.with_extension(extension);
-        match OpenOptions::new().write(true).create_new(true).open(&tmp_path) {
+        match options.open(&tmp_path) {
             Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
             result => return result.map(|f| (tmp_path, f)),
         }
-- 
2.43.0


From e4c38dfb1b53782e825f817f7f6538a4ab8a4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 46/86] fix: a change made to a file right after a save went
 unnoticed

The modification time remembered after a save was taken from the path, where
another program may already have put something else.
---
 rust/core-lib/src/file.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 87c73d8..1ee68cc 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -142,12 +142,12 @@ impl FileManager {
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
         let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
-        try_save(path, text, encoding, self.get_info(id))
+        let mod_time = try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
             encoding,
             path: path.to_owned(),
-            mod_time: get_mod_time(path),
+            mod_time,
             has_changed: false,
             #[cfg(target_family = "unix")]
             permissions: get_permissions(path),
@@ -170,9 +170,9 @@ impl FileManager {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
-            try_save(path, text, encoding, self.get_info(id))
+            let mod_time = try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
-            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);
+            self.file_info.get_mut(&id).unwrap().mod_time = mod_time;
         }
         Ok(())
     }
@@ -204,13 +204,15 @@ where
     Ok((rope, info))
 }
 
+/// Replaces the contents of the file at `path`, and returns the modification time
+/// of the new contents.
 #[allow(unused)]
 fn try_save(
     path: &Path,
     text: &Rope,
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
-) -> io::Result<()> {
+) -> io::Result<Option<SystemTime>> {
     let (tmp_path, mut f) = create_temp_file(path, file_info.is_some())?;
     let written = write_text(&mut f, text, encoding).and_then(|()| {
         #[cfg(target_family = "unix")]
@@ -226,14 +228,15 @@ fn try_save(
                     });
             }
         }
-        fs::rename(&tmp_path, path)
+        // taken before anybody else can change the file
+        let mod_time = f.metadata().and_then(|meta| meta.modified()).ok();
+        fs::rename(&tmp_path, path).map(|()| mod_time)
     });
-    if let Err(e) = written {
+    if written.is_err() {
         let _ = fs::remove_file(&tmp_path);
-        return Err(e);
     }
 
-    Ok(())
+    written
 }
 
 /// Creates the file that is to become `path`, beside it. Nothing that exists
-- 
2.43.0


From 91b25d1832e0db683abf88bd9310f41372132ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 47/86] fix: a save overwrote changes of another program that
 had not been reported yet

Changes were noticed only through events of the file watcher, which arrive
late, or never: the watch is lost when the file is replaced.
---
 rust/core-lib/src/file.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 1ee68cc..21c07e0 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -166,13 +166,15 @@ impl FileManager {
             self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
-        } else if self.file_info[&id].has_changed {
+        } else if path.exists() && self.check_file(path, id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
             let mod_time = try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
-            self.file_info.get_mut(&id).unwrap().mod_time = mod_time;
+            let info = self.file_info.get_mut(&id).unwrap();
+            info.mod_time = mod_time;
+            info.has_changed = false;
         }
         Ok(())
     }
@@ -310,7 +312,7 @@ impl CharacterEncoding {
 /// Returns the modification timestamp for the file at a given path,
 /// if present.
 fn get_mod_time<P: AsRef<Path>>(path: P) -> Option<SystemTime> {
-    File::open(path).and_then(|f| f.metadata()).and_then(|meta| meta.modified()).ok()
+    fs::metadata(path).and_then(|meta| meta.modified()).ok()
 }
 
 /// Returns the file permissions for the file at a given path on UNIXy systems,
-- 
2.43.0


From 9f4e5682da3d1f4dd38bf726c86e6ce535b0133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 48/86] fix: saving through a symbolic link replaced the link
 by a file

---
 rust/core-lib/src/file.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 21c07e0..54b63cd 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -215,6 +215,9 @@ fn try_save(
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<Option<SystemTime>> {
+    // a symbolic link stays one: what it points to is replaced
+    let path = &fs::canonicalize(path).unwrap_or_else(|_| path.to_owned());
+
     let (tmp_path, mut f) = create_temp_file(path, file_info.is_some())?;
     let written = write_text(&mut f, text, encoding).and_then(|()| {
         #[cfg(target_family = "unix")]
-- 
2.43.0


From bc4923c42acfdd96c6a6e42dc150ffc709fff284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 49/86] fix: a file replaced by another program was no longer
 followed

The watch ends with the file it was made for, be it replaced by another program
or by our own save, and the event that tells so was ignored: later changes went
unnoticed and were overwritten. A file that is gone by the time an event is
handled no longer empties the buffer.
---
 rust/core-lib/src/file.rs    |  8 ++++++++
 rust/core-lib/src/tabs.rs    | 11 +++++++++++
 rust/core-lib/src/watcher.rs | 17 +++++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 54b63cd..9941ff6 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -170,11 +170,19 @@ impl FileManager {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
+            #[cfg(feature = "notify")]
+            let was_gone = !path.exists();
             let mod_time = try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
             let info = self.file_info.get_mut(&id).unwrap();
             info.mod_time = mod_time;
             info.has_changed = false;
+            #[cfg(feature = "notify")]
+            {
+                if was_gone {
+                    self.watcher.rewatch(path);
+                }
+            }
         }
         Ok(())
     }
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85bed50..b2bf6b6 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -709,6 +709,12 @@ impl CoreState {
             EventKind::Create(CreateKind::Any)
             | EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Modify(ModifyKind::Any) => &event.paths[0],
+            // the file that was watched is gone; if there is another one in
+            // its place, that is the one to watch from now on
+            EventKind::Remove(RemoveKind::Any) => {
+                self.file_manager.watcher().rewatch(&event.paths[0]);
+                &event.paths[0]
+            }
             other => {
                 debug!("Ignoring event in open file {:?}", other);
                 return;
@@ -720,6 +726,11 @@ impl CoreState {
             None => return,
         };
 
+        // there is nothing to reload (the file may also be about to be replaced)
+        if !path.exists() {
+            return;
+        }
+
         let has_changes = self.file_manager.check_file(path, buffer_id);
         let is_pristine = self.editors.get(&buffer_id).map(|ed| ed.borrow().is_pristine()).unwrap();
         //TODO: currently we only use the file's modification time when
diff --git a/rust/core-lib/src/watcher.rs b/rust/core-lib/src/watcher.rs
index d138a59..d90840c 100644
--- a/rust/core-lib/src/watcher.rs
+++ b/rust/core-lib/src/watcher.rs
@@ -213,6 +213,23 @@ impl FileWatcher {
         }
     }
 
+    /// Starts watching again whatever is now at `path`, for everybody who
+    /// watches this path. To be used when what was there has been removed or
+    /// replaced, since this ends the original watch.
+    pub fn rewatch(&mut self, path: &Path) {
+        let state = self.state.lock().unwrap();
+        let recursive = match state.watchees.iter().find(|w| w.path == path) {
+            Some(w) => w.recursive,
+            None => return,
+        };
+        let _ = self.inner.unwatch(path);
+        if path.exists() {
+            if let Err(e) = self.inner.watch(path, mode_from_bool(recursive)) {
+                warn!("watching error {:?}", e);
+            }
+        }
+    }
+
     /// Takes ownership of this `Watcher`'s current event queue.
     pub fn take_events(&mut self) -> VecDeque<(WatchToken, Event)> {
         let mut state = self.state.lock().unwrap();
-- 
2.43.0


From b4c3debfeb3c56da8b079c958d103044f649a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 50/86] fix: a scope stack was shown without style unless its
 parents were registered before

---
 rust/core-lib/src/layers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index eda38e1..3beb0ab 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -236,11 +236,11 @@ impl ScopeLayer {
 
         for stack in stacks {
             let mut last_style: Option<StyleModifier> = None;
-            let mut upper_bound_of_last = stack.len() as usize;
+            let mut upper_bound_of_last = 0;
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-            for i in 0..stack.len() - 1 {
+            for i in 0..stack.len().saturating_sub(1) {
                 let prev_range = 0..stack.len() - (i + 1);
                 if let Some(s) = self.style_cache.get(&stack[prev_range]) {
                     last_style = Some(*s);
-- 
2.43.0


From 79609f39432f39d3a6aa302119a32f1c6b1540bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 51/86] fix: after a change of the theme scopes kept attributes
 of the old theme

---
 rust/core-lib/src/layers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 3beb0ab..bbd42e9 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -192,6 +192,7 @@ impl ScopeLayer {
 
     fn theme_changed(&mut self, style_map: &ThemeStyleMap) {
         // recompute styles with the new theme
+        self.style_cache.clear();
         let cur_stacks = self.stack_lookup.clone();
         self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);
         let iv_all = Interval::new(0, self.style_spans.len());
-- 
2.43.0


From 4da069257a664dfacb54f89edfec32a4a7e7a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 52/86] fix: styles were resolved again at the wrong place
 after an edit

---
 rust/core-lib/src/layers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index bbd42e9..f77caf5 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -81,8 +81,9 @@ impl Layers {
         for layer in self.layers.values_mut() {
             layer.blank_scopes(delta);
         }
-        let (iv, _len) = delta.summary();
-        self.resolve_styles(iv);
+        // the part that was replaced, in the new text
+        let (iv, new_len) = delta.summary();
+        self.resolve_styles(Interval::new(iv.start(), iv.start() + new_len));
     }
 
     /// Updates the scope spans for a given layer.
-- 
2.43.0


From 12a36663b08fba560cc3fd52c0a42696aadf8a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 53/86] fix: annotations of plugins were misplaced after edits,
 and when they did not begin at the start of the text

---
 rust/core-lib/src/annotations.rs | 34 ++++++++++++++++++++++++++------
 rust/core-lib/src/editor.rs      |  3 ++-
 rust/core-lib/src/view.rs        |  6 ++++--
 rust/rope/src/spans.rs           |  6 +++---
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5143d52..5aab94c 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -23,7 +23,7 @@ use std::collections::HashMap;
 use crate::line_offset::LineOffset;
 use crate::plugins::PluginId;
 use crate::view::View;
-use crate::xi_rope::spans::Spans;
+use crate::xi_rope::spans::{Spans, SpansBuilder};
 use crate::xi_rope::{Interval, Rope};
 
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
@@ -97,9 +97,15 @@ impl Annotations {
         self.items.edit(interval, items);
     }
 
-    /// Remove annotations intersecting `interval`.
-    pub fn invalidate(&mut self, interval: Interval) {
+    /// Remove annotations intersecting `interval` or coming after it; the
+    /// interval has been replaced by text of length `new_len`.
+    pub fn invalidate(&mut self, interval: Interval, new_len: usize) {
         self.items.delete_after(interval);
+        let mut sb = SpansBuilder::new(self.items.len() - interval.size() + new_len);
+        for (iv, data) in self.items.iter() {
+            sb.add_span(iv, data.clone());
+        }
+        self.items = sb.build();
     }
 }
 
@@ -150,13 +156,29 @@ impl AnnotationStore {
         AnnotationStore { store: HashMap::new() }
     }
 
-    /// Invalidates and removes all annotations in the range of the interval.
-    pub fn invalidate(&mut self, interval: Interval) {
+    /// Invalidates and removes all annotations in the range of the interval,
+    /// which has been replaced by text of length `new_len`, and after it.
+    pub fn invalidate(&mut self, interval: Interval, new_len: usize) {
         self.store
             .values_mut()
             .map(|v| v.iter_mut())
             .flatten()
-            .for_each(|a| a.invalidate(interval));
+            .for_each(|a| a.invalidate(interval, new_len));
+    }
+
+    /// Makes sure that there is a set of annotations, over a text of the given
+    /// length, for an update to be applied to.
+    pub fn ensure_exists(
+        &mut self,
+        source: PluginId,
+        annotation_type: &AnnotationType,
+        text_len: usize,
+    ) {
+        let entry = self.store.entry(source).or_insert_with(Vec::new);
+        if !entry.iter().any(|a| a.annotation_type == *annotation_type) {
+            let items = SpansBuilder::new(text_len).build();
+            entry.push(Annotations { items, annotation_type: annotation_type.clone() });
+        }
     }
 
     /// Applies an update from a plugin to a set of annotations
diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index cd25ee0..ba97d55 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -671,7 +671,8 @@ impl Editor {
             }
         }
         let iv = Interval::new(start, end_offset);
-        view.update_annotations(plugin, iv, Annotations { items: spans, annotation_type });
+        let annotations = Annotations { items: spans, annotation_type };
+        view.update_annotations(&self.text, plugin, iv, annotations);
     }
 
     pub(crate) fn get_rev(&self, rev: RevToken) -> Option<Cow<Rope>> {
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index cdc4736..271cf51 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -437,10 +437,12 @@ impl View {
 
     pub fn update_annotations(
         &mut self,
+        text: &Rope,
         plugin: PluginId,
         interval: Interval,
         annotations: Annotations,
     ) {
+        self.annotations.ensure_exists(plugin, &annotations.annotation_type, text.len());
         self.annotations.update(plugin, interval, annotations)
     }
 
@@ -1006,8 +1008,8 @@ impl View {
         self.drag_state = None;
 
         // all annotations that come after the edit need to be invalidated
-        let (iv, _) = delta.summary();
-        self.annotations.invalidate(iv);
+        let (iv, new_len) = delta.summary();
+        self.annotations.invalidate(iv, new_len);
 
         // update only find highlights affected by change
         for find in &mut self.find {
diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index be42007..64fbbc0 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -313,9 +313,9 @@ impl<T: Clone> Spans<T> {
         let mut builder = SpansBuilder::new(self.len());
 
         for (iv, data) in self.iter() {
-            // check if spans overlaps with interval
-            if iv.intersect(interval).is_empty() {
-                // keep the ones that are not overlapping
+            // check if the span ends before the interval
+            if iv.end() <= interval.start() {
+                // keep the ones that are not affected
                 builder.add_span(iv, data.clone());
             } else {
                 // all remaining spans are invalid
-- 
2.43.0


From 21f70744e52c37a4eb78e86c251d57e7bbe62396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 54/86] fix: annotations of a plugin stayed after it stopped

---
 rust/core-lib/src/annotations.rs   | 7 ++++---
 rust/core-lib/src/event_context.rs | 3 ++-
 rust/core-lib/src/view.rs          | 5 +++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5aab94c..3d371b0 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -237,9 +237,10 @@ impl AnnotationStore {
         })
     }
 
-    /// Removes any annotations provided by this plugin
-    pub fn clear(&mut self, plugin: PluginId) {
-        self.store.remove(&plugin);
+    /// Removes any annotations provided by this plugin; returns `true` if
+    /// it had provided any.
+    pub fn clear(&mut self, plugin: PluginId) -> bool {
+        self.store.remove(&plugin).is_some()
     }
 }
 
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 2c736ff..fb8eb3c 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -509,11 +509,12 @@ impl<'a> EventContext<'a> {
     pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin) {
         self.client.plugin_stopped(self.view_id, &plugin.name, 0);
         let needs_render = self.with_editor(|ed, view, _, _| {
+            let had_annotations = view.clear_annotations(plugin.id);
             if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                 view.set_dirty(ed.get_buffer());
                 true
             } else {
-                false
+                had_annotations
             }
         });
         if needs_render {
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 271cf51..7452078 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -446,6 +446,11 @@ impl View {
         self.annotations.update(plugin, interval, annotations)
     }
 
+    /// Removes all annotations of a plugin. Returns `true` if there may have been any.
+    pub fn clear_annotations(&mut self, plugin: PluginId) -> bool {
+        self.annotations.clear(plugin)
+    }
+
     /// Select entire buffer.
     ///
     /// Note: unlike movement based selection, this does not scroll.
-- 
2.43.0


From 34f97287dc40bed8a549cd768f682b606a49c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 55/86] fix: messages of a stopped plugin were still carried
 out

---
 rust/core-lib/src/tabs.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index b2bf6b6..9aa84ea 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -965,6 +965,10 @@ impl CoreState {
         }
     }
 
+    fn is_running(&self, plugin_id: PluginId) -> bool {
+        self.running_plugins.iter().any(|plugin| plugin.id == plugin_id)
+    }
+
     pub(crate) fn plugin_notification(
         &mut self,
         _ctx: &RpcCtx,
@@ -972,6 +976,11 @@ impl CoreState {
         plugin_id: PluginId,
         cmd: PluginNotification,
     ) {
+        // messages of a plugin which has been stopped can still arrive
+        if !self.is_running(plugin_id) {
+            warn!("message from plugin {:?}, which is not running: {:?}", plugin_id, cmd);
+            return;
+        }
         if let Some(mut edit_ctx) = self.make_context(view_id) {
             edit_ctx.do_plugin_cmd(plugin_id, cmd)
         }
@@ -984,6 +993,9 @@ impl CoreState {
         plugin_id: PluginId,
         cmd: PluginRequest,
     ) -> Result<Value, RemoteError> {
+        if !self.is_running(plugin_id) {
+            return Err(RemoteError::custom(404, "plugin is not running", None));
+        }
         if let Some(mut edit_ctx) = self.make_context(view_id) {
             Ok(edit_ctx.do_plugin_cmd_sync(plugin_id, cmd))
         } else {
-- 
2.43.0


From cef371c81a2b6c4506e8a0f3c0d3aabcdda2fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 56/86] fix: an insertion at the end of a region was not taken
 into account when what a plugin said of it was updated

---
 rust/rope/src/delta.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/delta.rs b/rust/rope/src/delta.rs
index 21c67ff..04b0045 100644
--- a/rust/rope/src/delta.rs
+++ b/rust/rope/src/delta.rs
@@ -542,13 +542,20 @@ impl<'a, N: NodeInfo + 'a> Transformer<'a, N> {
     }
 
     /// Determine whether a given interval is untouched by the transformation.
+    /// An insertion at either end of the interval touches it.
     pub fn interval_untouched<T: IntervalBounds>(&mut self, iv: T) -> bool {
         let iv = iv.into_interval(self.delta.base_len);
         let mut last_was_ins = true;
-        for el in &self.delta.els {
+        let mut els = self.delta.els.iter().peekable();
+        while let Some(el) = els.next() {
             match *el {
                 DeltaElement::Copy(beg, end) => {
                     if iv.is_before(end) {
+                        if let Some(DeltaElement::Insert(_)) = els.peek() {
+                            if iv.end() == end {
+                                return false;
+                            }
+                        }
                         if last_was_ins {
                             if iv.is_after(beg) {
                                 return true;
-- 
2.43.0


From 1d91960f870d7e213d69033b4df4b484ce566081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 57/86] fix: saving to a path that does not end in a file name
 never ended

---
 rust/core-lib/src/file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 9941ff6..3971a5b 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -226,6 +226,10 @@ fn try_save(
     // a symbolic link stays one: what it points to is replaced
     let path = &fs::canonicalize(path).unwrap_or_else(|_| path.to_owned());
 
+    if path.file_name().is_none() {
+        return Err(io::Error::new(io::ErrorKind::InvalidInput, "not the path of a file"));
+    }
+
     let (tmp_path, mut f) = create_temp_file(path, file_info.is_some())?;
     let written = write_text(&mut f, text, encoding).and_then(|()| {
         #[cfg(target_family = "unix")]
-- 
2.43.0


From 9f436ce052d408337bfbe53a1144abe29f393466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 58/86] fix: Tab with tab stops more than 32 columns apart
 ended the core

---
 rust/core-lib/src/edit_ops.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 6fd767c..2191d8a 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -208,7 +208,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
         if line_range.len() > 1 {
             for line in line_range {
                 let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                edits.insert((offset, offset), const_tab_text);
+                edits.insert((offset, offset), const_tab_text.clone());
             }
         } else {
             let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
@@ -247,8 +247,8 @@ pub fn modify_indent(
         }
     }
     match direction {
-        IndentDirection::In => indent(base, lines, tab_text),
-        IndentDirection::Out => outdent(base, lines, tab_text),
+        IndentDirection::In => indent(base, lines, &tab_text),
+        IndentDirection::Out => outdent(base, lines, &tab_text),
     }
 }
 
@@ -436,15 +436,11 @@ fn last_selection_region(regions: &[SelRegion]) -> Option<&SelRegion> {
     None
 }
 
-fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> &'static str {
+fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> String {
     let tab_size = tab_size.unwrap_or(config.tab_size);
-    let tab_text = if config.translate_tabs_to_spaces { n_spaces(tab_size) } else { "\t" };
-
-    tab_text
-}
-
-fn n_spaces(n: usize) -> &'static str {
-    let spaces = "                                ";
-    assert!(n <= spaces.len());
-    &spaces[..n]
+    if config.translate_tabs_to_spaces {
+        " ".repeat(tab_size)
+    } else {
+        "\t".to_string()
+    }
 }
-- 
2.43.0


From 98ba4d1501258531be32a3bc86a34a6bfd357d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 59/86] fix: saving a trace ended the core when a plugin
 answered with something else

---
 rust/core-lib/src/tabs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 9aa84ea..19c4bc0 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -905,10 +905,10 @@ impl CoreState {
 
         for plugin in &self.running_plugins {
             match plugin.collect_trace() {
-                Ok(json) => {
-                    let mut trace = chrome_trace_dump::decode(json).unwrap();
-                    all_traces.append(&mut trace);
-                }
+                Ok(json) => match chrome_trace_dump::decode(json) {
+                    Ok(mut trace) => all_traces.append(&mut trace),
+                    Err(e) => error!("trace error {:?}", e),
+                },
                 Err(e) => error!("trace error {:?}", e),
             }
         }
-- 
2.43.0


From 54264d848e279b959f26d35f8c6e891dc2e8b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 60/86] fix: malformed updates and edits by a plugin ended the
 core

---
 rust/core-lib/src/editor.rs | 74 +++++++++++++++++++++++++++++++++++--
 rust/core-lib/src/layers.rs |  7 +++-
 2 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index ba97d55..b4937b7 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -22,7 +22,7 @@ use xi_rope::diff::{Diff, LineHashDiff};
 use xi_rope::engine::{Engine, RevId, RevToken};
 use xi_rope::rope::count_newlines;
 use xi_rope::spans::SpansBuilder;
-use xi_rope::{DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta, Transformer};
+use xi_rope::{DeltaBuilder, DeltaElement, Interval, LinesMetric, Rope, RopeDelta, Transformer};
 use xi_trace::{trace_block, trace_payload};
 
 use crate::annotations::{AnnotationType, Annotations};
@@ -237,7 +237,7 @@ impl Editor {
         let PluginEdit { rev, delta, priority, undo_group, .. } = edit;
         // an edit that can't be applied must not affect the undo history
         match self.get_rev(rev) {
-            Some(ref text) if text.len() == delta.base_len => (),
+            Some(ref text) if is_applicable(&delta, text) => (),
             Some(_) => return error!("Error applying plugin edit: malformed delta"),
             None => return error!("Error applying plugin edit: no revision {}", rev),
         }
@@ -602,6 +602,43 @@ impl Editor {
         self.text.measure::<LinesMetric>() + 1
     }
 
+    /// Checks what a plugin says about the region of length `len` at `start` in
+    /// revision `rev`: the revision must be known, region and spans must lie within
+    /// its text, without splitting a character, and the spans must be in order.
+    fn are_spans_valid(
+        &self,
+        start: usize,
+        len: usize,
+        spans: impl Iterator<Item = (usize, usize)>,
+        rev: RevToken,
+    ) -> bool {
+        let text = match self.get_rev(rev) {
+            Some(text) => text,
+            None => return false,
+        };
+        match start.checked_add(len) {
+            Some(end) if end <= text.len() => {
+                if !text.is_codepoint_boundary(start) || !text.is_codepoint_boundary(end) {
+                    return false;
+                }
+            }
+            _ => return false,
+        }
+        let mut last_start = 0;
+        for (span_start, span_end) in spans {
+            if span_start < last_start
+                || span_end < span_start
+                || span_end > len
+                || !text.is_codepoint_boundary(start + span_start)
+                || !text.is_codepoint_boundary(start + span_end)
+            {
+                return false;
+            }
+            last_start = span_start;
+        }
+        true
+    }
+
     pub fn update_spans(
         &mut self,
         view: &mut View,
@@ -612,7 +649,12 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_spans", &["core"]);
-        // TODO: more protection against invalid input
+        if !self.are_spans_valid(start, len, spans.iter().map(|span| (span.start, span.end)), rev) {
+            return error!("Error updating spans: malformed update by {}", plugin);
+        }
+        if spans.windows(2).any(|w| w[1].start < w[0].end) {
+            return error!("Error updating spans: overlapping spans by {}", plugin);
+        }
         let mut start = start;
         let mut end_offset = start + len;
         let mut sb = SpansBuilder::new(len);
@@ -650,6 +692,10 @@ impl Editor {
     ) {
         let _t = trace_block("Editor::update_annotations", &["core"]);
 
+        let ranges = annotation_spans.iter().map(|span| (span.start, span.end));
+        if !self.are_spans_valid(start, len, ranges, rev) {
+            return error!("Error updating annotations: malformed update by {}", plugin);
+        }
         let mut start = start;
         let mut end_offset = start + len;
         let mut sb = SpansBuilder::new(len);
@@ -718,6 +764,28 @@ impl Editor {
     }
 }
 
+/// Checks that `delta`, which comes from a plugin, can be applied to `text`.
+fn is_applicable(delta: &RopeDelta, text: &Rope) -> bool {
+    if delta.base_len != text.len() {
+        return false;
+    }
+    let mut last_end = 0;
+    for el in &delta.els {
+        if let DeltaElement::Copy(start, end) = *el {
+            if start < last_end
+                || end < start
+                || end > text.len()
+                || !text.is_codepoint_boundary(start)
+                || !text.is_codepoint_boundary(end)
+            {
+                return false;
+            }
+            last_end = end;
+        }
+    }
+    true
+}
+
 #[derive(PartialEq, Eq, Clone, Copy, Debug, Serialize, Deserialize)]
 #[serde(rename_all = "snake_case")]
 pub enum EditType {
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index f77caf5..00043c2 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -91,7 +91,12 @@ impl Layers {
         if self.create_if_missing(layer).is_err() {
             return;
         }
-        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);
+        let scope_layer = self.layers.get_mut(&layer).unwrap();
+        if spans.iter().any(|(_, id)| *id as usize >= scope_layer.stack_lookup.len()) {
+            error!("spans with unknown scopes from {}", layer);
+            return;
+        }
+        scope_layer.update_scopes(iv, &spans);
         self.resolve_styles(iv);
     }
 
-- 
2.43.0


From 48903cb073146a99188aa8d537d9cc6eef4e2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 61/86] fix: a change of the settings of a view that was just
 created made the client copy lines it did not have

---
 rust/core-lib/src/event_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index fb8eb3c..89ad0e7 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -395,7 +395,11 @@ impl<'a> EventContext<'a> {
         let wrap_width = self.config.wrap_width;
         let word_wrap = self.config.word_wrap;
 
-        self.with_view(|view, text| view.update_wrap_settings(text, wrap_width, word_wrap));
+        self.with_view(|view, text| {
+            view.update_wrap_settings(text, wrap_width, word_wrap);
+            // the client has nothing yet
+            view.set_dirty(text);
+        });
     }
 
     pub(crate) fn finish_init(&mut self, config: &Table) {
-- 
2.43.0


From 38353005fd59116fd8f55442385186948a42351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 62/86] fix: closing a view right after it was created ended
 the core

---
 rust/core-lib/src/tabs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 19c4bc0..4018b5f 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -432,6 +432,7 @@ impl CoreState {
         let close_buffer = self.make_context(view_id).map(|ctx| ctx.close_view()).unwrap_or(true);
 
         let buffer_id = self.views.remove(&view_id).map(|v| v.borrow().get_buffer_id());
+        self.pending_views.retain(|(pending, _)| *pending != view_id);
 
         if let Some(buffer_id) = buffer_id {
             if close_buffer {
-- 
2.43.0


From 154f50d0e182107f3b764f63c12dc6eff425263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 63/86] fix: plugins got messages about views they had not been
 told of, or were told of views twice

---
 rust/core-lib/src/tabs.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 4018b5f..72f5138 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -278,7 +278,13 @@ impl CoreState {
 
             let editor = &self.editors[&buffer_id];
             let info = self.file_manager.get_info(buffer_id);
-            let plugins = self.running_plugins.iter().collect::<Vec<_>>();
+            // plugins are told of a view when its setup is finished, and
+            // nothing about it before
+            let plugins = if self.is_pending(view_id) {
+                Vec::new()
+            } else {
+                self.running_plugins.iter().collect::<Vec<_>>()
+            };
             let config = self.config_manager.get_buffer_config(buffer_id);
             let language = self.config_manager.get_buffer_language(buffer_id);
 
@@ -302,6 +308,10 @@ impl CoreState {
         })
     }
 
+    fn is_pending(&self, view_id: ViewId) -> bool {
+        self.pending_views.iter().any(|(pending, _)| *pending == view_id)
+    }
+
     /// Produces an iterator over all event contexts, with each view appearing
     /// exactly once.
     fn iter_groups<'a>(&'a self) -> Iter<'a, Box<dyn Iterator<Item = &ViewId> + 'a>> {
@@ -936,8 +946,11 @@ impl CoreState {
     pub(crate) fn plugin_connect(&mut self, plugin: Result<Plugin, io::Error>) {
         match plugin {
             Ok(plugin) => {
-                let init_info =
-                    self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
+                let init_info = self
+                    .iter_groups()
+                    .filter(|ctx| !self.is_pending(ctx.view_id))
+                    .map(|mut ctx| ctx.plugin_info())
+                    .collect::<Vec<_>>();
                 plugin.initialize(init_info);
                 self.running_plugins.push(plugin);
             }
-- 
2.43.0


From f905c6cb13808ac22337cd9df67106359d38a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 64/86] fix: the client was not told of plugins that started
 after a view was opened

---
 rust/core-lib/src/tabs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 72f5138..89d6381 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -952,6 +952,9 @@ impl CoreState {
                     .map(|mut ctx| ctx.plugin_info())
                     .collect::<Vec<_>>();
                 plugin.initialize(init_info);
+                self.iter_groups()
+                    .filter(|ctx| !self.is_pending(ctx.view_id))
+                    .for_each(|ctx| ctx.plugin_started(&plugin));
                 self.running_plugins.push(plugin);
             }
             Err(e) => error!("failed to start plugin {:?}", e),
-- 
2.43.0


From da97fd29dd6cc5b8bb6444cf0b697236c19151be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 65/86] fix: the client was told that a plugin stopped for a
 view it never started for

---
 rust/core-lib/src/tabs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 89d6381..e20d13f 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -564,7 +564,9 @@ impl CoreState {
     }
 
     fn after_stop_plugin(&mut self, plugin: &Plugin) {
-        self.iter_groups().for_each(|mut cx| cx.plugin_stopped(plugin));
+        self.iter_groups()
+            .filter(|cx| !self.is_pending(cx.view_id))
+            .for_each(|mut cx| cx.plugin_stopped(plugin));
     }
 }
 
-- 
2.43.0


From 3adf988a3a14273fbcd3b33fb7126ddc7a127c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 66/86] fix: the client was told outdated settings of a view
 whose settings changed before it was set up

---
 rust/core-lib/src/tabs.rs | 50 ++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index e20d13f..57ccf76 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -118,7 +118,7 @@ pub struct CoreState {
     /// it can be passed to plugins.
     self_ref: Option<WeakXiCore>,
     /// Views which need to have setup finished.
-    pending_views: Vec<(ViewId, Table)>,
+    pending_views: Vec<ViewId>,
     peer: Client,
     id_counter: Counter,
     plugins: PluginCatalog,
@@ -309,7 +309,7 @@ impl CoreState {
     }
 
     fn is_pending(&self, view_id: ViewId) -> bool {
-        self.pending_views.iter().any(|(pending, _)| *pending == view_id)
+        self.pending_views.contains(&view_id)
     }
 
     /// Produces an iterator over all event contexts, with each view appearing
@@ -387,7 +387,7 @@ impl CoreState {
         self.editors.insert(buffer_id, editor);
         self.views.insert(view_id, view);
 
-        let config = self.config_manager.add_buffer(buffer_id, path.as_deref());
+        let _ = self.config_manager.add_buffer(buffer_id, path.as_deref());
 
         // NOTE: because this is a synchronous call, we have to initialize the
         // view and return the view_id before we can send any events to this
@@ -398,7 +398,7 @@ impl CoreState {
         let mut edit_ctx = self.make_context(view_id).unwrap();
         edit_ctx.view_init();
 
-        self.pending_views.push((view_id, config));
+        self.pending_views.push(view_id);
         self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN);
 
         Ok(json!(view_id))
@@ -442,7 +442,7 @@ impl CoreState {
         let close_buffer = self.make_context(view_id).map(|ctx| ctx.close_view()).unwrap_or(true);
 
         let buffer_id = self.views.remove(&view_id).map(|v| v.borrow().get_buffer_id());
-        self.pending_views.retain(|(pending, _)| *pending != view_id);
+        self.pending_views.retain(|pending| *pending != view_id);
 
         if let Some(buffer_id) = buffer_id {
             if close_buffer {
@@ -592,30 +592,34 @@ impl CoreState {
     fn finalize_new_views(&mut self) {
         let to_start = mem::replace(&mut self.pending_views, Vec::new());
 
-        to_start.iter().for_each(|(id, config)| {
-            let modified = self.detect_whitespace(*id, config);
-            let config = modified.as_ref().unwrap_or(config);
+        to_start.iter().for_each(|id| {
+            self.detect_whitespace(*id);
+            // this includes any changes since the view was created
+            let config = self.do_get_config(*id).expect("new view must have config");
             let mut edit_ctx = self.make_context(*id).unwrap();
             edit_ctx.finish_init(&config);
         });
     }
 
     // Detects whitespace settings from the file and merges them with the config
-    fn detect_whitespace(&mut self, id: ViewId, config: &Table) -> Option<Table> {
-        let buffer_id = self.views.get(&id).map(|v| v.borrow().get_buffer_id())?;
+    fn detect_whitespace(&mut self, id: ViewId) {
+        let buffer_id = match self.views.get(&id) {
+            Some(view) => view.borrow().get_buffer_id(),
+            None => return,
+        };
         let editor = self
             .editors
             .get(&buffer_id)
             .expect("existing buffer_id must have corresponding editor");
 
         if editor.borrow().get_buffer().is_empty() {
-            return None;
+            return;
         }
 
         let autodetect_whitespace =
             self.config_manager.get_buffer_config(buffer_id).items.autodetect_whitespace;
         if !autodetect_whitespace {
-            return None;
+            return;
         }
 
         let mut changes = Table::new();
@@ -646,29 +650,11 @@ impl CoreState {
 
         let config_delta =
             self.config_manager.table_for_update(ConfigDomain::SysOverride(buffer_id), changes);
-        match self
+        if let Err(err) = self
             .config_manager
             .set_user_config(ConfigDomain::SysOverride(buffer_id), config_delta)
         {
-            Ok(ref mut items) if !items.is_empty() => {
-                assert!(
-                    items.len() == 1,
-                    "whitespace overrides can only update a single buffer's config\n{:?}",
-                    items
-                );
-                let table = items.remove(0).1;
-                let mut config = config.clone();
-                config.extend(table);
-                Some(config)
-            }
-            Ok(_) => {
-                warn!("set_user_config failed to update config, no tables were returned");
-                None
-            }
-            Err(err) => {
-                warn!("detect_whitespace failed to update config: {:?}", err);
-                None
-            }
+            warn!("detect_whitespace failed to update config: {:?}", err);
         }
     }
 
-- 
2.43.0


From 465e5d21637b392c6e15aabdd6f1f4462a4f8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 67/86] fix: a file saved under a name of no known language had
 an empty language instead of plain text

---
 rust/core-lib/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index b321541..7bc9d11 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -298,7 +298,7 @@ impl ConfigManager {
     /// Panics if `id` does not exist.
     pub(crate) fn update_buffer_path(&mut self, id: BufferId, path: &Path) -> Option<Table> {
         assert!(self.buffer_tags.contains_key(&id));
-        let lang = self.language_for_path(path).unwrap_or_default();
+        let lang = self.language_for_path(path).unwrap_or(LanguageId::from("Plain Text"));
         let has_changed = self.buffer_tags.get_mut(&id).map(|tag| tag.set_detected(lang)).unwrap();
 
         if has_changed {
-- 
2.43.0


From c388981dc57710f8b42c3eeefb07439d126934ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 68/86] fix: only the first line ending in each piece of
 storage was looked at when line endings were detected

---
 rust/core-lib/src/line_ending.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/line_ending.rs b/rust/core-lib/src/line_ending.rs
index f83f924..42904b1 100644
--- a/rust/core-lib/src/line_ending.rs
+++ b/rust/core-lib/src/line_ending.rs
@@ -31,13 +31,13 @@ pub enum LineEnding {
 pub struct MixedLineEndingError;
 
 impl LineEnding {
-    /// Breaks a rope down into chunks, and checks each chunk for line endings
+    /// Breaks a rope down into lines, and checks each line for its line ending
     pub fn parse(rope: &Rope) -> Result<Option<Self>, MixedLineEndingError> {
         let mut crlf = false;
         let mut lf = false;
 
-        for chunk in rope.iter_chunks(..) {
-            match LineEnding::parse_chunk(&chunk) {
+        for line in rope.lines_raw(..) {
+            match LineEnding::parse_chunk(&line) {
                 Ok(Some(LineEnding::CrLf)) => crlf = true,
                 Ok(Some(LineEnding::Lf)) => lf = true,
                 Ok(None) => (),
-- 
2.43.0


From 95ca3699c4a4849a26736bc6fa56a246eff214fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 69/86] fix: opening a file of a language whose default
 settings are malformed ended the core

---
 rust/core-lib/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index 7bc9d11..38f66b9 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -415,7 +415,13 @@ impl ConfigManager {
         for language in languages.iter() {
             let lang_id = language.name.clone();
             let domain: ConfigDomain = lang_id.into();
-            let default_config = language.default_config.clone();
+            let default_config = language.default_config.clone().filter(|table| {
+                let check = self.check_table(table);
+                if let Err(e) = &check {
+                    error!("ignoring default config for {:?}: {}", language.name, e);
+                }
+                check.is_ok()
+            });
             self.configs
                 .entry(domain.clone())
                 .and_modify(|c| *c = c.new_with_base(default_config.clone()))
-- 
2.43.0


From bec15ec9c6d34065c6327675dc7a64f5ec017204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 70/86] fix: a front-end that answers measure_width wrongly
 ended the core, or had the text wrapped wrongly for good

---
 rust/core-lib/src/client.rs      |  2 +-
 rust/core-lib/src/linewrap.rs    |  4 +++-
 rust/core-lib/src/width_cache.rs | 27 ++++++++++++++++++++-------
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/client.rs b/rust/core-lib/src/client.rs
index b9fd31d..59f4158 100644
--- a/rust/core-lib/src/client.rs
+++ b/rust/core-lib/src/client.rs
@@ -169,7 +169,7 @@ impl Client {
     pub fn measure_width(&self, reqs: &[WidthReq]) -> Result<WidthResponse, xi_rpc::Error> {
         let req_json = serde_json::to_value(reqs).expect("failed to serialize width req");
         let resp = self.0.send_rpc_request("measure_width", &req_json)?;
-        Ok(serde_json::from_value(resp).expect("failed to deserialize width response"))
+        serde_json::from_value(resp).map_err(|_| xi_rpc::Error::InvalidResponse)
     }
 
     pub fn alert<S: AsRef<str>>(&self, msg: S) {
diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index 826d46f..2cd8e80 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -536,7 +536,9 @@ impl<'a> RewrapCtx<'a> {
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-        req.resolve_pending(self.client).unwrap();
+        if let Err(e) = req.resolve_pending(self.client) {
+            error!("measuring widths failed: {:?}", e);
+        }
         self.lb_cursor_pos = pos;
     }
 
diff --git a/rust/core-lib/src/width_cache.rs b/rust/core-lib/src/width_cache.rs
index ebbdfe8..8984121 100644
--- a/rust/core-lib/src/width_cache.rs
+++ b/rust/core-lib/src/width_cache.rs
@@ -151,17 +151,30 @@ impl<'a> WidthBatchReq<'a> {
         &mut self,
         handler: &T,
     ) -> Result<(), xi_rpc::Error> {
-        // The 0.0 values should all get replaced with actual widths, assuming the
-        // shape of the response from the front-end matches that of the request.
-        if self.pending_tok > self.cache.widths.len() {
+        let n_known = self.cache.widths.len();
+        if self.pending_tok > n_known {
+            // The 0.0 values all get replaced with actual widths, unless measuring fails.
             self.cache.widths.resize(self.pending_tok, 0.0);
-            let widths = handler.measure_width(&self.req)?;
-            for (w, t) in widths.iter().zip(self.req_toks.iter()) {
-                for (width, tok) in w.iter().zip(t.iter()) {
-                    self.cache.widths[*tok] = *width;
+            match handler.measure_width(&self.req) {
+                Ok(ref widths) if self.fits_request(widths) => {
+                    for (w, t) in widths.iter().zip(self.req_toks.iter()) {
+                        for (width, tok) in w.iter().zip(t.iter()) {
+                            self.cache.widths[*tok] = *width;
+                        }
+                    }
+                }
+                result => {
+                    // these strings have to be measured again the next time
+                    self.cache.m.retain(|_, tok| *tok < n_known);
+                    return Err(result.err().unwrap_or(xi_rpc::Error::InvalidResponse));
                 }
             }
         }
         Ok(())
     }
+
+    fn fits_request(&self, widths: &[Vec<Width>]) -> bool {
+        widths.len() == self.req.len()
+            && widths.iter().zip(self.req.iter()).all(|(w, req)| w.len() == req.strings.len())
+    }
 }
-- 
2.43.0


From 987766126287e0d97748cde784a7c6a14b5ac1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 71/86] verification hooks: the size of the state cache and its
 victims, and a way to make a dispatcher

---
 rust/plugin-lib/src/lib.rs         | 11 +++++++
 rust/plugin-lib/src/state_cache.rs | 46 +++++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/rust/plugin-lib/src/lib.rs b/rust/plugin-lib/src/lib.rs
index 0eea5e8..2ab45e4 100644
--- a/rust/plugin-lib/src/lib.rs
+++ b/rust/plugin-lib/src/lib.rs
@@ -51,6 +51,17 @@ pub use crate::state_cache::StateCache;
 pub use crate::view::View;
 pub use crate::xi_core::plugin_rpc::{Hover, Range};
 
+/// What a verification harness needs of the private parts of this crate.
+#[cfg(xi_verif)]
+pub mod verif {
+    pub use crate::dispatch::Dispatcher;
+    pub use crate::state_cache::verif::{set_cache_size, set_victim};
+
+    pub fn dispatcher<P: crate::Plugin>(plugin: &mut P) -> Dispatcher<'_, P> {
+        Dispatcher::new(plugin)
+    }
+}
+
 /// Abstracts getting data from the peer. Mainly exists for mocking in tests.
 pub trait DataSource {
     fn get_data(
diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index dbb1bf7..6752191 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -28,6 +28,44 @@ const CACHE_SIZE: usize = 1024;
 /// Number of probes for eviction logic.
 const NUM_PROBES: usize = 5;
 
+#[cfg(not(xi_verif))]
+fn cache_size() -> usize {
+    CACHE_SIZE
+}
+
+#[cfg(xi_verif)]
+fn cache_size() -> usize {
+    verif::cache_size()
+}
+
+/// Lets a verification harness fill the cache quickly, and decide which entry
+/// is evicted.
+#[cfg(xi_verif)]
+pub mod verif {
+    use std::cell::Cell;
+
+    thread_local! {
+        static SIZE: Cell<usize> = Cell::new(super::CACHE_SIZE);
+        static VICTIM: Cell<Option<usize>> = Cell::new(None);
+    }
+
+    pub fn set_cache_size(size: usize) {
+        SIZE.with(|s| s.set(size));
+    }
+
+    pub fn set_victim(ix: Option<usize>) {
+        VICTIM.with(|v| v.set(ix));
+    }
+
+    pub(super) fn cache_size() -> usize {
+        SIZE.with(|s| s.get())
+    }
+
+    pub(super) fn victim() -> Option<usize> {
+        VICTIM.with(|v| v.get())
+    }
+}
+
 struct CacheEntry<S> {
     line_num: usize,
     offset: usize,
@@ -182,7 +220,7 @@ impl<S: Clone + Default> StateCache<S> {
 
     /// Insert a new entry into the cache, returning its index.
     fn insert_entry(&mut self, line_num: usize, offset: usize, user_state: Option<S>) -> usize {
-        if self.state_cache.len() >= CACHE_SIZE {
+        if self.state_cache.len() >= cache_size() {
             self.evict();
         }
         match self.find_line(line_num) {
@@ -201,6 +239,12 @@ impl<S: Clone + Default> StateCache<S> {
     }
 
     fn choose_victim(&self) -> usize {
+        #[cfg(xi_verif)]
+        {
+            if let Some(ix) = verif::victim() {
+                return ix % self.state_cache.len();
+            }
+        }
         let mut best = None;
         let mut rng = thread_rng();
         for _ in 0..NUM_PROBES {
-- 
2.43.0


From a711fc1a5a69ef826d9140892eacc1227719a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 72/86] fix: asking the chunk cache for a region past the end
 of the document never returned

---
 rust/plugin-lib/src/base_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/plugin-lib/src/base_cache.rs b/rust/plugin-lib/src/base_cache.rs
index ba42125..9c1aa2c 100644
--- a/rust/plugin-lib/src/base_cache.rs
+++ b/rust/plugin-lib/src/base_cache.rs
@@ -120,6 +120,9 @@ impl Cache for ChunkCache {
         I: IntervalBounds,
     {
         let Interval { start, end } = interval.into_interval(self.buf_size);
+        if end > self.buf_size {
+            return Err(Error::BadRequest);
+        }
         if self.contents.is_empty()
             || start < self.offset
             || start >= self.offset + self.contents.len()
-- 
2.43.0


From 6fc73db0b4c766384b762c50f0f1f977a146d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 73/86] fix: of several places where work on a document was
 pending, an edit forgot all but one or two

---
 rust/plugin-lib/src/state_cache.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index 6752191..aed6cf4 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -348,23 +348,17 @@ impl<S: Clone + Default> StateCache<S> {
             0 => 0,
             ix => self.state_cache[ix - 1].line_num,
         };
-        let mut new_frontier = Vec::new();
-        let mut need_push = true;
-        for old_ln in &self.frontier {
-            if *old_ln < line_num {
-                new_frontier.push(*old_ln);
-            } else if need_push {
-                new_frontier.push(line_num);
-                need_push = false;
-                if let Some(ref entry) = self.state_cache.get(cache_idx) {
-                    if *old_ln >= entry.line_num {
-                        new_frontier.push(old_ln.wrapping_add(nl_count_delta as usize));
-                    }
-                }
-            }
-        }
-        if need_push {
-            new_frontier.push(line_num);
+        // Work restarts from `line_num`, and goes on at least until the next
+        // cached entry, so everything pending before that is covered by it. What
+        // is pending at or after that entry still has to be done, at a new place.
+        let mut new_frontier: Vec<usize> =
+            self.frontier.iter().cloned().filter(|old_ln| *old_ln < line_num).collect();
+        new_frontier.push(line_num);
+        if let Some(entry) = self.state_cache.get(cache_idx) {
+            // the entry was moved already
+            let next_ln = entry.line_num as isize;
+            let moved = self.frontier.iter().map(|old_ln| *old_ln as isize + nl_count_delta);
+            new_frontier.extend(moved.filter(|new_ln| *new_ln >= next_ln).map(|ln| ln as usize));
         }
         self.frontier = new_frontier;
     }
-- 
2.43.0


From 1800b7a0cae6ce02dc0b554954f9d8b9b2cba15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 74/86] fix: resetting the state cache kept the state before
 the first line

---
 rust/plugin-lib/src/state_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index aed6cf4..133d747 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -370,7 +370,8 @@ impl<S: Clone + Default> StateCache<S> {
 
     /// Clear all state and reset frontier to start.
     pub fn reset(&mut self) {
-        self.truncate_cache(0);
+        self.state_cache.clear();
+        self.truncate_frontier(0);
     }
 
     /// The frontier keeps track of work needing to be done. A typical
-- 
2.43.0


From c3a29693aef87d8213aafee956e74fdca9fef0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 75/86] verification hook: language servers played by the
 checks

---
 rust/lsp-lib/src/lib.rs   | 17 +++++++++++++++++
 rust/lsp-lib/src/utils.rs | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/rust/lsp-lib/src/lib.rs b/rust/lsp-lib/src/lib.rs
index c0628ca..5ea2b4c 100644
--- a/rust/lsp-lib/src/lib.rs
+++ b/rust/lsp-lib/src/lib.rs
@@ -43,6 +43,23 @@ mod utils;
 pub use crate::lsp_plugin::LspPlugin;
 pub use crate::types::Config;
 
+/// Lets a check stand in for the language servers.
+#[cfg(xi_verif)]
+pub mod verif {
+    use crate::language_server_client::LanguageServerClient;
+    use std::cell::RefCell;
+    use std::io::Write;
+    use std::sync::{Arc, Mutex};
+
+    pub type Started = Arc<Mutex<LanguageServerClient>>;
+
+    thread_local! {
+        /// Called instead of starting a process; gives what the client writes to.
+        pub static START: RefCell<Option<Box<dyn FnMut(&str) -> Box<dyn Write + Send>>>> = RefCell::new(None);
+        pub static STARTED: RefCell<Vec<Started>> = RefCell::new(Vec::new());
+    }
+}
+
 pub fn start_mainloop<P: Plugin>(plugin: &mut P) {
     mainloop(plugin).unwrap();
 }
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index 8537d21..c95eef2 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -162,6 +162,23 @@ pub fn start_new_server(
     core: CoreProxy,
     result_queue: ResultQueue,
 ) -> Result<Arc<Mutex<LanguageServerClient>>, String> {
+    #[cfg(xi_verif)]
+    {
+        let writer =
+            crate::verif::START.with(|s| s.borrow_mut().as_mut().map(|start| start(language_id)));
+        if let Some(writer) = writer {
+            let client = Arc::new(Mutex::new(LanguageServerClient::new(
+                writer,
+                core,
+                result_queue,
+                language_id.to_owned(),
+                file_extensions,
+            )));
+            crate::verif::STARTED.with(|s| s.borrow_mut().push(client.clone()));
+            return Ok(client);
+        }
+    }
+
     let mut process = Command::new(command)
         .args(arguments)
         .stdin(Stdio::piped())
-- 
2.43.0


From 0c485511ca5b09857642f61e32bd049431b441ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 76/86] fix: positions of deleted text were sent to language
 servers as they are after the deletion

---
 rust/lsp-lib/src/conversion_utils.rs | 16 ++++----
 rust/lsp-lib/src/lsp_plugin.rs       | 45 +++++++++++++++------
 rust/lsp-lib/src/utils.rs            | 58 +++++++++++-----------------
 3 files changed, 62 insertions(+), 57 deletions(-)

diff --git a/rust/lsp-lib/src/conversion_utils.rs b/rust/lsp-lib/src/conversion_utils.rs
index a9855a7..ebc5954 100644
--- a/rust/lsp-lib/src/conversion_utils.rs
+++ b/rust/lsp-lib/src/conversion_utils.rs
@@ -18,6 +18,7 @@
 use crate::lsp_types::*;
 use crate::types::LanguageResponseError;
 use xi_plugin_lib::{Cache, Error as PluginLibError, Hover as CoreHover, Range as CoreRange, View};
+use xi_rope::Rope;
 
 pub(crate) fn marked_string_to_string(marked_string: &MarkedString) -> String {
     match *marked_string {
@@ -58,17 +59,14 @@ pub(crate) fn count_utf16(s: &str) -> usize {
     utf16_count
 }
 
-/// Get LSP Style Utf-16 based position given the xi-core style utf-8 offset
-pub(crate) fn get_position_of_offset<C: Cache>(
-    view: &mut View<C>,
-    offset: usize,
-) -> Result<Position, PluginLibError> {
-    let line_num = view.line_of_offset(offset)?;
-    let line_offset = view.offset_of_line(line_num)?;
+/// Get LSP Style Utf-16 based position given the xi-core style utf-8 offset in the given text
+pub(crate) fn get_position_of_offset(text: &Rope, offset: usize) -> Position {
+    let line_num = text.line_of_offset(offset);
+    let line_offset = text.offset_of_line(line_num);
 
-    let char_offset = count_utf16(&(view.get_line(line_num)?[0..(offset - line_offset)]));
+    let char_offset = count_utf16(&text.slice_to_cow(line_offset..offset));
 
-    Ok(Position { line: line_num as u64, character: char_offset as u64 })
+    Position { line: line_num as u64, character: char_offset as u64 }
 }
 
 pub(crate) fn offset_of_position<C: Cache>(
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index d05122c..032f3dd 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -20,7 +20,7 @@ use std::sync::{Arc, Mutex};
 
 use url::Url;
 use xi_plugin_lib::{ChunkCache, CoreProxy, Plugin, View};
-use xi_rope::rope::RopeDelta;
+use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
 use crate::language_server_client::LanguageServerClient;
@@ -33,6 +33,8 @@ use crate::xi_core::{ConfigTable, ViewId};
 pub struct ViewInfo {
     version: u64,
     ls_identifier: String,
+    /// The document as the server knows it.
+    document: Rope,
 }
 
 /// Represents the state of the Language Server Plugin
@@ -72,6 +74,18 @@ impl Plugin for LspPlugin {
     ) {
         let view_info = self.view_info.get_mut(&view.get_id());
         if let Some(view_info) = view_info {
+            let document = match delta {
+                Some(delta) => delta.apply(&view_info.document),
+                None => match view.get_document() {
+                    Ok(text) => Rope::from(text),
+                    Err(err) => {
+                        error!("could not get document of {}: {:?}", view.get_id(), err);
+                        return;
+                    }
+                },
+            };
+            let old_document = std::mem::replace(&mut view_info.document, document);
+
             // This won't fail since we definitely have a client for the given
             // client identifier
             let ls_client = &self.language_server_clients[&view_info.ls_identifier];
@@ -79,7 +93,9 @@ impl Plugin for LspPlugin {
 
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
-            if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta) {
+            if let Some(changes) =
+                get_change_for_sync_kind(sync_kind, delta, &old_document, &view_info.document)
+            {
                 ls_client.send_did_change(view.get_id(), changes, view_info.version);
             }
         }
@@ -127,8 +143,14 @@ impl Plugin for LspPlugin {
             let result = self.get_lsclient_from_workspace_root(&language_id, &workspace_root_uri);
 
             if let Some((identifier, ls_client)) = result {
-                self.view_info
-                    .insert(view.get_id(), ViewInfo { version: 0, ls_identifier: identifier });
+                self.view_info.insert(
+                    view.get_id(),
+                    ViewInfo {
+                        version: 0,
+                        ls_identifier: identifier,
+                        document: Rope::from(&document_text),
+                    },
+                );
                 let mut ls_client = ls_client.lock().unwrap();
 
                 let document_uri = Url::from_file_path(path).unwrap();
@@ -157,10 +179,13 @@ impl Plugin for LspPlugin {
 
     fn get_hover(&mut self, view: &mut View<Self::Cache>, request_id: usize, position: usize) {
         let view_id = view.get_id();
-        let position_ls = get_position_of_offset(view, position);
+        let position_ls = match self.view_info.get(&view_id) {
+            Some(view_info) => get_position_of_offset(&view_info.document, position),
+            None => return,
+        };
 
-        self.with_language_server_for_view(view, |ls_client| match position_ls {
-            Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
+        self.with_language_server_for_view(view, |ls_client| {
+            ls_client.request_hover(view_id, position_ls, move |ls_client, result| {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
                     .and_then(|h| {
@@ -170,11 +195,7 @@ impl Plugin for LspPlugin {
 
                 ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
                 ls_client.core.schedule_idle(view_id);
-            }),
-            Err(err) => {
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err.into())));
-                ls_client.core.schedule_idle(view_id);
-            }
+            })
         });
     }
 
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index c95eef2..c3d6f98 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -19,8 +19,8 @@ use std::process::{Command, Stdio};
 use std::sync::{Arc, Mutex};
 
 use url::Url;
-use xi_plugin_lib::{Cache, ChunkCache, CoreProxy, Error as PluginLibError, View};
-use xi_rope::rope::RopeDelta;
+use xi_plugin_lib::CoreProxy;
+use xi_rope::rope::{Rope, RopeDelta};
 
 use crate::conversion_utils::*;
 use crate::language_server_client::LanguageServerClient;
@@ -30,11 +30,13 @@ use crate::result_queue::ResultQueue;
 use crate::types::Error;
 
 /// Get contents changes of a document modeled according to Language Server Protocol
-/// given the RopeDelta
-pub fn get_document_content_changes<C: Cache>(
+/// given the RopeDelta, the document it applies to (which is the one the server has; positions
+/// are positions in it), and the document that results
+pub fn get_document_content_changes(
     delta: Option<&RopeDelta>,
-    view: &mut View<C>,
-) -> Result<Vec<TextDocumentContentChangeEvent>, PluginLibError> {
+    old: &Rope,
+    new: &Rope,
+) -> Vec<TextDocumentContentChangeEvent> {
     if let Some(delta) = delta {
         let (interval, _) = delta.summary();
         let (start, end) = interval.start_end();
@@ -46,18 +48,18 @@ pub fn get_document_content_changes<C: Cache>(
             let (start, end) = interval.start_end();
             let text_document_content_change_event = TextDocumentContentChangeEvent {
                 range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
-                    end: get_position_of_offset(view, end)?,
+                    start: get_position_of_offset(old, start),
+                    end: get_position_of_offset(old, end),
                 }),
                 range_length: Some((end - start) as u64),
                 text,
             };
 
-            return Ok(vec![text_document_content_change_event]);
+            return vec![text_document_content_change_event];
         }
         // Or a simple delete
         else if delta.is_simple_delete() {
-            let mut end_position = get_position_of_offset(view, end)?;
+            let mut end_position = get_position_of_offset(old, end);
 
             // Hack around sending VSCode Style Positions to Language Server.
             // See this issue to understand: https://github.com/Microsoft/vscode/issues/23173
@@ -65,39 +67,34 @@ pub fn get_document_content_changes<C: Cache>(
                 // There is an assumption here that the line separator character is exactly
                 // 1 byte wide which is true for "\n" but it will be an issue if they are not
                 // for example for u+2028
-                let mut ep = get_position_of_offset(view, end - 1)?;
+                let mut ep = get_position_of_offset(old, end - 1);
                 ep.character += 1;
                 end_position = ep;
             }
 
             let text_document_content_change_event = TextDocumentContentChangeEvent {
-                range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
-                    end: end_position,
-                }),
+                range: Some(Range { start: get_position_of_offset(old, start), end: end_position }),
                 range_length: Some((end - start) as u64),
                 text: String::new(),
             };
 
-            return Ok(vec![text_document_content_change_event]);
+            return vec![text_document_content_change_event];
         }
     }
 
-    let text_document_content_change_event = TextDocumentContentChangeEvent {
-        range: None,
-        range_length: None,
-        text: view.get_document()?,
-    };
+    let text_document_content_change_event =
+        TextDocumentContentChangeEvent { range: None, range_length: None, text: String::from(new) };
 
-    Ok(vec![text_document_content_change_event])
+    vec![text_document_content_change_event]
 }
 
 /// Get changes to be sent to server depending upon the type of Sync supported
 /// by server
 pub fn get_change_for_sync_kind(
     sync_kind: TextDocumentSyncKind,
-    view: &mut View<ChunkCache>,
     delta: Option<&RopeDelta>,
+    old: &Rope,
+    new: &Rope,
 ) -> Option<Vec<TextDocumentContentChangeEvent>> {
     match sync_kind {
         TextDocumentSyncKind::None => None,
@@ -105,22 +102,11 @@ pub fn get_change_for_sync_kind(
             let text_document_content_change_event = TextDocumentContentChangeEvent {
                 range: None,
                 range_length: None,
-                text: view.get_document().unwrap(),
+                text: String::from(new),
             };
             Some(vec![text_document_content_change_event])
         }
-        TextDocumentSyncKind::Incremental => match get_document_content_changes(delta, view) {
-            Ok(result) => Some(result),
-            Err(err) => {
-                warn!("Error: {:?} Occured. Sending Whole Doc", err);
-                let text_document_content_change_event = TextDocumentContentChangeEvent {
-                    range: None,
-                    range_length: None,
-                    text: view.get_document().unwrap(),
-                };
-                Some(vec![text_document_content_change_event])
-            }
-        },
+        TextDocumentSyncKind::Incremental => Some(get_document_content_changes(delta, old, new)),
     }
 }
 
-- 
2.43.0


From 0402d9f3e205232b88a0a3b9c0c014f8f8a037e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 77/86] fix: anything done to a document before its language
 server was initialized ended the plugin or was lost

---
 rust/lsp-lib/src/language_server_client.rs | 74 +++++++++++++++++-----
 rust/lsp-lib/src/lsp_plugin.rs             |  7 +-
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index c0db1ef..b35b6c9 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -22,6 +22,7 @@ use jsonrpc_lite::{Error, Id, JsonRpc, Params};
 use serde_json::{to_value, Value};
 use url::Url;
 use xi_plugin_lib::CoreProxy;
+use xi_rope::Rope;
 
 use crate::lsp_types::*;
 use crate::result_queue::ResultQueue;
@@ -38,7 +39,10 @@ pub struct LanguageServerClient {
     pub status_items: HashSet<String>,
     pub core: CoreProxy,
     pub is_initialized: bool,
+    initialize_sent: bool,
     pub opened_documents: HashMap<ViewId, Url>,
+    /// Documents to be opened as soon as the server is initialized, as they are now.
+    waiting_documents: HashMap<ViewId, (Url, Rope)>,
     pub server_capabilities: Option<ServerCapabilities>,
     pub file_extensions: Vec<String>,
 }
@@ -72,6 +76,8 @@ impl LanguageServerClient {
             pending: HashMap::new(),
             next_id: 1,
             is_initialized: false,
+            initialize_sent: false,
+            waiting_documents: HashMap::new(),
             core,
             result_queue,
             status_items: HashSet::new(),
@@ -183,11 +189,16 @@ impl LanguageServerClient {
 /// Methods to abstract sending notifications and requests to the language server
 impl LanguageServerClient {
     /// Send the Initialize Request given the Root URI of the
-    /// Workspace. It is None for non-workspace projects.
+    /// Workspace. It is None for non-workspace projects. The request is sent only once.
     pub fn send_initialize<CB>(&mut self, root_uri: Option<Url>, on_init: CB)
     where
         CB: 'static + Send + FnOnce(&mut LanguageServerClient, Result<Value, Error>),
     {
+        if self.initialize_sent {
+            return;
+        }
+        self.initialize_sent = true;
+
         let client_capabilities = ClientCapabilities::default();
 
         let init_params = InitializeParams {
@@ -204,6 +215,28 @@ impl LanguageServerClient {
         self.send_request("initialize", params, Box::new(on_init));
     }
 
+    /// The server has answered the Initialize Request. Opens the documents that wait for this.
+    pub fn initialized(&mut self, capabilities: ServerCapabilities) {
+        self.server_capabilities = Some(capabilities);
+        self.is_initialized = true;
+        let waiting_documents = std::mem::take(&mut self.waiting_documents);
+        for (view_id, (document_uri, text)) in waiting_documents {
+            self.send_did_open(view_id, document_uri, String::from(&text));
+        }
+    }
+
+    /// Has the document opened once the server is initialized
+    pub fn open_when_initialized(&mut self, view_id: ViewId, document_uri: Url, text: Rope) {
+        self.waiting_documents.insert(view_id, (document_uri, text));
+    }
+
+    /// To be told of the current text of a document which may still be waiting
+    pub fn update_waiting(&mut self, view_id: ViewId, text: &Rope) {
+        if let Some(waiting) = self.waiting_documents.get_mut(&view_id) {
+            waiting.1 = text.clone();
+        }
+    }
+
     /// Send textDocument/didOpen Notification to the Language Server
     pub fn send_did_open(&mut self, view_id: ViewId, document_uri: Url, document_text: String) {
         self.opened_documents.insert(view_id, document_uri.clone());
@@ -223,28 +256,31 @@ impl LanguageServerClient {
 
     /// Send textDocument/didClose Notification to the Language Server
     pub fn send_did_close(&mut self, view_id: ViewId) {
-        let uri = self.opened_documents[&view_id].clone();
+        self.waiting_documents.remove(&view_id);
+        let uri = match self.opened_documents.remove(&view_id) {
+            Some(uri) => uri,
+            None => return,
+        };
         let text_document_did_close_params =
             DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri } };
 
         let params = Params::from(serde_json::to_value(text_document_did_close_params).unwrap());
         self.send_notification("textDocument/didClose", params);
-
-        self.opened_documents.remove(&view_id);
     }
 
-    /// Send textDocument/didChange Notification to the Language Server
+    /// Send textDocument/didChange Notification to the Language Server, if it knows the document
     pub fn send_did_change(
         &mut self,
         view_id: ViewId,
         changes: Vec<TextDocumentContentChangeEvent>,
         version: u64,
     ) {
+        let uri = match self.opened_documents.get(&view_id) {
+            Some(uri) => uri.clone(),
+            None => return,
+        };
         let text_document_did_change_params = DidChangeTextDocumentParams {
-            text_document: VersionedTextDocumentIdentifier {
-                uri: self.opened_documents[&view_id].clone(),
-                version: Some(version),
-            },
+            text_document: VersionedTextDocumentIdentifier { uri, version: Some(version) },
             content_changes: changes,
         };
 
@@ -252,13 +288,16 @@ impl LanguageServerClient {
         self.send_notification("textDocument/didChange", params);
     }
 
-    /// Send textDocument/didSave notification to the Language Server
+    /// Send textDocument/didSave notification to the Language Server, if it knows the document
     pub fn send_did_save(&mut self, view_id: ViewId, _document_text: &str) {
+        let uri = match self.opened_documents.get(&view_id) {
+            Some(uri) => uri.clone(),
+            None => return,
+        };
         // Add support for sending document text as well. Currently missing in LSP types
         // and is optional in LSP Specification
-        let text_document_did_save_params = DidSaveTextDocumentParams {
-            text_document: TextDocumentIdentifier { uri: self.opened_documents[&view_id].clone() },
-        };
+        let text_document_did_save_params =
+            DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri } };
         let params = Params::from(serde_json::to_value(text_document_did_save_params).unwrap());
         self.send_notification("textDocument/didSave", params);
     }
@@ -267,10 +306,13 @@ impl LanguageServerClient {
     where
         CB: 'static + Send + FnOnce(&mut LanguageServerClient, Result<Value, Error>),
     {
-        let text_document_position_params = TextDocumentPositionParams {
-            text_document: TextDocumentIdentifier { uri: self.opened_documents[&view_id].clone() },
-            position,
+        let uri = match self.opened_documents.get(&view_id) {
+            Some(uri) => uri.clone(),
+            // the server does not know the document (yet)
+            None => return on_result(self, Err(Error::invalid_request())),
         };
+        let text_document_position_params =
+            TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri }, position };
 
         let params = Params::from(serde_json::to_value(text_document_position_params).unwrap());
         self.send_request("textDocument/hover", params, Box::new(on_result))
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 032f3dd..65a7e07 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -91,6 +91,8 @@ impl Plugin for LspPlugin {
             let ls_client = &self.language_server_clients[&view_info.ls_identifier];
             let mut ls_client = ls_client.lock().unwrap();
 
+            ls_client.update_waiting(view.get_id(), &view_info.document);
+
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
             if let Some(changes) =
@@ -156,6 +158,7 @@ impl Plugin for LspPlugin {
                 let document_uri = Url::from_file_path(path).unwrap();
 
                 if !ls_client.is_initialized {
+                    ls_client.open_when_initialized(view_id, document_uri, document_text.into());
                     ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
                         if let Ok(result) = result {
                             let init_result: InitializeResult =
@@ -163,9 +166,7 @@ impl Plugin for LspPlugin {
 
                             debug!("Init Result: {:?}", init_result);
 
-                            ls_client.server_capabilities = Some(init_result.capabilities);
-                            ls_client.is_initialized = true;
-                            ls_client.send_did_open(view_id, document_uri, document_text);
+                            ls_client.initialized(init_result.capabilities);
                         }
                     });
                 } else {
-- 
2.43.0


From 6775ce12cb0920bd9255ce8158c1c50c9e09a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 78/86] fix: a view closed before the language server plugin
 had seen it ended the plugin

---
 rust/lsp-lib/src/lsp_plugin.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 65a7e07..f351b57 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -106,7 +106,10 @@ impl Plugin for LspPlugin {
     fn did_save(&mut self, view: &mut View<Self::Cache>, _old: Option<&Path>) {
         trace!("saved view {}", view.get_id());
 
-        let document_text = view.get_document().unwrap();
+        let document_text = match self.view_info.get(&view.get_id()) {
+            Some(view_info) => String::from(&view_info.document),
+            None => return,
+        };
         self.with_language_server_for_view(view, |ls_client| {
             ls_client.send_did_save(view.get_id(), &document_text);
         });
@@ -123,7 +126,14 @@ impl Plugin for LspPlugin {
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
         trace!("new view {}", view.get_id());
 
-        let document_text = view.get_document().unwrap();
+        let document_text = match view.get_document() {
+            Ok(text) => text,
+            Err(err) => {
+                // the view may be closed by now
+                error!("could not get document of {}: {:?}", view.get_id(), err);
+                return;
+            }
+        };
         let path = view.get_path();
         let view_id = view.get_id();
 
-- 
2.43.0


From 029d679a54523998ac6fd7d887426542d626cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 79/86] fix: an answer for a view that was closed was shown in
 another, as were all that followed

---
 rust/lsp-lib/src/lsp_plugin.rs   |  5 +++--
 rust/lsp-lib/src/result_queue.rs | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index f351b57..7ec1478 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -121,6 +121,7 @@ impl Plugin for LspPlugin {
         self.with_language_server_for_view(view, |ls_client| {
             ls_client.send_did_close(view.get_id());
         });
+        self.result_queue.remove_results(view.get_id());
     }
 
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
@@ -204,14 +205,14 @@ impl Plugin for LspPlugin {
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
+                ls_client.result_queue.push_result(view_id, request_id, LspResponse::Hover(res));
                 ls_client.core.schedule_idle(view_id);
             })
         });
     }
 
     fn idle(&mut self, view: &mut View<Self::Cache>) {
-        let result = self.result_queue.pop_result();
+        let result = self.result_queue.pop_result(view.get_id());
         if let Some((request_id, reponse)) = result {
             match reponse {
                 LspResponse::Hover(res) => {
diff --git a/rust/lsp-lib/src/result_queue.rs b/rust/lsp-lib/src/result_queue.rs
index 45bca72..ed2d15c 100644
--- a/rust/lsp-lib/src/result_queue.rs
+++ b/rust/lsp-lib/src/result_queue.rs
@@ -13,24 +13,33 @@
 // limitations under the License.
 
 use crate::types::LspResponse;
+use crate::xi_core::ViewId;
 use std::collections::VecDeque;
 use std::sync::{Arc, Mutex};
 
 #[derive(Clone, Debug, Default)]
-pub struct ResultQueue(Arc<Mutex<VecDeque<(usize, LspResponse)>>>);
+pub struct ResultQueue(Arc<Mutex<VecDeque<(ViewId, usize, LspResponse)>>>);
 
 impl ResultQueue {
     pub fn new() -> Self {
         ResultQueue(Arc::new(Mutex::new(VecDeque::new())))
     }
 
-    pub fn push_result(&mut self, request_id: usize, response: LspResponse) {
+    pub fn push_result(&mut self, view_id: ViewId, request_id: usize, response: LspResponse) {
         let mut queue = self.0.lock().unwrap();
-        queue.push_back((request_id, response));
+        queue.push_back((view_id, request_id, response));
     }
 
-    pub fn pop_result(&mut self) -> Option<(usize, LspResponse)> {
+    /// The oldest result that belongs to the given view.
+    pub fn pop_result(&mut self, view_id: ViewId) -> Option<(usize, LspResponse)> {
         let mut queue = self.0.lock().unwrap();
-        queue.pop_front()
+        let index = queue.iter().position(|(v, _, _)| *v == view_id)?;
+        queue.remove(index).map(|(_, request_id, response)| (request_id, response))
+    }
+
+    /// Forgets the results of a view.
+    pub fn remove_results(&mut self, view_id: ViewId) {
+        let mut queue = self.0.lock().unwrap();
+        queue.retain(|(v, _, _)| *v != view_id);
     }
 }
-- 
2.43.0


From c0687341e6873f8fc93817afeb26712c8d3890ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 80/86] fix: a message of a language server that makes no sense
 ended the plugin

---
 rust/lsp-lib/src/language_server_client.rs | 39 ++++++++++++----------
 rust/lsp-lib/src/lsp_plugin.rs             | 22 +++++++-----
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index b35b6c9..14fdf18 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -54,12 +54,12 @@ fn prepare_lsp_json(msg: &Value) -> Result<String, serde_json::error::Error> {
     Ok(format!("Content-Length: {}\r\n\r\n{}", request.len(), request))
 }
 
-/// Get numeric id from the request id.
-fn number_from_id(id: &Id) -> u64 {
-    match *id {
-        Id::Num(n) => n as u64,
-        Id::Str(ref s) => u64::from_str_radix(s, 10).expect("failed to convert string id to u64"),
-        _ => panic!("unexpected value for id: None"),
+/// Get numeric id from the request id. `None` if it is not one that we could have sent.
+fn number_from_id(id: Option<Id>) -> Option<u64> {
+    match id {
+        Some(Id::Num(n)) => Some(n as u64),
+        Some(Id::Str(ref s)) => s.parse().ok(),
+        _ => None,
     }
 }
 
@@ -98,15 +98,16 @@ impl LanguageServerClient {
         match JsonRpc::parse(message) {
             Ok(JsonRpc::Request(obj)) => trace!("client received unexpected request: {:?}", obj),
             Ok(value @ JsonRpc::Notification(_)) => {
-                self.handle_notification(value.get_method().unwrap(), value.get_params().unwrap())
+                let params = value.get_params().unwrap_or(Params::None(()));
+                self.handle_notification(value.get_method().unwrap(), params)
             }
             Ok(value @ JsonRpc::Success(_)) => {
-                let id = number_from_id(&value.get_id().unwrap());
+                let id = number_from_id(value.get_id());
                 let result = value.get_result().unwrap();
                 self.handle_response(id, Ok(result.clone()));
             }
             Ok(value @ JsonRpc::Error(_)) => {
-                let id = number_from_id(&value.get_id().unwrap());
+                let id = number_from_id(value.get_id());
                 let error = value.get_error().unwrap();
                 self.handle_response(id, Err(error.clone()));
             }
@@ -114,12 +115,11 @@ impl LanguageServerClient {
         }
     }
 
-    pub fn handle_response(&mut self, id: u64, result: Result<Value, Error>) {
-        let callback = self
-            .pending
-            .remove(&id)
-            .unwrap_or_else(|| panic!("id {} missing from request table", id));
-        callback.call(self, result);
+    pub fn handle_response(&mut self, id: Option<u64>, result: Result<Value, Error>) {
+        match id.and_then(|id| self.pending.remove(&id)) {
+            Some(callback) => callback.call(self, result),
+            None => warn!("id {:?} missing from request table", id),
+        }
     }
 
     pub fn handle_notification(&mut self, method: &str, params: Params) {
@@ -341,8 +341,13 @@ impl LanguageServerClient {
                     Params::Map(m) => {
                         let done = m.get("done").unwrap_or(&Value::Bool(false));
                         if let Value::Bool(done) = done {
-                            let id: String =
-                                serde_json::from_value(m.get("id").unwrap().clone()).unwrap();
+                            let id = match m.get("id") {
+                                Some(Value::String(id)) => id.to_owned(),
+                                _ => {
+                                    warn!("window/progress without an id");
+                                    return;
+                                }
+                            };
                             if *done {
                                 self.remove_status_item(&id);
                             } else {
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 7ec1478..6e01407 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -171,13 +171,17 @@ impl Plugin for LspPlugin {
                 if !ls_client.is_initialized {
                     ls_client.open_when_initialized(view_id, document_uri, document_text.into());
                     ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
-                        if let Ok(result) = result {
-                            let init_result: InitializeResult =
-                                serde_json::from_value(result).unwrap();
-
-                            debug!("Init Result: {:?}", init_result);
-
-                            ls_client.initialized(init_result.capabilities);
+                        let result = result.map_err(|e| format!("{:?}", e)).and_then(|result| {
+                            serde_json::from_value::<InitializeResult>(result)
+                                .map_err(|e| e.to_string())
+                        });
+                        match result {
+                            Ok(init_result) => {
+                                debug!("Init Result: {:?}", init_result);
+
+                                ls_client.initialized(init_result.capabilities);
+                            }
+                            Err(err) => error!("language server did not initialize: {}", err),
                         }
                     });
                 } else {
@@ -201,7 +205,9 @@ impl Plugin for LspPlugin {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
                     .and_then(|h| {
-                        let hover: Option<Hover> = serde_json::from_value(h).unwrap();
+                        let hover: Option<Hover> = serde_json::from_value(h).map_err(|e| {
+                            LanguageResponseError::LanguageServerError(e.to_string())
+                        })?;
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-- 
2.43.0


From a474ead466aaaf1afd70440245b1583560f79a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 81/86] fix: a language server that ended took the plugin with
 it, or kept it busy for ever

---
 rust/lsp-lib/src/language_server_client.rs | 7 ++++---
 rust/lsp-lib/src/parse_helper.rs           | 4 +++-
 rust/lsp-lib/src/utils.rs                  | 7 ++++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index 14fdf18..82a3aea 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -89,9 +89,10 @@ impl LanguageServerClient {
     }
 
     pub fn write(&mut self, msg: &str) {
-        self.writer.write_all(msg.as_bytes()).expect("error writing to stdin");
-
-        self.writer.flush().expect("error flushing child stdin");
+        let result = self.writer.write_all(msg.as_bytes()).and_then(|_| self.writer.flush());
+        if let Err(err) = result {
+            error!("error writing to language server: {}", err);
+        }
     }
 
     pub fn handle_message(&mut self, message: &str) {
diff --git a/rust/lsp-lib/src/parse_helper.rs b/rust/lsp-lib/src/parse_helper.rs
index 7560b77..f94d257 100644
--- a/rust/lsp-lib/src/parse_helper.rs
+++ b/rust/lsp-lib/src/parse_helper.rs
@@ -42,7 +42,9 @@ pub fn read_message<T: BufRead>(reader: &mut T) -> Result<String, ParseError> {
 
     loop {
         buffer.clear();
-        let _result = reader.read_line(&mut buffer);
+        if reader.read_line(&mut buffer)? == 0 {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
 
         match &buffer {
             s if s.trim().is_empty() => break,
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index c3d6f98..4217bee 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -27,7 +27,7 @@ use crate::language_server_client::LanguageServerClient;
 use crate::lsp_types::*;
 use crate::parse_helper;
 use crate::result_queue::ResultQueue;
-use crate::types::Error;
+use crate::types::{Error, ParseError};
 
 /// Get contents changes of a document modeled according to Language Server Protocol
 /// given the RopeDelta, the document it applies to (which is the one the server has; positions
@@ -197,6 +197,11 @@ pub fn start_new_server(
                             let mut server_locked = ls_client.lock().unwrap();
                             server_locked.handle_message(message_str.as_ref());
                         }
+                        Err(ParseError::Io(err)) => {
+                            // nothing more to come
+                            error!("language server is gone: {}", err);
+                            break;
+                        }
                         Err(err) => error!("Error occurred {:?}", err),
                     };
                 }
-- 
2.43.0


From f1676151894d42f7f86f253523ddf26e46afcb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 82/86] fix: a language server that is not installed ended the
 plugin

---
 rust/lsp-lib/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index 4217bee..aac41f2 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -170,7 +170,7 @@ pub fn start_new_server(
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()
-        .expect("Error Occurred");
+        .map_err(|err| err.to_string())?;
 
     let writer = Box::new(BufWriter::new(process.stdin.take().unwrap()));
 
-- 
2.43.0


From 8cd2126912309b76497aa41feee3c98a712d7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 83/86] fix: playing a recording added an empty undo step and
 lost the redo history

---
 rust/core-lib/src/event_context.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 89ad0e7..49f1e01 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -183,12 +183,11 @@ impl<'a> EventContext<'a> {
 
                 let starting_revision = self.editor.borrow_mut().get_head_rev_token();
 
-                // Don't group with the previous action
+                // Don't group with the previous action (which takes forgetting both the last
+                // and the current edit type)
+                self.editor.borrow_mut().update_edit_type();
                 self.editor.borrow_mut().update_edit_type();
-                self.editor.borrow_mut().calculate_undo_group();
 
-                // No matter what, our entire block must belong to the same undo group
-                self.editor.borrow_mut().set_force_undo_group(true);
                 recorder.play(&recording_name, |event| {
                     self.dispatch_event(event.clone());
 
@@ -198,6 +197,9 @@ impl<'a> EventContext<'a> {
                         None => return,
                     };
                     self.update_views(&editor, &delta, &last_text, drift);
+
+                    // No matter what, everything that follows must belong to the same undo group
+                    editor.set_force_undo_group(true);
                 });
                 self.editor.borrow_mut().set_force_undo_group(false);
 
-- 
2.43.0


From 3cb55c1b8df07b830036fabbee521d0d7e8ac845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 84/86] fix: while a recording played, a command moved carets
 the way the one before it does

---
 rust/core-lib/src/event_context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 49f1e01..cde5622 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -197,6 +197,7 @@ impl<'a> EventContext<'a> {
                         None => return,
                     };
                     self.update_views(&editor, &delta, &last_text, drift);
+                    editor.update_edit_type();
 
                     // No matter what, everything that follows must belong to the same undo group
                     editor.set_force_undo_group(true);
-- 
2.43.0


From 38a6e0de9e79e4e3bc29665651b09ed6789deedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 85/86] fix: a recording kept edits that undo had taken back,
 when there were several undos or a redo without effect

---
 rust/core-lib/src/recorder.rs | 73 +++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/rust/core-lib/src/recorder.rs b/rust/core-lib/src/recorder.rs
index 3afffd4..e5194f4 100644
--- a/rust/core-lib/src/recorder.rs
+++ b/rust/core-lib/src/recorder.rs
@@ -137,42 +137,49 @@ impl Recorder {
     /// A recording should not store any undos or redos--
     /// call this once a recording is 'finalized.'
     fn save_recording_buffer(&mut self, recording_name: String) {
-        let mut saw_undo = false;
-        let mut saw_redo = false;
+        // Whether an event stays; an undo or redo never does
+        let mut keep = vec![true; self.recording_buffer.len()];
+        // The edits that can be undone and redone at this point, and how many undos went further
+        // back than the recording does
+        let mut done = Vec::new();
+        let mut undone = Vec::new();
+        let mut undone_before = 0;
+
+        for (i, event) in self.recording_buffer.iter().enumerate() {
+            match event {
+                EventDomain::Buffer(BufferEvent::Undo) => {
+                    keep[i] = false;
+                    if let Some(edit) = done.pop() {
+                        keep[edit] = false;
+                        undone.push(edit);
+                    } else {
+                        undone_before += 1;
+                    }
+                }
+                EventDomain::Buffer(BufferEvent::Redo) => {
+                    keep[i] = false;
+                    if undone_before > 0 {
+                        undone_before -= 1;
+                    } else if let Some(edit) = undone.pop() {
+                        keep[edit] = true;
+                        done.push(edit);
+                    }
+                }
+                EventDomain::Buffer(_) => {
+                    done.push(i);
+                    undone.clear();
+                    undone_before = 0;
+                }
+                _ => {}
+            }
+        }
 
-        // Walk the recording backwards and remove any undo / redo events
         let filtered: Vec<EventDomain> = self
             .recording_buffer
-            .clone()
-            .into_iter()
-            .rev()
-            .filter(|event| {
-                if let EventDomain::Buffer(event) = event {
-                    return match event {
-                        BufferEvent::Undo => {
-                            saw_undo = !saw_redo;
-                            saw_redo = false;
-                            false
-                        }
-                        BufferEvent::Redo => {
-                            saw_redo = !saw_undo;
-                            saw_undo = false;
-                            false
-                        }
-                        _ => {
-                            let ret = !saw_undo;
-                            saw_undo = false;
-                            saw_redo = false;
-                            ret
-                        }
-                    };
-                }
-
-                true
-            })
-            .collect::<Vec<EventDomain>>()
-            .into_iter()
-            .rev()
+            .iter()
+            .zip(keep)
+            .filter(|(_, keep)| *keep)
+            .map(|(event, _)| event.clone())
             .collect();
 
         let current_recording = Recording::new(filtered);
-- 
2.43.0


From 8fe1f686bce2abc8ffb33ef3cc9813b9afb7663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 86/86] fix: a recording of auto-surround followed by typing
 lost the surrounding pair

---
 rust/core-lib/src/event_context.rs |  8 +++++++-
 rust/core-lib/src/recorder.rs      | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index cde5622..bcedc51 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -33,7 +33,7 @@ use crate::rpc::{EditNotification, EditRequest, LineRange, Position as ClientPos
 
 use crate::client::Client;
 use crate::config::{BufferItems, Table};
-use crate::edit_types::{EventDomain, SpecialEvent};
+use crate::edit_types::{BufferEvent, EventDomain, SpecialEvent};
 use crate::editor::Editor;
 use crate::file::FileInfo;
 use crate::line_offset::LineOffset;
@@ -123,6 +123,12 @@ impl<'a> EventContext<'a> {
                 (true, EventDomain::Special(_)) => {
                     warn!("Special events cannot be recorded-- ignoring event {:?}", event)
                 }
+                // Whether this inserts or surrounds the selection depends on the exact characters
+                (true, EventDomain::Buffer(BufferEvent::Insert(chars)))
+                    if self.config.surrounding_pairs.iter().any(|pair| pair.0 == *chars) =>
+                {
+                    recorder.record_separate(event.clone())
+                }
                 (true, event) => recorder.record(event.clone()),
                 _ => {}
             }
diff --git a/rust/core-lib/src/recorder.rs b/rust/core-lib/src/recorder.rs
index e5194f4..7328189 100644
--- a/rust/core-lib/src/recorder.rs
+++ b/rust/core-lib/src/recorder.rs
@@ -17,6 +17,7 @@
 //! Clients can store multiple, named recordings.
 
 use std::collections::HashMap;
+use std::mem;
 
 use xi_trace::trace_block;
 
@@ -26,6 +27,8 @@ use crate::edit_types::{BufferEvent, EventDomain};
 pub(crate) struct Recorder {
     active_recording: Option<String>,
     recording_buffer: Vec<EventDomain>,
+    /// Whether the last event of the buffer has to stay separate from what follows.
+    last_is_separate: bool,
     recordings: HashMap<String, Recording>,
 }
 
@@ -34,6 +37,7 @@ impl Recorder {
         Recorder {
             active_recording: None,
             recording_buffer: Vec::new(),
+            last_is_separate: false,
             recordings: HashMap::new(),
         }
     }
@@ -84,8 +88,9 @@ impl Recorder {
         assert!(self.is_recording());
 
         let recording_buffer = &mut self.recording_buffer;
+        let last_is_separate = mem::replace(&mut self.last_is_separate, false);
 
-        if recording_buffer.last().is_none() {
+        if recording_buffer.last().is_none() || last_is_separate {
             recording_buffer.push(current_event);
             return;
         }
@@ -105,6 +110,15 @@ impl Recorder {
         recording_buffer.push(current_event);
     }
 
+    /// Like `record`, for an insertion that does something else when it's merged with
+    /// the insertions around it.
+    pub(crate) fn record_separate(&mut self, current_event: EventDomain) {
+        assert!(self.is_recording());
+
+        self.recording_buffer.push(current_event);
+        self.last_is_separate = true;
+    }
+
     /// Iterates over a specified recording's buffer and runs the specified action
     /// on each event.
     pub(crate) fn play<F>(&self, recording_name: &str, action: F)
-- 
2.43.0

