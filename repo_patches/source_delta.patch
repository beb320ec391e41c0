From d008b6c114d6dd4ce61f6d0eebfaa6ec5c7474f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 1/8] fix: keep sibling links intact when inserting a node to
 its current position

Inserting a node to the place where it already is (for example a first child
as the first child of its own parent) dropped the node from one direction of
the sibling links, or panicked with a [consistency] message for an only child.
---
 src/dynamic/hierarchy.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..c39778c 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -802,6 +802,13 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // `prev_sibling` and `next_sibling` are neighbors of the destination
+        // **before** the range is detached, so they can be the edges of the
+        // range itself. In such case the range is already at the destination.
+        if prev_sibling == Some(self.last) || next_sibling == Some(self.first) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
@@ -837,16 +844,10 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
         }
 
         // Connect the first node in the range to the previous sibling.
-        // If they are identical, no need to update neighbors info.
-        if prev_sibling != Some(self.first) {
-            hier.connect_triangle(Some(parent), prev_sibling, Some(self.first));
-        }
+        hier.connect_triangle(Some(parent), prev_sibling, Some(self.first));
 
         // Connect the last node in the range to the next sibling.
-        // If they are identical, no need to update neighbors info.
-        if next_sibling != Some(self.last) {
-            hier.connect_triangle(Some(parent), Some(self.last), next_sibling);
-        }
+        hier.connect_triangle(Some(parent), Some(self.last), next_sibling);
 
         Ok(())
     }
-- 
2.43.0


From 36f8bb0e59143dbdd03ad01eadad8fc9f83a416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 2/8] fix: return SiblingsWithoutParent when the sibling anchor
 has no parent

Forest::insert is documented to return the error for PreviousSiblingOf(v) and
NextSiblingOf(v) with parentless v, but it panicked.
---
 src/dynamic/hierarchy.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index c39778c..fa73d2d 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -412,14 +412,16 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// # Errors
     ///
-    /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
-    /// `next_sibling` are identical.
+    /// * Returns [`StructureError::UnorderableSiblings`] error when `node` and
+    ///   `next_sibling` are identical.
+    /// * Returns [`StructureError::SiblingsWithoutParent`] error when
+    ///   `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
+        let range = SiblingsRange::with_single_toplevel(self, node);
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
         }
@@ -429,28 +431,25 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
-        SiblingsRange::with_single_toplevel(self, node).transplant(
-            self,
-            parent,
-            prev_sibling,
-            Some(next_sibling),
-        )
+        range.transplant(self, parent, prev_sibling, Some(next_sibling))
     }
 
     /// Detaches and inserts the given node as the next sibling of `prev_sibling`.
     ///
     /// # Errors
     ///
-    /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
-    /// `prev_sibling` are identical.
+    /// * Returns [`StructureError::UnorderableSiblings`] error when `node` and
+    ///   `prev_sibling` are identical.
+    /// * Returns [`StructureError::SiblingsWithoutParent`] error when
+    ///   `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
+        let range = SiblingsRange::with_single_toplevel(self, node);
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
         }
@@ -460,14 +459,9 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
-        SiblingsRange::with_single_toplevel(self, node).transplant(
-            self,
-            parent,
-            Some(prev_sibling),
-            next_sibling,
-        )
+        range.transplant(self, parent, Some(prev_sibling), next_sibling)
     }
 }
 
-- 
2.43.0


From afdde21b60901df152485c7f84ce788101854d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 3/8] fix: panic when removing a node that is not alive, as
 documented

remove, remove_hooked and remove_hooked_panic_safe are documented to panic if
the node has been already removed or does not exist, but silently returned.
---
 src/dynamic/forest.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index f02d8b4..4ed384b 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -771,9 +771,7 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
+            // This panics if the node is not alive.
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
@@ -886,9 +884,7 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
+            // This panics if the node is not alive.
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
-- 
2.43.0


From 0d526f8eda2e8c01d31bc603fb43b0962da9bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 4/8] fix: report cloning of a removed node as a precondition
 violation

clone_local_tree panicked with a [consistency] message, which is reserved for
bugs of the crate, when the user passed a node that is not alive.
---
 src/dynamic/forest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index 4ed384b..ca3b704 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -1705,7 +1705,7 @@ impl<Id: NodeId, T: Clone> Forest<Id, T> {
 
         let root_data = self
             .data(src_id)
-            .expect("[consistency] the node must be alive")
+            .expect("[precondition] the node must be alive")
             .clone();
         let root_id = self.create_root(root_data);
         add_mapping(src_id, root_id);
-- 
2.43.0


From b34076f4336b3fae49693c6ae4047ca4c62bd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 5/8] fix: report removed current node of ChainTreeBuilder as a
 precondition violation

Users can remove the current node by `forest_mut()`, so this is not a bug of
the crate that [consistency] messages are reserved for.
---
 src/dynamic/forest/chain_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic/forest/chain_builder.rs b/src/dynamic/forest/chain_builder.rs
index 26d54d2..018a210 100644
--- a/src/dynamic/forest/chain_builder.rs
+++ b/src/dynamic/forest/chain_builder.rs
@@ -219,7 +219,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()?;
         self.current = parent;
         Some(self)
@@ -234,7 +234,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()
             .expect("[precondition] the current node should not be the root");
         self.current = parent;
-- 
2.43.0


From ac49cc621098b97f2c8584aa58479fd262bda619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 6/8] fix: indent multiline data correctly in the debug print

The first line of multiline data got the indent of the following lines, and
indents of consecutive last children were written only once.
---
 src/dynamic/forest/debug_print.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..8e9fd63 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -141,9 +141,20 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
+        // Whitespace-only indents at the tail are not yet written at all.
+        let num_spaces = self
+            .indents
+            .iter()
+            .rev()
+            .take_while(|i| i.is_all_whitespace())
+            .count();
+        let (written, spaces) = self.indents.split_at(self.indents.len() - num_spaces);
+        if let Some(indent) = written.last() {
             self.fmt.write_str(indent.as_str_trailing_spaces())?;
         }
+        for indent in spaces {
+            self.fmt.write_str(indent.as_str())?;
+        }
 
         Ok(())
     }
@@ -160,12 +171,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -181,6 +187,9 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0


From b6f79378a71c7eb9709d2acc54d4c6a660b71d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 7/8] fix: print nodes with empty text in the debug print

Nodes whose data is formatted to an empty string were silently omitted.
---
 src/dynamic/forest/debug_print.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 8e9fd63..d4f669d 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -84,7 +84,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item has no indent, so nothing to write before the content.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
         }
     }
@@ -106,6 +107,9 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        // Write the indent here, since the item can be empty.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
 
         Ok(())
     }
-- 
2.43.0


From 28c8c658d3dd6be6e9998d21700e94da98024882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:26 +0000
Subject: [PATCH 8/8] fix: report a replaced nested builder as a precondition
 violation

---
 src/dynamic/forest/nest_builder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dynamic/forest/nest_builder.rs b/src/dynamic/forest/nest_builder.rs
index 6bccf33..69febdb 100644
--- a/src/dynamic/forest/nest_builder.rs
+++ b/src/dynamic/forest/nest_builder.rs
@@ -1,6 +1,7 @@
 //! Tree and forest builder.
 
 use core::mem;
+use core::ptr;
 
 use crate::dynamic::forest::Forest;
 use crate::dynamic::{InsertAs, NodeId};
@@ -82,6 +83,10 @@ impl<'a, Id: NodeId, T> NestTreeBuilder<'a, Id, T> {
     }
 
     /// Add a child possibly with its children.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `f` replaces the given builder with a builder for another forest.
     pub fn create_tree<F>(&mut self, data: T, f: F)
     where
         F: FnOnce(&mut NestTreeBuilder<'a, Id, T>),
@@ -93,7 +98,13 @@ impl<'a, Id: NodeId, T> NestTreeBuilder<'a, Id, T> {
             .expect("[consistency] `add_child` makes `current` `Some`");
         let old_root = mem::replace(&mut self.root, new_root);
 
+        let forest: *const Forest<Id, T> = self.forest;
         f(self);
+        // `root` and `current` are meaningful only for the forest they are created in.
+        assert!(
+            ptr::eq(forest, self.forest),
+            "[precondition] the builder must not be replaced with the one for another forest"
+        );
 
         self.current = Some(new_root);
         self.root = old_root;
-- 
2.43.0

