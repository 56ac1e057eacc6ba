From 57d2a52ea2161749b4ab5410d5d759dc9832cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 01/12] fix: visit every child when detaching children while
 iterating

Child iterators of mutable trees only looked up the next child after the
current one had been handed out, so detaching it ended the iteration. As a
consequence splice_children deleted only the first element of its range.
---
 src/cursor.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..19a3628 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1386,13 +1386,22 @@ impl SyntaxNodeChildren {
 impl Iterator for SyntaxNodeChildren {
     type Item = SyntaxNode;
     fn next(&mut self) -> Option<SyntaxNode> {
+        let mutable = self.parent.is_mutable();
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
-        } else {
+        } else if !mutable {
             self.next = self.next.take().and_then(|next| next.to_next_sibling());
         }
 
+        if mutable {
+            // The caller may detach the node we return, so look up the node
+            // after it now.
+            let curr = self.next.take()?;
+            self.next = curr.next_sibling();
+            return Some(curr);
+        }
+
         self.next.clone()
     }
 }
@@ -1448,13 +1457,22 @@ impl SyntaxElementChildren {
 impl Iterator for SyntaxElementChildren {
     type Item = SyntaxElement;
     fn next(&mut self) -> Option<SyntaxElement> {
+        let mutable = self.parent.is_mutable();
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-        } else {
+        } else if !mutable {
             self.next = self.next.take().and_then(|next| next.to_next_sibling_or_token());
         }
 
+        if mutable {
+            // The caller may detach the element we return, so look up the
+            // one after it now.
+            let curr = self.next.take()?;
+            self.next = curr.next_sibling_or_token();
+            return Some(curr);
+        }
+
         self.next.clone()
     }
 }
-- 
2.43.0


From a7b6570385e0d46d1c661861f21d271968a2c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 02/12] fix: don't yield a child again after filtering a
 started iterator by kind

---
 src/cursor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 19a3628..7a822c3 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1370,8 +1370,10 @@ impl SyntaxNodeChildren {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
         } else {
             SyntaxNodeChildrenByKind {
+                // For mutable trees `next` is still to come, otherwise it has
+                // already been returned.
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_by_kind(&matcher)
@@ -1441,8 +1443,10 @@ impl SyntaxElementChildren {
             }
         } else {
             SyntaxElementChildrenByKind {
+                // For mutable trees `next` is still to come, otherwise it has
+                // already been returned.
                 next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
+                    if self.parent.is_mutable() && matcher(node.kind()) {
                         Some(node)
                     } else {
                         node.next_sibling_or_token_by_kind(&matcher)
-- 
2.43.0


From f8ad0b32d17ba3ae2eef531875def34e0fcd1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 03/12] fix: look past childless nodes when finding first,
 last, next and previous tokens

---
 src/cursor.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 7a822c3..3ebc581 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -824,10 +824,12 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        iter::successors(self.first_child_or_token(), |it| it.next_sibling_or_token())
+            .find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        iter::successors(self.last_child_or_token(), |it| it.prev_sibling_or_token())
+            .find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1086,22 +1088,20 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
-        }
+        iter::once(SyntaxElement::from(self.clone()))
+            .chain(self.ancestors().map(SyntaxElement::from))
+            .find_map(|it| {
+                iter::successors(it.next_sibling_or_token(), |it| it.next_sibling_or_token())
+                    .find_map(|it| it.first_token())
+            })
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
-        }
+        iter::once(SyntaxElement::from(self.clone()))
+            .chain(self.ancestors().map(SyntaxElement::from))
+            .find_map(|it| {
+                iter::successors(it.prev_sibling_or_token(), |it| it.prev_sibling_or_token())
+                    .find_map(|it| it.last_token())
+            })
     }
 
     pub fn detach(&self) {
-- 
2.43.0


From a0432d276c8d7d0e8721de2ac93e6344f8b19ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 04/12] fix: resolve SyntaxNodePtrs to empty nodes

The descent followed only one of the children touching an empty range, so
pointers to empty nodes often did not resolve.
---
 src/ast.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 292dba9..7ab6860 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -20,7 +20,7 @@ use std::{
     marker::PhantomData,
 };
 
-use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange};
+use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange, WalkEvent};
 
 /// The main trait to go from untyped [`SyntaxNode`] to a typed AST. The
 /// conversion itself has zero runtime cost: AST and syntax nodes have exactly
@@ -93,13 +93,29 @@ impl<L: Language> SyntaxNodePtr<L> {
     /// NOTE: If this function is called on a mutable tree, it will panic
     ///
     /// The complexity is linear in the depth of the tree and logarithmic in
-    /// tree width. As most trees are shallow, thinking about this as
+    /// tree width (linear in tree width for empty nodes). As most trees are shallow, thinking about this as
     /// `O(log(N))` in the size of the tree is not too wrong!
     pub fn try_to_node(&self, root: &SyntaxNode<L>) -> Option<SyntaxNode<L>> {
         assert!(!root.is_mutable(), "tree is mutable");
         if root.parent().is_some() {
             return None;
         }
+        if self.range.is_empty() {
+            // Several children of a node may touch an empty range, so there is
+            // no single path to follow.
+            let mut preorder = root.preorder();
+            while let Some(event) = preorder.next() {
+                let WalkEvent::Enter(node) = event else { continue };
+                let range = node.text_range();
+                if range == self.range && node.kind() == self.kind {
+                    return Some(node);
+                }
+                if !range.contains_range(self.range) {
+                    preorder.skip_subtree();
+                }
+            }
+            return None;
+        }
         successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
             .find(|it| it.text_range() == self.range && it.kind() == self.kind)
     }
-- 
2.43.0


From 8e77bebdf36ddde6dffb040041fd26706a0a1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 05/12] fix: don't leak the root in to_next_sibling and
 to_next_sibling_or_token

---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 3ebc581..534cffd 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -766,11 +766,11 @@ impl SyntaxNode {
             return self.next_sibling();
         }
 
+        let parent = self.data().parent_node()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
         assert!(data.rc.get() == 1);
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
@@ -1206,10 +1206,10 @@ impl SyntaxElement {
             return self.next_sibling_or_token();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
-- 
2.43.0


From cc5258f65895e1e75aac7e6f63e3af503562e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 06/12] fix: check the insertion index before attaching a child

Panicking halfway left the inserted element with a dangling green pointer.
---
 src/cursor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 534cffd..1ade6dd 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,9 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        // The child must not be left half attached, so check this upfront.
+        let len = self.green().into_node().unwrap().children().len();
+        assert!(index <= len, "insertion index (is {index}) should be <= len (is {len})");
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From 58287eb731a6602975d8279d881a195b39846033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 07/12] fix: panic instead of looping forever when attaching a
 node to its own subtree

---
 src/cursor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1ade6dd..4dd5206 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -494,6 +494,8 @@ impl NodeData {
         // The child must not be left half attached, so check this upfront.
         let len = self.green().into_node().unwrap().children().len();
         assert!(index <= len, "insertion index (is {index}) should be <= len (is {len})");
+        let mut ancestors = iter::successors(Some(self), |it| it.parent());
+        assert!(!ancestors.any(|it| ptr::eq(it, child)), "can't attach a node to its own subtree");
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From ef9508aecd17bf54937d0ddc1997e58b6d58f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 08/12] fix: panic instead of wrapping when the text of a node
 is too long

---
 src/green/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/green/node.rs b/src/green/node.rs
index 832915b..a95e317 100644
--- a/src/green/node.rs
+++ b/src/green/node.rs
@@ -208,7 +208,7 @@ impl GreenNode {
         let mut text_len: TextSize = 0.into();
         let children = children.into_iter().map(|el| {
             let rel_offset = text_len;
-            text_len += el.text_len();
+            text_len = text_len.checked_add(el.text_len()).expect("text is too long");
             match el {
                 NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                 NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
-- 
2.43.0


From a933fb0d09a1e943e996b1fd325294ce23bfc819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 09/12] fix: check the text length before attaching a child

---
 src/cursor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 4dd5206..fac3494 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -494,8 +494,13 @@ impl NodeData {
         // The child must not be left half attached, so check this upfront.
         let len = self.green().into_node().unwrap().children().len();
         assert!(index <= len, "insertion index (is {index}) should be <= len (is {len})");
-        let mut ancestors = iter::successors(Some(self), |it| it.parent());
-        assert!(!ancestors.any(|it| ptr::eq(it, child)), "can't attach a node to its own subtree");
+        let ancestors = iter::successors(Some(self), |it| it.parent());
+        assert!(
+            !ancestors.clone().any(|it| ptr::eq(it, child)),
+            "can't attach a node to its own subtree"
+        );
+        let text_len = ancestors.last().unwrap().green().text_len();
+        assert!(text_len.checked_add(child.green().text_len()).is_some(), "text is too long");
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From efd8d9127f4292de62957d1bdb1d1c1f1ff01614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 10/12] fix: share nodes above empty nodes of kind zero

The hash of such a node was zero, which marks elements that are not
interned, so no node above it was interned either.
---
 src/green/node_cache.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 89740bf..562d2e7 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -56,7 +56,13 @@ fn node_hash(node: &GreenNodeData) -> u64 {
         }
         .hash(&mut h)
     }
-    h.finish()
+    finish_node_hash(h)
+}
+
+/// Zero marks elements which are not interned, so it can't be the hash of an
+/// interned node.
+fn finish_node_hash(h: FxHasher) -> u64 {
+    h.finish().max(1)
 }
 
 fn element_id(elem: GreenElementRef<'_>) -> *const () {
@@ -93,7 +99,7 @@ impl NodeCache {
                 }
                 hash.hash(&mut h);
             }
-            h.finish()
+            finish_node_hash(h)
         };
 
         // Green nodes are fully immutable, so it's ok to deduplicate them.
-- 
2.43.0


From 6e0c01c3bd24402ed3b1e9474e53dfa83132afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 11/12] fix: share nodes above tokens whose hash is zero

---
 src/green/node_cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 562d2e7..a648e23 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -43,7 +43,7 @@ fn token_hash(token: &GreenTokenData) -> u64 {
     let mut h = FxHasher::default();
     token.kind().hash(&mut h);
     token.text().hash(&mut h);
-    h.finish()
+    finish_hash(h)
 }
 
 fn node_hash(node: &GreenNodeData) -> u64 {
@@ -56,12 +56,12 @@ fn node_hash(node: &GreenNodeData) -> u64 {
         }
         .hash(&mut h)
     }
-    finish_node_hash(h)
+    finish_hash(h)
 }
 
 /// Zero marks elements which are not interned, so it can't be the hash of an
-/// interned node.
-fn finish_node_hash(h: FxHasher) -> u64 {
+/// interned one.
+fn finish_hash(h: FxHasher) -> u64 {
     h.finish().max(1)
 }
 
@@ -99,7 +99,7 @@ impl NodeCache {
                 }
                 hash.hash(&mut h);
             }
-            finish_node_hash(h)
+            finish_hash(h)
         };
 
         // Green nodes are fully immutable, so it's ok to deduplicate them.
@@ -141,7 +141,7 @@ impl NodeCache {
             let mut h = FxHasher::default();
             kind.hash(&mut h);
             text.hash(&mut h);
-            h.finish()
+            finish_hash(h)
         };
 
         let entry = self
-- 
2.43.0


From d1627c1271b779cf12d59f31ae66dd4ff9233cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 12/12] fix: kind filters that edit the tree no longer leave
 dangling siblings

The *_by_kind lookups borrowed the green children across calls of the
caller's matcher. A matcher that edited the (mutable) tree freed them and
the lookup went on reading freed memory. Look children up by index again
after each call instead.
---
 src/cursor.rs | 92 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index fac3494..520e54b 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -387,19 +387,22 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        let siblings = self.green_siblings().enumerate();
-        let index = self.index() as usize;
+        let mut index = self.index() as usize;
 
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
+        loop {
+            index += 1;
+            let kind = self.green_siblings().nth(index)?.as_ref().kind();
+            if !matcher(kind) {
+                continue;
             }
-            child.as_ref().into_node().and_then(|green| {
+            // The matcher may have edited the tree, so look the sibling up again.
+            let child = self.green_siblings().nth(index)?;
+            if let Some(green) = child.as_ref().into_node() {
                 let parent = self.parent_node()?;
                 let offset = parent.offset() + child.rel_offset();
-                Some(SyntaxNode::new_child(green, parent, index as u32, offset))
-            })
-        })
+                return Some(SyntaxNode::new_child(green, parent, index as u32, offset));
+            }
+        }
     }
 
     fn prev_sibling(&self) -> Option<SyntaxNode> {
@@ -430,17 +433,20 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        let siblings = self.green_siblings().enumerate();
-        let index = self.index() as usize;
+        let mut index = self.index() as usize;
 
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
+        loop {
+            index += 1;
+            let kind = self.green_siblings().nth(index)?.as_ref().kind();
+            if !matcher(kind) {
+                continue;
             }
+            // The matcher may have edited the tree, so look the sibling up again.
+            let child = self.green_siblings().nth(index)?;
             let parent = self.parent_node()?;
             let offset = parent.offset() + child.rel_offset();
-            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
-        })
+            return Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset));
+        }
     }
 
     fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
@@ -706,19 +712,24 @@ impl SyntaxNode {
     }
 
     pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
+        let mut index = 0;
+
+        loop {
+            let kind = self.green_ref().children().raw.nth(index)?.as_ref().kind();
+            if matcher(kind) {
+                // The matcher may have edited the tree, so look the child up again.
+                let child = self.green_ref().children().raw.nth(index)?;
+                if let Some(green) = child.as_ref().into_node() {
+                    return Some(SyntaxNode::new_child(
+                        green,
+                        self.clone(),
+                        index as u32,
+                        self.offset() + child.rel_offset(),
+                    ));
+                }
             }
-            child.as_ref().into_node().map(|green| {
-                SyntaxNode::new_child(
-                    green,
-                    self.clone(),
-                    index as u32,
-                    self.offset() + child.rel_offset(),
-                )
-            })
-        })
+            index += 1;
+        }
     }
 
     pub fn last_child(&self) -> Option<SyntaxNode> {
@@ -744,17 +755,22 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
+        let mut index = 0;
+
+        loop {
+            let kind = self.green_ref().children().raw.nth(index)?.as_ref().kind();
+            if matcher(kind) {
+                // The matcher may have edited the tree, so look the child up again.
+                let child = self.green_ref().children().raw.nth(index)?;
+                return Some(SyntaxElement::new(
+                    child.as_ref(),
+                    self.clone(),
+                    index as u32,
+                    self.offset() + child.rel_offset(),
+                ));
             }
-            Some(SyntaxElement::new(
-                child.as_ref(),
-                self.clone(),
-                index as u32,
-                self.offset() + child.rel_offset(),
-            ))
-        })
+            index += 1;
+        }
     }
 
     pub fn last_child_or_token(&self) -> Option<SyntaxElement> {
-- 
2.43.0

