From 91a1b55228a8693cf58428f6c1bebef6c7ae0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 01/57] fix: keep trivia before the first token inside the
 syntax tree root

---
 projects/oak-core/src/parser/state.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..3cb2bf1 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -132,6 +132,23 @@ impl<'a, L: Language> TreeSink<'a, L> {
         self.children.push(GreenTree::Node(node_ref));
         node_ref
     }
+
+    /// Extends the given root with the other children collected by this sink, in source order, if
+    /// it then spans the whole text. A parser that leaves tokens out on purpose keeps its own root.
+    fn adopt_surroundings(&self, root: &'a GreenNode<'a, L>, text_len: usize) -> &'a GreenNode<'a, L> {
+        let Some(index) = self.children.iter().rposition(|c| matches!(c, GreenTree::Node(n) if core::ptr::eq(*n, root)))
+        else {
+            return root;
+        };
+        if self.children.len() == 1 || self.children.iter().map(|c| c.len() as usize).sum::<usize>() != text_len {
+            return root;
+        }
+        let mut children = Vec::with_capacity(self.children.len() - 1 + root.children.len());
+        children.extend_from_slice(&self.children[..index]);
+        children.extend_from_slice(root.children);
+        children.extend_from_slice(&self.children[index + 1..]);
+        self.arena.alloc(GreenNode::new(root.kind, self.arena.alloc_slice_copy(&children)))
+    }
 }
 
 /// Encapsulates incremental parsing logic.
@@ -616,7 +633,11 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
     }
 
     /// Finishes the parsing process and returns the final output.
+    ///
+    /// Children of the sink around the root (such as the trivia consumed before the first
+    /// checkpoint could be taken) become children of the root, so that it spans the whole input.
     pub fn finish(self, result: Result<&'a GreenNode<'a, L>, OakError>) -> crate::parser::ParseOutput<'a, L> {
+        let result = result.map(|root| self.sink.adopt_surroundings(root, self.source.length()));
         crate::errors::OakDiagnostics { result, diagnostics: self.errors }
     }
 
-- 
2.43.0


From 8e16510257f5f75a99aeef1b02f9e534f3cb66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 02/57] fix: forget the previous tree after a failed parse
 instead of keeping a dangling root

---
 projects/oak-core/src/parser/session.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..2d98b07 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -35,6 +35,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Whether `last_root` lies in `arena_active` (set by `commit_generation`).
+    committed: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,7 +53,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -86,7 +88,12 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         // 1. Move active to old. Oldest is dropped.
         self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
 
-        // 2. last_root now correctly points into arena_old.
+        // 2. last_root now correctly points into arena_old, unless that generation failed: the edits
+        //    of the next one are relative to the failed text, and the tree before it is gone.
+        if !self.committed.replace(false) {
+            self.last_root.set(None)
+        }
+
         // 3. Clear last lex output to force re-lexing for the new generation.
         self.last_lex = None
     }
@@ -94,6 +101,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.committed.set(true)
     }
 }
 
-- 
2.43.0


From e045625422181b17b7e9b7f37aec5e8b3e9d78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 03/57] fix: reuse old syntax nodes only where a fresh parse
 would rebuild them

---
 projects/oak-core/src/parser/mod.rs     |  5 +-
 projects/oak-core/src/parser/session.rs | 20 +++++-
 projects/oak-core/src/parser/state.rs   | 86 ++++++++++++++++---------
 projects/oak-core/src/tree/cursor.rs    |  9 ++-
 4 files changed, 85 insertions(+), 35 deletions(-)

diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index eac77cb..81d45ef 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -113,7 +113,10 @@ where
 
     // 5. Commit Generation
     if let Ok(root) = output.result {
-        cache.commit_generation(root)
+        cache.commit_generation(root);
+        if !output.diagnostics.is_empty() {
+            cache.forbid_reuse()
+        }
     }
 
     output
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 2d98b07..4fcf4da 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -22,6 +22,10 @@ pub trait ParseCache<L: Language>: LexerCache<L> {
 
     /// Commits the result of a parsing generation.
     fn commit_generation(&self, root: &GreenNode<L>);
+
+    /// Keeps the next generation from reusing nodes of the current one, for which parsing produced
+    /// diagnostics: reused nodes are not parsed again, so their diagnostics would be lost.
+    fn forbid_reuse(&self) {}
 }
 
 /// A memory pool that manages the lifecycle of parsing generations.
@@ -37,6 +41,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     last_root: Cell<Option<NonNull<()>>>,
     /// Whether `last_root` lies in `arena_active` (set by `commit_generation`).
     committed: Cell<bool>,
+    /// Whether the next generation may reuse nodes of `last_root` (cleared by `forbid_reuse`).
+    reusable: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -53,7 +59,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), reusable: Cell::new(true), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -90,7 +96,9 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
 
         // 2. last_root now correctly points into arena_old, unless that generation failed: the edits
         //    of the next one are relative to the failed text, and the tree before it is gone.
-        if !self.committed.replace(false) {
+        let committed = self.committed.replace(false);
+        let reusable = self.reusable.replace(true);
+        if !committed || !reusable {
             self.last_root.set(None)
         }
 
@@ -103,6 +111,10 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
         self.committed.set(true)
     }
+
+    fn forbid_reuse(&self) {
+        self.reusable.set(false)
+    }
 }
 
 impl<L: Language + Send + Sync> LexerCache<L> for ParseSession<L> {
@@ -147,4 +159,8 @@ impl<'a, L: Language, C: ParseCache<L> + ?Sized> ParseCache<L> for &'a mut C {
     fn commit_generation(&self, root: &GreenNode<L>) {
         (**self).commit_generation(root)
     }
+
+    fn forbid_reuse(&self) {
+        (**self).forbid_reuse()
+    }
 }
diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 3cb2bf1..864b880 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -201,14 +201,28 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
     }
 
     fn is_dirty(&self, old_start: usize, old_end: usize) -> bool {
-        for (old_range, _) in &self.edits {
-            // Check for overlap between [old_start, old_end) and [old_range.start, old_range.end)
-            if old_start < old_range.end && old_end > old_range.start {
-                return true;
+        // An edit that only touches [old_start, old_end) may still change how it is parsed.
+        self.edits.iter().any(|(old_range, _)| old_start <= old_range.end && old_end >= old_range.start)
+    }
+}
+
+/// Yields the leaves below a node in source order.
+fn leaves<'a, L: Language>(node: &'a GreenNode<'a, L>) -> impl Iterator<Item = GreenLeaf<L>> + 'a {
+    leaves_from(Cursor::new(node), true)
+}
+
+/// Yields the leaves at and after the cursor in source order.
+fn leaves_from<'a, L: Language>(mut cursor: Cursor<'a, L>, mut more: bool) -> impl Iterator<Item = GreenLeaf<L>> + 'a {
+    core::iter::from_fn(move || {
+        while more {
+            let current = cursor.current();
+            more = cursor.step();
+            if let GreenTree::Leaf(leaf) = current {
+                return Some(leaf);
             }
         }
-        false
-    }
+        None
+    })
 }
 
 /// High-level API for parsers, coordinating token supply and tree construction.
@@ -575,34 +589,44 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
                 if let Some(node) = inc.cursor.as_node() {
                     if node.kind == kind {
                         if !inc.is_dirty(start, end) {
-                            // Verify tokens
-                            let node_len = node.text_len() as usize;
-
-                            // Check token stream
-                            let mut lookahead = 0;
-                            let mut current_pos = new_pos;
-                            let target_new_end = new_pos + node_len;
-
-                            while let Some(t) = self.tokens.peek_at(lookahead) {
-                                if t.span.start != current_pos {
-                                    // Token stream doesn't match expected positions
+                            // The new tokens must be the ones the node was built from...
+                            let mut tokens_consumed = 0;
+                            let mut matches = node.text_len() > 0;
+                            for leaf in leaves(node) {
+                                matches &= self.tokens.peek_at(tokens_consumed).is_some_and(|t| t.kind == leaf.kind && t.length() == leaf.length as usize);
+                                // Metadata refers to the arena of the previous generation.
+                                matches &= leaf.metadata.is_none();
+                                if !matches {
                                     break;
                                 }
-                                current_pos = t.span.end;
-
-                                if t.span.end == target_new_end {
-                                    // Found the end!
-                                    let tokens_consumed = lookahead + 1;
-                                    let new_node = deep_clone_node(node, self.sink.arena);
-                                    self.sink.push_node(new_node);
-                                    self.tokens.set_index(current_index + tokens_consumed);
-                                    inc.cursor.step_over();
-                                    return true;
-                                }
-                                else if t.span.end > target_new_end {
-                                    break;
+                                tokens_consumed += 1;
+                            }
+
+                            // ...followed by the same significant token, which the parser may have looked at.
+                            if matches {
+                                let mut next = inc.cursor.clone();
+                                let more = next.step_next();
+                                let mut lookahead = tokens_consumed;
+                                for leaf in leaves_from(next, more).map(Some).chain(core::iter::once(None)) {
+                                    let token = self.tokens.peek_at(lookahead);
+                                    matches = match (leaf, token) {
+                                        (Some(leaf), Some(token)) => token.kind == leaf.kind && token.length() == leaf.length as usize,
+                                        (Some(_), None) => false,
+                                        (None, token) => token.is_none_or(|t| t.length() == 0),
+                                    };
+                                    if !matches || token.is_none_or(|t| !L::TokenType::is_ignored(&t.kind)) {
+                                        break;
+                                    }
+                                    lookahead += 1;
                                 }
-                                lookahead += 1;
+                            }
+
+                            if matches {
+                                let new_node = deep_clone_node(node, self.sink.arena);
+                                self.sink.push_node(new_node);
+                                self.tokens.set_index(current_index + tokens_consumed);
+                                inc.cursor.step_over();
+                                return true;
                             }
                         }
                     }
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..ba85d91 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -13,7 +13,7 @@ use crate::{
 ///
 /// It maintains a path from the root to the current node, allowing for
 /// `parent()` navigation and offset tracking.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Cursor<'a, L: Language> {
     /// The current element (Node or Leaf).
     current: GreenTree<'a, L>,
@@ -24,6 +24,13 @@ pub struct Cursor<'a, L: Language> {
     stack: Vec<(&'a GreenNode<'a, L>, usize, usize)>,
 }
 
+// Manually implement Clone to avoid L: Clone bound
+impl<'a, L: Language> Clone for Cursor<'a, L> {
+    fn clone(&self) -> Self {
+        Self { current: self.current, offset: self.offset, stack: self.stack.clone() }
+    }
+}
+
 impl<'a, L: Language> Cursor<'a, L> {
     /// Creates a new cursor starting at the given root node.
     pub fn new(root: &'a GreenNode<'a, L>) -> Self {
-- 
2.43.0


From 31ba7a9495f26681689e1f00a05687df1316e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 04/57] fix: free arena chunks that do not fit into the pool

---
 projects/oak-core/src/memory/arena.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..cb1626e 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -325,18 +325,19 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
+            let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
+                // Hard limit to prevent memory bloating per thread.
+                let room = pool.len() < 64;
+                if room {
                     pool.push(ptr)
                 }
+                room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            // `try_with` fails during thread destruction, when the pool is gone.
+            if pooled.unwrap_or(false) {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From c8754582f6ef297519105a8352fde187480b62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 05/57] fix: find patterns that span several chunks of a source

---
 projects/oak-core/src/source/cursor.rs | 37 +++++++++++---------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..abc20ac 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -419,36 +419,29 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             return Some(self.offset);
         }
 
-        let pat_len = pattern.len();
-        let mut offset = self.offset;
+        let origin = self.offset;
         let end = self.source.length();
-        while offset < end {
+        let mut offset = origin;
+        let mut found = None;
+        while found.is_none() && offset < end {
             self.offset = offset;
             self.ensure_chunk();
             let text = self.chunk.slice_from(offset);
-            if let Some(pos) = text.find(pattern) {
-                return Some(offset + pos);
-            }
             let chunk_end = self.chunk.end();
-            if chunk_end >= end {
-                return None;
-            }
-
-            if pat_len > 1 {
-                let keep = pat_len - 1;
-                self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
-                self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
-                if let Some(pos) = self.scratch.find(pattern) {
-                    return Some(tail_abs_start + pos);
+            found = text.find(pattern).map(|pos| offset + pos);
+            if found.is_none() && chunk_end < end {
+                // The pattern may start in this chunk and continue in the following ones.
+                for (pos, _) in text.char_indices().filter(|(pos, _)| text.len() - pos < pattern.len()) {
+                    self.offset = offset + pos;
+                    if self.starts_with(pattern) {
+                        found = Some(self.offset);
+                        break;
+                    }
                 }
             }
-
             offset = chunk_end
         }
-        None
+        self.offset = origin;
+        found
     }
 }
-- 
2.43.0


From e163ca7e7191dee129057149001540a0f69233e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 06/57] fix: do not panic on an offset inside a character of a
 str source

---
 projects/oak-core/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-core/src/source/mod.rs b/projects/oak-core/src/source/mod.rs
index b41a51c..3439f93 100644
--- a/projects/oak-core/src/source/mod.rs
+++ b/projects/oak-core/src/source/mod.rs
@@ -208,7 +208,7 @@ impl Source for str {
         if offset >= len {
             return TextChunk { start: len, text: "" };
         }
-        TextChunk { start: offset, text: &self[offset..] }
+        TextChunk { start: offset, text: self.get(offset..).unwrap_or("") }
     }
 
     fn get_text_in(&self, range: Range<usize>) -> Cow<'_, str> {
-- 
2.43.0


From 3a6020e12992469584edd31234c07b3230e5809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 07/57] fix: apply an insertion before the replacement it is in
 front of

---
 projects/oak-core/src/parser/state.rs | 2 +-
 projects/oak-core/src/source/rope.rs  | 2 +-
 projects/oak-core/src/source/text.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 864b880..0043291 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -163,7 +163,7 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
     /// Creates a new incremental parsing context.
     pub fn new(old_root: &'a GreenNode<'a, L>, edits: &[crate::source::TextEdit]) -> Self {
         let mut sorted_edits: Vec<_> = edits.iter().collect();
-        sorted_edits.sort_by_key(|e| e.span.start);
+        sorted_edits.sort_by_key(|e| (e.span.start, e.span.end));
 
         let mut cumulative_delta = 0isize;
         let mut processed_edits = Vec::with_capacity(edits.len());
diff --git a/projects/oak-core/src/source/rope.rs b/projects/oak-core/src/source/rope.rs
index 5904e52..2ea8e46 100644
--- a/projects/oak-core/src/source/rope.rs
+++ b/projects/oak-core/src/source/rope.rs
@@ -51,7 +51,7 @@ impl RopeBuffer {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
diff --git a/projects/oak-core/src/source/text.rs b/projects/oak-core/src/source/text.rs
index 8cfe25a..3b2ebdd 100644
--- a/projects/oak-core/src/source/text.rs
+++ b/projects/oak-core/src/source/text.rs
@@ -69,7 +69,7 @@ impl SourceText {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
-- 
2.43.0


From e4ecc941237712730c967d3f838380c6c0fae34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 08/57] fix: do not reuse cached tokens that an edit removed or
 extends

---
 projects/oak-core/src/lexer/mod.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..997d3c5 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,8 +289,16 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
+        if relex_from == 0 {
+            return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
+        }
+
         // Fast path: fully re-used
-        if relex_from >= len {
+        let cached_end = match cache.count_tokens().checked_sub(1).and_then(|last| cache.get_token(last)) {
+            Some(last) => last.span.end,
+            None => 0,
+        };
+        if relex_from >= len && cached_end == len {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
                 tokens.extend_from_slice(cached)
@@ -304,12 +312,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     }
                 }
             }
-            let offset = tokens.last().map(|t| t.span.end).unwrap_or(0).min(len);
-            return Self { cursor: SourceCursor::new_at(source, offset), tokens, errors: vec![] };
-        }
-
-        if relex_from == 0 {
-            return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
+            return Self { cursor: SourceCursor::new_at(source, len), tokens, errors: vec![] };
         }
 
         let mut reused_tokens = Vec::new();
@@ -317,7 +320,8 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-            let idx = cached.partition_point(|t| t.span.end <= relex_from);
+            // (a token that touches the edit may continue into it)
+            let idx = cached.partition_point(|t| t.span.end < relex_from);
             let keep = idx.saturating_sub(BACKTRACK_TOKENS);
             if keep > 0 {
                 reused_tokens.extend_from_slice(&cached[..keep])
@@ -331,7 +335,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                 else {
                     break;
                 };
-                if token.span.end <= relex_from {
+                if token.span.end < relex_from {
                     reused_tokens.push(token);
                 }
                 else {
-- 
2.43.0


From 4c510b9aecd08089e242e4df6044e7459b2ac9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 09/57] fix: free the pooled arena chunks of a thread when it
 ends

---
 projects/oak-core/src/memory/arena.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cb1626e..8dc56ee 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -59,8 +59,22 @@ const ALIGN: usize = 8;
 //   are returned directly to the global allocator upon drop.
 // - **Automatic Cleanup:** All chunks are either recycled into this pool or freed when
 //   the `SyntaxArena` is dropped.
+// - **Thread Exit:** The pooled chunks are freed together with the thread they belong to.
 thread_local! {
-    static CHUNK_POOL: RefCell<Vec<NonNull<u8>>> = RefCell::new(Vec::with_capacity(16))
+    static CHUNK_POOL: RefCell<ChunkPool> = RefCell::new(ChunkPool(Vec::with_capacity(16)))
+}
+
+/// Standard-sized chunks that no arena uses.
+struct ChunkPool(Vec<NonNull<u8>>);
+
+impl Drop for ChunkPool {
+    fn drop(&mut self) {
+        let layout = Layout::from_size_align(CHUNK_SIZE, ALIGN).unwrap();
+        for ptr in self.0.drain(..) {
+            // Safety: every pooled chunk was allocated with this layout and is owned by the pool.
+            unsafe { dealloc(ptr.as_ptr(), layout) }
+        }
+    }
 }
 
 /// A high-performance bump allocator optimized for AST nodes.
@@ -277,7 +291,7 @@ impl SyntaxArena {
     unsafe fn alloc_chunk(size: usize) -> NonNull<u8> {
         // Try to get from pool if size matches the standard chunk size.
         if size == CHUNK_SIZE {
-            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().pop());
+            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().0.pop());
 
             if let Ok(Some(ptr)) = ptr {
                 return ptr;
@@ -328,9 +342,9 @@ impl SyntaxArena {
             let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
                 // Hard limit to prevent memory bloating per thread.
-                let room = pool.len() < 64;
+                let room = pool.0.len() < 64;
                 if room {
-                    pool.push(ptr)
+                    pool.0.push(ptr)
                 }
                 room
             });
-- 
2.43.0


From e7708a5bf37640f736c018e814da74558801dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 10/57] fix: keep references to arena metadata valid while more
 is added

---
 projects/oak-core/src/memory/arena.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index 8dc56ee..85d81f6 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -93,8 +93,9 @@ pub struct SyntaxArena {
     full_chunks: UnsafeCell<Vec<(NonNull<u8>, usize)>>,
     /// The start pointer of the current chunk (used for recycling/freeing).
     current_chunk_start: UnsafeCell<NonNull<u8>>,
-    /// Store for token provenance metadata.
-    metadata: UnsafeCell<Vec<TokenProvenance>>,
+    /// Store for token provenance metadata. Boxed, because references to it are handed out that
+    /// have to survive the growth of the list.
+    metadata: UnsafeCell<Vec<Box<TokenProvenance>>>,
 }
 
 impl SyntaxArena {
@@ -111,14 +112,14 @@ impl SyntaxArena {
     /// Stores a token provenance in the arena and returns its index.
     pub fn add_metadata(&self, provenance: TokenProvenance) -> std::num::NonZeroU32 {
         let metadata = unsafe { &mut *self.metadata.get() };
-        metadata.push(provenance);
+        metadata.push(Box::new(provenance));
         std::num::NonZeroU32::new(metadata.len() as u32).expect("Metadata index overflow")
     }
 
     /// Retrieves a token provenance by index.
     pub fn get_metadata(&self, index: std::num::NonZeroU32) -> Option<&TokenProvenance> {
         let metadata = unsafe { &*self.metadata.get() };
-        metadata.get(index.get() as usize - 1)
+        metadata.get(index.get() as usize - 1).map(|provenance| &**provenance)
     }
 
     /// Allocates a value of type `T` in the arena and moves `value` into it.
-- 
2.43.0


From d64fe76c38a2d794de264f7377970b2bef99dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 11/57] fix: clamp a column behind the end of a line to that
 line

---
 projects/oak-vfs/src/line_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/oak-vfs/src/line_map.rs b/projects/oak-vfs/src/line_map.rs
index 49e02d0..3b55e41 100644
--- a/projects/oak-vfs/src/line_map.rs
+++ b/projects/oak-vfs/src/line_map.rs
@@ -122,7 +122,8 @@ impl LineMap {
 
         let mut utf16 = 0usize;
         for (byte_idx, ch) in text.char_indices() {
-            if utf16 >= target {
+            // A column behind the line means the end of the line, not the start of the next one.
+            if utf16 >= target || ch == '\n' {
                 return (line_start + byte_idx).min(self.len);
             }
             utf16 += ch.len_utf16()
-- 
2.43.0


From ac025827ee9cda753e6a618df0f9136a5e4641ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 12/57] fix: edit REPL lines with multi-byte characters at the
 cursor instead of panicking

---
 projects/oak-repl/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..2497ff2 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -94,7 +94,7 @@ pub struct LineBuffer {
     lines: Vec<String>,
     /// The index of the current line being edited.
     current_line: usize,
-    /// The cursor position within the current line.
+    /// The cursor position within the current line, in characters.
     cursor_pos: usize,
 }
 
@@ -104,9 +104,16 @@ impl LineBuffer {
         Self { lines: vec![String::new()], current_line: 0, cursor_pos: 0 }
     }
 
+    /// The byte position of the cursor within the current line.
+    fn cursor_byte(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(at, _)| at)
+    }
+
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let at = self.cursor_byte();
+        self.lines[self.current_line].insert(at, ch);
         self.cursor_pos += 1;
     }
 
@@ -114,7 +121,8 @@ impl LineBuffer {
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let at = self.cursor_byte();
+            self.lines[self.current_line].remove(at);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0


From 85f530427f4f9e029fb19af5da96c73a71c73854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 13/57] fix: keep the symbols other files define, and update a
 file's symbols as one step

---
 projects/oak-resolver/src/lib.rs | 47 ++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..66264e8 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -4,9 +4,9 @@
 //! This crate provides traits and implementations for resolving module imports
 //! and managing global symbol tables across a workspace.
 
-use dashmap::DashMap;
+use dashmap::{DashMap, mapref::entry::Entry};
 use oak_symbols::SymbolInformation;
-use std::path::PathBuf;
+use std::{collections::BTreeMap, path::PathBuf};
 use url::Url;
 
 use std::sync::RwLock;
@@ -68,8 +68,8 @@ impl ModuleResolver for StandardResolver {
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
-    /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    /// Map of fully qualified name to its definitions, with the URI each was registered for.
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
 }
 
 impl GlobalSymbolTable {
@@ -80,20 +80,31 @@ impl GlobalSymbolTable {
 
     /// Add or update symbols for a file.
     pub fn update_file_symbols(&self, uri: String, symbols: Vec<SymbolInformation>) {
-        // Remove old qualified symbols for this file
-        if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
-            for sym in old_symbols {
-                let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
-            }
+        let mut definitions: BTreeMap<String, Vec<SymbolInformation>> = BTreeMap::new();
+        for sym in &symbols {
+            definitions.entry(self.make_qualified_name(sym)).or_default().push(sym.clone());
         }
 
-        // Add new symbols
-        for sym in &symbols {
-            let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+        // Holding the entry of the file makes concurrent updates of the same file take turns.
+        let mut file = self.file_symbols.entry(uri.clone()).or_default();
+        let stale: Vec<String> = file.iter().map(|sym| self.make_qualified_name(sym)).filter(|fqn| !definitions.contains_key(fqn)).collect();
+
+        // Each name switches from the old to the new definitions of this file in one step, and the
+        // definitions of other files stay.
+        for (fqn, symbols) in definitions {
+            let mut all = self.qualified_symbols.entry(fqn).or_default();
+            all.retain(|(owner, _)| *owner != uri);
+            all.extend(symbols.into_iter().map(|sym| (uri.clone(), sym)));
+        }
+        for fqn in stale {
+            if let Entry::Occupied(mut all) = self.qualified_symbols.entry(fqn) {
+                all.get_mut().retain(|(owner, _)| *owner != uri);
+                if all.get().is_empty() {
+                    all.remove();
+                }
+            }
         }
-        self.file_symbols.insert(uri, symbols);
+        *file = symbols;
     }
 
     fn make_qualified_name(&self, sym: &SymbolInformation) -> String {
@@ -103,9 +114,9 @@ impl GlobalSymbolTable {
         }
     }
 
-    /// Lookup a symbol by its fully qualified name.
+    /// Lookup a symbol by its fully qualified name. If several are defined, the latest one is returned.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
@@ -115,7 +126,7 @@ impl GlobalSymbolTable {
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).flat_map(|r| r.value().iter().map(|(_, sym)| sym.clone()).collect::<Vec<_>>()).collect()
     }
 }
 
-- 
2.43.0


From 28fe195840580dc3b6005087fdb8e1b79979513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 14/57] fix: keep serving MCP requests after a line that is not
 valid UTF-8

---
 projects/oak-mcp/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d185f11..b79b64d 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -120,10 +120,12 @@ where
         R: tokio::io::AsyncBufRead + Unpin,
         W: tokio::io::AsyncWrite + Unpin,
     {
-        let mut line = String::new();
+        let mut line = Vec::new();
 
-        while reader.read_line(&mut line).await.map_err(|e| e.to_string())? > 0 {
-            let input = line.trim();
+        // Lines are read as bytes: one that is not valid UTF-8 must not end the session.
+        while reader.read_until(b'\n', &mut line).await.map_err(|e| e.to_string())? > 0 {
+            let text = String::from_utf8_lossy(&line);
+            let input = text.trim();
             if input.is_empty() {
                 line.clear();
                 continue;
-- 
2.43.0


From e9161ecb332cbb0e5a7f7554f30909e3ca7647cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 15/57] fix: search imports in the workspace folders that are
 open now

---
 projects/oak-lsp/src/workspace.rs |  8 +++++++-
 projects/oak-resolver/src/lib.rs  | 21 ++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/projects/oak-lsp/src/workspace.rs b/projects/oak-lsp/src/workspace.rs
index 81c70e4..03cd529 100644
--- a/projects/oak-lsp/src/workspace.rs
+++ b/projects/oak-lsp/src/workspace.rs
@@ -48,6 +48,7 @@ impl WorkspaceManager {
     pub fn add_folder(&self, uri: String, _name: String) {
         if let Ok(url) = Url::parse(&uri) {
             if let Ok(path) = url.to_file_path() {
+                self.resolver.add_root_dir(path.clone());
                 self.folders.insert(uri, path);
             }
         }
@@ -55,7 +56,12 @@ impl WorkspaceManager {
 
     /// Remove a workspace folder.
     pub fn remove_folder(&self, uri: &str) {
-        self.folders.remove(uri);
+        if let Some((_, path)) = self.folders.remove(uri) {
+            // The same directory may still be open under another URI.
+            if !self.folders.iter().any(|folder| *folder.value() == path) {
+                self.resolver.remove_root_dir(&path)
+            }
+        }
     }
 
     /// Get the local path for a URI if it's within a workspace folder.
diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index 66264e8..eb83098 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -6,7 +6,10 @@
 
 use dashmap::{DashMap, mapref::entry::Entry};
 use oak_symbols::SymbolInformation;
-use std::{collections::BTreeMap, path::PathBuf};
+use std::{
+    collections::BTreeMap,
+    path::{Path, PathBuf},
+};
 use url::Url;
 
 use std::sync::RwLock;
@@ -35,6 +38,22 @@ impl StandardResolver {
             *dirs = root_dirs;
         }
     }
+
+    /// Adds a root directory to search after the others.
+    pub fn add_root_dir(&self, root_dir: PathBuf) {
+        if let Ok(mut dirs) = self.root_dirs.write() {
+            if !dirs.contains(&root_dir) {
+                dirs.push(root_dir)
+            }
+        }
+    }
+
+    /// Stops searching a root directory.
+    pub fn remove_root_dir(&self, root_dir: &Path) {
+        if let Ok(mut dirs) = self.root_dirs.write() {
+            dirs.retain(|dir| dir != root_dir)
+        }
+    }
 }
 
 impl ModuleResolver for StandardResolver {
-- 
2.43.0


From 33a2956db1e60ef315a3919626c20174c7cd56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 16/57] hook: report lock and counter accesses of the in-memory
 VFS under cfg(oak_mc)

---
 projects/oak-vfs/src/lib.rs        |   5 ++
 projects/oak-vfs/src/sync.rs       | 124 +++++++++++++++++++++++++++++
 projects/oak-vfs/src/vfs/memory.rs |  13 ++-
 3 files changed, 134 insertions(+), 8 deletions(-)
 create mode 100644 projects/oak-vfs/src/sync.rs

diff --git a/projects/oak-vfs/src/lib.rs b/projects/oak-vfs/src/lib.rs
index 10e139e..5242941 100644
--- a/projects/oak-vfs/src/lib.rs
+++ b/projects/oak-vfs/src/lib.rs
@@ -15,6 +15,11 @@ use oak_core::{
 use serde::{Deserialize, Serialize};
 
 mod line_map;
+#[allow(unexpected_cfgs)]
+mod sync;
+#[allow(unexpected_cfgs)]
+#[cfg(oak_mc)]
+pub use sync::mc;
 pub use line_map::LineMap;
 
 /// Type of a file in the VFS.
diff --git a/projects/oak-vfs/src/sync.rs b/projects/oak-vfs/src/sync.rs
new file mode 100644
index 0000000..d87118b
--- /dev/null
+++ b/projects/oak-vfs/src/sync.rs
@@ -0,0 +1,124 @@
+//! The locks and counters of the in-memory file system.
+//!
+//! Model checking builds (`--cfg oak_mc`) replace the standard ones by versions that report every
+//! access to a scheduler, which then explores the interleavings.
+
+#[cfg(not(oak_mc))]
+pub(crate) use std::sync::{RwLock, atomic::AtomicU32};
+
+#[cfg(oak_mc)]
+pub(crate) use self::mc::{AtomicU32, RwLock};
+
+#[cfg(oak_mc)]
+#[allow(missing_docs)]
+pub mod mc {
+    use std::{
+        mem::ManuallyDrop,
+        ops::{Deref, DerefMut},
+        sync::{LockResult, OnceLock, RwLockReadGuard, RwLockWriteGuard, TryLockError},
+    };
+
+    /// What the scheduler wants to hear about.
+    pub struct Hooks {
+        /// Another thread may run here.
+        pub access: fn(),
+        /// The calling thread cannot proceed until something is released.
+        pub blocked: fn(),
+        /// Something was released.
+        pub released: fn(),
+    }
+    pub static HOOKS: OnceLock<Hooks> = OnceLock::new();
+
+    fn access() {
+        if let Some(h) = HOOKS.get() {
+            (h.access)()
+        }
+    }
+
+    /// Calls `f` until it does not have to wait.
+    fn until<T>(mut f: impl FnMut() -> Option<T>) -> T {
+        access();
+        loop {
+            if let Some(x) = f() {
+                return x;
+            }
+            match HOOKS.get() {
+                Some(h) => (h.blocked)(),
+                None => std::thread::yield_now(),
+            }
+        }
+    }
+
+    pub struct Guard<G>(ManuallyDrop<G>);
+
+    impl<G: Deref> Deref for Guard<G> {
+        type Target = G::Target;
+        fn deref(&self) -> &G::Target {
+            &self.0
+        }
+    }
+
+    impl<G: DerefMut> DerefMut for Guard<G> {
+        fn deref_mut(&mut self) -> &mut G::Target {
+            &mut self.0
+        }
+    }
+
+    impl<G> Drop for Guard<G> {
+        fn drop(&mut self) {
+            // Safety: dropped once, here.
+            unsafe { ManuallyDrop::drop(&mut self.0) }
+            if let Some(h) = HOOKS.get() {
+                (h.released)()
+            }
+        }
+    }
+
+    #[derive(Default)]
+    pub struct RwLock<T>(std::sync::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub fn new(value: T) -> Self {
+            Self(std::sync::RwLock::new(value))
+        }
+        pub fn read(&self) -> LockResult<Guard<RwLockReadGuard<'_, T>>> {
+            until(|| match self.0.try_read() {
+                Ok(g) => Some(Ok(Guard(ManuallyDrop::new(g)))),
+                Err(TryLockError::WouldBlock) => None,
+                Err(TryLockError::Poisoned(_)) => panic!("poisoned lock"),
+            })
+        }
+        pub fn write(&self) -> LockResult<Guard<RwLockWriteGuard<'_, T>>> {
+            until(|| match self.0.try_write() {
+                Ok(g) => Some(Ok(Guard(ManuallyDrop::new(g)))),
+                Err(TryLockError::WouldBlock) => None,
+                Err(TryLockError::Poisoned(_)) => panic!("poisoned lock"),
+            })
+        }
+    }
+
+    impl<T> Deref for RwLock<T> {
+        type Target = std::sync::RwLock<T>;
+        fn deref(&self) -> &Self::Target {
+            access();
+            &self.0
+        }
+    }
+
+    #[derive(Default)]
+    pub struct AtomicU32(std::sync::atomic::AtomicU32);
+
+    impl AtomicU32 {
+        pub fn new(value: u32) -> Self {
+            Self(std::sync::atomic::AtomicU32::new(value))
+        }
+    }
+
+    impl Deref for AtomicU32 {
+        type Target = std::sync::atomic::AtomicU32;
+        fn deref(&self) -> &Self::Target {
+            access();
+            &self.0
+        }
+    }
+}
diff --git a/projects/oak-vfs/src/vfs/memory.rs b/projects/oak-vfs/src/vfs/memory.rs
index 1f0e825..f07883a 100644
--- a/projects/oak-vfs/src/vfs/memory.rs
+++ b/projects/oak-vfs/src/vfs/memory.rs
@@ -1,15 +1,12 @@
-use crate::{FileMetadata, FileType, Vfs, WritableVfs};
+use crate::{
+    FileMetadata, FileType, Vfs, WritableVfs,
+    sync::{AtomicU32, RwLock},
+};
 use oak_core::{
     Arc,
     source::{SourceId, SourceText},
 };
-use std::{
-    collections::HashMap,
-    sync::{
-        RwLock,
-        atomic::{AtomicU32, Ordering},
-    },
-};
+use std::{collections::HashMap, sync::atomic::Ordering};
 
 /// A memory-based Virtual File System implementation.
 /// Ideal for WASM environments or testing where physical disk access is not available.
-- 
2.43.0


From ad50acbbc0968509be8a7af68d2f5277df59d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 17/57] hook: report accesses to the symbol table's maps under
 cfg(oak_mc)

---
 projects/oak-resolver/src/lib.rs  |   9 ++-
 projects/oak-resolver/src/sync.rs | 107 ++++++++++++++++++++++++++++++
 2 files changed, 115 insertions(+), 1 deletion(-)
 create mode 100644 projects/oak-resolver/src/sync.rs

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index eb83098..48d1853 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -4,7 +4,8 @@
 //! This crate provides traits and implementations for resolving module imports
 //! and managing global symbol tables across a workspace.
 
-use dashmap::{DashMap, mapref::entry::Entry};
+use crate::sync::DashMap;
+use dashmap::mapref::entry::Entry;
 use oak_symbols::SymbolInformation;
 use std::{
     collections::BTreeMap,
@@ -14,6 +15,12 @@ use url::Url;
 
 use std::sync::RwLock;
 
+#[allow(unexpected_cfgs)]
+mod sync;
+#[allow(unexpected_cfgs)]
+#[cfg(oak_mc)]
+pub use sync::mc;
+
 /// Trait for resolving module imports to file URIs.
 pub trait ModuleResolver: Send + Sync {
     /// Resolve an import path relative to a base URI.
diff --git a/projects/oak-resolver/src/sync.rs b/projects/oak-resolver/src/sync.rs
new file mode 100644
index 0000000..cbc5445
--- /dev/null
+++ b/projects/oak-resolver/src/sync.rs
@@ -0,0 +1,107 @@
+//! The concurrent map of the symbol table.
+//!
+//! Model checking builds (`--cfg oak_mc`) wrap it so that every access is reported to a scheduler,
+//! which then explores the interleavings.
+
+#[cfg(not(oak_mc))]
+pub(crate) use dashmap::DashMap;
+
+#[cfg(oak_mc)]
+pub(crate) use self::mc::DashMap;
+
+#[cfg(oak_mc)]
+#[allow(missing_docs)]
+pub mod mc {
+    use dashmap::{
+        Entry,
+        mapref::one::{Ref, RefMut},
+        try_result::TryResult,
+    };
+    use std::{
+        borrow::Borrow,
+        hash::{BuildHasherDefault, DefaultHasher, Hash},
+        ops::Deref,
+        sync::OnceLock,
+    };
+
+    /// What the scheduler wants to hear about.
+    pub struct Hooks {
+        /// Another thread may run here.
+        pub access: fn(),
+        /// The calling thread cannot proceed until another one does something.
+        pub blocked: fn(),
+    }
+    pub static HOOKS: OnceLock<Hooks> = OnceLock::new();
+
+    fn access() {
+        if let Some(h) = HOOKS.get() {
+            (h.access)()
+        }
+    }
+
+    /// Calls `f` until it does not have to wait.
+    fn until<T>(mut f: impl FnMut() -> Option<T>) -> T {
+        access();
+        loop {
+            if let Some(x) = f() {
+                return x;
+            }
+            match HOOKS.get() {
+                Some(h) => (h.blocked)(),
+                None => std::thread::yield_now(),
+            }
+        }
+    }
+
+    /// Hashes alike in every run, so that schedules can be repeated.
+    type Map<K, V> = dashmap::DashMap<K, V, BuildHasherDefault<DefaultHasher>>;
+    pub struct DashMap<K, V>(Map<K, V>);
+
+    impl<K: Eq + Hash + Clone, V> DashMap<K, V> {
+        pub fn new() -> Self {
+            Self(Map::default())
+        }
+        pub fn entry(&self, key: K) -> Entry<'_, K, V> {
+            until(|| self.0.try_entry(key.clone()))
+        }
+        pub fn get<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<Ref<'_, K, V>>
+        where
+            K: Borrow<Q>,
+        {
+            until(|| match self.0.try_get(key) {
+                TryResult::Present(x) => Some(Some(x)),
+                TryResult::Absent => Some(None),
+                TryResult::Locked => None,
+            })
+        }
+        pub fn get_mut<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<RefMut<'_, K, V>>
+        where
+            K: Borrow<Q>,
+        {
+            until(|| match self.0.try_get_mut(key) {
+                TryResult::Present(x) => Some(Some(x)),
+                TryResult::Absent => Some(None),
+                TryResult::Locked => None,
+            })
+        }
+        pub fn insert(&self, key: K, value: V) -> Option<V> {
+            until(|| (!self.0.try_get_mut(&key).is_locked()).then_some(()));
+            self.0.insert(key, value)
+        }
+        pub fn remove<Q: Hash + Eq + ?Sized>(&self, key: &Q) -> Option<(K, V)>
+        where
+            K: Borrow<Q>,
+        {
+            until(|| (!self.0.try_get_mut(key).is_locked()).then_some(()));
+            self.0.remove(key)
+        }
+    }
+
+    impl<K, V> Deref for DashMap<K, V> {
+        type Target = Map<K, V>;
+        fn deref(&self) -> &Self::Target {
+            access();
+            &self.0
+        }
+    }
+}
-- 
2.43.0


From 49aa63cd8388f20ecef90ee2fa6253d739e61895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 18/57] hook: let a script stand in for the REPL's terminal
 under cfg(oak_mc)

---
 projects/oak-repl/src/lib.rs  | 24 +++++++-----
 projects/oak-repl/src/term.rs | 70 +++++++++++++++++++++++++++++++++++
 2 files changed, 85 insertions(+), 9 deletions(-)
 create mode 100644 projects/oak-repl/src/term.rs

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index 2497ff2..e831919 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -4,14 +4,20 @@
 //! A REPL framework deeply integrated with Oak language features.
 //! Supports multi-line input, syntax integrity checking, and custom highlighting.
 
+#[allow(unexpected_cfgs)]
+mod term;
+#[allow(unexpected_cfgs)]
+#[cfg(oak_mc)]
+pub use term::mc;
+
 use crossterm::{
     cursor::MoveToColumn,
-    event::{self, Event, KeyCode, KeyModifiers},
+    event::{Event, KeyCode, KeyModifiers},
     execute,
-    terminal::{self, Clear, ClearType},
+    terminal::{Clear, ClearType},
 };
 use oak_highlight::{AnsiExporter, Exporter, HighlightResult, OakHighlighter};
-use std::io::{self, Write};
+use std::io::Write;
 
 use std::{
     error::Error,
@@ -170,13 +176,13 @@ impl<H: ReplHandler> OakRepl<H> {
 
     /// Run the REPL loop.
     pub fn run(&mut self) -> Result<(), ReplError> {
-        let mut stdout = io::stdout();
+        let mut stdout = term::stdout();
         let mut line_buf = LineBuffer::new();
         let mut is_continuation = false;
         let _highlighter = OakHighlighter::new();
         let exporter = AnsiExporter;
 
-        terminal::enable_raw_mode()?;
+        term::enable_raw_mode()?;
 
         loop {
             // Draw the current line
@@ -194,7 +200,7 @@ impl<H: ReplHandler> OakRepl<H> {
             execute!(stdout, MoveToColumn(cursor_col))?;
             stdout.flush()?;
 
-            if let Event::Key(key_event) = event::read()? {
+            if let Event::Key(key_event) = term::read()? {
                 match key_event.code {
                     KeyCode::Char('c') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
                         println!("\nInterrupted");
@@ -215,7 +221,7 @@ impl<H: ReplHandler> OakRepl<H> {
                         let full_code = line_buf.full_text();
 
                         if self.handler.is_complete(&full_code) {
-                            terminal::disable_raw_mode()?;
+                            term::disable_raw_mode()?;
                             println!();
 
                             match self.handler.handle_line(&full_code) {
@@ -226,7 +232,7 @@ impl<H: ReplHandler> OakRepl<H> {
 
                             line_buf.clear();
                             is_continuation = false;
-                            terminal::enable_raw_mode()?;
+                            term::enable_raw_mode()?;
                         }
                         else {
                             // Continue multi-line input
@@ -261,7 +267,7 @@ impl<H: ReplHandler> OakRepl<H> {
             }
         }
 
-        terminal::disable_raw_mode()?;
+        term::disable_raw_mode()?;
         Ok(())
     }
 }
diff --git a/projects/oak-repl/src/term.rs b/projects/oak-repl/src/term.rs
new file mode 100644
index 0000000..0cdd29c
--- /dev/null
+++ b/projects/oak-repl/src/term.rs
@@ -0,0 +1,70 @@
+//! The terminal the REPL talks to.
+//!
+//! Model checking builds (`--cfg oak_mc`) replace it by a scripted one: key events are taken from
+//! a queue, and what is drawn is kept.
+
+#[cfg(not(oak_mc))]
+pub(crate) use crossterm::{
+    event::read,
+    terminal::{disable_raw_mode, enable_raw_mode},
+};
+#[cfg(not(oak_mc))]
+pub(crate) use std::io::stdout;
+
+#[cfg(oak_mc)]
+pub(crate) use self::mc::{disable_raw_mode, enable_raw_mode, read, stdout};
+
+#[cfg(oak_mc)]
+#[allow(missing_docs)]
+pub mod mc {
+    use crossterm::event::Event;
+    use std::{
+        cell::RefCell,
+        collections::VecDeque,
+        io::{Error, Result, Write},
+    };
+
+    #[derive(Default)]
+    pub struct Script {
+        /// Events still to be read.
+        pub events: VecDeque<Event>,
+        /// For each read, what was written since the read before.
+        pub frames: Vec<Vec<u8>>,
+        pub written: Vec<u8>,
+        pub raw: bool,
+    }
+    thread_local! {
+        pub static SCRIPT: RefCell<Script> = RefCell::default();
+    }
+
+    pub fn read() -> Result<Event> {
+        SCRIPT.with(|s| {
+            let mut s = s.borrow_mut();
+            let frame = std::mem::take(&mut s.written);
+            s.frames.push(frame);
+            s.events.pop_front().ok_or_else(|| Error::other("end of script"))
+        })
+    }
+    pub fn enable_raw_mode() -> Result<()> {
+        SCRIPT.with(|s| s.borrow_mut().raw = true);
+        Ok(())
+    }
+    pub fn disable_raw_mode() -> Result<()> {
+        SCRIPT.with(|s| s.borrow_mut().raw = false);
+        Ok(())
+    }
+
+    pub struct Screen;
+    pub fn stdout() -> Screen {
+        Screen
+    }
+    impl Write for Screen {
+        fn write(&mut self, bytes: &[u8]) -> Result<usize> {
+            SCRIPT.with(|s| s.borrow_mut().written.extend_from_slice(bytes));
+            Ok(bytes.len())
+        }
+        fn flush(&mut self) -> Result<()> {
+            Ok(())
+        }
+    }
+}
-- 
2.43.0


From e02ff895d489335281fceb14fd09a76866cb30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 19/57] fix: leave raw mode when a REPL session ends with an
 error

---
 projects/oak-repl/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e831919..7d9d2e0 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -176,14 +176,21 @@ impl<H: ReplHandler> OakRepl<H> {
 
     /// Run the REPL loop.
     pub fn run(&mut self) -> Result<(), ReplError> {
+        term::enable_raw_mode()?;
+        let result = self.run_loop();
+        // Also after an error, the terminal must not stay in raw mode.
+        term::disable_raw_mode()?;
+        result
+    }
+
+    /// Reads and handles input until the session ends.
+    fn run_loop(&mut self) -> Result<(), ReplError> {
         let mut stdout = term::stdout();
         let mut line_buf = LineBuffer::new();
         let mut is_continuation = false;
         let _highlighter = OakHighlighter::new();
         let exporter = AnsiExporter;
 
-        term::enable_raw_mode()?;
-
         loop {
             // Draw the current line
             execute!(stdout, MoveToColumn(0), Clear(ClearType::CurrentLine))?;
@@ -267,7 +274,6 @@ impl<H: ReplHandler> OakRepl<H> {
             }
         }
 
-        term::disable_raw_mode()?;
         Ok(())
     }
 }
-- 
2.43.0


From 2df5412416a90cf9760702e0150ed8a00ba962a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 20/57] fix: show the first-line prompt again once continuation
 lines are deleted

---
 projects/oak-repl/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index 7d9d2e0..c1de710 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -187,14 +187,14 @@ impl<H: ReplHandler> OakRepl<H> {
     fn run_loop(&mut self) -> Result<(), ReplError> {
         let mut stdout = term::stdout();
         let mut line_buf = LineBuffer::new();
-        let mut is_continuation = false;
         let _highlighter = OakHighlighter::new();
         let exporter = AnsiExporter;
 
         loop {
             // Draw the current line
             execute!(stdout, MoveToColumn(0), Clear(ClearType::CurrentLine))?;
-            let prompt = self.handler.prompt(is_continuation);
+            // Backspace may have joined the last continuation line with the first line.
+            let prompt = self.handler.prompt(line_buf.current_line > 0);
 
             let current_line_text = &line_buf.lines[line_buf.current_line];
 
@@ -212,7 +212,6 @@ impl<H: ReplHandler> OakRepl<H> {
                     KeyCode::Char('c') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
                         println!("\nInterrupted");
                         line_buf.clear();
-                        is_continuation = false;
                         continue;
                     }
                     KeyCode::Char('d') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
@@ -238,7 +237,6 @@ impl<H: ReplHandler> OakRepl<H> {
                             }
 
                             line_buf.clear();
-                            is_continuation = false;
                             term::enable_raw_mode()?;
                         }
                         else {
@@ -247,7 +245,6 @@ impl<H: ReplHandler> OakRepl<H> {
                             line_buf.lines.push(String::new());
                             line_buf.current_line += 1;
                             line_buf.cursor_pos = 0;
-                            is_continuation = true;
 
                             // Auto-indent
                             let indent_size = self.handler.get_indent(&full_code);
-- 
2.43.0


From 1c2da291fa70022b01221547a38165c05f05a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 21/57] fix: place the REPL cursor by display width, not by
 number of characters

---
 projects/oak-repl/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index c1de710..dcf908f 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -18,6 +18,7 @@ use crossterm::{
 };
 use oak_highlight::{AnsiExporter, Exporter, HighlightResult, OakHighlighter};
 use std::io::Write;
+use unicode_width::UnicodeWidthStr;
 
 use std::{
     error::Error,
@@ -203,7 +204,8 @@ impl<H: ReplHandler> OakRepl<H> {
 
             write!(stdout, "{}{}", prompt, displayed_text)?;
 
-            let cursor_col = (prompt.chars().count() + line_buf.cursor_pos) as u16;
+            // Wide characters take two columns.
+            let cursor_col = (prompt.width() + current_line_text[..line_buf.cursor_byte()].width()) as u16;
             execute!(stdout, MoveToColumn(cursor_col))?;
             stdout.flush()?;
 
-- 
2.43.0


From 70a5d5aaf16c0e11340e51bc4113cd81de3e799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 22/57] fix: measure printed lines in characters, not in bytes

---
 projects/oak-pretty-print/src/document/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-pretty-print/src/document/printer.rs b/projects/oak-pretty-print/src/document/printer.rs
index 8847c13..33e3904 100644
--- a/projects/oak-pretty-print/src/document/printer.rs
+++ b/projects/oak-pretty-print/src/document/printer.rs
@@ -36,7 +36,7 @@ impl Printer {
             Document::Nil => {}
             Document::Text(s) => {
                 self.output.push_str(s);
-                self.column += s.len()
+                self.column += s.chars().count()
             }
             Document::Concat(docs) => {
                 for d in docs {
@@ -112,7 +112,7 @@ impl Printer {
         match doc {
             Document::Nil => false,
             Document::Text(s) => {
-                *width += s.len();
+                *width += s.chars().count();
                 *width > self.config.max_width
             }
             Document::Concat(docs) => {
-- 
2.43.0


From bd1dc3a6728327a281ebb451b7b45654be4b4edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 23/57] fix: count the column from the last line break of a
 printed text

---
 .../oak-pretty-print/src/document/printer.rs   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projects/oak-pretty-print/src/document/printer.rs b/projects/oak-pretty-print/src/document/printer.rs
index 33e3904..cd6e725 100644
--- a/projects/oak-pretty-print/src/document/printer.rs
+++ b/projects/oak-pretty-print/src/document/printer.rs
@@ -36,7 +36,11 @@ impl Printer {
             Document::Nil => {}
             Document::Text(s) => {
                 self.output.push_str(s);
-                self.column += s.chars().count()
+                match s.rfind('\n') {
+                    // The text goes on in a new line.
+                    Some(end) => self.column = s[end + 1..].chars().count(),
+                    None => self.column += s.chars().count(),
+                }
             }
             Document::Concat(docs) => {
                 for d in docs {
@@ -112,8 +116,16 @@ impl Printer {
         match doc {
             Document::Nil => false,
             Document::Text(s) => {
-                *width += s.chars().count();
-                *width > self.config.max_width
+                for (i, line) in s.split('\n').enumerate() {
+                    if i > 0 {
+                        *width = 0
+                    }
+                    *width += line.chars().count();
+                    if *width > self.config.max_width {
+                        return true;
+                    }
+                }
+                false
             }
             Document::Concat(docs) => {
                 for d in docs {
-- 
2.43.0


From b1485417b5182fefca5986ef1819a4409ffb6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 24/57] fix: escape theme colours in the style attribute of
 highlighted HTML

---
 projects/oak-highlight/src/exporters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-highlight/src/exporters/mod.rs b/projects/oak-highlight/src/exporters/mod.rs
index 57b1f9d..64e5653 100644
--- a/projects/oak-highlight/src/exporters/mod.rs
+++ b/projects/oak-highlight/src/exporters/mod.rs
@@ -96,11 +96,11 @@ impl HtmlExporter {
         let mut style_attrs = Vec::new();
 
         if let Some(color) = &segment.style.color {
-            style_attrs.push(format!("color: {}", color))
+            style_attrs.push(format!("color: {}", html_escape(color)))
         }
 
         if let Some(bg_color) = &segment.style.background_color {
-            style_attrs.push(format!("background-color: {}", bg_color))
+            style_attrs.push(format!("background-color: {}", html_escape(bg_color)))
         }
 
         if segment.style.bold {
-- 
2.43.0


From 8e3c5ffcd8cffa68dad57d9bbb4f4cb93ee7434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 25/57] fix: show diagnostics at the empty line after the last
 line break

---
 projects/oak-diagnostic/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index b1dcc49..a791c64 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -208,7 +208,7 @@ impl Emitter for ConsoleEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines: Vec<&str> = full_text.lines().chain([""]).collect();
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -353,7 +353,7 @@ impl Emitter for PlainTextEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines: Vec<&str> = full_text.lines().chain([""]).collect();
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -460,7 +460,7 @@ impl Emitter for HtmlEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines: Vec<&str> = full_text.lines().chain([""]).collect();
         let sev_class = match diagnostic.severity {
             Severity::Error => "error",
             Severity::Warning => "warning",
-- 
2.43.0


From fca1c9686ff9bc616a2572cc4e10c758b56046a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 26/57] fix: escape the code of a diagnostic in HTML

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index a791c64..ea81ea8 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -472,7 +472,7 @@ impl Emitter for HtmlEmitter {
         out.push_str("<div class=\"diagnostic\">\n");
         out.push_str(&format!("  <div class=\"header {}\">\n", sev_class));
         if let Some(code) = &diagnostic.code {
-            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", code, html_escape(&message)));
+            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", html_escape(code), html_escape(&message)));
         }
         else {
             out.push_str(&format!("    <span class=\"severity\">[{}]</span> <span class=\"message\">{}</span>\n", sev_class, html_escape(&message)));
-- 
2.43.0


From 90c4b9f5eb9b8f79ae0f187885b04cd95a699cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 27/57] fix: label whole characters in diagnostics of errors

---
 projects/oak-diagnostic/src/lib.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index ea81ea8..fdf7b48 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -137,29 +137,19 @@ impl DiagnosticProvider for OakError {
         match kind {
             OakErrorKind::IoError { .. } => {}
             OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here");
+                diag = diag.with_label(char_range(source, *offset), "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("token", token.clone());
+                diag = diag.with_label(char_range(source, *offset), "here").with_arg("token", token.clone());
             }
             OakErrorKind::ExpectedToken { expected, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("expected", expected.clone());
+                diag = diag.with_label(char_range(source, *offset), "here").with_arg("expected", expected.clone());
             }
             OakErrorKind::ExpectedName { name_kind, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("name_kind", name_kind.clone());
+                diag = diag.with_label(char_range(source, *offset), "here").with_arg("name_kind", name_kind.clone());
             }
             OakErrorKind::TrailingCommaNotAllowed { offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here");
+                diag = diag.with_label(char_range(source, *offset), "here");
             }
             _ => {}
         }
@@ -168,6 +158,13 @@ impl DiagnosticProvider for OakError {
     }
 }
 
+/// The range of the character at `offset`.
+fn char_range<S: Source + ?Sized>(source: &S, offset: usize) -> core::range::Range<usize> {
+    let start = offset.min(source.length());
+    let width = source.get_char_at(start).map_or(1, |c| c.len_utf8());
+    core::range::Range { start, end: (start + width).min(source.length()) }
+}
+
 /// A trait for localizing diagnostic messages.
 pub trait Localizer {
     /// Localize a message given its key and arguments.
-- 
2.43.0


From c5d11249190679df09cbddc82e93a29d1a9eb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 28/57] fix: label the place of an unexpected end of file

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index fdf7b48..6e062e9 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -136,7 +136,7 @@ impl DiagnosticProvider for OakError {
 
         match kind {
             OakErrorKind::IoError { .. } => {}
-            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
+            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } | OakErrorKind::UnexpectedEof { offset, .. } => {
                 diag = diag.with_label(char_range(source, *offset), "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
-- 
2.43.0


From ba257aa8d7d09013c73316f6d6cd361efb1b48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 29/57] fix: outline a document from its tree when the index
 has no symbols for it

---
 projects/oak-lsp/src/service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/oak-lsp/src/service.rs b/projects/oak-lsp/src/service.rs
index f4adc11..ba1c9a5 100644
--- a/projects/oak-lsp/src/service.rs
+++ b/projects/oak-lsp/src/service.rs
@@ -6,6 +6,7 @@ use oak_core::{
     tree::RedNode,
 };
 use oak_resolver::ModuleResolver;
+use oak_symbols::{SymbolProvider, UniversalSymbolProvider};
 use oak_vfs::{Vfs, WritableVfs};
 use std::future::Future;
 
@@ -100,11 +101,11 @@ pub trait LanguageService: Send + Sync {
     fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<StructureItem>> + Send + 'a {
         let uri = uri.to_string();
         async move {
-            let _source = match self.get_source(&uri) {
+            let source = match self.get_source(&uri) {
                 Some(s) => s,
                 None => return vec![],
             };
-            let _root = match self.get_root(&uri).await {
+            let root = match self.get_root(&uri).await {
                 Some(r) => r,
                 None => return vec![],
             };
@@ -112,7 +113,7 @@ pub trait LanguageService: Send + Sync {
             if !symbols.is_empty() {
                 return symbols.into_iter().map(StructureItem::from).collect();
             }
-            vec![]
+            UniversalSymbolProvider::new().document_symbols(&uri, &root, &source).into_iter().map(StructureItem::from).collect()
         }
     }
 
-- 
2.43.0


From 1d72011777a1a0041c28a71eabca7d48964fef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 30/57] fix: find the definition of references nested in other
 nodes

---
 projects/oak-lsp/src/service.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projects/oak-lsp/src/service.rs b/projects/oak-lsp/src/service.rs
index ba1c9a5..693e84d 100644
--- a/projects/oak-lsp/src/service.rs
+++ b/projects/oak-lsp/src/service.rs
@@ -169,11 +169,18 @@ pub trait LanguageService: Send + Sync {
 
             // 1. Identify token at range
             use oak_core::tree::RedTree;
-            let node = match root.child_at_offset(range.start) {
+            let mut node = match root.child_at_offset(range.start) {
                 Some(RedTree::Node(n)) => n,
                 Some(RedTree::Leaf(l)) => return vec![LocationRange { uri: uri.clone().into(), range: l.span }],
                 None => root,
             };
+            // The reference may be nested in other nodes
+            while node.green.kind.role().universal() != oak_core::language::UniversalElementRole::Reference {
+                match node.child_at_offset(range.start) {
+                    Some(RedTree::Node(n)) => node = n,
+                    _ => break,
+                }
+            }
 
             // 2. If it's a reference, try to resolve it
             let role = node.green.kind.role();
-- 
2.43.0


From f48747ec6471f1ebc92c83ec3917c0ec63f3f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 31/57] fix: connectivity of a graph does not depend on the
 node the walk starts at

---
 projects/oak-visualize/src/graph/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a7cbe15..b5d73bb 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -143,8 +143,18 @@ impl Graph {
 
             visited.insert(node);
 
-            for neighbor in self.get_neighbors(node) {
-                if !visited.contains(neighbor) {
+            // Follow edges both ways, whatever node the walk starts at, and only to nodes of the graph
+            for edge in &self.edges {
+                let neighbor = if edge.from == node {
+                    edge.to.as_str()
+                }
+                else if edge.to == node {
+                    edge.from.as_str()
+                }
+                else {
+                    continue;
+                };
+                if self.nodes.contains_key(neighbor) && !visited.contains(neighbor) {
                     stack.push(neighbor);
                 }
             }
-- 
2.43.0


From 602139e28fa633c4d9fba9600b66b2c232d16532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 32/57] fix: a single undirected edge is no cycle

---
 projects/oak-visualize/src/graph/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index b5d73bb..6a80af5 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -171,21 +171,36 @@ impl Graph {
 
         for node_id in self.nodes.keys() {
             if !visited.contains(node_id) {
-                self.dfs_cycles(node_id, &mut visited, &mut rec_stack, &mut path, &mut cycles);
+                self.dfs_cycles(node_id, None, &mut visited, &mut rec_stack, &mut path, &mut cycles);
             }
         }
 
         cycles
     }
 
-    fn dfs_cycles(&self, node: &str, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
+    fn dfs_cycles(&self, node: &str, via: Option<usize>, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
         visited.insert(node.to_string());
         rec_stack.insert(node.to_string());
         path.push(node.to_string());
 
-        for neighbor in self.get_neighbors(node) {
+        for (index, edge) in self.edges.iter().enumerate() {
+            let neighbor = if edge.from == node {
+                edge.to.as_str()
+            }
+            else if !self.directed && edge.to == node {
+                edge.from.as_str()
+            }
+            else {
+                continue;
+            };
+
+            // Going back along the undirected edge that led here is no cycle
+            if !self.directed && via == Some(index) {
+                continue;
+            }
+
             if !visited.contains(neighbor) {
-                self.dfs_cycles(neighbor, visited, rec_stack, path, cycles);
+                self.dfs_cycles(neighbor, Some(index), visited, rec_stack, path, cycles);
             }
             else if rec_stack.contains(neighbor) {
                 // Found a cycle
-- 
2.43.0


From a161511929cd8373fab242200d27a7205eb5aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 33/57] fix: layer graphs with edges from or to unknown nodes

---
 projects/oak-visualize/src/graph/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 6a80af5..f0019d9 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -540,7 +540,11 @@ impl GraphLayout {
 
         // Calculate in-degrees
         for edge in &graph.edges {
-            *in_degree.get_mut(&edge.to).unwrap() += 1;
+            if graph.nodes.contains_key(&edge.from) {
+                if let Some(degree) = in_degree.get_mut(&edge.to) {
+                    *degree += 1
+                }
+            }
         }
 
         // Process layers
-- 
2.43.0


From d12670d9504e37f44991dca0a85797bf332d146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 34/57] fix: keep the labels of edges in graph layouts

---
 projects/oak-visualize/src/graph/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index f0019d9..72b9f4e 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -388,7 +388,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -425,7 +426,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -468,7 +470,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -507,7 +510,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
-- 
2.43.0


From 3f8a3bac35413498da8c003af440b984a0f1b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 35/57] fix: edges without length pull at nothing in the
 force-directed layout

---
 projects/oak-visualize/src/layout/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 8729ca6..4c6ad27 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -326,11 +326,14 @@ impl LayoutEngine for ForceDirectedLayout {
                     let distance = pos1.distance_to(pos2);
                     let ideal_length = config.horizontal_spacing;
                     let force_magnitude = self.spring_strength * (distance - ideal_length);
-                    let force_direction = Point::new(diff.x / distance, diff.y / distance);
-                    let force = Point::new(force_direction.x * force_magnitude, force_direction.y * force_magnitude);
 
-                    *forces.get_mut(&edge.from).unwrap() = *forces.get(&edge.from).unwrap() + force;
-                    *forces.get_mut(&edge.to).unwrap() = *forces.get(&edge.to).unwrap() - force
+                    if distance > 0.0 {
+                        let force_direction = Point::new(diff.x / distance, diff.y / distance);
+                        let force = Point::new(force_direction.x * force_magnitude, force_direction.y * force_magnitude);
+
+                        *forces.get_mut(&edge.from).unwrap() = *forces.get(&edge.from).unwrap() + force;
+                        *forces.get_mut(&edge.to).unwrap() = *forces.get(&edge.to).unwrap() - force
+                    }
                 }
             }
 
-- 
2.43.0


From 11b5dde6a8f0553ef785874d8dba3cb19b2cf34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 36/57] fix: keep labels and types of nodes in layouts

---
 projects/oak-visualize/src/layout/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 4c6ad27..2a18db4 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -221,8 +221,10 @@ impl LayoutEngine for HierarchicalLayout {
         };
 
         // Add nodes to layout
-        for (id, rect) in positioned_nodes {
-            layout.add_node(id, rect);
+        for node in nodes {
+            if let Some(rect) = positioned_nodes.get(&node.id) {
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), *rect, node.node_type);
+            }
         }
 
         // Add edges with routing
@@ -350,7 +352,7 @@ impl LayoutEngine for ForceDirectedLayout {
         for node in nodes {
             if let Some(position) = positions.get(&node.id) {
                 let rect = Rect::new(Point::new(position.x - node.size.width / 2.0, position.y - node.size.height / 2.0), node.size);
-                layout.add_node(node.id.clone(), rect)
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), rect, node.node_type)
             }
         }
 
-- 
2.43.0


From 03e4ff5655f9552e443c2b0eaae4cb856ada847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 37/57] fix: lay out hierarchies with cycles and unknown nodes

---
 projects/oak-visualize/src/layout/mod.rs | 25 +++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 2a18db4..899251d 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -397,20 +397,35 @@ fn build_hierarchy(nodes: &[LayoutNode], edges: &[LayoutEdge]) -> crate::Result<
     }
 
     let mut roots = Vec::new();
+    let mut placed: std::collections::HashSet<String> = std::collections::HashSet::new();
     for node in nodes {
         if !has_parent.contains(&node.id) {
-            roots.push(build_hierarchy_node(&node.id, nodes, &children_map))
+            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut Vec::new(), &mut placed))
+        }
+    }
+    // Nodes that only cycles lead to
+    for node in nodes {
+        if !placed.contains(&node.id) {
+            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut Vec::new(), &mut placed))
         }
     }
 
     Ok(roots)
 }
 
-fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>) -> HierarchyNode {
-    let node = nodes.iter().find(|n| n.id == id).unwrap();
-    let children = children_map.get(id).map(|child_ids| child_ids.iter().map(|child_id| build_hierarchy_node(child_id, nodes, children_map)).collect()).unwrap_or_default();
+/// Builds the hierarchy below a node, without unknown nodes and without edges back to a node of `path`.
+fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>, path: &mut Vec<String>, placed: &mut std::collections::HashSet<String>) -> Option<HierarchyNode> {
+    let node = nodes.iter().find(|n| n.id == id)?;
+    if path.iter().any(|ancestor| ancestor == id) {
+        return None;
+    }
+
+    placed.insert(id.to_string());
+    path.push(id.to_string());
+    let children = children_map.get(id).map(|child_ids| child_ids.iter().filter_map(|child_id| build_hierarchy_node(child_id, nodes, children_map, path, placed)).collect()).unwrap_or_default();
+    path.pop();
 
-    HierarchyNode { id: id.to_string(), children, size: node.size }
+    Some(HierarchyNode { id: id.to_string(), children, size: node.size })
 }
 
 fn layout_top_down(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
-- 
2.43.0


From 257ffa2018f68f8c313f7da511a961898d85f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 38/57] fix: bottom-up and right-left layouts run in their
 direction

---
 projects/oak-visualize/src/layout/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 899251d..15a492c 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -480,12 +480,24 @@ fn layout_node_left_right(node: &HierarchyNode, x: &mut f64, y: f64, config: &La
 
 fn layout_bottom_up(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
     // Similar to top_down but reversed
-    layout_top_down(hierarchy, config)
+    let mut positions = layout_top_down(hierarchy, config);
+    let bottom = positions.values().map(|rect| rect.max_y()).fold(0.0, f64::max) + config.margin;
+    for rect in positions.values_mut() {
+        rect.origin.y = bottom - rect.max_y()
+    }
+
+    positions
 }
 
 fn layout_right_left(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
     // Similar to left_right but reversed
-    layout_left_right(hierarchy, config)
+    let mut positions = layout_left_right(hierarchy, config);
+    let right = positions.values().map(|rect| rect.max_x()).fold(0.0, f64::max) + config.margin;
+    for rect in positions.values_mut() {
+        rect.origin.x = right - rect.max_x()
+    }
+
+    positions
 }
 
 fn route_edge(from_rect: &Rect, to_rect: &Rect, from_id: &str, to_id: &str, label: Option<String>) -> Edge {
-- 
2.43.0


From 81a0157c1dff7b8840866e35a3dd75e2c018f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 39/57] fix: draw the edges of trees

---
 projects/oak-visualize/src/tree/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 4337796..355a6e7 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -412,7 +412,10 @@ impl TreeLayout {
     /// Recursively add edges from the given node to all its descendants
     fn add_tree_edges(&self, node: &TreeNode, layout: &mut Layout) {
         for child in &node.children {
-            let edge = Edge::new(node.id.clone(), child.id.clone());
+            let mut edge = Edge::new(node.id.clone(), child.id.clone());
+            if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&node.id), layout.nodes.get(&child.id)) {
+                edge = edge.with_points(vec![from_node.rect.center(), to_node.rect.center()])
+            }
             layout.add_edge(edge);
 
             // Recursively add edges for children
-- 
2.43.0


From b6d20a5f020cf4a6c2c5c56d9da5d59fa2792f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 40/57] fix: nodes of different widths do not overlap in
 layered trees

---
 projects/oak-visualize/src/tree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 355a6e7..fac97a6 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -322,7 +322,7 @@ impl TreeLayout {
             0.0 // Root at center
         }
         else {
-            *current_x + node_size.width / 2.0
+            *current_x + self.config.node_width / 2.0
         };
 
         let y = level as f64 * self.config.level_distance;
-- 
2.43.0


From c2d23aaaacb4bf2f0a2dc0294b4df9e572fc415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 41/57] fix: nodes wider than their children do not overlap in
 compact trees

---
 projects/oak-visualize/src/tree/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index fac97a6..2341b59 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -370,7 +370,9 @@ impl TreeLayout {
             positioned_children.push(positioned_child);
         }
 
-        let subtree_width = if positioned_children.is_empty() { size.width } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
+        let children_width = if positioned_children.is_empty() { 0.0 } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
+        // A node may be wider than all of its children
+        let subtree_width = children_width.max(size.width);
 
         // Center the node over its children
         let node_x = if positioned_children.is_empty() { x } else { x + subtree_width / 2.0 - size.width / 2.0 };
-- 
2.43.0


From 2c5aed439a61f0053100e3534ddb719246727ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 42/57] fix: write the class attribute of styled SVG elements
 once

---
 projects/oak-visualize/src/render/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index e704a16..70e9bf1 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -208,17 +208,19 @@ impl SvgRenderer {
         let stroke_color = style.and_then(|s| s.stroke_color.as_ref()).unwrap_or(&self.config.node_stroke_color);
         let stroke_width = style.and_then(|s| s.stroke_width).unwrap_or(self.config.node_stroke_width);
 
+        let class = match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => format!("node {}", class),
+            None => "node".to_string(),
+        };
+
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width, class));
 
         // Add custom attributes
         if let Some(style) = style {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="node {}""#, class))
-            }
             for (key, value) in &style.attributes {
                 svg.push_str(&format!(r#" {}="{}""#, key, value))
             }
@@ -261,7 +263,12 @@ impl SvgRenderer {
             path_data.push_str(&format!(" L {} {}", point.x, point.y))
         }
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, stroke_color, stroke_width));
+        let class = match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => format!("edge {}", class),
+            None => "edge".to_string(),
+        };
+
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="{}""#, path_data, stroke_color, stroke_width, class));
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
@@ -273,9 +280,6 @@ impl SvgRenderer {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="edge {}""#, class))
-            }
             for (key, value) in &style.attributes {
                 svg.push_str(&format!(r#" {}="{}""#, key, value))
             }
-- 
2.43.0


From d0c6230147f6446f22c89c46e79b1e25628bbd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 43/57] fix: escape labels, colours and attributes in SVG

---
 projects/oak-visualize/src/render/mod.rs | 30 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index 70e9bf1..9d935b1 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -106,6 +106,11 @@ impl ElementStyle {
     }
 }
 
+/// Escapes text for use in SVG content and attribute values
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
+}
+
 /// SVG renderer for layouts
 pub struct SvgRenderer {
     config: RenderConfig,
@@ -148,7 +153,7 @@ impl SvgRenderer {
         svg.push('\n');
 
         // Background
-        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, self.config.background_color));
+        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, escape(&self.config.background_color)));
         svg.push('\n');
 
         // Define styles
@@ -173,7 +178,7 @@ impl SvgRenderer {
                 self.config.arrow_size,
                 self.config.arrow_size,
                 self.config.arrow_size,
-                self.config.edge_color
+                escape(&self.config.edge_color)
             ));
             svg.push('\n')
         }
@@ -214,7 +219,7 @@ impl SvgRenderer {
         };
 
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width, class));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, escape(fill_color), escape(stroke_color), stroke_width, escape(&class)));
 
         // Add custom attributes
         if let Some(style) = style {
@@ -222,7 +227,7 @@ impl SvgRenderer {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape(value)))
             }
         }
 
@@ -236,7 +241,12 @@ impl SvgRenderer {
             let center = rect.center();
             svg.push_str(&format!(
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
-                center.x, center.y, text_color, text_size, self.config.font_family, node.label
+                center.x,
+                center.y,
+                escape(text_color),
+                text_size,
+                escape(&self.config.font_family),
+                escape(&node.label)
             ));
             svg.push('\n')
         }
@@ -268,7 +278,7 @@ impl SvgRenderer {
             None => "edge".to_string(),
         };
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="{}""#, path_data, stroke_color, stroke_width, class));
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="{}""#, path_data, escape(stroke_color), stroke_width, escape(&class)));
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
@@ -281,7 +291,7 @@ impl SvgRenderer {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape(value)))
             }
         }
 
@@ -305,10 +315,10 @@ impl SvgRenderer {
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
                 mid_point.x,
                 mid_point.y - 5.0, // Offset slightly above the edge
-                text_color,
+                escape(text_color),
                 text_size,
-                self.config.font_family,
-                label
+                escape(&self.config.font_family),
+                escape(label)
             ));
             svg.push('\n')
         }
-- 
2.43.0


From 9c1bcb980796b25c9f9c463f18b09660b126e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 44/57] fix: resolve imports to URIs without dot segments, and
 search the roots when the base has no directory

---
 projects/oak-resolver/src/lib.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index 48d1853..44ff2cb 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -69,27 +69,24 @@ impl ModuleResolver for StandardResolver {
 
         if let Ok(base_url) = Url::parse(base_uri) {
             if let Ok(base_path) = base_url.to_file_path() {
-                let base_dir = base_path.parent()?;
-                let resolved_path = base_dir.join(import_path);
-
-                if resolved_path.exists() {
-                    return Url::from_file_path(resolved_path).ok().map(|u| u.to_string());
+                if let Some(uri) = base_path.parent().and_then(|base_dir| locate(base_dir, import_path)) {
+                    return Some(uri);
                 }
             }
         }
 
         // Try root directories (like PYTHONPATH or node_modules logic)
-        for root in root_dirs.iter() {
-            let resolved_path = root.join(import_path);
-            if resolved_path.exists() {
-                return Url::from_file_path(resolved_path).ok().map(|u| u.to_string());
-            }
-        }
-
-        None
+        root_dirs.iter().find_map(|root| locate(root, import_path))
     }
 }
 
+/// The URI of an existing file, as clients write it: without `.` and `..` segments.
+fn locate(dir: &Path, import_path: &str) -> Option<String> {
+    let url = Url::from_file_path(dir.join(import_path)).ok()?;
+    let url = Url::parse(url.as_str()).ok()?;
+    url.to_file_path().ok()?.exists().then(|| url.to_string())
+}
+
 /// Global symbol table that stores symbols across the entire workspace.
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
-- 
2.43.0


From 2258d67e83da4ac5fcc949318c13f5a9e482ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 45/57] fix: attach the source to unexpected end of file errors

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..5bb09da 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -471,6 +471,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0


From 230795ccd9697d457961815c21d6cd2784cb6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 46/57] fix: report renamed files as removed and created

---
 projects/oak-vfs/src/vfs/watch.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 7d6f732..8162872 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -1,4 +1,7 @@
-use notify::{Event, RecursiveMode, Result, Watcher};
+use notify::{
+    Event, EventKind, RecursiveMode, Result, Watcher,
+    event::{ModifyKind, RenameMode},
+};
 use std::path::PathBuf;
 
 /// Events emitted by a VFS watcher.
@@ -34,9 +37,19 @@ impl DiskWatcher {
     {
         let watcher = notify::recommended_watcher(move |res: Result<Event>| {
             if let Ok(event) = res {
-                for path in event.paths {
+                for (index, path) in event.paths.into_iter().enumerate() {
                     let uri = path.to_string_lossy().to_string();
-                    if event.kind.is_modify() {
+                    // A rename removes the old name and creates the new one
+                    if let EventKind::Modify(ModifyKind::Name(mode)) = event.kind {
+                        match mode {
+                            RenameMode::From => callback(VfsEvent::Removed(uri)),
+                            RenameMode::To => callback(VfsEvent::Created(uri)),
+                            RenameMode::Both if index == 0 => callback(VfsEvent::Removed(uri)),
+                            RenameMode::Both => callback(VfsEvent::Created(uri)),
+                            _ => callback(VfsEvent::Changed(uri)),
+                        }
+                    }
+                    else if event.kind.is_modify() {
                         callback(VfsEvent::Changed(uri))
                     }
                     else if event.kind.is_create() {
-- 
2.43.0


From f4d4adbee1e1bec92706002a2bf3ed7167a7d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 47/57] fix: unwatch_all stops watching

---
 projects/oak-vfs/src/vfs/watch.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 8162872..75e3bf7 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -1,5 +1,5 @@
 use notify::{
-    Event, EventKind, RecursiveMode, Result, Watcher,
+    ErrorKind, Event, EventKind, RecursiveMode, Result, Watcher,
     event::{ModifyKind, RenameMode},
 };
 use std::path::PathBuf;
@@ -27,6 +27,7 @@ pub trait VfsWatcher {
 /// A watcher implementation that watches files on disk.
 pub struct DiskWatcher {
     watcher: notify::RecommendedWatcher,
+    watched: Vec<PathBuf>,
 }
 
 impl DiskWatcher {
@@ -61,20 +62,35 @@ impl DiskWatcher {
                 }
             }
         })?;
-        Ok(Self { watcher })
+        Ok(Self { watcher, watched: Vec::new() })
     }
 }
 
 impl VfsWatcher for DiskWatcher {
     fn watch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.watch(PathBuf::from(uri).as_path(), RecursiveMode::Recursive)
+        let path = PathBuf::from(uri);
+        self.watcher.watch(path.as_path(), RecursiveMode::Recursive)?;
+        if !self.watched.contains(&path) {
+            self.watched.push(path)
+        }
+        Ok(())
     }
 
     fn unwatch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.unwatch(PathBuf::from(uri).as_path())
+        let path = PathBuf::from(uri);
+        self.watcher.unwatch(path.as_path())?;
+        self.watched.retain(|watched| *watched != path);
+        Ok(())
     }
 
     fn unwatch_all(&mut self) -> Result<()> {
+        while let Some(path) = self.watched.pop() {
+            match self.watcher.unwatch(path.as_path()) {
+                // A directory that was removed is not watched any more
+                Err(e) if matches!(e.kind, ErrorKind::WatchNotFound) => {}
+                result => result?,
+            }
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 1605a9d13ff101047d01bbeb35b1b7fc44090ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 48/57] fix: mark every line of a formatted doc comment

---
 projects/oak-pretty-print/src/comment/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/oak-pretty-print/src/comment/mod.rs b/projects/oak-pretty-print/src/comment/mod.rs
index a5703af..b09b7f3 100644
--- a/projects/oak-pretty-print/src/comment/mod.rs
+++ b/projects/oak-pretty-print/src/comment/mod.rs
@@ -96,7 +96,9 @@ impl Comment {
         else {
             match self.kind {
                 CommentKind::Line | CommentKind::Doc => {
-                    format!("{} {}", prefix, self.content.trim())
+                    // Every line needs its own marker
+                    let lines: Vec<String> = self.content.trim().lines().map(|line| format!("{} {}", prefix, line.trim())).collect();
+                    lines.join(&format!("\n{}", indent))
                 }
                 CommentKind::Block => {
                     if self.content.contains('\n') {
-- 
2.43.0


From 3fe2334debd489ae57b6fd4640dde54acea6f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 49/57] fix: keep the markers of comments that are not
 formatted

---
 projects/oak-pretty-print/src/comment/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/projects/oak-pretty-print/src/comment/mod.rs b/projects/oak-pretty-print/src/comment/mod.rs
index b09b7f3..12ae04d 100644
--- a/projects/oak-pretty-print/src/comment/mod.rs
+++ b/projects/oak-pretty-print/src/comment/mod.rs
@@ -124,6 +124,15 @@ impl Comment {
             }
         }
     }
+
+    /// Gets the comment text in its original format, including the markers
+    pub fn original_text(&self, indent: &str) -> String {
+        match self.kind {
+            CommentKind::Line => format!("//{}", self.content.replace('\n', &format!("\n{}//", indent))),
+            CommentKind::Block => format!("/*{}*/", self.content),
+            CommentKind::Doc => format!("///{}", self.content.replace('\n', &format!("\n{}///", indent))),
+        }
+    }
 }
 
 /// Comment collector, used to extract comments from source code
@@ -240,7 +249,7 @@ impl CommentProcessor {
                 }
                 else {
                     // Preserve original format
-                    comment.content.clone()
+                    comment.original_text(indent)
                 }
             })
             .collect()
-- 
2.43.0


From fe9d84b36bcd3726dd60f704b4a3414175d2ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 50/57] fix: inserted comments follow the comment settings

---
 projects/oak-pretty-print/src/comment/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projects/oak-pretty-print/src/comment/mod.rs b/projects/oak-pretty-print/src/comment/mod.rs
index 12ae04d..a113017 100644
--- a/projects/oak-pretty-print/src/comment/mod.rs
+++ b/projects/oak-pretty-print/src/comment/mod.rs
@@ -260,9 +260,11 @@ impl CommentProcessor {
         let comments = self.collector.comments_before(position);
         for comment in comments {
             if !comment.is_trailing {
-                output.push_str(indent);
-                output.push_str(&comment.formatted_text(indent));
-                output.push('\n')
+                for text in self.process_comments(std::slice::from_ref(comment), indent) {
+                    output.push_str(indent);
+                    output.push_str(&text);
+                    output.push('\n')
+                }
             }
         }
     }
@@ -272,8 +274,10 @@ impl CommentProcessor {
         let comments = self.collector.comments_after(position);
         for comment in comments {
             if comment.is_trailing {
-                output.push(' ');
-                output.push_str(&comment.formatted_text(""));
+                for text in self.process_comments(std::slice::from_ref(comment), "") {
+                    output.push(' ');
+                    output.push_str(&text);
+                }
                 break; // Only process the first trailing comment
             }
         }
-- 
2.43.0


From d33e84c752259b5d124b64268ebefe9ede3d0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 51/57] fix: keep comments when formatting comments is off

---
 projects/oak-pretty-print/src/formatter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-pretty-print/src/formatter/mod.rs b/projects/oak-pretty-print/src/formatter/mod.rs
index 2be88f6..b391b47 100644
--- a/projects/oak-pretty-print/src/formatter/mod.rs
+++ b/projects/oak-pretty-print/src/formatter/mod.rs
@@ -50,7 +50,7 @@ impl<L: Language> FormatContext<L> {
     /// Creates a new formatting context
     pub fn new(config: FormatConfig) -> Self {
         let config = Arc::new(config);
-        let comment_processor = Arc::new(CommentProcessor::new().with_preserve_comments(config.format_comments).with_format_comments(config.format_comments));
+        let comment_processor = Arc::new(CommentProcessor::new().with_format_comments(config.format_comments));
         Self { config, comment_processor, source: None, depth: 0, path: None }
     }
 
-- 
2.43.0


From ca1dddddcc85870162902c2abdd86be923c6dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 52/57] fix: parse_one_pass reuses nothing of the previous tree

---
 projects/oak-core/src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index 81d45ef..5a18cc8 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -67,6 +67,8 @@ where
     P: Parser<L>,
     S: Source + ?Sized,
 {
+    // Without edits nothing tells how the text differs from the one of the previous tree
+    cache.forbid_reuse();
     parser.parse(text, &[], cache)
 }
 
-- 
2.43.0


From 4d723cc8aac50fd1c605baae13fa2431ade6cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 53/57] fix: golden testers accept a record of exactly this
 result, however deep

---
 projects/oak-testing/src/building.rs | 8 ++++++--
 projects/oak-testing/src/parsing.rs  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/projects/oak-testing/src/building.rs b/projects/oak-testing/src/building.rs
index 9974ac5..a612b16 100644
--- a/projects/oak-testing/src/building.rs
+++ b/projects/oak-testing/src/building.rs
@@ -179,7 +179,12 @@ impl BuilderTester {
                         }
                     }
 
-                    if expected_file.exists() && !force_regenerated {
+                    // A record of exactly this result needs no reading (which JSON limits in depth)
+                    let json_val = serde_json::to_string_pretty(&test_result).map_err(|e| OakError::custom_error(e.to_string()))?;
+                    let unchanged = !force_regenerated && std::fs::read(&expected_file).is_ok_and(|recorded| recorded == json_val.as_bytes());
+
+                    if unchanged {}
+                    else if expected_file.exists() && !force_regenerated {
                         let expected_json = json_from_path(&expected_file)?;
                         let expected: BuilderTestExpected = serde_json::from_value(expected_json).map_err(|e| OakError::custom_error(e.to_string()))?;
                         if test_result != expected {
@@ -189,7 +194,6 @@ impl BuilderTester {
                     else {
                         use std::io::Write;
                         let mut file = create_file(&expected_file)?;
-                        let json_val = serde_json::to_string_pretty(&test_result).map_err(|e| OakError::custom_error(e.to_string()))?;
                         file.write_all(json_val.as_bytes()).map_err(|e| OakError::custom_error(e.to_string()))?;
                         regenerated = true;
                     }
diff --git a/projects/oak-testing/src/parsing.rs b/projects/oak-testing/src/parsing.rs
index cf10154..91388c6 100644
--- a/projects/oak-testing/src/parsing.rs
+++ b/projects/oak-testing/src/parsing.rs
@@ -176,7 +176,12 @@ impl ParserTester {
                         }
                     }
 
-                    if expected_file.exists() && !force_regenerated {
+                    // A record of exactly this result needs no reading (which JSON limits in depth)
+                    let json_val = serde_json::to_string_pretty(&test_result).map_err(|e| OakError::custom_error(e.to_string()))?;
+                    let unchanged = !force_regenerated && std::fs::read(&expected_file).is_ok_and(|recorded| recorded == json_val.as_bytes());
+
+                    if unchanged {}
+                    else if expected_file.exists() && !force_regenerated {
                         let expected_json = json_from_path(&expected_file)?;
                         let expected: ParserTestExpected = serde_json::from_value(expected_json).map_err(|e| OakError::custom_error(e.to_string()))?;
                         if test_result != expected {
@@ -186,7 +191,6 @@ impl ParserTester {
                     else {
                         use std::io::Write;
                         let mut file = create_file(&expected_file)?;
-                        let json_val = serde_json::to_string_pretty(&test_result).map_err(|e| OakError::custom_error(e.to_string()))?;
                         file.write_all(json_val.as_bytes()).map_err(|e| OakError::custom_error(e.to_string()))?;
 
                         if force_regenerated {
-- 
2.43.0


From 1d4cf7bdfec6c08b9febe55593a4df8bfbb4aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 54/57] fix: place every node of a hierarchy once, below its
 last parent

---
 projects/oak-visualize/src/layout/mod.rs | 40 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 15a492c..d32d7dc 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -389,41 +389,57 @@ struct HierarchyNode {
 fn build_hierarchy(nodes: &[LayoutNode], edges: &[LayoutEdge]) -> crate::Result<Vec<HierarchyNode>> {
     // Simple implementation - find roots and build tree
     let mut children_map: HashMap<String, Vec<String>> = HashMap::new();
-    let mut has_parent: std::collections::HashSet<String> = std::collections::HashSet::new();
+    // How many edges lead to a node from other nodes that are not placed yet
+    let known: std::collections::HashSet<&str> = nodes.iter().map(|n| n.id.as_str()).collect();
+    let mut waiting: HashMap<String, usize> = HashMap::new();
 
     for edge in edges {
         children_map.entry(edge.from.clone()).or_default().push(edge.to.clone());
-        has_parent.insert(edge.to.clone());
+        if edge.from != edge.to && known.contains(edge.from.as_str()) {
+            *waiting.entry(edge.to.clone()).or_default() += 1
+        }
     }
 
     let mut roots = Vec::new();
     let mut placed: std::collections::HashSet<String> = std::collections::HashSet::new();
     for node in nodes {
-        if !has_parent.contains(&node.id) {
-            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut Vec::new(), &mut placed))
+        if !waiting.contains_key(&node.id) {
+            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut waiting, &mut placed))
         }
     }
     // Nodes that only cycles lead to
     for node in nodes {
         if !placed.contains(&node.id) {
-            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut Vec::new(), &mut placed))
+            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut waiting, &mut placed))
         }
     }
 
     Ok(roots)
 }
 
-/// Builds the hierarchy below a node, without unknown nodes and without edges back to a node of `path`.
-fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>, path: &mut Vec<String>, placed: &mut std::collections::HashSet<String>) -> Option<HierarchyNode> {
+/// Builds the hierarchy below a node that is not placed yet, without unknown nodes. A node with
+/// several parents goes below the one that is placed last.
+fn build_hierarchy_node(
+    id: &str,
+    nodes: &[LayoutNode],
+    children_map: &HashMap<String, Vec<String>>,
+    waiting: &mut HashMap<String, usize>,
+    placed: &mut std::collections::HashSet<String>,
+) -> Option<HierarchyNode> {
     let node = nodes.iter().find(|n| n.id == id)?;
-    if path.iter().any(|ancestor| ancestor == id) {
+    if !placed.insert(id.to_string()) {
         return None;
     }
 
-    placed.insert(id.to_string());
-    path.push(id.to_string());
-    let children = children_map.get(id).map(|child_ids| child_ids.iter().filter_map(|child_id| build_hierarchy_node(child_id, nodes, children_map, path, placed)).collect()).unwrap_or_default();
-    path.pop();
+    let mut children = Vec::new();
+    for child_id in children_map.get(id).into_iter().flatten() {
+        if let Some(parents) = waiting.get_mut(child_id) {
+            *parents = parents.saturating_sub(1);
+            if *parents == 0 {
+                children.extend(build_hierarchy_node(child_id, nodes, children_map, waiting, placed))
+            }
+        }
+    }
 
     Some(HierarchyNode { id: id.to_string(), children, size: node.size })
 }
-- 
2.43.0


From 33c5f2a1979fad48f588519204fde4df26209725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 55/57] fix: modification times of files in memory are in
 seconds

---
 projects/oak-vfs/src/vfs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-vfs/src/vfs/memory.rs b/projects/oak-vfs/src/vfs/memory.rs
index f07883a..8a0b089 100644
--- a/projects/oak-vfs/src/vfs/memory.rs
+++ b/projects/oak-vfs/src/vfs/memory.rs
@@ -77,7 +77,7 @@ impl MemoryVfs {
         // Here we use a simple timestamp or 0 if not available
         #[cfg(not(target_arch = "wasm32"))]
         {
-            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_millis() as u64
+            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_secs()
         }
         #[cfg(target_arch = "wasm32")]
         {
-- 
2.43.0


From 49f4c73473ee3b662c3f89a156e5c0d71c243190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:20 +0000
Subject: [PATCH 56/57] fix: resolve imports out of folders named like drive
 letters

---
 projects/oak-resolver/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index 44ff2cb..00c1dc1 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -9,7 +9,7 @@ use dashmap::mapref::entry::Entry;
 use oak_symbols::SymbolInformation;
 use std::{
     collections::BTreeMap,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 use url::Url;
 
@@ -82,9 +82,18 @@ impl ModuleResolver for StandardResolver {
 
 /// The URI of an existing file, as clients write it: without `.` and `..` segments.
 fn locate(dir: &Path, import_path: &str) -> Option<String> {
-    let url = Url::from_file_path(dir.join(import_path)).ok()?;
-    let url = Url::parse(url.as_str()).ok()?;
-    url.to_file_path().ok()?.exists().then(|| url.to_string())
+    let mut path = PathBuf::new();
+    for part in dir.join(import_path).components() {
+        match part {
+            Component::CurDir => {}
+            Component::ParentDir => {
+                path.pop();
+            }
+            part => path.push(part),
+        }
+    }
+    let url = Url::from_file_path(&path).ok()?;
+    path.exists().then(|| url.to_string())
 }
 
 /// Global symbol table that stores symbols across the entire workspace.
-- 
2.43.0


From 4fda84bec3b47c59021243ef9057f526a1de3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:20 +0000
Subject: [PATCH 57/57] fix: keys that are let go type nothing

---
 projects/oak-repl/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index dcf908f..a17faf9 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -12,7 +12,7 @@ pub use term::mc;
 
 use crossterm::{
     cursor::MoveToColumn,
-    event::{Event, KeyCode, KeyModifiers},
+    event::{Event, KeyCode, KeyEventKind, KeyModifiers},
     execute,
     terminal::{Clear, ClearType},
 };
@@ -210,6 +210,10 @@ impl<H: ReplHandler> OakRepl<H> {
             stdout.flush()?;
 
             if let Event::Key(key_event) = term::read()? {
+                // Some terminals also report that a key is let go.
+                if key_event.kind == KeyEventKind::Release {
+                    continue;
+                }
                 match key_event.code {
                     KeyCode::Char('c') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
                         println!("\nInterrupted");
-- 
2.43.0

