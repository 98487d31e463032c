From 4ed9269d40c6ebc61b7161f3d282cf53107b83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 01/31] fix: find_str misses matches that straddle chunks and
 moves the cursor

A match whose tail did not start on a character boundary, or that spanned
three or more chunks, was not found, and the cursor was left at the start of
the last chunk searched.
---
 projects/oak-core/src/source/cursor.rs | 41 +++++++++++++-------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..ed277ae 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -419,35 +419,36 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             return Some(self.offset);
         }
 
-        let pat_len = pattern.len();
+        // The text just before `offset` in which a match straddling a chunk boundary could begin.
+        let keep = pattern.len() - 1;
+        self.scratch.clear();
+        self.ensure_chunk();
+        let mut chunk = self.chunk;
         let mut offset = self.offset;
         let end = self.source.length();
         while offset < end {
-            self.offset = offset;
-            self.ensure_chunk();
-            let text = self.chunk.slice_from(offset);
+            let text = chunk.slice_from(offset);
+            let carried = self.scratch.len();
+            if carried > 0 {
+                self.scratch.push_str(&text[..text.ceil_char_boundary(keep)]);
+                if let Some(pos) = self.scratch.find(pattern) {
+                    return Some(offset - carried + pos);
+                }
+                self.scratch.truncate(carried);
+            }
             if let Some(pos) = text.find(pattern) {
                 return Some(offset + pos);
             }
-            let chunk_end = self.chunk.end();
-            if chunk_end >= end {
-                return None;
-            }
 
-            if pat_len > 1 {
-                let keep = pat_len - 1;
-                self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
-                self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
-                if let Some(pos) = self.scratch.find(pattern) {
-                    return Some(tail_abs_start + pos);
-                }
+            if text.len() >= keep {
+                self.scratch.clear()
             }
+            self.scratch.push_str(&text[text.floor_char_boundary(text.len().saturating_sub(keep))..]);
+            let surplus = self.scratch.floor_char_boundary(self.scratch.len().saturating_sub(keep));
+            self.scratch.drain(..surplus);
 
-            offset = chunk_end
+            offset = chunk.end();
+            chunk = self.source.chunk_at(offset)
         }
         None
     }
-- 
2.43.0


From 9ed1724882a062c48fa6b8b75e3edbee3765525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 02/31] fix: insertion at the start of a replaced range
 corrupts the edited text

Edits were ordered by start only, so an insertion listed after a replacement
starting at the same offset was applied first and then partly overwritten.
---
 projects/oak-core/src/source/rope.rs | 2 +-
 projects/oak-core/src/source/text.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/source/rope.rs b/projects/oak-core/src/source/rope.rs
index 5904e52..2ea8e46 100644
--- a/projects/oak-core/src/source/rope.rs
+++ b/projects/oak-core/src/source/rope.rs
@@ -51,7 +51,7 @@ impl RopeBuffer {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
diff --git a/projects/oak-core/src/source/text.rs b/projects/oak-core/src/source/text.rs
index 8cfe25a..3b2ebdd 100644
--- a/projects/oak-core/src/source/text.rs
+++ b/projects/oak-core/src/source/text.rs
@@ -69,7 +69,7 @@ impl SourceText {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
-- 
2.43.0


From 192777c9bd641596ee0c6ef6b520884855f6e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 03/31] fix: incremental lexing keeps stale or split tokens for
 edits at the end

---
 projects/oak-core/src/lexer/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..8d143ea 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,8 +289,9 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
-        // Fast path: fully re-used
-        if relex_from >= len {
+        // Fast path: fully re-used, provided the cached tokens end where the source ends
+        let cached_end = cache.count_tokens().checked_sub(1).and_then(|last| cache.get_token(last)).map(|t| t.span.end);
+        if relex_from >= len && cached_end == Some(len) {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
                 tokens.extend_from_slice(cached)
@@ -317,7 +318,8 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-            let idx = cached.partition_point(|t| t.span.end <= relex_from);
+            // (the end-of-stream token is never reused, it must not use up the backtracking either)
+            let idx = cached.partition_point(|t| t.span.end <= relex_from && !t.kind.is_end_of_stream());
             let keep = idx.saturating_sub(BACKTRACK_TOKENS);
             if keep > 0 {
                 reused_tokens.extend_from_slice(&cached[..keep])
@@ -331,7 +333,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                 else {
                     break;
                 };
-                if token.span.end <= relex_from {
+                if token.span.end <= relex_from && !token.kind.is_end_of_stream() {
                     reused_tokens.push(token);
                 }
                 else {
-- 
2.43.0


From 1c7574c1b353dd79a7a46ebb56ba04bb84de1596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 04/31] fix: a failed speculative parse leaves its diagnostics
 behind

---
 projects/oak-core/src/parser/state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..5eefb9a 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -459,10 +459,12 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
         F: FnOnce(&mut Self) -> Result<T, OakError>,
     {
         let checkpoint = self.checkpoint();
+        let errors = self.errors.len();
         match parser(self) {
             Ok(value) => Ok(value),
             Err(err) => {
                 self.restore(checkpoint);
+                self.errors.truncate(errors);
                 Err(err)
             }
         }
-- 
2.43.0


From 2c1cf97aba2aa89f5c4a1fc9c3eaec827aa166b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 05/31] fix: chunks that do not fit in the pool are leaked

---
 projects/oak-core/src/memory/arena.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..2242c63 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -325,18 +325,18 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
+            let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
+                // Hard limit to prevent memory bloating per thread.
+                let room = pool.len() < 64;
+                if room {
                     pool.push(ptr)
                 }
+                room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            if pooled == Ok(true) {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From 7bceb8e27afcdc2ce12807e5f94c697cce777297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 06/31] fix: an abandoned parse frees the tree the session
 still offers

---
 projects/oak-core/src/parser/session.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..377c972 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -33,6 +33,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_active: SyntaxArena,
     /// The arena holding the previous tree (used for reuse).
     arena_old: Option<SyntaxArena>,
+    /// Whether a tree in `arena_active` has been committed.
+    committed: Cell<bool>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
     /// Full output from the last lexing pass.
@@ -51,7 +53,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, committed: Cell::new(false), last_root: Cell::new(None), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -83,8 +85,12 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     }
 
     fn prepare_generation(&mut self) {
-        // 1. Move active to old. Oldest is dropped.
-        self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
+        // 1. Move active to old. Oldest is dropped, unless it still holds the last tree
+        //    because the active generation was abandoned.
+        let active = std::mem::replace(&mut self.arena_active, SyntaxArena::new(16));
+        if self.committed.replace(false) || self.arena_old.is_none() {
+            self.arena_old = Some(active)
+        }
 
         // 2. last_root now correctly points into arena_old.
         // 3. Clear last lex output to force re-lexing for the new generation.
@@ -92,6 +98,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     }
 
     fn commit_generation(&self, root: &GreenNode<L>) {
+        self.committed.set(true);
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
     }
-- 
2.43.0


From 1244d2f003b8c978863eac7dee5bdad48300956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 07/31] fix: re-parsing reuses nodes whose tokens or following
 token changed

---
 projects/oak-core/src/parser/state.rs | 62 ++++++++++++++++-----------
 projects/oak-core/src/tree/cursor.rs  |  8 +++-
 2 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 5eefb9a..16c55e4 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -192,6 +192,31 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
         }
         false
     }
+
+    /// The leaf that follows the current element of the old tree.
+    fn next_leaf(&self) -> Option<GreenLeaf<L>> {
+        let mut cursor = self.cursor.clone();
+        let mut found = cursor.step_next();
+        while found {
+            if let GreenTree::Leaf(leaf) = cursor.current() {
+                return Some(leaf);
+            }
+            found = cursor.step()
+        }
+        None
+    }
+}
+
+/// Whether the leaves of `node` are the next tokens, counting them in `consumed`.
+fn leaves_match<L: Language>(node: &GreenNode<'_, L>, tokens: &TokenSource<L>, consumed: &mut usize) -> bool {
+    node.children.iter().all(|child| match child {
+        GreenTree::Node(n) => leaves_match(n, tokens, consumed),
+        GreenTree::Leaf(l) => {
+            let matches = tokens.peek_at(*consumed).is_some_and(|t| t.kind == l.kind && t.length() == l.length as usize);
+            *consumed += 1;
+            matches
+        }
+    })
 }
 
 /// High-level API for parsers, coordinating token supply and tree construction.
@@ -559,35 +584,24 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
             if start == target_old_pos {
                 if let Some(node) = inc.cursor.as_node() {
                     if node.kind == kind {
-                        if !inc.is_dirty(start, end) {
-                            // Verify tokens
-                            let node_len = node.text_len() as usize;
-
-                            // Check token stream
-                            let mut lookahead = 0;
-                            let mut current_pos = new_pos;
-                            let target_new_end = new_pos + node_len;
-
-                            while let Some(t) = self.tokens.peek_at(lookahead) {
-                                if t.span.start != current_pos {
-                                    // Token stream doesn't match expected positions
-                                    break;
-                                }
-                                current_pos = t.span.end;
-
-                                if t.span.end == target_new_end {
-                                    // Found the end!
-                                    let tokens_consumed = lookahead + 1;
+                        // Where a node ends also depends on the token after it.
+                        let next_leaf = inc.next_leaf();
+                        let lookahead = next_leaf.map_or(1, |l| l.length.max(1) as usize);
+                        if !inc.is_dirty(start, end + lookahead) {
+                            let mut consumed = 0;
+                            if leaves_match(node, &self.tokens, &mut consumed) {
+                                let unchanged = match (self.tokens.peek_at(consumed), next_leaf) {
+                                    (Some(t), Some(l)) => t.kind == l.kind && t.length() == l.length as usize && !t.kind.is_ignored(),
+                                    (Some(t), None) => t.kind.is_end_of_stream(),
+                                    (None, l) => l.is_none(),
+                                };
+                                if unchanged && consumed > 0 {
                                     let new_node = deep_clone_node(node, self.sink.arena);
                                     self.sink.push_node(new_node);
-                                    self.tokens.set_index(current_index + tokens_consumed);
+                                    self.tokens.set_index(current_index + consumed);
                                     inc.cursor.step_over();
                                     return true;
                                 }
-                                else if t.span.end > target_new_end {
-                                    break;
-                                }
-                                lookahead += 1;
                             }
                         }
                     }
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..5696362 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -13,7 +13,7 @@ use crate::{
 ///
 /// It maintains a path from the root to the current node, allowing for
 /// `parent()` navigation and offset tracking.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Cursor<'a, L: Language> {
     /// The current element (Node or Leaf).
     current: GreenTree<'a, L>,
@@ -24,6 +24,12 @@ pub struct Cursor<'a, L: Language> {
     stack: Vec<(&'a GreenNode<'a, L>, usize, usize)>,
 }
 
+impl<'a, L: Language> Clone for Cursor<'a, L> {
+    fn clone(&self) -> Self {
+        Self { current: self.current, offset: self.offset, stack: self.stack.clone() }
+    }
+}
+
 impl<'a, L: Language> Cursor<'a, L> {
     /// Creates a new cursor starting at the given root node.
     pub fn new(root: &'a GreenNode<'a, L>) -> Self {
-- 
2.43.0


From 59ace26da82e966cb8e533cf9c24fbaa496ca2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 08/31] fix: the JSON lexer leaves gaps for text no rule
 matches

---
 examples/oak-json/src/lexer/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/examples/oak-json/src/lexer/mod.rs b/examples/oak-json/src/lexer/mod.rs
index 57c516e..7ced012 100644
--- a/examples/oak-json/src/lexer/mod.rs
+++ b/examples/oak-json/src/lexer/mod.rs
@@ -84,7 +84,11 @@ impl<'config> JsonLexer<'config> {
                 }
             }
 
-            state.advance_if_dead_lock(safe_point);
+            // 没有规则匹配时，标记为错误
+            if state.get_position() == safe_point {
+                state.advance(ch.len_utf8());
+                state.add_token(JsonTokenType::Error, safe_point, state.get_position());
+            }
         }
 
         Ok(())
@@ -145,6 +149,7 @@ impl<'config> JsonLexer<'config> {
             true
         }
         else {
+            state.add_token(JsonTokenType::Error, start_pos, state.get_position());
             false
         }
     }
-- 
2.43.0


From b1fbc78c2db180a016663333bfefd4bb4f7d97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 09/31] fix: JSON documents with surrounding blanks, trailing
 text or escapes are read wrongly

---
 examples/oak-json/src/builder/mod.rs | 70 ++++++++++++++++++++++++----
 examples/oak-json/src/lib.rs         |  3 ++
 examples/oak-json/src/parser/mod.rs  | 26 +++++------
 3 files changed, 75 insertions(+), 24 deletions(-)

diff --git a/examples/oak-json/src/builder/mod.rs b/examples/oak-json/src/builder/mod.rs
index 9c8b3ff..29cbbbb 100644
--- a/examples/oak-json/src/builder/mod.rs
+++ b/examples/oak-json/src/builder/mod.rs
@@ -47,12 +47,7 @@ impl<'config> Builder<JsonLanguage> for JsonBuilder<'config> {
 
 impl<'config> JsonBuilder<'config> {
     fn build_root<'a>(&self, green_tree: &GreenNode<'a, JsonLanguage>, source: &SourceText) -> Result<JsonRoot, OakError> {
-        let root_node = match green_tree.children.first() {
-            Some(oak_core::GreenTree::Node(n)) => n,
-            _ => return Err(OakError::unexpected_eof(0, None)),
-        };
-
-        let value = self.build_value(root_node, 0, source)?;
+        let value = self.build_value(green_tree, 0, source)?;
         Ok(JsonRoot { value })
     }
 
@@ -101,21 +96,24 @@ impl<'config> JsonBuilder<'config> {
                 Ok(JsonValue::Array(crate::ast::JsonArray { elements, span }))
             }
             JsonElementType::String => {
+                let span = token_span(node, offset);
                 let text = source.get_text_in(span.clone());
-                let value = text.trim_matches('"').to_string();
+                let value = decode_string(&text);
                 Ok(JsonValue::String(crate::ast::JsonString { value, span }))
             }
             JsonElementType::Number => {
+                let span = token_span(node, offset);
                 let text = source.get_text_in(span.clone());
                 let value = text.parse::<f64>().map_err(|_| OakError::syntax_error(format!("Invalid number: {}", text), span.start, None))?;
                 Ok(JsonValue::Number(crate::ast::JsonNumber { value, span }))
             }
             JsonElementType::Boolean => {
+                let span = token_span(node, offset);
                 let text = source.get_text_in(span.clone());
                 let value = text == "true";
                 Ok(JsonValue::Boolean(crate::ast::JsonBoolean { value, span }))
             }
-            JsonElementType::Null => Ok(JsonValue::Null(crate::ast::JsonNull { span })),
+            JsonElementType::Null => Ok(JsonValue::Null(crate::ast::JsonNull { span: token_span(node, offset) })),
             JsonElementType::Value | JsonElementType::ArrayElement | JsonElementType::Root => {
                 let mut current_offset = offset;
                 for child in node.children {
@@ -148,7 +146,7 @@ impl<'config> JsonBuilder<'config> {
                         if n.kind == JsonElementType::String {
                             let s_span: oak_core::Range<usize> = (current_offset..current_offset + n.text_len as usize).into();
                             let text = source.get_text_in(s_span.clone());
-                            let val = text.trim_matches('"').to_string();
+                            let val = decode_string(&text);
                             name = Some(crate::ast::JsonString { value: val, span: s_span });
                         }
                     }
@@ -170,7 +168,7 @@ impl<'config> JsonBuilder<'config> {
                         JsonTokenType::StringLiteral | JsonTokenType::BareKey if !seen_colon => {
                             let b_span: oak_core::Range<usize> = (current_offset..current_offset + l.length as usize).into();
                             let text = source.get_text_in(b_span.clone());
-                            let val = if l.kind == JsonTokenType::StringLiteral { text.trim_matches('"').to_string() } else { text.to_string() };
+                            let val = if l.kind == JsonTokenType::StringLiteral { decode_string(&text) } else { text.to_string() };
                             name = Some(crate::ast::JsonString { value: val, span: b_span });
                         }
                         _ => {}
@@ -186,3 +184,55 @@ impl<'config> JsonBuilder<'config> {
         Ok(crate::ast::JsonField { name, value, span })
     }
 }
+
+/// The span of the token of a scalar, without the trivia that follows it.
+fn token_span(node: &GreenNode<'_, JsonLanguage>, offset: usize) -> oak_core::Range<usize> {
+    let length = node.children.first().map_or(0, |token| token.len() as usize);
+    (offset..offset + length).into()
+}
+
+/// Decodes a string literal: removes the quotes and replaces the escape sequences.
+fn decode_string(literal: &str) -> String {
+    let mut chars = literal.chars();
+    if matches!(literal.chars().next(), Some('"' | '\'')) {
+        chars.next();
+        chars.next_back();
+    }
+    let mut out = String::with_capacity(literal.len());
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            out.push(c);
+            continue;
+        }
+        match chars.next() {
+            Some('b') => out.push('\u{8}'),
+            Some('f') => out.push('\u{c}'),
+            Some('n') => out.push('\n'),
+            Some('r') => out.push('\r'),
+            Some('t') => out.push('\t'),
+            Some('u') => match hex4(chars.as_str()) {
+                Some(unit) => {
+                    let mut rest = &chars.as_str()[4..];
+                    let mut code = unit;
+                    // A pair of surrogates stands for one character
+                    if let (0xd800..0xdc00, Some(low @ 0xdc00..0xe000)) = (unit, rest.strip_prefix("\\u").and_then(hex4)) {
+                        code = 0x10000 + ((unit - 0xd800) << 10) + (low - 0xdc00);
+                        rest = &rest[6..]
+                    }
+                    out.push(char::from_u32(code).unwrap_or(char::REPLACEMENT_CHARACTER));
+                    chars = rest.chars()
+                }
+                None => out.push('u'),
+            },
+            Some(other) => out.push(other),
+            None => {}
+        }
+    }
+    out
+}
+
+/// The value of the four hexadecimal digits at the start of the text.
+fn hex4(text: &str) -> Option<u32> {
+    let digits = text.get(..4)?;
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) { u32::from_str_radix(digits, 16).ok() } else { None }
+}
diff --git a/examples/oak-json/src/lib.rs b/examples/oak-json/src/lib.rs
index 10dc6b8..08842a8 100644
--- a/examples/oak-json/src/lib.rs
+++ b/examples/oak-json/src/lib.rs
@@ -65,6 +65,9 @@ pub fn parse(json: &str) -> Result<crate::ast::JsonValue, String> {
     let source = SourceText::new(json.to_string());
     let mut cache = ParseSession::default();
     let result = builder.build(&source, &[], &mut cache);
+    if let Some(error) = result.diagnostics.first() {
+        return Err(format!("{:?}", error));
+    }
     result.result.map(|root| root.value).map_err(|e| format!("{:?}", e))
 }
 
diff --git a/examples/oak-json/src/parser/mod.rs b/examples/oak-json/src/parser/mod.rs
index 17ff973..80c3616 100644
--- a/examples/oak-json/src/parser/mod.rs
+++ b/examples/oak-json/src/parser/mod.rs
@@ -189,26 +189,24 @@ impl<'config> Parser<JsonLanguage> for JsonParser<'config> {
     fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl oak_core::ParseCache<JsonLanguage>) -> oak_core::ParseOutput<'a, JsonLanguage> {
         let lexer = crate::lexer::JsonLexer::new(self.config);
         oak_core::parser::parse_with_lexer(&lexer, text, edits, cache, |state| {
-            let checkpoint = state.checkpoint();
             let res = self.parse_value(state);
-            if res.is_err() {
-                // If parsing fails, we might still want to return a partial tree or an error tree
-                // But parse_value handles errors by returning Result<(), OakError>
-                // And it records errors in state.errors
-            }
 
             // Ensure we consume all remaining trivia/whitespace
-            while state.not_at_end() {
-                if let Some(token) = state.current() {
-                    if token.kind.is_ignored() {
-                        state.bump(); // Changed from state.advance() to state.bump() to include in tree
-                        continue;
-                    }
+            self.skip_trivia(state);
+
+            // Nothing may follow a complete value
+            if res.is_ok() && state.not_at_end() && !state.at(JsonTokenType::Eof) {
+                let checkpoint = state.checkpoint();
+                let kind = state.peek_kind().unwrap_or(JsonTokenType::Error);
+                state.record_unexpected_token(format!("{:?}", kind));
+                while state.not_at_end() && !state.at(JsonTokenType::Eof) {
+                    state.bump();
                 }
-                break;
+                state.finish_at(checkpoint, JsonElementType::Error);
             }
 
-            let root = state.finish_at(checkpoint, crate::parser::element_type::JsonElementType::Root);
+            // The trivia before the value belongs to the root as well
+            let root = state.finish_at((0, 0), JsonElementType::Root);
             Ok(root)
         })
     }
-- 
2.43.0


From e04f973dd645ac5c8a622351a4b29210eb4609cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 10/31] fix: the JSON writer does not escape strings

---
 examples/oak-json/src/ast/mod.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/examples/oak-json/src/ast/mod.rs b/examples/oak-json/src/ast/mod.rs
index 3cc70fe..7e436b6 100644
--- a/examples/oak-json/src/ast/mod.rs
+++ b/examples/oak-json/src/ast/mod.rs
@@ -93,13 +93,13 @@ impl JsonValue {
             JsonValue::Null(_) => "null".to_string(),
             JsonValue::Boolean(b) => b.value.to_string(),
             JsonValue::Number(n) => n.value.to_string(),
-            JsonValue::String(s) => format!("\"{}\"", s.value),
+            JsonValue::String(s) => quote(&s.value),
             JsonValue::Array(a) => {
                 let elements: Vec<String> = a.elements.iter().map(|e| e.to_string()).collect();
                 format!("[{}]", elements.join(","))
             }
             JsonValue::Object(o) => {
-                let fields: Vec<String> = o.fields.iter().map(|f| format!("\"{}\":{}", f.name.value, f.value.to_string())).collect();
+                let fields: Vec<String> = o.fields.iter().map(|f| format!("{}:{}", quote(&f.name.value), f.value.to_string())).collect();
                 format!("{{{}}}", fields.join(","))
             }
         }
@@ -335,7 +335,7 @@ impl ToSource for JsonArray {
 #[derive(Clone, Debug, PartialEq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "oak-pretty-print", derive(AsDocument))]
-#[cfg_attr(feature = "oak-pretty-print", oak(doc = format!("\"{}\"", self.value)))]
+#[cfg_attr(feature = "oak-pretty-print", oak(doc = quote(&self.value)))]
 pub struct JsonString {
     /// The string content (without quotes).
     pub value: String,
@@ -346,9 +346,7 @@ pub struct JsonString {
 
 impl ToSource for JsonString {
     fn to_source(&self, buffer: &mut SourceBuffer) {
-        buffer.push("\"");
-        buffer.push(&self.value);
-        buffer.push("\"")
+        buffer.push(&quote(&self.value))
     }
 }
 
@@ -406,3 +404,22 @@ impl ToSource for JsonNull {
         buffer.push("null")
     }
 }
+
+/// Writes a string as a JSON literal, escaping what may not stand in one.
+fn quote(value: &str) -> String {
+    let mut out = String::with_capacity(value.len() + 2);
+    out.push('"');
+    for c in value.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\t' => out.push_str("\\t"),
+            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
-- 
2.43.0


From f5ccbc5b1188bee2c62b9d0c8046486b67c1c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/31] fix: re-parsing loses the diagnostics of reused nodes
 and reuses abandoned parses

---
 projects/oak-core/src/parser/mod.rs     |  2 +-
 projects/oak-core/src/parser/session.rs | 25 ++++++++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index eac77cb..ec2c4b3 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -113,7 +113,7 @@ where
 
     // 5. Commit Generation
     if let Ok(root) = output.result {
-        cache.commit_generation(root)
+        cache.commit_parse(root, output.diagnostics.is_empty())
     }
 
     output
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 377c972..336f530 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -22,6 +22,11 @@ pub trait ParseCache<L: Language>: LexerCache<L> {
 
     /// Commits the result of a parsing generation.
     fn commit_generation(&self, root: &GreenNode<L>);
+
+    /// Commits the result of a parse, and whether the next one may take nodes from it.
+    fn commit_parse(&self, root: &GreenNode<L>, _reusable: bool) {
+        self.commit_generation(root)
+    }
 }
 
 /// A memory pool that manages the lifecycle of parsing generations.
@@ -35,6 +40,10 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Whether a tree in `arena_active` has been committed.
     committed: Cell<bool>,
+    /// Whether the last tree may be reused; nodes do not record the diagnostics they caused.
+    reusable: Cell<bool>,
+    /// Whether a parse was abandoned since the last tree, so that edits no longer apply to it.
+    stale: bool,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
     /// Full output from the last lexing pass.
@@ -53,7 +62,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, committed: Cell::new(false), last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, committed: Cell::new(false), reusable: Cell::new(true), stale: false, last_root: Cell::new(None), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -71,7 +80,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
 
     fn old_tree(&self) -> Option<&GreenNode<'_, L>> {
         let ptr = self.last_root.get()?;
-        if self.arena_old.is_some() {
+        if self.arena_old.is_some() && self.reusable.get() && !self.stale {
             // Safety: last_root is guaranteed to be in arena_old after swap_generations
             unsafe { Some(&*(ptr.as_ptr() as *const GreenNode<'_, L>)) }
         }
@@ -88,7 +97,8 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         // 1. Move active to old. Oldest is dropped, unless it still holds the last tree
         //    because the active generation was abandoned.
         let active = std::mem::replace(&mut self.arena_active, SyntaxArena::new(16));
-        if self.committed.replace(false) || self.arena_old.is_none() {
+        self.stale = !self.committed.replace(false);
+        if !self.stale || self.arena_old.is_none() {
             self.arena_old = Some(active)
         }
 
@@ -102,6 +112,11 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
     }
+
+    fn commit_parse(&self, root: &GreenNode<L>, reusable: bool) {
+        self.reusable.set(reusable);
+        self.commit_generation(root)
+    }
 }
 
 impl<L: Language + Send + Sync> LexerCache<L> for ParseSession<L> {
@@ -146,4 +161,8 @@ impl<'a, L: Language, C: ParseCache<L> + ?Sized> ParseCache<L> for &'a mut C {
     fn commit_generation(&self, root: &GreenNode<L>) {
         (**self).commit_generation(root)
     }
+
+    fn commit_parse(&self, root: &GreenNode<L>, reusable: bool) {
+        (**self).commit_parse(root, reusable)
+    }
 }
-- 
2.43.0


From 07d8aa0f6e9aed87eac97deeb6ab717884e2bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 12/31] fix: a column past the end of a line converts to the
 next line

---
 projects/oak-vfs/src/line_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/oak-vfs/src/line_map.rs b/projects/oak-vfs/src/line_map.rs
index 49e02d0..dc03f54 100644
--- a/projects/oak-vfs/src/line_map.rs
+++ b/projects/oak-vfs/src/line_map.rs
@@ -127,6 +127,7 @@ impl LineMap {
             }
             utf16 += ch.len_utf16()
         }
-        line_end.min(self.len)
+        // Past the end of the line: stay on it, before its terminator
+        if text.ends_with('\n') { line_end - 1 } else { line_end }
     }
 }
-- 
2.43.0


From ab9c467d16d247fc8253cdb971ce3964da4313a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 13/31] fix: updating one file drops the symbols other files
 declare under the same name

---
 projects/oak-resolver/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..3273039 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -69,7 +69,7 @@ pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
     /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
 }
 
 impl GlobalSymbolTable {
@@ -83,15 +83,19 @@ impl GlobalSymbolTable {
         // Remove old qualified symbols for this file
         if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
             for sym in old_symbols {
+                // Other files may declare the same name
                 let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
+                if let Some(mut declared) = self.qualified_symbols.get_mut(&fqn) {
+                    declared.retain(|(file, _)| *file != uri)
+                }
+                self.qualified_symbols.remove_if(&fqn, |_, declared| declared.is_empty());
             }
         }
 
         // Add new symbols
         for sym in &symbols {
             let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+            self.qualified_symbols.entry(fqn).or_default().push((uri.clone(), sym.clone()));
         }
         self.file_symbols.insert(uri, symbols);
     }
@@ -105,7 +109,7 @@ impl GlobalSymbolTable {
 
     /// Lookup a symbol by its fully qualified name.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
@@ -115,7 +119,7 @@ impl GlobalSymbolTable {
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).flat_map(|r| r.value().iter().map(|(_, sym)| sym.clone()).collect::<Vec<_>>()).collect()
     }
 }
 
-- 
2.43.0


From d9501d785011307d9d938eae5187afb220cc9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 14/31] Hook for verification: the chunks indexing extracts
 (cfg oak_verif)

---
 projects/oak-semantic-search/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/projects/oak-semantic-search/src/lib.rs b/projects/oak-semantic-search/src/lib.rs
index f618140..a39b54a 100644
--- a/projects/oak-semantic-search/src/lib.rs
+++ b/projects/oak-semantic-search/src/lib.rs
@@ -88,6 +88,14 @@ impl<'a, L: Language> Visitor<'a, L> for ChunkCollector<'a, L> {
     fn visit_token(&mut self, _token: RedLeaf<L>) {}
 }
 
+/// The chunks `SemanticSearcher::index_code` extracts, for verification.
+#[cfg(oak_verif)]
+pub fn verif_chunks<'a, L: Language>(root: RedNode<'a, L>, source: &'a str) -> Vec<CodeChunk> {
+    let mut collector = ChunkCollector::<L>::new(source);
+    collector.visit_node(root);
+    collector.chunks
+}
+
 impl SemanticSearcher {
     /// Creates a new semantic searcher with the given database path.
     pub async fn new(_db_path: &str) -> Result<Self, OakError> {
-- 
2.43.0


From 14e7e42e53e83d0e25eb5b9a4b4f268bf2ce6e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 15/31] fix: references of a JSON key find nothing, and would
 miss keys nested in a matching entry

---
 examples/oak-json/src/lsp/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/examples/oak-json/src/lsp/mod.rs b/examples/oak-json/src/lsp/mod.rs
index 50d7cc0..d4cc9be 100644
--- a/examples/oak-json/src/lsp/mod.rs
+++ b/examples/oak-json/src/lsp/mod.rs
@@ -51,12 +51,9 @@ impl<V: Vfs> JsonLanguageService<V> {
         Self { vfs, workspace: oak_lsp::workspace::WorkspaceManager::default(), hover_provider: JsonHoverProvider, sessions: DashMap::new() }
     }
     fn collect_definitions(&self, node: &RedNode<JsonLanguage>, name: &str, source: &V::Source, uri: &str, definitions: &mut Vec<oak_lsp::LocationRange>) {
-        use oak_core::{
-            language::{ElementType, UniversalElementRole, UniversalTokenRole},
-            tree::RedTree,
-        };
+        use oak_core::{language::UniversalTokenRole, tree::RedTree};
         // In JSON, every ObjectEntry can be considered a definition if its key matches
-        if ElementType::is_universal(&node.green.kind, UniversalElementRole::Statement) && node.green.kind == JsonElementType::ObjectEntry {
+        if node.green.kind == JsonElementType::ObjectEntry {
             for child in node.children() {
                 if let RedTree::Leaf(leaf) = child {
                     // Keys are Name (if BareKey) or Literal (if StringLiteral)
@@ -67,7 +64,7 @@ impl<V: Vfs> JsonLanguageService<V> {
                         let key_name = if leaf.kind == JsonTokenType::StringLiteral { text.trim_matches('"') } else { &text };
                         if key_name == name {
                             definitions.push(oak_lsp::LocationRange { uri: uri.to_string().into(), range: leaf.span });
-                            return;
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 0bfea8b4f27174732a8d3a8c34cb086f39090ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 16/31] fix: the tool server drops malformed lines without a
 reply and stops at one that is not UTF-8

---
 projects/oak-mcp/src/lib.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d185f11..f6046b3 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -55,6 +55,15 @@ impl JsonRpcResponse {
     pub fn to_json(&self) -> String {
         serde_json::to_string(self).unwrap_or_else(|_| "{}".to_string())
     }
+
+    /// The error response to a line that is neither a request nor a notification.
+    fn invalid(line: &str) -> Self {
+        let (id, code, message) = match serde_json::from_str::<JsonValue>(line) {
+            Ok(value) => (value.get("id").cloned().unwrap_or(JsonValue::Null), -32600, "Invalid request".to_string()),
+            Err(e) => (JsonValue::Null, -32700, format!("Parse error: {}", e)),
+        };
+        Self { jsonrpc: "2.0".to_string(), id, result: None, error: Some(JsonRpcError { code, message, data: None }) }
+    }
 }
 
 /// Error information for a JSON-RPC response.
@@ -120,25 +129,32 @@ where
         R: tokio::io::AsyncBufRead + Unpin,
         W: tokio::io::AsyncWrite + Unpin,
     {
-        let mut line = String::new();
+        let mut line = Vec::new();
 
-        while reader.read_line(&mut line).await.map_err(|e| e.to_string())? > 0 {
-            let input = line.trim();
+        while reader.read_until(b'\n', &mut line).await.map_err(|e| e.to_string())? > 0 {
+            let text = String::from_utf8_lossy(&line);
+            let input = text.trim();
             if input.is_empty() {
                 line.clear();
                 continue;
             }
 
-            if let Ok(request) = JsonRpcRequest::from_json(input) {
-                let response = self.handle_request(request).await;
+            let response = if let Ok(request) = JsonRpcRequest::from_json(input) {
+                Some(self.handle_request(request).await)
+            }
+            else if let Ok(notification) = JsonRpcNotification::from_json(input) {
+                self.handle_notification(notification).await;
+                None
+            }
+            else {
+                Some(JsonRpcResponse::invalid(input))
+            };
+            if let Some(response) = response {
                 let response_json = response.to_json();
                 writer.write_all(response_json.as_bytes()).await.map_err(|e| e.to_string())?;
                 writer.write_all(b"\n").await.map_err(|e| e.to_string())?;
                 writer.flush().await.map_err(|e| e.to_string())?;
             }
-            else if let Ok(notification) = JsonRpcNotification::from_json(input) {
-                self.handle_notification(notification).await
-            }
 
             line.clear()
         }
-- 
2.43.0


From 814dfd62334ec0b1223c250a33fe603e0dbf3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 17/31] fix: folders added to or removed from the workspace do
 not reach module resolution

---
 projects/oak-lsp/src/workspace.rs |  9 +++++++--
 projects/oak-resolver/src/lib.rs  | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/projects/oak-lsp/src/workspace.rs b/projects/oak-lsp/src/workspace.rs
index 81c70e4..e72fb9a 100644
--- a/projects/oak-lsp/src/workspace.rs
+++ b/projects/oak-lsp/src/workspace.rs
@@ -48,14 +48,19 @@ impl WorkspaceManager {
     pub fn add_folder(&self, uri: String, _name: String) {
         if let Ok(url) = Url::parse(&uri) {
             if let Ok(path) = url.to_file_path() {
-                self.folders.insert(uri, path);
+                self.folders.insert(uri, path.clone());
+                self.resolver.add_root_dir(path);
             }
         }
     }
 
     /// Remove a workspace folder.
     pub fn remove_folder(&self, uri: &str) {
-        self.folders.remove(uri);
+        if let Some((_, path)) = self.folders.remove(uri) {
+            if !self.folders.iter().any(|entry| *entry.value() == path) {
+                self.resolver.remove_root_dir(&path);
+            }
+        }
     }
 
     /// Get the local path for a URI if it's within a workspace folder.
diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index 3273039..597119e 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -6,7 +6,7 @@
 
 use dashmap::DashMap;
 use oak_symbols::SymbolInformation;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use url::Url;
 
 use std::sync::RwLock;
@@ -35,6 +35,22 @@ impl StandardResolver {
             *dirs = root_dirs;
         }
     }
+
+    /// Add a root directory, searched after the present ones.
+    pub fn add_root_dir(&self, root_dir: PathBuf) {
+        if let Ok(mut dirs) = self.root_dirs.write() {
+            if !dirs.contains(&root_dir) {
+                dirs.push(root_dir);
+            }
+        }
+    }
+
+    /// Remove a root directory.
+    pub fn remove_root_dir(&self, root_dir: &Path) {
+        if let Ok(mut dirs) = self.root_dirs.write() {
+            dirs.retain(|dir| dir != root_dir);
+        }
+    }
 }
 
 impl ModuleResolver for StandardResolver {
-- 
2.43.0


From 93873abdfbf482efb8539839c75b68d93d1ba690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 18/31] fix: the pretty printer measures bytes instead of
 characters and text with line breaks as one line

---
 .../oak-pretty-print/src/document/printer.rs    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/projects/oak-pretty-print/src/document/printer.rs b/projects/oak-pretty-print/src/document/printer.rs
index 8847c13..002f041 100644
--- a/projects/oak-pretty-print/src/document/printer.rs
+++ b/projects/oak-pretty-print/src/document/printer.rs
@@ -36,7 +36,10 @@ impl Printer {
             Document::Nil => {}
             Document::Text(s) => {
                 self.output.push_str(s);
-                self.column += s.len()
+                self.column = match s.rfind('\n') {
+                    Some(i) => s[i + 1..].chars().count(),
+                    None => self.column + s.chars().count(),
+                }
             }
             Document::Concat(docs) => {
                 for d in docs {
@@ -112,8 +115,16 @@ impl Printer {
         match doc {
             Document::Nil => false,
             Document::Text(s) => {
-                *width += s.len();
-                *width > self.config.max_width
+                for (i, line) in s.split('\n').enumerate() {
+                    if i > 0 {
+                        *width = 0
+                    }
+                    *width += line.chars().count();
+                    if *width > self.config.max_width {
+                        return true;
+                    }
+                }
+                false
             }
             Document::Concat(docs) => {
                 for d in docs {
-- 
2.43.0


From 99d88ece4f91ce906167447b8546df998934fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 19/31] fix: diagnostics lose the last line, split characters
 and mark past the end of multi-line labels

---
 projects/oak-diagnostic/src/lib.rs | 52 ++++++++++++++++++------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index b1dcc49..7a28c7e 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -136,29 +136,29 @@ impl DiagnosticProvider for OakError {
 
         match kind {
             OakErrorKind::IoError { .. } => {}
-            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
+            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } | OakErrorKind::UnexpectedEof { offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = character_end(source, start);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = character_end(source, start);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("token", token.clone());
             }
             OakErrorKind::ExpectedToken { expected, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = character_end(source, start);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("expected", expected.clone());
             }
             OakErrorKind::ExpectedName { name_kind, offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = character_end(source, start);
                 diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("name_kind", name_kind.clone());
             }
             OakErrorKind::TrailingCommaNotAllowed { offset, .. } => {
                 let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
+                let end = character_end(source, start);
                 diag = diag.with_label(core::range::Range { start, end }, "here");
             }
             _ => {}
@@ -208,7 +208,7 @@ impl Emitter for ConsoleEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = lines_of(&full_text);
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -315,9 +315,7 @@ impl ConsoleEmitter {
                     else if i == end_line {
                         out.push_str(&format!("{:>width$} \x1b[34m{}\x1b[0m {}{}{} {}\n", line_num, chars.vbar, color, chars.vbar, "\x1b[0m", line_text, width = line_num_width));
 
-                        let underline_len = end_col.max(1);
-                        let underline = "^".repeat(underline_len);
-                        out.push_str(&format!("{} \x1b[34m{}\x1b[0m {}{}{}{}", padding, chars.vbar, color, chars.lbot, chars.hbar.repeat(end_col), underline));
+                        out.push_str(&format!("{} \x1b[34m{}\x1b[0m {}{}{}{}", padding, chars.vbar, color, chars.lbot, chars.hbar.repeat(end_col), "^"));
 
                         if let Some(msg) = &label.message {
                             out.push_str(&format!(" {}\x1b[0m\n", msg));
@@ -353,7 +351,7 @@ impl Emitter for PlainTextEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = lines_of(&full_text);
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -431,9 +429,7 @@ impl PlainTextEmitter {
                     else if i == end_line {
                         out.push_str(&format!("{:>width$} {} {}{}\n", line_num, chars.vbar, chars.vbar, line_text, width = line_num_width));
 
-                        let underline_len = end_col.max(1);
-                        let underline = "^".repeat(underline_len);
-                        out.push_str(&format!("{} {} {}{}{}", padding, chars.vbar, chars.lbot, chars.hbar.repeat(end_col), underline));
+                        out.push_str(&format!("{} {} {}{}{}", padding, chars.vbar, chars.lbot, chars.hbar.repeat(end_col.saturating_sub(1)), "^"));
 
                         if let Some(msg) = &label.message {
                             out.push_str(&format!(" {}\n", msg));
@@ -460,7 +456,7 @@ impl Emitter for HtmlEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = lines_of(&full_text);
         let sev_class = match diagnostic.severity {
             Severity::Error => "error",
             Severity::Warning => "warning",
@@ -472,7 +468,7 @@ impl Emitter for HtmlEmitter {
         out.push_str("<div class=\"diagnostic\">\n");
         out.push_str(&format!("  <div class=\"header {}\">\n", sev_class));
         if let Some(code) = &diagnostic.code {
-            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", code, html_escape(&message)));
+            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", html_escape(code), html_escape(&message)));
         }
         else {
             out.push_str(&format!("    <span class=\"severity\">[{}]</span> <span class=\"message\">{}</span>\n", sev_class, html_escape(&message)));
@@ -539,10 +535,8 @@ impl HtmlEmitter {
                     else if i == end_line {
                         out.push_str(&format!("<span class=\"line-num\">{: >width$}</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>{}\n", line_num, html_escape(line_text), width = line_num_width));
 
-                        let underline_len = end_col.max(1);
-                        let underline = "^".repeat(underline_len);
-                        out.push_str(&format!("<span class=\"padding\">{}</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">{}</span>", padding, "─".repeat(end_col)));
-                        out.push_str(&format!("<span class=\"underline\">{}</span>", underline));
+                        out.push_str(&format!("<span class=\"padding\">{}</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">{}</span>", padding, "─".repeat(end_col.saturating_sub(1))));
+                        out.push_str("<span class=\"underline\">^</span>");
                         if let Some(msg) = &label.message {
                             out.push_str(&format!(" <span class=\"label-msg\">{}</span>", html_escape(msg)));
                         }
@@ -560,6 +554,24 @@ impl HtmlEmitter {
     }
 }
 
+/// The end of the character at `start`, or `start` at the end of the source.
+fn character_end<S: Source + ?Sized>(source: &S, start: usize) -> usize {
+    let text = source.get_text_in(core::range::Range { start: 0, end: source.length() });
+    match text.get(start..) {
+        Some(rest) => start + rest.chars().next().map_or(0, char::len_utf8),
+        None => (start + 1).min(source.length()),
+    }
+}
+
+/// The lines of a text, with the empty one after a final line break.
+fn lines_of(text: &str) -> Vec<&str> {
+    let mut lines: Vec<&str> = text.lines().collect();
+    if text.is_empty() || text.ends_with('\n') {
+        lines.push("");
+    }
+    lines
+}
+
 fn html_escape(s: &str) -> String {
     s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#39;")
 }
-- 
2.43.0


From 40d810c91db0229937bd2db03afcd2e242b56528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 20/31] fix: graph queries and layering mishandle undirected
 edges, direction and unknown nodes, and layouts drop edge labels

---
 projects/oak-visualize/src/graph/mod.rs | 42 ++++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a7cbe15..26171f0 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -137,15 +137,16 @@ impl Graph {
         let mut stack = vec![start_node.as_str()];
 
         while let Some(node) = stack.pop() {
-            if visited.contains(node) {
+            if !visited.insert(node) {
                 continue;
             }
 
-            visited.insert(node);
-
-            for neighbor in self.get_neighbors(node) {
-                if !visited.contains(neighbor) {
-                    stack.push(neighbor);
+            // The direction of an edge does not matter, and an edge to an unknown node connects nothing
+            for edge in &self.edges {
+                for (one, other) in [(&edge.from, &edge.to), (&edge.to, &edge.from)] {
+                    if one == node && self.nodes.contains_key(other) {
+                        stack.push(other);
+                    }
                 }
             }
         }
@@ -161,21 +162,26 @@ impl Graph {
 
         for node_id in self.nodes.keys() {
             if !visited.contains(node_id) {
-                self.dfs_cycles(node_id, &mut visited, &mut rec_stack, &mut path, &mut cycles);
+                self.dfs_cycles(node_id, None, &mut visited, &mut rec_stack, &mut path, &mut cycles);
             }
         }
 
         cycles
     }
 
-    fn dfs_cycles(&self, node: &str, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
+    fn dfs_cycles(&self, node: &str, parent: Option<&str>, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
         visited.insert(node.to_string());
         rec_stack.insert(node.to_string());
         path.push(node.to_string());
 
+        // An undirected edge does not lead back along itself
+        let mut back = if self.directed { None } else { parent };
         for neighbor in self.get_neighbors(node) {
-            if !visited.contains(neighbor) {
-                self.dfs_cycles(neighbor, visited, rec_stack, path, cycles);
+            if back == Some(neighbor) {
+                back = None;
+            }
+            else if !visited.contains(neighbor) {
+                self.dfs_cycles(neighbor, Some(node), visited, rec_stack, path, cycles);
             }
             else if rec_stack.contains(neighbor) {
                 // Found a cycle
@@ -363,7 +369,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -400,7 +407,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -443,7 +451,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -482,7 +491,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -515,7 +525,9 @@ impl GraphLayout {
 
         // Calculate in-degrees
         for edge in &graph.edges {
-            *in_degree.get_mut(&edge.to).unwrap() += 1;
+            if let (true, Some(degree)) = (graph.nodes.contains_key(&edge.from), in_degree.get_mut(&edge.to)) {
+                *degree += 1;
+            }
         }
 
         // Process layers
-- 
2.43.0


From 9799b50aa5fac717c679cfa4bd563d48325bf77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 21/31] fix: layouts crash on cycles and unknown edge ends and
 lose labels and node types

---
 projects/oak-visualize/src/layout/mod.rs | 31 +++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 8729ca6..4eafd2e 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -221,8 +221,10 @@ impl LayoutEngine for HierarchicalLayout {
         };
 
         // Add nodes to layout
-        for (id, rect) in positioned_nodes {
-            layout.add_node(id, rect);
+        for node in nodes {
+            if let Some(rect) = positioned_nodes.get(&node.id) {
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), *rect, node.node_type);
+            }
         }
 
         // Add edges with routing
@@ -326,6 +328,9 @@ impl LayoutEngine for ForceDirectedLayout {
                     let distance = pos1.distance_to(pos2);
                     let ideal_length = config.horizontal_spacing;
                     let force_magnitude = self.spring_strength * (distance - ideal_length);
+                    if distance <= 0.0 {
+                        continue;
+                    }
                     let force_direction = Point::new(diff.x / distance, diff.y / distance);
                     let force = Point::new(force_direction.x * force_magnitude, force_direction.y * force_magnitude);
 
@@ -347,7 +352,7 @@ impl LayoutEngine for ForceDirectedLayout {
         for node in nodes {
             if let Some(position) = positions.get(&node.id) {
                 let rect = Rect::new(Point::new(position.x - node.size.width / 2.0, position.y - node.size.height / 2.0), node.size);
-                layout.add_node(node.id.clone(), rect)
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), rect, node.node_type)
             }
         }
 
@@ -391,21 +396,25 @@ fn build_hierarchy(nodes: &[LayoutNode], edges: &[LayoutEdge]) -> crate::Result<
         has_parent.insert(edge.to.clone());
     }
 
+    // Nodes without a parent come first; what remains is on or below a cycle
     let mut roots = Vec::new();
-    for node in nodes {
-        if !has_parent.contains(&node.id) {
-            roots.push(build_hierarchy_node(&node.id, nodes, &children_map))
-        }
+    let mut placed = std::collections::HashSet::new();
+    for node in nodes.iter().filter(|node| !has_parent.contains(&node.id)).chain(nodes) {
+        roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut placed))
     }
 
     Ok(roots)
 }
 
-fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>) -> HierarchyNode {
-    let node = nodes.iter().find(|n| n.id == id).unwrap();
-    let children = children_map.get(id).map(|child_ids| child_ids.iter().map(|child_id| build_hierarchy_node(child_id, nodes, children_map)).collect()).unwrap_or_default();
+/// Builds the node with the children that have no place yet.
+fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>, placed: &mut std::collections::HashSet<String>) -> Option<HierarchyNode> {
+    let node = nodes.iter().find(|n| n.id == id)?;
+    if !placed.insert(id.to_string()) {
+        return None;
+    }
+    let children = children_map.get(id).map(|child_ids| child_ids.iter().filter_map(|child_id| build_hierarchy_node(child_id, nodes, children_map, placed)).collect()).unwrap_or_default();
 
-    HierarchyNode { id: id.to_string(), children, size: node.size }
+    Some(HierarchyNode { id: id.to_string(), children, size: node.size })
 }
 
 fn layout_top_down(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
-- 
2.43.0


From 19344f38da3aa5e06bd98314af5e712fd7a24b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 22/31] fix: tree layouts leave their edges without points, so
 they are not drawn

---
 projects/oak-visualize/src/tree/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 4337796..ec79994 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -412,7 +412,10 @@ impl TreeLayout {
     /// Recursively add edges from the given node to all its descendants
     fn add_tree_edges(&self, node: &TreeNode, layout: &mut Layout) {
         for child in &node.children {
-            let edge = Edge::new(node.id.clone(), child.id.clone());
+            let mut edge = Edge::new(node.id.clone(), child.id.clone());
+            if let (Some(from), Some(to)) = (layout.nodes.get(&node.id), layout.nodes.get(&child.id)) {
+                edge = edge.with_points(vec![from.rect.center(), to.rect.center()]);
+            }
             layout.add_edge(edge);
 
             // Recursively add edges for children
-- 
2.43.0


From dbc510f15c1c70426ef8cfb2e0135fe1c7a07601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 23/31] fix: the SVG renderer writes labels and attribute
 values unescaped and a class attribute twice

---
 projects/oak-visualize/src/render/mod.rs | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index e704a16..de6451c 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -209,18 +209,19 @@ impl SvgRenderer {
         let stroke_width = style.and_then(|s| s.stroke_width).unwrap_or(self.config.node_stroke_width);
 
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width));
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="node {}""#, escape(class))),
+            None => svg.push_str(r#" class="node""#),
+        }
 
         // Add custom attributes
         if let Some(style) = style {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="node {}""#, class))
-            }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape(value)))
             }
         }
 
@@ -234,7 +235,7 @@ impl SvgRenderer {
             let center = rect.center();
             svg.push_str(&format!(
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
-                center.x, center.y, text_color, text_size, self.config.font_family, node.label
+                center.x, center.y, text_color, text_size, self.config.font_family, escape(&node.label)
             ));
             svg.push('\n')
         }
@@ -261,7 +262,11 @@ impl SvgRenderer {
             path_data.push_str(&format!(" L {} {}", point.x, point.y))
         }
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none""#, path_data, stroke_color, stroke_width));
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="edge {}""#, escape(class))),
+            None => svg.push_str(r#" class="edge""#),
+        }
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
@@ -273,11 +278,8 @@ impl SvgRenderer {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="edge {}""#, class))
-            }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape(value)))
             }
         }
 
@@ -304,7 +306,7 @@ impl SvgRenderer {
                 text_color,
                 text_size,
                 self.config.font_family,
-                label
+                escape(label)
             ));
             svg.push('\n')
         }
@@ -334,6 +336,11 @@ impl SvgRenderer {
     }
 }
 
+/// Text as it is written in element content and attribute values.
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#39;")
+}
+
 impl Default for SvgRenderer {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 915e91abeac0e9d44d594e51f1a2a91ec189974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 24/31] fix: highlighting drops the text after the end of the
 tree

---
 projects/oak-highlight/src/highlighter/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/oak-highlight/src/highlighter/mod.rs b/projects/oak-highlight/src/highlighter/mod.rs
index 2673395..704576f 100644
--- a/projects/oak-highlight/src/highlighter/mod.rs
+++ b/projects/oak-highlight/src/highlighter/mod.rs
@@ -374,6 +374,12 @@ impl OakHighlighter {
 
         <HighlightVisitor<'a, '_> as Visitor<L>>::visit_node(&mut visitor, red_root);
 
+        // Text after the end of the tree has no token, but is still part of the source
+        let end = visitor.segments.last().map_or(0, |segment| segment.span.end);
+        if end < source.len() {
+            visitor.segments.push(HighlightSegment { span: Range { start: end, end: source.len() }.into(), style: theme_config.resolve_style("none"), text: Cow::Borrowed(&source[end..]) });
+        }
+
         Ok(HighlightResult { segments: visitor.segments, source: Cow::Borrowed(source) })
     }
 
-- 
2.43.0


From 238b95a934b0bfeade7f3e760caeee9377d5cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 25/31] Revert "fix: references of a JSON key find nothing, and
 would miss keys nested in a matching entry"

This reverts commit 14e7e42e53e83d0e25eb5b9a4b4f268bf2ce6e6f.
---
 examples/oak-json/src/lsp/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/examples/oak-json/src/lsp/mod.rs b/examples/oak-json/src/lsp/mod.rs
index d4cc9be..50d7cc0 100644
--- a/examples/oak-json/src/lsp/mod.rs
+++ b/examples/oak-json/src/lsp/mod.rs
@@ -51,9 +51,12 @@ impl<V: Vfs> JsonLanguageService<V> {
         Self { vfs, workspace: oak_lsp::workspace::WorkspaceManager::default(), hover_provider: JsonHoverProvider, sessions: DashMap::new() }
     }
     fn collect_definitions(&self, node: &RedNode<JsonLanguage>, name: &str, source: &V::Source, uri: &str, definitions: &mut Vec<oak_lsp::LocationRange>) {
-        use oak_core::{language::UniversalTokenRole, tree::RedTree};
+        use oak_core::{
+            language::{ElementType, UniversalElementRole, UniversalTokenRole},
+            tree::RedTree,
+        };
         // In JSON, every ObjectEntry can be considered a definition if its key matches
-        if node.green.kind == JsonElementType::ObjectEntry {
+        if ElementType::is_universal(&node.green.kind, UniversalElementRole::Statement) && node.green.kind == JsonElementType::ObjectEntry {
             for child in node.children() {
                 if let RedTree::Leaf(leaf) = child {
                     // Keys are Name (if BareKey) or Literal (if StringLiteral)
@@ -64,7 +67,7 @@ impl<V: Vfs> JsonLanguageService<V> {
                         let key_name = if leaf.kind == JsonTokenType::StringLiteral { text.trim_matches('"') } else { &text };
                         if key_name == name {
                             definitions.push(oak_lsp::LocationRange { uri: uri.to_string().into(), range: leaf.span });
-                            break;
+                            return;
                         }
                     }
                 }
-- 
2.43.0


From 351564d08cc5d7a00e7d8e842615546d85449646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 26/31] Revert "fix: the JSON writer does not escape strings"

This reverts commit e04f973dd645ac5c8a622351a4b29210eb4609cc.
---
 examples/oak-json/src/ast/mod.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/examples/oak-json/src/ast/mod.rs b/examples/oak-json/src/ast/mod.rs
index 7e436b6..3cc70fe 100644
--- a/examples/oak-json/src/ast/mod.rs
+++ b/examples/oak-json/src/ast/mod.rs
@@ -93,13 +93,13 @@ impl JsonValue {
             JsonValue::Null(_) => "null".to_string(),
             JsonValue::Boolean(b) => b.value.to_string(),
             JsonValue::Number(n) => n.value.to_string(),
-            JsonValue::String(s) => quote(&s.value),
+            JsonValue::String(s) => format!("\"{}\"", s.value),
             JsonValue::Array(a) => {
                 let elements: Vec<String> = a.elements.iter().map(|e| e.to_string()).collect();
                 format!("[{}]", elements.join(","))
             }
             JsonValue::Object(o) => {
-                let fields: Vec<String> = o.fields.iter().map(|f| format!("{}:{}", quote(&f.name.value), f.value.to_string())).collect();
+                let fields: Vec<String> = o.fields.iter().map(|f| format!("\"{}\":{}", f.name.value, f.value.to_string())).collect();
                 format!("{{{}}}", fields.join(","))
             }
         }
@@ -335,7 +335,7 @@ impl ToSource for JsonArray {
 #[derive(Clone, Debug, PartialEq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "oak-pretty-print", derive(AsDocument))]
-#[cfg_attr(feature = "oak-pretty-print", oak(doc = quote(&self.value)))]
+#[cfg_attr(feature = "oak-pretty-print", oak(doc = format!("\"{}\"", self.value)))]
 pub struct JsonString {
     /// The string content (without quotes).
     pub value: String,
@@ -346,7 +346,9 @@ pub struct JsonString {
 
 impl ToSource for JsonString {
     fn to_source(&self, buffer: &mut SourceBuffer) {
-        buffer.push(&quote(&self.value))
+        buffer.push("\"");
+        buffer.push(&self.value);
+        buffer.push("\"")
     }
 }
 
@@ -404,22 +406,3 @@ impl ToSource for JsonNull {
         buffer.push("null")
     }
 }
-
-/// Writes a string as a JSON literal, escaping what may not stand in one.
-fn quote(value: &str) -> String {
-    let mut out = String::with_capacity(value.len() + 2);
-    out.push('"');
-    for c in value.chars() {
-        match c {
-            '"' => out.push_str("\\\""),
-            '\\' => out.push_str("\\\\"),
-            '\n' => out.push_str("\\n"),
-            '\r' => out.push_str("\\r"),
-            '\t' => out.push_str("\\t"),
-            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
-            c => out.push(c),
-        }
-    }
-    out.push('"');
-    out
-}
-- 
2.43.0


From e55053b714ae829fcd0427e69ea95fa14238267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 27/31] Revert "fix: JSON documents with surrounding blanks,
 trailing text or escapes are read wrongly"

This reverts commit b1fbc78c2db180a016663333bfefd4bb4f7d97a0.
---
 examples/oak-json/src/builder/mod.rs | 70 ++++------------------------
 examples/oak-json/src/lib.rs         |  3 --
 examples/oak-json/src/parser/mod.rs  | 26 ++++++-----
 3 files changed, 24 insertions(+), 75 deletions(-)

diff --git a/examples/oak-json/src/builder/mod.rs b/examples/oak-json/src/builder/mod.rs
index 29cbbbb..9c8b3ff 100644
--- a/examples/oak-json/src/builder/mod.rs
+++ b/examples/oak-json/src/builder/mod.rs
@@ -47,7 +47,12 @@ impl<'config> Builder<JsonLanguage> for JsonBuilder<'config> {
 
 impl<'config> JsonBuilder<'config> {
     fn build_root<'a>(&self, green_tree: &GreenNode<'a, JsonLanguage>, source: &SourceText) -> Result<JsonRoot, OakError> {
-        let value = self.build_value(green_tree, 0, source)?;
+        let root_node = match green_tree.children.first() {
+            Some(oak_core::GreenTree::Node(n)) => n,
+            _ => return Err(OakError::unexpected_eof(0, None)),
+        };
+
+        let value = self.build_value(root_node, 0, source)?;
         Ok(JsonRoot { value })
     }
 
@@ -96,24 +101,21 @@ impl<'config> JsonBuilder<'config> {
                 Ok(JsonValue::Array(crate::ast::JsonArray { elements, span }))
             }
             JsonElementType::String => {
-                let span = token_span(node, offset);
                 let text = source.get_text_in(span.clone());
-                let value = decode_string(&text);
+                let value = text.trim_matches('"').to_string();
                 Ok(JsonValue::String(crate::ast::JsonString { value, span }))
             }
             JsonElementType::Number => {
-                let span = token_span(node, offset);
                 let text = source.get_text_in(span.clone());
                 let value = text.parse::<f64>().map_err(|_| OakError::syntax_error(format!("Invalid number: {}", text), span.start, None))?;
                 Ok(JsonValue::Number(crate::ast::JsonNumber { value, span }))
             }
             JsonElementType::Boolean => {
-                let span = token_span(node, offset);
                 let text = source.get_text_in(span.clone());
                 let value = text == "true";
                 Ok(JsonValue::Boolean(crate::ast::JsonBoolean { value, span }))
             }
-            JsonElementType::Null => Ok(JsonValue::Null(crate::ast::JsonNull { span: token_span(node, offset) })),
+            JsonElementType::Null => Ok(JsonValue::Null(crate::ast::JsonNull { span })),
             JsonElementType::Value | JsonElementType::ArrayElement | JsonElementType::Root => {
                 let mut current_offset = offset;
                 for child in node.children {
@@ -146,7 +148,7 @@ impl<'config> JsonBuilder<'config> {
                         if n.kind == JsonElementType::String {
                             let s_span: oak_core::Range<usize> = (current_offset..current_offset + n.text_len as usize).into();
                             let text = source.get_text_in(s_span.clone());
-                            let val = decode_string(&text);
+                            let val = text.trim_matches('"').to_string();
                             name = Some(crate::ast::JsonString { value: val, span: s_span });
                         }
                     }
@@ -168,7 +170,7 @@ impl<'config> JsonBuilder<'config> {
                         JsonTokenType::StringLiteral | JsonTokenType::BareKey if !seen_colon => {
                             let b_span: oak_core::Range<usize> = (current_offset..current_offset + l.length as usize).into();
                             let text = source.get_text_in(b_span.clone());
-                            let val = if l.kind == JsonTokenType::StringLiteral { decode_string(&text) } else { text.to_string() };
+                            let val = if l.kind == JsonTokenType::StringLiteral { text.trim_matches('"').to_string() } else { text.to_string() };
                             name = Some(crate::ast::JsonString { value: val, span: b_span });
                         }
                         _ => {}
@@ -184,55 +186,3 @@ impl<'config> JsonBuilder<'config> {
         Ok(crate::ast::JsonField { name, value, span })
     }
 }
-
-/// The span of the token of a scalar, without the trivia that follows it.
-fn token_span(node: &GreenNode<'_, JsonLanguage>, offset: usize) -> oak_core::Range<usize> {
-    let length = node.children.first().map_or(0, |token| token.len() as usize);
-    (offset..offset + length).into()
-}
-
-/// Decodes a string literal: removes the quotes and replaces the escape sequences.
-fn decode_string(literal: &str) -> String {
-    let mut chars = literal.chars();
-    if matches!(literal.chars().next(), Some('"' | '\'')) {
-        chars.next();
-        chars.next_back();
-    }
-    let mut out = String::with_capacity(literal.len());
-    while let Some(c) = chars.next() {
-        if c != '\\' {
-            out.push(c);
-            continue;
-        }
-        match chars.next() {
-            Some('b') => out.push('\u{8}'),
-            Some('f') => out.push('\u{c}'),
-            Some('n') => out.push('\n'),
-            Some('r') => out.push('\r'),
-            Some('t') => out.push('\t'),
-            Some('u') => match hex4(chars.as_str()) {
-                Some(unit) => {
-                    let mut rest = &chars.as_str()[4..];
-                    let mut code = unit;
-                    // A pair of surrogates stands for one character
-                    if let (0xd800..0xdc00, Some(low @ 0xdc00..0xe000)) = (unit, rest.strip_prefix("\\u").and_then(hex4)) {
-                        code = 0x10000 + ((unit - 0xd800) << 10) + (low - 0xdc00);
-                        rest = &rest[6..]
-                    }
-                    out.push(char::from_u32(code).unwrap_or(char::REPLACEMENT_CHARACTER));
-                    chars = rest.chars()
-                }
-                None => out.push('u'),
-            },
-            Some(other) => out.push(other),
-            None => {}
-        }
-    }
-    out
-}
-
-/// The value of the four hexadecimal digits at the start of the text.
-fn hex4(text: &str) -> Option<u32> {
-    let digits = text.get(..4)?;
-    if digits.bytes().all(|b| b.is_ascii_hexdigit()) { u32::from_str_radix(digits, 16).ok() } else { None }
-}
diff --git a/examples/oak-json/src/lib.rs b/examples/oak-json/src/lib.rs
index 08842a8..10dc6b8 100644
--- a/examples/oak-json/src/lib.rs
+++ b/examples/oak-json/src/lib.rs
@@ -65,9 +65,6 @@ pub fn parse(json: &str) -> Result<crate::ast::JsonValue, String> {
     let source = SourceText::new(json.to_string());
     let mut cache = ParseSession::default();
     let result = builder.build(&source, &[], &mut cache);
-    if let Some(error) = result.diagnostics.first() {
-        return Err(format!("{:?}", error));
-    }
     result.result.map(|root| root.value).map_err(|e| format!("{:?}", e))
 }
 
diff --git a/examples/oak-json/src/parser/mod.rs b/examples/oak-json/src/parser/mod.rs
index 80c3616..17ff973 100644
--- a/examples/oak-json/src/parser/mod.rs
+++ b/examples/oak-json/src/parser/mod.rs
@@ -189,24 +189,26 @@ impl<'config> Parser<JsonLanguage> for JsonParser<'config> {
     fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl oak_core::ParseCache<JsonLanguage>) -> oak_core::ParseOutput<'a, JsonLanguage> {
         let lexer = crate::lexer::JsonLexer::new(self.config);
         oak_core::parser::parse_with_lexer(&lexer, text, edits, cache, |state| {
+            let checkpoint = state.checkpoint();
             let res = self.parse_value(state);
+            if res.is_err() {
+                // If parsing fails, we might still want to return a partial tree or an error tree
+                // But parse_value handles errors by returning Result<(), OakError>
+                // And it records errors in state.errors
+            }
 
             // Ensure we consume all remaining trivia/whitespace
-            self.skip_trivia(state);
-
-            // Nothing may follow a complete value
-            if res.is_ok() && state.not_at_end() && !state.at(JsonTokenType::Eof) {
-                let checkpoint = state.checkpoint();
-                let kind = state.peek_kind().unwrap_or(JsonTokenType::Error);
-                state.record_unexpected_token(format!("{:?}", kind));
-                while state.not_at_end() && !state.at(JsonTokenType::Eof) {
-                    state.bump();
+            while state.not_at_end() {
+                if let Some(token) = state.current() {
+                    if token.kind.is_ignored() {
+                        state.bump(); // Changed from state.advance() to state.bump() to include in tree
+                        continue;
+                    }
                 }
-                state.finish_at(checkpoint, JsonElementType::Error);
+                break;
             }
 
-            // The trivia before the value belongs to the root as well
-            let root = state.finish_at((0, 0), JsonElementType::Root);
+            let root = state.finish_at(checkpoint, crate::parser::element_type::JsonElementType::Root);
             Ok(root)
         })
     }
-- 
2.43.0


From c6112bc9c8a2c4eba7f0251e81c38c33a693534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:42 +0000
Subject: [PATCH 28/31] Revert "fix: the JSON lexer leaves gaps for text no
 rule matches"

This reverts commit 59ace26da82e966cb8e533cf9c24fbaa496ca2dd.
---
 examples/oak-json/src/lexer/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/oak-json/src/lexer/mod.rs b/examples/oak-json/src/lexer/mod.rs
index 7ced012..57c516e 100644
--- a/examples/oak-json/src/lexer/mod.rs
+++ b/examples/oak-json/src/lexer/mod.rs
@@ -84,11 +84,7 @@ impl<'config> JsonLexer<'config> {
                 }
             }
 
-            // 没有规则匹配时，标记为错误
-            if state.get_position() == safe_point {
-                state.advance(ch.len_utf8());
-                state.add_token(JsonTokenType::Error, safe_point, state.get_position());
-            }
+            state.advance_if_dead_lock(safe_point);
         }
 
         Ok(())
@@ -149,7 +145,6 @@ impl<'config> JsonLexer<'config> {
             true
         }
         else {
-            state.add_token(JsonTokenType::Error, start_pos, state.get_position());
             false
         }
     }
-- 
2.43.0


From b6cfd843234542f93e14595fbc177acb9adb073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 29/31] Hook for verification: the REPL's keys and screen can
 be stood in for (cfg oak_verif)

---
 projects/oak-repl/src/lib.rs | 56 ++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..ae24b27 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -4,14 +4,20 @@
 //! A REPL framework deeply integrated with Oak language features.
 //! Supports multi-line input, syntax integrity checking, and custom highlighting.
 
+#[cfg(oak_verif)]
+use crate::verif::{event, io, terminal};
 use crossterm::{
     cursor::MoveToColumn,
-    event::{self, Event, KeyCode, KeyModifiers},
+    event::{Event, KeyCode, KeyModifiers},
     execute,
-    terminal::{self, Clear, ClearType},
+    terminal::{Clear, ClearType},
 };
+#[cfg(not(oak_verif))]
+use crossterm::{event, terminal};
 use oak_highlight::{AnsiExporter, Exporter, HighlightResult, OakHighlighter};
-use std::io::{self, Write};
+#[cfg(not(oak_verif))]
+use std::io;
+use std::io::Write;
 
 use std::{
     error::Error,
@@ -257,3 +263,47 @@ impl<H: ReplHandler> OakRepl<H> {
         Ok(())
     }
 }
+
+/// A terminal whose keys are given and whose screen is kept, for verification.
+#[cfg(oak_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use std::{collections::VecDeque, sync::Mutex};
+
+    /// The keys that will be read; reading fails when there are none left.
+    pub static KEYS: Mutex<VecDeque<event::KeyEvent>> = Mutex::new(VecDeque::new());
+    /// Everything written to the screen.
+    pub static SCREEN: Mutex<Vec<u8>> = Mutex::new(Vec::new());
+
+    pub mod event {
+        pub use crossterm::event::*;
+        pub fn read() -> std::io::Result<Event> {
+            super::KEYS.lock().unwrap().pop_front().map(Event::Key).ok_or(std::io::ErrorKind::UnexpectedEof.into())
+        }
+    }
+
+    pub mod terminal {
+        pub fn enable_raw_mode() -> std::io::Result<()> {
+            Ok(())
+        }
+        pub fn disable_raw_mode() -> std::io::Result<()> {
+            Ok(())
+        }
+    }
+
+    pub mod io {
+        pub struct Screen;
+        pub fn stdout() -> Screen {
+            Screen
+        }
+        impl std::io::Write for Screen {
+            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
+                super::SCREEN.lock().unwrap().extend_from_slice(b);
+                Ok(b.len())
+            }
+            fn flush(&mut self) -> std::io::Result<()> {
+                Ok(())
+            }
+        }
+    }
+}
-- 
2.43.0


From 9c40f9a3659d5d20de7a9f9bff1c268d2c06394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 30/31] fix: the REPL line buffer uses character positions as
 byte offsets

---
 projects/oak-repl/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index ae24b27..c1d041c 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -112,15 +112,23 @@ impl LineBuffer {
 
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let at = self.cursor_offset();
+        self.lines[self.current_line].insert(at, ch);
         self.cursor_pos += 1;
     }
 
+    /// The byte offset of the cursor, whose position counts characters.
+    fn cursor_offset(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(at, _)| at)
+    }
+
     /// Remove a character before the current cursor position.
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let at = self.cursor_offset();
+            self.lines[self.current_line].remove(at);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0


From eed3e94e06ea5c7db49c92bef463836af003506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 31/31] fix: attaching a file to an unexpected-end-of-file
 error had no effect

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..5bb09da 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -471,6 +471,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0

