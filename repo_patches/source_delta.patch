From b3da1249f0c6df7e7c78cf5b7b50394c97acf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 01/56] fix: do not overflow when more context lines are
 requested than a usize can add

---
 diagnostics/src/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diagnostics/src/render.rs b/diagnostics/src/render.rs
index a696e33..74d9d9c 100644
--- a/diagnostics/src/render.rs
+++ b/diagnostics/src/render.rs
@@ -441,7 +441,7 @@ fn plan_file_render<'a>(
       });
 
       let ctx_start = line_idx.saturating_sub(options.context_lines);
-      let ctx_end = max_line_index.min(line_idx + options.context_lines);
+      let ctx_end = max_line_index.min(line_idx.saturating_add(options.context_lines));
       for ctx in ctx_start..=ctx_end {
         lines_to_render.insert(ctx);
       }
-- 
2.43.0


From 1ce7b6143b2c0a85e84544118eba218ce14dabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 02/56] fix: recognise a drive letter exposed by dropped path
 segments so normalization is idempotent

---
 diagnostics/src/paths.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/diagnostics/src/paths.rs b/diagnostics/src/paths.rs
index ccfd88c..0b59604 100644
--- a/diagnostics/src/paths.rs
+++ b/diagnostics/src/paths.rs
@@ -65,15 +65,28 @@ pub fn normalize_ts_path_into(raw: &str, normalized: &mut String) {
     // Treat bare relative inputs as rooted at `/` for determinism.
     normalized.push('/');
   }
-  let root_len = normalized.len();
+  let mut root_len = normalized.len();
 
   // Split on either slash flavor so we don't need to allocate a normalized intermediate.
   let bytes = rest.as_bytes();
   let mut segment_start = 0;
   for idx in 0..=bytes.len() {
     if idx == bytes.len() || bytes[idx] == b'/' || bytes[idx] == b'\\' {
-      let part = &rest[segment_start..idx];
+      let mut part = &rest[segment_start..idx];
       segment_start = idx + 1;
+      if root_len == 1 && normalized.len() == root_len {
+        // Dropped `.`/`..` segments can expose a drive letter (`./C:/foo`). It has to become the
+        // root here, as it would when the result is normalized again.
+        let bytes = part.as_bytes();
+        if bytes.len() >= 2 && bytes[0].is_ascii_alphabetic() && bytes[1] == b':' {
+          normalized.clear();
+          normalized.push(bytes[0].to_ascii_lowercase() as char);
+          normalized.push(':');
+          normalized.push('/');
+          root_len = normalized.len();
+          part = &part[2..];
+        }
+      }
       if part.is_empty() || part == "." {
         continue;
       }
-- 
2.43.0


From f2ec617acbc03f437ae054316e26c458c1c49098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 03/56] fix: measure a reversed location as empty instead of
 underflowing

---
 parse-js/src/loc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-js/src/loc.rs b/parse-js/src/loc.rs
index 85c22cd..56b0e9c 100644
--- a/parse-js/src/loc.rs
+++ b/parse-js/src/loc.rs
@@ -202,7 +202,7 @@ impl Loc {
   }
 
   pub fn len(&self) -> usize {
-    self.1 - self.0
+    self.1.saturating_sub(self.0)
   }
 
   pub fn extend(&mut self, other: Loc) {
-- 
2.43.0


From 153214bdd105112e7f34f4888003ff74309796fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 04/56] fix: collapse true | false to boolean however the union
 was grouped

union() recognised the pair only when nothing else was left, so
true | false | X stayed apart while (true | false) | X became boolean | X:
two ids for one type.
---
 types-ts-interned/src/store.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/types-ts-interned/src/store.rs b/types-ts-interned/src/store.rs
index d5b23e5..8e9b02d 100644
--- a/types-ts-interned/src/store.rs
+++ b/types-ts-interned/src/store.rs
@@ -787,6 +787,8 @@ impl TypeStore {
     }
 
     let mut has_boolean = false;
+    let mut has_true = false;
+    let mut has_false = false;
     let mut has_number = false;
     let mut has_string = false;
     let mut has_bigint = false;
@@ -794,6 +796,8 @@ impl TypeStore {
     for member in &flat {
       match self.type_kind(*member) {
         TypeKind::Boolean => has_boolean = true,
+        TypeKind::BooleanLiteral(true) => has_true = true,
+        TypeKind::BooleanLiteral(false) => has_false = true,
         TypeKind::Number => has_number = true,
         TypeKind::String => has_string = true,
         TypeKind::BigInt => has_bigint = true,
@@ -802,6 +806,13 @@ impl TypeStore {
       }
     }
 
+    // `true | false` is `boolean` wherever the two literals occur, so that the
+    // result does not depend on how the members were grouped.
+    if has_true && has_false && !has_boolean {
+      has_boolean = true;
+      flat.push(self.primitives.boolean);
+    }
+
     flat.retain(|member| match self.type_kind(*member) {
       TypeKind::BooleanLiteral(_) => !has_boolean,
       TypeKind::NumberLiteral(_) => !has_number,
@@ -819,13 +830,6 @@ impl TypeStore {
     if flat.len() == 1 {
       return flat[0];
     }
-    if flat.len() == 2
-      && matches!(self.type_kind(flat[0]), TypeKind::BooleanLiteral(_))
-      && matches!(self.type_kind(flat[1]), TypeKind::BooleanLiteral(_))
-    {
-      return self.primitives.boolean;
-    }
-
     self.insert_type_direct(TypeKind::Union(flat))
   }
 
-- 
2.43.0


From 7225b857b9f6c4b2d6439d0d252a8d3384231c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 05/56] fix: propagate dataflow past blocks whose first state
 equals bottom

Liveness starts from an empty boundary state, so nothing was ever queued
after the virtual exit and cross-block liveness was always empty.
---
 optimize-js/src/analysis/dataflow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optimize-js/src/analysis/dataflow.rs b/optimize-js/src/analysis/dataflow.rs
index d18cf1c..a771007 100644
--- a/optimize-js/src/analysis/dataflow.rs
+++ b/optimize-js/src/analysis/dataflow.rs
@@ -143,6 +143,8 @@ fn run_dataflow<A: DataFlowAnalysis>(
   let boundary_state = analysis.boundary_state(&resolved_boundary, cfg);
   let mut worklist = VecDeque::from([boundary_label]);
   let mut queued = HashSet::from_iter([boundary_label]);
+  // A block whose first computed state happens to equal bottom must still be propagated past.
+  let mut visited = HashSet::default();
   while let Some(label) = worklist.pop_front() {
     queued.remove(&label);
     let incoming = if label == boundary_label {
@@ -171,8 +173,9 @@ fn run_dataflow<A: DataFlowAnalysis>(
       }
     };
 
+    let first_visit = visited.insert(label);
     let block_state = blocks.get_mut(&label).unwrap();
-    if block_state.entry != entry || block_state.exit != exit {
+    if first_visit || block_state.entry != entry || block_state.exit != exit {
       *block_state = BlockState { entry, exit };
       for succ in flow_graph.successors(label) {
         if queued.insert(succ) {
-- 
2.43.0


From 53af1e1b7da9f895bfe4c5f626a27393354ed3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 06/56] fix: connect the virtual exit to every sink SCC

With a natural exit present, infinite loops were left unvisited by backward
analyses, so liveness inside them missed values carried around the loop.
---
 optimize-js/src/analysis/dataflow.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/optimize-js/src/analysis/dataflow.rs b/optimize-js/src/analysis/dataflow.rs
index a771007..7a80928 100644
--- a/optimize-js/src/analysis/dataflow.rs
+++ b/optimize-js/src/analysis/dataflow.rs
@@ -15,8 +15,8 @@ pub enum Direction {
 pub enum AnalysisBoundary {
   /// Start from an existing CFG entry block.
   Entry(u32),
-  /// Start from a synthetic exit that connects all terminal blocks (or sink SCCs
-  /// when no terminals exist) to a single node.
+  /// Start from a synthetic exit that connects all terminal blocks and all other
+  /// sink SCCs (infinite loops) to a single node.
   VirtualExit,
 }
 
@@ -282,24 +282,12 @@ impl<'cfg> FlowGraph<'cfg> {
 }
 
 fn calculate_virtual_exit(cfg: &Cfg) -> VirtualExit {
-  // Connect the virtual exit to every natural exit, or to every node in a sink
-  // SCC if the graph has no terminal nodes (e.g. infinite loops).
-  let predecessors = {
-    let mut terminals = cfg
-      .graph
-      .labels()
-      .filter(|&l| cfg.graph.children(l).next().is_none())
-      .collect_vec();
-    terminals.sort_unstable();
-    if !terminals.is_empty() {
-      terminals
-    } else {
-      sink_scc_nodes(cfg)
-    }
-  };
+  // Connect the virtual exit to every node in a sink SCC: every natural exit,
+  // and every node of an infinite loop (which otherwise would never be visited
+  // by a backward analysis when the graph also has a natural exit).
   VirtualExit {
     label: next_unused_label(cfg),
-    predecessors,
+    predecessors: sink_scc_nodes(cfg),
   }
 }
 
-- 
2.43.0


From c36373d48749c37bdb21475858af134704b0d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 07/56] fix: decode template literal types through the UTF-16
 decoder (no panic on a surrogate escape followed by a broken one)

---
 parse-js/src/parse/expr/lit.rs | 202 +--------------------------------
 1 file changed, 4 insertions(+), 198 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index d25dd19..a9b9b78 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -107,175 +107,6 @@ struct LiteralError {
   len: usize,
 }
 
-fn decode_escape_sequence(
-  raw: &str,
-  escape_start: usize,
-) -> Result<(usize, Option<char>), LiteralError> {
-  let mut chars = raw.chars();
-  let Some(first) = chars.next() else {
-    return Err(LiteralError {
-      kind: LiteralErrorKind::UnexpectedEnd,
-      offset: escape_start,
-      len: 0,
-    });
-  };
-  match first {
-    '\r' => {
-      let mut consumed = first.len_utf8();
-      if raw[first.len_utf8()..].starts_with('\n') {
-        consumed += '\n'.len_utf8();
-      }
-      Ok((consumed, None))
-    }
-    '\n' | '\u{2028}' | '\u{2029}' => Ok((first.len_utf8(), None)),
-    'b' => Ok((1, Some('\x08'))),
-    'f' => Ok((1, Some('\x0c'))),
-    'n' => Ok((1, Some('\n'))),
-    'r' => Ok((1, Some('\r'))),
-    't' => Ok((1, Some('\t'))),
-    'v' => Ok((1, Some('\x0b'))),
-    '0'..='7' => {
-      let mut consumed = first.len_utf8();
-      let mut value = first.to_digit(8).unwrap();
-      for ch in raw[consumed..].chars().take(2) {
-        if ('0'..='7').contains(&ch) {
-          consumed += ch.len_utf8();
-          value = (value << 3) + ch.to_digit(8).unwrap();
-        } else {
-          break;
-        }
-      }
-      let Some(c) = char::from_u32(value) else {
-        return Err(LiteralError {
-          kind: LiteralErrorKind::InvalidEscape,
-          offset: escape_start,
-          len: 1,
-        });
-      };
-      Ok((consumed, Some(c)))
-    }
-    'x' => {
-      let mut hex_iter = raw[first.len_utf8()..].chars();
-      let Some(h1) = hex_iter.next() else {
-        return Err(LiteralError {
-          kind: LiteralErrorKind::UnexpectedEnd,
-          offset: escape_start,
-          len: 0,
-        });
-      };
-      let Some(h2) = hex_iter.next() else {
-        return Err(LiteralError {
-          kind: LiteralErrorKind::UnexpectedEnd,
-          offset: escape_start,
-          len: 0,
-        });
-      };
-      if !h1.is_ascii_hexdigit() || !h2.is_ascii_hexdigit() {
-        return Err(LiteralError {
-          kind: LiteralErrorKind::InvalidEscape,
-          offset: escape_start,
-          len: 1,
-        });
-      }
-      let cp = u32::from_str_radix(&format!("{h1}{h2}"), 16).unwrap();
-      let Some(c) = char::from_u32(cp) else {
-        return Err(LiteralError {
-          kind: LiteralErrorKind::InvalidEscape,
-          offset: escape_start,
-          len: 1,
-        });
-      };
-      let consumed = first.len_utf8() + h1.len_utf8() + h2.len_utf8();
-      Ok((consumed, Some(c)))
-    }
-    'u' => {
-      let after_u = &raw[first.len_utf8()..];
-      if after_u.starts_with('{') {
-        let Some(end) = after_u.find('}') else {
-          return Err(LiteralError {
-            kind: LiteralErrorKind::UnexpectedEnd,
-            offset: escape_start,
-            len: 0,
-          });
-        };
-        let hex = &after_u[1..end];
-        if hex.is_empty() || !hex.chars().all(|c| c.is_ascii_hexdigit()) {
-          return Err(LiteralError {
-            kind: LiteralErrorKind::InvalidEscape,
-            offset: escape_start,
-            len: 1,
-          });
-        }
-        let value = u32::from_str_radix(hex, 16).ok().ok_or(LiteralError {
-          kind: LiteralErrorKind::InvalidEscape,
-          offset: escape_start,
-          len: 1,
-        })?;
-        if value > 0x10FFFF {
-          return Err(LiteralError {
-            kind: LiteralErrorKind::InvalidEscape,
-            offset: escape_start,
-            len: 1,
-          });
-        }
-        // JavaScript strings are UTF-16; allow surrogate code points by mapping
-        // them to U+FFFD so we can represent them in Rust `String`s.
-        let cp = char::from_u32(value).unwrap_or('\u{FFFD}');
-        let consumed = first.len_utf8() + end + 1;
-        Ok((consumed, Some(cp)))
-      } else {
-        let mut hex = String::new();
-        let mut consumed = first.len_utf8();
-        for ch in after_u.chars().take(4) {
-          hex.push(ch);
-          consumed += ch.len_utf8();
-        }
-        if hex.len() < 4 {
-          return Err(LiteralError {
-            kind: LiteralErrorKind::UnexpectedEnd,
-            offset: escape_start,
-            len: 0,
-          });
-        }
-        if !hex.chars().all(|c| c.is_ascii_hexdigit()) {
-          return Err(LiteralError {
-            kind: LiteralErrorKind::InvalidEscape,
-            offset: escape_start,
-            len: 1,
-          });
-        }
-        let value = u32::from_str_radix(&hex, 16).ok().ok_or(LiteralError {
-          kind: LiteralErrorKind::InvalidEscape,
-          offset: escape_start,
-          len: 1,
-        })?;
-        // Combine surrogate pairs when possible so sequences like `\\uD83D\\uDE00`
-        // decode to a valid Unicode scalar.
-        if (0xD800..=0xDBFF).contains(&value) {
-          let rest = &after_u[4..];
-          if rest.len() >= 6 && rest.starts_with("\\u") {
-            let low_hex = &rest[2..6];
-            if low_hex.chars().all(|c| c.is_ascii_hexdigit()) {
-              let low = u32::from_str_radix(low_hex, 16).unwrap();
-              if (0xDC00..=0xDFFF).contains(&low) {
-                let high_ten = (value - 0xD800) << 10;
-                let low_ten = low - 0xDC00;
-                let combined = 0x10000 + high_ten + low_ten;
-                if let Some(cp) = char::from_u32(combined) {
-                  return Ok((consumed + 6, Some(cp)));
-                }
-              }
-            }
-          }
-        }
-        let cp = char::from_u32(value).unwrap_or('\u{FFFD}');
-        Ok((consumed, Some(cp)))
-      }
-    }
-    c => Ok((c.len_utf8(), Some(c))),
-  }
-}
-
 #[derive(Clone, Copy, Debug)]
 enum Utf16Escape {
   None,
@@ -432,35 +263,10 @@ fn decode_escape_sequence_utf16(
 }
 
 fn decode_literal(raw: &str, allow_line_terminators: bool) -> Result<String, LiteralError> {
-  let mut norm = String::new();
-  let mut offset = 0;
-  while offset < raw.len() {
-    let mut iter = raw[offset..].char_indices();
-    let (rel, ch) = iter.next().unwrap();
-    debug_assert_eq!(rel, 0);
-    if ch == '\\' {
-      let escape_start = offset;
-      let after_backslash = offset + ch.len_utf8();
-      let (consumed, addition) = decode_escape_sequence(&raw[after_backslash..], escape_start)?;
-      if let Some(c) = addition {
-        norm.push(c);
-      }
-      offset = after_backslash + consumed;
-    } else {
-      // ECMAScript 2019 permits U+2028/U+2029 (line/paragraph separators) in
-      // string literals; only CR/LF terminate literal lines.
-      if !allow_line_terminators && matches!(ch, '\n' | '\r') {
-        return Err(LiteralError {
-          kind: LiteralErrorKind::LineTerminator,
-          offset,
-          len: ch.len_utf8(),
-        });
-      }
-      norm.push(ch);
-      offset += ch.len_utf8();
-    }
-  }
-  Ok(norm)
+  // JavaScript strings are UTF-16; surrogate pairs combine whichever way they are spelled, and lone
+  // surrogates become U+FFFD so the value can be represented in a Rust `String`.
+  let code_units = decode_literal_utf16(raw, allow_line_terminators)?;
+  Ok(String::from_utf16_lossy(&code_units))
 }
 
 fn decode_literal_utf16(raw: &str, allow_line_terminators: bool) -> Result<Vec<u16>, LiteralError> {
-- 
2.43.0


From b6d99f976bb2d4bef288e58b6711937b97c00168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 08/56] fix: legacy octal escapes end at \377

---
 parse-js/src/parse/expr/lit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index a9b9b78..8a18bf2 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -144,7 +144,10 @@ fn decode_escape_sequence_utf16(
     '0'..='7' => {
       let mut consumed = first.len_utf8();
       let mut value = first.to_digit(8).unwrap() as u16;
-      for ch in raw[consumed..].chars().take(2) {
+      // Legacy octal escapes stop at \377: a third digit only belongs to the
+      // escape when the first one is at most 3.
+      let max_more = if first <= '3' { 2 } else { 1 };
+      for ch in raw[consumed..].chars().take(max_more) {
         if ('0'..='7').contains(&ch) {
           consumed += ch.len_utf8();
           value = (value << 3) + ch.to_digit(8).unwrap() as u16;
-- 
2.43.0


From a4869aa87faad3d702737e7141b018528714d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 09/56] fix: template values and raw values normalise CR and
 CRLF to LF

---
 parse-js/src/parse/expr/lit.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parse-js/src/parse/expr/lit.rs b/parse-js/src/parse/expr/lit.rs
index 8a18bf2..3dd24a3 100644
--- a/parse-js/src/parse/expr/lit.rs
+++ b/parse-js/src/parse/expr/lit.rs
@@ -303,10 +303,18 @@ fn decode_literal_utf16(raw: &str, allow_line_terminators: bool) -> Result<Vec<u
           len: ch.len_utf8(),
         });
       }
+      offset += ch.len_utf8();
+      if ch == '\r' {
+        // Template values normalise CR and CRLF to LF.
+        if raw[offset..].starts_with('\n') {
+          offset += '\n'.len_utf8();
+        }
+        norm.push(0x0a);
+        continue;
+      }
       let mut buf = [0u16; 2];
       let encoded = ch.encode_utf16(&mut buf);
       norm.extend_from_slice(encoded);
-      offset += ch.len_utf8();
     }
   }
   Ok(norm)
@@ -415,6 +423,12 @@ fn template_content(raw: &str, is_end: bool) -> Option<(usize, &str)> {
   raw.get(start..end).map(|body| (start, body))
 }
 
+/// Template Raw Value: the text as written, with CR and CRLF normalised to LF.
+fn template_raw_units(content: &str) -> Box<[u16]> {
+  let text = content.replace("\r\n", "\n").replace('\r', "\n");
+  text.encode_utf16().collect::<Vec<_>>().into_boxed_slice()
+}
+
 #[derive(Debug)]
 enum RegexErrorKind {
   LineTerminator,
@@ -1002,7 +1016,7 @@ impl<'a> Parser<'a> {
     let raw = self.bytes(t.loc);
     let (content_offset, first_content) =
       template_content(raw, is_end).ok_or_else(|| t.error(SyntaxErrorType::UnexpectedEnd))?;
-    let first_raw = first_content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+    let first_raw = template_raw_units(first_content);
     raw_parts.push(first_raw);
     let first_legacy_escape = find_legacy_escape_sequence(first_content);
     if !tagged && invalid_escape.is_none() {
@@ -1058,7 +1072,7 @@ impl<'a> Parser<'a> {
         let raw = self.bytes(string.loc);
         let (offset, content) = template_content(raw, string_is_end)
           .ok_or_else(|| string.error(SyntaxErrorType::UnexpectedEnd))?;
-        let raw_part = content.encode_utf16().collect::<Vec<_>>().into_boxed_slice();
+        let raw_part = template_raw_units(content);
         raw_parts.push(raw_part);
         let legacy_escape = find_legacy_escape_sequence(content);
         if !tagged && invalid_escape.is_none() {
-- 
2.43.0


From d548f92dda0999796afb95ef6e5ee602a48969c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 10/56] fix: template literal text is cooked already, emit it
 without stripping delimiters

---
 emit-js/src/expr.rs    |  8 +++-----
 emit-js/src/expr_js.rs | 10 ++++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index e4c4eef..f0bd489 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -767,12 +767,10 @@ where
   fn emit_template_literal(&mut self, parts: &[LitTemplatePart]) -> EmitResult {
     let mut raw = String::new();
     raw.push('`');
-    for (idx, part) in parts.iter().enumerate() {
+    for part in parts.iter() {
       match part {
-        LitTemplatePart::String(raw_part) => {
-          let is_first = idx == 0;
-          let is_last = idx == parts.len().saturating_sub(1);
-          let cooked = crate::cooked_template_segment(raw_part, is_first, is_last);
+        // The parser stores the cooked value, without delimiters.
+        LitTemplatePart::String(cooked) => {
           let mut buf = Vec::new();
           crate::emit_template_literal_segment(&mut buf, cooked);
           raw.push_str(std::str::from_utf8(&buf).expect("template literal escape output is UTF-8"));
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 4fc35ee..7b1934e 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1,5 +1,5 @@
 use crate::emitter::{EmitError, EmitErrorKind, EmitResult, Emitter};
-use crate::escape::{cooked_template_segment, emit_template_literal_segment};
+use crate::escape::emit_template_literal_segment;
 use crate::precedence::{child_min_prec_for_binary, starts_with_optional_chaining, Side};
 use crate::stmt::{emit_class_like, emit_decorators};
 use crate::ts_type::{emit_ts_type, emit_type_expr, emit_type_parameters};
@@ -906,12 +906,10 @@ fn emit_template_literal(em: &mut Emitter, template: &Node<LitTemplateExpr>) ->
 
 fn emit_template_parts(em: &mut Emitter, parts: &[LitTemplatePart]) -> EmitResult {
   em.write_raw_byte(b'`');
-  for (idx, part) in parts.iter().enumerate() {
+  for part in parts.iter() {
     match part {
-      LitTemplatePart::String(raw) => {
-        let is_first = idx == 0;
-        let is_last = idx + 1 == parts.len();
-        let cooked = cooked_template_segment(raw, is_first, is_last);
+      // The parser stores the cooked value, without delimiters.
+      LitTemplatePart::String(cooked) => {
         let mut buf = Vec::new();
         emit_template_literal_segment(&mut buf, cooked);
         em.write_raw_str(std::str::from_utf8(&buf).expect("template literal segment is UTF-8"));
-- 
2.43.0


From 1af83296e9ec12c0d336ec6c435b9eb3e622c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 11/56] fix: keep a decimal integer apart from a member dot
 when emitting HIR

---
 emit-js/src/expr_js.rs | 2 +-
 emit-js/src/hir.rs     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index 7b1934e..d9f0309 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -1005,7 +1005,7 @@ fn unary_operator_text(op: OperatorName) -> Result<&'static str, EmitError> {
   }
 }
 
-fn requires_trailing_dot(rendered: &str) -> bool {
+pub(crate) fn requires_trailing_dot(rendered: &str) -> bool {
   let mut bytes = rendered.as_bytes();
   if bytes.starts_with(b"-") {
     bytes = &bytes[1..];
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 16afeb9..1ea1590 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1,4 +1,5 @@
 use crate::escape::{emit_regex_literal, emit_string_literal, emit_template_literal_segment};
+use crate::expr_js::requires_trailing_dot;
 use crate::module_names::{
   emit_identifier_name_or_string_literal, emit_module_binding_identifier_or_string_literal,
   is_module_binding_identifier_token,
@@ -1746,6 +1747,11 @@ fn emit_member(
     emit_member_property(em, ctx, body, &member.property)?;
     em.write_punct("]");
   } else if let ObjectKey::Ident(name) = &member.property {
+    if let ExprKind::Literal(Literal::Number(num)) = &ctx.expr(body, member.object).kind {
+      if requires_trailing_dot(num) {
+        em.write_punct(".");
+      }
+    }
     em.write_punct(".");
     em.write_identifier(ctx.name(*name));
   }
-- 
2.43.0


From 77b35d014ca8bd8fc5843673f5ad3871b7ebf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 12/56] fix: break up <!-- wherever it would open an HTML-like
 comment

---
 emit-js/src/emitter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 4afe538..e3306af 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -394,13 +394,13 @@ impl Emitter {
   /// Writes bytes as-is without attempting to enforce token boundaries.
   /// Resets trailing state to avoid affecting subsequent boundary decisions.
   pub fn write_raw_str(&mut self, text: &str) {
-    self.out.extend_from_slice(text.as_bytes());
+    self.push_bytes(text.as_bytes());
     self.state.trailing = Boundary::None;
   }
 
   /// Writes a single byte without boundary handling.
   pub fn write_raw_byte(&mut self, byte: u8) {
-    self.out.push(byte);
+    self.push_bytes(&[byte]);
     self.state.trailing = Boundary::None;
   }
 
@@ -665,12 +665,19 @@ fn advance_html_start(mut state: HtmlStart, bytes: &[u8]) -> HtmlStart {
   state
 }
 
+/// Whether `bytes` completes a comment opener that the output before it began.
 fn would_start_html_comment(mut state: HtmlStart, bytes: &[u8]) -> bool {
   for &byte in bytes {
+    if matches!(state, HtmlStart::Start | HtmlStart::Other) {
+      return false;
+    }
     let (next, hazard) = next_html_start(state, byte);
     if hazard {
       return true;
     }
+    if next == HtmlStart::Lt {
+      return false;
+    }
     state = next;
   }
   false
@@ -690,7 +697,9 @@ fn next_html_start(state: HtmlStart, byte: u8) -> (HtmlStart, bool) {
   }
 
   match (state, byte) {
-    (HtmlStart::Start, b'<') => (HtmlStart::Lt, false),
+    // The second `<` of a shift operator does not start a token.
+    (HtmlStart::Lt, b'<') => (HtmlStart::Other, false),
+    (_, b'<') => (HtmlStart::Lt, false),
     (HtmlStart::Start, b'-') => (HtmlStart::Dash, false),
     (HtmlStart::Start, _) => (HtmlStart::Other, false),
     (HtmlStart::Lt, b'!') => (HtmlStart::LtBang, false),
-- 
2.43.0


From ba78e4a4ce2c761c2add7bbfb30eba99049239d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 13/56] fix: keep a regular expression apart from a following
 word

---
 emit-js/src/emitter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index e3306af..47a2eb1 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -195,6 +195,8 @@ enum Boundary {
   Minus,
   MinusMinus,
   Slash,
+  /// The end of a regular expression literal without flags.
+  Regex,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -495,7 +497,11 @@ fn needs_space(prev: Boundary, next: Leading) -> bool {
     | (Boundary::Minus, Leading::Minus)
     | (Boundary::MinusMinus, Leading::Minus)
     | (Boundary::Slash, Leading::Slash)
-    | (Boundary::Slash, Leading::Star) => true,
+    | (Boundary::Slash, Leading::Star)
+    | (Boundary::Regex, Leading::Word)
+    | (Boundary::Regex, Leading::Number)
+    | (Boundary::Regex, Leading::Slash)
+    | (Boundary::Regex, Leading::Star) => true,
     _ => false,
   }
 }
@@ -629,6 +635,7 @@ fn classify_trailing_char(bytes: &[u8], idx: usize) -> Boundary {
         Boundary::Minus
       }
     }
+    b'/' if idx >= 1 && bytes[0] == b'/' => Boundary::Regex,
     b'/' => Boundary::Slash,
     _ => Boundary::None,
   }
-- 
2.43.0


From e9e8956a4fa52464b2ccc54430a6438357e2a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 14/56] fix: treat non-ASCII and escaped identifiers as words
 in write_str

---
 emit-js/src/emitter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 47a2eb1..191ea13 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -607,7 +607,8 @@ fn classify_byte(byte: u8) -> FragmentBoundary {
 fn classify_leading_char(ch: u8) -> Leading {
   match ch {
     b'0'..=b'9' => Leading::Number,
-    b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => Leading::Word,
+    // Identifiers may hold non-ASCII characters and start with an escape.
+    b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' | b'\\' | 0x80..=0xff => Leading::Word,
     b'+' => Leading::Plus,
     b'-' => Leading::Minus,
     b'/' => Leading::Slash,
@@ -620,7 +621,7 @@ fn classify_trailing_char(bytes: &[u8], idx: usize) -> Boundary {
   let ch = bytes[idx];
   match ch {
     b'0'..=b'9' => Boundary::Number,
-    b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => Boundary::Word,
+    b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' | 0x80..=0xff => Boundary::Word,
     b'+' => {
       if idx >= 1 && bytes[idx - 1] == b'+' {
         Boundary::PlusPlus
-- 
2.43.0


From 211b368fd314633a5c955a4cdc294d8cc50ef03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 15/56] fix: keep a negative number apart from a preceding
 minus

---
 emit-js/src/emitter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 191ea13..3816090 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -564,6 +564,7 @@ fn classify_fragment_with_kind(bytes: &[u8], kind: TokenKind) -> FragmentBoundar
         b'*' => Leading::Star,
         _ => Leading::Other,
       },
+      TokenKind::Number if bytes[leading_idx] == b'-' => Leading::Minus,
       _ => kind.leading(),
     }
   } else {
-- 
2.43.0


From 27e14706d2679463bb06637279ec3fd243a6d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 16/56] fix: write a BigInt literal as one token in the generic
 expression printer

---
 emit-js/src/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index f0bd489..ef673c4 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -185,7 +185,8 @@ where
 
   fn emit_lit_big_int(&mut self, lit: &Node<LitBigIntExpr>) -> EmitResult {
     with_node_context(lit.loc, || {
-      write!(self.out, "{}n", lit.stx.value)?;
+      // One write, so that the suffix stays with its digits.
+      self.out.write_str(&format!("{}n", lit.stx.value))?;
       Ok(())
     })
   }
-- 
2.43.0


From be1f1ee846e8a5fba6f33c04d5349d2147743f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 17/56] fix: a BigInt is truthy unless it is zero

---
 optimize-js/src/eval/consteval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 97e426b..d2d3550 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -211,7 +211,7 @@ fn coerce_to_int32(v: &Const) -> Option<i32> {
 // https://developer.mozilla.org/en-US/docs/Glossary/Falsy
 pub fn coerce_to_bool(v: &Const) -> bool {
   match v {
-    BigInt(v) => v == &BigInt::from(0),
+    BigInt(v) => v != &BigInt::from(0),
     Bool(b) => *b,
     Null => false,
     Num(JN(v)) => !v.is_nan() && *v != 0.0,
-- 
2.43.0


From 85fcd23e6478dd351d17f4d8a23220d344a75310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 18/56] fix: an empty string is the BigInt 0n, a signed
 hexadecimal one is none

---
 optimize-js/src/eval/consteval.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index d2d3550..2927526 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -54,29 +54,22 @@ fn parse_int_digits_to_bigint(digits: &str, radix: u32) -> Option<BigInt> {
 pub fn parse_bigint(raw: &str) -> Option<BigInt> {
   let trimmed = trim_js_whitespace(raw);
   if trimmed.is_empty() {
-    return None;
+    return Some(BigInt::from(0));
   }
-  let (sign, body) = match trimmed.strip_prefix('+') {
-    Some(rest) => (1, rest),
-    None => match trimmed.strip_prefix('-') {
-      Some(rest) => (-1, rest),
-      None => (1, trimmed),
-    },
-  };
-  if body.is_empty() {
-    return None;
+  // Only decimal digits may have a sign.
+  if let Some(digits) = trimmed.strip_prefix('+') {
+    return parse_int_digits_to_bigint(digits, 10);
+  }
+  if let Some(digits) = trimmed.strip_prefix('-') {
+    return parse_int_digits_to_bigint(digits, 10).map(|v| -v);
   }
-  let (radix, digits) = match body {
+  let (radix, digits) = match trimmed {
     s if s.starts_with("0b") || s.starts_with("0B") => (2, &s[2..]),
     s if s.starts_with("0o") || s.starts_with("0O") => (8, &s[2..]),
     s if s.starts_with("0x") || s.starts_with("0X") => (16, &s[2..]),
     s => (10, s),
   };
-  let mut value = parse_int_digits_to_bigint(digits, radix)?;
-  if sign == -1 {
-    value = -value;
-  }
-  Some(value)
+  parse_int_digits_to_bigint(digits, radix)
 }
 
 pub fn coerce_bigint_to_num(v: &BigInt) -> f64 {
-- 
2.43.0


From 3044a32276e2432aaa5d75d5008cac4673cc092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 19/56] fix: compare BigInts with other primitives by
 mathematical value instead of panicking

---
 optimize-js/src/eval/consteval.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 2927526..8406219 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -5,7 +5,7 @@ use crate::il::inst::Const::*;
 use crate::il::inst::UnOp;
 use crate::il::inst::UnOp::*;
 use num_bigint::{BigInt, Sign};
-use num_traits::ToPrimitive;
+use num_traits::{FromPrimitive, ToPrimitive};
 use parse_js::char::{ECMASCRIPT_LINE_TERMINATORS, ECMASCRIPT_WHITESPACE};
 use parse_js::num::JsNumber as JN;
 use std::cmp::Ordering;
@@ -213,6 +213,27 @@ pub fn coerce_to_bool(v: &Const) -> bool {
   }
 }
 
+// Compares the mathematical values; None if `n` is NaN.
+fn cmp_bigint_num(b: &BigInt, n: f64) -> Option<Ordering> {
+  if n.is_nan() {
+    return None;
+  }
+  let Some(int) = BigInt::from_f64(n) else {
+    // Infinite.
+    return Some(if n > 0.0 {
+      Ordering::Less
+    } else {
+      Ordering::Greater
+    });
+  };
+  let fract = n - n.trunc();
+  Some(match b.cmp(&int) {
+    Ordering::Equal if fract > 0.0 => Ordering::Less,
+    Ordering::Equal if fract < 0.0 => Ordering::Greater,
+    ord => ord,
+  })
+}
+
 // If return value is None, then all comparison operators between `a` and `b` result in false.
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
@@ -221,6 +242,8 @@ pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
+    (BigInt(a), b) => cmp_bigint_num(a, coerce_to_num(b)),
+    (a, BigInt(b)) => cmp_bigint_num(b, coerce_to_num(a)).map(Ordering::reverse),
     (a, b) => {
       // https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-lessThan
       let a = coerce_to_num(a);
@@ -260,8 +283,8 @@ pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
     (Str(l), BigInt(r)) => parse_bigint(l).is_some_and(|l| &l == r),
     (Bool(l), r) => js_loose_eq(&Num(JN(*l as u8 as f64)), r),
     (l, Bool(r)) => js_loose_eq(l, &Num(JN(*r as u8 as f64))),
-    (BigInt(l), Num(r)) => r.0.is_finite() && coerce_bigint_to_num(l) == r.0,
-    (Num(l), BigInt(r)) => l.0.is_finite() && l.0 == coerce_bigint_to_num(r),
+    (BigInt(l), Num(r)) => cmp_bigint_num(l, r.0) == Some(Ordering::Equal),
+    (Num(l), BigInt(r)) => cmp_bigint_num(r, l.0) == Some(Ordering::Equal),
     _ => false,
   }
 }
-- 
2.43.0


From b45ede95e35b3c3131a5948f685ea4c115f35271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 20/56] fix: order constant strings by UTF-16 code units

---
 optimize-js/src/eval/consteval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 8406219..5633065 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -213,6 +213,11 @@ pub fn coerce_to_bool(v: &Const) -> bool {
   }
 }
 
+// Strings are ordered by their UTF-16 code units.
+fn js_str_cmp(a: &str, b: &str) -> Ordering {
+  a.encode_utf16().cmp(b.encode_utf16())
+}
+
 // Compares the mathematical values; None if `n` is NaN.
 fn cmp_bigint_num(b: &BigInt, n: f64) -> Option<Ordering> {
   if n.is_nan() {
@@ -238,7 +243,7 @@ fn cmp_bigint_num(b: &BigInt, n: f64) -> Option<Ordering> {
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islessthan
 pub fn js_cmp(a: &Const, b: &Const) -> Option<Ordering> {
   match (a, b) {
-    (Str(a), Str(b)) => Some(a.cmp(b)),
+    (Str(a), Str(b)) => Some(js_str_cmp(a, b)),
     (Str(a), BigInt(b)) => parse_bigint(a).map(|a| a.cmp(b)),
     (BigInt(a), Str(b)) => parse_bigint(b).map(|b| a.cmp(&b)),
     (BigInt(a), BigInt(b)) => Some(a.cmp(b)),
-- 
2.43.0


From 36e164d8f59f0b21859e676e202d1b7e2aefa28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 21/56] fix: 1 ** Infinity and 1 ** NaN are NaN

---
 optimize-js/src/eval/consteval.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 5633065..2ed1400 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -274,6 +274,15 @@ pub fn js_mod(a: f64, b: f64) -> f64 {
   }
 }
 
+// Unlike IEEE 754 pow, a NaN exponent, or a base of ±1 with an infinite exponent, gives NaN.
+pub fn js_pow(a: f64, b: f64) -> f64 {
+  if b.is_nan() || (a.abs() == 1.0 && b.is_infinite()) {
+    f64::NAN
+  } else {
+    a.powf(b)
+  }
+}
+
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islooselyequal
 pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
   if discriminant(a) == discriminant(b) {
@@ -316,10 +325,10 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
     (BitAnd, l, r) => Num(JN((coerce_to_int32(l)? & coerce_to_int32(r)?) as f64)),
     (BitOr, l, r) => Num(JN((coerce_to_int32(l)? | coerce_to_int32(r)?) as f64)),
     (BitXor, l, r) => Num(JN((coerce_to_int32(l)? ^ coerce_to_int32(r)?) as f64)),
-    (Exp, Num(l), Num(r)) => Num(JN(l.0.powf(r.0))),
-    (Exp, Num(l), Str(r)) => Num(JN(l.0.powf(coerce_str_to_num(r)))),
-    (Exp, Str(l), Num(r)) => Num(JN(coerce_str_to_num(l).powf(r.0))),
-    (Exp, Str(l), Str(r)) => Num(JN(coerce_str_to_num(l).powf(coerce_str_to_num(r)))),
+    (Exp, Num(l), Num(r)) => Num(JN(js_pow(l.0, r.0))),
+    (Exp, Num(l), Str(r)) => Num(JN(js_pow(l.0, coerce_str_to_num(r)))),
+    (Exp, Str(l), Num(r)) => Num(JN(js_pow(coerce_str_to_num(l), r.0))),
+    (Exp, Str(l), Str(r)) => Num(JN(js_pow(coerce_str_to_num(l), coerce_str_to_num(r)))),
     (Geq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_ge())),
     (Gt, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_gt())),
     (Leq, l, r) => Bool(js_cmp(l, r).is_some_and(|c| c.is_le())),
-- 
2.43.0


From 24309114f615f4eba13807207d6abd3d58824a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 22/56] fix: Math.round rounds halves towards +Infinity

---
 optimize-js/src/eval/consteval.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 2ed1400..7c5b697 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -283,6 +283,16 @@ pub fn js_pow(a: f64, b: f64) -> f64 {
   }
 }
 
+// Halves are rounded towards +Infinity.
+pub fn js_round(n: f64) -> f64 {
+  let rounded = n.round();
+  if n - rounded == 0.5 {
+    (rounded + 1.0).copysign(n)
+  } else {
+    rounded
+  }
+}
+
 // https://tc39.es/ecma262/multipage/abstract-operations.html#sec-islooselyequal
 pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
   if discriminant(a) == discriminant(b) {
@@ -401,7 +411,7 @@ pub fn maybe_eval_const_builtin_call(func: &str, args: &[Const]) -> Option<Const
       ("Math.log10", Num(a)) => Num(JN(a.0.log10())),
       ("Math.log1p", Num(a)) => Num(JN(a.0.ln_1p())),
       ("Math.log2", Num(a)) => Num(JN(a.0.log2())),
-      ("Math.round", Num(a)) => Num(JN(a.0.round())),
+      ("Math.round", Num(a)) => Num(JN(js_round(a.0))),
       ("Math.sin", Num(a)) => Num(JN(a.0.sin())),
       ("Math.sqrt", Num(a)) => Num(JN(a.0.sqrt())),
       ("Math.tan", Num(a)) => Num(JN(a.0.tan())),
-- 
2.43.0


From 1c527d6f7aee1d7387197f1de9b690a785f96131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 23/56] fix: concatenating a number converts it the way
 JavaScript does

---
 minify-js/src/opt/const_fold.rs   | 99 +------------------------------
 optimize-js/src/eval/consteval.rs |  6 +-
 parse-js/src/num.rs               | 96 ++++++++++++++++++++++++++++++
 3 files changed, 101 insertions(+), 100 deletions(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 50b10fa..2424041 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -17,7 +17,7 @@ use parse_js::ast::stmt::{
 use parse_js::ast::stx::TopLevel;
 use parse_js::char::{ECMASCRIPT_LINE_TERMINATORS, ECMASCRIPT_WHITESPACE};
 use parse_js::loc::Loc;
-use parse_js::num::JsNumber;
+use parse_js::num::{number_to_string, JsNumber};
 use parse_js::operator::OperatorName;
 use std::cmp::Ordering;
 
@@ -992,7 +992,7 @@ fn const_to_string(val: ConstVal<'_>) -> Option<String> {
         "false".to_string()
       }
     }
-    ConstVal::Num(n) => js_number_to_string(n),
+    ConstVal::Num(n) => number_to_string(n),
     ConstVal::Str(s) => s.to_string(),
     ConstVal::BigInt(s) => s.to_string(),
   })
@@ -1143,98 +1143,3 @@ fn coerce_str_to_num(raw: &str) -> f64 {
 
   body.parse::<f64>().map(|v| sign * v).unwrap_or(f64::NAN)
 }
-
-// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-tostring
-fn js_number_to_string(n: f64) -> String {
-  if n.is_nan() {
-    return "NaN".to_string();
-  }
-  if n == 0.0 {
-    // Covers both +0 and -0.
-    return "0".to_string();
-  }
-  if n.is_infinite() {
-    if n.is_sign_negative() {
-      return "-Infinity".to_string();
-    } else {
-      return "Infinity".to_string();
-    }
-  }
-
-  let sign = if n.is_sign_negative() { "-" } else { "" };
-  let abs = n.abs();
-  // `JsNumber` uses ryu for the digit+exponent decomposition we need.
-  let raw = JsNumber(abs).to_string();
-  let (digits, exp) = parse_ryu_to_decimal(&raw);
-  let k = exp + digits.len() as i32;
-
-  let mut out = String::new();
-  out.push_str(sign);
-
-  if k > 0 && k <= 21 {
-    let k = k as usize;
-    if k >= digits.len() {
-      out.push_str(&digits);
-      out.extend(std::iter::repeat('0').take(k - digits.len()));
-    } else {
-      out.push_str(&digits[..k]);
-      out.push('.');
-      out.push_str(&digits[k..]);
-    }
-    return out;
-  }
-
-  if k <= 0 && k > -6 {
-    out.push_str("0.");
-    out.extend(std::iter::repeat('0').take((-k) as usize));
-    out.push_str(&digits);
-    return out;
-  }
-
-  // Exponential form.
-  let first = digits.as_bytes()[0] as char;
-  out.push(first);
-  if digits.len() > 1 {
-    out.push('.');
-    out.push_str(&digits[1..]);
-  }
-  out.push('e');
-  let exp = k - 1;
-  if exp >= 0 {
-    out.push('+');
-    out.push_str(&exp.to_string());
-  } else {
-    out.push('-');
-    out.push_str(&(-exp).to_string());
-  }
-  out
-}
-
-fn parse_ryu_to_decimal(raw: &str) -> (String, i32) {
-  // `raw` is expected to be ASCII and contain either:
-  // - digits with optional decimal point
-  // - digits with optional decimal point and a trailing `e[+-]?\d+`
-  //
-  // Returns `(digits, exp)` such that `value = digits × 10^exp` and `digits`
-  // contains no leading zeros.
-  let (mantissa, exp_part) = match raw.split_once('e') {
-    Some((mantissa, exp)) => (mantissa, Some(exp)),
-    None => (raw, None),
-  };
-
-  let mut exp: i32 = exp_part.map_or(0, |e| e.parse().unwrap_or(0));
-
-  let mut digits = String::with_capacity(mantissa.len());
-  if let Some((int_part, frac_part)) = mantissa.split_once('.') {
-    digits.push_str(int_part);
-    digits.push_str(frac_part);
-    exp -= frac_part.len() as i32;
-  } else {
-    digits.push_str(mantissa);
-  }
-
-  // Strip leading zeros introduced by `0.xxx` forms.
-  let trimmed = digits.trim_start_matches('0');
-  // `raw` comes from a non-zero number, so we should always have digits.
-  (trimmed.to_string(), exp)
-}
diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index 7c5b697..fb8e82c 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -7,7 +7,7 @@ use crate::il::inst::UnOp::*;
 use num_bigint::{BigInt, Sign};
 use num_traits::{FromPrimitive, ToPrimitive};
 use parse_js::char::{ECMASCRIPT_LINE_TERMINATORS, ECMASCRIPT_WHITESPACE};
-use parse_js::num::JsNumber as JN;
+use parse_js::num::{number_to_string, JsNumber as JN};
 use std::cmp::Ordering;
 use std::f64::consts::E;
 use std::f64::consts::PI;
@@ -325,8 +325,8 @@ pub fn maybe_eval_const_bin_expr(op: BinOp, a: &Const, b: &Const) -> Option<Cons
   #[rustfmt::skip]
   let res = match (op, a, b) {
     (Add, Num(l), Num(r)) => Num(JN(l.0 + r.0)),
-    (Add, Num(l), Str(r)) => Str(format!("{l}{r}")),
-    (Add, Str(l), Num(r)) => Str(format!("{l}{r}")),
+    (Add, Num(l), Str(r)) => Str(format!("{}{r}", number_to_string(l.0))),
+    (Add, Str(l), Num(r)) => Str(format!("{l}{}", number_to_string(r.0))),
     (Add, Str(l), Str(r)) => Str(format!("{l}{r}")),
     (Div, Num(l), Num(r)) => Num(JN(js_div(l.0, r.0))),
     (Div, Num(l), Str(r)) => Num(JN(js_div(l.0, coerce_str_to_num(r)))),
diff --git a/parse-js/src/num.rs b/parse-js/src/num.rs
index 0517723..9963247 100644
--- a/parse-js/src/num.rs
+++ b/parse-js/src/num.rs
@@ -245,3 +245,99 @@ fn parse_number_literal(raw: &str) -> Option<f64> {
   }
   parse_decimal_literal(raw)
 }
+
+// https://tc39.es/ecma262/multipage/ecmascript-data-types-and-values.html#sec-numeric-types-number-tostring
+/// The string that JavaScript converts a number to.
+pub fn number_to_string(n: f64) -> String {
+  if n.is_nan() {
+    return "NaN".to_string();
+  }
+  if n == 0.0 {
+    // Covers both +0 and -0.
+    return "0".to_string();
+  }
+  if n.is_infinite() {
+    if n.is_sign_negative() {
+      return "-Infinity".to_string();
+    } else {
+      return "Infinity".to_string();
+    }
+  }
+
+  let sign = if n.is_sign_negative() { "-" } else { "" };
+  let abs = n.abs();
+  // `JsNumber` uses ryu for the digit+exponent decomposition we need.
+  let raw = JsNumber(abs).to_string();
+  let (digits, exp) = parse_ryu_to_decimal(&raw);
+  let k = exp + digits.len() as i32;
+
+  let mut out = String::new();
+  out.push_str(sign);
+
+  if k > 0 && k <= 21 {
+    let k = k as usize;
+    if k >= digits.len() {
+      out.push_str(&digits);
+      out.extend(std::iter::repeat('0').take(k - digits.len()));
+    } else {
+      out.push_str(&digits[..k]);
+      out.push('.');
+      out.push_str(&digits[k..]);
+    }
+    return out;
+  }
+
+  if k <= 0 && k > -6 {
+    out.push_str("0.");
+    out.extend(std::iter::repeat('0').take((-k) as usize));
+    out.push_str(&digits);
+    return out;
+  }
+
+  // Exponential form.
+  let first = digits.as_bytes()[0] as char;
+  out.push(first);
+  if digits.len() > 1 {
+    out.push('.');
+    out.push_str(&digits[1..]);
+  }
+  out.push('e');
+  let exp = k - 1;
+  if exp >= 0 {
+    out.push('+');
+    out.push_str(&exp.to_string());
+  } else {
+    out.push('-');
+    out.push_str(&(-exp).to_string());
+  }
+  out
+}
+
+fn parse_ryu_to_decimal(raw: &str) -> (String, i32) {
+  // `raw` is expected to be ASCII and contain either:
+  // - digits with optional decimal point
+  // - digits with optional decimal point and a trailing `e[+-]?\d+`
+  //
+  // Returns `(digits, exp)` such that `value = digits × 10^exp` and `digits`
+  // contains no leading zeros.
+  let (mantissa, exp_part) = match raw.split_once('e') {
+    Some((mantissa, exp)) => (mantissa, Some(exp)),
+    None => (raw, None),
+  };
+
+  let mut exp: i32 = exp_part.map_or(0, |e| e.parse().unwrap_or(0));
+
+  let mut digits = String::with_capacity(mantissa.len());
+  if let Some((int_part, frac_part)) = mantissa.split_once('.') {
+    digits.push_str(int_part);
+    digits.push_str(frac_part);
+    exp -= frac_part.len() as i32;
+  } else {
+    digits.push_str(mantissa);
+  }
+
+  // Strip leading zeros introduced by `0.xxx` forms.
+  let trimmed = digits.trim_start_matches('0');
+  // `raw` comes from a non-zero number, so we should always have digits.
+  (trimmed.to_string(), exp)
+}
-- 
2.43.0


From 3dd4ab9210143cb5719230531232f717d860fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 24/56] fix: JsNumber keeps 0 and -0 apart, consistently with
 its hash

---
 optimize-js/src/eval/consteval.rs |  3 +--
 parse-js/src/num.rs               | 14 ++++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/optimize-js/src/eval/consteval.rs b/optimize-js/src/eval/consteval.rs
index fb8e82c..89e5c2f 100644
--- a/optimize-js/src/eval/consteval.rs
+++ b/optimize-js/src/eval/consteval.rs
@@ -315,8 +315,7 @@ pub fn js_loose_eq(a: &Const, b: &Const) -> bool {
 
 pub fn js_strict_eq(a: &Const, b: &Const) -> bool {
   match (a, b) {
-    (Num(v), _) if v.0.is_nan() => false,
-    (_, Num(v)) if v.0.is_nan() => false,
+    (Num(l), Num(r)) => l.0 == r.0,
     (a, b) => a == b,
   }
 }
diff --git a/parse-js/src/num.rs b/parse-js/src/num.rs
index 9963247..779448e 100644
--- a/parse-js/src/num.rs
+++ b/parse-js/src/num.rs
@@ -59,10 +59,7 @@ impl Display for JsNumber {
 
 impl PartialEq for JsNumber {
   fn eq(&self, other: &Self) -> bool {
-    if self.0.is_nan() {
-      return other.0.is_nan();
-    };
-    self.0.eq(&other.0)
+    self.cmp(other).is_eq()
   }
 }
 
@@ -70,8 +67,13 @@ impl Eq for JsNumber {}
 
 impl Ord for JsNumber {
   fn cmp(&self, other: &Self) -> Ordering {
-    // Only NaNs cannot be compared, and we treat them as equal.
-    self.0.partial_cmp(&other.0).unwrap_or(Ordering::Equal)
+    // All NaNs are the same value; 0 and -0 are not.
+    match (self.0.is_nan(), other.0.is_nan()) {
+      (true, true) => Ordering::Equal,
+      (true, false) => Ordering::Greater,
+      (false, true) => Ordering::Less,
+      (false, false) => self.0.total_cmp(&other.0),
+    }
   }
 }
 
-- 
2.43.0


From d0966e975777f339e5c646b0bbc9240bbd22137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 25/56] fix: minifying 1 ** (1/0) gives NaN

---
 minify-js/src/opt/const_fold.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 2424041..75f2763 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -692,7 +692,7 @@ fn fold_binary_expr(
           Multiplication => l * r,
           Division => l / r,
           Remainder => l % r,
-          Exponentiation => l.powf(r),
+          Exponentiation => js_pow(l, r),
           _ => unreachable!(),
         };
         *changed = true;
@@ -998,6 +998,15 @@ fn const_to_string(val: ConstVal<'_>) -> Option<String> {
   })
 }
 
+// Unlike IEEE 754 pow, a NaN exponent, or a base of ±1 with an infinite exponent, gives NaN.
+fn js_pow(a: f64, b: f64) -> f64 {
+  if b.is_nan() || (a.abs() == 1.0 && b.is_infinite()) {
+    f64::NAN
+  } else {
+    a.powf(b)
+  }
+}
+
 fn js_to_uint32(n: f64) -> u32 {
   if !n.is_finite() || n == 0.0 {
     return 0;
-- 
2.43.0


From 2d507a740e1b85b3cddf87f6c69bc7b6b019200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 26/56] fix: fold to negative numbers as negations and do not
 fold to NaN

---
 minify-js/src/opt/const_fold.rs | 70 ++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 75f2763..a5e0956 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -6,7 +6,7 @@ use parse_js::ast::expr::jsx::{JsxAttr, JsxAttrVal, JsxElem, JsxElemChild};
 use parse_js::ast::expr::lit::LitTemplatePart;
 use parse_js::ast::expr::lit::{LitArrElem, LitBoolExpr, LitNullExpr, LitNumExpr, LitStrExpr};
 use parse_js::ast::expr::pat::{ArrPat, ObjPat, Pat};
-use parse_js::ast::expr::{BinaryExpr, Expr};
+use parse_js::ast::expr::{BinaryExpr, Expr, UnaryExpr};
 use parse_js::ast::func::{Func, FuncBody};
 use parse_js::ast::node::{Node, NodeAssocData};
 use parse_js::ast::stmt::decl::{ParamDecl, VarDecl, VarDeclarator};
@@ -627,16 +627,9 @@ fn fold_binary_expr(
       if let (Some(ConstVal::Num(l)), Some(ConstVal::Num(r))) =
         (const_val(&bin.left), const_val(&bin.right))
       {
+        let folded = number_expr(l + r, loc)?;
         *changed = true;
-        return Some(Node::new(
-          loc,
-          Expr::LitNum(Node::new(
-            loc,
-            LitNumExpr {
-              value: JsNumber(l + r),
-            },
-          )),
-        ));
+        return Some(folded);
       }
 
       if let (Some(l), Some(r)) = (const_val(&bin.left), const_val(&bin.right)) {
@@ -695,16 +688,9 @@ fn fold_binary_expr(
           Exponentiation => js_pow(l, r),
           _ => unreachable!(),
         };
+        let folded = number_expr(result, loc)?;
         *changed = true;
-        return Some(Node::new(
-          loc,
-          Expr::LitNum(Node::new(
-            loc,
-            LitNumExpr {
-              value: JsNumber(result),
-            },
-          )),
-        ));
+        return Some(folded);
       }
     }
     BitwiseAnd
@@ -734,16 +720,9 @@ fn fold_binary_expr(
           }
           _ => unreachable!(),
         };
+        let folded = number_expr(result, loc)?;
         *changed = true;
-        return Some(Node::new(
-          loc,
-          Expr::LitNum(Node::new(
-            loc,
-            LitNumExpr {
-              value: JsNumber(result),
-            },
-          )),
-        ));
+        return Some(folded);
       }
     }
     LessThan | LessThanOrEqual | GreaterThan | GreaterThanOrEqual => {
@@ -839,6 +818,35 @@ fn fold_binary_expr(
   None
 }
 
+/// An expression for a number: there is no literal for a negative number or NaN.
+fn number_expr(value: f64, loc: Loc) -> Option<Node<Expr>> {
+  if value.is_nan() {
+    return None;
+  }
+  let abs = Node::new(
+    loc,
+    Expr::LitNum(Node::new(
+      loc,
+      LitNumExpr {
+        value: JsNumber(value.abs()),
+      },
+    )),
+  );
+  if value.is_sign_positive() {
+    return Some(abs);
+  }
+  Some(Node::new(
+    loc,
+    Expr::Unary(Node::new(
+      loc,
+      UnaryExpr {
+        operator: OperatorName::UnaryNegation,
+        argument: abs,
+      },
+    )),
+  ))
+}
+
 fn const_truthiness(expr: &Node<Expr>) -> Option<bool> {
   let v = const_val(expr)?;
   Some(match v {
@@ -901,6 +909,12 @@ fn const_val(expr: &Node<Expr>) -> Option<ConstVal<'_>> {
     {
       Some(ConstVal::Undefined)
     }
+    Expr::Unary(unary) if unary.stx.operator == OperatorName::UnaryNegation => {
+      match unary.stx.argument.stx.as_ref() {
+        Expr::LitNum(n) => Some(ConstVal::Num(-n.stx.value.0)),
+        _ => None,
+      }
+    }
     _ => None,
   }
 }
-- 
2.43.0


From 3c63e6554e9f18dde34aa91a2cf2f589405a13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 27/56] fix: folding a statement to a string does not make it a
 directive

---
 minify-js/src/opt/const_fold.rs | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index a5e0956..06b18bb 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -85,7 +85,14 @@ fn fold_stmt(stmt: Node<Stmt>, changed: &mut bool) -> Node<Stmt> {
       new_node(loc, assoc, Stmt::Block(block))
     }
     Stmt::Expr(mut expr_stmt) => {
-      expr_stmt.stx.expr = fold_expr(expr_stmt.stx.expr, ExprCtx::Value, changed);
+      let was_str = is_lit_str(&expr_stmt.stx.expr);
+      let folded = fold_expr(expr_stmt.stx.expr, ExprCtx::Value, changed);
+      // A statement that is just a string may be a directive.
+      expr_stmt.stx.expr = if is_lit_str(&folded) && !was_str {
+        comma_zero(folded)
+      } else {
+        folded
+      };
       new_node(loc, assoc, Stmt::Expr(expr_stmt))
     }
     Stmt::If(mut if_stmt) => {
@@ -862,10 +869,39 @@ fn is_lit_true(expr: &Node<Expr>) -> bool {
   matches!(expr.stx.as_ref(), Expr::LitBool(b) if b.stx.value)
 }
 
+fn is_lit_str(expr: &Node<Expr>) -> bool {
+  matches!(expr.stx.as_ref(), Expr::LitStr(_))
+}
+
 fn is_lit_false(expr: &Node<Expr>) -> bool {
   matches!(expr.stx.as_ref(), Expr::LitBool(b) if !b.stx.value)
 }
 
+/// `(0, expr)`: the plain value of `expr`.
+fn comma_zero(expr: Node<Expr>) -> Node<Expr> {
+  let loc = expr.loc;
+  let zero = Node::new(
+    loc,
+    Expr::LitNum(Node::new(
+      loc,
+      LitNumExpr {
+        value: JsNumber(0.0),
+      },
+    )),
+  );
+  Node::new(
+    loc,
+    Expr::Binary(Node::new(
+      loc,
+      BinaryExpr {
+        operator: OperatorName::Comma,
+        left: zero,
+        right: expr,
+      },
+    )),
+  )
+}
+
 fn dummy_pat() -> Node<Pat> {
   Node::new(Loc(0, 0), Pat::Id(dummy_id_pat()))
 }
-- 
2.43.0


From a21542df4c8125565cfc5c5be5d6edb83fedfa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 28/56] fix: folding an operand to a reference does not change
 what calls, typeof and delete do

---
 minify-js/src/opt/const_fold.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 06b18bb..08c7302 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -436,7 +436,14 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       new_node(loc, assoc, Expr::Binary(bin))
     }
     Expr::Unary(mut unary) => {
-      unary.stx.argument = fold_expr(unary.stx.argument, ExprCtx::Value, changed);
+      unary.stx.argument = if matches!(
+        unary.stx.operator,
+        OperatorName::Typeof | OperatorName::Delete
+      ) {
+        fold_possible_ref(unary.stx.argument, changed)
+      } else {
+        fold_expr(unary.stx.argument, ExprCtx::Value, changed)
+      };
       if unary.stx.operator == OperatorName::LogicalNot {
         if let Some(value) = const_truthiness(&unary.stx.argument) {
           *changed = true;
@@ -479,7 +486,7 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       new_node(loc, assoc, Expr::Cond(cond))
     }
     Expr::Call(mut call) => {
-      call.stx.callee = fold_expr(call.stx.callee, ExprCtx::Value, changed);
+      call.stx.callee = fold_possible_ref(call.stx.callee, changed);
       let args = std::mem::take(&mut call.stx.arguments);
       call.stx.arguments = args
         .into_iter()
@@ -521,7 +528,7 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       new_node(loc, assoc, Expr::Member(member))
     }
     Expr::TaggedTemplate(mut tagged) => {
-      tagged.stx.function = fold_expr(tagged.stx.function, ExprCtx::Value, changed);
+      tagged.stx.function = fold_possible_ref(tagged.stx.function, changed);
       for part in tagged.stx.parts.iter_mut() {
         if let LitTemplatePart::Substitution(expr) = part {
           let owned = std::mem::replace(expr, dummy_expr());
@@ -585,6 +592,18 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
   }
 }
 
+/// Folds an operand that means something else when it is a reference rather
+/// than a plain value: the `this` of a call, a direct `eval`, `typeof`, `delete`.
+fn fold_possible_ref(expr: Node<Expr>, changed: &mut bool) -> Node<Expr> {
+  let was_ref = is_reference(&expr);
+  let folded = fold_expr(expr, ExprCtx::Value, changed);
+  if is_reference(&folded) && !was_ref {
+    comma_zero(folded)
+  } else {
+    folded
+  }
+}
+
 fn fold_jsx_elem(mut elem: Node<JsxElem>, changed: &mut bool) -> Node<JsxElem> {
   for attr in elem.stx.attributes.iter_mut() {
     match attr {
@@ -869,6 +888,13 @@ fn is_lit_true(expr: &Node<Expr>) -> bool {
   matches!(expr.stx.as_ref(), Expr::LitBool(b) if b.stx.value)
 }
 
+fn is_reference(expr: &Node<Expr>) -> bool {
+  matches!(
+    expr.stx.as_ref(),
+    Expr::Id(_) | Expr::Member(_) | Expr::ComputedMember(_)
+  )
+}
+
 fn is_lit_str(expr: &Node<Expr>) -> bool {
   matches!(expr.stx.as_ref(), Expr::LitStr(_))
 }
-- 
2.43.0


From ba4da81fd4752b8350e7fb0a0757a578a84aabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 29/56] fix: do not fold the value of a string with lone
 surrogates

---
 minify-js/src/opt/const_fold.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 08c7302..2444c53 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -8,7 +8,7 @@ use parse_js::ast::expr::lit::{LitArrElem, LitBoolExpr, LitNullExpr, LitNumExpr,
 use parse_js::ast::expr::pat::{ArrPat, ObjPat, Pat};
 use parse_js::ast::expr::{BinaryExpr, Expr, UnaryExpr};
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::{Node, NodeAssocData};
+use parse_js::ast::node::{literal_string_code_units, Node, NodeAssocData};
 use parse_js::ast::stmt::decl::{ParamDecl, VarDecl, VarDeclarator};
 use parse_js::ast::stmt::Stmt;
 use parse_js::ast::stmt::{
@@ -964,6 +964,8 @@ fn const_val(expr: &Node<Expr>) -> Option<ConstVal<'_>> {
     Expr::LitNull(_) => Some(ConstVal::Null),
     Expr::LitBool(b) => Some(ConstVal::Bool(b.stx.value)),
     Expr::LitNum(n) => Some(ConstVal::Num(n.stx.value.0)),
+    // A lone surrogate is not represented in the value.
+    Expr::LitStr(s) if has_lone_surrogate(&s.assoc) => None,
     Expr::LitStr(s) => Some(ConstVal::Str(s.stx.value.as_str())),
     Expr::LitBigInt(b) => Some(ConstVal::BigInt(b.stx.value.as_str())),
     Expr::Unary(unary)
@@ -981,6 +983,10 @@ fn const_val(expr: &Node<Expr>) -> Option<ConstVal<'_>> {
   }
 }
 
+fn has_lone_surrogate(assoc: &NodeAssocData) -> bool {
+  literal_string_code_units(assoc).is_some_and(|units| String::from_utf16(units).is_err())
+}
+
 fn is_safe_void_arg(expr: &Node<Expr>) -> bool {
   match expr.stx.as_ref() {
     Expr::LitNull(_)
-- 
2.43.0


From 7176fe5dfe6f403a6d019808dae7c73f070533f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 30/56] fix: delete undefined is not delete void 0

---
 minify-js/src/opt/sem_rewrite.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/minify-js/src/opt/sem_rewrite.rs b/minify-js/src/opt/sem_rewrite.rs
index 239b25f..e40062f 100644
--- a/minify-js/src/opt/sem_rewrite.rs
+++ b/minify-js/src/opt/sem_rewrite.rs
@@ -102,15 +102,28 @@ impl<'a> SemanticRewriteVisitor<'a> {
 }
 
 #[derive(VisitorMut)]
-#[visitor(ExprNode(exit))]
+#[visitor(ExprNode)]
 struct GlobalUndefinedToVoidZeroVisitor<'a> {
   cx: &'a OptCtx,
   changed: bool,
+  // The next expression is the name in `delete name`.
+  is_deleted_name: bool,
 }
 
 impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
   fn new(cx: &'a OptCtx) -> Self {
-    Self { cx, changed: false }
+    Self {
+      cx,
+      changed: false,
+      is_deleted_name: false,
+    }
+  }
+
+  fn enter_expr_node(&mut self, node: &mut ExprNode) {
+    if let Expr::Unary(unary) = node.stx.as_ref() {
+      self.is_deleted_name = unary.stx.operator == OperatorName::Delete
+        && matches!(unary.stx.argument.stx.as_ref(), Expr::Id(_));
+    }
   }
 
   fn is_disabled(&self, assoc: &parse_js::ast::node::NodeAssocData) -> bool {
@@ -135,6 +148,10 @@ impl<'a> GlobalUndefinedToVoidZeroVisitor<'a> {
   }
 
   fn exit_expr_node(&mut self, node: &mut ExprNode) {
+    // `delete undefined` fails, but `delete void 0` does not.
+    if std::mem::take(&mut self.is_deleted_name) {
+      return;
+    }
     if self.is_disabled(&node.assoc) {
       return;
     }
-- 
2.43.0


From 4b76bb3d2092b2fa669a092f17962ed0c6274e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 31/56] fix: {a: b} is not a shorthand in an assignment pattern

---
 parse-js/src/parse/expr/util.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/util.rs b/parse-js/src/parse/expr/util.rs
index bc81fb3..5792ba9 100644
--- a/parse-js/src/parse/expr/util.rs
+++ b/parse-js/src/parse/expr/util.rs
@@ -158,13 +158,20 @@ pub(crate) fn lit_to_pat_with_recover(node: Node<Expr>, recover: bool) -> Syntax
                 },
                 _ => return Err(loc.error(SyntaxErrorType::InvalidAssigmentTarget, None)),
               };
+              // `{ a = 1 }` is represented as `{ a: a = 1 }`.
+              let shorthand = match (&key, target.stx.as_ref()) {
+                (ClassOrObjKey::Direct(key), Pat::Id(id)) => {
+                  key.stx.tt == TT::Identifier && key.stx.key == id.stx.name
+                }
+                _ => false,
+              };
               properties.push(Node::new(
                 loc,
                 ObjPatProp {
                   key,
                   target,
                   default_value,
-                  shorthand: true,
+                  shorthand,
                 },
               ));
             }
-- 
2.43.0


From fa144deab018f8ede11b8e59aa0a9b1401f9166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 32/56] fix: write unpaired surrogates of string literals as
 escapes

---
 emit-js/src/emitter.rs | 15 ++++++++++++++-
 emit-js/src/escape.rs  | 31 +++++++++++++++++++++++++++++++
 emit-js/src/expr.rs    |  7 ++++---
 emit-js/src/expr_js.rs |  6 ++++--
 emit-js/src/hir.rs     | 12 ++++++++++--
 emit-js/src/js_expr.rs |  6 ++++--
 6 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/emit-js/src/emitter.rs b/emit-js/src/emitter.rs
index 3816090..72094ee 100644
--- a/emit-js/src/emitter.rs
+++ b/emit-js/src/emitter.rs
@@ -10,7 +10,7 @@
 //! [`Emitter::write_str`] for a single lexical token or whitespace-only
 //! fragments (e.g. indentation, newlines).
 
-use crate::escape::emit_string_literal;
+use crate::escape::{emit_string_literal, emit_string_literal_utf16};
 use parse_js::loc::Loc;
 use std::fmt;
 
@@ -332,6 +332,19 @@ impl Emitter {
     self.write_with_kind(identifier, TokenKind::Word);
   }
 
+  /// Emits a string literal that may have unpaired surrogates.
+  pub(crate) fn write_string_literal_utf16(&mut self, value: &str, code_units: Option<&[u16]>) {
+    let mut buf = Vec::new();
+    emit_string_literal_utf16(
+      &mut buf,
+      value,
+      code_units,
+      self.opts.quote_style,
+      self.opts.minify,
+    );
+    self.write_str(std::str::from_utf8(&buf).expect("string literal is UTF-8"));
+  }
+
   /// Emits a string literal using the configured quoting style.
   pub fn write_string_literal(&mut self, value: &str) {
     let mut buf = Vec::new();
diff --git a/emit-js/src/escape.rs b/emit-js/src/escape.rs
index b3a7044..65ae8da 100644
--- a/emit-js/src/escape.rs
+++ b/emit-js/src/escape.rs
@@ -33,6 +33,37 @@ pub fn emit_string_literal(out: &mut Vec<u8>, value: &str, quote_style: QuoteSty
   out.push(quote);
 }
 
+/// Like [`emit_string_literal`], for a value whose code units may include unpaired
+/// surrogates: these are U+FFFD in `value` and are written as escapes.
+pub fn emit_string_literal_utf16(
+  out: &mut Vec<u8>,
+  value: &str,
+  code_units: Option<&[u16]>,
+  quote_style: QuoteStyle,
+  minify: bool,
+) {
+  let start = out.len();
+  emit_string_literal(out, value, quote_style, minify);
+  let Some(units) = code_units.filter(|units| String::from_utf16(units).is_err()) else {
+    return;
+  };
+  let literal = String::from_utf8(out.split_off(start)).expect("string literal is UTF-8");
+  let mut replaced = char::decode_utf16(units.iter().copied())
+    .filter(|unit| !matches!(unit, Ok(ch) if *ch != char::REPLACEMENT_CHARACTER));
+  for ch in literal.chars() {
+    let unpaired = match ch {
+      char::REPLACEMENT_CHARACTER => replaced.next().and_then(Result::err),
+      _ => None,
+    };
+    match unpaired {
+      Some(err) => {
+        out.extend_from_slice(format!("\\u{:04X}", err.unpaired_surrogate()).as_bytes())
+      }
+      None => out.extend_from_slice(ch.encode_utf8(&mut [0u8; 4]).as_bytes()),
+    }
+  }
+}
+
 /// Emit a JavaScript regex literal, escaping line terminators for stability.
 pub fn emit_regex_literal(out: &mut Vec<u8>, value: &str) {
   out.clear();
diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index ef673c4..23ce9ad 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -12,12 +12,12 @@ use parse_js::ast::expr::{
   UnaryPostfixExpr,
 };
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{literal_string_code_units, Node};
 use parse_js::ast::type_expr::TypeExpr;
 use parse_js::operator::{OperatorName, OPERATORS};
 
 use crate::emitter::{with_node_context, EmitError, EmitOptions, EmitResult};
-use crate::escape::emit_string_literal;
+use crate::escape::emit_string_literal_utf16;
 use crate::precedence::{
   child_min_prec_for_binary, expr_prec, needs_parens, starts_with_optional_chaining, Prec, Side,
   CALL_MEMBER_PRECEDENCE,
@@ -194,9 +194,10 @@ where
   fn emit_lit_str(&mut self, lit: &Node<LitStrExpr>) -> EmitResult {
     with_node_context(lit.loc, || {
       let mut buf = Vec::new();
-      emit_string_literal(
+      emit_string_literal_utf16(
         &mut buf,
         &lit.stx.value,
+        literal_string_code_units(&lit.assoc),
         self.opts.quote_style,
         self.opts.minify,
       );
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index d9f0309..b711699 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -10,7 +10,7 @@ use parse_js::ast::expr::lit::{
 use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{literal_string_code_units, Node};
 use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
 use parse_js::ast::type_expr::{TypeExpr, TypeParameter};
 use parse_js::operator::{OperatorName, OPERATORS};
@@ -127,7 +127,9 @@ fn emit_expr_no_parens(em: &mut Emitter, expr: &Node<Expr>, ctx: ExprCtx) -> Emi
     Expr::LitBool(lit) => em.write_keyword(if lit.stx.value { "true" } else { "false" }),
     Expr::LitNull(_) => em.write_keyword("null"),
     Expr::LitBigInt(lit) => em.write_bigint_literal(&lit.stx.value),
-    Expr::LitStr(lit) => emit_string_literal(em, &lit.stx.value),
+    Expr::LitStr(lit) => {
+      em.write_string_literal_utf16(&lit.stx.value, literal_string_code_units(&lit.assoc))
+    }
     Expr::LitRegex(lit) => {
       let mut buf = Vec::new();
       crate::escape::emit_regex_literal(&mut buf, &lit.stx.value);
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 1ea1590..ed4fafe 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1,4 +1,6 @@
-use crate::escape::{emit_regex_literal, emit_string_literal, emit_template_literal_segment};
+use crate::escape::{
+  emit_regex_literal, emit_string_literal, emit_string_literal_utf16, emit_template_literal_segment,
+};
 use crate::expr_js::requires_trailing_dot;
 use crate::module_names::{
   emit_identifier_name_or_string_literal, emit_module_binding_identifier_or_string_literal,
@@ -1931,7 +1933,13 @@ fn emit_template_literal(
 fn emit_literal(em: &mut Emitter, lit: &Literal) -> EmitResult {
   match lit {
     Literal::Number(num) => em.write_number(num),
-    Literal::String(str) => emit_string(em, &str.lossy),
+    Literal::String(str) => {
+      let (quote_style, minify) = (em.opts().quote_style, em.minify());
+      let mut buf = Vec::new();
+      let units = str.code_units.as_deref();
+      emit_string_literal_utf16(&mut buf, &str.lossy, units, quote_style, minify);
+      em.write_str(std::str::from_utf8(&buf).expect("string literal is UTF-8"));
+    }
     Literal::Boolean(true) => em.write_keyword("true"),
     Literal::Boolean(false) => em.write_keyword("false"),
     Literal::Null => em.write_keyword("null"),
diff --git a/emit-js/src/js_expr.rs b/emit-js/src/js_expr.rs
index e709012..57d35fd 100644
--- a/emit-js/src/js_expr.rs
+++ b/emit-js/src/js_expr.rs
@@ -4,7 +4,7 @@ use parse_js::ast::expr::{
   InstantiationExpr, MemberExpr, UnaryExpr, UnaryPostfixExpr,
 };
 use parse_js::ast::func::FuncBody;
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{literal_string_code_units, Node};
 use parse_js::operator::{Associativity, OperatorName, OPERATORS};
 
 use crate::js_pat;
@@ -262,7 +262,9 @@ impl<'a> JsExprEmitter<'a> {
   }
 
   fn emit_lit_str(&mut self, lit: &Node<LitStrExpr>) -> JsEmitResult {
-    self.out.write_string_literal(&lit.stx.value);
+    self
+      .out
+      .write_string_literal_utf16(&lit.stx.value, literal_string_code_units(&lit.assoc));
     Ok(())
   }
 }
-- 
2.43.0


From 7308fbf98aada590439be0134654cc9b48eee4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 33/56] fix: parenthesize comma expressions where a single
 value is expected

---
 emit-js/src/hir.rs        | 50 ++++++++++++++++++++-------------------
 emit-js/src/precedence.rs |  2 ++
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index ed4fafe..64eaca1 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -7,8 +7,8 @@ use crate::module_names::{
   is_module_binding_identifier_token,
 };
 use crate::precedence::{
-  child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE, CALL_MEMBER_PRECEDENCE,
-  PRIMARY_PRECEDENCE,
+  child_min_prec_for_binary, needs_parens, Prec, ARROW_FUNCTION_PRECEDENCE,
+  ASSIGNMENT_EXPR_PRECEDENCE, CALL_MEMBER_PRECEDENCE, PRIMARY_PRECEDENCE,
 };
 use crate::{EmitError, EmitOptions, EmitResult, Emitter};
 use diagnostics::Diagnostic;
@@ -204,7 +204,7 @@ fn emit_decorators(em: &mut Emitter, ctx: &HirContext<'_>, decorators: &[Decorat
     let deco_body = ctx
       .body(deco.body)
       .ok_or_else(|| EmitError::unsupported("decorator body not found"))?;
-    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, deco_body, deco.expr, CALL_MEMBER_PRECEDENCE)?;
     em.write_space();
   }
   Ok(())
@@ -476,7 +476,7 @@ fn emit_export_default(
       if needs_parens {
         em.write_punct("(");
       }
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if needs_parens {
         em.write_punct(")");
       }
@@ -569,7 +569,7 @@ fn emit_class_like(
 
   if let Some(extends) = class.extends {
     em.write_keyword("extends");
-    emit_expr_with_min_prec(em, ctx, body, extends, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, extends, CALL_MEMBER_PRECEDENCE)?;
   }
 
   em.write_punct("{");
@@ -706,7 +706,7 @@ fn emit_class_member_key(
     ClassMemberKey::Number(value) => em.write_number(value),
     ClassMemberKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_punct("]");
     }
   }
@@ -804,7 +804,7 @@ fn emit_jsx_attr(
     }
     JsxAttr::Spread { expr } => {
       em.write_str("{...");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_char('}')?;
       Ok(())
     }
@@ -839,7 +839,7 @@ fn emit_jsx_expr_container(
     em.write_str("...");
   }
   if let Some(expr) = container.expr {
-    emit_expr_with_min_prec(em, ctx, body, expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
   }
   em.write_char('}')?;
   Ok(())
@@ -974,7 +974,6 @@ fn emit_param_list(
   // Default values are followed by either `,` or `)` and must therefore treat
   // the comma operator as needing parentheses to avoid being parsed as a
   // parameter separator (e.g. `a=(b,c)`).
-  let assignment_expr_min_prec = Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
   em.write_punct("(");
   for (idx, param) in params.iter().enumerate() {
     if idx > 0 {
@@ -987,7 +986,7 @@ fn emit_param_list(
     emit_pat(em, ctx, body, param.pat, false)?;
     if let Some(default) = param.default {
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, default, assignment_expr_min_prec)?;
+      emit_expr_with_min_prec(em, ctx, body, default, ASSIGNMENT_EXPR_PRECEDENCE)?;
     }
   }
   em.write_punct(")");
@@ -1233,7 +1232,12 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       } else {
         em.write_keyword("in");
       }
-      emit_expr_with_min_prec(em, ctx, body, *right, Prec::LOWEST)?;
+      let right_min_prec = if *is_for_of {
+        ASSIGNMENT_EXPR_PRECEDENCE
+      } else {
+        Prec::LOWEST
+      };
+      emit_expr_with_min_prec(em, ctx, body, *right, right_min_prec)?;
       em.write_punct(")");
       emit_stmt_as_body(em, ctx, body, *inner)?;
     }
@@ -1405,8 +1409,6 @@ fn emit_pat(
     PatKind::Array(array) => {
       // Default values are followed by `,` or `]` and must therefore treat the
       // comma operator as needing parentheses.
-      let assignment_expr_min_prec =
-        Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
       em.write_punct("[");
       for (idx, element) in array.elements.iter().enumerate() {
         if idx > 0 {
@@ -1416,7 +1418,7 @@ fn emit_pat(
           emit_pat(em, ctx, body, element.pat, in_assignment)?;
           if let Some(default) = element.default_value {
             em.write_punct("=");
-            emit_expr_with_min_prec(em, ctx, body, default, assignment_expr_min_prec)?;
+            emit_expr_with_min_prec(em, ctx, body, default, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         }
       }
@@ -1449,7 +1451,7 @@ fn emit_pat(
         }
         if let Some(default) = prop.default_value {
           em.write_punct("=");
-          emit_expr_with_min_prec(em, ctx, body, default, assignment_expr_min_prec)?;
+          emit_expr_with_min_prec(em, ctx, body, default, ASSIGNMENT_EXPR_PRECEDENCE)?;
         }
       }
       if let Some(rest) = obj.rest {
@@ -1678,10 +1680,10 @@ fn emit_expr_no_parens(
     } => {
       em.write_keyword("import");
       em.write_punct("(");
-      emit_expr_with_min_prec(em, ctx, body, *argument, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *argument, ASSIGNMENT_EXPR_PRECEDENCE)?;
       if let Some(attrs) = attributes {
         em.write_punct(",");
-        emit_expr_with_min_prec(em, ctx, body, *attrs, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *attrs, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       em.write_punct(")");
     }
@@ -1721,7 +1723,7 @@ fn emit_call(
     if arg.spread {
       em.write_punct("...");
     }
-    emit_expr_with_min_prec(em, ctx, body, arg.expr, Prec::LOWEST)?;
+    emit_expr_with_min_prec(em, ctx, body, arg.expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
   }
   em.write_punct(")");
   Ok(())
@@ -1788,11 +1790,11 @@ fn emit_array_literal(
     }
     match element {
       hir_js::ArrayElement::Expr(expr) => {
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       hir_js::ArrayElement::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
       hir_js::ArrayElement::Empty => {}
     }
@@ -1843,13 +1845,13 @@ fn emit_object_literal(
           } else {
             emit_object_key(em, ctx, body, key)?;
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         } else {
           emit_object_key(em, ctx, body, key)?;
           if !*shorthand {
             em.write_punct(":");
-            emit_expr_with_min_prec(em, ctx, body, *value, Prec::LOWEST)?;
+            emit_expr_with_min_prec(em, ctx, body, *value, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
         }
       }
@@ -1881,7 +1883,7 @@ fn emit_object_literal(
       }
       ObjectProperty::Spread(expr) => {
         em.write_punct("...");
-        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
     }
   }
@@ -1901,7 +1903,7 @@ fn emit_object_key(
     ObjectKey::Number(num) => em.write_number(num),
     ObjectKey::Computed(expr) => {
       em.write_punct("[");
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
+      emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       em.write_punct("]");
     }
   }
diff --git a/emit-js/src/precedence.rs b/emit-js/src/precedence.rs
index 8b3f46b..95a8e28 100644
--- a/emit-js/src/precedence.rs
+++ b/emit-js/src/precedence.rs
@@ -32,6 +32,8 @@ pub const SATISFIES_PRECEDENCE: Prec = TYPE_ASSERTION_PRECEDENCE;
 pub const CALL_MEMBER_PRECEDENCE: Prec = Prec::new(18);
 /// Precedence for atomic expressions (identifiers, literals, etc.).
 pub const PRIMARY_PRECEDENCE: Prec = Prec::new(19);
+/// Precedence required of a single value, e.g. an argument: anything but a comma expression.
+pub const ASSIGNMENT_EXPR_PRECEDENCE: Prec = Prec::new(2);
 /// Precedence for arrow functions (lower than assignment to force parentheses when
 /// used as operands).
 pub const ARROW_FUNCTION_PRECEDENCE: Prec = Prec::new(2);
-- 
2.43.0


From 14d294681cec1e491af0826ffdbcdd1703faae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 34/56] fix: do not parenthesize object patterns in assignments

---
 emit-js/src/hir.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 64eaca1..3112a1b 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -983,7 +983,7 @@ fn emit_param_list(
     if param.rest {
       em.write_punct("...");
     }
-    emit_pat(em, ctx, body, param.pat, false)?;
+    emit_pat(em, ctx, body, param.pat)?;
     if let Some(default) = param.default {
       em.write_punct("=");
       emit_expr_with_min_prec(em, ctx, body, default, ASSIGNMENT_EXPR_PRECEDENCE)?;
@@ -1220,7 +1220,7 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
           if needs_parens {
             em.write_punct("(");
           }
-          emit_pat(em, ctx, body, *pat, true)?;
+          emit_pat(em, ctx, body, *pat)?;
           if needs_parens {
             em.write_punct(")");
           }
@@ -1277,7 +1277,7 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
         em.write_keyword("catch");
         if let Some(param) = catch.param {
           em.write_punct("(");
-          emit_pat(em, ctx, body, param, false)?;
+          emit_pat(em, ctx, body, param)?;
           em.write_punct(")");
         }
         emit_stmt(em, ctx, body, catch.body)?;
@@ -1380,7 +1380,7 @@ fn emit_var_decl(
     if idx > 0 {
       em.write_punct(",");
     }
-    emit_pat(em, ctx, body, declarator.pat, false)?;
+    emit_pat(em, ctx, body, declarator.pat)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
       emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
@@ -1397,14 +1397,13 @@ fn emit_pat(
   ctx: &HirContext<'_>,
   body: &Body,
   pat_id: PatId,
-  in_assignment: bool,
 ) -> EmitResult {
   let pat = ctx.pat(body, pat_id);
   match &pat.kind {
     PatKind::Ident(name) => em.write_identifier(ctx.name(*name)),
     PatKind::Rest(inner) => {
       em.write_punct("...");
-      emit_pat(em, ctx, body, **inner, in_assignment)?;
+      emit_pat(em, ctx, body, **inner)?;
     }
     PatKind::Array(array) => {
       // Default values are followed by `,` or `]` and must therefore treat the
@@ -1415,7 +1414,7 @@ fn emit_pat(
           em.write_punct(",");
         }
         if let Some(element) = element {
-          emit_pat(em, ctx, body, element.pat, in_assignment)?;
+          emit_pat(em, ctx, body, element.pat)?;
           if let Some(default) = element.default_value {
             em.write_punct("=");
             emit_expr_with_min_prec(em, ctx, body, default, ASSIGNMENT_EXPR_PRECEDENCE)?;
@@ -1427,18 +1426,13 @@ fn emit_pat(
           em.write_punct(",");
         }
         em.write_punct("...");
-        emit_pat(em, ctx, body, rest, in_assignment)?;
+        emit_pat(em, ctx, body, rest)?;
       }
       em.write_punct("]");
     }
     PatKind::Object(obj) => {
       // Default values are followed by `,` or `}` and must therefore treat the
       // comma operator as needing parentheses.
-      let assignment_expr_min_prec =
-        Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      if in_assignment {
-        em.write_punct("(");
-      }
       em.write_punct("{");
       for (idx, prop) in obj.props.iter().enumerate() {
         if idx > 0 {
@@ -1447,7 +1441,7 @@ fn emit_pat(
         emit_object_key(em, ctx, body, &prop.key)?;
         if !prop.shorthand {
           em.write_punct(":");
-          emit_pat(em, ctx, body, prop.value, in_assignment)?;
+          emit_pat(em, ctx, body, prop.value)?;
         }
         if let Some(default) = prop.default_value {
           em.write_punct("=");
@@ -1459,22 +1453,17 @@ fn emit_pat(
           em.write_punct(",");
         }
         em.write_punct("...");
-        emit_pat(em, ctx, body, rest, in_assignment)?;
+        emit_pat(em, ctx, body, rest)?;
       }
       em.write_punct("}");
-      if in_assignment {
-        em.write_punct(")");
-      }
     }
     PatKind::Assign {
       target,
       default_value,
     } => {
-      let assignment_expr_min_prec =
-        Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
-      emit_pat(em, ctx, body, *target, in_assignment)?;
+      emit_pat(em, ctx, body, *target)?;
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, *default_value, assignment_expr_min_prec)?;
+      emit_expr_with_min_prec(em, ctx, body, *default_value, ASSIGNMENT_EXPR_PRECEDENCE)?;
     }
     PatKind::AssignTarget(expr) => {
       emit_expr_with_min_prec(
@@ -1575,7 +1564,7 @@ fn emit_expr_no_parens(
     ExprKind::Update { op, expr, prefix } => emit_update(em, ctx, body, *op, *expr, *prefix)?,
     ExprKind::Binary { op, left, right } => emit_binary(em, ctx, body, *op, *left, *right)?,
     ExprKind::Assignment { op, target, value } => {
-      emit_pat(em, ctx, body, *target, true)?;
+      emit_pat(em, ctx, body, *target)?;
       emit_assign_operator(em, *op);
       emit_expr_with_min_prec(
         em,
-- 
2.43.0


From a8229069eb09519dbf553b0bf2bec9684ecb6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 35/56] fix: parenthesize ?? beside && and ||, and await before
 **

---
 emit-js/src/hir.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 3112a1b..7fbde42 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2013,12 +2013,7 @@ fn emit_binary(
   right: ExprId,
 ) -> EmitResult {
   let op_name = binary_operator(op);
-  let left_needs_paren = op_name == OperatorName::Exponentiation
-    && matches!(
-      ctx.expr(body, left).kind,
-      ExprKind::Unary { .. } | ExprKind::Update { .. }
-    );
-  if left_needs_paren {
+  if operand_needs_parens(ctx, body, op, left, true) {
     em.write_punct("(");
     emit_expr_no_parens(em, ctx, body, left)?;
     em.write_punct(")");
@@ -2058,11 +2053,42 @@ fn emit_unary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
   }
   Ok(())
 }
+  if operand_needs_parens(ctx, body, op, right, false) {
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, right)?;
+    em.write_punct(")");
+    return Ok(());
+  }
 
 fn emit_binary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
   match op {
     OperatorName::Addition => em.write_punct("+"),
     OperatorName::Subtraction => em.write_punct("-"),
+/// Operands that have to be parenthesized whatever their precedence: a unary
+/// expression cannot be the base of `**`, and `??` cannot be mixed with `&&` or `||`.
+fn operand_needs_parens(
+  ctx: &HirContext<'_>,
+  body: &Body,
+  op: BinaryOp,
+  operand: ExprId,
+  is_left: bool,
+) -> bool {
+  match &ctx.expr(body, operand).kind {
+    ExprKind::Unary { .. } | ExprKind::Update { .. } | ExprKind::Await { .. } => {
+      is_left && op == BinaryOp::Exponent
+    }
+    ExprKind::Binary { op: inner, .. } => match op {
+      BinaryOp::NullishCoalescing => matches!(inner, BinaryOp::LogicalAnd | BinaryOp::LogicalOr),
+      BinaryOp::LogicalAnd | BinaryOp::LogicalOr => *inner == BinaryOp::NullishCoalescing,
+      _ => false,
+    },
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => operand_needs_parens(ctx, body, op, *expr, is_left),
+    _ => false,
+  }
+}
+
     OperatorName::Multiplication => em.write_punct("*"),
     OperatorName::Division => em.write_punct("/"),
     OperatorName::Remainder => em.write_punct("%"),
-- 
2.43.0


From fea06f1a5571cdffdaca0262b32e201009e5ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 36/56] fix: keep what follows a parenthesized optional chain
 out of it

---
 emit-js/src/hir.rs              | 22 ++++++++++++++++++++--
 hir-js/src/hir.rs               |  3 +++
 hir-js/src/lower.rs             | 11 +++++++++--
 minify-js/src/opt/const_fold.rs | 15 ++++++++++++---
 4 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 7fbde42..1f73457 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1629,7 +1629,7 @@ fn emit_expr_no_parens(
     }
     ExprKind::Template(tmpl) => emit_template_literal(em, ctx, body, tmpl)?,
     ExprKind::TaggedTemplate { tag, template } => {
-      emit_expr_with_min_prec(em, ctx, body, *tag, CALL_MEMBER_PRECEDENCE)?;
+      emit_receiver(em, ctx, body, *tag)?;
       emit_template_literal(em, ctx, body, template)?;
     }
     ExprKind::Await { expr } => {
@@ -1724,7 +1724,25 @@ fn emit_member(
   body: &Body,
   member: &MemberExpr,
 ) -> EmitResult {
-  emit_expr_with_min_prec(em, ctx, body, member.object, CALL_MEMBER_PRECEDENCE)?;
+/// Emits the object of a member access, the callee of a call or the tag of a
+/// template. A parenthesized optional chain does not short-circuit what follows it.
+fn emit_receiver(
+  em: &mut Emitter,
+  ctx: &HirContext<'_>,
+  body: &Body,
+  expr_id: ExprId,
+) -> EmitResult {
+  if ctx.expr(body, expr_id).parenthesized && starts_with_optional_chaining(ctx, body, expr_id) {
+    em.write_punct("(");
+    emit_expr_no_parens(em, ctx, body, expr_id)?;
+    em.write_punct(")");
+    Ok(())
+  } else {
+    emit_expr_with_min_prec(em, ctx, body, expr_id, CALL_MEMBER_PRECEDENCE)
+  }
+}
+
+  emit_receiver(em, ctx, body, member.object)?;
   let use_brackets = !matches!(member.property, ObjectKey::Ident(_));
   if member.optional {
     if use_brackets {
diff --git a/hir-js/src/hir.rs b/hir-js/src/hir.rs
index 95b739a..57ed6fc 100644
--- a/hir-js/src/hir.rs
+++ b/hir-js/src/hir.rs
@@ -727,6 +727,9 @@ pub struct FunctionData {
 pub struct Expr {
   pub span: TextRange,
   pub kind: ExprKind,
+  /// Whether the expression was written in parentheses. This matters for an
+  /// optional chain: `(a?.b).c` is not `a?.b.c`.
+  pub parenthesized: bool,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 3e08153..32fb2c7 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -42,6 +42,7 @@ use parse_js::ast::func::Func;
 use parse_js::ast::func::FuncBody;
 use parse_js::ast::import_export::*;
 use parse_js::ast::node::Node;
+use parse_js::ast::node::ParenthesizedExpr;
 use parse_js::ast::stmt::decl::ClassDecl;
 use parse_js::ast::stmt::decl::FuncDecl;
 use parse_js::ast::stmt::decl::VarDeclarator as AstVarDeclarator;
@@ -2088,7 +2089,9 @@ fn lower_expr(
     _ => ExprKind::Missing,
   };
 
-  builder.alloc_expr(span, kind)
+  let id = builder.alloc_expr(span, kind);
+  builder.exprs[id.0 as usize].parenthesized = expr.assoc.get::<ParenthesizedExpr>().is_some();
+  id
 }
 
 fn lower_call_expr(
@@ -2640,7 +2643,11 @@ impl<'a> BodyBuilder<'a> {
 
   fn alloc_expr(&mut self, span: TextRange, kind: ExprKind) -> ExprId {
     let id = ExprId(self.exprs.len() as u32);
-    self.exprs.push(Expr { span, kind });
+    self.exprs.push(Expr {
+      span,
+      kind,
+      parenthesized: false,
+    });
     self.span_map.add_expr(span, self.body_id, id);
     id
   }
diff --git a/minify-js/src/opt/const_fold.rs b/minify-js/src/opt/const_fold.rs
index 2444c53..3e69cd2 100644
--- a/minify-js/src/opt/const_fold.rs
+++ b/minify-js/src/opt/const_fold.rs
@@ -8,7 +8,7 @@ use parse_js::ast::expr::lit::{LitArrElem, LitBoolExpr, LitNullExpr, LitNumExpr,
 use parse_js::ast::expr::pat::{ArrPat, ObjPat, Pat};
 use parse_js::ast::expr::{BinaryExpr, Expr, UnaryExpr};
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::{literal_string_code_units, Node, NodeAssocData};
+use parse_js::ast::node::{literal_string_code_units, Node, NodeAssocData, ParenthesizedExpr};
 use parse_js::ast::stmt::decl::{ParamDecl, VarDecl, VarDeclarator};
 use parse_js::ast::stmt::Stmt;
 use parse_js::ast::stmt::{
@@ -431,7 +431,7 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       bin.stx.right = fold_expr(bin.stx.right, child_ctx, changed);
 
       if let Some(folded) = fold_binary_expr(&mut bin.stx, ctx, changed, loc) {
-        return folded;
+        return keep_parens(folded, &assoc);
       }
       new_node(loc, assoc, Expr::Binary(bin))
     }
@@ -477,11 +477,12 @@ fn fold_expr(expr: Node<Expr>, ctx: ExprCtx, changed: &mut bool) -> Node<Expr> {
       cond.stx.alternate = fold_expr(cond.stx.alternate, ctx, changed);
       if let Some(value) = const_truthiness(&cond.stx.test) {
         *changed = true;
-        return if value {
+        let folded = if value {
           cond.stx.consequent
         } else {
           cond.stx.alternate
         };
+        return keep_parens(folded, &assoc);
       }
       new_node(loc, assoc, Expr::Cond(cond))
     }
@@ -604,6 +605,14 @@ fn fold_possible_ref(expr: Node<Expr>, changed: &mut bool) -> Node<Expr> {
   }
 }
 
+/// What follows the parentheses of an optional chain is not part of it.
+fn keep_parens(mut folded: Node<Expr>, replaced: &NodeAssocData) -> Node<Expr> {
+  if replaced.get::<ParenthesizedExpr>().is_some() {
+    folded.assoc.set(ParenthesizedExpr);
+  }
+  folded
+}
+
 fn fold_jsx_elem(mut elem: Node<JsxElem>, changed: &mut bool) -> Node<JsxElem> {
   for attr in elem.stx.attributes.iter_mut() {
     match attr {
-- 
2.43.0


From 7d025abed2b23bfc3c0ad773182c88541701358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 37/56] fix: parenthesize calls in the callee of new

---
 emit-js/src/hir.rs | 99 ++++++++++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 1f73457..c69f20e 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1363,9 +1363,6 @@ fn emit_var_decl(
   decl: &VarDecl,
   trailing_semicolon: bool,
 ) -> EmitResult {
-  // Initializers are followed by `,` or `;`, so comma expressions must be
-  // parenthesized to avoid being parsed as additional declarators.
-  let assignment_expr_min_prec = Prec::new(OPERATORS[&OperatorName::Comma].precedence).tighter();
   match decl.kind {
     VarDeclKind::Const => em.write_keyword("const"),
     VarDeclKind::Let => em.write_keyword("let"),
@@ -1383,7 +1380,7 @@ fn emit_var_decl(
     emit_pat(em, ctx, body, declarator.pat)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, init, assignment_expr_min_prec)?;
+      emit_expr_with_min_prec(em, ctx, body, init, ASSIGNMENT_EXPR_PRECEDENCE)?;
     }
   }
   if trailing_semicolon {
@@ -1689,16 +1686,15 @@ fn emit_call(
   body: &Body,
   call: &hir_js::CallExpr,
 ) -> EmitResult {
-  let callee_needs_parens = call.is_new && starts_with_optional_chaining(ctx, body, call.callee);
   if call.is_new {
     em.write_keyword("new");
   }
-  if callee_needs_parens {
+  if call.is_new && new_callee_needs_parens(ctx, body, call.callee) {
     em.write_punct("(");
-  }
-  emit_expr_with_min_prec(em, ctx, body, call.callee, CALL_MEMBER_PRECEDENCE)?;
-  if callee_needs_parens {
+    emit_expr_no_parens(em, ctx, body, call.callee)?;
     em.write_punct(")");
+  } else {
+    emit_receiver(em, ctx, body, call.callee)?;
   }
   if call.optional {
     em.write_str("?.(");
@@ -1718,12 +1714,6 @@ fn emit_call(
   Ok(())
 }
 
-fn emit_member(
-  em: &mut Emitter,
-  ctx: &HirContext<'_>,
-  body: &Body,
-  member: &MemberExpr,
-) -> EmitResult {
 /// Emits the object of a member access, the callee of a call or the tag of a
 /// template. A parenthesized optional chain does not short-circuit what follows it.
 fn emit_receiver(
@@ -1742,6 +1732,12 @@ fn emit_receiver(
   }
 }
 
+fn emit_member(
+  em: &mut Emitter,
+  ctx: &HirContext<'_>,
+  body: &Body,
+  member: &MemberExpr,
+) -> EmitResult {
   emit_receiver(em, ctx, body, member.object)?;
   let use_brackets = !matches!(member.property, ObjectKey::Ident(_));
   if member.optional {
@@ -2047,41 +2043,17 @@ fn emit_binary(
 
   emit_binary_operator(em, op_name)?;
 
-  let right_prec = child_min_prec_for_binary(op_name, crate::precedence::Side::Right);
-  emit_expr_with_min_prec(em, ctx, body, right, right_prec)?;
-  Ok(())
-}
-
-fn emit_unary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
-  match op {
-    OperatorName::LogicalNot => em.write_punct("!"),
-    OperatorName::BitwiseNot => em.write_punct("~"),
-    OperatorName::UnaryPlus => em.write_punct("+"),
-    OperatorName::UnaryNegation => em.write_punct("-"),
-    OperatorName::Typeof => em.write_keyword("typeof"),
-    OperatorName::Void => em.write_keyword("void"),
-    OperatorName::Delete => em.write_keyword("delete"),
-    OperatorName::Await => em.write_keyword("await"),
-    OperatorName::PrefixIncrement => em.write_punct("++"),
-    OperatorName::PrefixDecrement => em.write_punct("--"),
-    OperatorName::PostfixIncrement => em.write_punct("++"),
-    OperatorName::PostfixDecrement => em.write_punct("--"),
-    OperatorName::Yield | OperatorName::YieldDelegated => em.write_keyword("yield"),
-    _ => return Err(EmitError::unsupported("unary operator not supported")),
-  }
-  Ok(())
-}
   if operand_needs_parens(ctx, body, op, right, false) {
     em.write_punct("(");
     emit_expr_no_parens(em, ctx, body, right)?;
     em.write_punct(")");
     return Ok(());
   }
+  let right_prec = child_min_prec_for_binary(op_name, crate::precedence::Side::Right);
+  emit_expr_with_min_prec(em, ctx, body, right, right_prec)?;
+  Ok(())
+}
 
-fn emit_binary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
-  match op {
-    OperatorName::Addition => em.write_punct("+"),
-    OperatorName::Subtraction => em.write_punct("-"),
 /// Operands that have to be parenthesized whatever their precedence: a unary
 /// expression cannot be the base of `**`, and `??` cannot be mixed with `&&` or `||`.
 fn operand_needs_parens(
@@ -2107,6 +2079,30 @@ fn operand_needs_parens(
   }
 }
 
+fn emit_unary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
+  match op {
+    OperatorName::LogicalNot => em.write_punct("!"),
+    OperatorName::BitwiseNot => em.write_punct("~"),
+    OperatorName::UnaryPlus => em.write_punct("+"),
+    OperatorName::UnaryNegation => em.write_punct("-"),
+    OperatorName::Typeof => em.write_keyword("typeof"),
+    OperatorName::Void => em.write_keyword("void"),
+    OperatorName::Delete => em.write_keyword("delete"),
+    OperatorName::Await => em.write_keyword("await"),
+    OperatorName::PrefixIncrement => em.write_punct("++"),
+    OperatorName::PrefixDecrement => em.write_punct("--"),
+    OperatorName::PostfixIncrement => em.write_punct("++"),
+    OperatorName::PostfixDecrement => em.write_punct("--"),
+    OperatorName::Yield | OperatorName::YieldDelegated => em.write_keyword("yield"),
+    _ => return Err(EmitError::unsupported("unary operator not supported")),
+  }
+  Ok(())
+}
+
+fn emit_binary_operator(em: &mut Emitter, op: OperatorName) -> EmitResult {
+  match op {
+    OperatorName::Addition => em.write_punct("+"),
+    OperatorName::Subtraction => em.write_punct("-"),
     OperatorName::Multiplication => em.write_punct("*"),
     OperatorName::Division => em.write_punct("/"),
     OperatorName::Remainder => em.write_punct("%"),
@@ -2438,6 +2434,23 @@ fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
   )
 }
 
+/// Whether the callee of `new` contains a call that would take over its arguments,
+/// or an optional chain.
+fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Call(call) => !call.is_new,
+    ExprKind::ImportCall { .. } => true,
+    ExprKind::Member(member) => {
+      member.optional || new_callee_needs_parens(ctx, body, member.object)
+    }
+    ExprKind::TaggedTemplate { tag, .. } => new_callee_needs_parens(ctx, body, *tag),
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => new_callee_needs_parens(ctx, body, *expr),
+    _ => false,
+  }
+}
+
 fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
   let expr = ctx.expr(body, expr_id);
   match &expr.kind {
-- 
2.43.0


From e92b58c1ba9a6d17ee958e6e8c32fed955d10a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 38/56] fix: parenthesize in operators in the head of a for
 statement

---
 emit-js/src/hir.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index c69f20e..e77df58 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1179,7 +1179,8 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       if let Some(init) = init {
         match init {
           hir_js::ForInit::Expr(expr) => {
-            let needs_parens = for_init_expr_needs_parens(ctx, body, *expr);
+            let needs_parens =
+              for_init_expr_needs_parens(ctx, body, *expr) || has_bare_in(ctx, body, *expr);
             if needs_parens {
               em.write_punct("(");
             }
@@ -1380,7 +1381,14 @@ fn emit_var_decl(
     emit_pat(em, ctx, body, declarator.pat)?;
     if let Some(init) = declarator.init {
       em.write_punct("=");
-      emit_expr_with_min_prec(em, ctx, body, init, ASSIGNMENT_EXPR_PRECEDENCE)?;
+      // Without a semicolon, this is the head of a `for` statement.
+      if !trailing_semicolon && has_bare_in(ctx, body, init) {
+        em.write_punct("(");
+        emit_expr_with_min_prec(em, ctx, body, init, Prec::LOWEST)?;
+        em.write_punct(")");
+      } else {
+        emit_expr_with_min_prec(em, ctx, body, init, ASSIGNMENT_EXPR_PRECEDENCE)?;
+      }
     }
   }
   if trailing_semicolon {
@@ -2451,6 +2459,59 @@ fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -
   }
 }
 
+/// Whether an expression has an `in` outside of brackets, which would make the
+/// head of a `for` statement that of a `for-in`.
+fn has_bare_in(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Binary { op, left, right } => {
+      *op == BinaryOp::In || has_bare_in(ctx, body, *left) || has_bare_in(ctx, body, *right)
+    }
+    ExprKind::Assignment { target, value, .. } => {
+      pat_has_bare_in(ctx, body, *target) || has_bare_in(ctx, body, *value)
+    }
+    ExprKind::Conditional {
+      test,
+      consequent,
+      alternate,
+    } => {
+      has_bare_in(ctx, body, *test)
+        || has_bare_in(ctx, body, *consequent)
+        || has_bare_in(ctx, body, *alternate)
+    }
+    ExprKind::Unary { expr, .. }
+    | ExprKind::Update { expr, .. }
+    | ExprKind::Await { expr }
+    | ExprKind::Yield {
+      expr: Some(expr), ..
+    }
+    | ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => has_bare_in(ctx, body, *expr),
+    ExprKind::Call(call) => has_bare_in(ctx, body, call.callee),
+    ExprKind::Member(member) => has_bare_in(ctx, body, member.object),
+    ExprKind::TaggedTemplate { tag, .. } => has_bare_in(ctx, body, *tag),
+    ExprKind::FunctionExpr {
+      body: func_body,
+      is_arrow: true,
+      ..
+    } => match ctx.body(*func_body) {
+      Some(func_body) => match func_body.function.as_ref().map(|func| &func.body) {
+        Some(FunctionBody::Expr(expr)) => has_bare_in(ctx, func_body, *expr),
+        _ => false,
+      },
+      None => false,
+    },
+    _ => false,
+  }
+}
+
+fn pat_has_bare_in(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
+  match &ctx.pat(body, pat_id).kind {
+    PatKind::AssignTarget(expr) => has_bare_in(ctx, body, *expr),
+    _ => false,
+  }
+}
+
 fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
   let expr = ctx.expr(body, expr_id);
   match &expr.kind {
-- 
2.43.0


From c4b8d46ebdc89d81feb244231d23791e6a154f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 39/56] fix: parenthesize arrow bodies that start with a brace,
 and async and let in for-of heads

---
 emit-js/src/hir.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index e77df58..fa2e41c 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -918,7 +918,8 @@ fn emit_arrow_function(
   em.write_punct("=>");
   match &func.body {
     FunctionBody::Expr(expr) => {
-      let needs_parens = arrow_concise_body_needs_parens(ctx.expr(body, *expr));
+      let needs_parens = arrow_concise_body_needs_parens(ctx.expr(body, *expr))
+        || arrow_body_starts_with_brace(ctx, body, *expr);
       if needs_parens {
         em.write_punct("(");
       }
@@ -1217,7 +1218,8 @@ fn emit_stmt(em: &mut Emitter, ctx: &HirContext<'_>, body: &Body, stmt_id: StmtI
       em.write_punct("(");
       match left {
         hir_js::ForHead::Pat(pat) => {
-          let needs_parens = for_inof_assign_needs_parens(ctx, body, *pat);
+          let needs_parens = for_inof_assign_needs_parens(ctx, body, *pat, *is_for_of)
+            || (*is_for_of && !*await_ && pat_is_async(ctx, body, *pat));
           if needs_parens {
             em.write_punct("(");
           }
@@ -2442,6 +2444,11 @@ fn arrow_concise_body_needs_parens(expr: &Expr) -> bool {
   )
 }
 
+/// Whether an arrow function's body would start with the brace of a block.
+fn arrow_body_starts_with_brace(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  expr_stmt_tokens(ctx, body, expr_id).first == StmtStartToken::BraceOpen
+}
+
 /// Whether the callee of `new` contains a call that would take over its arguments,
 /// or an optional chain.
 fn new_callee_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
@@ -2703,9 +2710,16 @@ fn for_init_expr_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId
   })
 }
 
-fn for_inof_assign_needs_parens(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
+fn for_inof_assign_needs_parens(
+  ctx: &HirContext<'_>,
+  body: &Body,
+  pat_id: PatId,
+  is_for_of: bool,
+) -> bool {
   contextual_keyword_start_from_pat(ctx, body, pat_id).map_or(false, |start| match start.kind {
     ContextualKeyword::AwaitUsing => true,
+    // The head of a `for-of` cannot start with `let`.
+    ContextualKeyword::Let if is_for_of => true,
     ContextualKeyword::Let | ContextualKeyword::Using => matches!(
       start.next,
       NextTokenAfterKeyword::Brace
@@ -2717,6 +2731,10 @@ fn for_inof_assign_needs_parens(ctx: &HirContext<'_>, body: &Body, pat_id: PatId
   })
 }
 
+fn pat_is_async(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
+  matches!(&ctx.pat(body, pat_id).kind, PatKind::Ident(name) if ctx.name(*name) == "async")
+}
+
 fn binary_operator(op: BinaryOp) -> OperatorName {
   match op {
     BinaryOp::Add => OperatorName::Addition,
-- 
2.43.0


From e988fed4ef9d77a99610a8bb2e81789e189d866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 40/56] fix: a parenthesized string is not a directive

---
 emit-js/src/hir.rs        |  5 +++++
 emit-js/src/stmt.rs       |  2 +-
 emit-js/src/stmt_start.rs | 10 +++++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index fa2e41c..264e505 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2208,6 +2208,11 @@ fn expr_stmt_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) ->
   if expr_is_arrow_function(ctx, body, expr_id) {
     return true;
   }
+  // A parenthesized string is not a directive.
+  let expr = ctx.expr(body, expr_id);
+  if expr.parenthesized && matches!(expr.kind, ExprKind::Literal(Literal::String(_))) {
+    return true;
+  }
   let prefix = expr_stmt_tokens(ctx, body, expr_id);
   match prefix.first {
     StmtStartToken::At => true,
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index e8f21b6..166f400 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -107,7 +107,7 @@ fn expr_needs_paren_in_stmt(expr: &Node<Expr>) -> bool {
   matches!(
     expr.stx.as_ref(),
     Expr::LitObj(_) | Expr::Func(_) | Expr::Class(_) | Expr::ArrowFunc(_)
-  )
+  ) || crate::stmt_start::is_parenthesized_string(expr)
 }
 
 fn emit_stmt_as_body(em: &mut Emitter, stmt: &Node<Stmt>) -> EmitResult {
diff --git a/emit-js/src/stmt_start.rs b/emit-js/src/stmt_start.rs
index 2c3255f..155ef5e 100644
--- a/emit-js/src/stmt_start.rs
+++ b/emit-js/src/stmt_start.rs
@@ -2,7 +2,7 @@ use std::fmt;
 
 use parse_js::ast::expr::pat::Pat;
 use parse_js::ast::expr::{Expr, UnaryExpr};
-use parse_js::ast::node::Node;
+use parse_js::ast::node::{Node, ParenthesizedExpr};
 use parse_js::ast::type_expr::TypeExpr;
 use parse_js::operator::OperatorName;
 use parse_js::token::UNRESERVED_KEYWORD_STRS;
@@ -55,7 +55,15 @@ pub(crate) fn expr_second_token_hint(expr: &Node<Expr>) -> Option<TokenKind> {
   expr_tokens(expr).second
 }
 
+/// A parenthesized string is not a directive.
+pub(crate) fn is_parenthesized_string(expr: &Node<Expr>) -> bool {
+  matches!(expr.stx.as_ref(), Expr::LitStr(_)) && expr.assoc.get::<ParenthesizedExpr>().is_some()
+}
+
 pub fn expr_stmt_needs_parens(expr: &Node<Expr>) -> bool {
+  if is_parenthesized_string(expr) {
+    return true;
+  }
   let first = expr_leading_token(expr);
   let second = expr_second_token_hint(expr);
 
-- 
2.43.0


From b534756a5d75911a31bfd6a9fd2923827134983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 41/56] fix: parenthesize what starts a statement within
 postfix updates and string keys

---
 emit-js/src/hir.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 264e505..3c3f1b9 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2311,7 +2311,10 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
       Some(StmtStartToken::Other),
     ),
     ExprKind::Member(member) => match member.property {
-      ObjectKey::Computed(_) => prefix_with_fallback(
+      ObjectKey::Ident(_) => {
+        prefix_with_fallback(ctx, body, member.object, StmtStartToken::Other)
+      }
+      _ => prefix_with_fallback(
         ctx,
         body,
         member.object,
@@ -2321,7 +2324,6 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
           StmtStartToken::BracketOpen
         },
       ),
-      _ => prefix_with_fallback(ctx, body, member.object, StmtStartToken::Other),
     },
     ExprKind::Call(call) => {
       if call.is_new {
@@ -2369,6 +2371,11 @@ fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtS
         Some(arg_prefix.first),
       )
     }
+    ExprKind::Update {
+      expr,
+      prefix: false,
+      ..
+    } => prefix_with_fallback(ctx, body, *expr, StmtStartToken::Other),
     ExprKind::Unary { expr, .. }
     | ExprKind::Update { expr, .. }
     | ExprKind::Yield {
@@ -2619,8 +2626,8 @@ fn contextual_keyword_start_from_expr(
       body,
       member.object,
       match (&member.property, member.optional) {
-        (ObjectKey::Computed(_), false) => NextTokenAfterKeyword::Bracket,
-        _ => NextTokenAfterKeyword::Other,
+        (ObjectKey::Ident(_), _) | (_, true) => NextTokenAfterKeyword::Other,
+        _ => NextTokenAfterKeyword::Bracket,
       },
     ),
     ExprKind::Call(call) => {
@@ -2646,6 +2653,14 @@ fn contextual_keyword_start_from_expr(
     ExprKind::Conditional { test, .. } => {
       propagate_keyword_start(ctx, body, *test, NextTokenAfterKeyword::Other)
     }
+    ExprKind::Update {
+      expr,
+      prefix: false,
+      ..
+    } => propagate_keyword_start(ctx, body, *expr, NextTokenAfterKeyword::Other),
+    ExprKind::TaggedTemplate { tag, .. } => {
+      propagate_keyword_start(ctx, body, *tag, NextTokenAfterKeyword::Other)
+    }
     ExprKind::TypeAssertion { expr, .. }
     | ExprKind::NonNull { expr }
     | ExprKind::Satisfies { expr, .. } => {
-- 
2.43.0


From 636275723a7a3db7aa23675d38b142f0c64ff740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 42/56] fix: parenthesize comma expressions in type assertions
 as arrow bodies

---
 emit-js/src/hir.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 3c3f1b9..7523713 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -922,12 +922,12 @@ fn emit_arrow_function(
         || arrow_body_starts_with_brace(ctx, body, *expr);
       if needs_parens {
         em.write_punct("(");
-      }
-      emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
-      if needs_parens {
+        emit_expr_with_min_prec(em, ctx, body, *expr, Prec::LOWEST)?;
         em.write_punct(")");
+        Ok(())
+      } else {
+        emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)
       }
-      Ok(())
     }
     FunctionBody::Block(stmts) => emit_block_like(em, ctx, body, stmts),
   }
-- 
2.43.0


From e515c80bf040d0226785a43afe5beafafeac48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 43/56] fix: keep what follows (a?.b)! out of the optional
 chain

---
 emit-js/src/hir.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 7523713..759251a 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1732,7 +1732,7 @@ fn emit_receiver(
   body: &Body,
   expr_id: ExprId,
 ) -> EmitResult {
-  if ctx.expr(body, expr_id).parenthesized && starts_with_optional_chaining(ctx, body, expr_id) {
+  if is_parenthesized(ctx, body, expr_id) && starts_with_optional_chaining(ctx, body, expr_id) {
     em.write_punct("(");
     emit_expr_no_parens(em, ctx, body, expr_id)?;
     em.write_punct(")");
@@ -2531,6 +2531,19 @@ fn pat_has_bare_in(ctx: &HirContext<'_>, body: &Body, pat_id: PatId) -> bool {
   }
 }
 
+/// Whether an expression was written in parentheses, below type-only wrappers or above.
+fn is_parenthesized(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  let expr = ctx.expr(body, expr_id);
+  match &expr.kind {
+    ExprKind::TypeAssertion { expr: inner, .. }
+    | ExprKind::NonNull { expr: inner }
+    | ExprKind::Satisfies { expr: inner, .. } => {
+      expr.parenthesized || is_parenthesized(ctx, body, *inner)
+    }
+    _ => expr.parenthesized,
+  }
+}
+
 fn starts_with_optional_chaining(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
   let expr = ctx.expr(body, expr_id);
   match &expr.kind {
-- 
2.43.0


From ae6581c414ddf3786ca90ca81389e4daf4a8d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 44/56] fix: parenthesize void 0 as the base of **

---
 emit-js/src/hir.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 759251a..4f6ba7c 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2074,9 +2074,10 @@ fn operand_needs_parens(
   is_left: bool,
 ) -> bool {
   match &ctx.expr(body, operand).kind {
-    ExprKind::Unary { .. } | ExprKind::Update { .. } | ExprKind::Await { .. } => {
-      is_left && op == BinaryOp::Exponent
-    }
+    ExprKind::Unary { .. }
+    | ExprKind::Update { .. }
+    | ExprKind::Await { .. }
+    | ExprKind::Literal(Literal::Undefined) => is_left && op == BinaryOp::Exponent,
     ExprKind::Binary { op: inner, .. } => match op {
       BinaryOp::NullishCoalescing => matches!(inner, BinaryOp::LogicalAnd | BinaryOp::LogicalOr),
       BinaryOp::LogicalAnd | BinaryOp::LogicalOr => *inner == BinaryOp::NullishCoalescing,
-- 
2.43.0


From af07783aeaef71601a080ab55d4c8b6fde270020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 45/56] fix: keep the call in new (f()) apart from the
 arguments of new

---
 emit-js/src/expr.rs    |  9 ++++++++-
 emit-js/src/expr_js.rs |  9 ++++++++-
 hir-js/src/lower.rs    | 10 +++++++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index 23ce9ad..8cd11fa 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -12,7 +12,7 @@ use parse_js::ast::expr::{
   UnaryPostfixExpr,
 };
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::{literal_string_code_units, Node};
+use parse_js::ast::node::{literal_string_code_units, Node, ParenthesizedExpr};
 use parse_js::ast::type_expr::TypeExpr;
 use parse_js::operator::{OperatorName, OPERATORS};
 
@@ -526,6 +526,13 @@ where
     write!(self.out, "new ")?;
 
     match argument.stx.as_ref() {
+      // `new (f())` constructs what `f()` returns.
+      Expr::Call(call) if argument.assoc.get::<ParenthesizedExpr>().is_some() => {
+        write!(self.out, "(")?;
+        self.emit_call(call)?;
+        write!(self.out, ")")?;
+        Ok(())
+      }
       Expr::Call(call) => {
         if call.stx.optional_chaining {
           write!(self.out, "(")?;
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index b711699..e855546 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -10,7 +10,7 @@ use parse_js::ast::expr::lit::{
 use parse_js::ast::expr::pat::{ArrPat, IdPat, ObjPat, ObjPatProp, Pat};
 use parse_js::ast::expr::*;
 use parse_js::ast::func::{Func, FuncBody};
-use parse_js::ast::node::{literal_string_code_units, Node};
+use parse_js::ast::node::{literal_string_code_units, Node, ParenthesizedExpr};
 use parse_js::ast::stmt::decl::{Accessibility, ParamDecl, PatDecl};
 use parse_js::ast::type_expr::{TypeExpr, TypeParameter};
 use parse_js::operator::{OperatorName, OPERATORS};
@@ -419,6 +419,13 @@ fn emit_new_expr(em: &mut Emitter, argument: &Node<Expr>, ctx: ExprCtx) -> EmitR
   em.write_keyword("new");
 
   match argument.stx.as_ref() {
+    // `new (f())` constructs what `f()` returns.
+    Expr::Call(call) if argument.assoc.get::<ParenthesizedExpr>().is_some() => {
+      em.write_punct("(");
+      emit_call(em, call, ExprCtx::Default)?;
+      em.write_punct(")");
+      Ok(())
+    }
     Expr::Call(call) => {
       if call.stx.optional_chaining {
         em.write_punct("(");
diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index 32fb2c7..a4d7774 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -1972,7 +1972,15 @@ fn lower_expr(
         prefix: true,
       },
       OperatorName::New => {
-        if let AstExpr::Call(call) = unary.stx.argument.stx.as_ref() {
+        // `new (f())` constructs what `f()` returns; only in `new f()` are the
+        // arguments those of `new`.
+        let parenthesized = unary
+          .stx
+          .argument
+          .assoc
+          .get::<ParenthesizedExpr>()
+          .is_some();
+        if let (AstExpr::Call(call), false) = (unary.stx.argument.stx.as_ref(), parenthesized) {
           lower_call_expr(call, builder, ctx, true)
         } else {
           let callee = lower_expr(&unary.stx.argument, builder, ctx);
-- 
2.43.0


From 0c96435c39c5cee0a6d0ce219f42156e94ec2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 46/56] fix: keep trailing holes in array literals and patterns

---
 emit-js/src/expr.rs    |  7 ++++++-
 emit-js/src/expr_js.rs |  7 ++++++-
 emit-js/src/hir.rs     | 10 +++++++++-
 emit-js/src/js_pat.rs  |  3 +++
 emit-js/src/pat.rs     |  3 +++
 emit-js/src/stmt.rs    |  3 +++
 6 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/expr.rs b/emit-js/src/expr.rs
index 8cd11fa..546da5f 100644
--- a/emit-js/src/expr.rs
+++ b/emit-js/src/expr.rs
@@ -269,7 +269,12 @@ where
             self.out.write_str("...")?;
             self.emit_expr_with_min_prec(expr, Prec::new(1))?;
           }
-          LitArrElem::Empty => {}
+          // A comma at the end ends an element; it does not begin another hole.
+          LitArrElem::Empty => {
+            if idx + 1 == arr.stx.elements.len() {
+              self.out.write_char(',')?;
+            }
+          }
         }
       }
       self.out.write_char(']')?;
diff --git a/emit-js/src/expr_js.rs b/emit-js/src/expr_js.rs
index e855546..59a265d 100644
--- a/emit-js/src/expr_js.rs
+++ b/emit-js/src/expr_js.rs
@@ -493,7 +493,12 @@ fn emit_array_literal(em: &mut Emitter, arr: &Node<LitArrExpr>) -> EmitResult {
         em.write_punct("...");
         emit_expr(em, expr, ExprCtx::Default)?;
       }
-      LitArrElem::Empty => {}
+      // A comma at the end ends an element; it does not begin another hole.
+      LitArrElem::Empty => {
+        if idx + 1 == arr.stx.elements.len() {
+          em.write_punct(",");
+        }
+      }
     }
   }
   em.write_punct("]");
diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 4f6ba7c..64c71a8 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1426,6 +1426,9 @@ fn emit_pat(
             em.write_punct("=");
             emit_expr_with_min_prec(em, ctx, body, default, ASSIGNMENT_EXPR_PRECEDENCE)?;
           }
+        } else if idx + 1 == array.elements.len() && array.rest.is_none() {
+          // A comma at the end ends an element; it does not begin another hole.
+          em.write_punct(",");
         }
       }
       if let Some(rest) = array.rest {
@@ -1809,7 +1812,12 @@ fn emit_array_literal(
         em.write_punct("...");
         emit_expr_with_min_prec(em, ctx, body, *expr, ASSIGNMENT_EXPR_PRECEDENCE)?;
       }
-      hir_js::ArrayElement::Empty => {}
+      // A comma at the end ends an element; it does not begin another hole.
+      hir_js::ArrayElement::Empty => {
+        if idx + 1 == array.elements.len() {
+          em.write_punct(",");
+        }
+      }
     }
   }
   em.write_punct("]");
diff --git a/emit-js/src/js_pat.rs b/emit-js/src/js_pat.rs
index 2856192..13f0dc1 100644
--- a/emit-js/src/js_pat.rs
+++ b/emit-js/src/js_pat.rs
@@ -85,6 +85,9 @@ fn emit_array_pattern(out: &mut Emitter, arr: &Node<ArrPat>) -> JsEmitResult {
         out.write_punct("=");
         emit_js_expr(out, default)?;
       }
+    } else if index + 1 == arr.stx.elements.len() && arr.stx.rest.is_none() {
+      // A comma at the end ends an element; it does not begin another hole.
+      out.write_punct(",");
     }
   }
   if let Some(rest) = &arr.stx.rest {
diff --git a/emit-js/src/pat.rs b/emit-js/src/pat.rs
index b9dbec0..8ae5f16 100644
--- a/emit-js/src/pat.rs
+++ b/emit-js/src/pat.rs
@@ -89,6 +89,9 @@ pub(crate) fn emit_array_pattern(out: &mut Emitter, arr: &Node<ArrPat>) -> EmitR
         out.write_punct("=");
         emit_expr(out, default)?;
       }
+    } else if index + 1 == arr.stx.elements.len() && arr.stx.rest.is_none() {
+      // A comma at the end ends an element; it does not begin another hole.
+      out.write_punct(",");
     }
   }
   if let Some(rest) = &arr.stx.rest {
diff --git a/emit-js/src/stmt.rs b/emit-js/src/stmt.rs
index 166f400..41429f7 100644
--- a/emit-js/src/stmt.rs
+++ b/emit-js/src/stmt.rs
@@ -893,6 +893,9 @@ fn emit_array_pattern(em: &mut Emitter, arr: &Node<ArrPat>) -> EmitResult {
         em.write_punct("=");
         emit_expr(em, default, ExprCtx::Default)?;
       }
+    } else if idx + 1 == arr.stx.elements.len() && arr.stx.rest.is_none() {
+      // A comma at the end ends an element; it does not begin another hole.
+      em.write_punct(",");
     }
   }
   if let Some(rest) = &arr.stx.rest {
-- 
2.43.0


From c6d5e00fe47caa1af89aca0868bc1b9542f0459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:33 +0000
Subject: [PATCH 47/56] fix: lower the functions and members of every
 expression, statement and pattern

---
 hir-js/src/lower.rs | 154 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 142 insertions(+), 12 deletions(-)

diff --git a/hir-js/src/lower.rs b/hir-js/src/lower.rs
index a4d7774..adf40d7 100644
--- a/hir-js/src/lower.rs
+++ b/hir-js/src/lower.rs
@@ -3913,21 +3913,27 @@ fn collect_var_decl<'a>(
 
 fn collect_for_lhs<'a>(
   lhs: &'a ForInOfLhs,
-  _descriptors: &mut Vec<DefDescriptor<'a>>,
-  _module_items: &mut Vec<ModuleItem<'a>>,
+  descriptors: &mut Vec<DefDescriptor<'a>>,
+  module_items: &mut Vec<ModuleItem<'a>>,
   names: &mut NameInterner,
-  _ambient: bool,
-  _in_global: bool,
+  ambient: bool,
+  in_global: bool,
   ctx: &mut LoweringContext,
 ) {
-  match lhs {
-    ForInOfLhs::Assign(pat) => {
-      let _ = collect_pat_names(pat, names, ctx);
-    }
-    ForInOfLhs::Decl((_, pat_decl)) => {
-      let _ = collect_pat_names(&pat_decl.stx.pat, names, ctx);
-    }
-  }
+  let pat = match lhs {
+    ForInOfLhs::Assign(pat) => pat,
+    ForInOfLhs::Decl((_, pat_decl)) => &pat_decl.stx.pat,
+  };
+  let _ = collect_pat_names(pat, names, ctx);
+  collect_exprs_from_pat(
+    pat,
+    descriptors,
+    module_items,
+    names,
+    ambient,
+    in_global,
+    ctx,
+  );
 }
 
 fn walk_stmt_children<'a>(
@@ -4211,6 +4217,15 @@ fn walk_stmt_children<'a>(
       if let Some(catch) = &tr.stx.catch {
         if let Some(param) = &catch.stx.parameter {
           let _ = collect_pat_names(&param.stx.pat, names, ctx);
+          collect_exprs_from_pat(
+            &param.stx.pat,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
         }
         for stmt in catch.stx.body.iter() {
           collect_stmt(
@@ -4239,6 +4254,26 @@ fn walk_stmt_children<'a>(
         );
       }
     }
+    AstStmt::Throw(th) => collect_expr(
+      &th.stx.value,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    ),
+    AstStmt::Label(label) => collect_stmt(
+      &label.stx.statement,
+      descriptors,
+      module_items,
+      names,
+      false,
+      false,
+      ambient,
+      in_global,
+      ctx,
+    ),
     AstStmt::With(w) => {
       collect_expr(
         &w.stx.object,
@@ -4597,6 +4632,21 @@ fn collect_expr<'a>(
       use parse_js::ast::class_or_object::ClassOrObjVal;
       use parse_js::ast::class_or_object::ObjMemberType;
       for member in obj.stx.members.iter() {
+        if let ObjMemberType::Valued {
+          key: ClassOrObjKey::Computed(key),
+          ..
+        } = &member.stx.typ
+        {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         match &member.stx.typ {
           ObjMemberType::Valued { key, val } => match val {
             ClassOrObjVal::Prop(Some(expr)) => collect_expr(
@@ -4783,6 +4833,17 @@ fn collect_expr<'a>(
     }
     AstExpr::ObjPat(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -4816,6 +4877,55 @@ fn collect_expr<'a>(
         );
       }
     }
+    AstExpr::Unary(unary) => collect_expr(
+      &unary.stx.argument,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    ),
+    AstExpr::UnaryPostfix(unary) => collect_expr(
+      &unary.stx.argument,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    ),
+    AstExpr::Import(import) => {
+      collect_expr(
+        &import.stx.module,
+        descriptors,
+        module_items,
+        names,
+        ambient,
+        in_global,
+        ctx,
+      );
+      if let Some(attributes) = &import.stx.attributes {
+        collect_expr(
+          attributes,
+          descriptors,
+          module_items,
+          names,
+          ambient,
+          in_global,
+          ctx,
+        );
+      }
+    }
+    AstExpr::Instantiation(inst) => collect_expr(
+      &inst.stx.expression,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    ),
     AstExpr::TypeAssertion(assert) => {
       collect_expr(
         &assert.stx.expression,
@@ -5018,6 +5128,17 @@ fn collect_exprs_from_pat<'a>(
     }
     AstPat::Obj(obj) => {
       for prop in obj.stx.properties.iter() {
+        if let ClassOrObjKey::Computed(key) = &prop.stx.key {
+          collect_expr(
+            key,
+            descriptors,
+            module_items,
+            names,
+            ambient,
+            in_global,
+            ctx,
+          );
+        }
         collect_exprs_from_pat(
           &prop.stx.target,
           descriptors,
@@ -5110,6 +5231,15 @@ fn collect_func_params<'a>(
       in_global,
       ctx,
     );
+    collect_exprs_from_pat(
+      &param.stx.pattern.stx.pat,
+      descriptors,
+      module_items,
+      names,
+      ambient,
+      in_global,
+      ctx,
+    );
     if let Some(default) = &param.stx.default_value {
       collect_expr(
         default,
-- 
2.43.0


From f3c10c3607c1c3f63cca28e7b789502f1772ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:09 +0000
Subject: [PATCH 48/56] fix: print default-exported classes and functions
 without a name

---
 emit-js/src/hir.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 64c71a8..eeb3b4b 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -523,6 +523,12 @@ fn emit_var_def(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitRe
   emit_var_decl(em, ctx, body, decl, true)
 }
 
+/// The name a declaration binds. A declaration that is exported by default may
+/// have none, for which lowering puts a name no declaration can have.
+fn declared_name<'a>(ctx: &'a HirContext<'_>, def: &DefData) -> Option<&'a str> {
+  Some(ctx.name(def.name)).filter(|name| *name != "<anonymous>")
+}
+
 fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
   let Some(body_id) = def.body else {
     return Ok(());
@@ -534,7 +540,7 @@ fn emit_function_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) ->
     .function
     .as_ref()
     .ok_or_else(|| EmitError::unsupported("function metadata missing"))?;
-  emit_function_like(em, ctx, Some(ctx.name(def.name)), func, body)
+  emit_function_like(em, ctx, declared_name(ctx, def), func, body)
 }
 
 fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> EmitResult {
@@ -544,7 +550,13 @@ fn emit_class_decl(em: &mut Emitter, ctx: &HirContext<'_>, def: &DefData) -> Emi
   let body = ctx
     .body(body_id)
     .ok_or_else(|| EmitError::unsupported("class body not found"))?;
-  emit_class_like(em, ctx, body, Some(ctx.name(def.name)), false)
+  emit_class_like(
+    em,
+    ctx,
+    body,
+    declared_name(ctx, def),
+    def.is_default_export,
+  )
 }
 
 fn emit_class_like(
-- 
2.43.0


From c9bcd288fa1106f2290069dfd3911bb06c3fa2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 49/56] fix: end the expression body of an arrow function at a
 comma

---
 parse-js/src/parse/expr/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 54d37bc..e7b1697 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -30,6 +30,7 @@ use crate::ast::node::ParenthesizedExpr;
 use crate::ast::stmt::decl::ParamDecl;
 use crate::ast::stmt::decl::PatDecl;
 use crate::ast::type_expr::TypeExpr;
+use crate::Dialect;
 use crate::error::SyntaxErrorType;
 use crate::error::SyntaxResult;
 use crate::lex::LexMode;
@@ -365,8 +366,16 @@ impl<'a> Parser<'a> {
           }
           _ => {
             p.validate_formal_parameters(None, &parameters, simple_params, true)?;
+            // The body is an AssignmentExpression: a comma ends the arrow function
+            // (existing TSX syntax trees have the comma in the body).
+            let comma = OPERATORS[&OperatorName::Comma].precedence;
+            let min_prec = if p.dialect() == Dialect::Tsx {
+              comma
+            } else {
+              comma + 1
+            };
             Ok(
-              p.expr_with_asi(fn_body_ctx, terminators, &mut Asi::can())?
+              p.expr_with_min_prec(fn_body_ctx, min_prec, terminators, &mut Asi::can())?
                 .into(),
             )
           }
-- 
2.43.0


From 50713093849599ea14f219f29e857f0a23a88c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:38 +0000
Subject: [PATCH 50/56] fix: take a template after the target of new as part of
 the target

---
 parse-js/src/parse/expr/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index e7b1697..f74bcb7 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -941,9 +941,25 @@ impl<'a> Parser<'a> {
                 // Parse the constructor target expression without consuming call syntax.
                 let mut callee = p.expr_operand(ctx, terminators, asi)?;
 
-                // Consume member access chains (`new Foo.bar()`).
+                // Consume member access chains and tagged templates (`new Foo.bar()`,
+                // ``new foo`x`()``).
                 loop {
                   match p.peek().typ {
+                    TT::LiteralTemplatePartString | TT::LiteralTemplatePartStringEnd => {
+                      let loc = p.peek().loc;
+                      let (parts, template_parts) =
+                        p.lit_template_parts_with_template_data(ctx, true)?;
+                      let mut node = Node::new(
+                        callee.loc + loc,
+                        TaggedTemplateExpr {
+                          function: callee,
+                          parts,
+                        },
+                      );
+                      node.assoc.set(template_parts);
+                      callee = node.into_wrapped();
+                      continue;
+                    }
                     TT::Dot | TT::QuestionDot => {
                       let optional = p.peek().typ == TT::QuestionDot;
                       p.consume();
-- 
2.43.0


From 745bf60cf153b6072e0033df5920fd4d1aa32dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 51/56] fix: keep a string beneath type operators from becoming
 a directive

---
 emit-js/src/hir.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index eeb3b4b..9210e9d 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -2229,9 +2229,8 @@ fn expr_stmt_needs_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) ->
   if expr_is_arrow_function(ctx, body, expr_id) {
     return true;
   }
-  // A parenthesized string is not a directive.
-  let expr = ctx.expr(body, expr_id);
-  if expr.parenthesized && matches!(expr.kind, ExprKind::Literal(Literal::String(_))) {
+  // A string that is parenthesized, or that a type operator is applied to, is not a directive.
+  if expr_is_string_in_parens(ctx, body, expr_id) {
     return true;
   }
   let prefix = expr_stmt_tokens(ctx, body, expr_id);
@@ -2282,6 +2281,27 @@ fn expr_is_arrow_function(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) ->
   }
 }
 
+fn expr_is_string_in_parens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  let expr = ctx.expr(body, expr_id);
+  match &expr.kind {
+    ExprKind::Literal(Literal::String(_)) => expr.parenthesized,
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => expr_is_string(ctx, body, *expr),
+    _ => false,
+  }
+}
+
+fn expr_is_string(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Literal(Literal::String(_)) => true,
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => expr_is_string(ctx, body, *expr),
+    _ => false,
+  }
+}
+
 fn expr_stmt_tokens(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> StmtStartTokenPrefix {
   let expr = ctx.expr(body, expr_id);
   match &expr.kind {
-- 
2.43.0


From f8d0eb8737f8a56847ff3850334908e58cb83591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 52/56] fix: keep the dot of a number beneath type operators
 apart from the member's

---
 emit-js/src/hir.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/emit-js/src/hir.rs b/emit-js/src/hir.rs
index 9210e9d..4c8181b 100644
--- a/emit-js/src/hir.rs
+++ b/emit-js/src/hir.rs
@@ -1779,10 +1779,8 @@ fn emit_member(
     emit_member_property(em, ctx, body, &member.property)?;
     em.write_punct("]");
   } else if let ObjectKey::Ident(name) = &member.property {
-    if let ExprKind::Literal(Literal::Number(num)) = &ctx.expr(body, member.object).kind {
-      if requires_trailing_dot(num) {
-        em.write_punct(".");
-      }
+    if expr_is_integer(ctx, body, member.object) {
+      em.write_punct(".");
     }
     em.write_punct(".");
     em.write_identifier(ctx.name(*name));
@@ -1790,6 +1788,17 @@ fn emit_member(
   Ok(())
 }
 
+/// Is printed as a number that takes a dot as its decimal point.
+fn expr_is_integer(ctx: &HirContext<'_>, body: &Body, expr_id: ExprId) -> bool {
+  match &ctx.expr(body, expr_id).kind {
+    ExprKind::Literal(Literal::Number(num)) => requires_trailing_dot(num),
+    ExprKind::TypeAssertion { expr, .. }
+    | ExprKind::NonNull { expr }
+    | ExprKind::Satisfies { expr, .. } => expr_is_integer(ctx, body, *expr),
+    _ => false,
+  }
+}
+
 fn emit_member_property(
   em: &mut Emitter,
   ctx: &HirContext<'_>,
-- 
2.43.0


From c9be1097b9e66e91cbd0a9a8968e0553304ee3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 53/56] fix: let a comma follow an arrow function in the
 expression of a case

---
 parse-js/src/parse/expr/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index f74bcb7..5e48d6c 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -383,7 +383,11 @@ impl<'a> Parser<'a> {
       })();
       p.new_target_allowed = prev_new_target_allowed;
       let body = body?;
-      if terminators.contains(&TT::Colon) && p.peek().typ != TT::Colon {
+      // A comma may follow in the expression of a `case`.
+      if terminators.contains(&TT::Colon)
+        && p.peek().typ != TT::Colon
+        && (return_type.is_some() || p.peek().typ != TT::Comma)
+      {
         return Err(
           p.peek()
             .error(SyntaxErrorType::RequiredTokenNotFound(TT::Colon)),
-- 
2.43.0


From 0e9ea9254872d7e6bb3dde77c938a9c1a8dc3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:36 +0000
Subject: [PATCH 54/56] fix: do not read typeof as a binary operator

---
 parse-js/src/parse/operator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse-js/src/parse/operator.rs b/parse-js/src/parse/operator.rs
index a28f239..2a23835 100644
--- a/parse-js/src/parse/operator.rs
+++ b/parse-js/src/parse/operator.rs
@@ -58,7 +58,6 @@ pub static MULTARY_OPERATOR_MAPPING: Lazy<HashMap<TT, &'static Operator>> = Lazy
   map.insert(TT::EqualsEqualsEquals, &OPERATORS[&OperatorName::StrictEquality]);
   map.insert(TT::ExclamationEqualsEquals, &OPERATORS[&OperatorName::StrictInequality]);
   map.insert(TT::Hyphen, &OPERATORS[&OperatorName::Subtraction]);
-  map.insert(TT::KeywordTypeof, &OPERATORS[&OperatorName::Typeof]);
   map
 });
 
-- 
2.43.0


From 34fbe7f3edcf91b9d68f4023cb6eb7e10d88b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 55/56] fix: do not loop on a non-null assertion before an
 equals sign

---
 parse-js/src/parse/expr/mod.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/parse-js/src/parse/expr/mod.rs b/parse-js/src/parse/expr/mod.rs
index 5e48d6c..4fd668c 100644
--- a/parse-js/src/parse/expr/mod.rs
+++ b/parse-js/src/parse/expr/mod.rs
@@ -1374,26 +1374,17 @@ impl<'a> Parser<'a> {
           continue;
         }
         // TypeScript: Non-null assertion: expr!
-        // We need to distinguish between non-null assertion (expr!) and
-        // inequality operators (!= and !==).
+        // The inequality operators `!=` and `!==` are tokens of their own.
         TT::Exclamation if self.is_typescript() && !t.preceded_by_line_terminator => {
-          let next = self.peek();
-          if next.typ != TT::Equals && next.typ != TT::EqualsEquals {
-            // This is a non-null assertion: expr!
-            use crate::ast::expr::NonNullAssertionExpr;
-            left = Node::new(
-              left.loc + t.loc,
-              NonNullAssertionExpr {
-                expression: Box::new(left),
-              },
-            )
-            .into_wrapped();
-            continue;
-          }
-          // Otherwise it's != or !==, so restore checkpoint and continue loop to re-process
-          // We restore so the binary operator handling code below can process != or !==
-          self.restore_checkpoint(cp);
-          continue; // Restart loop to re-process the ! token as part of != or !==
+          use crate::ast::expr::NonNullAssertionExpr;
+          left = Node::new(
+            left.loc + t.loc,
+            NonNullAssertionExpr {
+              expression: Box::new(left),
+            },
+          )
+          .into_wrapped();
+          continue;
         }
         // Tagged templates allow line terminators between the tag expression and
         // the template literal (`tag\n\`x\``). ASI must not split in that case.
-- 
2.43.0


From 184b02aab4132739a8f0d3465a6edb36c6c72da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:29 +0000
Subject: [PATCH 56/56] fix: keep expressions that convert objects or may
 overflow BigInts

---
 minify-js/src/opt/side_effects.rs | 86 ++++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 12 deletions(-)

diff --git a/minify-js/src/opt/side_effects.rs b/minify-js/src/opt/side_effects.rs
index 5a1fff5..7987f30 100644
--- a/minify-js/src/opt/side_effects.rs
+++ b/minify-js/src/opt/side_effects.rs
@@ -32,6 +32,60 @@ fn expr_definitely_string(expr: &Node<Expr>) -> bool {
   }
 }
 
+/// Whether the value is surely no object, whose conversion to a primitive calls its methods.
+fn expr_definitely_primitive(expr: &Node<Expr>) -> bool {
+  match expr.stx.as_ref() {
+    Expr::LitNull(_)
+    | Expr::LitBool(_)
+    | Expr::LitNum(_)
+    | Expr::LitStr(_)
+    | Expr::LitBigInt(_)
+    | Expr::LitTemplate(_) => true,
+    Expr::Unary(unary) => matches!(
+      unary.stx.operator,
+      OperatorName::UnaryPlus
+        | OperatorName::UnaryNegation
+        | OperatorName::LogicalNot
+        | OperatorName::BitwiseNot
+        | OperatorName::Void
+    ),
+    Expr::Binary(bin) => {
+      use OperatorName::*;
+      match bin.stx.operator {
+        LogicalAnd | LogicalOr | NullishCoalescing => {
+          expr_definitely_primitive(&bin.stx.left) && expr_definitely_primitive(&bin.stx.right)
+        }
+        Addition
+        | Subtraction
+        | Multiplication
+        | Division
+        | Remainder
+        | Exponentiation
+        | BitwiseAnd
+        | BitwiseOr
+        | BitwiseXor
+        | BitwiseLeftShift
+        | BitwiseRightShift
+        | BitwiseUnsignedRightShift
+        | LessThan
+        | LessThanOrEqual
+        | GreaterThan
+        | GreaterThanOrEqual
+        | Equality
+        | Inequality
+        | StrictEquality
+        | StrictInequality => true,
+        _ => false,
+      }
+    }
+    Expr::Cond(cond) => {
+      expr_definitely_primitive(&cond.stx.consequent)
+        && expr_definitely_primitive(&cond.stx.alternate)
+    }
+    _ => false,
+  }
+}
+
 fn expr_bigint_kind(expr: &Node<Expr>) -> BigIntKind {
   match expr.stx.as_ref() {
     Expr::LitBigInt(_) => BigIntKind::BigInt,
@@ -149,12 +203,14 @@ pub(super) fn is_side_effect_free_expr(expr: &Node<Expr>) -> bool {
     Expr::Unary(unary) => match unary.stx.operator {
       OperatorName::UnaryPlus => {
         is_side_effect_free_expr(&unary.stx.argument)
+          && expr_definitely_primitive(&unary.stx.argument)
           && expr_bigint_kind(&unary.stx.argument) == BigIntKind::NotBigInt
       }
-      OperatorName::UnaryNegation
-      | OperatorName::LogicalNot
-      | OperatorName::BitwiseNot
-      | OperatorName::Void => is_side_effect_free_expr(&unary.stx.argument),
+      OperatorName::UnaryNegation | OperatorName::BitwiseNot => {
+        is_side_effect_free_expr(&unary.stx.argument)
+          && expr_definitely_primitive(&unary.stx.argument)
+      }
+      OperatorName::LogicalNot | OperatorName::Void => is_side_effect_free_expr(&unary.stx.argument),
       _ => false,
     },
     Expr::Binary(bin) => {
@@ -162,6 +218,14 @@ pub(super) fn is_side_effect_free_expr(expr: &Node<Expr>) -> bool {
         return false;
       }
       use OperatorName::*;
+      if !matches!(
+        bin.stx.operator,
+        StrictEquality | StrictInequality | LogicalAnd | LogicalOr | NullishCoalescing
+      ) && !(expr_definitely_primitive(&bin.stx.left)
+        && expr_definitely_primitive(&bin.stx.right))
+      {
+        return false;
+      }
       match bin.stx.operator {
         Addition => {
           if expr_definitely_string(&bin.stx.left) || expr_definitely_string(&bin.stx.right) {
@@ -196,19 +260,15 @@ pub(super) fn is_side_effect_free_expr(expr: &Node<Expr>) -> bool {
           },
           _ => false,
         },
-        Exponentiation => match (
+        // A power or left shift of BigInts can be too large a number.
+        Exponentiation | BitwiseLeftShift => match (
           expr_bigint_kind(&bin.stx.left),
           expr_bigint_kind(&bin.stx.right),
         ) {
           (BigIntKind::NotBigInt, BigIntKind::NotBigInt) => true,
-          (BigIntKind::BigInt, BigIntKind::BigInt) => match expr_bigint_sign(&bin.stx.right) {
-            Some(BigIntSign::Negative) => false,
-            Some(BigIntSign::Zero) | Some(BigIntSign::Positive) => true,
-            None => false,
-          },
           _ => false,
         },
-        BitwiseLeftShift | BitwiseRightShift => {
+        BitwiseRightShift => {
           match (
             expr_bigint_kind(&bin.stx.left),
             expr_bigint_kind(&bin.stx.right),
@@ -279,7 +339,9 @@ pub(super) fn is_side_effect_free_expr(expr: &Node<Expr>) -> bool {
     }
     Expr::LitTemplate(tpl) => tpl.stx.parts.iter().all(|part| match part {
       LitTemplatePart::String(_) => true,
-      LitTemplatePart::Substitution(expr) => is_side_effect_free_expr(expr),
+      LitTemplatePart::Substitution(expr) => {
+        is_side_effect_free_expr(expr) && expr_definitely_primitive(expr)
+      }
     }),
     _ => false,
   }
-- 
2.43.0

