From f3ac6948340e12daa91be618f555d6b480173e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:39 +0000
Subject: [PATCH 01/58] fix: keep an open file bound to its new tree entry
 after its directory was removed

invalidate_path() puts open files of a removed directory back into the tree
with a fresh FileEntry, but the FileState kept pointing to the old entry.
Files that looked the open file up afterwards registered on the new entry and
were therefore not invalidated by the next edit.
---
 crates/vfs/src/vfs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 3851511..dc6950e 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -754,6 +754,8 @@ impl<F: VfsFile> Vfs<F> {
             match ensured.kind {
                 AddedKind::FileEntry(file_entry) => {
                     file_entry.with_set_file_index(|| file_index);
+                    // Dependents register on the entry in the tree, so the file needs to know it.
+                    self.file_state_mut(file_index).file_entry = file_entry;
                     self.handler.on_invalidated_in_memory_file(path);
                 }
                 AddedKind::Gitignore(_) => {
-- 
2.43.0


From 30dd8136aef891db8f9b6f04cb3e17cdddefc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:16 +0000
Subject: [PATCH 02/58] fix: letter case matters in globs except on Windows

VfsHandler::is_case_sensitive() was inverted: glob patterns matched
case-insensitively everywhere but on Windows.
---
 crates/vfs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/lib.rs b/crates/vfs/src/lib.rs
index e4e412d..99f33b7 100644
--- a/crates/vfs/src/lib.rs
+++ b/crates/vfs/src/lib.rs
@@ -113,7 +113,7 @@ pub trait VfsHandler: Sync + Send {
     }
 
     fn is_case_sensitive(&self) -> bool {
-        cfg!(target_os = "windows")
+        !cfg!(target_os = "windows")
     }
 
     fn is_unnecessary_invalidation(
-- 
2.43.0


From 2f0ffa7104763e8d66d87535f910672a8343b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 03/58] fix: symbolic links that only point to each other no
 longer overflow the stack

---
 crates/vfs/src/local_fs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/local_fs.rs b/crates/vfs/src/local_fs.rs
index 01d966c..8df172c 100644
--- a/crates/vfs/src/local_fs.rs
+++ b/crates/vfs/src/local_fs.rs
@@ -13,6 +13,8 @@ use crate::{
 };
 
 const GLOBALLY_IGNORED_FOLDERS: [&str; 3] = ["site-packages", "node_modules", "__pycache__"];
+// Links that point to each other never lead anywhere, this is the limit that Linux uses.
+const MAX_FOLLOWED_SYMLINKS: usize = 40;
 
 pub type SimpleLocalFS = LocalFS<Box<dyn Fn(PathWithScheme) + Sync + Send>>;
 
@@ -321,14 +323,18 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
         &self,
         path: P,
     ) -> Result<ResolvedFileType, String> {
-        self.follow_symlink_internal(path.as_ref(), path.as_ref())
+        self.follow_symlink_internal(path.as_ref(), path.as_ref(), MAX_FOLLOWED_SYMLINKS)
     }
 
     fn follow_symlink_internal(
         &self,
         origin_path: &Path,
         path: &Path,
+        remaining: usize,
     ) -> Result<ResolvedFileType, String> {
+        if remaining == 0 {
+            return Err(format!("Too many levels of symbolic links in {origin_path:?}"));
+        }
         self.watch(path);
         let target_path = resolve_link(path)?;
         let metadata = std::fs::symlink_metadata(&target_path).map_err(|e| format!("{e}"))?;
@@ -349,7 +355,7 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
             }
             Ok(ResolvedFileType::Directory)
         } else if file_type.is_symlink() {
-            self.follow_symlink_internal(origin_path, &target_path)
+            self.follow_symlink_internal(origin_path, &target_path, remaining - 1)
         } else {
             debug_assert!(file_type.is_file());
             Ok(ResolvedFileType::File)
-- 
2.43.0


From 6961f2c5c4d2067fd03766437649609f1856e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:20 +0000
Subject: [PATCH 04/58] fix: do not add a collapsible node twice when the
 parser backtracks

A collapsible node with one child is added to the tree as soon as a second
child follows. If the second child was an alternative that failed, the fallback
added the node once more, and the tree had the same leaves twice (for example
"for *[a] in b: pass" or "*a.b, = c").
---
 crates/parsa/src/grammar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 59f629a..77337ee 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -524,7 +524,9 @@ impl<'a, T: Token> Grammar<T> {
             && plan.mode != PlanMode::LeftRecursive
             && tos_mut.children_count == 1
         {
-            tos_mut.children_count = 1;
+            // The node is part of the tree from here on. Backtracking must not add it again, so
+            // the count may not stay at one.
+            tos_mut.children_count = 2;
             tos_mut.latest_child_node_index = tos_mut.tree_node_index + 1;
 
             let start_index = stack.tree_nodes[tos_mut.tree_node_index].start_index;
-- 
2.43.0


From 03a1beb43df28d195be1f7926f5191fe3aa89cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:13 +0000
Subject: [PATCH 05/58] fix: a quote only ends the innermost f-string

Since Python 3.12 (PEP 701) f-strings nest freely. A double quote ended the
outermost f-string with that quote, so f"{f"{x}"}" was a syntax error (with
single quotes it was not), and a quote or a newline of an enclosing f-string
ended it from within the literal part of a nested one.
---
 crates/parsa_python/src/tokenizer.rs | 47 ++++++++++++----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1fc3f15..68fb783 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -245,30 +245,26 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '"' {
-                for (j, node) in self.f_string_stack.iter().enumerate() {
-                    let quote = node.quote;
-                    match quote {
-                        QuoteType::Double => return self.end_f_string(i, j, quote),
-                        QuoteType::DoubleTriple => {
-                            if code_from_start(self.code, self.index + i).starts_with("\"\"\"") {
-                                return self.end_f_string(i, j, quote);
-                            }
+                let quote = self.f_string_tos().quote;
+                match quote {
+                    QuoteType::Double => return self.end_f_string(i, quote),
+                    QuoteType::DoubleTriple => {
+                        if code_from_start(self.code, self.index + i).starts_with("\"\"\"") {
+                            return self.end_f_string(i, quote);
                         }
-                        _ => {}
                     }
+                    _ => {}
                 }
             } else if character == '\'' {
-                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
-                    let quote = node.quote;
-                    match quote {
-                        QuoteType::Single => return self.end_f_string(i, j, quote),
-                        QuoteType::SingleTriple => {
-                            if code_from_start(self.code, self.index + i).starts_with("'''") {
-                                return self.end_f_string(i, j, quote);
-                            }
+                let quote = self.f_string_tos().quote;
+                match quote {
+                    QuoteType::Single => return self.end_f_string(i, quote),
+                    QuoteType::SingleTriple => {
+                        if code_from_start(self.code, self.index + i).starts_with("'''") {
+                            return self.end_f_string(i, quote);
                         }
-                        _ => {}
                     }
+                    _ => {}
                 }
             } else if character == ':' && in_expr {
                 let tos = self.f_string_tos();
@@ -300,8 +296,10 @@ impl PythonTokenizer<'_> {
                         }
                     }
                 }
-            } else if character == '\n' || character == '\r' {
-                // Check if there is an f-string on the stack that allows no newlines.
+            } else if (character == '\n' || character == '\r')
+                && !self.f_string_tos().allow_multiline()
+            {
+                // Find the outermost f-string on the stack that allows no newlines.
                 match self
                     .f_string_stack
                     .iter()
@@ -348,18 +346,13 @@ impl PythonTokenizer<'_> {
     }
 
     #[inline]
-    fn end_f_string(
-        &mut self,
-        string_length: usize,
-        drain_from: usize,
-        quote: QuoteType,
-    ) -> Option<PyTerminal> {
+    fn end_f_string(&mut self, string_length: usize, quote: QuoteType) -> Option<PyTerminal> {
         // This is the same if we are in_expr or not. The string ends no matter
         // what. It's a bit strange that in the expr case it returns an
         // fstring_string first, but this should be fine, since if there's a
         // syntax error in the parser, the error will be there anyway.
         let end = |node: &mut Self| {
-            node.f_string_stack.drain(drain_from..);
+            node.f_string_stack.pop();
             let start = node.index;
             node.index += match quote {
                 QuoteType::Single | QuoteType::Double => 1,
-- 
2.43.0


From 35a3fdcaffe914536d1d9b92d08fb6d04434ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:13 +0000
Subject: [PATCH 06/58] fix: end a nested format spec together with its field

In f"{x:{y:3}{z}}" the format spec of the inner field was still considered
open after its closing brace and the second field became a syntax error.
---
 crates/parsa_python/src/tokenizer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 68fb783..5d63858 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -125,10 +125,8 @@ impl FStringNode {
         if self.parentheses_level > 0 {
             self.parentheses_level -= 1;
         }
-        if self.parentheses_level == 0 {
-            // No parentheses means that the format spec is also finished.
-            self.format_spec_count = 0
-        }
+        // The format spec of the field that was closed is also finished.
+        self.format_spec_count = self.format_spec_count.min(self.parentheses_level);
     }
 
     #[inline]
-- 
2.43.0


From aa8374a9cc015b5050522034114954a40b8f7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:13 +0000
Subject: [PATCH 07/58] fix: only look for a character name right after \\N

The name in braces was searched in the rest of the file, so f"\\N" followed by
braces anywhere swallowed the end of the f-string. In raw f-strings there are no
character names.
---
 crates/parsa_python/src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 5d63858..a42a7c4 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -38,7 +38,7 @@ lazy_static::lazy_static! {
 
     static ref NEWLINE: Regex = r(r"^(\r\n?|\n)");
     static ref F_STRING_START: Regex = r(r#"^([Ff][Rr]?|[Rr][Ff])("""|'''|'|")"#);
-    static ref UNICODE_CHARACTER_NAME: Regex = r(r"\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
+    static ref UNICODE_CHARACTER_NAME: Regex = r(r"^\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
 
     static ref ALWAYS_BREAK_NAMES: HashSet<&'static str> = [
         "import", "class", "def", "try", "except",
@@ -110,6 +110,7 @@ enum QuoteType {
 #[derive(Debug)]
 struct FStringNode {
     quote: QuoteType,
+    raw: bool,
     parentheses_level: usize,
     format_spec_count: usize,
 }
@@ -279,6 +280,7 @@ impl PythonTokenizer<'_> {
             } else if character == '\\' {
                 if let Some(&(_, next)) = iterator.peek() {
                     if next == 'N'
+                        && !self.f_string_tos().raw
                         && let Some(match_) = UNICODE_CHARACTER_NAME
                             .find(code_from_start(self.code, self.index + i + 2))
                     {
@@ -541,6 +543,7 @@ impl Iterator for PythonTokenizer<'_> {
                         QuoteType::Single
                     }
                 },
+                raw: match_.as_str().contains(['r', 'R']),
                 parentheses_level: 0,
                 format_spec_count: 0,
             });
-- 
2.43.0


From 5166948d660f4a1ffecedc6460fdbafccdea5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:50 +0000
Subject: [PATCH 08/58] fix: go back to the start of the whitespace after a
 dedent

The tokenizer went back as many bytes as the indentation is wide. After a line
continuation in the indentation these are other bytes, possibly in the middle of
a character of a comment, which made the parser panic.
---
 crates/parsa_python/src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index a42a7c4..4db1ed1 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -457,6 +457,7 @@ impl Iterator for PythonTokenizer<'_> {
             return Some(token);
         }
 
+        let before_whitespace = self.index;
         let indentation = self.skip_whitespace();
 
         let start = self.index;
@@ -473,7 +474,8 @@ impl Iterator for PythonTokenizer<'_> {
                     self.previous_token_was_newline = false;
                     return self.new_tok(start, false, TerminalType::Indent);
                 } else if let Some(token) = self.dedent_if_necessary(indentation) {
-                    self.index -= indentation;
+                    // There might be more dedents, look at the same whitespace again.
+                    self.index = before_whitespace;
                     return Some(token);
                 }
             }
-- 
2.43.0


From c37ced40344bce3d1721990292fd41528d616e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:49 +0000
Subject: [PATCH 09/58] fix: require a comma between positional and keyword
 class patterns

"case A(x y=1): ..." was accepted without an error, because the list of keyword
patterns in param_patterns did not start with a comma.
---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index d404f40..dc029f4 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -225,7 +225,7 @@ create_grammar!(
 
     class_pattern: dotted_pattern_name "(" param_patterns? ")"
     param_patterns:
-          ",".(pattern !"=")+ [",".(keyword_pattern)+] ","?
+          ",".(pattern !"=")+ ["," ",".(keyword_pattern)+] ","?
         | ",".(keyword_pattern)+ ","?
     keyword_pattern: Name "=" pattern
     dotted_pattern_name: [dotted_pattern_name "."] Name
-- 
2.43.0


From 5edeba7e6d777bf5a6b0c205ef125e0e4f01f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:37 +0000
Subject: [PATCH 10/58] fix: an optional part that starts with a repetition is
 not skippable half way

The states to skip [c+ b] were the ones the repetition of c returns to, so c
alone was accepted as well.
---
 crates/parsa/src/automaton.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parsa/src/automaton.rs b/crates/parsa/src/automaton.rs
index 99bb917..8018b72 100644
--- a/crates/parsa/src/automaton.rs
+++ b/crates/parsa/src/automaton.rs
@@ -298,9 +298,14 @@ impl RuleAutomaton {
                 (start, end)
             }
             Maybe(rule1) => {
+                // The states of the rule may be entered again if it starts with a repetition, so it
+                // needs its own start and end to skip it.
                 let (start, end) = build(self, rule1);
-                self.add_empty_transition(start, end);
-                (start, end)
+                let (new_start, new_end) = self.new_nfa_states();
+                self.add_empty_transition(new_start, start);
+                self.add_empty_transition(end, new_end);
+                self.add_empty_transition(new_start, new_end);
+                (new_start, new_end)
             }
             Multiple(rule1) => {
                 let (start, end) = build(self, rule1);
-- 
2.43.0


From b49c0072f5689143f8faabab38443b29be9f0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:10 +0000
Subject: [PATCH 11/58] fix: the prefix of an empty leaf at the start of a node
 is not empty

The whitespace and comments in front of an Indent that starts a broken scope,
and of the Endmarker of a file with nothing but comments, were reported as
empty, so a position in such a comment was not seen as being in a comment.
---
 crates/parsa/src/lib.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 723feeb..362f65d 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -176,13 +176,6 @@ macro_rules! __create_node {
                         start = node.start_index + node.length;
                         break
                     }
-                    if node.start_index >= self.internal_node.start_index + self.internal_node.length {
-                        let start = self.internal_node.start_index + self.internal_node.length;
-                        return self.code_slice(
-                            start,
-                            node.start_index,
-                        );
-                    }
                 }
                 self.code_slice(start, self.internal_node.start_index)
             }
-- 
2.43.0


From 960ad60cceaf335106c5e9c209550181957bbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:29 +0000
Subject: [PATCH 12/58] fix: a format spec may start after whitespace

In f"{x :>3}" the colon was not seen as the start of the format spec, because
it was only looked for directly after the previous token.
---
 crates/parsa_python/src/tokenizer.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 4db1ed1..f83b9d2 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -215,18 +215,7 @@ impl PythonTokenizer<'_> {
     fn handle_fstring_stack(&mut self) -> Option<PyTerminal> {
         let in_expr = self.f_string_tos().in_expr();
         if in_expr {
-            if *self.code.as_bytes().get(self.index)? == b':' {
-                let tos = self.f_string_tos();
-                if tos.parentheses_level - tos.format_spec_count == 1 {
-                    tos.format_spec_count += 1;
-                    self.index += 1;
-                    // We cannot just return None here, because otherwise := would be tokenized
-                    // the wrong way.
-                    return self.new_tok(self.index - 1, true, TerminalType::Operator);
-                }
-                // By returning here, we are making sure that the normal
-                // tokenizer returns the as an operator.
-            }
+            // The normal tokenizer returns the tokens of the expression.
             return None;
         }
         let c = code_from_start(self.code, self.index);
@@ -482,6 +471,16 @@ impl Iterator for PythonTokenizer<'_> {
             self.previous_token_was_newline = false;
         }
 
+        if c.starts_with(':')
+            && let Some(tos) = self.f_string_stack.last_mut()
+            && tos.in_expr()
+            && tos.parentheses_level - tos.format_spec_count == 1
+        {
+            // The format spec of an f-string starts here, := must not be tokenized as one token.
+            tos.format_spec_count += 1;
+            self.index += 1;
+            return self.new_tok(start, true, TerminalType::Operator);
+        }
         if let Some(match_) = NUMBER.find(c) {
             self.index += match_.end();
             return self.new_tok(start, false, TerminalType::Number);
-- 
2.43.0


From 9914a5f68595d0b90fef45d40874762e06d55455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:57 +0000
Subject: [PATCH 13/58] fix: many empty lines in brackets do not overflow the
 stack

---
 crates/parsa_python/src/tokenizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index f83b9d2..c8c1c46 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -568,6 +568,11 @@ impl Iterator for PythonTokenizer<'_> {
                 self.previous_token_was_newline = true;
                 return self.new_tok(start, false, TerminalType::Newline);
             } else {
+                // Skip all the lines without tokens at once, recursing for each of them might
+                // overflow the stack.
+                self.previous_token_was_newline = true;
+                self.skip_whitespace();
+                self.previous_token_was_newline = false;
                 return self.next();
             }
         }
-- 
2.43.0


From 37858aa542b18cdebdc31bad87b2c9a67c99bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:54 +0000
Subject: [PATCH 14/58] fix: keep the children that follow a reused node when
 an alternative fails

In broken match statements (`case a: b c`) the children after the pattern were
not reachable through the tree anymore.
---
 crates/parsa/src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 77337ee..9ca359c 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -361,6 +361,8 @@ impl<'a, T: Token> Grammar<T> {
                         let tos_mut = stack.tos_mut();
                         tos_mut.mode = alternative;
                         tos_mut.dfa_state = fallback_plan.next_dfa();
+                        // The children after the reused one are removed.
+                        tos_mut.latest_child_node_index = c;
                         stack.tree_nodes.truncate(last_leaf_index + 1);
                         // Make sure the tree nodes have the right size to overwrite them later.
                         // It doesn't matter where we insert/remove, everything should be
-- 
2.43.0


From 386ae40feae839069f2b24f2711c9210b97f680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 15/58] fix: error recovery does not take exponential time

For broken code with nested alternatives (`a(a(a(a(a(a(a(a(a(a(`) all the
combinations were tried, which took several seconds for ten brackets. Stop
trying alternatives if they do not get any further.
---
 crates/parsa/src/grammar.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 9ca359c..9b6b463 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -16,6 +16,8 @@ pub type NodeIndex = u32;
 pub type CodeIndex = u32;
 pub type CodeLength = u32;
 
+const MAX_RETRIES_WITHOUT_PROGRESS: usize = 10_000;
+
 pub trait Token: Copy + fmt::Debug {
     fn start_index(&self) -> u32;
     fn length(&self) -> u32;
@@ -150,6 +152,8 @@ impl fmt::Debug for StackNode<'_> {
 struct Stack<'a> {
     stack_nodes: Vec<StackNode<'a>>,
     tree_nodes: Vec<InternalNode>,
+    furthest_error_position: CodeIndex,
+    retries_without_progress: usize,
 }
 
 impl<'a, T: Token> Grammar<T> {
@@ -309,6 +313,16 @@ impl<'a, T: Token> Grammar<T> {
             return;
         }
 
+        // Trying all combinations of nested alternatives takes exponential time on broken code.
+        // Therefore stop trying once it does not get us any further.
+        let position = token.map_or(CodeIndex::MAX, |token| token.start_index());
+        if position > stack.furthest_error_position {
+            stack.furthest_error_position = position;
+            stack.retries_without_progress = 0;
+        }
+        stack.retries_without_progress += 1;
+        let try_alternatives = stack.retries_without_progress <= MAX_RETRIES_WITHOUT_PROGRESS;
+
         for (i, node) in stack.stack_nodes.iter().enumerate().rev() {
             let reset =
                 |backtracking: BacktrackingPoint,
@@ -323,6 +337,7 @@ impl<'a, T: Token> Grammar<T> {
                 };
             // (2)
             match node.mode {
+                _ if !try_alternatives => (),
                 ModeData::Alternative {
                     backtracking,
                     fallback_plan,
@@ -634,6 +649,8 @@ impl<'a> Stack<'a> {
         let mut stack = Stack {
             stack_nodes: vec![],
             tree_nodes: vec![],
+            furthest_error_position: 0,
+            retries_without_progress: 0,
         };
         // Just reserve enough so the vec contents don't need to be copied.
         stack.stack_nodes.reserve(128);
-- 
2.43.0


From ba7dcc26c43accaa765a970d44ae150e12fd0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:41 +0000
Subject: [PATCH 16/58] fix: a token that a negative lookahead rejects is not
 lost

In `(1:=2)` the `:=` was not part of the tree.
---
 crates/parsa/src/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 9b6b463..a672337 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -241,7 +241,10 @@ impl<'a, T: Token> Grammar<T> {
                     }
                 }
                 Some(plan) => {
-                    if plan.mode == PlanMode::PositivePeek {
+                    if plan.mode == PlanMode::PositivePeek
+                        || plan.next_dfa().is_negative_lookahead()
+                    {
+                        // Lookaheads do not consume the token.
                         let tos_mut = stack.tos_mut();
                         tos_mut.dfa_state = plan.next_dfa();
                     } else {
-- 
2.43.0


From e620ba10f326e7c4de025cfbc3da28c865ca0fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:39 +0000
Subject: [PATCH 17/58] fix: a search that finds the root does not run off the
 end of the tree

---
 crates/parsa/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 362f65d..60c9f97 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -528,7 +528,8 @@ macro_rules! __create_node {
                         }
                     }
                 }
-                unreachable!();
+                // The found node was the last one of the tree.
+                None
             }
         }
     }
-- 
2.43.0


From 47b04aeaf914d35c9bf4c39ed2348b2c2b4c5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:01 +0000
Subject: [PATCH 18/58] fix: replaying an alternative keeps the children in
 front of it

---
 crates/parsa/src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index a672337..d48a76e 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -476,7 +476,7 @@ impl<'a, T: Token> Grammar<T> {
                         let t = reset(backtracking, stack, backtracking_tokenizer);
                         // Pop the LastAlternative that is still on the stack.
                         stack.stack_nodes.pop();
-                        stack.tos_mut().children_count = 0;
+                        stack.tos_mut().children_count = backtracking.children_count;
                         self.apply_plan(
                             stack,
                             backtracking.replay_plan,
-- 
2.43.0


From f9add1b58b14c3ec8b77061ca61e4c7bc8401bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:17 +0000
Subject: [PATCH 19/58] fix: an unfinished common first node does not end all
 further alternatives

---
 crates/parsa/src/grammar.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index d48a76e..fb0a5e5 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -358,6 +358,13 @@ impl<'a, T: Token> Grammar<T> {
                         && let c = backtracking.tree_node_count
                         && let Some(nth) =
                             find_matching_node(&stack.tree_nodes[c..], last.node_type)
+                        // An unfinished first node is only the end of this if there are no
+                        // further alternatives that might not need it.
+                        && (stack.last_leaf_if_proper_nonterminal(c + nth).is_some()
+                            || reusable
+                                .pushes
+                                .iter()
+                                .all(|push| matches!(push.stack_mode, StackMode::LL)))
                     {
                         let reuse_node_index = c + nth;
                         debug_assert_eq!(
-- 
2.43.0


From 3663213f8063abb997e70ab2ddd78f00bd737ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 20/58] fix: a reused first node is one of the children

---
 crates/parsa/src/grammar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index fb0a5e5..94b82f5 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -387,6 +387,7 @@ impl<'a, T: Token> Grammar<T> {
                         tos_mut.mode = alternative;
                         tos_mut.dfa_state = fallback_plan.next_dfa();
                         // The children after the reused one are removed.
+                        tos_mut.children_count = backtracking.children_count + 1;
                         tos_mut.latest_child_node_index = c;
                         stack.tree_nodes.truncate(last_leaf_index + 1);
                         // Make sure the tree nodes have the right size to overwrite them later.
-- 
2.43.0


From 1e82bfeda33f6b9bbfaeea74e5d6891995da3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 21/58] fix: replaying in front of a reused node starts without
 children

---
 crates/parsa/src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 94b82f5..f6d54ad 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -441,7 +441,7 @@ impl<'a, T: Token> Grammar<T> {
                                             tree_node_count: tree_node_index,
                                             token_index: backtracking.token_index,
                                             replay_plan: unsafe { &**replay },
-                                            children_count: 1,
+                                            children_count: 0,
                                         },
                                         fallback_plan: unsafe { &**fallback },
                                         reusable_first_nonterminal,
-- 
2.43.0


From 6a3b28f13a91ae793abe530b8f5e0bac43b2a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 22/58] fix: a reused node does not keep its former next
 sibling

---
 crates/parsa/src/grammar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index f6d54ad..efbdf39 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -390,6 +390,7 @@ impl<'a, T: Token> Grammar<T> {
                         tos_mut.children_count = backtracking.children_count + 1;
                         tos_mut.latest_child_node_index = c;
                         stack.tree_nodes.truncate(last_leaf_index + 1);
+                        stack.tree_nodes[reuse_node_index].next_node_offset = 0;
                         // Make sure the tree nodes have the right size to overwrite them later.
                         // It doesn't matter where we insert/remove, everything should be
                         // overwritten.
-- 
2.43.0


From ced815ba5837c942370a6eb28da046220b8be261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:09 +0000
Subject: [PATCH 23/58] fix: states that are added while calculating plans get
 plans as well

---
 crates/parsa/src/automaton.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/automaton.rs b/crates/parsa/src/automaton.rs
index 8018b72..a7ee00f 100644
--- a/crates/parsa/src/automaton.rs
+++ b/crates/parsa/src/automaton.rs
@@ -780,7 +780,10 @@ pub fn generate_automatons(
     }
     // Optimize and calculate the rest of the plans
     for rule_label in &rule_labels {
-        for i in 1..automatons[rule_label].dfa_states.len() {
+        // Calculating the plans might add more states, they need plans as well.
+        let mut i = 0;
+        while i + 1 < automatons[rule_label].dfa_states.len() {
+            i += 1;
             let (plans, _) = plans_for_dfa(
                 nonterminal_map,
                 &keywords,
-- 
2.43.0


From d9bc09cb5a4ad47c5356750c4b67dad7a37de48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:09 +0000
Subject: [PATCH 24/58] fix: the alternatives around a failed alternative are
 tried before error recovery

---
 crates/parsa/src/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index efbdf39..4cd724b 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -501,7 +501,10 @@ impl<'a, T: Token> Grammar<T> {
                 ModeData::LL => (),
             }
 
-            if self.automatons[&node.node_id].does_error_recovery {
+            // The alternatives around this one come first.
+            if matches!(node.mode, ModeData::LL)
+                && self.automatons[&node.node_id].does_error_recovery
+            {
                 // (3) Mark tree nodes as failed and pop the stack nodes that failed.
                 while stack.stack_nodes.len() > i {
                     let stack_node = stack.stack_nodes.pop().unwrap();
-- 
2.43.0


From 3148b677f64653f2695dde289d3606739fb35ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:09 +0000
Subject: [PATCH 25/58] fix: the shared end state of a rule gets its plans

---
 crates/parsa/src/automaton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parsa/src/automaton.rs b/crates/parsa/src/automaton.rs
index a7ee00f..5f81f64 100644
--- a/crates/parsa/src/automaton.rs
+++ b/crates/parsa/src/automaton.rs
@@ -726,6 +726,9 @@ pub fn generate_automatons(
         let (start, end) = automaton.build(nonterminal_map, terminal_map, &mut keywords, rule);
         automaton.nfa_end_id = end;
         automaton.construct_powerset(start, end);
+        // The end might be used by other rules later, so it needs to be part of the plans.
+        let end_dfa = automaton.dfa_end_without_transitions();
+        automaton.construct_powerset_for_dfa(end_dfa, end);
         automaton.add_no_transition_dfa_if_necessary();
         automatons.insert(*internal_type, automaton);
     }
-- 
2.43.0


From 097ad714da12e29adbf022c9d247d2e01a0bf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:22 +0000
Subject: [PATCH 26/58] fix: an alternative of a reused node belongs to the
 tree node it is part of

---
 crates/parsa/src/grammar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 4cd724b..d296bf3 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -413,7 +413,11 @@ impl<'a, T: Token> Grammar<T> {
                         for push in reusable.pushes.iter() {
                             stack.stack_nodes.push(StackNode {
                                 node_id: push.node_type,
-                                tree_node_index,
+                                tree_node_index: match &push.stack_mode {
+                                    StackMode::LL => tree_node_index,
+                                    // Alternatives belong to the tree node they are part of.
+                                    StackMode::Alternative { .. } => stack.tos().tree_node_index,
+                                },
                                 latest_child_node_index: match &push.stack_mode {
                                     StackMode::LL => {
                                         if !push.next_dfa().node_may_be_omitted {
-- 
2.43.0


From 0847a189905d11bc7988f4873433814cd0e256e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:22 +0000
Subject: [PATCH 27/58] fix: left recursion ends all alternatives of the
 finished node

---
 crates/parsa/src/grammar.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index d296bf3..771765f 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -549,6 +549,12 @@ impl<'a, T: Token> Grammar<T> {
         token: &T,
         backtracking_tokenizer: &mut BacktrackingTokenizer<T, I>,
     ) {
+        if plan.mode == PlanMode::LeftRecursive {
+            // The old node is finished, so all of its alternatives are as well.
+            while !matches!(stack.tos().mode, ModeData::LL) {
+                self.end_of_node(stack, backtracking_tokenizer, stack.tos().mode);
+            }
+        }
         let tos_mut = stack.stack_nodes.last_mut().unwrap();
         tos_mut.dfa_state = plan.next_dfa();
         if tos_mut.dfa_state.is_negative_lookahead() {
-- 
2.43.0


From 01ff3a69992cbd93b757ea20a5da8b4e19967947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:22 +0000
Subject: [PATCH 28/58] fix: an alternative after a reused node counts the
 children in front of it

---
 crates/parsa/src/grammar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 771765f..7272794 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -434,7 +434,10 @@ impl<'a, T: Token> Grammar<T> {
                                     StackMode::Alternative { .. } => tree_node_index,
                                 },
                                 dfa_state: push.next_dfa(),
-                                children_count: 1,
+                                children_count: match &push.stack_mode {
+                                    StackMode::LL => 1,
+                                    StackMode::Alternative { .. } => stack.tos().children_count,
+                                },
                                 mode: match &push.stack_mode {
                                     StackMode::LL => ModeData::LL,
                                     StackMode::Alternative {
@@ -446,7 +449,7 @@ impl<'a, T: Token> Grammar<T> {
                                             tree_node_count: tree_node_index,
                                             token_index: backtracking.token_index,
                                             replay_plan: unsafe { &**replay },
-                                            children_count: 0,
+                                            children_count: stack.tos().children_count - 1,
                                         },
                                         fallback_plan: unsafe { &**fallback },
                                         reusable_first_nonterminal,
-- 
2.43.0


From 825d5894d5fd814dae694bbf6cd5fd80353c8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:51 +0000
Subject: [PATCH 29/58] fix: raw template strings are strings

---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index c8c1c46..1a4b43f 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -25,7 +25,7 @@ lazy_static::lazy_static! {
         "^".to_owned() + &or(&[&IMAG_NUMBER, &FLOAT_NUMBER, &INT_NUMBER])
     ));
 
-    static ref STRING: Regex = r(&all_string_regexes(&["", "[rR]", "[uU]", "[tT]"]));
+    static ref STRING: Regex = r(&all_string_regexes(&["", "[rR][tT]?", "[uU]", "[tT][rR]?"]));
     static ref BYTES: Regex = r(&all_string_regexes(&["[bB][rR]?", "[rR][bB]"]));
 
     // Because of leftmost-then-longest match semantics, be sure to put the
-- 
2.43.0


From fa2d8d5cfe88e76469d1903571d83c5f4bfb45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:55 +0000
Subject: [PATCH 30/58] fix: a backslash in an f-string joins lines that end
 with \r\n

---
 crates/parsa_python/src/tokenizer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1a4b43f..d75fe00 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -278,6 +278,10 @@ impl PythonTokenizer<'_> {
                     }
                     if next != '{' && next != '}' {
                         iterator.next();
+                        if next == '\r' {
+                            // "\r\n" is a single line ending
+                            iterator.next_if(|&(_, c)| c == '\n');
+                        }
 
                         if in_expr {
                             self.index += i + 2;
-- 
2.43.0


From 7e2160b95a8167bfb52cd1dcd702d73ff799da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:59 +0000
Subject: [PATCH 31/58] fix: a statement keyword in open brackets closes all
 deeper blocks

---
 crates/parsa_python/src/tokenizer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index d75fe00..4a9cda2 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -193,20 +193,23 @@ impl PythonTokenizer<'_> {
     #[inline]
     fn encountered_break_token(&mut self) -> Option<PyTerminal> {
         if self.parentheses_level != 0 || !self.f_string_stack.is_empty() {
-            self.parentheses_level = 0;
-            self.f_string_stack.clear();
-
             let mut indentation = 0;
             for character in self.code[..self.index].chars().rev() {
                 if character == ' ' || character == '\t' {
                     indentation += 1;
                 } else if character == '\n' || character == '\r' {
                     // We only want to dedent if the token is on a new line.
-                    return self.dedent_if_necessary(indentation);
+                    if let tok @ Some(_) = self.dedent_if_necessary(indentation) {
+                        // There might be more dedents, the token is checked again.
+                        return tok;
+                    }
+                    break;
                 } else {
-                    return None;
+                    break;
                 }
             }
+            self.parentheses_level = 0;
+            self.f_string_stack.clear();
         }
         None
     }
-- 
2.43.0


From 98cede970bfe8d176129025970492d2d59aaef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 32/58] fix: the content of a string in triple quotes does not
 contain quotes

---
 crates/parsa_python_cst/src/lib.rs | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5e252c6..9ba3fd3 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -4910,25 +4910,6 @@ impl<'db> BytesLiteral<'db> {
 impl<'db> StringLiteral<'db> {
     pub fn content(&self) -> &'db str {
         let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return &code[start + 3..code.len() - 3];
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
         let (start, end) = self.content_start_and_end_in_literal_internal();
         &code[start..end]
     }
@@ -4941,10 +4922,12 @@ impl<'db> StringLiteral<'db> {
         for (i, b) in bytes_.iter().enumerate() {
             if *b == b'"' || *b == b'\'' {
                 if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
+                    if *b != quote {
+                        break;
+                    }
+                    if i == start + 2 {
                         return (start + 3, code.len() - 3);
                     }
-                    break;
                 } else {
                     quote = Some(*b);
                 }
-- 
2.43.0


From b903cefac43208400fb57c05becdc3d913580821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:07 +0000
Subject: [PATCH 33/58] fix: line endings in bytes literals are read as \n

---
 crates/parsa_python_cst/src/bytes.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 9dc375a..fe5cb5d 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -7,10 +7,17 @@ use crate::strings::{parse_hex, parse_python_octal, unpack_string_or_bytes_conte
 pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     let code = literal.as_code();
     let unpacked = unpack_string_or_bytes_content(code);
-    let inner_bytes = unpacked.inner.as_bytes();
+    // Like in strings, Python reads all line endings as \n
+    let inner = if unpacked.inner.contains('\r') {
+        let normalized = unpacked.inner.replace("\r\n", "\n").replace('\r', "\n");
+        Cow::Owned(normalized.into_bytes())
+    } else {
+        Cow::Borrowed(unpacked.inner.as_bytes())
+    };
     if unpacked.had_raw_modifier {
-        return Cow::Borrowed(inner_bytes);
+        return inner;
     }
+    let inner_bytes = &*inner;
     let mut iterator = inner_bytes.iter().enumerate();
     let mut previous_insert = 0;
     let mut out = None;
@@ -61,6 +68,6 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
         out.extend_from_slice(&inner_bytes[previous_insert..inner_bytes.len()]);
         Cow::Owned(out)
     } else {
-        Cow::Borrowed(inner_bytes)
+        inner
     }
 }
-- 
2.43.0


From 175410adc5811de41f2e300eeaa70be2eceb3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:07 +0000
Subject: [PATCH 34/58] fix: dedent does not cut characters into pieces

---
 crates/utils/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 49faa1c..34f90d1 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -242,7 +242,8 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     let lines: &Vec<_> = &s.split('\n').collect();
     for line in lines {
         if !line.trim().is_empty() {
-            indent = std::cmp::min(indent, line.len() - line.trim_start().len());
+            let line_indent = line.chars().take_while(|c| c.is_whitespace()).count();
+            indent = std::cmp::min(indent, line_indent);
         }
     }
     if indent == usize::MAX {
@@ -251,8 +252,9 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     let new_lines: Vec<_> = lines
         .iter()
         .map(|line| {
-            if line.len() >= indent {
-                &line[indent..]
+            let mut chars = line.chars();
+            if indent > 0 && chars.nth(indent - 1).is_some() {
+                chars.as_str()
             } else {
                 line
             }
-- 
2.43.0


From 70a08807f81cbbc88df6d82075136178c60ad41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:07 +0000
Subject: [PATCH 35/58] fix: a blank docstring is cleaned to an empty one

---
 crates/parsa_python_cst/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index beb2235..c81cd13 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -275,7 +275,7 @@ impl<'db> Strings<'db> {
     pub fn clean_docstring(&self) -> Option<Cow<'db, str>> {
         let s = self.as_python_string().into_cow_str()?;
         Some(match dedent_cow(s) {
-            Cow::Borrowed(s) => Cow::Borrowed(s),
+            Cow::Borrowed(s) => Cow::Borrowed(s.trim()),
             Cow::Owned(mut s) => {
                 trim_string_in_place(&mut s);
                 Cow::Owned(s)
-- 
2.43.0


From 2e5c8e1b639abcfa8fc611e79113411eab60d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:08 +0000
Subject: [PATCH 36/58] fix: a raw template string is a template string

---
 crates/parsa_python_cst/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 9ba3fd3..0290c5a 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -4998,7 +4998,8 @@ impl<'db> Iterator for StringIterator<'db> {
             if n.is_type(Nonterminal(fstring)) {
                 StringType::FString(FString::new(n))
             } else {
-                if n.as_code().starts_with(['t', 'T']) {
+                let prefix = n.as_code().split(['\'', '"']).next().unwrap();
+                if prefix.contains(['t', 'T']) {
                     StringType::TemplateString(StringLiteral::new(n))
                 } else {
                     StringType::String(StringLiteral::new(n))
-- 
2.43.0


From ff8195b776761e7bff03b761ea0067de7ac29326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:40 +0000
Subject: [PATCH 37/58] fix: broken hexadecimal escapes do not swallow what
 follows or panic

---
 crates/parsa_python_cst/src/bytes.rs   |  3 ++-
 crates/parsa_python_cst/src/strings.rs | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index fe5cb5d..07d1918 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -35,9 +35,10 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
                 b'x' => {
-                    if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                    if let Some(c) = parse_hex(2, iterator.clone()) {
                         s.push(c as u8);
                         previous_insert += 2;
+                        iterator.nth(1);
                     }
                 }
                 b'a' => s.push(b'\x07'), // Bell
diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index c81cd13..3322448 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -67,18 +67,21 @@ impl<'db> PythonString<'db> {
                             }
                         }
                         b'u' => {
-                            if let Some(c) = parse_hex(4, iterator.by_ref()) {
-                                s.push(c)
+                            if let Some(c) = parse_hex(4, iterator.clone()) {
+                                s.push(c);
+                                iterator.nth(3);
                             }
                         }
                         b'U' => {
-                            if let Some(c) = parse_hex(8, iterator.by_ref()) {
-                                s.push(c)
+                            if let Some(c) = parse_hex(8, iterator.clone()) {
+                                s.push(c);
+                                iterator.nth(7);
                             }
                         }
                         b'x' => {
-                            if let Some(c) = parse_hex(2, iterator.by_ref()) {
-                                s.push(c)
+                            if let Some(c) = parse_hex(2, iterator.clone()) {
+                                s.push(c);
+                                iterator.nth(1);
                             }
                         }
                         b'N' => {
@@ -204,6 +207,7 @@ pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
     iterator: I,
 ) -> Option<char> {
     let mut number = 0;
+    let mut digits = 0;
     for (i, (_, x)) in iterator.take(count).enumerate() {
         let digit = if x.is_ascii_digit() {
             *x - b'0'
@@ -215,8 +219,10 @@ pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
             return None;
         };
         number += (digit as u32) << ((count - i - 1) * 4);
+        digits += 1;
     }
-    char::from_u32(number)
+    // An escape with too few digits is not valid
+    char::from_u32(number).filter(|_| digits == count)
 }
 
 pub(crate) fn parse_python_octal(x: &[u8]) -> Option<(usize, char)> {
-- 
2.43.0


From 01b4373ea4b434bf6e2cb00365c2f23d78cb07fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:06 +0000
Subject: [PATCH 38/58] fix: do not insert ignore comments inside of multiline
 f-strings

---
 crates/parsa_python_cst/src/code_actions.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/code_actions.rs b/crates/parsa_python_cst/src/code_actions.rs
index b5ada69..b37fba5 100644
--- a/crates/parsa_python_cst/src/code_actions.rs
+++ b/crates/parsa_python_cst/src/code_actions.rs
@@ -1,4 +1,8 @@
-use parsa_python::CodeIndex;
+use parsa_python::{
+    CodeIndex,
+    PyNodeType::{ErrorTerminal, Terminal},
+    TerminalType,
+};
 
 use crate::{Tree, TypeIgnoreComment};
 
@@ -55,7 +59,15 @@ impl Tree {
                 {
                     leaf = next
                 }
-                if leaf.end() > last_valid_position {
+                if leaf.end() > last_valid_position
+                    || leaf.next_leaf().is_some_and(|n| {
+                        use TerminalType::FStringString;
+                        matches!(
+                            n.type_(),
+                            Terminal(FStringString) | ErrorTerminal(FStringString)
+                        )
+                    })
+                {
                     return None;
                 }
 
-- 
2.43.0


From 407e7fc0044fa2e7d7ee56ad7e51f2ea4716c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:06 +0000
Subject: [PATCH 39/58] fix: positions of ignore comment codes after the first
 line

---
 crates/parsa_python_cst/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 0290c5a..368b6be 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -156,7 +156,6 @@ impl Tree {
                 }
                 start_at += comment.len() as CodeIndex + 1;
             }
-            start_at += 1;
         }
         result
     }
-- 
2.43.0


From 8154469802dddc0fad3ff4e6645d0012fc54e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:06 +0000
Subject: [PATCH 40/58] fix: tabs in ignore comments are blanks

---
 crates/parsa_python_cst/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 368b6be..f3b6020 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -123,13 +123,13 @@ impl Tree {
             let mut iterator = line.split('#');
             start_at += iterator.next().unwrap().len() as CodeIndex + 1;
             for comment in iterator {
-                let rest = comment.trim_start_matches(' ');
+                let rest = comment.trim_start_matches([' ', '\t']);
                 let mut kind = "type";
                 if let Some(ignore) = rest.strip_prefix("type:").or_else(|| {
                     kind = "zuban";
                     rest.strip_prefix("zuban:")
                 }) {
-                    let ignore = ignore.trim_start_matches(' ');
+                    let ignore = ignore.trim_start_matches([' ', '\t']);
                     let new = maybe_type_ignore(
                         kind,
                         start_at + (comment.len() - ignore.len()) as CodeIndex,
@@ -481,9 +481,9 @@ pub fn maybe_type_ignore<'db>(
     text: &'db str,
 ) -> Option<TypeIgnoreComment<'db>> {
     if let Some(after) = text.strip_prefix("ignore") {
-        let trimmed = after.trim_start_matches(' ');
+        let trimmed = after.trim_start_matches([' ', '\t']);
         let start_at = start_at + (text.len() - trimmed.len()) as CodeIndex;
-        let trimmed = trimmed.trim_end_matches(' ');
+        let trimmed = trimmed.trim_end_matches([' ', '\t']);
         if let Some(trimmed) = trimmed.strip_prefix('[')
             && let Some(trimmed) = trimmed.strip_suffix(']')
             && !trimmed.is_empty()
-- 
2.43.0


From 41ebd923781407cf11ff7b0935031688e34f556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:06 +0000
Subject: [PATCH 41/58] fix: a hash in a string does not start an ignore
 comment

---
 crates/parsa_python_cst/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index f3b6020..70273fe 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -111,13 +111,19 @@ impl Tree {
         } else {
             &code[start as usize..]
         };
-        Self::type_ignore_comment_for_region(start, relevant_region)
+        self.type_ignore_comment_for_region(start, relevant_region)
     }
 
-    fn type_ignore_comment_for_region(
+    fn type_ignore_comment_for_region<'x>(
+        &self,
         mut start_at: CodeIndex,
-        region: &str,
-    ) -> Option<TypeIgnoreComment<'_>> {
+        region: &'x str,
+    ) -> Option<TypeIgnoreComment<'x>> {
+        // A hash might also be part of e.g. a string, which does not start a comment.
+        let in_token = |hash: CodeIndex| {
+            let leaf = self.0.leaf_by_position(hash);
+            leaf.start() <= hash && hash < leaf.end()
+        };
         let mut result = None;
         for line in region.split(['\n', '\r']) {
             let mut iterator = line.split('#');
@@ -135,7 +141,9 @@ impl Tree {
                         start_at + (comment.len() - ignore.len()) as CodeIndex,
                         ignore,
                     );
-                    if let Some(new) = new {
+                    if let Some(new) = new
+                        && !in_token(start_at - 1)
+                    {
                         if let Some(old) = &mut result {
                             match (old, new) {
                                 (
@@ -161,7 +169,7 @@ impl Tree {
     }
 
     pub fn has_type_ignore_at_start(&self) -> Result<bool, &str> {
-        match Self::type_ignore_comment_for_region(0, self.before_first_statement()) {
+        match self.type_ignore_comment_for_region(0, self.before_first_statement()) {
             Some(TypeIgnoreComment::WithCodes { codes: code, .. }) => Err(code),
             Some(TypeIgnoreComment::WithoutCode) => Ok(true),
             None => Ok(false),
-- 
2.43.0


From 812b824aadb673518f151c8ed09c894ee429a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:06 +0000
Subject: [PATCH 42/58] fix: a selection at the start of a line does not select
 the line before

---
 crates/parsa_python_cst/src/ranges.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index 3f50797..a2965ca 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -18,9 +18,11 @@ impl Tree {
     fn initial_node_for_selection_ranges(&self, position: CodeIndex) -> PyNode<'_> {
         let mut node = self.0.leaf_by_position(position);
         if node.start() == position
-            && (node.type_() == PyNodeType::Keyword || node.as_code().ends_with("\n"))
+            && (node.type_() == PyNodeType::Keyword || node.as_code().ends_with(['\n', '\r']))
             && let Some(previous) = node.previous_leaf()
             && previous.end() == position
+            // Newlines, indents and dedents belong to other lines
+            && !previous.as_code().trim_end_matches(['\n', '\r']).is_empty()
         {
             node = previous
         }
-- 
2.43.0


From 6d473ee6369e8c5d3147ad071b91fbad50deefb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:06 +0000
Subject: [PATCH 43/58] fix: selection ranges never shrink

---
 crates/parsa_python_cst/src/ranges.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index a2965ca..8c82bce 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -137,6 +137,13 @@ impl Iterator for SelectionRanges<'_> {
                 range.start -= before_node_code.len() as CodeIndex - prefix_n as CodeIndex - 1;
             }
         }
+        if let Some(previous) = self.previous {
+            // The start of a statement might be in front of its (error recovery) parents.
+            range.start = range.start.min(previous.start);
+            if previous == range {
+                return self.next();
+            }
+        }
         match node.type_() {
             PyNodeType::Terminal(
                 TerminalType::Operator
-- 
2.43.0


From f217b07e524c1478e219a27619bdbcfe890a8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:27 +0000
Subject: [PATCH 44/58] fix: creating a license for too many days overflowed

---
 crates/licensing/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/licensing/src/lib.rs b/crates/licensing/src/lib.rs
index d47843f..1aa4bc4 100644
--- a/crates/licensing/src/lib.rs
+++ b/crates/licensing/src/lib.rs
@@ -188,7 +188,10 @@ pub fn create_license(
 ) -> anyhow::Result<String> {
     let valid_from = SystemTime::now();
     const DAY: u64 = 60 * 60 * 24;
-    let valid_until = valid_from + Duration::from_secs(days * DAY);
+    let valid_until = days
+        .checked_mul(DAY)
+        .and_then(|secs| valid_from.checked_add(Duration::from_secs(secs)))
+        .ok_or_else(|| anyhow::anyhow!("{days} days are too many"))?;
     let mut license = License::create(
         name,
         email,
-- 
2.43.0


From d7c0b8be726081e94ba8515bb6bc002ffded5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:27 +0000
Subject: [PATCH 45/58] verif: hook to sign and verify licenses with given keys
 and times (cfg zuban_verif)

---
 crates/licensing/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/licensing/src/lib.rs b/crates/licensing/src/lib.rs
index 1aa4bc4..fd348a9 100644
--- a/crates/licensing/src/lib.rs
+++ b/crates/licensing/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 use std::num::ParseIntError;
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
@@ -220,6 +221,23 @@ pub fn hex_string_key_to_bytes(s: String) -> anyhow::Result<[u8; PUBLIC_KEY_LENG
         })
 }
 
+#[cfg(zuban_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Signs a license given as JSON
+    pub fn sign(json: &str, private_key: &[u8; 32]) -> anyhow::Result<String> {
+        let mut license = License::from_json(json)?;
+        license.sign(private_key)?;
+        Ok(license.to_json())
+    }
+
+    /// Verifies a license given as JSON at a certain time
+    pub fn verify(json: &str, now: SystemTime, keys: &[[u8; 32]]) -> anyhow::Result<bool> {
+        License::from_json(json)?.verify_with_keys(now, keys.iter())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6f000e2205e97327f618346bb588786e4eee59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:34 +0000
Subject: [PATCH 46/58] fix: parentheses of classes without arguments or with
 type parameters

---
 crates/parsa_python_cst/src/lib.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 70273fe..40e9829 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -2395,16 +2395,13 @@ impl<'db> ClassDef<'db> {
     }
 
     pub fn closing_and_opening_parentheses(&self) -> Option<std::ops::Range<CodeIndex>> {
-        let mut iterator = self.node.iter_children().skip(2);
-        let mut opening_paren = iterator.next().unwrap();
-        if opening_paren.as_code() != "(" {
-            if opening_paren.is_type(Nonterminal(type_params)) {
-                opening_paren = iterator.next().unwrap();
-            } else {
-                return None;
-            }
-        }
-        let closing_paren = iterator.skip(1).next().unwrap();
+        // [type_params] ["(" [arguments] ")"] ":" block
+        let mut parens = self
+            .node
+            .iter_children()
+            .filter(|n| n.is_leaf() && matches!(n.as_code(), "(" | ")"));
+        let opening_paren = parens.next()?;
+        let closing_paren = parens.next()?;
         Some(opening_paren.start()..closing_paren.end())
     }
 
-- 
2.43.0


From 227710d668f7278ffeda10a70a9cd67ca2f898f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:34 +0000
Subject: [PATCH 47/58] fix: items of an async with statement were never found
 to be async

---
 crates/parsa_python_cst/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 40e9829..b1efd74 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -1778,8 +1778,10 @@ impl<'db> WithItem<'db> {
     }
 
     pub fn in_async_with_stmt(&self) -> bool {
+        // with_item -> with_items -> with_stmt
         let with = self.node.parent().unwrap().parent().unwrap();
-        with.is_type(Nonterminal(async_stmt))
+        with.parent()
+            .is_some_and(|n| n.is_type(Nonterminal(async_stmt)))
     }
 }
 
-- 
2.43.0


From 0e63aa16eb64dc44efb849ef7c38668670f26717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:24 +0000
Subject: [PATCH 48/58] fix: names defined within the index of an assigned item
 were no names of the function

---
 crates/parsa_python_cst/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index b1efd74..e53434f 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -2577,11 +2577,13 @@ impl<'db> FunctionDef<'db> {
             Nonterminal(function_def),
             Nonterminal(class_def),
             Nonterminal(lambda),
-            Nonterminal(t_primary),
         ];
         for node in self.body().node.search(SEARCH_NAME_DEFS, true) {
             if node.is_type(Nonterminal(name_def)) {
-                callback(NameDef::new(node))
+                let name_d = NameDef::new(node);
+                if !matches!(name_d.parent(), NameDefParent::Primary) {
+                    callback(name_d)
+                }
             } else if node.is_type(Nonterminal(function_def)) {
                 callback(FunctionDef::new(node).name_def())
             } else if node.is_type(Nonterminal(class_def)) {
-- 
2.43.0


From 6ad002cabf7ca786694c177735867cde3583181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 49/58] fix: signatures of calls on attributes in a target do
 not panic

---
 crates/parsa_python_cst/src/signatures.rs | 13 ++++++++++---
 crates/zuban_python/src/signatures.rs     | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/signatures.rs b/crates/parsa_python_cst/src/signatures.rs
index eb30887..0465b53 100644
--- a/crates/parsa_python_cst/src/signatures.rs
+++ b/crates/parsa_python_cst/src/signatures.rs
@@ -7,7 +7,7 @@ use parsa_python::{
 };
 
 use crate::{
-    AtomContent, Expression, ExpressionPart, Name, PrimaryTargetOrAtom, Scope, Tree,
+    AtomContent, Expression, ExpressionPart, Name, PrimaryTarget, PrimaryTargetOrAtom, Scope, Tree,
     completion::scope_for_node,
 };
 
@@ -15,7 +15,7 @@ impl Tree {
     pub fn signature_node(
         &self,
         position: CodeIndex,
-    ) -> Option<(Scope<'_>, ExpressionPart<'_>, SignatureArgsIterator<'_>)> {
+    ) -> Option<(Scope<'_>, SignatureBase<'_>, SignatureArgsIterator<'_>)> {
         let mut leaf = self.0.leaf_by_position(position);
         if leaf.start() == position {
             leaf = leaf.previous_leaf()?;
@@ -49,7 +49,13 @@ impl Tree {
             if maybe_paren.as_code() != "(" || maybe_paren.end() > position {
                 continue;
             }
-            let base = ExpressionPart::new(first);
+            let base = if first.is_type(Nonterminal(t_primary)) {
+                SignatureBase::PrimaryTargetOrAtom(PrimaryTargetOrAtom::PrimaryTarget(
+                    PrimaryTarget::new(first),
+                ))
+            } else {
+                SignatureBase::ExpressionPart(ExpressionPart::new(first))
+            };
             let Some(maybe_args) = iterator.next() else {
                 return Some((
                     scope,
@@ -175,6 +181,7 @@ impl<'db> Iterator for SignatureArgsIterator<'db> {
     }
 }
 
+#[derive(Debug, Clone, Copy)]
 pub enum SignatureBase<'db> {
     ExpressionPart(ExpressionPart<'db>),
     PrimaryTargetOrAtom(PrimaryTargetOrAtom<'db>),
diff --git a/crates/zuban_python/src/signatures.rs b/crates/zuban_python/src/signatures.rs
index 759fc2a..67053ad 100644
--- a/crates/zuban_python/src/signatures.rs
+++ b/crates/zuban_python/src/signatures.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use parsa_python_cst::{ExpressionPart, SignatureArg, SignatureArgsIterator};
+use parsa_python_cst::{SignatureArg, SignatureArgsIterator, SignatureBase};
 
 use crate::{
     InputPosition,
@@ -19,7 +19,7 @@ use crate::{
 };
 
 struct SignatureInfo<'db> {
-    base: ExpressionPart<'db>,
+    base: SignatureBase<'db>,
     args: SignatureArgsIterator<'db>,
 }
 
@@ -67,7 +67,14 @@ impl<'db> SignatureResolver<'db> {
         let _indent = debug_indent();
         Ok(infos.map(|infos| {
             with_i_s_non_self(db, file, infos.scope, |i_s| {
-                let base = file.inference(i_s).infer_expression_part(infos.node.base);
+                let base = match infos.node.base {
+                    SignatureBase::ExpressionPart(part) => {
+                        file.inference(i_s).infer_expression_part(part)
+                    }
+                    SignatureBase::PrimaryTargetOrAtom(target) => {
+                        infos.infer_primary_target_or_atom(target)
+                    }
+                };
                 let mut slf = Self {
                     signatures: Default::default(),
                     infos,
-- 
2.43.0


From debbe84060f3ef3746584e99b58a7ea82cd32f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 50/58] fix: signatures are found in the space behind what is
 written

---
 crates/parsa_python_cst/src/signatures.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/signatures.rs b/crates/parsa_python_cst/src/signatures.rs
index 0465b53..444ee04 100644
--- a/crates/parsa_python_cst/src/signatures.rs
+++ b/crates/parsa_python_cst/src/signatures.rs
@@ -17,7 +17,7 @@ impl Tree {
         position: CodeIndex,
     ) -> Option<(Scope<'_>, SignatureBase<'_>, SignatureArgsIterator<'_>)> {
         let mut leaf = self.0.leaf_by_position(position);
-        if leaf.start() == position {
+        while leaf.start() >= position {
             leaf = leaf.previous_leaf()?;
         }
         let mut next_stmt = None;
-- 
2.43.0


From 663ba972e4c7919ff2a5026db3881d9c37f7a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 51/58] fix: the end of a comment behind code is still in the
 comment, and \r ends one

---
 crates/parsa_python_cst/src/completion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 4093541..0404ab0 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -406,7 +406,7 @@ pub(crate) fn scope_for_node<'db>(node: PyNode<'db>) -> Scope<'db> {
 }
 
 fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(CodeIndex, &str)> {
-    if after_node.start() <= position {
+    if after_node.start() < position {
         return None;
     }
     let prefix = after_node.prefix_to_previous_leaf();
@@ -421,7 +421,7 @@ fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(Code
                 }
                 comment_start = Some(i);
             }
-            b'\n' => {
+            b'\n' | b'\r' => {
                 if let Some(comment_start) = comment_start
                     && position_in_prefix as usize <= i
                 {
-- 
2.43.0


From f5b62bc93b57b1047549cbaa2aa61faf867620d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 52/58] fix: the arguments of an outer call are not those of
 the inner one

---
 crates/parsa_python_cst/src/completion.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 0404ab0..656732f 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -301,12 +301,17 @@ fn context(node: PyNode) -> Option<CompletionContext> {
 }
 
 fn call_args(node: PyNode) -> Option<CallArgs> {
-    let args = node.parent_until(&[
-        Nonterminal(arguments),
-        ErrorNonterminal(arguments),
-        Nonterminal(stmt),
-        ErrorNonterminal(stmt),
-    ])?;
+    let args = if node.as_code() == "(" {
+        // The parents might be the arguments of an outer call
+        node.next_sibling()?
+    } else {
+        node.parent_until(&[
+            Nonterminal(arguments),
+            ErrorNonterminal(arguments),
+            Nonterminal(stmt),
+            ErrorNonterminal(stmt),
+        ])?
+    };
     args.is_type_or_error_thereof(Nonterminal(arguments))
         .then_some(CallArgs(args))
 }
-- 
2.43.0


From 53f72fceacafa5fcef70b6bd7e48ee24ad67b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 53/58] fix: names of relative imports and all modules of an
 import are completed

---
 crates/parsa_python_cst/src/completion.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 656732f..3076bdb 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -149,13 +149,10 @@ impl Tree {
                     }
                 }
                 "import" => {
-                    if let Some(before_imp) = previous.previous_sibling() {
-                        if before_imp.is_type(Nonterminal(dotted_import_name)) {
-                            return (
-                                scope,
-                                import_from_target_node(before_imp.parent().unwrap()),
-                                rest,
-                            );
+                    if previous.previous_sibling().is_some() {
+                        let parent = previous.parent().unwrap();
+                        if parent.is_type_or_error_thereof(Nonterminal(import_from)) {
+                            return (scope, import_from_target_node(parent), rest);
                         }
                     } else {
                         return (scope, CompletionNode::ImportName { path: None }, rest);
@@ -181,6 +178,9 @@ impl Tree {
                         return (scope, CompletionNode::NecessaryKeyword("import"), rest);
                     }
                 }
+                Nonterminal(dotted_as_names) | ErrorNonterminal(dotted_as_names) => {
+                    return (scope, CompletionNode::ImportName { path: None }, rest);
+                }
                 Nonterminal(import_from_targets) | ErrorNonterminal(import_from_targets) => {
                     return (
                         scope,
-- 
2.43.0


From 698e158e91cda6848a6777e23798ca42168aae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 54/58] fix: attributes of unfinished targets are completed

---
 crates/parsa_python/src/lib.rs            | 2 +-
 crates/parsa_python_cst/src/completion.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index dc029f4..2227a5b 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -433,7 +433,7 @@ create_grammar!(
     // Targets for del statements
     // --------------------------
 
-    del_targets: ",".(t_primary | name_def | del_t_atom)+ [","]
+    del_targets: ",".(t_primary | name_def !("."|"["|"(") | del_t_atom)+ [","]
     del_t_atom: "(" [del_targets] ")" | "[" [del_targets] "]"
 
 );
diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 3076bdb..47db010 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -70,6 +70,10 @@ impl Tree {
                             base = Some(PrimaryOrAtom::Atom(Atom::new(before_dot)))
                         } else if before_dot.is_type(Nonterminal(primary)) {
                             base = Some(PrimaryOrAtom::Primary(Primary::new(before_dot)))
+                        } else if before_dot.is_type(Nonterminal(t_primary)) {
+                            let base =
+                                PrimaryTargetOrAtom::PrimaryTarget(PrimaryTarget::new(before_dot));
+                            return (scope, CompletionNode::PrimaryTarget { base }, rest);
                         } else if before_dot.is_type(Nonterminal(dotted_import_name)) {
                             let before_import_names = before_dot.previous_leaf().unwrap();
                             if before_import_names.as_code() == "." {
-- 
2.43.0


From d985eee55fc9891994590453bd6a08c864f88310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 55/58] fix: the space in front of a string is not in the
 string

---
 crates/parsa_python_cst/src/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 47db010..230328e 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -57,7 +57,7 @@ impl Tree {
             );
         }
 
-        if leaf.is_type(PyNodeType::Terminal(TerminalType::String)) {
+        if leaf.start() <= position && leaf.is_type(PyNodeType::Terminal(TerminalType::String)) {
             return (scope, CompletionNode::InsideString, rest);
         }
 
-- 
2.43.0


From 05248ebe5f5e2adfd2989ee3a441177dde4902bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 56/58] fix: completions directly behind an operator with space
 behind it

---
 crates/parsa_python_cst/src/completion.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 230328e..bc5e181 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -33,20 +33,15 @@ impl Tree {
                 leaf = n;
             }
         }
-        if leaf.end() == position && leaf.as_code() == "." {
-            leaf = leaf.next_leaf().unwrap();
-        }
-        let scope = scope_for_node(leaf);
-        let rest_node = if leaf.end() == position
+        if leaf.end() == position
             && is_control(leaf)
             && let Some(n) = leaf.next_leaf()
         {
-            n
-        } else {
-            leaf
-        };
-        let rest = RestNode::new(self, rest_node, position);
-        if let Some((comment_start, comment)) = maybe_in_comment(rest_node, position) {
+            leaf = n;
+        }
+        let scope = scope_for_node(leaf);
+        let rest = RestNode::new(self, leaf, position);
+        if let Some((comment_start, comment)) = maybe_in_comment(leaf, position) {
             return (
                 scope,
                 CompletionNode::InsideComment {
-- 
2.43.0


From 57d15352191fb31f94358dfb995042ef789684b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 57/58] fix: stars and decorators are no operators to go to

---
 crates/parsa_python_cst/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index e53434f..7e249fc 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -354,6 +354,8 @@ impl Tree {
                             "+" if previous.is_none() => "__pos__",
                             "-" if previous.is_none() => "__neg__",
                             "~" if previous.is_none() => "__invert__",
+                            // E.g. unpacking or decorators
+                            _ if previous.is_none() => return GotoNode::None,
 
                             "+" => "__add__",
                             "-" => "__sub__",
-- 
2.43.0


From 9a9997887b0d50abde1cd3a41ef7795ab9572d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 58/58] fix: empty tokens do not hide the symbol behind them

---
 crates/parsa_python_cst/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 7e249fc..ba5525d 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -213,6 +213,7 @@ impl Tree {
         if left.start() == position {
             if let Some(n) = left.previous_leaf()
                 && n.end() == position
+                && n.start() != position
             {
                 left = n;
             }
-- 
2.43.0

