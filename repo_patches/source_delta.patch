From 88fb7d68d28a2e1fe425d997d0ad0aa06d0b2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:01 +0000
Subject: [PATCH 01/20] fix: reject inverted and oversized ranges in command
 arguments

`TextRange::new` panics if `start > end`, so a `codeAction/resolve` or `workspace/executeCommand`
request with an inverted range terminated the server (offsets above `u32::MAX` were also truncated).
---
 crates/lsp-server/src/dispatch/handlers/request.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..5210c94 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,11 +322,10 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
-        .map(|(start, end)| {
-            ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
-            )
+        .and_then(|(start, end)| {
+            let start = u32::try_from(start).ok()?;
+            let end = u32::try_from(end).ok()?;
+            (start <= end).then(|| ink_analyzer::TextRange::new(start.into(), end.into()))
         })
 }
 
-- 
2.43.0


From 1f7f61a7427e5203b594f250ad6991b5dae5783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:13 +0000
Subject: [PATCH 02/20] fix: keep translated positions inside their line and on
 character boundaries

`LineIndex::offset` adds the column without any checks, so a position past the end of a line was
translated to an offset in another line or past the end of the document (or overflowed), and a position
inside a multi-byte character to an offset that's not a character boundary, all of which make the
analysis panic. Per the LSP specification, the column defaults back to the line length.
---
 crates/lsp-server/src/translator/from_lsp.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..8f36696 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -31,7 +31,20 @@ pub fn offset(
         }
     };
 
-    context.line_index.offset(line_col)
+    // Positions past the end of the line default back to the line length.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let line_start = |line| context.line_index.offset(LineCol { line, col: 0 });
+    let start = line_start(line_col.line)?;
+    let end = line_col
+        .line
+        .checked_add(1)
+        .and_then(line_start)
+        .map(|next_start| next_start - ink_analyzer::TextSize::of('\n'))
+        .unwrap_or_else(|| context.line_index.len());
+    let offset = start + ink_analyzer::TextSize::from(line_col.col).min(end - start);
+
+    // Rejects positions in the middle of a character.
+    context.line_index.try_line_col(offset).map(|_| offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From bbf486676f45daca94a58ce4faae0d39c9e27d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:22 +0000
Subject: [PATCH 03/20] fix: don't panic for offsets outside the bounds of the
 source code

e.g. extracting an event for an empty range past the end of the document terminated the server.
---
 crates/ir/src/tree/item_at_offset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/item_at_offset.rs b/crates/ir/src/tree/item_at_offset.rs
index 0f71e4f..aea8726 100644
--- a/crates/ir/src/tree/item_at_offset.rs
+++ b/crates/ir/src/tree/item_at_offset.rs
@@ -18,7 +18,12 @@ impl ItemAtOffset {
     /// Creates a representation of a token in the subtree that covers the offset.
     pub fn new(node: &SyntaxNode, offset: TextSize) -> Self {
         Self {
-            token_at_offset: node.token_at_offset(offset),
+            // Ensures the offset is in the bounds of the source code.
+            token_at_offset: if node.text_range().contains_inclusive(offset) {
+                node.token_at_offset(offset)
+            } else {
+                TokenAtOffset::None
+            },
             offset,
         }
     }
-- 
2.43.0


From ad43f511503cfe59b9707951ca278c48697dea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:36 +0000
Subject: [PATCH 04/20] fix: don't end the session because of a notification
 with invalid parameters

---
 crates/lsp-server/src/dispatch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..e2907a8 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -52,7 +52,11 @@ pub fn main_loop(
                 }
 
                 // Handles all other notifications using the dispatcher.
-                dispatcher.handle_notification(not)?;
+                // Notifications don't have responses, so a notification that can't be handled
+                // (e.g. because of invalid parameters) is only reported and shouldn't end the session.
+                if let Err(error) = dispatcher.handle_notification(not) {
+                    eprintln!("Failed to handle notification: {error}");
+                }
             }
             // Handles responses to requests initiated by the server (e.g workspace edits).
             lsp_server::Message::Response(resp) => dispatcher.handle_response(resp)?,
-- 
2.43.0


From 96cc0bb0722ac60ebaead8512851d2ef2bc0be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:36 +0000
Subject: [PATCH 05/20] fix: handle columns way past the end of lines with
 non-ASCII characters

A position with a column close to the maximum value (which some clients use for "end of line")
made the wide encoding translation overflow for lines with non-ASCII characters, so that requests failed
instead of the column defaulting back to the line length.
---
 crates/lsp-server/src/translator/from_lsp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index 8f36696..15752b4 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -22,7 +22,14 @@ pub fn offset(
         } else {
             WideEncoding::Utf16
         };
-        context.line_index.to_utf8(wide_encoding, wide_line_col)?
+        // `None` is only returned if the column overflows (i.e. it's way past the end of the line).
+        context
+            .line_index
+            .to_utf8(wide_encoding, wide_line_col)
+            .unwrap_or(LineCol {
+                line: position.line,
+                col: u32::MAX,
+            })
     } else {
         // Handles uft-8 position encoding.
         LineCol {
-- 
2.43.0


From 6512fb76f8d36cd390cd0dd4c72554e8640d42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:20 +0000
Subject: [PATCH 06/20] fix: migrate projects that inherit ink! from their
 workspace

Keeping 'workspace = true' next to the upgraded version means that the
version is ignored (i.e. the project isn't actually migrated).
---
 crates/lsp-server/src/dispatch/handlers/command.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..46b4f4e 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -306,6 +306,8 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
     let new_ink_dep_value = match ink_dep {
         toml_edit::Item::Table(ink_dep_value) => {
             let mut new_ink_dep_value = ink_dep_value.clone();
+            // Workspace inheritance would override the upgraded version.
+            new_ink_dep_value.remove("workspace");
             new_ink_dep_value.insert(
                 "version",
                 toml_edit::Item::Value(toml_edit::Value::from("5.0.0")),
@@ -320,6 +322,8 @@ fn migrate_cargo_toml(input: &str) -> anyhow::Result<String> {
         }
         toml_edit::Item::Value(toml_edit::Value::InlineTable(ink_dep_value)) => {
             let mut new_ink_dep_value = ink_dep_value.clone();
+            // Workspace inheritance would override the upgraded version.
+            new_ink_dep_value.remove("workspace");
             new_ink_dep_value.insert("version", toml_edit::Value::from("5.0.0"));
             if !new_ink_dep_value.contains_key("default-features") {
                 new_ink_dep_value.insert("default-features", toml_edit::Value::from(false));
-- 
2.43.0


From 3fecc800516d5715623d5b9dd016a0be4eaad55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 07/20] fix: find workspace dependencies of packages that are
 the workspace root

---
 crates/lsp-server/src/dispatch.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index e2907a8..6f0258d 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -433,6 +433,13 @@ fn parse_ink_project_version(doc_uri: &lsp_types::Url) -> Option<InkProjectVersi
                 let is_workspace_dependency =
                     project_version.as_ref().is_some_and(|it| it.workspace);
                 if is_workspace_dependency {
+                    // The package may also be the workspace root.
+                    let root_project_version =
+                        parse_ink_project_version_inner(&cargo_toml_path, true);
+                    if root_project_version.is_some() {
+                        return root_project_version;
+                    }
+
                     // Finds `Cargo.toml` in workspace root directory (if any).
                     let mut parent_dir = cargo_toml_path.clone();
                     parent_dir.pop();
-- 
2.43.0


From e31b9f9e5b22e15ba7aefb05738f3515b3d05bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:34 +0000
Subject: [PATCH 08/20] fix: detect ink! 5 requirements like `5` and don't
 mistake `4.5.x` or `<5.0` for ink! 5

---
 crates/lsp-server/src/dispatch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 6f0258d..aeb9ccb 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -555,7 +555,10 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
+    // Matches comparators for `5`, `5.x` and `5.x.x`, and upper bounds that are greater than `5.0.0`.
+    static RE: Lazy<Regex> = Lazy::new(|| {
+        Regex::new(r"(^|,)\s*(([\^~=>]|>=|<=)?\s*5\s*(\.|,|$)|<\s*5\.(0\.)?0*[1-9])").unwrap()
+    });
     RE.is_match(text)
 }
 
-- 
2.43.0


From 80984e1cae2b88a78c3aff445db374bebf82f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:27 +0000
Subject: [PATCH 09/20] fix: text range of a name-value argument covers all of
 its parts

A nested item that precedes an invalid name made the range's start exceed
its end, which panics in TextRange::new.
---
 crates/ir/src/attrs/meta.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..387b82f 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -125,10 +125,9 @@ impl MetaNameValue {
         let mut end: Option<TextSize> = None;
 
         let mut update_start_and_end = |range: TextRange| {
-            if start.is_none() {
-                start = Some(range.start());
-            }
-            end = Some(range.end());
+            // Parts aren't necessarily in source order (e.g. a nested item may precede an invalid name).
+            start = Some(start.map_or(range.start(), |start| start.min(range.start())));
+            end = Some(end.map_or(range.end(), |end| end.max(range.end())));
         };
 
         let get_items_text_range = |items: &[SyntaxElement]| -> Option<TextRange> {
-- 
2.43.0


From c03f2d48803c6e931b2fde0bbf88c95962eb4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:27 +0000
Subject: [PATCH 10/20] fix: parse attribute argument values that contain
 comments

Trivia was kept verbatim when the value was re-parsed as an expression, so
a comment next to the value hid it.
---
 crates/ir/src/attrs/meta/value.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 12fe0ec..497a8fe 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -61,7 +61,17 @@ impl MetaValue {
             // Ref: <https://doc.rust-lang.org/reference/expressions/path-expr.html>.
             // NOTE: `_` is already handled as a token above, so underscore expressions are ignored.
             // Ref: <https://doc.rust-lang.org/reference/expressions/underscore-expr.html>.
-            let arg_text = elems.iter().map(ToString::to_string).join("");
+            // Comments are equivalent to whitespace.
+            let arg_text = elems
+                .iter()
+                .map(|elem| {
+                    if elem.kind().is_trivia() {
+                        " ".to_owned()
+                    } else {
+                        elem.to_string()
+                    }
+                })
+                .join("");
             if let Some(expr) = ra_ap_syntax::hacks::parse_expr_from_str(&arg_text) {
                 if matches!(expr, ast::Expr::Literal(_) | ast::Expr::PathExpr(_)) {
                     return Some(Self {
-- 
2.43.0


From 4405df5aa88afe1113b3e5fbd92ab8bfe9e03977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:53 +0000
Subject: [PATCH 11/20] fix: read integer arguments with separators, suffixes,
 octal or binary digits

ink! reads them with syn's base10_parse, which accepts all integer literals.
---
 crates/ir/src/attrs/meta/value.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 497a8fe..6038fc7 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -163,22 +163,18 @@ impl MetaValue {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a integer.
+    /// Converts the value if it's an integer literal into a integer.
     pub fn as_int<T>(&self) -> Option<T>
     where
         T: IsIntId,
     {
-        if self.kind() == SyntaxKind::INT_NUMBER {
-            let value = self.to_string();
-            if value.starts_with("0x") {
-                // Parse as hex.
-                T::from_str_radix(value.strip_prefix("0x").unwrap(), 16).ok()
-            } else {
-                // Parse as decimal.
-                value.parse::<T>().ok()
-            }
-        } else {
-            None
+        match self.expr.as_ref()? {
+            ast::Expr::Literal(lit) => match lit.kind() {
+                // Handles any radix, digit separators and type suffixes.
+                ast::LiteralKind::IntNumber(int) => int.value().ok()?.to_string().parse().ok(),
+                _ => None,
+            },
+            _ => None,
         }
     }
 
-- 
2.43.0


From 9e2d78362f53ff13940c5a16e43f44d189dfe31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:53 +0000
Subject: [PATCH 12/20] fix: read string arguments with escapes and raw string
 arguments

Raw strings kept their prefix and strings with escaped quotes were cut off.
---
 crates/ir/src/attrs/meta/value.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 6038fc7..ae51735 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -189,14 +189,13 @@ impl MetaValue {
 
     /// Converts the value if it's a string literal into a `String`.
     pub fn as_string(&self) -> Option<String> {
-        (self.kind() == SyntaxKind::STRING).then_some(
-            // Parses string value (removes escaped leading and trailing quotes).
-            self.to_string()
-                .chars()
-                .skip_while(|char| *char == '\"')
-                .take_while(|char| *char != '\"')
-                .join(""),
-        )
+        match self.expr.as_ref()? {
+            ast::Expr::Literal(lit) => match lit.kind() {
+                ast::LiteralKind::String(string) => string.value().map(|value| value.to_string()),
+                _ => None,
+            },
+            _ => None,
+        }
     }
 
     /// Converts the value if it's a path expression into a `Path` with an inaccurate text range.
-- 
2.43.0


From 899f88985d90fac61fd5d9be6efdd81eb8c3816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 13/20] fix: use the full trait path in selectors exactly if it
 has a leading `::`

`a::b::Trait` was treated as a full path and `::a::Trait` as a relative one,
and generic arguments of a relative path's last segment were included.
---
 crates/ir/src/selector.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/ir/src/selector.rs b/crates/ir/src/selector.rs
index f49789c..81c7909 100644
--- a/crates/ir/src/selector.rs
+++ b/crates/ir/src/selector.rs
@@ -118,19 +118,25 @@ impl Selector {
         match callable.parent_impl_item()?.trait_()? {
             ast::Type::PathType(trait_path_type) => {
                 let trait_path = trait_path_type.path()?;
+                // ink! only uses the full path if it has a leading `::`.
+                // Ref: <https://github.com/paritytech/ink/blob/v4.1.0/crates/ink/ir/src/ir/item_impl/callable.rs>
                 let is_full_path = trait_path
-                    .qualifier()
-                    .is_some_and(|qualifier| qualifier.coloncolon_token().is_some());
+                    .first_segment()
+                    .is_some_and(|segment| segment.coloncolon_token().is_some());
                 let trait_ident = if is_full_path {
-                    let mut full_path = trait_path.to_string();
-                    full_path.retain(|c| !c.is_whitespace());
-                    full_path
+                    trait_path
+                        .syntax()
+                        .descendants_with_tokens()
+                        .filter_map(|elem| elem.into_token())
+                        .filter(|token| !token.kind().is_trivia())
+                        .join("")
                 } else {
                     trait_path
                         .segments()
                         .last()
-                        .map(|segment| segment.to_string())
-                        .unwrap_or_else(String::new)
+                        .and_then(|segment| segment.name_ref())
+                        .map(|name| name.to_string())
+                        .unwrap_or_default()
                 };
                 (!trait_ident.is_empty()).then_some(trait_ident)
             }
-- 
2.43.0


From e52a533e1c925aa1190dba3cbaae9a20cd02145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:34 +0000
Subject: [PATCH 14/20] fix: stop path resolution on cyclic use declarations
 and type aliases

---
 crates/analyzer/src/resolution.rs | 63 +++++++++++++++++++++++++------
 crates/ir/src/tree/ast_ext.rs     | 56 +++++++++++++++++++++++++--
 2 files changed, 104 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..0acbdeb 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,17 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_inner(name, path, qualifiers, ref_node, &[])
+}
+
+// See [`is_external_crate_item`] (`visited` is the list of type aliases that have already been followed).
+fn is_external_crate_item_inner(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    visited: &[ast::TypeAlias],
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -103,7 +114,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &mut Vec::new());
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -210,13 +221,21 @@ pub fn is_external_crate_item(
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
-                        type_alias
-                            .ty()
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::path_from_type)
-                            .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
-                            })
+                        // Only follows each type alias once (type aliases may be cyclic in incomplete code).
+                        !visited.contains(&type_alias)
+                            && type_alias
+                                .ty()
+                                .as_ref()
+                                .and_then(ink_analyzer_ir::path_from_type)
+                                .is_some_and(|path| {
+                                    is_external_crate_item_inner(
+                                        name,
+                                        &path,
+                                        qualifiers,
+                                        type_alias.syntax(),
+                                        &[visited, &[type_alias.clone()]].concat(),
+                                    )
+                                })
                     },
                 )
             };
@@ -307,6 +326,7 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
+    in_progress: &mut Vec<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -319,7 +339,8 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result =
+            match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, in_progress);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +356,12 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result = match_path_to_external_crate_in_scope(
+                &item_path_str,
+                crates,
+                ref_node,
+                in_progress,
+            );
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -355,9 +381,18 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    in_progress: &mut Vec<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+
+    // Stops on cyclic `use` declarations (e.g. `use a::*; mod a { use super::*; }`).
+    let step = (path.to_owned(), ref_node.clone());
+    if in_progress.contains(&step) {
+        return (use_paths, item_aliases);
+    }
+    in_progress.push(step);
+
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +412,11 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result = external_crate_uses_and_aliases_in_scope(
+                crates,
+                &qualifier_ref_node,
+                in_progress,
+            );
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +438,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        in_progress,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -407,6 +447,7 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
+    in_progress.pop();
     (use_paths, item_aliases)
 }
 
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..ed3d010 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -1,5 +1,6 @@
 //! AST traversal utilities.
 
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 use std::iter::once;
 
@@ -103,8 +104,41 @@ macro_rules! resolve_item_path_from_use_scope_and_aliases {
     }};
 }
 
+/// Path resolution steps in progress (i.e. whether it's an item, the path and the reference node).
+type ResolutionStack = RefCell<Vec<(bool, String, SyntaxNode)>>;
+
+/// Performs a path resolution step,
+/// unless the same step is already in progress (e.g. for cyclic `use` statements and type aliases).
+fn resolve_once<T>(
+    is_item: bool,
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    stack: &ResolutionStack,
+    resolve: impl FnOnce() -> Option<T>,
+) -> Option<T> {
+    let step = (is_item, path_to_string(path), ref_node.clone());
+    if stack.borrow().contains(&step) {
+        return None;
+    }
+    stack.borrow_mut().push(step);
+    let result = resolve();
+    stack.borrow_mut().pop();
+    result
+}
+
 /// Returns the AST item referenced by the path (if any).
 pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    resolve_item_inner(path, ref_node, &ResolutionStack::default())
+}
+
+fn resolve_item_inner<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    stack: &ResolutionStack,
+) -> Option<T>
 where
     T: AstNode + HasName,
 {
@@ -114,7 +148,7 @@ where
 
     match path.qualifier() {
         // Determines the root node/module for target item resolution based on qualifier.
-        Some(qualifier) => resolve_qualifier(&qualifier, ref_node),
+        Some(qualifier) => resolve_qualifier_inner(&qualifier, ref_node, stack),
         // Otherwise defaults to the current module (if there's no qualifier).
         None => resolve_current_module(ref_node),
     }
@@ -139,7 +173,9 @@ where
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_once(true, &resolved_path, &root_node, stack, || {
+                            resolve_item_inner(&resolved_path, &root_node, stack)
+                        })
                     } else {
                         None
                     }
@@ -155,7 +191,9 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_once(true, &resolved_path, ref_node, stack, || {
+                                resolve_item_inner(&resolved_path, ref_node, stack)
+                            })
                         } else {
                             None
                         }
@@ -185,6 +223,14 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_inner(path, ref_node, &ResolutionStack::default())
+}
+
+fn resolve_qualifier_inner(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    stack: &ResolutionStack,
+) -> Option<SyntaxNode> {
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
@@ -202,7 +248,9 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_once(false, &resolved_path, root, stack, || {
+                            resolve_qualifier_inner(&resolved_path, root, stack)
+                        })
                     } else {
                         None
                     }
-- 
2.43.0


From 79e2a6ec2111c5199dad5f9ea55029ab3cd12db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:08 +0000
Subject: [PATCH 15/20] fix: find trait definition impls without callables in
 the body of a contract

---
 crates/ir/src/tree/ast_ext.rs | 2 +-
 crates/ir/src/tree/utils.rs   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index ed3d010..c3f74a3 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -378,7 +378,7 @@ pub fn path_to_string(path: &ast::Path) -> String {
 
 // Returns the item list syntax node for the given syntax node.
 // NOTE: defaults to returning the syntax node itself.
-fn resolve_item_list_root(node: &SyntaxNode) -> SyntaxNode {
+pub(crate) fn resolve_item_list_root(node: &SyntaxNode) -> SyntaxNode {
     ast::Item::cast(node.clone())
         .and_then(|item| match item {
             // We only care about item lists that can contain use statements (for now).
diff --git a/crates/ir/src/tree/utils.rs b/crates/ir/src/tree/utils.rs
index 267b2cf..fa1b619 100644
--- a/crates/ir/src/tree/utils.rs
+++ b/crates/ir/src/tree/utils.rs
@@ -182,7 +182,9 @@ where
 ///
 /// Ref: <https://github.com/paritytech/ink/blob/master/crates/ink/ir/src/ir/item_impl/mod.rs#L118-L216>.
 pub fn ink_impl_closest_descendants(node: &SyntaxNode) -> impl Iterator<Item = InkImpl> {
-    node.children()
+    // Items in the body of a module are children of its item list.
+    ast_ext::resolve_item_list_root(node)
+        .children()
         .filter_map(ast::Impl::cast)
         // `impl` children.
         .map(|item| item.syntax().clone())
-- 
2.43.0


From e2c061c15364ce243132580e0598a1b7eae43414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 16/20] fix: resolve paths through nested modules and repeated
 super

---
 crates/ir/src/tree/ast_ext.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index c3f74a3..0143aaa 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -231,10 +231,15 @@ fn resolve_qualifier_inner(
     ref_node: &SyntaxNode,
     stack: &ResolutionStack,
 ) -> Option<SyntaxNode> {
+    // Resolves parent module.
+    let resolve_parent_module = |module: &SyntaxNode| {
+        module.parent().as_ref().and_then(resolve_current_module)
+    };
+
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
-            root.children().find(|it| {
+            resolve_item_list_root(root).children().find(|it| {
                 ast::Module::can_cast(it.kind())
                     && ast::Module::cast(it.clone())
                         .and_then(|module| module.name())
@@ -287,9 +292,7 @@ fn resolve_qualifier_inner(
             // Resolve from parent module.
             resolve_current_module(ref_node)
                 .as_ref()
-                .and_then(SyntaxNode::parent)
-                .as_ref()
-                .and_then(resolve_current_module)
+                .and_then(resolve_parent_module)
         } else {
             resolve_current_module(ref_node)
                 .zip(root_segment.name_ref())
@@ -301,9 +304,14 @@ fn resolve_qualifier_inner(
 
     // Resolves the remaining qualifier segments (if any).
     while let Some((node, segment)) = resolution_root_option.as_ref().zip(path_segments.next()) {
-        resolution_root_option = segment
-            .name_ref()
-            .and_then(|name| resolve_next_child_module(&name, node));
+        resolution_root_option = if segment.super_token().is_some() {
+            // Resolve from parent module (e.g. for `super::super`).
+            resolve_parent_module(node)
+        } else {
+            segment
+                .name_ref()
+                .and_then(|name| resolve_next_child_module(&name, node))
+        };
     }
 
     resolution_root_option
-- 
2.43.0


From 35d2fbc58bea24c652b03e59aa9ec11c7a32977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:46 +0000
Subject: [PATCH 17/20] fix: consider all derive attributes when checking for
 SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 117 ++++++++----------
 1 file changed, 55 insertions(+), 62 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..22dbafc 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1977,11 +1977,15 @@ pub fn ensure_impl_scale_codec_traits(
     } else {
         None
     };
-    // Standalone derive attribute (if any).
-    let standalone_derive_attr = adt.attrs().find(|attr| {
-        attr.path()
-            .is_some_and(|path| path.to_string().trim() == "derive")
-    });
+    // Standalone derive attributes (if any).
+    let standalone_derive_attrs: Vec<_> = adt
+        .attrs()
+        .filter(|attr| {
+            attr.path()
+                .is_some_and(|path| path.to_string().trim() == "derive")
+        })
+        .collect();
+    let standalone_derive_attr = standalone_derive_attrs.first();
 
     // Utilities for extracting derive attribute meta items.
     let meta_to_path_list = |meta: &str| {
@@ -1993,57 +1997,53 @@ pub fn ensure_impl_scale_codec_traits(
 
     // Standalone derive attribute meta item string (if any).
     let standalone_derive_meta = standalone_derive_attr
-        .as_ref()
         .and_then(ast::Attr::token_tree)
         .as_ref()
         .map(utils::token_tree_to_non_delimited_meta_string);
 
-    // Extracts derive item paths from both the standalone and conditional derive attributes.
-    let standalone_derived_items = standalone_derive_meta.as_deref().map(meta_to_path_list);
-    let conditional_derived_items = adt.attrs().find_map(|attr| {
-        if attr
-            .path()
-            .is_some_and(|path| path.to_string().trim() == "cfg_attr")
-        {
-            attr.token_tree().map(|token_tree| {
-                token_tree
-                    .syntax()
-                    .children()
-                    .filter_map(|node| {
-                        let is_after_derive = || {
-                            node.first_token()
-                                .and_then(|token| {
-                                    ink_analyzer_ir::closest_non_trivia_token(
-                                        &token,
-                                        SyntaxToken::prev_token,
-                                    )
-                                })
-                                .is_some_and(|token| token.text() == "derive")
-                        };
-                        if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
-                            ast::TokenTree::cast(node)
-                                .as_ref()
-                                .map(utils::token_tree_to_non_delimited_meta_string)
-                        } else {
-                            None
-                        }
-                    })
-                    .flat_map(|meta| meta_to_path_list(&meta))
-                    .collect::<Vec<_>>()
-            })
-        } else {
-            None
-        }
-    });
-    let derived_items = match (standalone_derived_items, conditional_derived_items) {
-        (Some(standalone), Some(conditional)) => {
-            let mut items = Vec::with_capacity(standalone.len() + conditional.len());
-            items.extend(standalone);
-            items.extend(conditional);
-            Some(items)
-        }
-        (standalone_option, conditional_option) => standalone_option.or(conditional_option),
-    };
+    // Extracts derive item paths from all the standalone and conditional derive attributes.
+    let standalone_derived_items = standalone_derive_attrs
+        .iter()
+        .filter_map(ast::Attr::token_tree)
+        .flat_map(|token_tree| {
+            meta_to_path_list(&utils::token_tree_to_non_delimited_meta_string(&token_tree))
+        });
+    let conditional_derived_items = adt
+        .attrs()
+        .filter(|attr| {
+            attr.path()
+                .is_some_and(|path| path.to_string().trim() == "cfg_attr")
+        })
+        .filter_map(|attr| attr.token_tree())
+        .flat_map(|token_tree| {
+            token_tree
+                .syntax()
+                .children()
+                .filter_map(|node| {
+                    let is_after_derive = || {
+                        node.first_token()
+                            .and_then(|token| {
+                                ink_analyzer_ir::closest_non_trivia_token(
+                                    &token,
+                                    SyntaxToken::prev_token,
+                                )
+                            })
+                            .is_some_and(|token| token.text() == "derive")
+                    };
+                    if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
+                        ast::TokenTree::cast(node)
+                            .as_ref()
+                            .map(utils::token_tree_to_non_delimited_meta_string)
+                    } else {
+                        None
+                    }
+                })
+                .flat_map(|meta| meta_to_path_list(&meta))
+                .collect::<Vec<_>>()
+        });
+    let derived_items: Vec<_> = standalone_derived_items
+        .chain(conditional_derived_items)
+        .collect();
 
     // Finds unimplemented SCALE codec traits.
     let unimplemented_traits: Vec<_> = ([
@@ -2074,15 +2074,8 @@ pub fn ensure_impl_scale_codec_traits(
                     .as_ref()
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
-                derived_items.as_ref().is_some_and(|item_paths| {
-                    item_paths.iter().any(|path| {
-                        resolution::is_external_crate_item(
-                            trait_name,
-                            path,
-                            qualifiers,
-                            adt.syntax(),
-                        )
-                    })
+                derived_items.iter().any(|path| {
+                    resolution::is_external_crate_item(trait_name, path, qualifiers, adt.syntax())
                 })
             };
             // Finds trait implementation for the custom type (if any).
@@ -2147,7 +2140,7 @@ pub fn ensure_impl_scale_codec_traits(
                 "ink::scale_derive",
             )
         } else {
-            (standalone_derive_attr.as_ref(), "derive")
+            (standalone_derive_attr, "derive")
         };
 
         let (insert_text, insert_range, insert_snippet) = target_attr
-- 
2.43.0


From 88162a26798351a456452bb3e5363783c183c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 18/20] fix: keep existing scale_derive arguments when adding
 missing SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 22dbafc..5e1121a 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1995,12 +1995,6 @@ pub fn ensure_impl_scale_codec_traits(
             .collect::<Vec<_>>()
     };
 
-    // Standalone derive attribute meta item string (if any).
-    let standalone_derive_meta = standalone_derive_attr
-        .and_then(ast::Attr::token_tree)
-        .as_ref()
-        .map(utils::token_tree_to_non_delimited_meta_string);
-
     // Extracts derive item paths from all the standalone and conditional derive attributes.
     let standalone_derived_items = standalone_derive_attrs
         .iter()
@@ -2146,8 +2140,13 @@ pub fn ensure_impl_scale_codec_traits(
         let (insert_text, insert_range, insert_snippet) = target_attr
             .as_ref()
             .map(|attr| {
-                let meta_prefix = if version == Version::V4 {
-                    standalone_derive_meta.as_ref().map(|meta| {
+                // Keeps the existing items.
+                let meta_prefix = attr
+                    .token_tree()
+                    .as_ref()
+                    .map(utils::token_tree_to_non_delimited_meta_string)
+                    .filter(|meta| !meta.trim().is_empty())
+                    .map(|meta| {
                         format!(
                             "{meta}{}",
                             if meta.trim_end().ends_with(',') {
@@ -2156,10 +2155,7 @@ pub fn ensure_impl_scale_codec_traits(
                                 ", "
                             }
                         )
-                    })
-                } else {
-                    None
-                };
+                    });
                 (
                     format!(
                         "#[{attr_path}({}{trait_paths_plain})]",
-- 
2.43.0


From 91e5f1b22a09992f44accfc25e3bad7358a8e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:26 +0000
Subject: [PATCH 19/20] fix: order modules from the outermost to the innermost
 in item paths

---
 crates/analyzer/src/resolution.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 0acbdeb..bf09b03 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,21 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        // Ancestors are ordered from the innermost to the outermost module.
+        let mut modules: Vec<_> = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect();
+        modules.reverse();
+        iter::once(String::from("crate"))
+            .chain(modules)
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0


From f8f5657e98b37992bcb48f31dd28e32fc0b2e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:46 +0000
Subject: [PATCH 20/20] fix: check ink! functions of ink! 5 chain extensions
 that are no fn items

---
 crates/analyzer/src/analysis/diagnostics/chain_extension.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/chain_extension.rs b/crates/analyzer/src/analysis/diagnostics/chain_extension.rs
index e3c12f1..8927bd8 100644
--- a/crates/analyzer/src/analysis/diagnostics/chain_extension.rs
+++ b/crates/analyzer/src/analysis/diagnostics/chain_extension.rs
@@ -62,6 +62,11 @@ pub fn diagnostics(
     for item in chain_extension.extensions() {
         extension_fn::diagnostics(results, item, version);
     }
+    if version == Version::V5 {
+        for item in chain_extension.functions() {
+            extension_fn::diagnostics(results, item, version);
+        }
+    }
 
     // Ensures that exactly one `ErrorCode` associated type is defined, see `ensure_error_code_quantity` doc.
     ensure_error_code_type_quantity(results, chain_extension);
-- 
2.43.0

