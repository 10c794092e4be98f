From 60e57fb3e9fb51eec90075558b4a60daa7a9e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 1/9] fix: `line-ending = "auto"` uses the first line ending of
 a mixed file, as documented

---
 crates/line_ending/src/lib.rs                | 12 ++++++++++++
 crates/workspace/src/settings/line_ending.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/line_ending/src/lib.rs b/crates/line_ending/src/lib.rs
index e3d18a6..f2fb8be 100644
--- a/crates/line_ending/src/lib.rs
+++ b/crates/line_ending/src/lib.rs
@@ -19,6 +19,18 @@ pub fn infer(x: &str) -> LineEnding {
     }
 }
 
+/// Infer the line ending style of a file from its first line
+///
+/// Unlike [infer()], which looks for `\r\n` anywhere in `x`, a file with mixed line endings
+/// takes on its first one.
+pub fn infer_first(x: &str) -> LineEnding {
+    match x.split_once('\n') {
+        Some((line, _)) if line.ends_with('\r') => LineEnding::Crlf,
+        // First line ends in `\n`, or there are no line endings
+        _ => LineEnding::Lf,
+    }
+}
+
 /// Normalize line endings within a string
 ///
 /// We replace `\r\n` with `\n` in-place, which doesn't break utf-8 encoding.
diff --git a/crates/workspace/src/settings/line_ending.rs b/crates/workspace/src/settings/line_ending.rs
index da9eb48..e1eba36 100644
--- a/crates/workspace/src/settings/line_ending.rs
+++ b/crates/workspace/src/settings/line_ending.rs
@@ -47,7 +47,7 @@ impl LineEnding {
             LineEnding::Native => settings::LineEnding::Crlf,
             #[cfg(not(target_os = "windows"))]
             LineEnding::Native => settings::LineEnding::Lf,
-            LineEnding::Auto => line_ending::infer(source),
+            LineEnding::Auto => line_ending::infer_first(source),
         }
     }
 }
-- 
2.43.0


From 7caec2b17587c612f7f6609534570c7cad2db186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 2/9] fix: default include pattern no longer matches files with
 the extension `,`

---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From 314dd5cc8b4689d99fe543e90056e677ef436c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 3/9] fix: report errors while flushing formatted standard
 input

The text written for `air format --stdin-file-path` could stay in the line
buffer of standard output until process exit, where errors are ignored, so
that lost output still exited with status 0.
---
 crates/air/src/commands/format/stdin.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/air/src/commands/format/stdin.rs b/crates/air/src/commands/format/stdin.rs
index 23238dd..09f078f 100644
--- a/crates/air/src/commands/format/stdin.rs
+++ b/crates/air/src/commands/format/stdin.rs
@@ -96,9 +96,12 @@ fn format_stdin_write<P: AsRef<Path>>(
         FormattedStdin::Unchanged(unchanged) => unchanged,
     };
 
-    std::io::stdout()
-        .lock()
+    // Standard output is line buffered. Flush it here, as an error while flushing at
+    // process exit goes unnoticed.
+    let mut stdout = std::io::stdout().lock();
+    stdout
         .write_all(buffer.as_bytes())
+        .and_then(|()| stdout.flush())
         .map_err(FormatStdinError::Write)
 }
 
-- 
2.43.0


From 027eed6813f628c2f6527c5262fae8e5b752081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 4/9] fix: accept the `warning` log level the editor extension
 offers

---
 crates/lsp/src/logging.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lsp/src/logging.rs b/crates/lsp/src/logging.rs
index a69396b..ae1b236 100644
--- a/crates/lsp/src/logging.rs
+++ b/crates/lsp/src/logging.rs
@@ -350,6 +350,8 @@ fn resolve_dependency_log_levels(dependency_log_levels: Option<String>) -> Optio
 #[serde(rename_all = "lowercase")]
 pub(crate) enum LogLevel {
     Error,
+    // The editor extension offers this level as `warning`
+    #[serde(alias = "warning")]
     Warn,
     #[default]
     Info,
-- 
2.43.0


From 876630da5fdc71caf8c2284a20e6337bc80bfa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 5/9] fix: register a workspace folder whose air.toml is
 invalid so that it can be reloaded

---
 crates/lsp/src/workspaces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1cbc000..a0c33a9 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -84,11 +84,13 @@ impl WorkspaceSettingsResolver {
             }
         };
 
+        // Register the folder even if its settings can't be loaded, so that they are
+        // reloaded once the `air.toml` is corrected
         let discovered_settings = match discover_settings(&[&path]) {
             Ok(discovered_settings) => discovered_settings,
             Err(error) => {
                 failed_to_open_workspace_folder(url, error);
-                return;
+                Vec::new()
             }
         };
 
-- 
2.43.0


From b2cffe7e2e1efc0e583fba524b43da9efd97bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:52 +0000
Subject: [PATCH 6/9] fix: report a deleted or invalidated air.toml as a change
 of settings

---
 crates/lsp/src/workspaces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index a0c33a9..09ae341 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -186,6 +186,7 @@ impl WorkspaceSettingsResolver {
             {
                 let workspace_settings_resolver = workspace_match.value_mut();
                 workspace_settings_resolver.clear();
+                changed = true;
             }
 
             let workspace_path = workspace_match.path();
@@ -209,7 +210,6 @@ impl WorkspaceSettingsResolver {
                 settings,
             } in discovered_settings
             {
-                changed = true;
                 workspace_settings_resolver.add(&directory, settings);
             }
         }
-- 
2.43.0


From b13e3397027984b6c4b9a095361e508c93ca60a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 7/9] fix: reload the workspaces below the directory of a
 changed air.toml

---
 crates/lsp/src/workspaces.rs    | 10 +++++++++-
 crates/workspace/src/resolve.rs |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 09ae341..00509cc 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -180,7 +180,15 @@ impl WorkspaceSettingsResolver {
 
         let mut changed = false;
 
-        for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+        // The file governs the workspaces it lies in, and the workspaces below its
+        // directory, which find it among their ancestors
+        let directory = path.parent().unwrap_or(&path);
+        let workspace_matches = self
+            .path_to_settings_resolver
+            .items_mut()
+            .filter(|item| path.starts_with(item.path()) || item.path().starts_with(directory));
+
+        for workspace_match in workspace_matches {
             // Clear existing settings up front, regardless of what happens when reloading.
             // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
             {
diff --git a/crates/workspace/src/resolve.rs b/crates/workspace/src/resolve.rs
index 7d9e5e1..060cc3b 100644
--- a/crates/workspace/src/resolve.rs
+++ b/crates/workspace/src/resolve.rs
@@ -114,6 +114,11 @@ impl<T> PathResolver<T> {
         &self.items
     }
 
+    /// Returns the items in the resolver, with mutable access to their values
+    pub fn items_mut(&mut self) -> impl Iterator<Item = &mut PathItem<T>> {
+        self.items.iter_mut()
+    }
+
     pub fn len(&self) -> usize {
         self.items.len()
     }
-- 
2.43.0


From 03215bf7670c451993c2247ab954248abbfab5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:29 +0000
Subject: [PATCH 8/9] fix: do not double the carriage returns of documents with
 CRLF line endings when `line-ending = "crlf"`

---
 crates/lsp/src/handlers_format.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 73f08c8..7b96096 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -1,14 +1,18 @@
+use air_r_formatter::context::RFormatOptions;
 use air_r_syntax::{RExpressionList, RSyntaxKind, RSyntaxNode, WalkEvent};
 use biome_rowan::{AstNode, Language, SyntaxElement};
 use biome_text_size::{TextRange, TextSize};
+use settings::LineEnding;
 use tower_lsp::lsp_types;
 use workspace::format::FormattedSource;
 use workspace::format::format_source_with_parse;
 
+use crate::documents::Document;
 use crate::file_patterns::is_document_excluded_from_formatting;
 use crate::main_loop::LspState;
 use aether_lsp_utils::proto::{from_proto, to_proto};
 use crate::state::WorldState;
+use crate::workspaces::WorkspaceSettings;
 
 #[tracing::instrument(level = "info", skip_all)]
 pub(crate) fn document_formatting(
@@ -44,7 +48,7 @@ pub(crate) fn document_formatting(
         return Ok(None);
     }
 
-    let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+    let format_options = document_format_options(&workspace_settings, doc);
 
     match format_source_with_parse(&doc.contents, &doc.parse, format_options)? {
         FormattedSource::Changed(mut formatted) => {
@@ -138,7 +142,7 @@ pub(crate) fn document_range_formatting(
     let eof = air_r_syntax::RSyntaxToken::new_detached(RSyntaxKind::EOF, "", vec![], vec![]);
     let root = air_r_factory::r_root(list, eof).build();
 
-    let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+    let format_options = document_format_options(&workspace_settings, doc);
 
     let format_info = biome_formatter::format_sub_tree(
         root.syntax(),
@@ -165,6 +169,24 @@ pub(crate) fn document_range_formatting(
     Ok(Some(edits))
 }
 
+/// Options to format `doc` with
+///
+/// The text of a document with `\r\n` line endings is normalized to `\n`, and its line
+/// endings are restored when edits are converted to the LSP protocol. The formatted text
+/// must thus use `\n` up to that point, otherwise `line-ending = "crlf"` results in
+/// `\r\r\n`.
+fn document_format_options(
+    workspace_settings: &WorkspaceSettings,
+    doc: &Document,
+) -> RFormatOptions {
+    let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
+
+    match doc.endings {
+        LineEnding::Lf => format_options,
+        LineEnding::Crlf => format_options.with_line_ending(LineEnding::Lf),
+    }
+}
+
 // From biome_formatter
 fn text_non_whitespace_range<E, L>(elem: &E) -> TextRange
 where
-- 
2.43.0


From aba089a4b6a95f0bbab9e1a482751560b23a8f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:54 +0000
Subject: [PATCH 9/9] fix: remove the whole `\r\n` line ending that the
 formatter adds to notebook cells and ranges

---
 crates/lsp/src/handlers_format.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 7b96096..2d5f41f 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -56,8 +56,8 @@ pub(crate) fn document_formatting(
             // The formatter always adds a trailing newline for R files (which is correct
             // for standalone files), but notebook cells should not have this trailing newline
             // to avoid an empty line at the end of the chunk.
-            if uri.scheme() == "vscode-notebook-cell" && formatted.ends_with('\n') {
-                formatted.pop();
+            if uri.scheme() == "vscode-notebook-cell" {
+                pop_line_ending(&mut formatted);
             }
 
             Ok(Some(to_proto::replace_all_edit(
@@ -157,7 +157,7 @@ pub(crate) fn document_range_formatting(
     let mut format_text = format_info.into_code();
 
     // Remove last hard break line from our artifical expression list
-    format_text.pop();
+    pop_line_ending(&mut format_text);
     let edits = to_proto::replace_range_edit(
         format_range,
         format_text,
@@ -187,6 +187,16 @@ fn document_format_options(
     }
 }
 
+/// Remove the last line ending of `text`, which is `\r\n` with `line-ending = "crlf"`
+fn pop_line_ending(text: &mut String) {
+    if text.ends_with('\n') {
+        text.pop();
+        if text.ends_with('\r') {
+            text.pop();
+        }
+    }
+}
+
 // From biome_formatter
 fn text_non_whitespace_range<E, L>(elem: &E) -> TextRange
 where
-- 
2.43.0

