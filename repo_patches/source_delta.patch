From 64a4edb641221dafb189cba25e52274f89e0feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 01/12] fix: detect the first line ending in files with mixed
 line endings

With `line-ending = "auto"`, files with mixed line endings are documented
to be converted to the first detected line ending, but any `\r\n` anywhere
in the file won.
---
 .../air_r_formatter/src/r/auxiliary/root.rs   |  6 +----
 crates/line_ending/src/lib.rs                 | 22 ++++++++++++-------
 crates/lsp/src/documents.rs                   |  5 +----
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index 6100fc6..a1e3da8 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -9,7 +9,6 @@ use biome_formatter::write;
 use biome_rowan::Direction;
 use biome_rowan::SyntaxElement;
 use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
-use settings::LineEnding;
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct FormatRRoot;
@@ -105,10 +104,7 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         // This is also identical to how `fmt_suppressed()`'s default works via
         // `format_suppressed_node()` and `FormatVerbatimNode`. It normalizes line endings
         // right before calling `dynamic_text()` (#507).
-        let text = match line_ending::infer(&text) {
-            LineEnding::Lf => text,
-            LineEnding::Crlf => line_ending::normalize(text),
-        };
+        let text = line_ending::normalize(text);
 
         // Formatting with `format_suppressed_node()` does not work well
         // here because it only formats the node verbatim, not the leading
diff --git a/crates/line_ending/src/lib.rs b/crates/line_ending/src/lib.rs
index e3d18a6..74d9f3c 100644
--- a/crates/line_ending/src/lib.rs
+++ b/crates/line_ending/src/lib.rs
@@ -10,12 +10,18 @@ use settings::LineEnding;
 
 static FINDER: LazyLock<memmem::Finder> = LazyLock::new(|| memmem::Finder::new(b"\r\n"));
 
+/// Infer the line ending of `x` from its first line ending
+///
+/// Defaults to [LineEnding::Lf] if there isn't one. Note that [LineEnding::Lf] does not
+/// mean that `x` is free of `\r\n`, as `x` may have mixed line endings.
 pub fn infer(x: &str) -> LineEnding {
-    match FINDER.find(x.as_bytes()) {
-        // Saw `\r\n`
-        Some(_) => LineEnding::Crlf,
-        // No `\r\n`, or empty file
-        None => LineEnding::Lf,
+    let x = x.as_bytes();
+
+    match memchr::memchr(b'\n', x) {
+        // First line ending is `\r\n`
+        Some(idx) if x[..idx].ends_with(b"\r") => LineEnding::Crlf,
+        // First line ending is `\n`, no line endings at all, or empty file
+        _ => LineEnding::Lf,
     }
 }
 
@@ -71,9 +77,9 @@ pub fn normalize(x: String) -> String {
 /// Prefer [normalize()] when you have an owned [String] as that modifies in place,
 /// reusing the owned [String]'s existing allocation.
 pub fn normalize_ref(x: &str) -> Cow<'_, str> {
-    match infer(x) {
-        LineEnding::Lf => Cow::Borrowed(x),
-        LineEnding::Crlf => Cow::Owned(normalize(x.to_string())),
+    match FINDER.find(x.as_bytes()) {
+        None => Cow::Borrowed(x),
+        Some(_) => Cow::Owned(normalize(x.to_string())),
     }
 }
 
diff --git a/crates/lsp/src/documents.rs b/crates/lsp/src/documents.rs
index cd3ed40..829049e 100644
--- a/crates/lsp/src/documents.rs
+++ b/crates/lsp/src/documents.rs
@@ -52,10 +52,7 @@ impl Document {
         let endings = line_ending::infer(&contents);
 
         // Normalize to Unix line endings
-        let contents = match endings {
-            LineEnding::Lf => contents,
-            LineEnding::Crlf => line_ending::normalize(contents),
-        };
+        let contents = line_ending::normalize(contents);
 
         // TODO: Handle user requested line ending preference here
         // by potentially overwriting `endings` if the user didn't
-- 
2.43.0


From ab782828f90ec6d9bb4ae4c1c969ea4d137395dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 02/12] fix: never apply exclude patterns to the root directory
 itself

---
 crates/workspace/src/file_patterns.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/workspace/src/file_patterns.rs b/crates/workspace/src/file_patterns.rs
index 5b9e2d0..bec6857 100644
--- a/crates/workspace/src/file_patterns.rs
+++ b/crates/workspace/src/file_patterns.rs
@@ -84,11 +84,23 @@ impl FilePatterns {
     where
         P: AsRef<Path>,
     {
-        match self.matcher.matched_path_or_any_parents(path, is_directory) {
-            Match::None => None,
-            Match::Whitelist(_) => None,
-            Match::Ignore(glob) => Some(glob),
+        // Not [Gitignore::matched_path_or_any_parents], which also matches the `root` itself
+        // (as an empty path). Patterns only apply below the `root`, so with `*/` that would
+        // also exclude all files directly within the `root`.
+        let ancestors = path
+            .as_ref()
+            .ancestors()
+            .take_while(|path| !path.as_os_str().is_empty() && *path != self.matcher.path());
+
+        for (i, path) in ancestors.enumerate() {
+            match self.matcher.matched(path, is_directory || i > 0) {
+                Match::None => (), // walk up
+                Match::Whitelist(_) => return None,
+                Match::Ignore(glob) => return Some(glob),
+            }
         }
+
+        None
     }
 }
 
-- 
2.43.0


From 7ca0f1bf459f5a1f9be1cbee0ccd54e817246877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 03/12] fix: do not treat files ending in a dot and a comma as
 R files

---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From c1ef2203b29ecbc88fc499869f37ab6792453a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:06 +0000
Subject: [PATCH 04/12] fix: apply text edits at the same position in array
 order

---
 crates/aether_lsp_utils/src/proto/from_proto.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/aether_lsp_utils/src/proto/from_proto.rs b/crates/aether_lsp_utils/src/proto/from_proto.rs
index 7eaabe2..653a261 100644
--- a/crates/aether_lsp_utils/src/proto/from_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/from_proto.rs
@@ -140,9 +140,13 @@ pub fn apply_text_edits(
     // Sort edits in reverse order by start position to ensure that edits
     // applied later in the document don’t shift the ranges of edits earlier in
     // the document. This way, edits in the bottom don't invalidate the
-    // positions of edits at the top. Use stable sort to preserve the original
-    // order for edits at the same position (which defines insertion order per
-    // LSP spec).
+    // positions of edits at the top.
+    //
+    // For edits at the same position, the array order defines the order in which
+    // the inserts appear in the result (per LSP spec). Since each one is applied in
+    // front of the previous one, they have to be applied from last to first. Hence
+    // the initial reversal, which the stable sort preserves.
+    edits.reverse();
     edits.sort_by(|a, b| {
         let a_start = a.range.start;
         let b_start = b.range.start;
-- 
2.43.0


From 930ac2c881eae5b9df5377b92d170f584f61ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 05/12] fix: keep the line endings of documents when formatting
 in an editor

---
 crates/lsp/src/handlers_format.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 73f08c8..253b5f9 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -47,7 +47,11 @@ pub(crate) fn document_formatting(
     let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);
 
     match format_source_with_parse(&doc.contents, &doc.parse, format_options)? {
-        FormattedSource::Changed(mut formatted) => {
+        FormattedSource::Changed(formatted) => {
+            // Documents are normalized to unix line endings, and `to_proto` converts
+            // edits to the line endings of the document
+            let mut formatted = line_ending::normalize(formatted);
+
             // For notebook cells, remove the trailing newline that the formatter adds.
             // The formatter always adds a trailing newline for R files (which is correct
             // for standalone files), but notebook cells should not have this trailing newline
@@ -150,7 +154,9 @@ pub(crate) fn document_range_formatting(
         return Ok(None);
     };
 
-    let mut format_text = format_info.into_code();
+    // Documents are normalized to unix line endings, and `to_proto` converts edits to
+    // the line endings of the document
+    let mut format_text = line_ending::normalize(format_info.into_code());
 
     // Remove last hard break line from our artifical expression list
     format_text.pop();
-- 
2.43.0


From 121480cb1907a392a0aa2d3f7ee8dcfaedfa4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 06/12] fix: send the file settings of all opened files when a
 file is opened

---
 crates/lsp/src/handlers_state.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/lsp/src/handlers_state.rs b/crates/lsp/src/handlers_state.rs
index 72fdf4b..40e1919 100644
--- a/crates/lsp/src/handlers_state.rs
+++ b/crates/lsp/src/handlers_state.rs
@@ -144,12 +144,13 @@ pub(crate) async fn did_open(
     state.documents.insert(uri.clone(), document);
 
     // Propagate client settings to Air
-    update_config(vec![uri.clone()], lsp_state, state)
+    update_config(vec![uri], lsp_state, state)
         .instrument(tracing::info_span!("did_change_configuration"))
         .await?;
 
-    // Backpropagate Air settings to client
-    lsp_state.sync_file_settings(vec![uri]).await;
+    // Backpropagate Air settings to client. We send the settings of all opened files
+    // because the client resets its own state on each notification.
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
 
     Ok(())
 }
-- 
2.43.0


From c228da49e580ebae117892e0a85376365c65ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 07/12] fix: sync file settings when an `air.toml` is deleted
 or broken

---
 crates/lsp/src/workspaces.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1cbc000..5ba419a 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -179,6 +179,10 @@ impl WorkspaceSettingsResolver {
         let mut changed = false;
 
         for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+            // Settings might change even if we don't discover any, i.e. when the
+            // `air.toml` was deleted or can't be parsed
+            changed = true;
+
             // Clear existing settings up front, regardless of what happens when reloading.
             // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
             {
@@ -207,7 +211,6 @@ impl WorkspaceSettingsResolver {
                 settings,
             } in discovered_settings
             {
-                changed = true;
                 workspace_settings_resolver.add(&directory, settings);
             }
         }
-- 
2.43.0


From 312a8ffbe75853f8b1aa8837694575475262aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 08/12] fix: sync file settings when workspace folders change

---
 crates/lsp/src/handlers_state.rs | 7 ++++++-
 crates/lsp/src/main_loop.rs      | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/handlers_state.rs b/crates/lsp/src/handlers_state.rs
index 40e1919..f0a8498 100644
--- a/crates/lsp/src/handlers_state.rs
+++ b/crates/lsp/src/handlers_state.rs
@@ -200,9 +200,10 @@ pub(crate) async fn did_change_configuration(
         .await
 }
 
-pub(crate) fn did_change_workspace_folders(
+pub(crate) async fn did_change_workspace_folders(
     params: DidChangeWorkspaceFoldersParams,
     lsp_state: &mut LspState,
+    state: &WorldState,
 ) -> anyhow::Result<()> {
     for lsp_types::WorkspaceFolder { uri, .. } in params.event.added {
         lsp_state.open_workspace_folder(&uri);
@@ -210,6 +211,10 @@ pub(crate) fn did_change_workspace_folders(
     for lsp_types::WorkspaceFolder { uri, .. } in params.event.removed {
         lsp_state.close_workspace_folder(&uri);
     }
+
+    // Backpropagate settings for all opened files as they might have changed
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
+
     Ok(())
 }
 
diff --git a/crates/lsp/src/main_loop.rs b/crates/lsp/src/main_loop.rs
index 7309256..003421b 100644
--- a/crates/lsp/src/main_loop.rs
+++ b/crates/lsp/src/main_loop.rs
@@ -324,7 +324,7 @@ impl GlobalState {
                             handlers::handle_initialized(&self.lsp_state).await?;
                         },
                         LspNotification::DidChangeWorkspaceFolders(params) => {
-                            handlers_state::did_change_workspace_folders(params, &mut self.lsp_state)?;
+                            handlers_state::did_change_workspace_folders(params, &mut self.lsp_state, &self.world).await?;
                         },
                         LspNotification::DidChangeConfiguration(params) => {
                             handlers_state::did_change_configuration(params, &mut self.lsp_state, &mut self.world).await?;
-- 
2.43.0


From 3839f7b3869fb42631f1ae272fe1aabf2aeae8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 09/12] fix: load the settings of a workspace folder once its
 `air.toml` is repaired

---
 crates/lsp/src/workspaces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 5ba419a..4e0fe20 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -87,8 +87,10 @@ impl WorkspaceSettingsResolver {
         let discovered_settings = match discover_settings(&[&path]) {
             Ok(discovered_settings) => discovered_settings,
             Err(error) => {
+                // Still open the folder, so that its settings are loaded once the
+                // `air.toml` gets repaired
                 failed_to_open_workspace_folder(url, error);
-                return;
+                Vec::new()
             }
         };
 
-- 
2.43.0


From a783fd6fe00f9e45d18cf2b629066cc217fcc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 10/12] fix: reload workspace folders below a changed
 `air.toml`

A workspace folder without an `air.toml` uses the one of its nearest
parent directory, but was not reloaded when that file changed.
---
 crates/lsp/src/workspaces.rs    | 12 +++++++++++-
 crates/workspace/src/resolve.rs |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 4e0fe20..2282437 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -180,7 +180,17 @@ impl WorkspaceSettingsResolver {
 
         let mut changed = false;
 
-        for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+        let directory = path.parent().unwrap_or(&path);
+
+        for workspace_match in self.path_to_settings_resolver.items_mut() {
+            // An `air.toml` concerns the workspaces that contain it, but also the
+            // ones below it, as these look for settings in their parent directories
+            if !path.starts_with(workspace_match.path())
+                && !workspace_match.path().starts_with(directory)
+            {
+                continue;
+            }
+
             // Settings might change even if we don't discover any, i.e. when the
             // `air.toml` was deleted or can't be parsed
             changed = true;
diff --git a/crates/workspace/src/resolve.rs b/crates/workspace/src/resolve.rs
index 7d9e5e1..ae263af 100644
--- a/crates/workspace/src/resolve.rs
+++ b/crates/workspace/src/resolve.rs
@@ -114,6 +114,10 @@ impl<T> PathResolver<T> {
         &self.items
     }
 
+    pub fn items_mut(&mut self) -> &mut [PathItem<T>] {
+        &mut self.items
+    }
+
     pub fn len(&self) -> usize {
         self.items.len()
     }
-- 
2.43.0


From f21dc014ae0175a2c2552b27fa1170d83fec29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:20 +0000
Subject: [PATCH 11/12] fix: format the selection when it ends behind an
 expression

Range formatting did nothing when the selection ended in a comment behind
an expression, in a blank line, or at the end of the document.
---
 crates/lsp/src/handlers_format.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 253b5f9..4987b8b 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -263,9 +263,16 @@ fn find_expression_lists(node: &RSyntaxNode, offset: TextSize, end: bool) -> Vec
                     continue;
                 };
 
-                let is_contained = if end {
-                    let trimmed_node_range = node.text_trimmed_range();
-                    trimmed_node_range.contains_inclusive(offset)
+                // The program's expression list contains all offsets, including those in
+                // the trivia around it
+                let is_contained = if parent.kind() == RSyntaxKind::R_ROOT {
+                    true
+                } else if end {
+                    let node_range = TextRange::new(
+                        node.text_trimmed_range().start(),
+                        node.text_range_with_trivia().end(),
+                    );
+                    node_range.contains_inclusive(offset)
                 } else {
                     let node_range = node.text_range_with_trivia();
                     node_range.contains(offset)
@@ -276,8 +283,8 @@ fn find_expression_lists(node: &RSyntaxNode, offset: TextSize, end: bool) -> Vec
                     continue;
                 }
 
-                if parent.kind() == RSyntaxKind::R_EXPRESSION_LIST {
-                    nodes.push(parent.clone());
+                if node.kind() == RSyntaxKind::R_EXPRESSION_LIST {
+                    nodes.push(node);
                     continue;
                 }
             }
-- 
2.43.0


From 38de5f0fa17cba546bd3417df187e551d4d14147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 12/12] fix: Parse files which start with a byte order mark

---
 crates/air_r_parser/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_parser/src/parse.rs b/crates/air_r_parser/src/parse.rs
index 5a5f622..da62d87 100644
--- a/crates/air_r_parser/src/parse.rs
+++ b/crates/air_r_parser/src/parse.rs
@@ -594,7 +594,14 @@ impl<'src> RWalk<'src> {
         // Start the overarching root
         self.handle_node_enter(RSyntaxKind::R_ROOT);
 
-        // TODO: Handle optional BOM?
+        // tree-sitter skips a byte order mark at the very start of the file, so it isn't
+        // part of the tree. It's not trivia either, so we supply the token ourselves.
+        const BOM: char = '\u{FEFF}';
+        if self.text.starts_with(BOM) {
+            let end = TextSize::of(BOM);
+            self.parse.token(RSyntaxKind::UNICODE_BOM, end);
+            self.last_end = end;
+        }
 
         // Root contains a list of `expressions`
         self.handle_node_enter(RSyntaxKind::R_EXPRESSION_LIST);
-- 
2.43.0

