From 12a5dbd531fc4a5f855703e1e053ae3412557a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 01/29] fix: apply document changes at the position the client
 means

Positions are line + utf-16 offset, they were used as byte offsets in the
InputEdit and the byte offsets were used as char indices in the rope, so any
non-ascii character before the edit corrupted the document. End point of the
inserted text was computed on the document before the edit. Positions outside
of the document and reversed ranges were panicking.
---
 jinja-lsp-queries/src/to_input_edit.rs | 59 +++++++++++++++++++++++---
 jinja-lsp/src/lsp_files.rs             |  9 ++--
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..a14aa7c 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -7,18 +7,56 @@ use tree_sitter::{InputEdit, Point};
 pub trait ToInputEdit {
     fn to_point(&self, position: Position) -> Point;
     fn to_byte(&self, position: Position) -> usize;
+    fn to_char(&self, position: Position) -> usize;
     fn to_position(&self, offset: usize) -> Position;
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit;
 }
 
 impl ToInputEdit for Rope {
     fn to_point(&self, position: Position) -> Point {
-        Point::new(position.line as usize, position.character as usize)
+        let end = self.to_char(position);
+        let mut point = Point::new(0, 0);
+        let mut index = 0;
+        while index < end {
+            point = advance(point, self.char(index));
+            index += 1;
+        }
+        point
     }
 
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
+        self.char_to_byte(self.to_char(position))
+    }
+
+    /// Position is line and offset in utf-16 code units, the same way as client counts them.
+    /// If it's outside of the document then it's moved to the end of the line(document).
+    fn to_char(&self, position: Position) -> usize {
+        let len = self.len_chars();
+        let mut index = 0;
+        let mut line = 0;
+        while line < position.line && index < len {
+            let current = self.char(index);
+            index += 1;
+            if current == '\n' {
+                line += 1;
+            } else if current == '\r' && !(index < len && self.char(index) == '\n') {
+                line += 1;
+            }
+        }
+        if line < position.line {
+            return len;
+        }
+        let mut character = 0;
+        while character < position.character && index < len {
+            let current = self.char(index);
+            let width = current.len_utf16() as u32;
+            if current == '\n' || current == '\r' || width > position.character - character {
+                break;
+            }
+            character += width;
+            index += 1;
+        }
+        index
     }
 
     fn to_position(&self, mut offset: usize) -> Position {
@@ -52,8 +90,10 @@ impl ToInputEdit for Rope {
         let start_position = self.to_point(start);
 
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
+        let mut new_end_position = start_position;
+        for current in text.chars() {
+            new_end_position = advance(new_end_position, current);
+        }
 
         let old_end_byte = self.to_byte(end);
         let old_end_position = self.to_point(end);
@@ -69,6 +109,15 @@ impl ToInputEdit for Rope {
     }
 }
 
+/// Tree-sitter counts only `\n` as line break, columns are in bytes.
+fn advance(point: Point, current: char) -> Point {
+    if current == '\n' {
+        Point::new(point.row + 1, 0)
+    } else {
+        Point::new(point.row, point.column + current.len_utf8())
+    }
+}
+
 pub fn to_position2(point: Point) -> Position {
     Position::new(point.row as u32, point.column as u32)
 }
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..26bcfea 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -168,10 +168,13 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
+            let mut range = change.range?;
+            if range.start > range.end {
+                range = Range::new(range.end, range.start);
+            }
             let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
+            let start = rope.to_char(range.start);
+            let end = rope.to_char(range.end);
             if start <= end {
                 rope.remove(start..end);
             } else {
-- 
2.43.0


From 6be293c07e9a3d453b83996269fdcdabe887b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 02/29] fix: parse the new content of reopened document from
 scratch

Old tree was passed to the parser without being edited, so tree-sitter was
reusing nodes of the old content.
---
 jinja-lsp/src/lsp_files.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 26bcfea..d54bc1d 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -128,20 +128,9 @@ impl LspFiles {
         file_content: &str,
     ) -> Option<()> {
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        // old tree can't be reused, it wasn't edited to match the new content
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From b74f7c3ba3edcf2961cc1004fd5366608da906c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 03/29] fix: handle change of the whole document

Change without range was ending did_change early, document was left with old
content (or with only some of the changes applied).
---
 jinja-lsp/src/lsp_files.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index d54bc1d..7014394 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -157,7 +157,11 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let mut range = change.range?;
+            let Some(mut range) = change.range else {
+                *rope = Rope::from_str(&change.text);
+                changes.push((change.text, None));
+                continue;
+            };
             if range.start > range.end {
                 range = Range::new(range.end, range.start);
             }
@@ -174,10 +178,14 @@ impl LspFiles {
             }
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
-            changes.push((w.content, input_edit));
+            changes.push((w.content, Some(input_edit)));
         }
-        for change in changes {
-            self.input_edit(&uri, change.0, change.1, lang_type);
+        for (content, input_edit) in changes {
+            if let Some(input_edit) = input_edit {
+                self.input_edit(&uri, content, input_edit, lang_type);
+            } else if let Some(lang_type) = lang_type {
+                self.add_tree(&uri, lang_type, &content);
+            }
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From e034609b7c47f188962a317ab285a33a35a55e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 04/29] verif hook: read documents and trees under
 cfg(jinja_verif)

---
 jinja-lsp/src/lib.rs       |  2 ++
 jinja-lsp/src/lsp_files.rs | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/jinja-lsp/src/lib.rs b/jinja-lsp/src/lib.rs
index b830c30..08c2dab 100644
--- a/jinja-lsp/src/lib.rs
+++ b/jinja-lsp/src/lib.rs
@@ -4,3 +4,5 @@ mod config;
 pub mod filter;
 pub mod lsp_files;
 pub mod template_tests;
+#[cfg(jinja_verif)]
+pub use config::{walkdir, InitLsp, JinjaConfig};
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 7014394..4067f95 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1003,3 +1003,35 @@ pub enum JinjaCodeAction {
     Reset,
     CreateTemplate(String),
 }
+
+#[cfg(jinja_verif)]
+impl LspFiles {
+    pub fn verif_text(&self, uri: &str) -> Option<String> {
+        Some(self.documents.get(uri)?.to_string())
+    }
+
+    pub fn verif_tree(&self, lang_type: LangType, uri: &str) -> Option<Tree> {
+        self.trees.get(&lang_type)?.get(uri).cloned()
+    }
+
+    pub fn verif_reset(&mut self) {
+        self.trees.values_mut().for_each(|trees| trees.clear());
+        self.documents.clear();
+        self.variables.clear();
+        self.code_actions.clear();
+        self.config = JinjaConfig::default();
+        self.main_channel = None;
+        self.is_vscode = false;
+        self.ignore_globals = false;
+    }
+
+    pub fn verif_uris(&self) -> (Vec<String>, Vec<(LangType, String)>) {
+        let documents = self.documents.keys().cloned().collect();
+        let trees = self
+            .trees
+            .iter()
+            .flat_map(|(lang, trees)| trees.keys().map(|uri| (*lang, uri.to_string())))
+            .collect();
+        (documents, trees)
+    }
+}
-- 
2.43.0


From 5ea3cbdafcf5e6951c5ee9511535a177ee181658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 05/29] fix: parse changed document from scratch

Scanner of the jinja grammar doesn't keep its state between parses, reused
nodes can get different boundaries (keyword with the space before it) than
nodes of the same document when it's opened, so definitions were lost after
ordinary edits.
---
 jinja-lsp/src/lsp_files.rs | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4067f95..69d3224 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -40,7 +40,7 @@ use tower_lsp::lsp_types::{
     DidChangeTextDocumentParams, DidSaveTextDocumentParams, GotoDefinitionParams,
     GotoDefinitionResponse, HoverParams, Location, Position, Range, Url,
 };
-use tree_sitter::{InputEdit, Point, Tree};
+use tree_sitter::{Point, Tree};
 
 use crate::{
     channels::{diagnostics::DiagnosticMessage, lsp::LspMessage},
@@ -134,38 +134,18 @@ impl LspFiles {
         None
     }
 
-    pub fn input_edit(
-        &mut self,
-        file: &String,
-        code: String,
-        input_edit: InputEdit,
-        lang_type: Option<LangType>,
-    ) -> Option<()> {
-        let lang_type = lang_type?;
-        let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(file)?;
-        old_tree.edit(&input_edit);
-        let new_tree = self.parsers.parse(lang_type, &code, Some(old_tree))?;
-        let trees = self.trees.get_mut(&lang_type)?;
-        trees.insert(file.to_string(), new_tree);
-        None
-    }
-
     pub fn did_change(&mut self, params: DidChangeTextDocumentParams) -> Option<()> {
         let uri = params.text_document.uri.to_string();
         let rope = self.documents.get_mut(&uri)?;
         let lang_type = self.config.file_ext(&Path::new(&uri));
-        let mut changes = vec![];
         for change in params.content_changes {
             let Some(mut range) = change.range else {
                 *rope = Rope::from_str(&change.text);
-                changes.push((change.text, None));
                 continue;
             };
             if range.start > range.end {
                 range = Range::new(range.end, range.start);
             }
-            let input_edit = rope.to_input_edit(range, &change.text);
             let start = rope.to_char(range.start);
             let end = rope.to_char(range.end);
             if start <= end {
@@ -176,16 +156,11 @@ impl LspFiles {
             if !change.text.is_empty() {
                 rope.insert(start, &change.text);
             }
-            let mut w = FileContent::default();
-            let _ = rope.write_to(&mut w);
-            changes.push((w.content, Some(input_edit)));
         }
-        for (content, input_edit) in changes {
-            if let Some(input_edit) = input_edit {
-                self.input_edit(&uri, content, input_edit, lang_type);
-            } else if let Some(lang_type) = lang_type {
-                self.add_tree(&uri, lang_type, &content);
-            }
+        let mut w = FileContent::default();
+        let _ = rope.write_to(&mut w);
+        if let Some(lang_type) = lang_type {
+            self.add_tree(&uri, lang_type, &w.content);
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From 79c745d42cca42695dd19ea9d8003c11ac23ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 06/29] fix: endset and endcall don't close scope of the outer
 block

set and call are not opening a scope, so their end tag was closing the
scope of the block around them and its variables were reported as undefined.
---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..aa82660 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end")
+        (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From 472d032fd0c46632e9c380de79e9b5a56b2fbe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 07/29] fix: add second variable of the for loop

value was never initialized so `value` in `for key, value in items` was
never added to definitions and every use of it was undefined variable.
---
 jinja-lsp-queries/src/search/definition.rs | 13 ++++++++-----
 jinja-lsp-queries/src/search/queries.rs    |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..309a784 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -209,6 +209,11 @@ impl JinjaDefinitions {
                     self.can_open_scope = false;
                 }
             }
+            "in" => {
+                if let Some(Definition::ForLoop { .. }) = self.definitions.last() {
+                    self.can_add_id = false;
+                }
+            }
             "error" => {
                 return None;
             }
@@ -231,11 +236,9 @@ impl JinjaDefinitions {
                         Definition::ForLoop { key, value } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
-                                }
+                            } else if value.is_none() {
+                                *value = Some(identifier);
+                                self.can_add_id = false;
                             }
                         }
                         Definition::Set { key, .. } => {
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index aa82660..7219c18 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -210,6 +210,11 @@ const DEFINITIONS: &str = r#"
         (#match? @definition "^(for|set|with|macro|block)$")
     )
     
+    (
+    	(keyword) @in
+        (#eq? @in "in")
+    )
+
     (
     	(keyword) @scope
         (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
-- 
2.43.0


From c715dc9c90d54acb6fba96789bfb4a1b49137278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 08/29] fix: completion inside of the multiline string

Trigger point can be after the end column when string has more than one line,
subtraction was overflowing.
---
 jinja-lsp-queries/src/search/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..2538cd5 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,7 +61,7 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
-    let diff = identifier.end.column - trigger_point.column;
+    let diff = identifier.end.column.saturating_sub(trigger_point.column);
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
     }
-- 
2.43.0


From 42b06babcea0b739e6160d0c1cc11491b7f6e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 09/29] fix: filter after the call is a filter

`) | ` is one operator, filter after it (`a | default(1) | upper`) was treated
as variable and reported as undefined.
---
 jinja-lsp-queries/src/search/objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..32e4d51 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -73,7 +73,7 @@ impl JinjaObjects {
             }
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                if content.starts_with('|') {
+                if content.trim_end().ends_with('|') {
                     self.pipe = (start, end);
                 }
                 return Some(ObjectAction::NewFilter);
-- 
2.43.0


From b57be7681e48255843c437e03fecbf3586c30bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 10/29] fix: delete everything that belongs to the deleted
 document

Trees of backend files and code actions were left behind.
---
 jinja-lsp/src/lsp_files.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 69d3224..29ac563 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -880,8 +880,9 @@ impl LspFiles {
         for i in ids {
             self.documents.remove(&i);
             self.variables.remove(&i);
-            if let Some(templates) = self.trees.get_mut(&LangType::Template) {
-                templates.remove(&i);
+            self.code_actions.remove(&i);
+            for trees in self.trees.values_mut() {
+                trees.remove(&i);
             }
         }
     }
-- 
2.43.0


From 1c30dcbb4c249386297d1fa2e24512d3be3541b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 11/29] fix: don't panic in goto definition when name of the
 file is not url

Link hints are saved with any name, default one(temp) is not valid url.
---
 jinja-lsp/src/lsp_files.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 29ac563..ee8888c 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -419,11 +419,12 @@ impl LspFiles {
                                 if variable.start == Point::new(0, 0)
                                     && variable.end == Point::new(0, 0)
                                 {
-                                    Url::parse(&format!("{}-{}", &file.0, &variable.name)).unwrap()
+                                    Url::parse(&format!("{}-{}", &file.0, &variable.name))
                                 } else {
-                                    Url::parse(file.0).unwrap()
+                                    Url::parse(file.0)
                                 }
                             };
+                            let Ok(uri) = uri else { continue };
                             let start = to_position2(variable.start);
                             let end = to_position2(variable.end);
                             let range = Range::new(start, end);
-- 
2.43.0


From 1c5e3c240ce2c138edbbe6002aadd3c62990850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 12/29] fix: escape file names in urls

Name with space was known under different url than one used by the client,
with `#`, `?` or `%` url was for different file.
---
 jinja-lsp/src/lsp_files.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index ee8888c..bd76fb7 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -64,10 +64,9 @@ pub struct LspFiles {
 impl LspFiles {
     pub fn read_file(&mut self, path: &&Path, lang_type: LangType) -> Option<()> {
         if let Ok(name) = std::fs::canonicalize(path) {
-            let name = name.to_str()?;
-            let file_content = read_to_string(name).ok()?;
+            let file_content = read_to_string(&name).ok()?;
             let rope = Rope::from_str(&file_content);
-            let name = format!("file://{}", name);
+            let name = Url::from_file_path(name).ok()?.to_string();
             let adding = name.clone();
             self.documents.insert(name.to_string(), rope);
             self.add_tree(&name, lang_type, &file_content);
@@ -398,8 +397,7 @@ impl LspFiles {
                     let mut path = self.config.templates.clone();
                     path.push(&identifier.name);
                     let buffer = std::fs::canonicalize(path).ok()?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -446,8 +444,7 @@ impl LspFiles {
                 let mut path = self.config.templates.clone();
                 path.push(&template.name);
                 let buffer = std::fs::canonicalize(path).ok()?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
@@ -523,9 +520,8 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        uri: Url::from_file_path(path).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
-- 
2.43.0


From 9f94c58a5a7312b2e7d75dde5f0f392644503b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 13/29] fix: template completion in any templates directory

Name of the template was taken by splitting url with path of templates
directory without dots, it was wrong when that path is repeated in url and
every completion was lost when any template is not in that directory.
---
 jinja-lsp/src/lsp_files.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index bd76fb7..cf45ad7 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -677,6 +677,7 @@ impl LspFiles {
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
+        let root = std::fs::canonicalize(&self.config.templates).ok()?;
         if prefix.is_empty() {
             prefix = String::from("file:///");
         }
@@ -685,16 +686,13 @@ impl LspFiles {
             .filter(|template| template.contains(&prefix));
         let mut abc = vec![];
         for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+            let Some(label) = Url::parse(template)
+                .ok()
+                .and_then(|url| url.to_file_path().ok())
+                .and_then(|path| Some(path.strip_prefix(&root).ok()?.to_str()?.to_string()))
+            else {
+                continue;
+            };
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From 203c4aacba80ddbfde1973811702ef0689865543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 14/29] fix: ignore position before the first line of the
 document

Subtraction was overflowing.
---
 jinja-lsp-nodejs/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 3436232..5af92c7 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -260,7 +260,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<JsHover> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: HoverParams = HoverParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -343,7 +343,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsCompletionItem>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let original_uri = filename.to_string();
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let position = Position::new(position.line, position.character);
@@ -474,7 +474,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsLocation>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: GotoDefinitionParams = GotoDefinitionParams {
       text_document_position_params: TextDocumentPositionParams::new(
-- 
2.43.0


From 34850cb03e11b77d9d854276194d36829ffba118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 15/29] fix: template below a file is not found

`base.html/x` can't exist when base.html is a file, error kind for it is
NotADirectory.
---
 jinja-lsp-queries/src/lsp_helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..68809eb 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -100,7 +100,7 @@ pub fn search_errors(
                     let mut templates = templates.clone();
                     templates.push(path_items(&i.name));
                     if let Err(err) = std::fs::canonicalize(templates) {
-                        if err.kind() == ErrorKind::NotFound {
+                        if matches!(err.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) {
                             let diagnostic = (err_type, i.to_owned());
                             diagnostics.push(diagnostic);
                         }
@@ -118,7 +118,7 @@ pub fn search_errors(
                 let mut templates = templates.clone();
                 templates.push(path_items(&template.name));
                 if let Err(err) = std::fs::canonicalize(templates) {
-                    if err.kind() == ErrorKind::NotFound {
+                    if matches!(err.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) {
                         let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
                         diagnostics.push(diagnostic);
                     }
-- 
2.43.0


From 8d0e3bd253376a1c342fbde7f4ec6ea3b9d3da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 16/29] fix: replace the typed prefix by the completed name in
 vscode

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index cf45ad7..54fa5f2 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -617,7 +617,7 @@ impl LspFiles {
                         let mut edits = vec;
                         edits.push(TextEdit {
                             range: incomplete_range,
-                            new_text: start_item.to_string(),
+                            new_text: identifier.name.to_string(),
                         });
                         additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-- 
2.43.0


From ff4a229d4974c956cec72e342710e55ff5e916f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 17/29] fix: go to the template below the templates directory

---
 jinja-lsp/src/lsp_files.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 54fa5f2..e417c8e 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -395,7 +395,7 @@ impl LspFiles {
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
+                    path.push(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
                     let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
@@ -442,7 +442,7 @@ impl LspFiles {
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
-                path.push(&template.name);
+                path.push(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
                 let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
-- 
2.43.0


From 41e103cc66e613c6d5d5620a4ae31a66bf5afbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 18/29] verif hook: export the backend under cfg(jinja_verif)

---
 jinja-lsp/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinja-lsp/src/lib.rs b/jinja-lsp/src/lib.rs
index 08c2dab..5d45ad5 100644
--- a/jinja-lsp/src/lib.rs
+++ b/jinja-lsp/src/lib.rs
@@ -5,4 +5,6 @@ pub mod filter;
 pub mod lsp_files;
 pub mod template_tests;
 #[cfg(jinja_verif)]
+pub use backend::Backend;
+#[cfg(jinja_verif)]
 pub use config::{walkdir, InitLsp, JinjaConfig};
-- 
2.43.0


From 4ff97f5c6f24b467b49555e24f518113c5fecc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 19/29] fix: completion covers the whole dotted name under the
 cursor

---
 jinja-lsp-queries/src/search/objects.rs | 31 ++++++++++++-------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 32e4d51..fae90c1 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -112,7 +112,7 @@ impl JinjaObjects {
                     self.ident = (start, end);
                 });
                 match last_object {
-                    Some(_) => {}
+                    Some(_) => return ObjectAction::NewField,
                     None => {
                         // TODO: in future add those to main library
                         if VALID_IDENTIFIERS.contains(&value) {
@@ -271,17 +271,24 @@ pub fn objects_query(
                 if objects.is_filter() || name == "expr" {
                     break 'loop1;
                 } else if !continued {
-                    if objects.is_hover(trigger_point) {
-                        continued = true;
-                        my_id = objects.objects.len() - 1;
-                        my_expr = objects.expr;
-                        continue;
-                    } else {
+                    if !objects.is_hover(trigger_point) {
                         break 'loop1;
                     }
-                } else if continued {
+                    continued = true;
+                    my_id = objects.objects.len() - 1;
+                    my_expr = objects.expr;
+                }
+                if continued {
                     let name = &capture_names[capture.index as usize];
                     let checked = objects.check(name, capture, text);
+                    objects
+                        .objects
+                        .get_mut(my_id)
+                        .and_then(|obj| -> Option<()> {
+                            objects.ident = obj.location;
+                            obj.capture_first = true;
+                            None
+                        });
                     if checked.is_none() {
                         break 'loop1;
                     } else if checked.is_some_and(|item| {
@@ -292,14 +299,6 @@ pub fn objects_query(
                                 | ObjectAction::Invalid
                         )
                     }) {
-                        objects
-                            .objects
-                            .get_mut(my_id)
-                            .and_then(|obj| -> Option<()> {
-                                objects.ident = obj.location;
-                                obj.capture_first = true;
-                                None
-                            });
                         if my_id != objects.objects.len() - 1 {
                             objects.objects.pop();
                             objects.expr = my_expr;
-- 
2.43.0


From 8b5b27a27802429c1c8d43388334d558be6abda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 20/29] fix: attribute of a call, subscript or literal reported
 as undefined variable

---
 jinja-lsp-queries/src/search/objects.rs | 32 ++++++++++++-------------
 jinja-lsp-queries/src/search/queries.rs |  2 +-
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index fae90c1..5a4d539 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -68,7 +68,14 @@ impl JinjaObjects {
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
-                self.dot = (start, end);
+                // a dot that follows a bracket, as in `f(x).y`, does not start at a name
+                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
+                let begin = if content.trim_end() == "." {
+                    start
+                } else {
+                    end
+                };
+                self.dot = (begin, end);
                 return Some(ObjectAction::NewField);
             }
             "pipe" => {
@@ -107,26 +114,19 @@ impl JinjaObjects {
         let end = capture.node.end_position();
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
-                let last_object = self.objects.last_mut().map(|last| {
+                // only the name right before the dot has this field: `f(x).y` is not a field of `x`
+                let dot = self.dot.0;
+                let owner = self
+                    .objects
+                    .last_mut()
+                    .filter(|last| last.last_field_end() == dot);
+                let last_object = owner.map(|last| {
                     last.fields.push((String::from(value), (start, end)));
                     self.ident = (start, end);
                 });
                 match last_object {
                     Some(_) => return ObjectAction::NewField,
-                    None => {
-                        // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) {
-                            return ObjectAction::Invalid;
-                        }
-                        self.ident = (start, end);
-                        let is_test = self.test.2;
-                        let is_filter = self.is_hover(start) && self.is_filter();
-                        let obj =
-                            JinjaObject::new(String::from(value), start, end, is_filter, is_test);
-                        self.objects.push(obj);
-                        self.test.2 = false;
-                        return ObjectAction::NewObject;
-                    }
+                    None => return ObjectAction::Invalid,
                 }
             } else {
                 // TODO: in future add those to main library
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 7219c18..77c83af 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -57,7 +57,7 @@ const OBJECTS: &str = r#"
     [
         (
             (operator) @dot
-            (#eq? @dot "\.")
+            (#match? @dot "\\.\\s*$")
         )
 
         (
-- 
2.43.0


From e7a92815071c1ba27a1a70f00675e0467a64ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 21/29] fix: none and capitalized literals reported as
 undefined variables

---
 jinja-lsp-queries/src/search/objects.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 5a4d539..27aef1a 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -323,8 +323,9 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
-static VALID_IDENTIFIERS: [&str; 8] = [
-    "loop", "true", "false", "not", "as", "module", "super", "url_for",
+static VALID_IDENTIFIERS: [&str; 12] = [
+    "loop", "true", "false", "True", "False", "none", "None", "not", "as", "module", "super",
+    "url_for",
 ];
 
 #[derive(Default, Debug, Clone, Copy)]
-- 
2.43.0


From d7eed63afa20e938ab346e2de26c42434b69d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:25 +0000
Subject: [PATCH 22/29] fix: the server stopped answering when many documents
 were reported at once

---
 jinja-lsp/src/backend.rs              |  3 ++-
 jinja-lsp/src/channels/diagnostics.rs |  4 ++--
 jinja-lsp/src/channels/lsp.rs         | 23 +++++++++++++++--------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..4a6cb6f 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -156,7 +156,8 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
+        // both tasks send to each other, one of them must not wait for the other
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
             client.clone(),
             diagnostic_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..fe92399 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Sender, UnboundedReceiver};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -13,7 +13,7 @@ use super::lsp::LspMessage;
 
 pub fn diagnostics_task(
     client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
+    mut receiver: UnboundedReceiver<DiagnosticMessage>,
     lsp_channel: Sender<LspMessage>,
 ) {
     tokio::spawn(async move {
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..f96938d 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -31,7 +31,7 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
 ) {
@@ -128,9 +128,8 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
+                                let _ =
+                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
@@ -151,7 +150,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -333,13 +332,13 @@ pub fn lsp_task(
                     let command = params.command;
                     if command == "reset_variables" {
                         let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        initialize_again(&lsp_channel, sender2);
                         let _ = sender.send(None);
                     }
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DocumentSymbol(params, sender) => {
@@ -357,7 +356,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    initialize_again(&lsp_channel, sender);
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
@@ -367,6 +366,14 @@ pub fn lsp_task(
     });
 }
 
+/// This task is the only receiver of `lsp_channel`, it can't wait until there is room for one more message.
+fn initialize_again(lsp_channel: &mpsc::Sender<LspMessage>, sender: oneshot::Sender<bool>) {
+    let lsp_channel = lsp_channel.clone();
+    tokio::spawn(async move {
+        let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+    });
+}
+
 pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
-- 
2.43.0


From 025282f86bdcb562d4897819281e99eca06438d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:46 +0000
Subject: [PATCH 23/29] fix: reading the directories again lost unsaved text of
 opened documents

---
 jinja-lsp/src/backend.rs      |  4 +++-
 jinja-lsp/src/channels/lsp.rs | 25 +++++++++++++++----------
 jinja-lsp/src/lsp_files.rs    | 31 +++++++++++++++++++++++++++++--
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 4a6cb6f..b4d6739 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -55,7 +55,9 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, _params: DidCloseTextDocumentParams) {}
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+    }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index f96938d..7ebe35d 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -9,12 +9,12 @@ use tower_lsp::{
         CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
         CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
         CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidOpenTextDocumentParams, DidSaveTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
-        GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
-        HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
-        TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
+        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities,
+        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
         TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
@@ -127,11 +127,12 @@ pub fn lsp_task(
                             .await;
                     } else {
                         match walkdir(&config) {
-                            Ok(errors) => {
-                                let _ =
-                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
+                            Ok((mut errors, mut files)) => {
+                                files.keep_opened(&lsp_data);
+                                files.read_trees(&mut errors);
+                                let _ = diagnostics_channel.send(DiagnosticMessage::Errors(errors));
                                 let vscode = lsp_data.is_vscode;
-                                lsp_data = errors.1;
+                                lsp_data = files;
                                 lsp_data.is_vscode = vscode;
                                 lsp_data.config = config.clone();
                                 lsp_data.main_channel = Some(lsp_channel.clone());
@@ -341,6 +342,9 @@ pub fn lsp_task(
                         let _ = diagnostics_channel.send(errors);
                     }
                 }
+                LspMessage::DidClose(params) => {
+                    lsp_data.did_close(params);
+                }
                 LspMessage::DocumentSymbol(params, sender) => {
                     if let Some(symbols) = lsp_data.document_symbols(params) {
                         let _ = sender.send(Some(symbols));
@@ -378,6 +382,7 @@ pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
     DidOpen(DidOpenTextDocumentParams),
+    DidClose(DidCloseTextDocumentParams),
     DidChange(DidChangeTextDocumentParams),
     DidSave(DidSaveTextDocumentParams),
     Completion(
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index e417c8e..db906d0 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -37,8 +37,8 @@ use ropey::Rope;
 
 use tower_lsp::lsp_types::{
     CodeActionParams, CompletionContext, CompletionItem, CompletionParams, CompletionTriggerKind,
-    DidChangeTextDocumentParams, DidSaveTextDocumentParams, GotoDefinitionParams,
-    GotoDefinitionResponse, HoverParams, Location, Position, Range, Url,
+    DidChangeTextDocumentParams, DidCloseTextDocumentParams, DidSaveTextDocumentParams,
+    GotoDefinitionParams, GotoDefinitionResponse, HoverParams, Location, Position, Range, Url,
 };
 use tree_sitter::{Point, Tree};
 
@@ -50,6 +50,7 @@ use crate::{
 pub struct LspFiles {
     trees: HashMap<LangType, HashMap<String, Tree>>,
     documents: HashMap<String, Rope>,
+    opened: HashSet<String>,
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
@@ -759,6 +760,7 @@ impl LspFiles {
         let file_content = params.text_document.text;
         let rope = Rope::from_str(&file_content);
         self.delete_variables(name);
+        self.opened.insert(name.to_string());
         self.documents.insert(name.to_string(), rope);
         self.add_tree(name, lang_type, &file_content);
         self.add_variables(name, lang_type, &file_content);
@@ -772,6 +774,27 @@ impl LspFiles {
         Some(msg)
     }
 
+    pub fn did_close(&mut self, params: DidCloseTextDocumentParams) {
+        self.opened.remove(params.text_document.uri.as_str());
+    }
+
+    /// Documents opened in the editor keep their text, it can differ from the saved one.
+    pub fn keep_opened(&mut self, previous: &LspFiles) {
+        for name in &previous.opened {
+            let Some(rope) = previous.documents.get(name) else {
+                continue;
+            };
+            let Some(lang_type) = self.config.file_ext(&Path::new(name)) else {
+                continue;
+            };
+            let file_content = rope.to_string();
+            self.opened.insert(name.to_string());
+            self.documents.insert(name.to_string(), rope.clone());
+            self.add_tree(name, lang_type, &file_content);
+            self.add_variables(name, lang_type, &file_content);
+        }
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
@@ -874,6 +897,7 @@ impl LspFiles {
         }
         for i in ids {
             self.documents.remove(&i);
+            self.opened.remove(&i);
             self.variables.remove(&i);
             self.code_actions.remove(&i);
             for trees in self.trees.values_mut() {
@@ -895,6 +919,7 @@ impl Default for LspFiles {
             parsers: Parsers::default(),
             queries: Queries::default(),
             documents: HashMap::new(),
+            opened: HashSet::new(),
             config: JinjaConfig::default(),
             diagnostics_task,
             main_channel,
@@ -912,6 +937,7 @@ impl Clone for LspFiles {
         let parsers = Parsers::default();
         let queries = Queries::default();
         let documents = self.documents.clone();
+        let opened = self.opened.clone();
         let main_channel = self.main_channel.clone();
         let variables = self.variables.clone();
         let is_vscode = self.is_vscode;
@@ -921,6 +947,7 @@ impl Clone for LspFiles {
         Self {
             trees,
             documents,
+            opened,
             parsers,
             queries,
             config,
-- 
2.43.0


From bbc1c087342ed699a2502fd0e12ee65d9ba3863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:26 +0000
Subject: [PATCH 24/29] fix: changing a document cancelled the pending report
 of another one

---
 jinja-lsp/src/lsp_files.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index db906d0..d86a63f 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -54,7 +54,7 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -166,16 +166,18 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
+        // a report that is pending for another document must still be sent
+        if let Some(task) = self.diagnostics_tasks.remove(&uri) {
             task.abort();
         }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        self.diagnostics_tasks.insert(uri, task);
         None
     }
 
@@ -912,7 +914,6 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
         let main_channel = None;
         Self {
             trees,
@@ -921,7 +922,7 @@ impl Default for LspFiles {
             documents: HashMap::new(),
             opened: HashSet::new(),
             config: JinjaConfig::default(),
-            diagnostics_task,
+            diagnostics_tasks: HashMap::new(),
             main_channel,
             variables: HashMap::default(),
             is_vscode: false,
@@ -943,7 +944,6 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
         Self {
             trees,
             documents,
@@ -955,7 +955,7 @@ impl Clone for LspFiles {
             variables,
             code_actions,
             is_vscode,
-            diagnostics_task: task,
+            diagnostics_tasks: HashMap::new(),
             ignore_globals: self.ignore_globals,
         }
     }
-- 
2.43.0


From be6d204c05873823efe595e9717a65b81ba1f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 25/29] verif hook: reset the opened documents and pending
 reports too

---
 jinja-lsp/src/lsp_files.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index d86a63f..66946d9 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1017,6 +1017,8 @@ impl LspFiles {
         self.documents.clear();
         self.variables.clear();
         self.code_actions.clear();
+        self.opened.clear();
+        self.diagnostics_tasks.clear();
         self.config = JinjaConfig::default();
         self.main_channel = None;
         self.is_vscode = false;
-- 
2.43.0


From 84bd37f52fe76aedefbf4acc9302491262584259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:51 +0000
Subject: [PATCH 26/29] fix: definitions of the saved file kept for an opened
 document that has errors

---
 jinja-lsp/src/lsp_files.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 66946d9..4e91eb6 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -790,6 +790,7 @@ impl LspFiles {
                 continue;
             };
             let file_content = rope.to_string();
+            self.delete_variables(name);
             self.opened.insert(name.to_string());
             self.documents.insert(name.to_string(), rope.clone());
             self.add_tree(name, lang_type, &file_content);
-- 
2.43.0


From f799155379d8b1e6aa89b40e84e26a11e20e60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 27/29] fix: problems of the saved file published for an opened
 document that has errors

---
 jinja-lsp/src/channels/lsp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 7ebe35d..c042cd5 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -127,8 +127,9 @@ pub fn lsp_task(
                             .await;
                     } else {
                         match walkdir(&config) {
-                            Ok((mut errors, mut files)) => {
+                            Ok((_, mut files)) => {
                                 files.keep_opened(&lsp_data);
+                                let mut errors = HashMap::new();
                                 files.read_trees(&mut errors);
                                 let _ = diagnostics_channel.send(DiagnosticMessage::Errors(errors));
                                 let vscode = lsp_data.is_vscode;
-- 
2.43.0


From 5d4a183d392cd0c8fe72ec7451bb9f109140dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:32 +0000
Subject: [PATCH 28/29] fix: elif, else and an inline if opened a scope that
 nothing closes

---
 jinja-lsp-queries/src/search/queries.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 77c83af..8fa7ad6 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -215,9 +215,11 @@ const DEFINITIONS: &str = r#"
         (#eq? @in "in")
     )
 
-    (
-    	(keyword) @scope
-        (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
+    (statement
+        (statement_begin)
+        .
+        (keyword) @scope
+        (#match? @scope "^(if|filter|autoescape|raw)$")
     )
 
     (
-- 
2.43.0


From 4fd09470a47263531b83ed87308083afd31a99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:35 +0000
Subject: [PATCH 29/29] fix: and, or, in, if and else between expressions were
 reported as undefined variables

---
 jinja-lsp-queries/src/search/objects.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 27aef1a..7d387d2 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -323,9 +323,9 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
-static VALID_IDENTIFIERS: [&str; 12] = [
-    "loop", "true", "false", "True", "False", "none", "None", "not", "as", "module", "super",
-    "url_for",
+static VALID_IDENTIFIERS: [&str; 17] = [
+    "loop", "true", "false", "True", "False", "none", "None", "not", "and", "or", "in", "if",
+    "else", "as", "module", "super", "url_for",
 ];
 
 #[derive(Default, Debug, Clone, Copy)]
-- 
2.43.0

