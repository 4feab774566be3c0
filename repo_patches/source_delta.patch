From 7b819864f4422c9ebc17a2c4849642dcf732042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 01/34] fix: a key without children decodes to an empty object
 instead of swallowing its siblings

---
 crates/toon/src/decode/parser.rs | 33 ++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..882be1e 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -63,6 +63,14 @@ impl<'a> Parser<'a> {
         self.lines.get(self.idx)
     }
 
+    /// The next non-blank line, without consuming anything.
+    fn peek_content(&self) -> Option<&ParsedLine<'a>> {
+        self.lines
+            .get(self.idx..)?
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+    }
+
     fn next(&mut self) -> Option<&ParsedLine<'a>> {
         let i = self.idx;
         self.idx += 1;
@@ -295,8 +303,18 @@ impl<'a> Parser<'a> {
                     let child_indent = indent + 2;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
+                        // Value on following lines, indented deeper than the sibling fields;
+                        // with none, the value is an empty object
+                        let has_children = self.peek_content().is_some_and(|nl| {
+                            nl.indent > child_indent
+                                || (nl.indent == child_indent
+                                    && matches!(nl.kind, LineKind::ListItem { .. }))
+                        });
+                        let v = if has_children {
+                            self.parse_node(child_indent)
+                        } else {
+                            Value::Object(Vec::new())
+                        };
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
@@ -403,6 +421,17 @@ impl<'a> Parser<'a> {
                     }
                     self.next();
                     let k = self.parse_key_token(kref);
+                    // Children are indented deeper than the key (list items may also sit
+                    // at the key's own indent); with none, the value is an empty object
+                    let has_children = self.peek_content().is_some_and(|nl| {
+                        nl.indent > indent
+                            || (nl.indent == indent && matches!(nl.kind, LineKind::ListItem { .. }))
+                    });
+                    if !has_children {
+                        map.push((k, Value::Object(Vec::new())));
+                        continue;
+                    }
+                    self.skip_blanks();
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
                     let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
                     let mut handled = false;
-- 
2.43.0


From a2e450ccec7e36448f16a9dfb1630e2094763e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 02/34] fix: lines at or above an array header's level are not
 its items or rows

---
 crates/toon/src/decode/parser.rs | 40 ++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 882be1e..9bd48ff 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -71,6 +71,16 @@ impl<'a> Parser<'a> {
             .find(|l| !matches!(l.kind, LineKind::Blank))
     }
 
+    /// Indent of the lines belonging to an array whose header's owner sits at `parent`.
+    /// They are deeper than it (or, with `allow_equal`, at its own indent); if the next
+    /// line is not, the array has no lines and no indent matches.
+    fn array_child_indent(&self, parent: usize, allow_equal: bool) -> usize {
+        match self.peek_content() {
+            Some(l) if l.indent > parent || (allow_equal && l.indent == parent) => l.indent,
+            _ => usize::MAX,
+        }
+    }
+
     fn next(&mut self) -> Option<&ParsedLine<'a>> {
         let i = self.idx;
         self.idx += 1;
@@ -250,7 +260,7 @@ impl<'a> Parser<'a> {
                             let key_parsed = self.parse_key_token(key);
                             let child_indent = indent + 2;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, indent, false);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
@@ -262,7 +272,7 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                            let row_indent = self.array_child_indent(indent, false);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
@@ -292,8 +302,13 @@ impl<'a> Parser<'a> {
                             continue;
                         }
                         // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
-                        arr.push(self.parse_array(child_indent));
+                        let header_line_no = self.idx; // Already consumed the header
+                        let child_indent = self.array_child_indent(indent, false);
+                        arr.push(self.parse_array_with_length_check(
+                            child_indent,
+                            header.length,
+                            header_line_no,
+                        ));
                         continue;
                     }
                 }
@@ -360,7 +375,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent, true);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -396,7 +411,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent, true);
                         map.push((k, v));
                         continue;
                     }
@@ -415,7 +430,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent, true);
                         map.push((k, v));
                         continue;
                     }
@@ -996,7 +1011,12 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
+    fn parse_keyed_array_value(
+        &mut self,
+        header: &ArrayHeader,
+        parent: usize,
+        allow_equal: bool,
+    ) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
         // In strict mode, check for delimiter mismatch between bracket and brace
@@ -1010,7 +1030,7 @@ impl<'a> Parser<'a> {
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
             // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+            let row_indent = self.array_child_indent(parent, allow_equal);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1046,7 +1066,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+        let child_indent = self.array_child_indent(parent, allow_equal);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
-- 
2.43.0


From ff53a4fe4506aec05fc10cc41220684b42383e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 03/34] fix: check the declared length of inline arrays inside
 list items

---
 crates/toon/src/decode/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 9bd48ff..2d47d7f 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -287,6 +287,16 @@ impl<'a> Parser<'a> {
                         if let Some(ref inline) = header.inline_values {
                             if !inline.is_empty() {
                                 let values = split_delim_aware(inline, header.delimiter);
+                                if values.len() != header.length && self.error.is_none() {
+                                    self.error = Some(crate::error::Error::Syntax {
+                                        line: self.idx,
+                                        message: format!(
+                                            "array length mismatch: header declares {} elements but found {}",
+                                            header.length,
+                                            values.len()
+                                        ),
+                                    });
+                                }
                                 arr.push(Value::Array(
                                     values
                                         .into_iter()
-- 
2.43.0


From 343c8d580142f17aaed5ebe452481675716870a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 04/34] fix: honour the indent option inside list items when
 encoding and decoding

---
 crates/toon/src/de/mod.rs          |   2 +-
 crates/toon/src/decode/parser.rs   |  40 ++++++++---
 crates/toon/src/encode/encoders.rs |   8 +--
 crates/toon/src/ser/stream.rs      | 103 ++++++++++++++++++++---------
 4 files changed, 104 insertions(+), 49 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..5685257 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 2d47d7f..de2b067 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -10,10 +10,14 @@ use alloc::{
 use crate::number::has_forbidden_leading_zeros;
 use crate::value::{Number, Value};
 
+/// Indent width assumed when none is configured.
+const DEFAULT_INDENT_UNIT: usize = 2;
+
 pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    indent_unit: usize,
     error: Option<crate::error::Error>,
 }
 
@@ -23,6 +27,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_unit: DEFAULT_INDENT_UNIT,
             error: None,
         }
     }
@@ -32,6 +37,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_unit: DEFAULT_INDENT_UNIT,
             error: None,
         }
     }
@@ -41,10 +47,17 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_unit: DEFAULT_INDENT_UNIT,
             error: None,
         }
     }
 
+    /// Set the indent width that separates a list item from its object's fields.
+    pub fn with_indent_unit(mut self, unit: usize) -> Self {
+        self.indent_unit = if unit == 0 { DEFAULT_INDENT_UNIT } else { unit };
+        self
+    }
+
     pub fn is_empty(&self) -> bool {
         self.lines.is_empty()
     }
@@ -258,7 +271,7 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
+                            let child_indent = indent + self.indent_unit;
                             let mut map: Vec<(String, Value)> = Vec::new();
                             let v = self.parse_keyed_array_value(&header, indent, false);
                             map.push((key_parsed, v));
@@ -325,7 +338,7 @@ impl<'a> Parser<'a> {
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
+                    let child_indent = indent + self.indent_unit;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following lines, indented deeper than the sibling fields;
@@ -355,7 +368,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
+                let child_indent = indent + self.indent_unit;
                 let child_val = self.parse_node(child_indent);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
@@ -458,7 +471,10 @@ impl<'a> Parser<'a> {
                     }
                     self.skip_blanks();
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self
+                        .peek()
+                        .map(|l| l.indent)
+                        .unwrap_or(indent + self.indent_unit);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -851,7 +867,7 @@ impl<'a> Parser<'a> {
                                         header.length,
                                         header.delimiter,
                                         &fields_refs,
-                                        indent + 2,
+                                        indent + self.indent_unit,
                                         header_line_no,
                                     );
                                 }
@@ -981,13 +997,14 @@ impl<'a> Parser<'a> {
         self.next(); // Consume header line
 
         if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
+            // Tabular array - rows indented below the header
+            let row_indent = self.array_child_indent(0, false);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
                 header.delimiter,
                 &fields_refs,
-                2,
+                row_indent,
                 line_no,
             );
         }
@@ -1016,8 +1033,9 @@ impl<'a> Parser<'a> {
             }
         }
 
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        // Expanded array with list items indented below the header
+        let child_indent = self.array_child_indent(0, false);
+        self.parse_array_with_length_check(child_indent, header.length, line_no)
     }
 
     /// Parse the value for a keyed array header
@@ -1798,9 +1816,9 @@ pub fn parse_to_internal_value(input: &str) -> Value {
 
 pub fn parse_to_internal_value_from_lines<'a>(
     lines: Vec<ParsedLine<'a>>,
-    strict: bool,
+    options: &crate::options::Options,
 ) -> Result<Value, crate::error::Error> {
-    let mut p = Parser::from_lines(lines, strict);
+    let mut p = Parser::from_lines(lines, options.strict).with_indent_unit(options.indent);
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..1c8f4ad 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -605,7 +605,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2 (two levels relative to list item indent)
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -616,7 +616,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -681,7 +681,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -689,7 +689,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..65f68d0 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -776,7 +776,7 @@ fn encode_list_item_json(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at depth + 2
                     for item in items {
                         let inner_obj = item.as_object().unwrap();
                         let cells: Vec<String> = keys
@@ -787,7 +787,7 @@ fn encode_list_item_json(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -821,8 +821,13 @@ fn encode_list_item_json(
                             }
                             Value::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
+                                crate::encode::encoders::encode_value(
+                                    v,
+                                    w,
+                                    opts,
+                                    indent + 2 * opts.indent,
+                                )
+                                .map_err(|e| SerError::custom(e.to_string()))?;
                             }
                         }
                     }
@@ -884,7 +889,7 @@ fn encode_list_item_json(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
+                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -894,25 +899,42 @@ fn encode_list_item_json(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
+                                Value::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                Value::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
+                                Value::Number(n) => {
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
                                 Value::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_json(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    crate::encode::encoders::encode_value(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )
+                                    .map_err(|e| SerError::custom(e.to_string()))?;
                                 }
                             }
                         }
@@ -941,7 +963,7 @@ fn encode_list_item_json(
                     }
                     Value::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
+                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
                             .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                 }
@@ -1119,7 +1141,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at depth + 2
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -1133,7 +1155,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -1167,7 +1189,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -1229,7 +1251,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -1239,26 +1261,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -1287,7 +1324,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From 951939608748dc9b2c0091b4d98590acbc996fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 05/34] fix: arrays of empty objects are lists, not tables
 without columns

---
 crates/toon/src/encode/encoders.rs | 4 ++++
 crates/toon/src/ser/stream.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 1c8f4ad..21906ef 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -736,6 +736,10 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
                 return None;
             }
         } else {
+            // A table needs at least one column
+            if kset.is_empty() {
+                return None;
+            }
             // Use the key order from the first object
             keys = Some(kset);
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 65f68d0..ebfa5b8 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1435,6 +1435,10 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
                 return None;
             }
         } else {
+            // A table needs at least one column
+            if kset.is_empty() {
+                return None;
+            }
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
-- 
2.43.0


From 7d374f986ba0690151357b686f17a45b1d969872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 06/34] fix: decoded keys carry no path-expansion markers

---
 crates/toon/src/decode/parser.rs      | 42 ++++++++++++++++++---------
 crates/toon/src/decode/path_expand.rs |  2 +-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index de2b067..f31c2b5 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -18,6 +18,8 @@ pub struct Parser<'a> {
     idx: usize,
     strict: bool,
     indent_unit: usize,
+    /// Mark keys that path expansion must leave alone (see `mark_literal_key`)
+    mark_literal_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -28,6 +30,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict: false,
             indent_unit: DEFAULT_INDENT_UNIT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -38,6 +41,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_unit: DEFAULT_INDENT_UNIT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -48,6 +52,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_unit: DEFAULT_INDENT_UNIT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -58,6 +63,12 @@ impl<'a> Parser<'a> {
         self
     }
 
+    /// Mark quoted keys so that path expansion, which strips the marks, keeps them literal.
+    pub fn with_literal_key_marks(mut self, on: bool) -> Self {
+        self.mark_literal_keys = on;
+        self
+    }
+
     pub fn is_empty(&self) -> bool {
         self.lines.is_empty()
     }
@@ -188,20 +199,23 @@ impl<'a> Parser<'a> {
         self.parse_key_token_at_line(k, self.idx)
     }
 
+    /// When keys are going to be expanded, prefix the marker (U+200B) to quoted keys that
+    /// look like paths, and to keys that start with the marker themselves.
+    fn mark_literal_key(&self, key: String, quoted: bool) -> String {
+        let marker = crate::decode::path_expand::QUOTED_DOT_MARKER;
+        if self.mark_literal_keys && ((quoted && key.contains('.')) || key.starts_with(marker)) {
+            let mut marked = String::with_capacity(key.len() + marker.len_utf8());
+            marked.push(marker);
+            marked.push_str(&key);
+            return marked;
+        }
+        key
+    }
+
     fn parse_key_token_at_line(&mut self, k: &str, line_no: usize) -> String {
         if k.starts_with('"') {
             match try_unescape_json_string(k) {
-                Ok(st) => {
-                    // If this quoted key contains a dot, mark it to prevent path expansion
-                    // by prefixing with a zero-width space (U+200B)
-                    if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
-                    }
-                    return st;
-                }
+                Ok(st) => return self.mark_literal_key(st, true),
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
                         line: line_no,
@@ -217,7 +231,7 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
-        k.to_string()
+        self.mark_literal_key(k.to_string(), false)
     }
 
     fn parse_array(&mut self, indent: usize) -> Value {
@@ -1818,7 +1832,9 @@ pub fn parse_to_internal_value_from_lines<'a>(
     lines: Vec<ParsedLine<'a>>,
     options: &crate::options::Options,
 ) -> Result<Value, crate::error::Error> {
-    let mut p = Parser::from_lines(lines, options.strict).with_indent_unit(options.indent);
+    let mut p = Parser::from_lines(lines, options.strict)
+        .with_indent_unit(options.indent)
+        .with_literal_key_marks(options.expand_paths == crate::options::ExpandPaths::Safe);
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 8e59d94..89a56fe 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -42,7 +42,7 @@ fn is_valid_identifier(s: &str) -> bool {
 
 /// Marker character used to indicate a key came from a quoted string with dots.
 /// This is a zero-width space (U+200B) which is stripped before output.
-const QUOTED_DOT_MARKER: char = '\u{200B}';
+pub(crate) const QUOTED_DOT_MARKER: char = '\u{200B}';
 
 /// Check if a key should be expanded (unquoted and all segments are valid identifiers).
 fn should_expand_key(key: &str) -> bool {
-- 
2.43.0


From 93934c8b7c7903c1b8af2ea099eea68e83b62dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 07/34] fix: read bare tokens as numbers exactly when they are,
 without saturating large ones

---
 crates/toon/src/decode/parser.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index f31c2b5..0d965fa 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -144,6 +144,9 @@ impl<'a> Parser<'a> {
             "null" => return Value::Null,
             _ => {}
         }
+        if !is_number_literal(s) {
+            return Value::String(s.to_string());
+        }
         // Fast path for pure integers (ASCII digits, optional leading '-')
         let bs = s.as_bytes();
         if !bs.is_empty() {
@@ -162,9 +165,9 @@ impl<'a> Parser<'a> {
         match classify_numeric_hint(s) {
             Some(NumHint::Float) => {
                 if let Ok(f) = s.parse::<f64>() {
-                    // Normalize integer-valued floats to integers
+                    // Normalize integer-valued floats to integers where f64 is exact (to 2^53)
                     // Use f % 1.0 instead of f.fract() for no_std compatibility
-                    if f.is_finite() && f % 1.0 == 0.0 {
+                    if f % 1.0 == 0.0 && (-9007199254740992.0..=9007199254740992.0).contains(&f) {
                         if f >= 0.0 {
                             return Value::Number(Number::U64(f as u64));
                         } else {
@@ -1940,6 +1943,31 @@ enum NumHint {
     Float,
 }
 
+/// Whether a bare token is a number: -? digits ( . digits )? ( [eE] [+-]? digits )?
+pub(crate) fn is_number_literal(s: &str) -> bool {
+    fn digits(s: &str) -> Option<&str> {
+        let rest = s.trim_start_matches(|c: char| c.is_ascii_digit());
+        (rest.len() < s.len()).then_some(rest)
+    }
+    let Some(mut rest) = digits(s.strip_prefix('-').unwrap_or(s)) else {
+        return false;
+    };
+    if let Some(fraction) = rest.strip_prefix('.') {
+        let Some(r) = digits(fraction) else {
+            return false;
+        };
+        rest = r;
+    }
+    if let Some(exponent) = rest.strip_prefix(['e', 'E']) {
+        let exponent = exponent.strip_prefix(['+', '-']).unwrap_or(exponent);
+        let Some(r) = digits(exponent) else {
+            return false;
+        };
+        rest = r;
+    }
+    rest.is_empty()
+}
+
 fn classify_numeric_hint(s: &str) -> Option<NumHint> {
     if s.is_empty() {
         return None;
-- 
2.43.0


From 4fb1520dc88ba21cf798cd695d202746e004e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 08/34] fix: write floats canonically in every position of both
 encoders

---
 crates/toon/src/encode/encoders.rs   | 15 ++++++++------
 crates/toon/src/encode/primitives.rs |  9 ++++++++
 crates/toon/src/ser/stream.rs        | 31 +++++++++++++++++++---------
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 21906ef..30132fa 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &primitives::format_json_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &primitives::format_json_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &primitives::format_json_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -513,7 +513,7 @@ fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: us
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +637,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -707,7 +710,7 @@ fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_json_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index f613b46..5864739 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -201,3 +201,12 @@ pub fn format_null() -> &'static str {
 pub fn format_f64(f: f64) -> String {
     format_canonical_f64(f)
 }
+
+/// Format a JSON number in canonical form: integers as they are, floats without exponent.
+#[cfg(feature = "json")]
+pub fn format_json_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => format_f64(f),
+        _ => n.to_string(),
+    }
+}
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index ebfa5b8..465fe11 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -702,7 +702,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_json_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -718,7 +718,7 @@ fn encode_list_item_json(
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(items) => {
             let len = items.len();
@@ -802,9 +802,11 @@ fn encode_list_item_json(
                                 &key_fmt,
                                 primitives::format_bool(*b),
                             ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
+                            Value::Number(n) => w.line_kv(
+                                indent + opts.indent,
+                                &key_fmt,
+                                &primitives::format_json_number(n),
+                            ),
                             Value::String(s) => w.line_kv(
                                 indent + opts.indent,
                                 &key_fmt,
@@ -845,7 +847,10 @@ fn encode_list_item_json(
                     indent,
                     &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
                 ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+                Value::Number(n) => w.line(
+                    indent,
+                    &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
+                ),
                 Value::String(s) => {
                     let v = primitives::format_string(s, opts.delimiter);
                     w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -909,9 +914,11 @@ fn encode_list_item_json(
                                     &key_fmt,
                                     primitives::format_bool(*b),
                                 ),
-                                Value::Number(n) => {
-                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
-                                }
+                                Value::Number(n) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    &primitives::format_json_number(n),
+                                ),
                                 Value::String(s) => w.line_kv(
                                     indent + 2 * opts.indent,
                                     &key_fmt,
@@ -952,7 +959,11 @@ fn encode_list_item_json(
                     Value::Bool(b) => {
                         w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
                     }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
+                    Value::Number(n) => w.line_kv(
+                        indent + opts.indent,
+                        &key_fmt,
+                        &primitives::format_json_number(n),
+                    ),
                     Value::String(s) => w.line_kv(
                         indent + opts.indent,
                         &key_fmt,
-- 
2.43.0


From 6adcc188ce65d72822ff04bc794b85c76f4bc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 09/34] fix: non-finite floats in maps and structs stream as
 null

---
 crates/toon/src/ser/stream.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 465fe11..9d9d4c3 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1591,12 +1591,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
         if v.is_finite() {
             self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
+            self.out = Some(primitives::format_null().to_string());
         }
         Ok(())
     }
-- 
2.43.0


From 7f7b0551f0b81906e71bd3f7bc0900a3870c5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 10/34] fix: text starting with '@' neither panics nor turns
 into an empty table

---
 crates/toon/src/de/direct.rs     |  5 ++++-
 crates/toon/src/decode/parser.rs | 15 +++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..956cc89 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -734,7 +734,10 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    Some((dch, s[2..].trim_start()))
+    if !dch.is_ascii() {
+        return None;
+    }
+    Some((dch, it.as_str().trim_start()))
 }
 
 fn unescape_json_string(s: &str) -> Option<String> {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 0d965fa..1e6372a 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -694,8 +694,13 @@ impl<'a> Parser<'a> {
             None => None,
         };
 
-        // Check if this is a tabular array header
-        if let Some(s) = s_opt {
+        // Check if this is a tabular array header: one that rows follow, a line on its own
+        // is a string
+        let has_rows = matches!(
+            self.lines.get(self.idx + 1),
+            Some(l) if l.indent == indent && matches!(l.kind, LineKind::ListItem { .. })
+        );
+        if let Some(s) = s_opt.filter(|_| has_rows) {
             if let Some((dch, header_str)) = parse_header(s) {
                 // This is a tabular header, parse it as a root-level tabular array
                 if self.strict && !(dch == ',' || dch == '\t' || dch == '|') {
@@ -1266,8 +1271,10 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    let rest = &s[2..];
-    Some((dch, trim_ascii_start(rest)))
+    if !dch.is_ascii() {
+        return None;
+    }
+    Some((dch, trim_ascii_start(it.as_str())))
 }
 
 /// Parsed array header per spec v3.0
-- 
2.43.0


From 9d96704f27192fed36feba0001161012d4105af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 11/34] fix: strict decoding rejects lines that fit nowhere
 instead of dropping them

---
 crates/toon/src/decode/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 1e6372a..7b9898f 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -943,6 +943,21 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let value = self.parse_root();
+        // In strict mode, every line must belong to the value
+        if self.strict && self.error.is_none() {
+            self.skip_blanks();
+            if self.peek().is_some() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx + 1,
+                    message: "unexpected content".to_string(),
+                });
+            }
+        }
+        value
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
-- 
2.43.0


From 13247610766f4902cd64556706eefd417f6cce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 12/34] fix: reject text after the closing quote of a string

---
 crates/toon/src/decode/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 7b9898f..15bfe08 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1951,6 +1951,9 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
                 }
                 Some(_) => return Err(StringParseError::InvalidEscape),
             }
+        } else if ch == '"' {
+            // The string ended before the token did
+            return Err(StringParseError::Unterminated);
         } else {
             out.push(ch);
         }
-- 
2.43.0


From 83bce31183b77f71a7280b31c3c81e915715b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 13/34] fix: a bare scalar below a list item's key is an error,
 as it is below any other key

---
 crates/toon/src/decode/parser.rs | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 15bfe08..d1d60bd 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -365,6 +365,9 @@ impl<'a> Parser<'a> {
                                 || (nl.indent == child_indent
                                     && matches!(nl.kind, LineKind::ListItem { .. }))
                         });
+                        if has_children {
+                            self.reject_scalar_child();
+                        }
                         let v = if has_children {
                             self.parse_node(child_indent)
                         } else {
@@ -398,6 +401,21 @@ impl<'a> Parser<'a> {
         Value::Array(arr)
     }
 
+    /// A bare scalar in the place of a key's children is an error: scalars in object
+    /// context must have a key (`@` and `[` start header lines instead)
+    fn reject_scalar_child(&mut self) {
+        if let Some(nl) = self.peek_content() {
+            if let LineKind::Scalar(s) = &nl.kind {
+                if !s.starts_with('@') && !s.starts_with('[') && self.error.is_none() {
+                    self.error = Some(crate::error::Error::Syntax {
+                        line: self.idx + 1,
+                        message: "missing colon in key-value context".to_string(),
+                    });
+                }
+            }
+        }
+    }
+
     fn parse_object(&mut self, indent: usize) -> Value {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
@@ -651,25 +669,7 @@ impl<'a> Parser<'a> {
                         }
                     }
                     if !handled {
-                        // Check for bare scalar after key: - this is an error
-                        // (scalars in object context must have a key)
-                        if let Some(nl) = self.peek() {
-                            if nl.indent > indent {
-                                if let LineKind::Scalar(s) = &nl.kind {
-                                    // Only error if it's a plain scalar, not a header line
-                                    if !s.starts_with('@')
-                                        && !s.starts_with('[')
-                                        && self.error.is_none()
-                                    {
-                                        self.error = Some(crate::error::Error::Syntax {
-                                            line: self.idx + 1,
-                                            message: "missing colon in key-value context"
-                                                .to_string(),
-                                        });
-                                    }
-                                }
-                            }
-                        }
+                        self.reject_scalar_child();
                         let v = self.parse_node(child_indent);
                         // If key: has no children, produce empty object instead of null
                         if matches!(v, Value::Null) {
-- 
2.43.0


From 6d1bafee009f01adf23af39425e1c9105ecf6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 14/34] fix: brackets inside a value do not turn the line into
 an array header

---
 crates/toon/src/decode/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d1d60bd..dd1bc6d 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -283,7 +283,10 @@ impl<'a> Parser<'a> {
             self.next();
             if let Some(vs) = item_val {
                 // 1) Support array headers embedded in list item values, e.g. "- [N]:" or "- [N]{fields}: ..."
-                if is_array_header_line(vs) || vs.starts_with('[') {
+                //    (a bracket after the colon is ordinary text)
+                let bracket_in_key = split_kv_quote_aware(vs)
+                    .is_some_and(|(key, _)| find_unquoted_bracket(key).is_some());
+                if bracket_in_key && (is_array_header_line(vs) || vs.starts_with('[')) {
                     if let Some(header) = parse_array_header(vs) {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
@@ -461,8 +464,11 @@ impl<'a> Parser<'a> {
             match (key_opt, val_opt) {
                 (Some(kref), Some(vref)) => {
                     // Check if this is a keyed array header like "key[3]: 1,2,3"
+                    // (a bracket in the value is ordinary text)
                     let combined = format!("{}: {}", kref, vref);
-                    if let Some(header) = parse_array_header(&combined) {
+                    if let Some(header) =
+                        find_unquoted_bracket(kref).and_then(|_| parse_array_header(&combined))
+                    {
                         self.next();
                         let k = header
                             .key
-- 
2.43.0


From 139e736eee90f3ee4c6ed590fb2c5bdc86ea18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 15/34] fix: strict decoding accepts other delimiters as text
 in single-column tables

---
 crates/toon/src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index dd1bc6d..96a4b4c 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1213,7 +1213,11 @@ impl<'a> Parser<'a> {
             self.next();
 
             // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            // (a single column needs no delimiter, so its cells may contain the others)
+            if self.strict
+                && self.error.is_none()
+                && expected_cells > 1
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
-- 
2.43.0


From dbd49ee06590c56cdbe7935aef21992bbb9c0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 16/34] fix: ignore blanks around values at the end of a line

---
 crates/toon/src/decode/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 96a4b4c..7388f70 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -116,6 +116,7 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_scalar_token_at_line(&mut self, s: &str, line_no: usize) -> Value {
+        let s = trim_ascii(s);
         if s.starts_with('"') {
             match try_unescape_json_string(s) {
                 Ok(st) => return Value::String(st),
-- 
2.43.0


From 734467340a5ed1432bb94895978e74090111415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 17/34] fix: strict decoding notices blank lines between items
 that have lines of their own

---
 crates/toon/src/decode/parser.rs | 36 ++++++++++++--------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 7388f70..9545a14 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -87,6 +87,11 @@ impl<'a> Parser<'a> {
         self.lines.get(self.idx)
     }
 
+    /// Whether the line before the next one is blank.
+    fn after_blank(&self) -> bool {
+        self.idx > 0 && matches!(self.lines[self.idx - 1].kind, LineKind::Blank)
+    }
+
     /// The next non-blank line, without consuming anything.
     fn peek_content(&self) -> Option<&ParsedLine<'a>> {
         self.lines
@@ -242,29 +247,6 @@ impl<'a> Parser<'a> {
         let mut arr = Vec::new();
         let mut inside_array = false;
         loop {
-            // In strict mode, error on blank lines inside arrays (only if next non-blank is still part of this array)
-            if self.strict && inside_array {
-                if let Some(bl) = self.peek() {
-                    if matches!(bl.kind, LineKind::Blank) {
-                        // Look ahead past blanks to see if next content is still at this array's indent
-                        let saved_idx = self.idx;
-                        self.skip_blanks();
-                        let is_inside = if let Some(next) = self.peek() {
-                            next.indent == indent && matches!(next.kind, LineKind::ListItem { .. })
-                        } else {
-                            false
-                        };
-                        self.idx = saved_idx; // Restore position
-                        if is_inside {
-                            let line_no = self.idx + 1;
-                            self.error = Some(crate::error::Error::Syntax {
-                                line: line_no,
-                                message: "blank line inside array".to_string(),
-                            });
-                        }
-                    }
-                }
-            }
             self.skip_blanks();
             let (take, item_val): (bool, Option<&str>) = if let Some(line) = self.peek() {
                 if line.indent != indent {
@@ -280,6 +262,14 @@ impl<'a> Parser<'a> {
             if !take {
                 break;
             }
+            // In strict mode, a blank line between two items is an error, whether it follows
+            // the previous item itself or the last of that item's own lines
+            if self.strict && inside_array && self.error.is_none() && self.after_blank() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx,
+                    message: "blank line inside array".to_string(),
+                });
+            }
             inside_array = true;
             self.next();
             if let Some(vs) = item_val {
-- 
2.43.0


From cac52b0be824aac090c6770ba7a163f9e63945a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 18/34] fix: key folding checks for sibling collisions at the
 root and in list items too

---
 crates/toon/src/encode/encoders.rs | 36 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 30132fa..cad2398 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -587,6 +577,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -621,7 +612,14 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )?;
             }
             return Ok(());
         }
@@ -691,8 +689,16 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
+                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
+                    encode_object_field_with_siblings(
+                        k,
+                        v,
+                        w,
+                        opts,
+                        indent + 2 * opts.indent,
+                        &inner_keys,
+                    )?;
                 }
             }
         }
@@ -700,7 +706,7 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
-- 
2.43.0


From fb8b2d09622b7b49bbd7b7c4839f7de71f7c4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 19/34] fix: the streaming encoder folds keys inside list items
 like the value-based one

---
 crates/toon/src/encode/encoders.rs |   7 +-
 crates/toon/src/ser/stream.rs      | 269 +----------------------------
 2 files changed, 8 insertions(+), 268 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index cad2398..d74f725 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -499,7 +499,12 @@ fn encode_array(items: &[Value], w: &mut LineWriter, opts: &Options, indent: usi
 }
 
 /// Encode a list item (- prefix)
-fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: usize) -> Result<()> {
+pub(crate) fn encode_list_item(
+    item: &Value,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<()> {
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 9d9d4c3..954eb64 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -715,273 +715,8 @@ fn encode_list_item_json(
     opts: &Options,
     indent: usize,
 ) -> Result<(), SerError> {
-    match item {
-        Value::Null => w.line_list_item(indent, primitives::format_null()),
-        Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
-        Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
-        Value::Array(items) => {
-            let len = items.len();
-            let delim = opts.delimiter;
-            let dch = primitives::delimiter_char(delim);
-            if items.is_empty() {
-                w.line_list_item(
-                    indent,
-                    &format!("{}:", primitives::format_bracket_segment(0, delim)),
-                );
-            } else if is_primitive_array_json(items) {
-                let values: Vec<String> = items
-                    .iter()
-                    .map(|v| format_primitive_value_json(v, delim))
-                    .collect();
-                let inline = join_with_delim(&values, dch);
-                w.line_list_item(
-                    indent,
-                    &format!(
-                        "{}: {}",
-                        primitives::format_bracket_segment(len, delim),
-                        inline
-                    ),
-                );
-            } else {
-                w.line_list_item(
-                    indent,
-                    &primitives::format_expanded_array_header(len, delim),
-                );
-                for inner in items {
-                    encode_list_item_json(inner, w, opts, indent + opts.indent)?;
-                }
-            }
-        }
-        Value::Object(obj) => {
-            if obj.is_empty() {
-                w.line(indent, "-");
-                return Ok(());
-            }
-            let mut iter = obj.iter();
-            let (first_key, first_value) = iter.next().unwrap();
-            let first_key_fmt = primitives::format_key(first_key);
-
-            // Special case: first field is a tabular array (§10)
-            if let Value::Array(items) = first_value {
-                if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-                    let delim = opts.delimiter;
-                    let dch = primitives::delimiter_char(delim);
-                    let field_cells: Vec<String> =
-                        keys.iter().map(|k| primitives::format_key(k)).collect();
-                    let header = format!(
-                        "{}{}",
-                        first_key_fmt,
-                        primitives::format_tabular_header(items.len(), &field_cells, delim)
-                    );
-                    w.line_list_item(indent, &header);
-
-                    // Rows at depth + 2
-                    for item in items {
-                        let inner_obj = item.as_object().unwrap();
-                        let cells: Vec<String> = keys
-                            .iter()
-                            .map(|k| {
-                                let v = inner_obj.get(k).unwrap();
-                                format_primitive_value_json(v, delim)
-                            })
-                            .collect();
-                        let row = join_with_delim(&cells, dch);
-                        w.line(indent + 2 * opts.indent, &row);
-                    }
-
-                    // Remaining fields at depth + 1 (indent + opts.indent)
-                    for (k, v) in iter {
-                        let key_fmt = primitives::format_key(k);
-                        match v {
-                            Value::Null => {
-                                w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                            }
-                            Value::Bool(b) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                primitives::format_bool(*b),
-                            ),
-                            Value::Number(n) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_json_number(n),
-                            ),
-                            Value::String(s) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_string(s, opts.delimiter),
-                            ),
-                            Value::Array(arr) => {
-                                encode_keyed_array_json(
-                                    &key_fmt,
-                                    arr,
-                                    w,
-                                    opts,
-                                    indent + opts.indent,
-                                )?;
-                            }
-                            Value::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(
-                                    v,
-                                    w,
-                                    opts,
-                                    indent + 2 * opts.indent,
-                                )
-                                .map_err(|e| SerError::custom(e.to_string()))?;
-                            }
-                        }
-                    }
-                    return Ok(());
-                }
-            }
-
-            // Standard case: first field on hyphen line
-            match first_value {
-                Value::Null => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_null()),
-                ),
-                Value::Bool(b) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
-                ),
-                Value::Number(n) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
-                ),
-                Value::String(s) => {
-                    let v = primitives::format_string(s, opts.delimiter);
-                    w.line(indent, &format!("- {}: {}", first_key_fmt, v));
-                }
-                Value::Array(items) => {
-                    // Non-tabular array as first field
-                    let len = items.len();
-                    let delim = opts.delimiter;
-                    if items.is_empty() {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}:",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(0, delim)
-                            ),
-                        );
-                    } else if is_primitive_array_json(items) {
-                        let dch = primitives::delimiter_char(delim);
-                        let values: Vec<String> = items
-                            .iter()
-                            .map(|v| format_primitive_value_json(v, delim))
-                            .collect();
-                        let inline = join_with_delim(&values, dch);
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}: {}",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(len, delim),
-                                inline
-                            ),
-                        );
-                    } else {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}",
-                                first_key_fmt,
-                                primitives::format_expanded_array_header(len, delim)
-                            ),
-                        );
-                        for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
-                        }
-                    }
-                }
-                Value::Object(inner_obj) => {
-                    w.line(indent, &format!("- {}:", first_key_fmt));
-                    if !inner_obj.is_empty() {
-                        for (k, v) in inner_obj {
-                            let key_fmt = primitives::format_key(k);
-                            match v {
-                                Value::Null => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_null(),
-                                ),
-                                Value::Bool(b) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_bool(*b),
-                                ),
-                                Value::Number(n) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_json_number(n),
-                                ),
-                                Value::String(s) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_string(s, opts.delimiter),
-                                ),
-                                Value::Array(arr) => {
-                                    encode_keyed_array_json(
-                                        &key_fmt,
-                                        arr,
-                                        w,
-                                        opts,
-                                        indent + 2 * opts.indent,
-                                    )?;
-                                }
-                                Value::Object(_) => {
-                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
-                                    crate::encode::encoders::encode_value(
-                                        v,
-                                        w,
-                                        opts,
-                                        indent + 3 * opts.indent,
-                                    )
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Remaining fields at depth + 1 (indent + opts.indent)
-            for (k, v) in iter {
-                let key_fmt = primitives::format_key(k);
-                match v {
-                    Value::Null => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                    }
-                    Value::Bool(b) => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
-                    }
-                    Value::Number(n) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_json_number(n),
-                    ),
-                    Value::String(s) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_string(s, opts.delimiter),
-                    ),
-                    Value::Array(arr) => {
-                        encode_keyed_array_json(&key_fmt, arr, w, opts, indent + opts.indent)?;
-                    }
-                    Value::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
-                            .map_err(|e| SerError::custom(e.to_string()))?;
-                    }
-                }
-            }
-        }
-    }
-    Ok(())
+    crate::encode::encoders::encode_list_item(item, w, opts, indent)
+        .map_err(|e| SerError::custom(e.to_string()))
 }
 
 /// Encode a keyed array with spec-compliant format: key[N]: v1,v2 or key[N]{fields}:
-- 
2.43.0


From b602308271a2daf9bc75c512b9e35e55cbcf00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 20/34] fix: structs are written when key folding is on

---
 crates/toon/src/ser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 954eb64..24241fb 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -662,7 +662,7 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From e2cf7cbd592d68b8475aed8f5b16be838f02f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 21/34] fix: serialization errors are reported instead of
 encoded as null

---
 crates/toon/src/ser/mod.rs                 |  3 ++-
 crates/toon/src/ser/stream.rs              | 15 +++++++++-----
 crates/toon/src/ser/value_builder.rs       |  9 +++++---
 crates/toon/src/ser/value_builder_alloc.rs | 24 ++++++++++------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..ada284e 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,8 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)
+        .map_err(|e| crate::error::Error::Message(e.to_string()))?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 24241fb..8a3b9f1 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -285,7 +285,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(val);
         Ok(())
     }
@@ -411,7 +412,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(v);
         Ok(())
     }
@@ -550,7 +552,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -571,7 +574,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // Try to serialize to Value to detect arrays
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if let Value::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_json(
@@ -599,7 +603,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..628e8b2 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
@@ -273,7 +276,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => other.to_string(),
+            _ => return Err(serde::ser::Error::custom("invalid key")),
         };
         self.next_key = Some(s);
         Ok(())
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..c6ee189 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -11,23 +11,27 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
 
 #[derive(Debug)]
-pub struct BuildError;
+pub struct BuildError {
+    msg: String,
+}
 impl core::fmt::Display for BuildError {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        f.write_str("ser error")
+        f.write_str(&self.msg)
     }
 }
 impl serde::ser::Error for BuildError {
-    fn custom<T: core::fmt::Display>(_t: T) -> Self {
-        BuildError
+    fn custom<T: core::fmt::Display>(t: T) -> Self {
+        BuildError {
+            msg: format!("{}", t),
+        }
     }
 }
 impl core::error::Error for BuildError {}
@@ -264,13 +268,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            _ => return Err(serde::ser::Error::custom("invalid key")),
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0


From 70164bb5f6966a0806a117abd6e3bb5695caeb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 22/34] fix: the build without json writes tuples, nested
 values and table columns like the default one

---
 crates/toon/src/ser/stream.rs | 106 +++++++++++-----------------------
 1 file changed, 33 insertions(+), 73 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 8a3b9f1..1a944be 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -499,7 +499,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -511,7 +511,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -519,11 +519,12 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
 impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
     type Ok = ();
     type Error = SerError;
+
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -617,13 +618,12 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 self.entry_count += 1;
                 return Ok(());
             }
-            // For objects, use the standard key: then nested fields
-            self.parent.w.line_key_only(self.parent.indent, &key_fmt);
-            encode_internal_value_alloc(
+            encode_field_alloc(
+                &key,
                 &val,
                 self.parent.w,
                 self.parent.opts,
-                self.parent.indent + self.parent.opts.indent,
+                self.parent.indent,
             )?;
             self.entry_count += 1;
             Ok(())
@@ -939,8 +939,7 @@ fn encode_list_item_alloc(
                                 )?;
                             }
                             IValue::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
+                                encode_field_alloc(k, v, w, opts, indent + opts.indent)?;
                             }
                         }
                     }
@@ -1040,13 +1039,7 @@ fn encode_list_item_alloc(
                                     )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
-                                    encode_internal_value_alloc(
-                                        v,
-                                        w,
-                                        opts,
-                                        indent + 3 * opts.indent,
-                                    )?;
+                                    encode_field_alloc(k, v, w, opts, indent + 2 * opts.indent)?;
                                 }
                             }
                         }
@@ -1074,8 +1067,7 @@ fn encode_list_item_alloc(
                         encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + opts.indent)?;
                     }
                     IValue::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
+                        encode_field_alloc(k, v, w, opts, indent + opts.indent)?;
                     }
                 }
             }
@@ -1179,18 +1171,17 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             IValue::Object(pairs) => pairs,
             _ => return None,
         };
-        let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-        kset.sort();
         if let Some(ref ks) = keys {
-            if *ks != kset {
+            // Same key set; the columns keep the first object's order
+            if obj.len() != ks.len() || !ks.iter().all(|k| obj.iter().any(|(o, _)| o == k)) {
                 return None;
             }
         } else {
             // A table needs at least one column
-            if kset.is_empty() {
+            if obj.is_empty() {
                 return None;
             }
-            keys = Some(kset);
+            keys = Some(obj.iter().map(|(k, _)| k.clone()).collect());
         }
         for (_, vv) in obj.iter() {
             if !vv.is_primitive() {
@@ -1201,65 +1192,34 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
     keys
 }
 
+/// Encode `key: value` with the value in the form its kind calls for
 #[cfg(not(feature = "json"))]
-fn encode_internal_value_alloc(
-    v: &IValue,
+fn encode_field_alloc(
+    key: &str,
+    value: &IValue,
     w: &mut LineWriter,
     opts: &Options,
     indent: usize,
 ) -> Result<(), SerError> {
-    match v {
-        IValue::Null => {
-            w.line(indent, primitives::format_null());
-        }
-        IValue::Bool(b) => {
-            w.line(indent, primitives::format_bool(*b));
-        }
-        IValue::Number(n) => {
-            w.line(indent, &n.to_string());
-        }
-        IValue::String(s) => {
-            w.line(indent, &primitives::format_string(s, opts.delimiter));
-        }
-        IValue::Array(items) => {
-            for item in items {
-                if item.is_primitive() {
-                    match item {
-                        IValue::Null => w.line_list_item(indent, primitives::format_null()),
-                        IValue::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_list_item(indent, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_list_item(indent, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line(indent, "-");
-                    encode_internal_value_alloc(item, w, opts, indent + opts.indent)?;
-                }
-            }
-        }
+    let key_fmt = primitives::format_key(key);
+    match value {
+        IValue::Array(items) => encode_keyed_array_alloc(&key_fmt, items, w, opts, indent),
         IValue::Object(pairs) => {
-            for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
-                    match val {
-                        IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
-                        IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line_key_only(indent, &key);
-                    encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
-                }
+            w.line_key_only(indent, &key_fmt);
+            for (k, v) in pairs {
+                encode_field_alloc(k, v, w, opts, indent + opts.indent)?;
             }
+            Ok(())
+        }
+        primitive => {
+            w.line_kv(
+                indent,
+                &key_fmt,
+                &format_primitive_value_alloc(primitive, opts.delimiter),
+            );
+            Ok(())
         }
     }
-    Ok(())
 }
 
 fn try_scalar_to_string<T: ?Sized + Serialize>(
-- 
2.43.0


From 582582cb0024ce2e370592d1dc58ea0d8e55336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 23/34] fix: enum variants with data are written as {variant:
 content} by both encoders

---
 crates/toon/src/ser/stream.rs              | 146 ++++++++++++---------
 crates/toon/src/ser/value_builder.rs       |  25 +++-
 crates/toon/src/ser/value_builder_alloc.rs |  25 +++-
 3 files changed, 123 insertions(+), 73 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 1a944be..d9a886a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -58,16 +58,6 @@ struct StreamingSerializer<'a> {
     indent: usize,
 }
 
-impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
-    }
-}
-
 impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     type Ok = ();
     type Error = SerError;
@@ -87,14 +77,11 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     #[cfg(not(feature = "json"))]
     type SerializeTupleStruct = SeqSerAlloc<'a, 'de>;
 
-    #[cfg(feature = "json")]
-    type SerializeTupleVariant = SeqSer<'a, 'de>;
-    #[cfg(not(feature = "json"))]
-    type SerializeTupleVariant = SeqSerAlloc<'a, 'de>;
+    type SerializeTupleVariant = TupleVariantSer<'a, 'de>;
 
     type SerializeMap = MapSer<'a, 'de>;
     type SerializeStruct = MapSer<'a, 'de>;
-    type SerializeStructVariant = MapSer<'a, 'de>;
+    type SerializeStructVariant = StructVariantSer<'a, 'de>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
         self.w.line(self.indent, primitives::format_bool(v));
@@ -194,12 +181,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        let mut map = self.serialize_map(Some(1))?;
+        SerializeMap::serialize_entry(&mut map, variant, value)?;
+        SerializeMap::end(map)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
@@ -232,9 +216,13 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         _name: &'static str,
         _variant_index: u32,
         variant: &'static str,
-        len: usize,
+        _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        Ok(TupleVariantSer {
+            parent: self,
+            variant,
+            items: Vec::new(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -259,16 +247,10 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        Ok(MapSer {
+        Ok(StructVariantSer {
             parent: self,
-            next_key: None,
-            entry_count: 0,
-            #[cfg(feature = "json")]
-            buffered: None,
+            variant,
+            fields: Fields::new(),
         })
     }
 }
@@ -387,19 +369,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSer<'a, 'de> {
     }
 }
 
-#[cfg(feature = "json")]
-impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
-    }
-}
-
 #[cfg(not(feature = "json"))]
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -515,19 +484,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
     }
 }
 
-#[cfg(not(feature = "json"))]
-impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
-    }
-}
-
 struct MapSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
     next_key: Option<String>,
@@ -671,7 +627,70 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 }
 
-impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
+#[cfg(feature = "json")]
+type Tree = Value;
+#[cfg(not(feature = "json"))]
+type Tree = IValue;
+
+#[cfg(feature = "json")]
+type Fields = serde_json::Map<String, Value>;
+#[cfg(not(feature = "json"))]
+type Fields = Vec<(String, IValue)>;
+
+fn to_tree<T: ?Sized + Serialize>(value: &T, opts: &Options) -> Result<Tree, SerError> {
+    #[cfg(feature = "json")]
+    return crate::ser::value_builder::to_value(value, opts).map_err(SerError::custom);
+    #[cfg(not(feature = "json"))]
+    return crate::ser::value_builder_alloc::to_value(value, opts).map_err(SerError::custom);
+}
+
+/// Write a variant's content as the only field of an object: `{variant: content}`
+fn encode_variant(
+    parent: &mut StreamingSerializer<'_>,
+    variant: &str,
+    content: &Tree,
+) -> Result<(), SerError> {
+    #[cfg(feature = "json")]
+    return crate::encode::encoders::encode_object_field(
+        variant,
+        content,
+        parent.w,
+        parent.opts,
+        parent.indent,
+    )
+    .map_err(|e| SerError::custom(e.to_string()));
+    #[cfg(not(feature = "json"))]
+    return encode_field_alloc(variant, content, parent.w, parent.opts, parent.indent);
+}
+
+struct TupleVariantSer<'a, 'de> {
+    parent: &'a mut StreamingSerializer<'de>,
+    variant: &'static str,
+    items: Vec<Tree>,
+}
+
+impl<'a, 'de> SerializeTupleVariant for TupleVariantSer<'a, 'de> {
+    type Ok = ();
+    type Error = SerError;
+
+    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
+        let item = to_tree(value, self.parent.opts)?;
+        self.items.push(item);
+        Ok(())
+    }
+
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        encode_variant(self.parent, self.variant, &Tree::Array(self.items))
+    }
+}
+
+struct StructVariantSer<'a, 'de> {
+    parent: &'a mut StreamingSerializer<'de>,
+    variant: &'static str,
+    fields: Fields,
+}
+
+impl<'a, 'de> SerializeStructVariant for StructVariantSer<'a, 'de> {
     type Ok = ();
     type Error = SerError;
 
@@ -680,11 +699,16 @@ impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        SerializeStruct::serialize_field(self, key, value)
+        let field = to_tree(value, self.parent.opts)?;
+        #[cfg(feature = "json")]
+        self.fields.insert(key.into(), field);
+        #[cfg(not(feature = "json"))]
+        self.fields.push((key.into(), field));
+        Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeStruct::end(self)
+        encode_variant(self.parent, self.variant, &Tree::Object(self.fields))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 628e8b2..faf0af7 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -46,7 +46,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -163,10 +163,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            elems: Vec::new(),
+            variant: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -241,15 +244,25 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    variant: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
+
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Map::new();
+        m.insert(self.variant, Value::Array(self.elems));
+        Ok(Value::Object(m))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index c6ee189..446f19d 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -42,7 +42,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -155,10 +155,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            elems: Vec::new(),
+            variant: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -233,15 +236,25 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    variant: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        let mut ser = ValueSerializer;
+        self.elems.push(value.serialize(&mut ser)?);
+        Ok(())
     }
+
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut m = Vec::new();
+        m.push((self.variant, Value::Array(self.elems)));
+        Ok(Value::Object(m))
     }
 }
 
-- 
2.43.0


From 043c4767d251202306e749026df44b2e3dbf3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 24/34] fix: map keys that are options, newtypes or non-finite
 floats get the same text from both encoders

---
 crates/toon/src/ser/stream.rs        | 17 ++++++++++-------
 crates/toon/src/ser/value_builder.rs |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index d9a886a..e704c67 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1473,11 +1473,14 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
+        } else {
+            primitives::format_null().into()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
@@ -1495,8 +1498,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1516,9 +1519,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index faf0af7..eeb066b 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -280,7 +280,7 @@ impl SerializeMap for MapSerializer {
         let v = key.serialize(&mut ser)?;
         let s = match v {
             Value::String(s) => s,
-            Value::Number(n) => n.to_string(),
+            Value::Number(n) => crate::encode::primitives::format_json_number(&n),
             Value::Bool(b) => {
                 if b {
                     "true".into()
-- 
2.43.0


From 1699895d9c7c57b7ddade54022a9965df3097099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 25/34] fix: options, newtypes, enums and 128-bit integers can
 be decoded

---
 crates/toon/src/de/mod.rs | 272 ++++++++++++++++++++++++++++----------
 1 file changed, 203 insertions(+), 69 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 5685257..fafe518 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -1,7 +1,13 @@
 //! serde::Deserializer implementation backed by internal Value (alloc-friendly)
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
+use alloc::{
+    format,
+    string::String,
+    vec::{self as alloc_vec, Vec},
+};
+#[cfg(feature = "std")]
+use std::vec as alloc_vec;
 
 #[cfg(all(feature = "de_direct", feature = "json"))]
 use core::any::TypeId;
@@ -62,80 +68,208 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                 Number::F64(f) => visitor.visit_f64(f),
             },
             Value::String(s) => visitor.visit_string(s),
-            Value::Array(arr) => {
-                struct SA {
-                    elems: Vec<Value>,
-                    idx: usize,
-                }
-                impl<'de> SeqAccess<'de> for SA {
-                    type Error = DeError;
-                    fn next_element_seed<T>(
-                        &mut self,
-                        seed: T,
-                    ) -> core::result::Result<Option<T::Value>, Self::Error>
-                    where
-                        T: de::DeserializeSeed<'de>,
-                    {
-                        if self.idx >= self.elems.len() {
-                            return Ok(None);
-                        }
-                        let v = core::mem::replace(&mut self.elems[self.idx], Value::Null);
-                        self.idx += 1;
-                        let de = Deserializer { value: v };
-                        seed.deserialize(de).map(Some)
-                    }
-                }
-                visitor.visit_seq(SA { elems: arr, idx: 0 })
+            Value::Array(arr) => visit_array(arr, visitor),
+            Value::Object(obj) => visit_object(obj, visitor),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        let (variant, content) = match self.value {
+            Value::String(variant) => (variant, None),
+            Value::Object(mut fields) if fields.len() == 1 => {
+                let (variant, content) = fields.remove(0);
+                (variant, Some(content))
             }
-            Value::Object(obj) => {
-                struct MA {
-                    entries: Vec<(String, Value)>,
-                    idx: usize,
-                    next_val: Option<Value>,
-                }
-                impl<'de> MapAccess<'de> for MA {
-                    type Error = DeError;
-                    fn next_key_seed<K>(
-                        &mut self,
-                        seed: K,
-                    ) -> core::result::Result<Option<K::Value>, Self::Error>
-                    where
-                        K: de::DeserializeSeed<'de>,
-                    {
-                        if self.idx >= self.entries.len() {
-                            return Ok(None);
-                        }
-                        let (ref key, ref val) = self.entries[self.idx];
-                        let de_key = key.clone().into_deserializer();
-                        self.next_val = Some(val.clone());
-                        seed.deserialize(de_key).map(Some)
-                    }
-                    fn next_value_seed<VV>(
-                        &mut self,
-                        seed: VV,
-                    ) -> core::result::Result<VV::Value, Self::Error>
-                    where
-                        VV: de::DeserializeSeed<'de>,
-                    {
-                        let v = self.next_val.take().unwrap_or(Value::Null);
-                        self.idx += 1;
-                        let de = Deserializer { value: v };
-                        seed.deserialize(de)
-                    }
+            _ => {
+                return Err(de::Error::custom(
+                    "invalid enum: expected a string or an object with a single key",
+                ));
+            }
+        };
+        visitor.visit_enum(EnumDeserializer { variant, content })
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+fn visit_array<'de, V>(arr: Vec<Value>, visitor: V) -> core::result::Result<V::Value, DeError>
+where
+    V: de::Visitor<'de>,
+{
+    struct SA {
+        elems: alloc_vec::IntoIter<Value>,
+    }
+    impl<'de> SeqAccess<'de> for SA {
+        type Error = DeError;
+        fn next_element_seed<T>(
+            &mut self,
+            seed: T,
+        ) -> core::result::Result<Option<T::Value>, Self::Error>
+        where
+            T: de::DeserializeSeed<'de>,
+        {
+            match self.elems.next() {
+                Some(value) => seed.deserialize(Deserializer { value }).map(Some),
+                None => Ok(None),
+            }
+        }
+    }
+    visitor.visit_seq(SA {
+        elems: arr.into_iter(),
+    })
+}
+
+fn visit_object<'de, V>(
+    obj: Vec<(String, Value)>,
+    visitor: V,
+) -> core::result::Result<V::Value, DeError>
+where
+    V: de::Visitor<'de>,
+{
+    struct MA {
+        entries: alloc_vec::IntoIter<(String, Value)>,
+        next_val: Option<Value>,
+    }
+    impl<'de> MapAccess<'de> for MA {
+        type Error = DeError;
+        fn next_key_seed<K>(
+            &mut self,
+            seed: K,
+        ) -> core::result::Result<Option<K::Value>, Self::Error>
+        where
+            K: de::DeserializeSeed<'de>,
+        {
+            match self.entries.next() {
+                Some((key, value)) => {
+                    self.next_val = Some(value);
+                    seed.deserialize(key.into_deserializer()).map(Some)
                 }
-                visitor.visit_map(MA {
-                    entries: obj,
-                    idx: 0,
-                    next_val: None,
-                })
+                None => Ok(None),
             }
         }
+        fn next_value_seed<VV>(&mut self, seed: VV) -> core::result::Result<VV::Value, Self::Error>
+        where
+            VV: de::DeserializeSeed<'de>,
+        {
+            let value = self.next_val.take().unwrap_or(Value::Null);
+            seed.deserialize(Deserializer { value })
+        }
     }
+    visitor.visit_map(MA {
+        entries: obj.into_iter(),
+        next_val: None,
+    })
+}
 
-    serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+/// Externally tagged enum: a bare variant name, or `{variant: content}`
+struct EnumDeserializer {
+    variant: String,
+    content: Option<Value>,
+}
+
+impl<'de> de::EnumAccess<'de> for EnumDeserializer {
+    type Error = DeError;
+    type Variant = VariantDeserializer;
+
+    fn variant_seed<S>(
+        self,
+        seed: S,
+    ) -> core::result::Result<(S::Value, Self::Variant), Self::Error>
+    where
+        S: de::DeserializeSeed<'de>,
+    {
+        let variant = seed.deserialize(self.variant.into_deserializer())?;
+        Ok((
+            variant,
+            VariantDeserializer {
+                content: self.content,
+            },
+        ))
+    }
+}
+
+struct VariantDeserializer {
+    content: Option<Value>,
+}
+
+impl<'de> de::VariantAccess<'de> for VariantDeserializer {
+    type Error = DeError;
+
+    fn unit_variant(self) -> core::result::Result<(), Self::Error> {
+        match self.content {
+            None | Some(Value::Null) => Ok(()),
+            Some(_) => Err(de::Error::custom("expected a unit variant")),
+        }
+    }
+
+    fn newtype_variant_seed<S>(self, seed: S) -> core::result::Result<S::Value, Self::Error>
+    where
+        S: de::DeserializeSeed<'de>,
+    {
+        match self.content {
+            Some(value) => seed.deserialize(Deserializer { value }),
+            None => Err(de::Error::custom("expected a newtype variant")),
+        }
+    }
+
+    fn tuple_variant<V>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.content {
+            Some(Value::Array(arr)) => visit_array(arr, visitor),
+            _ => Err(de::Error::custom("expected a tuple variant")),
+        }
+    }
+
+    fn struct_variant<V>(
+        self,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.content {
+            Some(Value::Object(obj)) => visit_object(obj, visitor),
+            _ => Err(de::Error::custom("expected a struct variant")),
+        }
     }
 }
 
-- 
2.43.0


From 40ce63efd4467ac0b07faf023e67419c6753c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 26/34] fix: maps with numeric, boolean, optional, newtype or
 enum keys can be decoded

---
 crates/toon/src/de/mod.rs | 94 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 93 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index fafe518..56da9cd 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ where
             match self.entries.next() {
                 Some((key, value)) => {
                     self.next_val = Some(value);
-                    seed.deserialize(key.into_deserializer()).map(Some)
+                    seed.deserialize(MapKeyDeserializer { key }).map(Some)
                 }
                 None => Ok(None),
             }
@@ -193,6 +193,98 @@ where
     })
 }
 
+/// Object keys are text; typed map keys are read back from it
+struct MapKeyDeserializer {
+    key: String,
+}
+
+macro_rules! deserialize_numeric_key {
+    ($($method:ident)*) => {$(
+        fn $method<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+        where
+            V: de::Visitor<'de>,
+        {
+            if crate::number::has_forbidden_leading_zeros(&self.key)
+                || !crate::decode::parser::is_number_literal(&self.key)
+            {
+                return visitor.visit_string(self.key);
+            }
+            if let Ok(u) = self.key.parse::<u64>() {
+                visitor.visit_u64(u)
+            } else if let Ok(i) = self.key.parse::<i64>() {
+                visitor.visit_i64(i)
+            } else if let Ok(f) = self.key.parse::<f64>() {
+                visitor.visit_f64(f)
+            } else {
+                visitor.visit_string(self.key)
+            }
+        }
+    )*};
+}
+
+impl<'de> de::Deserializer<'de> for MapKeyDeserializer {
+    type Error = DeError;
+
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.key)
+    }
+
+    deserialize_numeric_key! {
+        deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
+        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
+        deserialize_f32 deserialize_f64
+    }
+
+    fn deserialize_bool<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.key.as_str() {
+            "true" => visitor.visit_bool(true),
+            "false" => visitor.visit_bool(false),
+            _ => visitor.visit_string(self.key),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(self.key.into_deserializer())
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 /// Externally tagged enum: a bare variant name, or `{variant: content}`
 struct EnumDeserializer {
     variant: String,
-- 
2.43.0


From 6696307257a6b672ae94f2250566cc7bc1b192ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 27/34] fix: arrays with more elements than the target tuple
 holds are rejected

---
 crates/toon/src/de/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 56da9cd..b111140 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -146,9 +146,14 @@ where
             }
         }
     }
-    visitor.visit_seq(SA {
+    let mut access = SA {
         elems: arr.into_iter(),
-    })
+    };
+    let value = visitor.visit_seq(&mut access)?;
+    match access.elems.len() {
+        0 => Ok(value),
+        n => Err(de::Error::custom(format!("{n} elements left over"))),
+    }
 }
 
 fn visit_object<'de, V>(
@@ -187,10 +192,15 @@ where
             seed.deserialize(Deserializer { value })
         }
     }
-    visitor.visit_map(MA {
+    let mut access = MA {
         entries: obj.into_iter(),
         next_val: None,
-    })
+    };
+    let value = visitor.visit_map(&mut access)?;
+    match access.entries.len() {
+        0 => Ok(value),
+        n => Err(de::Error::custom(format!("{n} entries left over"))),
+    }
 }
 
 /// Object keys are text; typed map keys are read back from it
-- 
2.43.0


From 42703969dd148b1c0c386a7608cf974579619e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 28/34] fix: typed decoding resolves repeated keys to the last
 value like decoding to JSON

---
 crates/toon/src/de/mod.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index b111140..53396f7 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -103,17 +103,18 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     where
         V: de::Visitor<'de>,
     {
+        let invalid =
+            || de::Error::custom("invalid enum: expected a string or an object with a single key");
         let (variant, content) = match self.value {
             Value::String(variant) => (variant, None),
-            Value::Object(mut fields) if fields.len() == 1 => {
-                let (variant, content) = fields.remove(0);
-                (variant, Some(content))
-            }
-            _ => {
-                return Err(de::Error::custom(
-                    "invalid enum: expected a string or an object with a single key",
-                ));
+            Value::Object(fields) => {
+                let mut fields = keep_last_duplicates(fields).into_iter();
+                match (fields.next(), fields.next()) {
+                    (Some((variant, content)), None) => (variant, Some(content)),
+                    _ => return Err(invalid()),
+                }
             }
+            _ => return Err(invalid()),
         };
         visitor.visit_enum(EnumDeserializer { variant, content })
     }
@@ -156,6 +157,23 @@ where
     }
 }
 
+/// A repeated key has the value it was given last, as when decoding to JSON
+fn keep_last_duplicates(obj: Vec<(String, Value)>) -> Vec<(String, Value)> {
+    let mut keys: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
+    keys.sort_unstable();
+    if keys.windows(2).all(|pair| pair[0] != pair[1]) {
+        return obj;
+    }
+    let mut unique: Vec<(String, Value)> = Vec::with_capacity(obj.len());
+    for (key, value) in obj {
+        match unique.iter_mut().find(|(seen, _)| *seen == key) {
+            Some((_, last)) => *last = value,
+            None => unique.push((key, value)),
+        }
+    }
+    unique
+}
+
 fn visit_object<'de, V>(
     obj: Vec<(String, Value)>,
     visitor: V,
@@ -193,7 +211,7 @@ where
         }
     }
     let mut access = MA {
-        entries: obj.into_iter(),
+        entries: keep_last_duplicates(obj).into_iter(),
         next_val: None,
     };
     let value = visitor.visit_map(&mut access)?;
-- 
2.43.0


From 9d3281a4c9c075adebdc5275544f07938c55a8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 29/34] fix: documents nested too deeply are rejected instead
 of overflowing the stack

---
 crates/toon/src/de/direct.rs          |  6 +++++
 crates/toon/src/decode/parser.rs      | 32 ++++++++++++---------------
 crates/toon/src/decode/path_expand.rs | 21 ++++++++++++++----
 crates/toon/src/decode/validation.rs  | 30 +++++++++++++++++++++++++
 4 files changed, 67 insertions(+), 22 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 956cc89..7f18928 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -49,6 +49,12 @@ pub fn from_str<T: DeserializeOwned>(s: &str, options: &Options) -> Result<T> {
             });
         }
     }
+    if let Err(e) = crate::decode::validation::validate_nesting(&lines) {
+        return Err(ToONError::Syntax {
+            line: e.line,
+            message: e.message,
+        });
+    }
     let mut de = DirectDeserializer {
         lines,
         idx: 0,
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 9545a14..9143df7 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -25,35 +25,31 @@ pub struct Parser<'a> {
 
 impl<'a> Parser<'a> {
     pub fn from_input(input: &'a str) -> Self {
-        Self {
-            lines: scan(input),
-            idx: 0,
-            strict: false,
-            indent_unit: DEFAULT_INDENT_UNIT,
-            mark_literal_keys: false,
-            error: None,
-        }
+        Self::from_lines(scan(input), false)
     }
 
     pub fn from_input_with_strict(input: &'a str, strict: bool) -> Self {
-        Self {
-            lines: scan(input),
-            idx: 0,
-            strict,
-            indent_unit: DEFAULT_INDENT_UNIT,
-            mark_literal_keys: false,
-            error: None,
-        }
+        Self::from_lines(scan(input), strict)
     }
 
-    pub fn from_lines(lines: Vec<ParsedLine<'a>>, strict: bool) -> Self {
+    pub fn from_lines(mut lines: Vec<ParsedLine<'a>>, strict: bool) -> Self {
+        let error = crate::decode::validation::validate_nesting(&lines)
+            .err()
+            .map(|e| crate::error::Error::Syntax {
+                line: e.line,
+                message: e.message,
+            });
+        if error.is_some() {
+            // Nothing is left to descend into
+            lines.clear();
+        }
         Self {
             lines,
             idx: 0,
             strict,
             indent_unit: DEFAULT_INDENT_UNIT,
             mark_literal_keys: false,
-            error: None,
+            error,
         }
     }
 
diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 89a56fe..72b01ed 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -19,6 +19,7 @@ use alloc::{
     vec::Vec,
 };
 
+use crate::decode::validation::MAX_DEPTH;
 use crate::value::Value;
 
 /// Check if a string is a valid identifier segment for path expansion.
@@ -108,17 +109,29 @@ fn deep_merge(
 /// Apply path expansion to a Value, returning the expanded value.
 /// If `strict` is true, conflicts will cause an error.
 pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
+    expand_paths_within(value, strict, MAX_DEPTH)
+}
+
+/// Apply path expansion, letting dotted keys add at most `levels` levels of nesting.
+fn expand_paths_within(value: Value, strict: bool, levels: usize) -> Result<Value, String> {
     match value {
         Value::Object(entries) => {
             let mut result: Vec<(String, Value)> = Vec::new();
 
             for (key, val) in entries {
+                let expand = should_expand_key(&key);
+                let segments = if expand { split_key(&key) } else { vec![] };
+                let levels = levels
+                    .checked_sub(segments.len().saturating_sub(1))
+                    .ok_or_else(|| {
+                        format!("path expansion nests more than {} levels deep", MAX_DEPTH)
+                    })?;
+
                 // Recursively expand nested values first
-                let expanded_val = expand_paths(val, strict)?;
+                let expanded_val = expand_paths_within(val, strict, levels)?;
 
-                if should_expand_key(&key) {
+                if expand {
                     // Expand the dotted key
-                    let segments = split_key(&key);
                     let nested = build_nested_from_segments(&segments, expanded_val);
 
                     // Merge into result
@@ -143,7 +156,7 @@ pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
         Value::Array(arr) => {
             let mut result = Vec::with_capacity(arr.len());
             for item in arr {
-                result.push(expand_paths(item, strict)?);
+                result.push(expand_paths_within(item, strict, levels)?);
             }
             Ok(Value::Array(result))
         }
diff --git a/crates/toon/src/decode/validation.rs b/crates/toon/src/decode/validation.rs
index 48017cc..5a4904d 100644
--- a/crates/toon/src/decode/validation.rs
+++ b/crates/toon/src/decode/validation.rs
@@ -3,6 +3,7 @@
 use alloc::{
     format,
     string::{String, ToString},
+    vec::Vec,
 };
 
 #[derive(Debug)]
@@ -11,6 +12,35 @@ pub struct ValidationError {
     pub message: String,
 }
 
+/// How many lines may be open (each nested inside the one before it) at the same time.
+/// Decoding is recursive, so that unlimited nesting would overflow the stack.
+pub(crate) const MAX_DEPTH: usize = 128;
+
+/// Validate that lines are not nested more than `MAX_DEPTH` deep
+pub(crate) fn validate_nesting(
+    lines: &[crate::decode::scanner::ParsedLine<'_>],
+) -> Result<(), ValidationError> {
+    use crate::decode::scanner::LineKind;
+    // Indents of the open lines, outermost first
+    let mut open: Vec<usize> = Vec::new();
+    for (idx, pl) in lines.iter().enumerate() {
+        if matches!(pl.kind, LineKind::Blank) {
+            continue;
+        }
+        while open.last().is_some_and(|&indent| indent >= pl.indent) {
+            open.pop();
+        }
+        if open.len() == MAX_DEPTH {
+            return Err(ValidationError {
+                line: idx + 1,
+                message: format!("nested more than {} levels deep", MAX_DEPTH),
+            });
+        }
+        open.push(pl.indent);
+    }
+    Ok(())
+}
+
 /// Validate indentation with configurable indent size (typically 2 or 4)
 pub fn validate_indentation_with_size<'a>(
     lines: &[crate::decode::scanner::ParsedLine<'a>],
-- 
2.43.0


From c51366b8f2e7d1a15c4c88a7ff25587f6f00ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 30/34] fix: expanding many keys below one path no longer
 copies the merged object for every key

---
 crates/toon/src/decode/path_expand.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 72b01ed..8e3e1d2 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -78,16 +78,14 @@ fn deep_merge(
         let existing = &mut target[idx].1;
 
         // Check for conflicts
-        match (&existing, &value) {
+        match (existing, value) {
             (Value::Object(existing_obj), Value::Object(new_obj)) => {
                 // Both are objects - deep merge
-                let mut merged = existing_obj.clone();
-                for (k, v) in new_obj.clone() {
-                    deep_merge(&mut merged, k, v, strict)?;
+                for (k, v) in new_obj {
+                    deep_merge(existing_obj, k, v, strict)?;
                 }
-                *existing = Value::Object(merged);
             }
-            _ => {
+            (existing, value) => {
                 // Conflict: different types or primitive/array
                 if strict {
                     return Err(format!(
-- 
2.43.0


From 95718eab464b6aa275fdd548de152ef848946be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 31/34] fix: array headers without a key check their counts
 wherever they stand

---
 crates/toon/src/decode/parser.rs | 38 ++------------------------------
 1 file changed, 2 insertions(+), 36 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 9143df7..c4a134c 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -873,31 +873,8 @@ impl<'a> Parser<'a> {
                         if let Some(header) = parse_array_header(&with_colon) {
                             // This is a root-level array at this indent
                             if header.key.is_none() {
-                                let header_line_no = self.idx + 1;
                                 self.next();
-                                if let Some(ref fields) = header.fields {
-                                    let fields_refs: Vec<&str> =
-                                        fields.iter().map(|s| s.as_str()).collect();
-                                    return self.parse_tabular_rows(
-                                        header.length,
-                                        header.delimiter,
-                                        &fields_refs,
-                                        indent + self.indent_unit,
-                                        header_line_no,
-                                    );
-                                }
-                                if let Some(ref inline) = header.inline_values {
-                                    if !inline.is_empty() {
-                                        let values = split_delim_aware(inline, header.delimiter);
-                                        return Value::Array(
-                                            values
-                                                .into_iter()
-                                                .map(|v| self.parse_scalar_token(v))
-                                                .collect(),
-                                        );
-                                    }
-                                }
-                                return self.parse_array(indent);
+                                return self.parse_keyed_array_value(&header, indent, true);
                             }
                         }
                     }
@@ -908,18 +885,7 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
-                            if let Some(ref inline) = header.inline_values {
-                                if !inline.is_empty() {
-                                    let values = split_delim_aware(inline, header.delimiter);
-                                    return Value::Array(
-                                        values
-                                            .into_iter()
-                                            .map(|v| self.parse_scalar_token(v))
-                                            .collect(),
-                                    );
-                                }
-                            }
-                            return Value::Array(Vec::new());
+                            return self.parse_keyed_array_value(&header, indent, true);
                         }
                     }
                 }
-- 
2.43.0


From 4feebe00268d323fef63ae813f3dc8b7c2540c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 32/34] fix: strict decoding rejects text after the colon of a
 table header

---
 crates/toon/src/decode/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index c4a134c..cc6a4d0 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -292,6 +292,7 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
+                            self.reject_text_after_table_header(&header, header_line_no);
                             let row_indent = self.array_child_indent(indent, false);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
@@ -994,6 +995,7 @@ impl<'a> Parser<'a> {
 
         if let Some(ref fields) = header.fields {
             // Tabular array - rows indented below the header
+            self.reject_text_after_table_header(&header, line_no);
             let row_indent = self.array_child_indent(0, false);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
@@ -1053,6 +1055,7 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
+            self.reject_text_after_table_header(header, header_line_no);
             // Get current indent to determine row indent
             let row_indent = self.array_child_indent(parent, allow_equal);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
@@ -1094,6 +1097,18 @@ impl<'a> Parser<'a> {
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
+    /// In strict mode, nothing may follow the colon of a table's header: the values are in
+    /// its rows
+    fn reject_text_after_table_header(&mut self, header: &ArrayHeader, line_no: usize) {
+        let text = header.inline_values.as_deref().unwrap_or_default();
+        if self.strict && !text.is_empty() && self.error.is_none() {
+            self.error = Some(crate::error::Error::Syntax {
+                line: line_no,
+                message: "unexpected text after table header".to_string(),
+            });
+        }
+    }
+
     /// Parse tabular rows at the given indent level
     fn parse_tabular_rows(
         &mut self,
-- 
2.43.0


From 849b7a3c3c636908ed7334c32cc3db9ab494e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 33/34] fix: strict decoding rejects an array header without a
 key among fields

---
 crates/toon/src/decode/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index cc6a4d0..698cd13 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -458,6 +458,12 @@ impl<'a> Parser<'a> {
                         find_unquoted_bracket(kref).and_then(|_| parse_array_header(&combined))
                     {
                         self.next();
+                        if self.strict && header.key.is_none() && self.error.is_none() {
+                            self.error = Some(crate::error::Error::Syntax {
+                                line: self.idx,
+                                message: "array header without a key among fields".to_string(),
+                            });
+                        }
                         let k = header
                             .key
                             .as_ref()
@@ -477,6 +483,12 @@ impl<'a> Parser<'a> {
                     // Check if this is an array header like "key[3]:" or "key[2]{id,name}:"
                     if let Some(header) = parse_array_header(&format!("{}:", kref)) {
                         self.next();
+                        if self.strict && header.key.is_none() && self.error.is_none() {
+                            self.error = Some(crate::error::Error::Syntax {
+                                line: self.idx,
+                                message: "array header without a key among fields".to_string(),
+                            });
+                        }
                         let k = header
                             .key
                             .as_ref()
-- 
2.43.0


From b214adfdc16e407709463297e844487fc1beb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 34/34] fix: a null nested below a bare hyphen is decoded as
 null

---
 crates/toon/src/decode/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 698cd13..2e9674a 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -380,13 +380,16 @@ impl<'a> Parser<'a> {
             } else {
                 // Bare "-" list item - check if there are children
                 let child_indent = indent + self.indent_unit;
-                let child_val = self.parse_node(child_indent);
-                // If parse_node returns Null (no children), this is an empty object
-                if matches!(child_val, Value::Null) {
-                    arr.push(Value::Object(Vec::new()));
+                let has_children = self
+                    .peek_content()
+                    .is_some_and(|nl| nl.indent >= child_indent);
+                // With no children, this is an empty object
+                let child_val = if has_children {
+                    self.parse_node(child_indent)
                 } else {
-                    arr.push(child_val);
-                }
+                    Value::Object(Vec::new())
+                };
+                arr.push(child_val);
             }
         }
         Value::Array(arr)
-- 
2.43.0

