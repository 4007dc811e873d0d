From 3afa64540ca28eea7477f07fe7287b9ee9a684c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 01/11] fix: do not read a bracket inside a value as an array
 header

---
 src/decode/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..5c6943b 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -57,6 +57,12 @@ pub fn parse_array_header_line(
         return Ok(None);
     };
 
+    // An unquoted key ends at the first colon, so a bracket after that colon
+    // belongs to the value (`key: "x[2]: y"`), not to an array header.
+    if !trimmed.starts_with(DOUBLE_QUOTE) && content[..bracket_start].contains(COLON) {
+        return Ok(None);
+    }
+
     let Some(bracket_end) = content[bracket_start..].find(CLOSE_BRACKET) else {
         return Ok(None);
     };
-- 
2.43.0


From b834fa409dc847e4597e2d10447c602c722938a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 02/11] fix: ignore closing braces inside quoted field names of
 a table header

---
 src/decode/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 5c6943b..25ea626 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -78,9 +78,8 @@ pub fn parse_array_header_line(
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_fields_end(content, brace_start)
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -120,9 +119,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_fields_end(content, brace_start)
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
@@ -154,6 +152,15 @@ pub fn parse_array_header_line(
     }))
 }
 
+/// Find the brace closing a field list, ignoring braces inside quoted field names.
+fn find_fields_end(content: &str, brace_start: usize) -> Option<usize> {
+    find_unquoted_char(content, CLOSE_BRACE, brace_start).or_else(|| {
+        content[brace_start..]
+            .find(CLOSE_BRACE)
+            .map(|idx| brace_start + idx)
+    })
+}
+
 /// Hard cap on the declared length that appears inside an array header `[N]`.
 ///
 /// A TOON file claiming e.g. `[9999999999]` should not be allowed to drive
-- 
2.43.0


From a6f594da20c5ad9795acdfacf02bed5eed651d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 03/11] fix: quote a string with leading zeros only when all of
 it looks like a number

---
 src/shared/literal_utils.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/shared/literal_utils.rs b/src/shared/literal_utils.rs
index 881a5d5..9a635f9 100644
--- a/src/shared/literal_utils.rs
+++ b/src/shared/literal_utils.rs
@@ -15,15 +15,12 @@ pub fn is_numeric_like(value: &str) -> bool {
     let bytes = trimmed.as_bytes();
     let mut i = 0usize;
 
-    let digit_start = if bytes[0] == b'-' {
+    if bytes[0] == b'-' {
         i += 1;
         if i >= bytes.len() {
             return false;
         }
-        1
-    } else {
-        0
-    };
+    }
 
     let mut digit_count = 0usize;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
@@ -35,11 +32,6 @@ pub fn is_numeric_like(value: &str) -> bool {
         return false;
     }
 
-    // Leading zero checks for integer-like values (works for both positive and negative).
-    if digit_count > 1 && bytes[digit_start] == b'0' {
-        return true;
-    }
-
     let mut saw_dot = false;
     if i < bytes.len() && bytes[i] == b'.' {
         saw_dot = true;
-- 
2.43.0


From 33770c8bbd6008a791cfc9db9c8a8dbce3827558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 04/11] fix: keep folded keys of a list item apart from its
 first key

---
 src/encode/encoders.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 210720d..ee34baa 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -44,10 +44,33 @@ fn encode_object_lines(
 ) {
     // Collect keys as references to avoid cloning
     let keys: Vec<&str> = value.iter().map(|(key, _)| key.as_str()).collect();
+    encode_members_lines(
+        value,
+        &keys,
+        depth,
+        options,
+        root_literal_keys,
+        path_prefix,
+        remaining_depth,
+        out,
+    );
+}
 
+/// Encode some members of an object; `siblings` are the keys of all its members.
+#[allow(clippy::too_many_arguments)]
+fn encode_members_lines(
+    value: &[(String, JsonValue)],
+    siblings: &[&str],
+    depth: usize,
+    options: &ResolvedEncodeOptions,
+    root_literal_keys: Option<&HashSet<String>>,
+    path_prefix: Option<&str>,
+    remaining_depth: Option<usize>,
+    out: &mut Vec<String>,
+) {
     let mut root_literal_set = HashSet::new();
     let root_literal_keys = if depth == 0 && root_literal_keys.is_none() {
-        for key in &keys {
+        for key in siblings {
             if key.contains(DOT) {
                 root_literal_set.insert((*key).to_string());
             }
@@ -65,7 +88,7 @@ fn encode_object_lines(
             val,
             depth,
             options,
-            &keys,
+            siblings,
             root_literal_keys,
             path_prefix,
             effective_flatten_depth,
@@ -372,6 +395,7 @@ fn encode_object_as_list_item_lines(
         Vec::new()
     };
     let (first_key, first_value) = first;
+    let keys: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
 
     if let JsonValue::Array(items) = &first_value
         && is_array_of_objects(items)
@@ -386,7 +410,7 @@ fn encode_object_as_list_item_lines(
         out.push(indented_list_item(depth, &formatted, options.indent));
         write_tabular_rows_lines(items, &header, depth + 2, options, out);
         if !rest.is_empty() {
-            encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+            encode_members_lines(&rest, &keys, depth + 1, options, None, None, None, out);
         }
         return;
     }
@@ -446,7 +470,7 @@ fn encode_object_as_list_item_lines(
     }
 
     if !rest.is_empty() {
-        encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+        encode_members_lines(&rest, &keys, depth + 1, options, None, None, None, out);
     }
 }
 
-- 
2.43.0


From 86d7c0507a10b2497c529e08a876afde30b76488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 05/11] fix: reject lines that fit no open structure in strict
 mode

---
 src/decode/decoders.rs   |  4 +++-
 src/decode/validation.rs | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..319260c 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -8,7 +8,7 @@ use crate::decode::scanner::{
 };
 use crate::decode::validation::{
     assert_expected_count, validate_no_blank_lines_in_range, validate_no_extra_list_items,
-    validate_no_extra_tabular_rows,
+    validate_no_extra_tabular_rows, validate_no_leftover_lines,
 };
 use crate::error::{Result, ToonError};
 use crate::options::DecodeStreamOptions;
@@ -58,6 +58,7 @@ pub fn decode_stream_sync(
     {
         cursor.advance_sync();
         decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
+        validate_no_leftover_lines(cursor.peek_sync(), context.strict)?;
         return Ok(events);
     }
 
@@ -86,6 +87,7 @@ pub fn decode_stream_sync(
     }
 
     events.push(JsonStreamEvent::EndObject);
+    validate_no_leftover_lines(cursor.peek_sync(), context.strict)?;
     Ok(events)
 }
 
diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 30e0ffe..fe18e32 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -100,6 +100,22 @@ pub fn validate_no_blank_lines_in_range(
     Ok(())
 }
 
+/// Validate that decoding used every line of the document.
+///
+/// # Errors
+///
+/// Returns an error in strict mode when a line fits no open structure, such as
+/// one indented too deeply or one following a root array.
+pub fn validate_no_leftover_lines(next_line: Option<&ParsedLine>, strict: bool) -> Result<()> {
+    if strict && let Some(line) = next_line {
+        return Err(ToonError::validation(
+            line.line_number,
+            "Line does not belong to any open object or array",
+        ));
+    }
+    Ok(())
+}
+
 const fn is_data_row(content: &str, delimiter: char) -> bool {
     // Find first unquoted colon and delimiter to properly handle quoted strings
     let colon_pos = find_unquoted_char(content, COLON, 0);
-- 
2.43.0


From 12f60c79af73d6b29523dc9eea6d262fe52bdba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 06/11] fix: reject declared array lengths that do not fit the
 integer type

---
 src/decode/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 25ea626..5760d42 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -104,6 +104,11 @@ pub fn parse_array_header_line(
     let bracket_content = &content[bracket_start + 1..bracket_end];
 
     let Ok((length, delimiter)) = parse_bracket_segment(bracket_content, default_delimiter) else {
+        if is_oversized_length(bracket_content) {
+            return Err(ToonError::message(format!(
+                "Declared array length {bracket_content} exceeds maximum allowed ({MAX_DECLARED_ARRAY_LENGTH})"
+            )));
+        }
         return Ok(None);
     };
 
@@ -161,6 +166,13 @@ fn find_fields_end(content: &str, brace_start: usize) -> Option<usize> {
     })
 }
 
+/// Whether a bracket segment that failed to parse is a length too large for `usize`.
+fn is_oversized_length(seg: &str) -> bool {
+    let digits = seg.strip_suffix([TAB, PIPE]).unwrap_or(seg);
+    let digits = digits.strip_prefix('+').unwrap_or(digits);
+    !digits.is_empty() && digits.bytes().all(|byte| byte.is_ascii_digit())
+}
+
 /// Hard cap on the declared length that appears inside an array header `[N]`.
 ///
 /// A TOON file claiming e.g. `[9999999999]` should not be allowed to drive
-- 
2.43.0


From 6d5a2b648cfa5631f3589112d7489bf279376abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 07/11] fix: report write errors of the last buffered block of
 an output file

---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..480e36c 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // A dropped writer would swallow the error of its last write
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // A dropped writer would swallow the error of its last write
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From 98ebc572a38e85a1d897734fbd6834de93ea2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 08/11] fix: escape strings alike in both JSON writers

---
 src/cli/json_stringify.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/json_stringify.rs b/src/cli/json_stringify.rs
index 33fc952..9310eee 100644
--- a/src/cli/json_stringify.rs
+++ b/src/cli/json_stringify.rs
@@ -155,7 +155,9 @@ fn push_json_string(buf: &mut String, s: &str) {
             '\n' => buf.push_str("\\n"),
             '\r' => buf.push_str("\\r"),
             '\t' => buf.push_str("\\t"),
-            c if c.is_control() => {
+            '\u{0008}' => buf.push_str("\\b"),
+            '\u{000C}' => buf.push_str("\\f"),
+            c if c < ' ' => {
                 // Use \uXXXX format for control characters
                 let _ = write!(buf, "\\u{:04x}", c as u32);
             }
-- 
2.43.0


From a197d1755f9908931d609bb10337113755dd2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 09/11] fix: reject malformed event sequences when building a
 value

---
 src/decode/event_builder.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decode/event_builder.rs b/src/decode/event_builder.rs
index 697d5e2..5882ed9 100644
--- a/src/decode/event_builder.rs
+++ b/src/decode/event_builder.rs
@@ -70,6 +70,12 @@ pub fn node_to_json(value: NodeValue) -> JsonValue {
 
 #[allow(clippy::too_many_lines)]
 fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
+    if state.stack.is_empty() && state.root.is_some() {
+        return Err(ToonError::event_stream(
+            "Event after the end of the root value",
+        ));
+    }
+
     match event {
         JsonStreamEvent::StartObject => {
             state.stack.push(BuildContext::Object {
@@ -84,12 +90,15 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
             };
             let BuildContext::Object {
                 entries,
+                current_key,
                 quoted_keys,
-                ..
             } = context
             else {
                 return Err(ToonError::mismatched_end("Object", "Array"));
             };
+            if current_key.is_some() {
+                return Err(ToonError::unexpected_event("endObject", "after a key"));
+            }
             let node = NodeValue::Object(ObjectNode {
                 entries,
                 quoted_keys,
@@ -161,6 +170,9 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
                     "outside of object context",
                 ));
             };
+            if current_key.is_some() {
+                return Err(ToonError::unexpected_event("Key", "after another key"));
+            }
             *current_key = Some(key.clone());
             if was_quoted {
                 quoted_keys.insert(key);
-- 
2.43.0


From fedb96b2c1dd06fc85aecfd2551f02061ec97645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 10/11] fix: reject malformed event sequences when writing JSON

---
 src/cli/json_stream.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 59dadee..854484b 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -28,6 +28,9 @@ pub fn json_stream_from_events(
     let mut out = Vec::new();
 
     for event in events {
+        if stack.is_empty() && !out.is_empty() {
+            return Err(ToonError::message("Event after the end of the root value"));
+        }
         let parent = stack.last_mut();
         match event {
             JsonStreamEvent::StartObject => {
@@ -42,7 +45,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "Object event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -57,7 +66,13 @@ pub fn json_stream_from_events(
                 let Some(context) = stack.pop() else {
                     return Err(ToonError::message("Mismatched endObject event"));
                 };
-                if !matches!(context, JsonContext::Object { .. }) {
+                if !matches!(
+                    context,
+                    JsonContext::Object {
+                        expect_value: false,
+                        ..
+                    }
+                ) {
                     return Err(ToonError::message("Mismatched endObject event"));
                 }
                 depth = depth.saturating_sub(1);
@@ -97,7 +112,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "Array event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -146,6 +167,9 @@ pub fn json_stream_from_events(
                     return Err(ToonError::message("Key event outside of object context"));
                 };
 
+                if *expect_value {
+                    return Err(ToonError::message("Key event after another key"));
+                }
                 if *needs_comma {
                     out.push(",".to_string());
                 }
@@ -198,6 +222,9 @@ pub fn json_stream_from_events(
         }
     }
 
+    if out.is_empty() {
+        return Err(ToonError::message("Empty event stream"));
+    }
     if !stack.is_empty() {
         return Err(ToonError::message(
             "Incomplete event stream: unclosed objects or arrays",
-- 
2.43.0


From b44c86953b8f3b99da83c91b53c13263aa1b36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 11/11] fix: deliver the synchronous events from the
 asynchronous decode stream

The incremental stream left out or repeated object ends around lines it
passed to the synchronous decoder, misread keyed array headers and
multi-line documents, lost blank lines and line numbers, and went on after
an error.
---
 src/decode/async_decode.rs | 273 +++++++++++--------------------------
 1 file changed, 83 insertions(+), 190 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..313d073 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -22,19 +22,18 @@
 //! }
 //! ```
 
-use crate::JsonStreamEvent;
 use crate::decode::decoders as decoder_impl;
 use crate::decode::parser::{
-    is_array_header_content, is_key_value_content, parse_array_header_line, parse_key_token,
-    parse_primitive_token,
+    is_key_value_content, parse_array_header_line, parse_key_token, parse_primitive_token,
 };
 use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
+    ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
 };
-use crate::error::{Result, ToonError};
+use crate::error::Result;
 use crate::options::DecodeStreamOptions;
 use crate::shared::constants::{COLON, DEFAULT_DELIMITER, LIST_ITEM_PREFIX};
 use crate::shared::string_utils::find_closing_quote;
+use crate::{JsonPrimitive, JsonStreamEvent};
 use asupersync::stream::{Stream, StreamExt, iter};
 use std::collections::VecDeque;
 use std::pin::Pin;
@@ -45,18 +44,14 @@ use std::task::{Context, Poll};
 enum DecoderState {
     /// Haven't seen any lines yet
     Initial,
-    /// Processing simple key-value pairs (can emit incrementally)
-    SimpleObject { base_depth: Depth },
-    /// Saw an array header, need to process array specially
-    ArrayMode,
+    /// Processing root-level key-value pairs (can emit incrementally)
+    SimpleObject,
+    /// Saw a line that needs batch processing together with all others
+    BatchMode,
     /// Processing is complete
     Finished,
 }
 
-/// Context for tracking nested object structures.
-/// Arrays fall back to batch processing, so we only track object depth incrementally.
-type ObjectDepth = Depth;
-
 /// Async stream that yields `JsonStreamEvent` items from TOON input lines.
 ///
 /// This stream processes TOON input line-by-line, yielding events as they are
@@ -66,9 +61,9 @@ type ObjectDepth = Depth;
 /// # Incremental Processing
 ///
 /// The stream emits events incrementally when possible:
-/// - Simple flat objects emit Key + Primitive events as lines arrive
-/// - Nested objects push/pop context and emit events at structure boundaries
-/// - Arrays with headers require buffering until all items are processed
+/// - Root-level `key: primitive` lines emit Key + Primitive events as lines arrive
+/// - The first line of any other kind switches to the synchronous decoder, which
+///   decodes the whole document; events emitted before the switch are not repeated
 pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     /// The underlying line iterator
     lines: I,
@@ -80,16 +75,12 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     event_queue: VecDeque<JsonStreamEvent>,
     /// Decoder state machine
     state: DecoderState,
-    /// Stack of object depths for tracking nested structures
-    context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
-    line_buffer: Vec<ParsedLine>,
+    /// All lines read so far, in case the document needs batch processing
+    raw_lines: Vec<String>,
+    /// Number of events queued by incremental processing
+    queued: usize,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
-    /// Error encountered during processing
-    error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -102,11 +93,9 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             scan_state: create_scan_state(),
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
-            context_stack: Vec::new(),
-            line_buffer: Vec::new(),
+            raw_lines: Vec::new(),
+            queued: 0,
             lines_exhausted: false,
-            error: None,
-            last_depth: None,
         }
     }
 
@@ -122,164 +111,92 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
 
     /// Process the next available event or line
     fn process_next(&mut self) -> Result<Option<JsonStreamEvent>> {
+        let result = self.step();
+        if result.is_err() {
+            // An error ends the stream
+            self.state = DecoderState::Finished;
+            self.event_queue.clear();
+        }
+        result
+    }
+
+    fn step(&mut self) -> Result<Option<JsonStreamEvent>> {
         // Return queued events first
         if let Some(event) = self.event_queue.pop_front() {
             return Ok(Some(event));
         }
 
-        // Check for stored error
-        if let Some(err) = self.error.take() {
-            return Err(err);
-        }
-
         // If finished, nothing more to do
         if self.state == DecoderState::Finished {
             return Ok(None);
         }
 
-        // If lines are exhausted, finalize
-        if self.lines_exhausted {
-            return self.finalize();
+        if self.state == DecoderState::BatchMode {
+            return self.batch_decode();
         }
 
         // Get next line
         let Some(raw_line) = self.lines.next() else {
             self.lines_exhausted = true;
-            return self.finalize();
+            return Ok(self.finalize());
         };
 
         // Parse the line (capture values before borrowing scan_state)
         let indent_size = self.indent_size();
         let strict = self.strict();
-        let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?;
-
-        // Skip blank lines
-        let Some(line) = parsed else {
-            return Ok(None);
-        };
-
-        // Process based on current state
-        match self.state {
-            DecoderState::Initial => self.process_initial_line(line),
-            DecoderState::SimpleObject { base_depth } => {
-                self.process_simple_object_line(line, base_depth)
-            }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
-                self.line_buffer.push(line);
-                Ok(None)
-            }
-            DecoderState::Finished => Ok(None),
-        }
-    }
-
-    /// Process the first line to determine document structure
-    fn process_initial_line(&mut self, line: ParsedLine) -> Result<Option<JsonStreamEvent>> {
-        // Check if it's an array header at root level
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Array at root - need batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            return Ok(None);
-        }
-
-        // Check if it's a key-value line (object)
-        if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
-    }
-
-    /// Process a line in simple object mode
-    fn process_simple_object_line(
-        &mut self,
-        line: ParsedLine,
-        base_depth: Depth,
-    ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
-        {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
+        let parsed = parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict);
+        self.raw_lines.push(raw_line);
+
+        match parsed {
+            // Skip blank lines
+            Ok(None) => {}
+            Ok(Some(line)) => {
+                if let Some((key, was_quoted, value)) = Self::simple_member(&line) {
+                    if self.state == DecoderState::Initial {
+                        self.state = DecoderState::SimpleObject;
+                        self.queue(JsonStreamEvent::StartObject);
+                    }
+                    self.queue(JsonStreamEvent::Key { key, was_quoted });
+                    self.queue(JsonStreamEvent::Primitive { value });
                 } else {
-                    break;
+                    self.state = DecoderState::BatchMode;
                 }
             }
+            // The synchronous decoder reports the error
+            Err(_) => self.state = DecoderState::BatchMode,
         }
 
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Switch to array mode for batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Process key-value line
-        self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
-
         Ok(self.event_queue.pop_front())
     }
 
-    /// Process a key-value line and queue events
-    fn process_key_value_line(&mut self, line: &ParsedLine) -> Result<()> {
-        let content = &line.content;
+    fn queue(&mut self, event: JsonStreamEvent) {
+        self.event_queue.push_back(event);
+        self.queued += 1;
+    }
 
-        // Handle list items specially
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            // List items indicate we need batch processing for proper array handling
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
+    /// Parse a root-level `key: primitive` line. Returns `None` for every other
+    /// line, including malformed ones.
+    fn simple_member(line: &ParsedLine) -> Option<(String, bool, JsonPrimitive)> {
+        if line.indent != 0 || !Self::is_key_value_line(line) {
+            return None;
         }
 
-        // Parse key-value
-        let (key, end, is_quoted) = parse_key_token(content, 0)?;
-        let rest = content[end..].trim();
+        let content = line.content.as_str();
+        if !matches!(
+            parse_array_header_line(content, DEFAULT_DELIMITER),
+            Ok(None)
+        ) {
+            return None;
+        }
 
+        let (key, end, was_quoted) = parse_key_token(content, 0).ok()?;
+        let rest = content[end..].trim();
         if rest.is_empty() {
-            // Key without value - nested content follows
-            // We can't know yet if it's an array or object, so switch to batch mode
-            // This ensures correct Start{Array,Object} emission
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
+            // Nested content may follow
+            return None;
         }
 
-        // Key with inline value - can emit incrementally
-        self.event_queue.push_back(JsonStreamEvent::Key {
-            key,
-            was_quoted: is_quoted,
-        });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
-
-        Ok(())
+        Some((key, was_quoted, parse_primitive_token(rest).ok()?))
     }
 
     /// Check if a line is a key-value line
@@ -303,58 +220,34 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         content.contains(COLON) && is_key_value_content(content)
     }
 
-    /// Finalize decoding when all lines are read
-    fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
-            return self.batch_decode_remaining();
-        }
-
-        // Close any remaining open object contexts
-        while self.context_stack.pop().is_some() {
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        }
-
-        // If we haven't emitted anything for an empty document
+    /// Finalize incremental decoding when all lines are read
+    fn finalize(&mut self) -> Option<JsonStreamEvent> {
+        // An empty document is an empty object
         if self.state == DecoderState::Initial {
-            self.state = DecoderState::Finished;
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        } else {
-            self.state = DecoderState::Finished;
+            self.queue(JsonStreamEvent::StartObject);
         }
+        self.queue(JsonStreamEvent::EndObject);
+        self.state = DecoderState::Finished;
 
-        Ok(self.event_queue.pop_front())
+        self.event_queue.pop_front()
     }
 
-    /// Fall back to batch decoding for complex structures
-    fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
-            }
-        }
-
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
+    /// Fall back to the synchronous decoder for complex structures
+    fn batch_decode(&mut self) -> Result<Option<JsonStreamEvent>> {
+        self.raw_lines.extend(self.lines.by_ref());
+        self.lines_exhausted = true;
 
         let events = decoder_impl::decode_stream_sync(
-            raw_lines,
+            std::mem::take(&mut self.raw_lines),
             Some(DecodeStreamOptions {
                 indent: self.options.indent,
                 strict: self.options.strict,
             }),
         )?;
 
-        // Queue all events
-        self.event_queue.extend(events);
-        self.line_buffer.clear();
-        self.context_stack.clear();
+        // Queue all events that were not emitted before
+        self.event_queue
+            .extend(events.into_iter().skip(self.queued));
         self.state = DecoderState::Finished;
 
         Ok(self.event_queue.pop_front())
-- 
2.43.0

