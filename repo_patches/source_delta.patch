From 4232679fede5b32cd1170a0329d0a348bf30abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 01/14] fix: compare the end of a parse with the text length in
 bytes

Ranges are byte ranges, so comparing with the number of chars accepted
trailing garbage after multibyte text.
---
 src/meta_rules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meta_rules/mod.rs b/src/meta_rules/mod.rs
index c1766a0..3be4666 100644
--- a/src/meta_rules/mod.rs
+++ b/src/meta_rules/mod.rs
@@ -72,7 +72,7 @@ pub fn parse_with_indent(
     match res {
         Ok((range, s, opt_error)) => {
             // Report error if did not reach the end of text.
-            if range.next_offset() < text.chars().count() {
+            if range.next_offset() < text.len() {
                 Err(ret_err(
                     Range::empty(range.next_offset()).wrap(
                         ParseError::ExpectedEnd),
-- 
2.43.0


From 6b3793846855e54cf8b29154cdaa5fe043d34269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 02/14] fix: try the last rule of a lookup select at the end of
 the text

The last rule can match the empty text, and the plain select tries it.
---
 src/meta_rules/fast_select.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index 9e4fb57..d9a85d2 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -50,8 +50,8 @@ impl FastSelect {
         indent_settings: &mut IndentSettings,
     ) -> ParseResult<TokenizerState> {
         if self.tail {
+            let mut opt_error: Option<Range<ParseError>> = None;
             if let Some(ch) = read_token.src.chars().next() {
-                let mut opt_error: Option<Range<ParseError>> = None;
                 let mut buf = [0; 4];
                 ch.encode_utf8(&mut buf);
                 let ind = self.table[buf[0] as usize];
@@ -68,20 +68,18 @@ impl FastSelect {
                         }
                     }
                 }
-                let sub_rule = &self.args[self.args.len()-1];
-                match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
-                    Ok((range, state, err)) => {
-                        err_update(err, &mut opt_error);
-                        Ok((read_token.peek(range.length),
-                            state, opt_error))
-                    }
-                    Err(err) => {
-                        Err(ret_err(err, opt_error))
-                    }
+            }
+            // The last rule might succeed at the end of the text as well.
+            let sub_rule = &self.args[self.args.len()-1];
+            match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
+                Ok((range, state, err)) => {
+                    err_update(err, &mut opt_error);
+                    Ok((read_token.peek(range.length),
+                        state, opt_error))
+                }
+                Err(err) => {
+                    Err(ret_err(err, opt_error))
                 }
-            } else {
-                Err(read_token.start().wrap(
-                    ParseError::ExpectedSomething(self.debug_id)))
             }
         } else {
             if let Some(ch) = read_token.src.chars().next() {
-- 
2.43.0


From eee0f1625267eaa31543b62d2c36fd2993abc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 03/14] fix: compare lookup selects by their contents

Equality was always false, so a syntax did not equal itself.
---
 src/meta_rules/fast_select.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meta_rules/fast_select.rs b/src/meta_rules/fast_select.rs
index d9a85d2..2155665 100644
--- a/src/meta_rules/fast_select.rs
+++ b/src/meta_rules/fast_select.rs
@@ -30,7 +30,12 @@ pub struct FastSelect {
 }
 
 impl PartialEq for FastSelect {
-    fn eq(&self, _: &Self) -> bool {false}
+    fn eq(&self, other: &Self) -> bool {
+        self.table[..] == other.table[..]
+        && self.args == other.args
+        && self.tail == other.tail
+        && self.debug_id == other.debug_id
+    }
 }
 
 impl std::fmt::Debug for FastSelect {
-- 
2.43.0


From 1049000f5b20d8ecea124e775897448f0c44fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 04/14] fix: a separate-by rule without the trailing mark
 disallows trailing

This is what the documentation of the meta language says.
---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index 7f7d5ab..c3cf5cf 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -654,7 +654,7 @@ pub fn convert(
             }
         }
         let optional = optional.unwrap_or(true);
-        let allow_trail = allow_trail.unwrap_or(true);
+        let allow_trail = allow_trail.unwrap_or(false);
         match (by, rule) {
             (Some(by), Some(rule)) => {
                 *debug_id += 1;
-- 
2.43.0


From 369680a1b3a112a7a980b72818ad050f828f67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 05/14] fix: escape all control characters in JSON strings

---
 src/json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index 6e187b9..c984b14 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -83,6 +83,8 @@ pub fn write_string<W>(w: &mut W, val: &str) -> Result<(), io::Error>
             write!(w, "\\r")?;
         } else if c == '\t' {
             write!(w, "\\t")?;
+        } else if c < ' ' {
+            write!(w, "\\u{:04x}", c as u32)?;
         } else {
             write!(w, "{}", c)?;
         }
-- 
2.43.0


From 643ed6dc818c247da4ecca461a871c9fa69c1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 06/14] fix: stop repeating a rule that reads nothing

Repeat and SeparateBy looped forever when their sub rules succeeded
without reading any text.
---
 src/meta_rules/repeat.rs      | 10 ++++++++--
 src/meta_rules/separate_by.rs |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/repeat.rs b/src/meta_rules/repeat.rs
index 3a6b83e..c3a7d5a 100644
--- a/src/meta_rules/repeat.rs
+++ b/src/meta_rules/repeat.rs
@@ -51,9 +51,15 @@ impl Repeat {
                         break;
                     }
                 }
-                Ok((range, state, err)) => {
+                Ok((range, new_state, err)) => {
+                    let progress = range.length > 0;
                     update(range, err, &mut read_token, &mut opt_error);
-                    state
+                    if !progress {
+                        // Would repeat forever.
+                        state = new_state;
+                        break;
+                    }
+                    new_state
                 }
             };
             first = false;
diff --git a/src/meta_rules/separate_by.rs b/src/meta_rules/separate_by.rs
index 3d7457b..64d4463 100644
--- a/src/meta_rules/separate_by.rs
+++ b/src/meta_rules/separate_by.rs
@@ -46,6 +46,7 @@ impl SeparateBy {
         let mut first = true;
         let mut opt_error = None;
         loop {
+            let item_start = read_token.offset;
             state = match self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                 Err(err) => {
                     match (first, self.optional, self.allow_trail) {
@@ -73,6 +74,11 @@ impl SeparateBy {
                     break;
                 }
                 Ok((range, state, err)) => {
+                    if read_token.offset + range.length == item_start {
+                        // Would repeat forever.
+                        err_update(err, &mut opt_error);
+                        break;
+                    }
                     update(range, err, &mut read_token, &mut opt_error);
                     state
                 }
-- 
2.43.0


From bdbdc7c49869142be160a184895f077c7f41aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 07/14] fix: restore the indention after reading indented lines

The indention aligned to the first line leaked to the rules that follow.
---
 src/meta_rules/lines.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_rules/lines.rs b/src/meta_rules/lines.rs
index 7a5d316..1683252 100644
--- a/src/meta_rules/lines.rs
+++ b/src/meta_rules/lines.rs
@@ -42,7 +42,8 @@ impl Lines {
         let mut opt_error = None;
         let mut first = true;
         if self.indent {
-            match read_token.lines(|read_token| {
+            let start_indent = indent_settings.indent;
+            let res = read_token.lines(|read_token| {
                 let offset = read_token.offset;
                 let mut read_token = *read_token;
                 if self.indent {
@@ -101,7 +102,10 @@ impl Lines {
                         Some(range)
                     }
                 }
-            }) {
+            });
+            // Indention aligned to the first line applies to these lines only.
+            indent_settings.indent = start_indent;
+            match res {
                 Err(range) => {
                     let err = range.wrap(
                         ParseError::ExpectedNewLine(self.debug_id));
-- 
2.43.0


From c82f747e529e72a591e65b9b8612b229d1807a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 08/14] fix: ignoring an end node does not underflow

---
 src/bootstrap/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index c3cf5cf..a5590a7 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -95,7 +95,7 @@ impl<'a> Convert<'a> {
         for item in self.data.iter() {
             match &item.data {
                 &MetaData::StartNode(_) => acc += 1,
-                &MetaData::EndNode(_) => acc -= 1,
+                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),
                 _ => {}
             }
             len += 1;
-- 
2.43.0


From 10152bf227a7992a7303043ee8ce533b4c4c6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 09/14] fix: conversion fails on nodes that are not properly
 nested

The readers looped forever when the end of a node was missing.
---
 src/bootstrap/convert.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index a5590a7..d7691ab 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -876,6 +876,19 @@ pub fn convert(
         }
     }
 
+    // Nodes that are not closed, or closed by another name, can not be read.
+    let mut open: Vec<&Arc<String>> = vec![];
+    for item in data {
+        match item.data {
+            MetaData::StartNode(ref name) => open.push(name),
+            MetaData::EndNode(ref name) => {
+                if open.pop() != Some(name) { return Err(()); }
+            }
+            _ => {}
+        }
+    }
+    if !open.is_empty() { return Err(()); }
+
     let mut strings: Vec<(Arc<String>, Arc<String>)> = vec![];
     let mut convert = Convert::new(data);
     loop {
-- 
2.43.0


From bbfb77e044205234f70518c7a359849785fcfd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 10/14] fix: conversion fails on node ids too large for debug
 ids

Computing the debug ids overflowed.
---
 src/bootstrap/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/convert.rs b/src/bootstrap/convert.rs
index d7691ab..a3a2e42 100644
--- a/src/bootstrap/convert.rs
+++ b/src/bootstrap/convert.rs
@@ -851,13 +851,15 @@ pub fn convert(
                 convert.update(range);
                 break;
             } else if let Ok((range, val)) = convert.meta_f64("id") {
+                // The debug ids are computed from the node id.
+                if val as usize > ::std::usize::MAX / 2000 { return Err(()); }
                 id = Some(val as usize);
                 convert.update(range);
             } else if let Ok((range, val)) = convert.meta_string("name") {
                 name = Some(val);
                 convert.update(range);
             } else if let Ok((range, val)) = read_rule(
-                &mut (id.unwrap_or(0) * 1000), "rule",
+                &mut id.unwrap_or(0usize).saturating_mul(1000), "rule",
                 convert, strings, ignored
             ) {
                 rule = Some(val);
-- 
2.43.0


From 2968f5248fcf2ed91ebff8d9b6de0139e61700c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 11/14] fix: report rules that can not be converted instead of
 dropping them

A rule referring to an undefined string was silently left out.
---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b767e6..13888e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,13 @@ pub fn syntax(rules: &str) -> Result<Syntax, Range<ParseError>> {
     parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;
     let mut ignored_meta_data = vec![];
     match bootstrap::convert(&tokens, &mut ignored_meta_data) {
-        Ok(res) => Ok(res.optimize()),
+        Ok(res) => {
+            if let Some(range) = ignored_meta_data.first() {
+                return Err(tokens[range.offset].range().wrap(ParseError::Conversion(
+                    format!("Could not convert rule, it might refer to an undefined string"))));
+            }
+            Ok(res.optimize())
+        }
         Err(()) => Err(Range::empty(0).wrap(ParseError::Conversion(
             format!("Bootstrapping rules are incorrect"))))
     }
-- 
2.43.0


From d850d23573dd9d11541f93b1b203a8f8ffd906a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 12/14] fix: write null for numbers that JSON can not represent

---
 src/json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index c984b14..f31cd44 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -54,7 +54,11 @@ pub fn write<W>(w: &mut W, data: &[Range<MetaData>]) -> Result<(), io::Error>
             }
             MetaData::F64(ref name, val) => {
                 write_string(w, name)?;
-                write!(w, ":{}", val)?;
+                if val.is_finite() {
+                    write!(w, ":{}", val)?;
+                } else {
+                    write!(w, ":null")?;
+                }
             }
             MetaData::String(ref name, ref val) => {
                 write_string(w, name)?;
-- 
2.43.0


From 55e63e0c39357fa529d2b60c795ab3882690af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 13/14] fix: report the column and excerpt of an error in
 characters

Byte offsets were used to count characters.
---
 src/parse_error_handler.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parse_error_handler.rs b/src/parse_error_handler.rs
index 2874f8a..aad4985 100644
--- a/src/parse_error_handler.rs
+++ b/src/parse_error_handler.rs
@@ -48,9 +48,11 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    // Ranges are in bytes, the report is in characters.
+                    let bytes = intersect.offset - r.offset;
+                    let j = text.char_indices().take_while(|&(i, _)| i < bytes).count();
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
@@ -122,9 +124,11 @@ impl<'a> ParseErrorHandler<'a> {
         for (i, &(r, text)) in self.lines.iter().enumerate() {
             if let Some(intersect) = range.ends_intersect(&r) {
                 if intersect.offset >= r.offset {
-                    let j = intersect.offset - r.offset;
+                    // Ranges are in bytes, the report is in characters.
+                    let bytes = intersect.offset - r.offset;
+                    let j = text.char_indices().take_while(|&(i, _)| i < bytes).count();
                     let s = if j > 75 { j - 50 } else { 0 };
-                    let e = ::std::cmp::min(s + 100, r.length);
+                    let e = ::std::cmp::min(s + 100, text.chars().count());
                     write!(w, "{},{}: ", i + 1, j + 1)?;
                     for c in text.chars().skip(s).take(e - s) {
                         write!(w, "{}", c)?;
-- 
2.43.0


From 7ad467d3e924f5fdddb9fefe21dba5647216e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 14/14] fix: writing data that starts with the end of a node
 does not underflow

---
 src/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.rs b/src/json.rs
index f31cd44..b9ed2dc 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -25,7 +25,7 @@ pub fn write<W>(w: &mut W, data: &[Range<MetaData>]) -> Result<(), io::Error>
     for (i, d) in data.iter().enumerate() {
         let d = &d.data;
         let is_end = if let MetaData::EndNode(_) = *d {
-            indent -= 1;
+            indent = indent.saturating_sub(1);
             true
         } else { false };
         let print_comma = !first && !is_end;
-- 
2.43.0

