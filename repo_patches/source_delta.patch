From 078ca0c7b68f1cbe4449023ea59b9a296e33e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:31 +0000
Subject: [PATCH 01/11] fix: negating the smallest integer in a plural formula
 no longer panics

---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From 3c6fa92695bd4c9b937caec7ed5ebfc07097253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 02/11] fix: do not read a translator comment that quotes a
 string as message text

---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From c319a6114cbc6a6cafebced585e718a3ef7d739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 03/11] fix: a missing plural variant no longer shifts the
 following ones to its index

---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From 1b927ef9ffb8dbe1c8788c860dc83d7b2e47ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 04/11] fix: a non-ASCII Language header no longer panics

---
 src/po/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 1d0ecbf..21eb136 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -198,8 +198,10 @@ impl<'p, R: Read> PoReader<'p, R> {
             if let Some(lang) = self.header_properties.get("Language") {
                 self.target_language = LanguageRange::new(lang)
                     .map(LanguageRange::into_static)
-                    .or_else(|_| LanguageRange::from_unix(lang))
-                    .unwrap_or_else(|_| LanguageRange::invariant());
+                    .ok()
+                    // `from_unix` slices the variant at a byte index, so it can only be trusted with ASCII
+                    .or_else(|| lang.is_ascii().then(|| LanguageRange::from_unix(lang).ok()).flatten())
+                    .unwrap_or_else(LanguageRange::invariant);
             }
 
             if let Some(forms) = self.header_properties.get("Plural-Forms") {
-- 
2.43.0


From 51a13fd16946fc936fe9ee2ec681ea61c516f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 05/11] fix: reject a first entry without msgid instead of
 dropping its lines

---
 src/po/message_extractor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index 6d95de3..d22a025 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -42,10 +42,12 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
         // source
         let msgid = self.parse_msg("msgid")?;
 
-        if (!first) && msgid.is_none() {
+        if msgid.is_none() {
             self.expected("msgid")?;
 
-            return Ok(None);
+            if !first {
+                return Ok(None);
+            }
         }
 
         // plural
-- 
2.43.0


From 62d64bba805676b865df487fea468ea647d72ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:38 +0000
Subject: [PATCH 06/11] fix: reject plural entries with an empty msgid like the
 simple ones

---
 src/po/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 21eb136..3bec519 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -154,7 +154,7 @@ impl<'p, R: Read> PoReader<'p, R> {
             }
         };
 
-        if (!first) && unit.message.is_empty() {
+        if (!first || unit.message.is_plural()) && unit.message.get_id().is_empty() {
             Err(Error::Unexpected(line, String::from("Source should not be empty")))
         } else {
             if unit.state == State::Empty && !unit.message.is_blank() {
-- 
2.43.0


From e763662ce9e63c4c92b3dd50587aacde637b7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 07/11] fix: do not report an empty flag for a stray comma

---
 src/po/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 3bec519..19191e1 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -88,7 +88,7 @@ impl<'p, R: Read> PoReader<'p, R> {
         while let Some(Ok(PoLine::Comment(..))) = self.lines.peek() {
             match self.lines.next() {
                 Some(Ok(PoLine::Comment(_, ',', s))) => {
-                    for flag in s.split(',').map(str::trim) {
+                    for flag in s.split(',').map(str::trim).filter(|flag| !flag.is_empty()) {
                         unit.flags.insert(flag.to_string());
 
                         match flag {
-- 
2.43.0


From 05c24443a075480024c41acd77e7e47baf040415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 08/11] fix: a stray semicolon in Plural-Forms no longer hides
 the next key

---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..1d5feec 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -19,7 +19,7 @@ pub struct PoParser {
 impl PoParser {
     pub fn new() -> PoParser {
         PoParser {
-            map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
+            map_re: Regex::new(r"([^\s;=]+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
                 r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
-- 
2.43.0


From 48232a3fdd02e0b4b4ace0656bd89e2e20b2e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 09/11] fix: in plural formulas, < <= > >= bind tighter than ==
 and !=, as in C

---
 src/plural/formula/formula.lalrpop | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..05e36a9 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -26,12 +26,16 @@ And: Node = {
 };
 
 Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
-    <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Logical> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
+    <l:Logical> "==" <r:Relational> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Logical> "!=" <r:Relational> => Node::new_binop(BinOp::Ne, l, r),
+    Relational,
+};
+
+Relational: Node = {
+    <l:Relational> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relational> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relational> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relational> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
     Not,
 };
 
-- 
2.43.0


From ea7b4372c24b74cc258bda6d5c18167a719759bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 10/11] fix: reject plural formulas too long to be evaluated
 without exhausting the stack

---
 src/plural/formula/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 0564cc3..1de161c 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -5,6 +5,9 @@ use lalrpop_util::{lalrpop_mod, ParseError};
 
 lalrpop_mod!(formula, "/plural/formula/formula.rs");
 
+/// Formulas are evaluated and dropped recursively, so their size has to be bounded to fit in the stack.
+const MAX_FORMULA_LEN: usize = 4096;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub(super) struct Formula {
     expr: node::Node,
@@ -18,6 +21,13 @@ impl Formula {
             return Ok(Formula { expr: node::Node::Var });
         }
 
+        if input.len() > MAX_FORMULA_LEN {
+            return Err(Error::PluralForms(format!(
+                "Formula longer than {} bytes",
+                MAX_FORMULA_LEN
+            )));
+        }
+
         let parser = formula::FormulaParser::new();
         let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);
 
-- 
2.43.0


From 999380de4acd4f7c678d17fb8cddb5d0c06f9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 11/11] fix: a comment whose # is followed by any white space
 is a translator comment

---
 src/po/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 19191e1..5b8c3e7 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -104,7 +104,7 @@ impl<'p, R: Read> PoReader<'p, R> {
                 Some(Ok(PoLine::Comment(_, '.', value))) => {
                     unit.notes.push(Note::new(Origin::Developer, value));
                 }
-                Some(Ok(PoLine::Comment(_, ' ', value))) => {
+                Some(Ok(PoLine::Comment(_, kind, value))) if kind.is_whitespace() => {
                     unit.notes.push(Note::new(Origin::Translator, value));
                 }
                 Some(Ok(PoLine::Comment(_, kind, content))) => {
-- 
2.43.0

