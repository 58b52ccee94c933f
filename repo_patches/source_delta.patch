From e2ebef300348d2bccbbfded747d9c03a003dc8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 01/32] fix: do not advance the lexer past the end of file (a
 trailing backslash hung it)

---
 crates/seam/src/parse/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..7e84634 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -140,6 +140,9 @@ impl<'a> Lexer {
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
         let c = self.peek_char();
+        if c.is_none() {
+            return None;
+        }
         self.increment_byte_offsets(1);
         while !self.source.is_char_boundary(self.byte_offset.get()) {
             self.increment_byte_offsets(1);
-- 
2.43.0


From ac2570da56e2df1aae7a053fa560befced85ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 02/32] fix: count a newline inside a string or after a
 backslash once, report tokens on the line they start

---
 crates/seam/src/parse/lexer.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 7e84634..cce14fe 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -173,9 +173,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -189,10 +191,7 @@ impl<'a> Lexer {
             // Symbols can contain escaped characters.
             if c == '\\' {
                 let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char(); // escaped char.
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -210,9 +209,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -236,7 +237,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -267,7 +267,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -294,8 +293,10 @@ impl<'a> Lexer {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
         let start_from_line = self.byte_offset_line.get();
+        let line_no = self.line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From 184d6ddc61878128629268d93d8a29e8b4d5372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 03/32] fix: an escaped backslash in a symbol stands for a
 backslash

---
 crates/seam/src/parse/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..21e3c01 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,7 +522,11 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
+        if c == '\\' {
+            // The character after a backslash is literal, whichever it is.
+            builder.push(chars.next().unwrap_or('\\'));
+            continue;
+        }
         builder.push(c)
     }
     builder
-- 
2.43.0


From 287dda98beda0ffc759579500d59e2b920d2734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 04/32] fix: report a CSS rule without selectors instead of
 panicking, accept one without properties

---
 crates/seam/src/assemble/css.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..f793cce 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::Site;
 
 use std::slice::Iter;
 
@@ -172,14 +173,14 @@ fn generate_special_selector<'a>(f: Formatter,
                 unexpected_node(&arg, parsing_rules)?;
                 write!(f, "({}: {}) ", keyword, css_value(keyword, &*node)?)?;
             },
-            ParseNode::List { nodes: ref rule, leading_whitespace, .. } => {
+            ParseNode::List { nodes: ref rule, leading_whitespace, site, .. } => {
                 // Now we parse nested rules!
                 if !parsing_rules {
                     writeln!(f, "{{")?;
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, site, rule.into_iter())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -191,14 +192,11 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
-    let mut prop_i = 0; // Index of first property.
+fn generate_css_rule<'a>(f: Formatter, site: &Site<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
-        .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map_while(|n| n.atomic());
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +206,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             iter.clone().next().map_or(site, |n| n.site())));
     };
 
     // Handle special @-rule selectors.
@@ -225,7 +223,8 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
     }
     writeln!(f, "{{")?;
 
-    let properties = iter.skip(prop_i - 1);
+    // Properties are what follows the selectors.
+    let properties = iter.skip_while(|n| n.atomic().is_some());
 
     for property in properties {
         let ParseNode::Attribute { ref node, ref keyword, .. } = property else {
@@ -255,9 +254,9 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
         let mut tree_iter = self.tree.iter().peekable();
         while let Some(node) = tree_iter.next() {
             match node {
-                ParseNode::List { nodes: list, leading_whitespace, .. } => {
+                ParseNode::List { nodes: list, leading_whitespace, site, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, site, list.into_iter())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From 368fdcfb840fbe094cecdc6553d8bbdd908fc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 05/32] fix: end a CSS @-rule without nested rules with `;',
 not with an unopened `}'

---
 crates/seam/src/assemble/css.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index f793cce..b8a133d 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -188,7 +188,12 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    if parsing_rules {
+        write!(f, "}}")?;
+    } else {
+        // No nested rules, so no block was opened.
+        writeln!(f, ";")?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 45f158c689eeb57615ed344d101a914635dcb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/32] fix: separate the words of an XML declaration

---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..fb86b33 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -65,7 +65,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From cf97d23a2fb13f51eb21281e1ee74e0d2abb234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 07/32] fix: write (%raw ...) content unchanged in XML, as in
 every other format

---
 crates/seam/src/assemble/xml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index fb86b33..ee1d8e7 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -37,6 +37,11 @@ impl<'a> XMLFormatter<'a> {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", escape_xml(&node.value))?
             },
+            ParseNode::Raw(node) => {
+                // Don't escape any symbols in a raw-content string.
+                write!(f, "{}", node.leading_whitespace)?;
+                write!(f, "{}", &node.value)?;
+            },
             ParseNode::List { nodes: list, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 let head = list.first();
-- 
2.43.0


From 308d7d47e166bf09d8ea75092270db02e52c76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 08/32] fix: escape attribute values in HTML and XML

---
 crates/seam/src/assemble/html.rs |  6 +++---
 crates/seam/src/assemble/mod.rs  | 13 +++++++++++--
 crates/seam/src/assemble/xml.rs  |  6 +++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..96a4b0f 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -1,7 +1,7 @@
 //! Assembles an expanded tree into valid HTML.
 use std::cell::RefCell;
 
-use super::{escape_xml, GenerationError, MarkupFormatter, Formatter};
+use super::{attribute_value, escape_xml, GenerationError, MarkupFormatter, Formatter};
 use super::{
     text::PlainTextFormatter,
     sexp::SExpFormatter,
@@ -91,12 +91,12 @@ impl<'a> HTMLFormatter<'a> {
                 }
 
                 while let Some(ParseNode::Attribute { node, keyword, leading_whitespace, .. }) = rest.first() {
-                    if let Some(atom) = (*node).atomic() {
+                    if let Some(value) = attribute_value(node) {
                         let leading_whitespace
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        write!(f, "{}=\"{}\"", keyword, value)?;
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..081d290 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -1,5 +1,5 @@
-use crate::{impl_clone_box, CloneBox, parse::tokens::Site};
-use std::{convert, error::Error, fmt::{self, Debug}};
+use crate::{impl_clone_box, CloneBox, parse::{parser::ParseNode, tokens::Site}};
+use std::{borrow::Cow, convert, error::Error, fmt::{self, Debug}};
 
 use colored::*;
 use unicode_width::UnicodeWidthStr;
@@ -131,6 +131,15 @@ pub fn escape_xml(string: &str) -> String {
     }
 }
 
+/// What to write between the quotes of an attribute: the content is
+/// escaped, unless it was explicitly given as `(%raw ...)`.
+pub(crate) fn attribute_value<'a>(node: &'a ParseNode) -> Option<Cow<'a, str>> {
+    match node {
+        ParseNode::Raw(raw) => Some(Cow::Borrowed(&raw.value)),
+        node => node.atomic().map(|atom| Cow::Owned(escape_xml(&atom.value))),
+    }
+}
+
 /// Re-constitute original S-expressions.
 pub mod sexp;
 /// Converts source into expanded plain-text.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index ee1d8e7..bc084df 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -1,7 +1,7 @@
 //! Assembles an expanded tree into valid XML.
 use std::cell::RefCell;
 
-use super::{escape_xml, MarkupFormatter, GenerationError, Formatter};
+use super::{attribute_value, escape_xml, MarkupFormatter, GenerationError, Formatter};
 use crate::parse::parser::{self, ParseNode, ParseTree};
 
 #[derive(Debug, Clone)]
@@ -172,8 +172,8 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
     let parser::ParseNode::Attribute { keyword, node, .. } = attr else {
         panic!("Passed non-attribute to display_attribute.")
     };
-    if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+    if let Some(value) = attribute_value(node) {
+        Ok(format!("{}=\"{}\"", keyword, value))
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From a9a2181d0aa0349811dea7b20eee1b9234619327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 09/32] fix: report an empty tag name instead of panicking

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 96a4b0f..50ec035 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "Tags cannot be empty.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index bc084df..1ca1fb8 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -49,6 +49,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "Tags cannot be empty.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From dbe2a8ae8eac61a09b519a8ccf1247e7fe8153ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 10/32] fix: report preformatted text that starts with macro
 output instead of panicking or copying unrelated source

---
 crates/seam/src/assemble/html.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 50ec035..952ec37 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -160,7 +160,12 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let Some(pre) = raw_text(rest_with_preserved_whitespace.first(), node.site(), end_token) else {
+                            return Err(GenerationError::new("HTML",
+                                "Preformatted text has to start with plain source, \
+                                 not with the result of a macro.",
+                                node.site()));
+                        };
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -320,20 +325,27 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
 /// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// i.e. from a different file (then there is no such text, and we return `None`).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, list_site: &tokens::Site<'a>, end_token: &tokens::Token<'a>) -> Option<&'a str> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Some(end_token.leading_whitespace);
     };
     if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
+        return None;
     }
     let source: &'a str = end_token.site.source_code;
-    let first_node_offset =
-          start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
-        + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    let whitespace = start_node.leading_whitespace();
+    let node_offset = start_node.site().bytes_from_start;
+    let end_offset = end_token.site.bytes_from_start;
+    // The node must stand within the tag it is to be the content of.
+    if node_offset <= list_site.bytes_from_start || node_offset > end_offset
+    || !source[..node_offset].ends_with(whitespace) {
+        return None;
+    }
+    let first_node_offset = node_offset
+        - whitespace.len()
+        + if whitespace.starts_with(' ') { 1 } else { 0 };
+    Some(&source[first_node_offset..end_offset])
 }
-- 
2.43.0


From 22f95325dbf9235623e51c1443e583375128095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 11/32] fix: report an attribute whose value expands to nothing
 instead of panicking

---
 crates/seam/src/parse/expander.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..aa1b1e6 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1837,10 +1837,14 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
-                let new_node = Box::new(expanded_nodes[0].clone());
-                expanded_nodes[0] = ParseNode::Attribute {
+                let Some(value) = expanded_nodes.first_mut() else {
+                    return Err(ExpansionError(
+                        format!("The value of attribute `:{}` expanded to nothing.", keyword),
+                        site.to_owned()))
+                };
+                *value = ParseNode::Attribute {
                     keyword: keyword.clone(),
-                    node: new_node,
+                    node: Box::new(value.clone()),
                     site: site.clone(),
                     leading_whitespace: leading_whitespace.clone(),
                 };
-- 
2.43.0


From af77d5441ef2dace6eb4385eee7615234bb5934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 12/32] fix: keep &&rest arguments in the order given, and list
 keywords in errors in a fixed order

---
 crates/seam/src/parse/expander.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index aa1b1e6..575d7f8 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -10,6 +10,7 @@ use std::{
     rc::Rc,
     collections::{
         HashMap,
+        BTreeMap,
         BTreeSet,
     },
 };
@@ -256,8 +257,8 @@ impl<'a> Expander<'a> {
         let mut rest_kw_node = None;
         let mut rhs_index: usize = 0;
         let mut expected: usize = 0;
-        let mut rhs_named = HashMap::new(); // Contains keyword -> attribute node.
-        let mut lhs_named = HashMap::new(); // Contains keyword -> attr. value node (defaults).
+        let mut rhs_named = BTreeMap::new(); // Contains keyword -> attribute node.
+        let mut lhs_named = BTreeMap::new(); // Contains keyword -> attr. value node (defaults).
         // We loop this way (not a for loop) so we can control
         // when exactly we advance to the next LHS node, potentially
         // doing multiple iterations on the same node.
@@ -385,12 +386,12 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for (attr, _) in nodes1.iter().filter_map(ParseNode::attribute) {
+                if let Some(named) = rhs_named.remove(attr) {
+                    nodes.push(named.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From 8b182ede47f544fcbb6fc059ad846771a8e760dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 13/32] fix: keep the source of a file included in a sub-scope
 alive as long as its nodes

---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 575d7f8..abfeb70 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -90,7 +90,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files. Shared with all sub-scopes, since nodes which
+    /// borrow from the included source-code outlive the scope that included it.
+    subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     invocations: RefCell<Vec<ParseNode<'a>>>,
     definitions: Scope<'a>,
@@ -101,7 +103,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Default::default(),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -128,7 +130,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Rc::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -136,7 +138,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(|parser| &*Rc::as_ptr(parser)) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From d219641b8543a235c2c595e8c4aa5c371e4f4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 14/32] fix: do not keep a reference to a macro call in a
 vector that grows during the call

---
 crates/seam/src/parse/expander.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index abfeb70..895fae5 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -94,7 +94,6 @@ pub struct Expander<'a> {
     /// borrow from the included source-code outlive the scope that included it.
     subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
     definitions: Scope<'a>,
 }
 
@@ -105,7 +104,6 @@ impl<'a> Expander<'a> {
             includes: BTreeSet::from([PathBuf::from(".")]),
             subparsers: Default::default(),
             subcontexts: RefCell::new(Vec::new()),
-            invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
     }
@@ -163,14 +161,6 @@ impl<'a> Expander<'a> {
         unsafe { (*contexts).last_mut() }
     }
 
-    fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
-        let invocations = self.invocations.as_ptr();
-        unsafe {
-            (*invocations).push(node);
-            (*invocations).last().unwrap()
-        }
-    }
-
     /// Update variable (macro) for this scope.
     fn insert_variable(&self, name: String, var: Rc<Macro<'a>>) {
         let mut defs = self.definitions.borrow_mut();
@@ -1809,7 +1799,7 @@ impl<'a> Expander<'a> {
 
                 // Pathway: (%_ _ _) macro invocation.
                 if let Some(symbol) = head.symbol() {
-                    let node = self.register_invocation(node.clone());
+                    let node = &node;
                     let name = symbol.value.clone();
                     if name.starts_with("%") {
                         // Rebuild node...
-- 
2.43.0


From 4f1a24101a1a980e9e2317224f26b245c38df470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 15/32] fix: report a timezone offset that is out of range
 instead of overflowing

---
 crates/seam/src/parse/expander.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 895fae5..7d34279 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -876,9 +876,9 @@ impl<'a> Expander<'a> {
             optional("timezone"): number,
         }?;
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match parse_timezone_offset(&offset.value) {
+                Some(offset) => offset,
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
@@ -929,9 +929,9 @@ impl<'a> Expander<'a> {
         let date_string = args.number.2.value;
 
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match parse_timezone_offset(&offset.value) {
+                Some(offset) => offset,
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
@@ -1863,6 +1863,12 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Seconds east of UTC, given a decimal number of hours.
+fn parse_timezone_offset(hours: &str) -> Option<i32> {
+    let hours = hours.parse::<fixed::types::I32F32>().ok()?;
+    hours.checked_mul_int(60 * 60)?.checked_round()?.checked_to_num()
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From f2029f9150bd6ab9200cef3df1d8b469c5198f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 16/32] fix: report an invalid %date format instead of
 panicking

---
 crates/seam/src/parse/expander.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 7d34279..798f2b0 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2,7 +2,7 @@ use super::parser::{Node, ParseNode, ParseTree, Parser};
 use super::tokens::Site;
 
 use std::{
-    fmt,
+    fmt::{self, Write as _},
     cell::RefCell,
     path::PathBuf,
     ffi::OsString,
@@ -908,7 +908,10 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if write!(formatted, "{}", time.format(&date_format)).is_err() {
+            return Err(ExpansionError::new("Invalid date format.", &args.number.1.site));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
-- 
2.43.0


From b59191bc8ad184b91c558ec87c43f76d766f5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 17/32] fix: do not panic when %glob finds a broken link

---
 crates/seam/src/parse/expander.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 798f2b0..358bce6 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1272,7 +1272,14 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            // Links to nothing have no metadata, other than that of the link itself.
+            let meta = match std::fs::metadata(&path).or_else(|_| std::fs::symlink_metadata(&path)) {
+                Ok(meta) => meta,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: {}", err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From fd9acff62d215a17ac2d7b0c8d7204c48a120a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 18/32] fix: search include directories in the order they were
 given

---
 crates/seam/src/bin.rs            | 5 ++---
 crates/seam/src/parse/expander.rs | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..f0af211 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Vec::new();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 358bce6..fe7ce4e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -11,7 +11,6 @@ use std::{
     collections::{
         HashMap,
         BTreeMap,
-        BTreeSet,
     },
 };
 
@@ -89,7 +88,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Parsers of included files. Shared with all sub-scopes, since nodes which
     /// borrow from the included source-code outlive the scope that included it.
     subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
@@ -101,7 +100,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Default::default(),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -120,7 +119,7 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            self.includes.push(dir.into());
         }
     }
 
-- 
2.43.0


From 839fff01fdaf05fa06b7eee387f73112f6e76964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 19/32] fix: accept `--' inside an -I directory name

---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index f0af211..d5aa7cd 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix("-") {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From 1154c28c242d792be0dfe54927aff9c816f9d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 20/32] fix: a %namespace does not re-export the definitions
 that surround it

---
 crates/seam/src/parse/expander.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index fe7ce4e..1f8f853 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1113,6 +1113,10 @@ impl<'a> Expander<'a> {
             let mut self_defs = self.definitions.borrow_mut();
             let defs = context.definitions.borrow();
             for (key, value) in defs.iter() {
+                // Only what was defined inside the namespace belongs to it.
+                if self_defs.get(key).is_some_and(|outer| Rc::ptr_eq(outer, value)) {
+                    continue;
+                }
                 let new_key = format!("{}{}{}", namespace.value, separator, key);
                 self_defs.insert(new_key, value.clone());
             }
-- 
2.43.0


From 25f7aea971b3d57313bf48f9118de11b359880da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 21/32] fix: report YAML aliases and compound keys instead of
 panicking or misreading what follows

---
 crates/seam/src/parse/expander.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 1f8f853..39570d8 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1934,6 +1934,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// First construct found which does not translate to nodes.
+        unsupported: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -1949,6 +1951,14 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
 
     impl<'a, 'b> yaml::parser::EventReceiver for EventSink<'a, 'b> {
         fn on_event(&mut self, event: yaml::Event) {
+            let expecting_key = self.mode == Some(Mode::Map) && self.defining.is_none();
+            match event {
+                yaml::Event::Alias(..) => self.unsupported = Some("aliases are not supported"),
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..) if expecting_key =>
+                    self.unsupported = Some("keys must be scalars"),
+                _ => {},
+            }
+            if self.unsupported.is_some() { return; }
             let the_dreaded_rparen = crate::parse::tokens::Token::new(
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
@@ -2103,6 +2113,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        unsupported: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2112,6 +2123,13 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             site.to_owned()
         ))?;
 
+    if let Some(unsupported) = sink.unsupported {
+        return Err(ExpansionError(
+            format!("Failed to parse YAML: {}", unsupported),
+            site.to_owned()
+        ));
+    }
+
     Ok(sink.nodes.into_boxed_slice())
 }
 
-- 
2.43.0


From 53dba420b0d61b02046e0935b6a320a24db3e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 22/32] fix: cloning a formatter that has written nested markup
 recursed without end

---
 crates/seam/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..5feb1fd 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -2,6 +2,7 @@
 #![feature(pattern)]
 #![feature(box_patterns)]
 #![feature(associated_type_defaults)]
+#![feature(ptr_metadata)]
 
 pub mod parse;
 pub mod assemble;
@@ -41,8 +42,10 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $tra:ty) => {
         impl< $($lif),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                let original: & $tra = &**self; // Not the `Box` itself.
+                let copy = original.clone_box();
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    Box::from_raw(std::ptr::from_raw_parts_mut(copy, std::ptr::metadata(original)))
                 }
             }
         }
@@ -50,8 +53,10 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
         impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                let original: & $tra = &**self; // Not the `Box` itself.
+                let copy = original.clone_box();
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    Box::from_raw(std::ptr::from_raw_parts_mut(copy, std::ptr::metadata(original)))
                 }
             }
         }
-- 
2.43.0


From 7c90f957a238e4e3eb08d562780b8e373aa677cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 23/32] fix: keep the escapes of symbols in s-expression output

---
 crates/seam/src/assemble/sexp.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 5c812f4..90a4eec 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -29,8 +29,11 @@ impl<'a> SExpFormatter<'a> {
 
     fn generate_node(&self, f: Formatter, node: &ParseNode<'a>) -> Result<(), GenerationError<'a>> {
         match node {
-            ParseNode::Symbol(node)
-          | ParseNode::Number(node) => {
+            ParseNode::Symbol(node) => {
+                write!(f, "{}", node.leading_whitespace)?;
+                write!(f, "{}", escape_symbol(&node.value))?;
+            },
+            ParseNode::Number(node) => {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", node.value)?;
             },
@@ -69,6 +72,20 @@ impl<'a> SExpFormatter<'a> {
 
 }
 
+/// Put back the backslashes needed to read this back in as the same symbol.
+fn escape_symbol(symbol: &str) -> String {
+    let mut escaped = String::with_capacity(symbol.len());
+    for (i, c) in symbol.char_indices() {
+        match c {
+            '\n' | '\r' | '\t' | ' ' | '(' | ')' | '"' | '\\' => escaped.push('\\'),
+            '0'..='9' | '+' | '-' | ':' | ';' if i == 0 => escaped.push('\\'),
+            _ => {},
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
 impl<'a> MarkupFormatter for SExpFormatter<'a> {
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
-- 
2.43.0


From 831d68592e428bd122582b71726dbaa5706eefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 24/32] fix: keep nodes apart in s-expression output when
 macros leave no whitespace between them

---
 crates/seam/src/assemble/sexp.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 90a4eec..4094574 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -64,6 +64,9 @@ impl<'a> SExpFormatter<'a> {
             ParseNode::Attribute { keyword, node, leading_whitespace, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 write!(f, ":{}", keyword)?;
+                if node.leading_whitespace().is_empty() && !is_delimited(node) {
+                    write!(f, " ")?;
+                }
                 self.generate_node(f, node)?;
             },
         }
@@ -72,6 +75,23 @@ impl<'a> SExpFormatter<'a> {
 
 }
 
+/// Whether a node starts with a delimiter (i.e. a parenthesis or quote).
+fn is_delimited(node: &ParseNode) -> bool {
+    matches!(node, ParseNode::List { .. } | ParseNode::Raw(..) | ParseNode::String(..))
+}
+
+/// Whether nodes with no whitespace between them (as macros may
+/// leave behind) would be read back in as a single token.
+fn runs_together(previous: &ParseNode, node: &ParseNode) -> bool {
+    if !node.leading_whitespace().is_empty() { return false; }
+    match previous {
+        ParseNode::Symbol(..) | ParseNode::Number(..) => !is_delimited(node),
+        ParseNode::String(string) => string.value.is_empty() && matches!(node, ParseNode::String(..)),
+        ParseNode::Attribute { node: value, .. } => runs_together(value, node),
+        ParseNode::Raw(..) | ParseNode::List { .. } => false,
+    }
+}
+
 /// Put back the backslashes needed to read this back in as the same symbol.
 fn escape_symbol(symbol: &str) -> String {
     let mut escaped = String::with_capacity(symbol.len());
@@ -92,9 +112,13 @@ impl<'a> MarkupFormatter for SExpFormatter<'a> {
     }
 
     fn generate(&self, f: Formatter) -> Result<(), GenerationError> {
-        let mut tree_iter = self.tree.iter().peekable();
-        while let Some(node) = tree_iter.next() {
+        let mut previous = None;
+        for node in self.tree.iter() {
+            if previous.is_some_and(|previous| runs_together(previous, node)) {
+                write!(f, " ")?;
+            }
             self.generate_node(f, node)?;
+            previous = Some(node);
         }
         Ok(())
     }
-- 
2.43.0


From 4328e72e8e71931e31e837791f673afd83083f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 25/32] fix: %sort by a consistent order when numbers and
 strings are mixed (some lists panicked)

---
 crates/seam/src/parse/expander.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 39570d8..7f7a8d5 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1474,12 +1474,15 @@ impl<'a> Expander<'a> {
             if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
                 return n0.cmp(&n1)
             }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
+            // Numbers go before anything that is not a number.
+            match (numeric_key(&item0.key), numeric_key(&item1.key)) {
+                (Some((f0, n0)), Some((f1, n1))) => f0.partial_cmp(&f1)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+                    .then(n0.cmp(&n1)),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
@@ -1876,6 +1879,15 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Value of a number to sort by, along with its exact value should it be an integer,
+/// to tell apart integers which are the same when approximated by a float.
+fn numeric_key(key: &str) -> Option<(f64, i128)> {
+    if let Ok(n) = key.parse::<i64>() {
+        return Some((n as f64, n as i128));
+    }
+    key.parse::<f64>().ok().filter(|f| !f.is_nan()).map(|f| (f, f as i128))
+}
+
 /// Seconds east of UTC, given a decimal number of hours.
 fn parse_timezone_offset(hours: &str) -> Option<i32> {
     let hours = hours.parse::<fixed::types::I32F32>().ok()?;
-- 
2.43.0


From 258bfdad8af7f18d8fe04fce949679706833ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 26/32] fix: keep the escapes of numbers in s-expression output

---
 crates/seam/src/assemble/sexp.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 4094574..5015395 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -31,11 +31,11 @@ impl<'a> SExpFormatter<'a> {
         match node {
             ParseNode::Symbol(node) => {
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{}", escape_symbol(&node.value))?;
+                write!(f, "{}", escape_identifier(&node.value, "0123456789+-:;"))?;
             },
             ParseNode::Number(node) => {
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{}", node.value)?;
+                write!(f, "{}", escape_identifier(&node.value, ""))?;
             },
             ParseNode::String(node) => {
                 // We actually don't want the rendered string with the escpaes
@@ -92,14 +92,13 @@ fn runs_together(previous: &ParseNode, node: &ParseNode) -> bool {
     }
 }
 
-/// Put back the backslashes needed to read this back in as the same symbol.
-fn escape_symbol(symbol: &str) -> String {
-    let mut escaped = String::with_capacity(symbol.len());
-    for (i, c) in symbol.char_indices() {
-        match c {
-            '\n' | '\r' | '\t' | ' ' | '(' | ')' | '"' | '\\' => escaped.push('\\'),
-            '0'..='9' | '+' | '-' | ':' | ';' if i == 0 => escaped.push('\\'),
-            _ => {},
+/// Put back the backslashes needed to read this in as the same symbol or number,
+/// i.e. in front of delimiters and those characters it may not start with.
+fn escape_identifier(value: &str, not_at_start: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    for (i, c) in value.char_indices() {
+        if "\n\r\t ()\"\\".contains(c) || (i == 0 && not_at_start.contains(c)) {
+            escaped.push('\\');
         }
         escaped.push(c);
     }
-- 
2.43.0


From 374085ce6385d163fbf60b96375c8ce2c1797940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 27/32] fix: keep null characters followed by a digit in
 s-expression output

---
 crates/seam/src/assemble/sexp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 5015395..7b51ba5 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -42,13 +42,13 @@ impl<'a> SExpFormatter<'a> {
                 // that we parsed, so we send it to the debug view to get a string
                 // with quotes and escaped special characters.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{:?}", node.value)?;
+                write!(f, "{}", quote_string(&node.value))?;
             },
             ParseNode::Raw(node) => {
                 // This is the only place we can't really expand
                 // the `(%raw ...)` macro. It is meaningful.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "(%raw {:?})", node.value)?;
+                write!(f, "(%raw {})", quote_string(&node.value))?;
             },
             ParseNode::List { nodes, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
@@ -92,6 +92,16 @@ fn runs_together(previous: &ParseNode, node: &ParseNode) -> bool {
     }
 }
 
+/// The debug view of a string, except for null characters: these are not written
+/// as `\0`, which would be read as some other octal escape if digits follow.
+fn quote_string(string: &str) -> String {
+    let parts: Vec<String> = string.split('\0').map(|part| {
+        let quoted = format!("{:?}", part);
+        quoted[1..quoted.len() - 1].to_owned()
+    }).collect();
+    format!("\"{}\"", parts.join("\\u{0}"))
+}
+
 /// Put back the backslashes needed to read this in as the same symbol or number,
 /// i.e. in front of delimiters and those characters it may not start with.
 fn escape_identifier(value: &str, not_at_start: &str) -> String {
-- 
2.43.0


From 4b4e85fd485059d235e59e6b99a0ce228ac96553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 28/32] fix: <pre> holds its source text only, whitespace
 before its end not written twice

---
 crates/seam/src/assemble/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 952ec37..e3887e3 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -166,7 +166,9 @@ impl<'a> HTMLFormatter<'a> {
                                  not with the result of a macro.",
                                 node.site()));
                         };
-                        write!(f, "{}", pre)?;
+                        // This includes the whitespace before the closing parenthesis.
+                        write!(f, "{}</{}>", pre, tag)?;
+                        return Ok(());
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
                         // We have to reconsititute what the source-code would look like if all
-- 
2.43.0


From e954aec8bda6ac4324dce861ebc90453db9fe1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 29/32] fix: CSS strings written with the escapes of CSS

---
 crates/seam/src/assemble/css.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index b8a133d..90f3061 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -103,7 +103,7 @@ fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<
         | ParseNode::Symbol(node)
         | ParseNode::String(node) =>
             Ok(if node.value.chars().any(|c| c.is_whitespace()) {
-                format!("{:?}", node.value)
+                css_string(&node.value)
             } else {
                 node.value.to_owned()
             }),
@@ -117,6 +117,21 @@ fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<
     }
 }
 
+/// Write a quoted CSS string. Escapes in CSS are not those of Rust:
+/// a newline, for example, is only ever written by its code point.
+fn css_string(value: &str) -> String {
+    let mut quoted = String::from("\"");
+    for c in value.chars() {
+        match c {
+            '"' | '\\' => { quoted.push('\\'); quoted.push(c); },
+            '\n' | '\r' | '\x0C' => quoted += &format!("\\{:x} ", c as u32),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    quoted
+}
+
 /// Function responsible for translating a CSS value (i.e.
 /// a value of a CSS property) from some s-expression into
 /// a valid CSS value.
-- 
2.43.0


From 0942e6de8b5837b947a4e7922d59330b2802298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 30/32] fix: report malformed format strings instead of
 panicking, do not expand placeholders in values

---
 crates/seam/src/parse/expander.rs | 116 +++++++++++++++++++++++-------
 1 file changed, 89 insertions(+), 27 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 7f7a8d5..9000b6f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -82,6 +82,54 @@ impl<'a> Macro<'a> {
 /// Type of variable scope owned by an `Expander` instance.
 pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe this type?
 
+/// Parts of the format-string given to `%format`.
+enum FormatPiece {
+    Text(String),
+    Placeholder { name: String, spec: String },
+}
+
+/// Split a format-string into literal text and placeholders, numbering the anonymous ones.
+/// Gives nothing if the format-string is malformed.
+fn split_format_string(format: &str) -> Option<Vec<FormatPiece>> {
+    let mut pieces = Vec::new();
+    let mut rest = format;
+    while let Some(brace) = rest.find(['{', '}']) {
+        let (text, braced) = rest.split_at(brace);
+        pieces.push(FormatPiece::Text(text.to_owned()));
+        // Doubled braces are literal ones.
+        if braced.starts_with("{{") || braced.starts_with("}}") {
+            pieces.push(FormatPiece::Text(braced[..1].to_owned()));
+            rest = &braced[2..];
+            continue;
+        }
+        let (inner, after) = braced.strip_prefix('{')?.split_once('}')?;
+        if inner.contains('{') { return None; }
+        let (name, spec) = inner.split_at(inner.find([':', ' ']).unwrap_or(inner.len()));
+        // Anything above 16 bits is not supported as a width or precision by `std::fmt`.
+        let mut widths = spec.rsplit(':').next()?
+            .split(|c: char| !c.is_ascii_digit())
+            .filter(|digits| !digits.is_empty());
+        if !widths.all(|digits| digits.parse::<u16>().is_ok()) { return None; }
+        pieces.push(FormatPiece::Placeholder { name: name.to_owned(), spec: spec.to_owned() });
+        rest = after;
+    }
+    pieces.push(FormatPiece::Text(rest.to_owned()));
+    // Anonymous placeholders take the positions not mentioned explicitly.
+    let explicit: Vec<String> = pieces.iter().filter_map(|piece| match piece {
+        FormatPiece::Placeholder { name, .. } => Some(name.clone()),
+        FormatPiece::Text(_) => None,
+    }).collect();
+    let mut position = 0;
+    for piece in pieces.iter_mut() {
+        let FormatPiece::Placeholder { name, spec } = piece else { continue };
+        if !name.is_empty() || spec.starts_with(' ') { continue; }
+        while explicit.contains(&position.to_string()) { position += 1; }
+        *name = position.to_string();
+        position += 1;
+    }
+    Some(pieces)
+}
+
 /// Macro expansion context, takes a parser and expands
 /// any macro calls found in the generated parse-tree.
 #[derive(Debug, Clone)]
@@ -1040,18 +1088,20 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
-        let Ok(mut template) = formatx::Template::new(&format_str.value) else {
-            return Err(ExpansionError::new(
-                "Invalid format string.",
-                &format_str.site));
-        };
+        let invalid = || ExpansionError::new("Invalid format string.", &format_str.site);
+        let pieces = split_format_string(&format_str.value).ok_or_else(invalid)?;
+        // Values, with what their placeholders call them.
+        let mut values: Vec<(String, &str)> = Vec::new();
+        let mut position = 0;
         for mut var in arguments {
             // Check if we're replacing a named or positional placeholder.
-            let mut named: Option<&str> = None;
-            if let ParseNode::Attribute { keyword, node, .. } = var {
-                named = Some(keyword.as_str());
+            let name = if let ParseNode::Attribute { keyword, node, .. } = var {
                 var = node;
-            }
+                keyword.to_owned()
+            } else {
+                position += 1;
+                (position - 1).to_string()
+            };
             // TODO: Somehow let non-atomic values be formattable?
             let Some(Node { value, .. }) = var.atomic() else {
                 return Err(ExpansionError(
@@ -1059,26 +1109,38 @@ impl<'a> Expander<'a> {
                         var.node_type()),
                     var.site().clone()));
             };
-            // Replace the placeholder.
-            match named {
-                Some(name) => template.replace(name, value),
-                None       => template.replace_positional(value),
-            }
+            values.push((name, value));
         }
-        // Template has been constructed, so now attempt to do subsitituions and
-        // render the formatted string.
-        match template.text() {
-            Ok(value) => Ok(Box::new([
-                ParseNode::String(Node {
-                    value,
-                    site: node.owned_site(),
-                    leading_whitespace: node.leading_whitespace().to_owned(),
-                })
-            ])),
-            Err(err) => Err(ExpansionError(
-                format!("Failed to format string: {}", err.message()),
-                format_str.site.clone()))
+        // Substitute each placeholder on its own, so braces in the values
+        // are not mistaken for placeholders.
+        let mut text = String::new();
+        for piece in pieces {
+            let (name, spec) = match piece {
+                FormatPiece::Text(literal) => { text.push_str(&literal); continue; },
+                FormatPiece::Placeholder { name, spec } => (name, spec),
+            };
+            let Ok(mut template) = formatx::Template::new(format!("{{_{}}}", spec)) else {
+                return Err(invalid());
+            };
+            let Some((_, value)) = values.iter().find(|(key, _)| *key == name) else {
+                return Err(ExpansionError(
+                    format!("Failed to format string: missing value for placeholder `{}'.", name),
+                    format_str.site.clone()))
+            };
+            let formatted = RefCell::new(String::new());
+            template.replace_from_callback("_", |placeholder| {
+                formatted.replace(placeholder.format_spec.format(value));
+                String::new()
+            });
+            text.push_str(&formatted.into_inner());
         }
+        Ok(Box::new([
+            ParseNode::String(Node {
+                value: text,
+                site: node.owned_site(),
+                leading_whitespace: node.leading_whitespace().to_owned(),
+            })
+        ]))
     }
 
     fn expand_namespace_macro(&self, node: &ParseNode<'a>, params: ParseTree<'a>)
-- 
2.43.0


From 9e4ad5683e94c835e6c4870e3e980a65778f481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 31/32] fix: sort directories before everything else in %glob,
 dead links included

---
 crates/seam/src/parse/expander.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9000b6f..ffc4886 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1293,10 +1293,10 @@ impl<'a> Expander<'a> {
                     },
                     SortBy::Name => self.path.partial_cmp(&other.path),
                     SortBy::Type => {
-                        // First sort by file vs. dir.
-                        if self.meta.is_dir() && other.meta.is_file() {
+                        // First sort by dir vs. anything else.
+                        if self.meta.is_dir() && !other.meta.is_dir() {
                             Some(std::cmp::Ordering::Less) // Folder < File
-                        } else if self.meta.is_file() && other.meta.is_dir() {
+                        } else if !self.meta.is_dir() && other.meta.is_dir() {
                             Some(std::cmp::Ordering::Greater) // File > Folder
                         } else if let Some(ext) = self.path.extension() {
                             if let Some(other_ext) = other.path.extension() {
-- 
2.43.0


From 1f20c6f42e9d465ec8a8aaea3b1f8ba27a9bcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 32/32] fix: name the invalid escape in its error, not the
 backslash

---
 crates/seam/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 21e3c01..a4c6e69 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -540,7 +540,7 @@ fn escape_string<'a>(string: &'a str, site: &Site<'a>) -> Result<String, LexErro
         .map_err(|invalid| {
             LexError(
                 format!("Invalid escape `\\{}' at byte-index {}.",
-                    string.chars().nth(invalid.index).unwrap_or('?'), invalid.index),
+                    string[invalid.index..].chars().nth(1).unwrap_or('?'), invalid.index),
                 site.clone())
         })
 }
-- 
2.43.0

