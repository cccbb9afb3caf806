From 6fd438160f7e71d090c0a866ee5800b98a039a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 01/45] fix: keep the macro call node alive while its arguments
 expand

The call node was referenced inside a vector which nested macro calls in
the arguments push to, so the reference dangled once the vector grew.
---
 crates/seam/src/parse/expander.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..13df95e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -91,7 +91,6 @@ pub struct Expander<'a> {
     includes: BTreeSet<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
     definitions: Scope<'a>,
 }
 
@@ -102,7 +101,6 @@ impl<'a> Expander<'a> {
             includes: BTreeSet::from([PathBuf::from(".")]),
             subparsers: RefCell::new(Vec::new()),
             subcontexts: RefCell::new(Vec::new()),
-            invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
     }
@@ -160,14 +158,6 @@ impl<'a> Expander<'a> {
         unsafe { (*contexts).last_mut() }
     }
 
-    fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
-        let invocations = self.invocations.as_ptr();
-        unsafe {
-            (*invocations).push(node);
-            (*invocations).last().unwrap()
-        }
-    }
-
     /// Update variable (macro) for this scope.
     fn insert_variable(&self, name: String, var: Rc<Macro<'a>>) {
         let mut defs = self.definitions.borrow_mut();
@@ -1806,7 +1796,7 @@ impl<'a> Expander<'a> {
 
                 // Pathway: (%_ _ _) macro invocation.
                 if let Some(symbol) = head.symbol() {
-                    let node = self.register_invocation(node.clone());
+                    let node = &node;
                     let name = symbol.value.clone();
                     if name.starts_with("%") {
                         // Rebuild node...
-- 
2.43.0


From 6e5c3d935d5346adb48531a37b62ee0eca894f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 02/45] fix: keep included sources alive for as long as the
 nodes parsed from them

A file included while expanding a user macro, %for, %match or %namespace
was parsed by a subcontext which is dropped afterwards, leaving the nodes
it produced with references to freed source code.
---
 crates/seam/src/parse/expander.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 13df95e..5c2194e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -89,7 +89,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files, shared with all subcontexts, since the
+    /// nodes they produce outlive the subcontext which included them.
+    subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     definitions: Scope<'a>,
 }
@@ -99,7 +101,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
         }
@@ -123,17 +125,11 @@ impl<'a> Expander<'a> {
 
     /// Add a subparser owned by the expander context.
     fn register_parser(&self, parser: Parser) -> &'a Parser {
-        {
-            let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
-        }
-        self.latest_parser().unwrap()
-    }
-
-    /// Get the latest subparser added.
-    fn latest_parser(&self) -> Option<&'a Parser> {
-        let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        let parser = Rc::new(parser);
+        let pointer = Rc::as_ptr(&parser);
+        self.subparsers.borrow_mut().push(parser);
+        // Parsers are never removed while the root context is alive.
+        unsafe { &*pointer }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From 2cbdfc235b9ae6679773ccb9fcd431219ccbd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 03/45] fix: cloning a boxed formatter recursed without end

---
 crates/seam/src/assemble/css.rs  |  4 ++++
 crates/seam/src/assemble/html.rs |  4 ++++
 crates/seam/src/assemble/mod.rs  |  8 +++++---
 crates/seam/src/assemble/sexp.rs |  4 ++++
 crates/seam/src/assemble/text.rs |  4 ++++
 crates/seam/src/assemble/xml.rs  |  4 ++++
 crates/seam/src/lib.rs           | 28 +++++-----------------------
 7 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..b8acc45 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -241,6 +241,10 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
 }
 
 impl<'a> MarkupFormatter for CSSFormatter<'a> {
+    fn clone_formatter<'s>(&self) -> Box<dyn MarkupFormatter + 's> where Self: 's {
+        Box::new(self.clone())
+    }
+
     fn document(&self) -> Result<String, GenerationError> {
         let mut doc = String::new();
         if self.tree.is_empty() {
diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..be23c41 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -252,6 +252,10 @@ const VOID_ELEMENTS: [&str; 14] = [
 ];
 
 impl<'a> MarkupFormatter for HTMLFormatter<'a> {
+    fn clone_formatter<'s>(&self) -> Box<dyn MarkupFormatter + 's> where Self: 's {
+        Box::new(self.clone())
+    }
+
     fn document(&self) -> Result<String, GenerationError> {
         let mut doc = String::new();
         if self.tree.is_empty() {
diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..2d945ec 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -1,4 +1,4 @@
-use crate::{impl_clone_box, CloneBox, parse::tokens::Site};
+use crate::{impl_clone_box, parse::tokens::Site};
 use std::{convert, error::Error, fmt::{self, Debug}};
 
 use colored::*;
@@ -76,8 +76,10 @@ pub type Formatter<'a> = &'a mut dyn fmt::Write;
 
 /// Trait for all structs that can generate specific markup
 /// for the s-expression tree.
-pub trait MarkupFormatter: Debug + CloneBox {
+pub trait MarkupFormatter: Debug {
     // Required definitions:
+    /// Clone this formatter into a new boxed trait object.
+    fn clone_formatter<'s>(&self) -> Box<dyn MarkupFormatter + 's> where Self: 's;
     /// Similar to fmt in Display/Debug traits, takes in a
     /// mutable writable buffer, returns success or a specifc
     /// error while generating the markup.
@@ -97,7 +99,7 @@ pub trait MarkupFormatter: Debug + CloneBox {
     }
 }
 
-impl_clone_box! { 'a; dyn MarkupFormatter + 'a}
+impl_clone_box! { 'a; dyn MarkupFormatter + 'a; clone_formatter }
 
 /// Automatically implement fmt::Display as a wrapper around
 /// MarkupFormatter::generate, but throws away the useful error message.
diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 5c812f4..dc8ca7c 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -70,6 +70,10 @@ impl<'a> SExpFormatter<'a> {
 }
 
 impl<'a> MarkupFormatter for SExpFormatter<'a> {
+    fn clone_formatter<'s>(&self) -> Box<dyn MarkupFormatter + 's> where Self: 's {
+        Box::new(self.clone())
+    }
+
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
     }
diff --git a/crates/seam/src/assemble/text.rs b/crates/seam/src/assemble/text.rs
index 83c5fe3..0eaa8df 100644
--- a/crates/seam/src/assemble/text.rs
+++ b/crates/seam/src/assemble/text.rs
@@ -60,6 +60,10 @@ impl<'a> PlainTextFormatter<'a> {
 }
 
 impl<'a> MarkupFormatter for PlainTextFormatter<'a> {
+    fn clone_formatter<'s>(&self) -> Box<dyn MarkupFormatter + 's> where Self: 's {
+        Box::new(self.clone())
+    }
+
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
     }
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..26932e4 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -128,6 +128,10 @@ pub const DEFAULT: &str =
     "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n";
 
 impl<'a> MarkupFormatter for XMLFormatter<'a> {
+    fn clone_formatter<'s>(&self) -> Box<dyn MarkupFormatter + 's> where Self: 's {
+        Box::new(self.clone())
+    }
+
     fn document(&self) -> Result<String, GenerationError> {
         let mut doc = String::new();
         if self.tree.is_empty() {
diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..1ed883a 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -26,33 +26,15 @@ pub const VERSION: (u8, u8, u8) = (
 /* Utilities. */
 
 /// See: <https://stackoverflow.com/a/30353928>
-pub trait CloneBox {
-    fn clone_box(&self) -> *mut ();
-}
-
-impl<'a, T> CloneBox for T where T: Clone + 'a {
-    fn clone_box(&self) -> *mut () {
-        Box::<T>::into_raw(Box::new(self.clone())) as *mut ()
-    }
-}
-
+///
+/// Implement this for a boxed trait object, given the name of a method of the
+/// trait which clones the underlying value into a new boxed trait object.
 #[macro_export]
 macro_rules! impl_clone_box {
-    ($($lif:tt),* ; $tra:ty) => {
+    ($($lif:tt),* ; $tra:ty ; $method:ident) => {
         impl< $($lif),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
-                unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
-                }
-            }
-        }
-    };
-    ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
-        impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
-            fn clone(&self) -> Box< $tra > {
-                unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
-                }
+                (**self).$method()
             }
         }
     };
-- 
2.43.0


From a705926d789bfc0b9e3c9b665100ba202770897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 04/45] fix: a backslash at the end of the source made the
 lexer loop forever

---
 crates/seam/src/parse/lexer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..c53b3e5 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -139,15 +139,12 @@ impl<'a> Lexer {
     /// Advance the offset to the next unicode character.
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
-        let c = self.peek_char();
-        self.increment_byte_offsets(1);
-        while !self.source.is_char_boundary(self.byte_offset.get()) {
-            self.increment_byte_offsets(1);
-        }
-        if c == Some('\n') {
+        let c = self.peek_char()?;
+        self.increment_byte_offsets(c.len_utf8());
+        if c == '\n' {
             self.next_line();
         }
-        return c;
+        return Some(c);
     }
 
     fn consume_lparen(&'a self, whitespace: &'a str) -> Token<'a> {
-- 
2.43.0


From 7d2ff41508c315f84cb2e888f09b788bcf7aa88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 05/45] fix: line numbers after a multi-line string or an
 escaped newline

---
 crates/seam/src/parse/lexer.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index c53b3e5..26c5e96 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -167,9 +167,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -183,10 +185,7 @@ impl<'a> Lexer {
             // Symbols can contain escaped characters.
             if c == '\\' {
                 let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char();   // escaped char. NOTE: Disallow newline?
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -204,9 +203,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -230,7 +231,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -261,7 +261,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -287,9 +286,11 @@ impl<'a> Lexer {
     fn consume_keyword(&'a self, whitespace: &'a str) -> Token<'a> {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
+        let line_no = self.line.get();
         let start_from_line = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From a62ba8b90340bf969baf38a2885f48250ef341dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 06/45] fix: an escaped backslash in a symbol was dropped

---
 crates/seam/src/parse/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..4e82274 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,8 +522,9 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
-        builder.push(c)
+        // A backslash is dropped, the character it escapes (e.g. another backslash) is kept.
+        let c = if c == '\\' { chars.next() } else { Some(c) };
+        builder.extend(c)
     }
     builder
 }
-- 
2.43.0


From 59f9d4d128627dc20dc6e1ff7564a771b32ecde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 07/45] fix: an attribute whose value expands to nothing
 panicked

---
 crates/seam/src/parse/expander.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 5c2194e..e630a84 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1823,6 +1823,11 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
+                if expanded_nodes.is_empty() {
+                    return Err(ExpansionError(
+                        format!("The value given to `:{}` does not expand to anything.", keyword),
+                        site));
+                }
                 let new_node = Box::new(expanded_nodes[0].clone());
                 expanded_nodes[0] = ParseNode::Attribute {
                     keyword: keyword.clone(),
-- 
2.43.0


From 549ecd2afe3f488e8cef19b83e0689a3a3cbc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 08/45] fix: a CSS rule without selectors panicked

---
 crates/seam/src/assemble/css.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index b8acc45..c8ac607 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -179,7 +179,7 @@ fn generate_special_selector<'a>(f: Formatter,
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, arg, rule.into_iter())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -191,14 +191,13 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
+fn generate_css_rule<'a>(f: Formatter, rule: &'a ParseNode<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
     let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
         .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +207,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             rule.site()));
     };
 
     // Handle special @-rule selectors.
@@ -261,7 +260,7 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
             match node {
                 ParseNode::List { nodes: list, leading_whitespace, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, node, list.into_iter())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From 845daa0c9f77d2e9cc659841c95ad974ac06c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 09/45] fix: a path that %glob cannot inspect (e.g. a dangling
 link) panicked

---
 crates/seam/src/parse/expander.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index e630a84..b59995a 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1262,7 +1262,13 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            let meta = match std::fs::metadata(&path) {
+                Ok(meta) => meta,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: {}: {}", path.to_string_lossy(), err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From 99c8e566fcdd113c0670104f242b832022b72cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 10/45] fix: %sort compared numbers and text in an order that
 was not total

---
 crates/seam/src/parse/expander.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index b59995a..cb749e7 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1456,16 +1456,18 @@ impl<'a> Expander<'a> {
         // Sort by the evaluated .key string.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
-            }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
+            // Numbers (integers are compared exactly, even when too large for a float)
+            // come before any other text, otherwise this would not be a total order.
+            let number = |key: &str| match key.parse::<f64>() {
+                Ok(float) if !float.is_nan() => Some((float, key.parse().unwrap_or(float as i128))),
+                _ => None,
+            };
+            match (number(&item0.key), number(&item1.key)) {
+                (Some((f0, n0)), Some((f1, n1))) => f0.partial_cmp(&f1).unwrap().then(n0.cmp(&n1)),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
-- 
2.43.0


From c2b24f25e194134ee2105c875dc7243229414652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 11/45] fix: the order of keywords captured by &&rest changed
 from run to run

---
 crates/seam/src/parse/expander.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index cb749e7..b11ff44 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -371,12 +371,12 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for (keyword, _) in nodes1.iter().filter_map(ParseNode::attribute) {
+                if let Some(named) = rhs_named.remove(keyword) {
+                    nodes.push(named.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
@@ -387,20 +387,20 @@ impl<'a> Expander<'a> {
         }
         // Any remaining RHS named nodes not covered by the LHS, are excess/errors.
         if !rhs_named.is_empty() {
-            // Go through RHS named nodes and list all the excess/invalid names.
+            // Go through RHS named nodes and list all the excess/invalid names (in order).
             let mut excess_keywords: Vec<&str> = vec![];
-            let mut rhs = rhs_named.iter();
-            let (keyword, some_node) = rhs.next().unwrap(); // Non-empty.
-            excess_keywords.push(keyword);
-            for (keyword, _) in rhs {
-                excess_keywords.push(keyword.as_ref());
+            for (keyword, _) in nodes1.iter().filter_map(ParseNode::attribute) {
+                if rhs_named.contains_key(keyword) && !excess_keywords.contains(&keyword) {
+                    excess_keywords.push(keyword);
+                }
             }
+            let some_node = rhs_named[excess_keywords[0]]; // Non-empty.
             let excess_keywords: Vec<String> = excess_keywords
                 .iter()
                 .map(|kw| format!("`:{}`", kw))
                 .collect();
-            let known_keywords: Vec<String> = lhs_named
-                .iter()
+            let known_keywords: Vec<String> = nodes0.iter()
+                .filter_map(ParseNode::attribute)
                 .map(|(kw, _)| format!("`:{}`", kw))
                 .collect();
             let excess_keywords = excess_keywords.join(", ");
-- 
2.43.0


From cad896a6335deb19b003398bc9348bc2215396b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 12/45] fix: include directories were not searched in the order
 they are given

---
 crates/seam/src/bin.rs            |  5 ++---
 crates/seam/src/parse/expander.rs | 11 ++++-------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..f0af211 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Vec::new();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index b11ff44..1a84c52 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -8,10 +8,7 @@ use std::{
     ffi::OsString,
     error::Error,
     rc::Rc,
-    collections::{
-        HashMap,
-        BTreeSet,
-    },
+    collections::HashMap,
 };
 
 use chrono::TimeZone;
@@ -88,7 +85,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Parsers of included files, shared with all subcontexts, since the
     /// nodes they produce outlive the subcontext which included them.
     subparsers: Rc<RefCell<Vec<Rc<Parser>>>>,
@@ -100,7 +97,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -119,7 +116,7 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            self.includes.push(dir.into());
         }
     }
 
-- 
2.43.0


From 557d33ca33460ce65141c0dca3938ebbc37fbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 13/45] fix: attribute values were not escaped in HTML and XML

---
 crates/seam/src/assemble/html.rs | 6 +++++-
 crates/seam/src/assemble/xml.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index be23c41..ffbacbe 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -96,7 +96,11 @@ impl<'a> HTMLFormatter<'a> {
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        let value = match **node {
+                            ParseNode::Raw(..) => atom.value.to_owned(),
+                            _ => escape_xml(&atom.value),
+                        };
+                        write!(f, "{}=\"{}\"", keyword, value)?;
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 26932e4..4bbbc63 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -172,7 +172,11 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
         panic!("Passed non-attribute to display_attribute.")
     };
     if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+        let value = match **node {
+            ParseNode::Raw(..) => symbol.value.to_owned(),
+            _ => escape_xml(&symbol.value),
+        };
+        Ok(format!("{}=\"{}\"", keyword, value))
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From 40bc0c250bd08f681cb38352dd59c8124c743a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 14/45] fix: a large :timezone offset overflowed and panicked

---
 crates/seam/src/parse/expander.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 1a84c52..5017e47 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -866,9 +866,11 @@ impl<'a> Expander<'a> {
             optional("timezone"): number,
         }?;
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>().ok()
+                .and_then(|hours| hours.checked_mul_int(60 * 60))
+                .and_then(|seconds| seconds.checked_round()) {
+                Some(seconds) => seconds.to_num(),
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
@@ -919,9 +921,11 @@ impl<'a> Expander<'a> {
         let date_string = args.number.2.value;
 
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>().ok()
+                .and_then(|hours| hours.checked_mul_int(60 * 60))
+                .and_then(|seconds| seconds.checked_round()) {
+                Some(seconds) => seconds.to_num(),
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
-- 
2.43.0


From 11d8349b390e7f5b9e0b36d8d4064a679b843e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 15/45] fix: an invalid date format panicked

---
 crates/seam/src/parse/expander.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 5017e47..18337b1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2,7 +2,7 @@ use super::parser::{Node, ParseNode, ParseTree, Parser};
 use super::tokens::Site;
 
 use std::{
-    fmt,
+    fmt::{self, Write as _},
     cell::RefCell,
     path::PathBuf,
     ffi::OsString,
@@ -900,7 +900,10 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if write!(formatted, "{}", time.format(&date_format)).is_err() {
+            return Err(ExpansionError::new("Invalid date format.", &args.number.1.site));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
-- 
2.43.0


From cd0bea52ef6dd7c7b39ae3fe1a0d518c86501b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 16/45] fix: YAML aliases corrupted the data and compound keys
 panicked

---
 crates/seam/src/parse/expander.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 18337b1..87b80c1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1921,6 +1921,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// Description of the first construct encountered that we do not support.
+        unsupported: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -1940,6 +1942,14 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
             );
+            // Aliases have no value of their own, and only scalars can name a definition.
+            let is_key = self.mode == Some(Mode::Map) && self.defining.is_none();
+            self.unsupported = self.unsupported.or(match event {
+                yaml::Event::Alias(..) => Some("aliases"),
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..) if is_key => Some("compound keys"),
+                _ => None,
+            });
+            if self.unsupported.is_some() { return; }
             match event {
                 // Either defining a new variable or setting a variable to a string.
                 yaml::Event::Scalar(ref value, ..) => {
@@ -2090,6 +2100,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        unsupported: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2098,6 +2109,12 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
         ))?;
+    if let Some(construct) = sink.unsupported {
+        return Err(ExpansionError(
+            format!("Unsupported YAML: {} cannot be converted.", construct),
+            site.to_owned()
+        ));
+    }
 
     Ok(sink.nodes.into_boxed_slice())
 }
-- 
2.43.0


From d4d8550a2522ade585ae83fc2cb427065f41cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 17/45] fix: a tag with an empty name panicked

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ffbacbe..df5d4c6 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -70,6 +70,11 @@ impl<'a> HTMLFormatter<'a> {
                         "Empty lists cannot be converted into a valid HTML tag.",
                         node.site()));
                 }
+                if tag.is_empty() {
+                    return Err(GenerationError::new("HTML",
+                        "HTML tags cannot have an empty name.",
+                        node.site()));
+                }
                 let tag = tag.to_ascii_lowercase();
 
                 let mut rest = &list[1..];
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4bbbc63..a49adb2 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -58,6 +58,12 @@ impl<'a> XMLFormatter<'a> {
                         node.site()));
                 }
 
+                if tag.is_empty() {
+                    return Err(GenerationError::new("XML",
+                        "XML tags cannot have an empty name.",
+                        node.site()));
+                }
+
                 let mut rest = &list[1..];
 
                 // Declarations behave differently.
-- 
2.43.0


From 102e8b31c09c7f90284aab4c49e76931c91ddcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 18/45] fix: a <pre> tag starting with a node from elsewhere
 panicked

---
 crates/seam/src/assemble/html.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index df5d4c6..558faec 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -164,7 +164,7 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token)?;
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -328,20 +328,25 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
 /// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// i.e. from a different file (we report an error in this case).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>)
+    -> Result<&'a str, GenerationError<'a>> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Ok(end_token.leading_whitespace);
     };
-    if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
-    }
     let source: &'a str = end_token.site.source_code;
-    let first_node_offset =
-          start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
-        + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    let text = if std::ptr::eq(start_node.site().source_code, source) {
+        let first_node_offset = (
+                start_node.site().bytes_from_start
+                + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 }
+            ).checked_sub(start_node.leading_whitespace().len());
+        first_node_offset.and_then(|start| source.get(start..end_token.site.bytes_from_start))
+    } else {
+        None
+    };
+    text.ok_or(GenerationError::new("HTML",
+        "Start of preformatted text tag must belong to the same source location.",
+        start_node.site()))
 }
-- 
2.43.0


From 9f4997b769b767ab37e611f5e1295ce3acb3e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 19/45] fix: displaying an error on a very long line panicked

---
 crates/seam/src/assemble/mod.rs   | 8 ++++----
 crates/seam/src/parse/expander.rs | 8 ++++----
 crates/seam/src/parse/lexer.rs    | 8 ++++----
 crates/seam/src/parse/parser.rs   | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 2d945ec..947ea1d 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -30,10 +30,10 @@ impl<'a> fmt::Display for GenerationError<'a> {
         let line_prefix = format!("  {} |", self.site.line);
         let line_view = self.site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=self.site.line_column() - 1,
-            length=self.site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(self.site.line_column() - 1),
+            "^".repeat(self.site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "{}: {}",
             format!("[{}] Error Generating {} ({}:{}:{})",
                 "**".red().bold(),
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 87b80c1..50b7761 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -40,10 +40,10 @@ impl<'a> fmt::Display for ExpansionError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[{}] Error Expanding Macro {}: {}",
             "**".red().bold(), site, msg)
     }
diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 26c5e96..9cea0bd 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -15,10 +15,10 @@ impl<'a> fmt::Display for LexError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Lexical Error {}: {}", site, msg)
     }
 }
diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 4e82274..cf123f6 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -390,10 +390,10 @@ impl<'a> fmt::Display for ParseError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Parse Error ({}:{}:{}): {}",
             site.source, site.line, site.line_column(), msg)
     }
-- 
2.43.0


From c931fb6d5610656a1426dae59087b134dd4a2423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 20/45] fix: a CSS at-rule without nested rules ended in a
 stray brace

---
 crates/seam/src/assemble/css.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index c8ac607..858440b 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -187,7 +187,12 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    if parsing_rules {
+        write!(f, "}}")?;
+    } else {
+        // There was no body to close.
+        write!(f, ";")?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 8d4b82a421d2fbd7bd2edd7c533a8762dd20998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 21/45] fix: options containing dashes were not read as given

---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index f0af211..d5aa7cd 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix("-") {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From 47f3862027485c64e1e722cbe8e26992debc431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 22/45] fix: a document with a head and no body put the head
 inside the body

---
 crates/seam/src/assemble/html.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 558faec..ce2d602 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -284,6 +284,7 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
         let body_tag
             = self.tree.search_node(SearchType::ListHead, "body", true, 2);
 
+        let mut body = &self.tree[..];
         if doctype_tag.is_none() {
             #[cfg(feature="debug")]
             eprintln!("html: no doctype found in document");
@@ -294,12 +295,23 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
                     doc += "<head></head>\n"
                 }
                 if body_tag.is_none() {
+                    // A top-level <head></head> goes before the <body> we add.
+                    let head = body.iter().position(|node| head_tag.is_some_and(|head| std::ptr::eq(node, head)));
+                    if let Some(head) = head {
+                        for node in &body[..=head] {
+                            self.generate_html_node(&mut doc, node)?;
+                        }
+                        doc += "\n";
+                        body = &body[head + 1..];
+                    }
                     doc += "<body>\n"
                 }
             }
         }
         // Populate.
-        doc += &self.display()?;
+        for node in body {
+            self.generate_html_node(&mut doc, node)?;
+        }
         doc += "\n";
 
         if doctype_tag.is_none() {
-- 
2.43.0


From 5a14806797a27bc7638cd1f71f4446b5ad534b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 23/45] verif hook: cfg(seam_verif) leaves out the unused
 feature(box_patterns)

---
 crates/seam/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 1ed883a..41af4be 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -1,6 +1,7 @@
 #![allow(incomplete_features)]
 #![feature(pattern)]
-#![feature(box_patterns)]
+#![allow(unexpected_cfgs)]
+#![cfg_attr(not(seam_verif), feature(box_patterns))]
 #![feature(associated_type_defaults)]
 
 pub mod parse;
-- 
2.43.0


From a15df45cf1062b6cbab0464a979b4a8be340e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 24/45] fix: a misordered or oversized format string panicked

---
 crates/seam/src/parse/expander.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 50b7761..605e8e5 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1035,7 +1035,12 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
-        let Ok(mut template) = formatx::Template::new(&format_str.value) else {
+        let template = if is_format_string(&format_str.value) {
+            formatx::Template::new(&format_str.value).ok()
+        } else {
+            None
+        };
+        let Some(mut template) = template else {
             return Err(ExpansionError::new(
                 "Invalid format string.",
                 &format_str.site));
@@ -1869,6 +1874,25 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Check for the format strings `formatx` would panic on: a closing brace before the
+/// brace it closes, and widths or precisions larger than Rust is able to format.
+fn is_format_string(string: &str) -> bool {
+    let string = string.replace("{{", "").replace("}}", ""); // Escaped braces.
+    let mut opened: usize = 0;
+    for brace in string.chars() {
+        match brace {
+            '{' => opened += 1,
+            '}' if opened == 0 => return false,
+            '}' => opened -= 1,
+            _ => {},
+        }
+    }
+    string.split('{').skip(1)
+        .filter_map(|placeholder| placeholder.split('}').next()?.split_once(':'))
+        .flat_map(|(_, spec)| spec.split(|c: char| !c.is_ascii_digit()))
+        .all(|digits| digits.is_empty() || digits.parse::<u16>().is_ok())
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From fa4de72438fbf8e451232572e1d909a4f7e8a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 25/45] fix: a CSS rule without declarations was rejected

The index of the first property was one too small when every node of the
rule was a selector, so the last selector was taken for a property.
---
 crates/seam/src/assemble/css.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 858440b..1ee03b7 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -197,11 +197,10 @@ fn generate_special_selector<'a>(f: Formatter,
 }
 
 fn generate_css_rule<'a>(f: Formatter, rule: &'a ParseNode<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
-    let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
-        .take_while(|n| { prop_i += 1; n.atomic().is_some() })
+        .take_while(|n| n.atomic().is_some())
         .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
@@ -229,7 +228,7 @@ fn generate_css_rule<'a>(f: Formatter, rule: &'a ParseNode<'a>, iter: Iter<'a, P
     }
     writeln!(f, "{{")?;
 
-    let properties = iter.skip(prop_i - 1);
+    let properties = iter.skip_while(|n| n.atomic().is_some());
 
     for property in properties {
         let ParseNode::Attribute { ref node, ref keyword, .. } = property else {
-- 
2.43.0


From d4dbba78ca1d50d62ed8efd6dc18554e95d4bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 26/45] fix: s-expression output of NUL before a digit read
 back as another character

---
 crates/seam/src/assemble/sexp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index dc8ca7c..6b8d059 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -11,6 +11,16 @@ pub struct SExpFormatter<'a> {
     formatters: RefCell<Vec<Box<dyn MarkupFormatter + 'a>>>,
 }
 
+/// The debug view of a string, with NUL written such that
+/// a digit after it is not read as part of an octal escape.
+fn quoted(value: &str) -> String {
+    let parts: Vec<String> = value.split('\0').map(|part| {
+        let debug = format!("{:?}", part);
+        debug[1..debug.len() - 1].to_owned()
+    }).collect();
+    format!("\"{}\"", parts.join("\\u{0}"))
+}
+
 impl<'a> SExpFormatter<'a> {
     pub fn new(tree: ParseTree<'a>) -> Self {
         Self {
@@ -39,13 +49,13 @@ impl<'a> SExpFormatter<'a> {
                 // that we parsed, so we send it to the debug view to get a string
                 // with quotes and escaped special characters.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{:?}", node.value)?;
+                write!(f, "{}", quoted(&node.value))?;
             },
             ParseNode::Raw(node) => {
                 // This is the only place we can't really expand
                 // the `(%raw ...)` macro. It is meaningful.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "(%raw {:?})", node.value)?;
+                write!(f, "(%raw {})", quoted(&node.value))?;
             },
             ParseNode::List { nodes, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
-- 
2.43.0


From 399b928bc220c0eebe2561c82d90fb8efdbaba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 27/45] fix: YAML after the first document was dropped and
 never checked

Text following the first YAML document (further documents, or what makes
the text invalid, e.g. `[a]]') was silently ignored.
---
 crates/seam/src/parse/expander.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 605e8e5..0e03960 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2128,7 +2128,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
     };
 
     yaml::parser::Parser::new_from_str(text)
-        .load(&mut sink, false)
+        .load(&mut sink, true)
         .map_err(|err| ExpansionError(
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
-- 
2.43.0


From c5862e0935d570d395288bd653fee61d96283bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 28/45] fix: a line ending of the content was lost after
 Markdown front matter

The words around the first line ending ran together.
---
 crates/seam/src/parse/expander.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0e03960..9e8c4be 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -717,8 +717,18 @@ impl<'a> Expander<'a> {
 
         // How to convert to HTML.
         let to_html = | | -> Result<ParseTree, _> {
+            // Leave out the front matter, after which the renderer would
+            // swallow the first line ending of the content itself.
+            let start = match markdown::to_mdast(contents.as_ref(), &options.parse) {
+                Ok(markdown::mdast::Node::Root(root)) => match root.children.first() {
+                    Some(front @ (markdown::mdast::Node::Yaml(..) | markdown::mdast::Node::Toml(..)))
+                        => front.position().map_or(0, |position| position.end.offset),
+                    _ => 0,
+                },
+                _ => 0,
+            };
             // Convert to HTML.
-            let html = match markdown::to_html_with_options(contents.as_ref(), &options) {
+            let html = match markdown::to_html_with_options(&contents[start..], &options) {
                 Ok(html) => html,
                 Err(err) => return Err(ExpansionError(
                     format!("Failed to render markdown: {}", err),
-- 
2.43.0


From e00e3ba5ba07a99b0381ca788843b1ed56b421a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 29/45] fix: command line argument that is not valid UTF-8
 panicked

---
 crates/seam/src/bin.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index d5aa7cd..b947ec4 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -17,7 +17,7 @@ fn argument_fatal(msg: impl std::fmt::Display) -> ! {
 const SUPPORTED_TARGETS: [&str; 5] = ["text", "sexp", "html", "xml", "css"];
 
 fn main() -> Result<(), Box<dyn Error>> {
-    let mut args = env::args();
+    let mut args = env::args_os();
     let _ = args.next();  // Discard.
 
     // Command line flags and options.
@@ -28,6 +28,8 @@ fn main() -> Result<(), Box<dyn Error>> {
     let mut is_doc = true;
 
     for arg in args {
+        let arg = arg.into_string().unwrap_or_else(|arg| argument_fatal(
+            format!("Argument is not valid UTF-8: `{}'.", arg.to_string_lossy())));
         if arg.chars().nth(0) == Some('-') {
             if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
-- 
2.43.0


From ac917a3bb09ea26a6e75b1590b4b8b8cfb3d6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 30/45] fix: unwritable standard output panicked

---
 crates/seam/src/bin.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index b947ec4..c4a251d 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,8 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::{io, env};
+use std::io::{self, Write};
+use std::env;
 use std::path::PathBuf;
 use std::error::Error;
 
@@ -125,7 +126,10 @@ fn generate_and_print<'a>(expander: &'a seam::parse::expander::Expander<'a>, tar
     };
 
     match result {
-        Ok(generated) => println!("{}", generated),
+        Ok(generated) => if let Err(e) = writeln!(io::stdout(), "{}", generated) {
+            eprintln!("{}", e);
+            std::process::exit(1)
+        },
         Err(e) => {
             eprintln!("{}", e);
             std::process::exit(1)
-- 
2.43.0


From d514517f6c2e5d18543d86afe1ab8bddda322bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 31/45] fix: order of missing placeholders in a %format
 diagnostic was random

---
 crates/seam/src/parse/expander.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9e8c4be..4bbeef1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1085,9 +1085,18 @@ impl<'a> Expander<'a> {
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
             ])),
-            Err(err) => Err(ExpansionError(
-                format!("Failed to format string: {}", err.message()),
-                format_str.site.clone()))
+            Err(err) => {
+                // The missing placeholders are listed in no particular order.
+                let mut message = err.message();
+                if let Some((text, names)) = message.split_once(": ") {
+                    let mut names: Vec<&str> = names.split(", ").collect();
+                    names.sort();
+                    message = format!("{}: {}", text, names.join(", "));
+                }
+                Err(ExpansionError(
+                    format!("Failed to format string: {}", message),
+                    format_str.site.clone()))
+            }
         }
     }
 
-- 
2.43.0


From 1b25272508a70a708de2be1f97cdb8b8ba6f4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 32/45] fix: Markdown opening front matter without closing it
 panicked

---
 crates/seam/src/parse/expander.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 4bbeef1..e7a884f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -700,12 +700,21 @@ impl<'a> Expander<'a> {
           allow_dangerous_protocol: true,
           ..markdown::CompileOptions::default()
         };
+        // Front matter is only looked for in texts that have some: where it is
+        // opened but never closed, the parser loses track of the document.
+        let frontmatter = {
+            let text = contents.strip_prefix('\u{feff}').unwrap_or(&contents);
+            let mut lines = text.split(['\n', '\r'])
+                .map(|line| line.trim_end_matches([' ', '\t']));
+            let fence = lines.next().filter(|line| matches!(*line, "---" | "+++"));
+            fence.is_some_and(|fence| lines.any(|line| line == fence))
+        };
         // Flavour options:
         let flavour = markdown::ParseOptions {
             gfm_strikethrough_single_tilde: false,
             math_text_single_dollar: true,
             constructs: markdown::Constructs {
-                frontmatter: true,
+                frontmatter,
                 gfm_table: true,
                 gfm_task_list_item: true,
                 ..markdown::Constructs::default()
-- 
2.43.0


From fe75fa41f2cb5d75583d44aec76dc145c3834235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 33/45] fix: words of an XML declaration were glued together

---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index a49adb2..ccc114c 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -71,7 +71,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From 6421b071e43750621db66b71d3bcdac5d1cd8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 34/45] fix: predicate functions in arguments! declarations did
 not compile

---
 crates/seam_argparse_proc_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam_argparse_proc_macro/src/lib.rs b/crates/seam_argparse_proc_macro/src/lib.rs
index 96573e8..24f7bba 100644
--- a/crates/seam_argparse_proc_macro/src/lib.rs
+++ b/crates/seam_argparse_proc_macro/src/lib.rs
@@ -508,7 +508,7 @@ fn parse_argument_type(stream: &mut Peekable<IntoIter>, position_type: PositionT
             // Consume the function body.
             let Some(fn_body) = stream.next() else { panic!("Unexpected EOF") };
             quote! {{
-                fn predicate<'tree>(#(#fn_arguments),*) -> Result<(), ExpansionError<'tree>> { #fn_body }
+                fn predicate<'tree>(#(#fn_arguments)*) -> Result<(), ExpansionError<'tree>> { #fn_body }
                 let arg_pred = crate::parse::macros::ArgPredicate::Satisfying(predicate);
                 #arg_type(vec![arg_pred])
             }}
-- 
2.43.0


From 347c1931361b07ceb9b79ad18a5474958665aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:26 +0000
Subject: [PATCH 35/45] fix: name the escape that is invalid in a string, not
 the character at its index

---
 crates/seam/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index cf123f6..0b0df12 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -537,7 +537,7 @@ fn escape_string<'a>(string: &'a str, site: &Site<'a>) -> Result<String, LexErro
         .map_err(|invalid| {
             LexError(
                 format!("Invalid escape `\\{}' at byte-index {}.",
-                    string.chars().nth(invalid.index).unwrap_or('?'), invalid.index),
+                    string[invalid.index..].chars().nth(1).unwrap_or('?'), invalid.index),
                 site.clone())
         })
 }
-- 
2.43.0


From 83857db852f2d9fdc08821e992bf24cb9d36078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:07 +0000
Subject: [PATCH 36/45] fix: scopes share the parser instead of copying the
 source

---
 crates/seam/src/parse/expander.rs | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index e7a884f..6f0637c 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -81,9 +81,10 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 
 /// Macro expansion context, takes a parser and expands
 /// any macro calls found in the generated parse-tree.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Expander<'a> {
-    parser: Parser,
+    /// Shared with all subcontexts, which never read from it.
+    parser: Rc<Parser>,
     /// Include directories, in order of search.
     includes: Vec<PathBuf>,
     /// Parsers of included files, shared with all subcontexts, since the
@@ -93,10 +94,17 @@ pub struct Expander<'a> {
     definitions: Scope<'a>,
 }
 
+impl<'a> Clone for Expander<'a> {
+    /// A clone reads the source by itself.
+    fn clone(&self) -> Self {
+        Self { parser: Rc::new(Parser::clone(&self.parser)), ..self.subscope() }
+    }
+}
+
 impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
-            parser,
+            parser: Rc::new(parser),
             includes: vec![PathBuf::from(".")],
             subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
@@ -129,10 +137,21 @@ impl<'a> Expander<'a> {
         unsafe { &*pointer }
     }
 
+    /// Copy of the current context, for a scope inside of it.
+    fn subscope(&self) -> Self {
+        Self {
+            parser: Rc::clone(&self.parser),
+            includes: self.includes.clone(),
+            subparsers: Rc::clone(&self.subparsers),
+            subcontexts: RefCell::new(Vec::new()),
+            definitions: self.definitions.clone(),
+        }
+    }
+
     /// Create and register a subcontext built from the current context.
     fn create_subcontext(&self) -> &mut Self {
         {
-            let copy = self.clone();
+            let copy = self.subscope();
             let mut contexts = self.subcontexts.borrow_mut();
             contexts.push(copy);
         }
@@ -462,7 +481,7 @@ impl<'a> Expander<'a> {
             };
             // Now attempt to `bind` against pattern, successful binds means
             // we evaluate the RHS of the list and return that.
-            let subcontext = self.clone(); // Subscope.
+            let subcontext = self.subscope();
             if let Ok(()) = subcontext.bind(pattern, expr) {
                 return subcontext.expand_nodes(value.into());
             }
@@ -1112,7 +1131,7 @@ impl<'a> Expander<'a> {
     fn expand_namespace_macro(&self, node: &ParseNode<'a>, params: ParseTree<'a>)
     -> Result<ParseTree<'a>, ExpansionError<'a>> {
         // Start evaluating all the arguments to the macro in a separate context.
-        let context = self.clone();
+        let context = self.subscope();
         let params =  context.expand_nodes(params)?;
         let mut args = params.iter().peekable();
         let Some(namespace) = args.next().and_then(ParseNode::atomic) else {
@@ -1162,7 +1181,7 @@ impl<'a> Expander<'a> {
         let list = self.expand_nodes(list.into_boxed_slice())?;
         let body = args.rest.into_boxed_slice();
 
-        let context = self.clone();
+        let context = self.subscope();
         let mut expanded = Vec::with_capacity(list.len());
         for item in list {
             context.bind(&it, &item)?;
-- 
2.43.0


From 067c6a54ea6eebff482020d8b1875d84b18bbf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 37/45] fix: excess keywords were looked up in the list of
 those found before

---
 crates/seam/src/parse/expander.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 6f0637c..f51a1e1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -405,12 +405,14 @@ impl<'a> Expander<'a> {
         if !rhs_named.is_empty() {
             // Go through RHS named nodes and list all the excess/invalid names (in order).
             let mut excess_keywords: Vec<&str> = vec![];
+            let mut excess_nodes = vec![];
             for (keyword, _) in nodes1.iter().filter_map(ParseNode::attribute) {
-                if rhs_named.contains_key(keyword) && !excess_keywords.contains(&keyword) {
+                if let Some(named) = rhs_named.remove(keyword) {
                     excess_keywords.push(keyword);
+                    excess_nodes.push(named);
                 }
             }
-            let some_node = rhs_named[excess_keywords[0]]; // Non-empty.
+            let some_node = excess_nodes[0]; // Non-empty.
             let excess_keywords: Vec<String> = excess_keywords
                 .iter()
                 .map(|kw| format!("`:{}`", kw))
-- 
2.43.0


From 7627e3e3a5d7c613323e04aab14c2aca7b81ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 38/45] fix: a namespace exported the definitions it had only
 inherited

---
 crates/seam/src/parse/expander.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index f51a1e1..29ecd78 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1161,7 +1161,12 @@ impl<'a> Expander<'a> {
         {
             let mut self_defs = self.definitions.borrow_mut();
             let defs = context.definitions.borrow();
-            for (key, value) in defs.iter() {
+            // What the context only inherited was not made within it.
+            let made: Vec<_> = defs.iter()
+                .filter(|(key, value)| self_defs.get(*key)
+                    .map_or(true, |outer| !Rc::ptr_eq(outer, value)))
+                .collect();
+            for (key, value) in made {
                 let new_key = format!("{}{}{}", namespace.value, separator, key);
                 self_defs.insert(new_key, value.clone());
             }
-- 
2.43.0


From 16beb72cd376c01a55ec9a809bf373df63893af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 39/45] fix: each nested map or list in YAML copied all items
 before it

---
 crates/seam/src/parse/expander.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 29ecd78..fb42671 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2094,8 +2094,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                         self.prefix.push(defining.clone());
                     }
                     self.defining = None;
-                    self.parent.push(self.nodes.clone());
-                    self.nodes = Vec::new();
+                    self.parent.push(std::mem::take(&mut self.nodes));
                     if let Some(mode) = self.mode {
                         self.modes.push(mode);
                     }
@@ -2107,8 +2106,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                         self.prefix.push(defining.clone());
                     }
                     self.defining = Some(String::from("0"));
-                    self.parent.push(self.nodes.clone());
-                    self.nodes = Vec::new();
+                    self.parent.push(std::mem::take(&mut self.nodes));
                     if let Some(mode) = self.mode {
                         self.modes.push(mode);
                     }
@@ -2117,8 +2115,9 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                 // Assign the built-up map or sequence.
                 yaml::Event::MappingEnd | yaml::Event::SequenceEnd => {
                     self.mode = self.modes.pop(); // Revert to previous mode.
-                    let nodes = self.nodes.clone(); // Nodes in the list.
-                    self.nodes = self.parent.pop().unwrap_or(Vec::new()); // Regain previous collection of nodes.
+                    // Regain previous collection of nodes.
+                    let parent = self.parent.pop().unwrap_or(Vec::new());
+                    let nodes = std::mem::replace(&mut self.nodes, parent); // Nodes in the list.
                     self.defining = match self.mode {
                         Some(Mode::Seq) => Some(format!("{}", self.nodes.len() + 1)),
                         Some(Mode::Map) | None => None
-- 
2.43.0


From 92eeaeab4a05dac7f0b6df3ae286b7efcd6a990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:52 +0000
Subject: [PATCH 40/45] fix: strings in CSS values are quoted as CSS strings

---
 crates/seam/src/assemble/css.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 1ee03b7..fa61b9f 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -64,6 +64,21 @@ const CSS_NON_NESTED_SELECTORS: [&str; 3]
 /// or at least I think.
 const BINARY_OPERATORS: [&str; 4] = ["+", "-", "*", "/"];
 
+/// Quote some text as a CSS string.
+fn quoted(text: &str) -> String {
+    let mut string = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => string.extend(['\\', c]),
+            // Line endings can only be given by their code-points.
+            '\n' | '\r' | '\x0c' => string += &format!("\\{:x} ", c as u32),
+            _ => string.push(c),
+        }
+    }
+    string.push('"');
+    string
+}
+
 fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<'a>> {
     match node {
         ParseNode::List { nodes: list, .. } => {
@@ -102,7 +117,7 @@ fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<
         | ParseNode::Symbol(node)
         | ParseNode::String(node) =>
             Ok(if node.value.chars().any(|c| c.is_whitespace()) {
-                format!("{:?}", node.value)
+                quoted(&node.value)
             } else {
                 node.value.to_owned()
             }),
-- 
2.43.0


From 107a1b63169a48c766ef8c6546c77674c4637801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:00 +0000
Subject: [PATCH 41/45] fix: sorting a glob by type puts directories before
 special files too

---
 crates/seam/src/parse/expander.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index fb42671..0ba6478 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1281,10 +1281,10 @@ impl<'a> Expander<'a> {
                     },
                     SortBy::Name => self.path.partial_cmp(&other.path),
                     SortBy::Type => {
-                        // First sort by file vs. dir.
-                        if self.meta.is_dir() && other.meta.is_file() {
+                        // First sort by file (of any kind) vs. dir.
+                        if self.meta.is_dir() && !other.meta.is_dir() {
                             Some(std::cmp::Ordering::Less) // Folder < File
-                        } else if self.meta.is_file() && other.meta.is_dir() {
+                        } else if !self.meta.is_dir() && other.meta.is_dir() {
                             Some(std::cmp::Ordering::Greater) // File > Folder
                         } else if let Some(ext) = self.path.extension() {
                             if let Some(other_ext) = other.path.extension() {
-- 
2.43.0


From 1de7b5f6c7c9435b34a77fa9924e6dc27dca429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:00 +0000
Subject: [PATCH 42/45] fix: a glob lists each path once, however many ways it
 matches

---
 crates/seam/src/parse/expander.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0ba6478..a329ac5 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1317,6 +1317,7 @@ impl<'a> Expander<'a> {
 
         // Collect paths.
         let mut collection: std::collections::BTreeSet<GlobPath> = Default::default();
+        let mut matched: std::collections::HashSet<PathBuf> = Default::default();
         for path in paths {
             let path = match path {
                 Ok(path) => path,
@@ -1325,6 +1326,8 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
+            // A pattern with several `**` matches the same path in several ways.
+            if !matched.insert(path.clone()) { continue; }
             let meta = match std::fs::metadata(&path) {
                 Ok(meta) => meta,
                 Err(err) => return Err(ExpansionError(
-- 
2.43.0


From f01c41ab45028709b2662a991be1c7f25d95d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:45 +0000
Subject: [PATCH 43/45] fix: braces in the values given to %format are text

---
 crates/seam/src/parse/expander.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index a329ac5..c9c3c79 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1085,6 +1085,14 @@ impl<'a> Expander<'a> {
                 "Invalid format string.",
                 &format_str.site));
         };
+        // The text of a value is no part of the template: the characters that `formatx`
+        // would read in it are stood in for by some that are used nowhere else.
+        let unused = ('\u{E000}'..)
+            .filter(|c| !params.iter().any(|param| format_text(param).contains(*c)));
+        let stand_ins: Vec<(char, char)> = "{}[".chars().zip(unused).collect();
+        let disguise = |text: String, _: &_| stand_ins.iter()
+            .fold(text, |text, (c, stand_in)| text.replace(*c, &stand_in.to_string()));
+        let mut position: usize = 0;
         for mut var in arguments {
             // Check if we're replacing a named or positional placeholder.
             let mut named: Option<&str> = None;
@@ -1101,8 +1109,11 @@ impl<'a> Expander<'a> {
             };
             // Replace the placeholder.
             match named {
-                Some(name) => template.replace(name, value),
-                None       => template.replace_positional(value),
+                Some(name) => template.replace_with_callback(name, value, &disguise),
+                None => {
+                    template.replace_with_callback(position, value, &disguise);
+                    position += 1;
+                },
             }
         }
         // Template has been constructed, so now attempt to do subsitituions and
@@ -1110,7 +1121,8 @@ impl<'a> Expander<'a> {
         match template.text() {
             Ok(value) => Ok(Box::new([
                 ParseNode::String(Node {
-                    value,
+                    value: stand_ins.iter()
+                        .fold(value, |text, (c, stand_in)| text.replace(*stand_in, &c.to_string())),
                     site: node.owned_site(),
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
@@ -1931,6 +1943,14 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// The text of an argument to `%format`, by position or by name.
+fn format_text<'t>(param: &'t ParseNode<'_>) -> &'t str {
+    match param {
+        ParseNode::Attribute { node, .. } => node.atomic(),
+        param => param.atomic(),
+    }.map_or("", |Node { value, .. }| value)
+}
+
 /// Check for the format strings `formatx` would panic on: a closing brace before the
 /// brace it closes, and widths or precisions larger than Rust is able to format.
 fn is_format_string(string: &str) -> bool {
-- 
2.43.0


From 65c3a745a246b3d847da7a1999c0f2f9b1aa2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:45 +0000
Subject: [PATCH 44/45] fix: escapes in keywords denote the characters they
 stand for, as in names

---
 crates/seam/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 0b0df12..1fbba71 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -461,7 +461,7 @@ impl<'a> Parser {
         // Otherwise, parse the value and combine the node.
         let value = self.parse_expr()?;
         Ok(ParseNode::Attribute {
-            keyword: token.value.to_owned(),
+            keyword: escape_sanitize(token.value),
             node: Box::new(value),
             site: token.site.to_owned(),
             leading_whitespace: token.leading_whitespace.to_owned(),
-- 
2.43.0


From 133e07d34365897fadb7eca36d586ca18a36e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:45 +0000
Subject: [PATCH 45/45] fix: names are written as s-expressions with the
 escapes they need

---
 crates/seam/src/assemble/sexp.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 6b8d059..9938670 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -21,6 +21,23 @@ fn quoted(value: &str) -> String {
     format!("\"{}\"", parts.join("\\u{0}"))
 }
 
+/// A name with a backslash before each character that would end it.
+fn escaped(name: &str) -> String {
+    let mut escaped = String::with_capacity(name.len());
+    for c in name.chars() {
+        if matches!(c, '\n' | '\r' | '\t' | ' ' | '(' | ')' | '"' | '\\') {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
+/// Does a token that starts like this name have to be something other than a symbol?
+fn starts_otherwise(name: &str) -> bool {
+    name.starts_with(|c: char| matches!(c, '0'..='9' | '+' | '-' | ':' | ';'))
+}
+
 impl<'a> SExpFormatter<'a> {
     pub fn new(tree: ParseTree<'a>) -> Self {
         Self {
@@ -39,10 +56,16 @@ impl<'a> SExpFormatter<'a> {
 
     fn generate_node(&self, f: Formatter, node: &ParseNode<'a>) -> Result<(), GenerationError<'a>> {
         match node {
-            ParseNode::Symbol(node)
-          | ParseNode::Number(node) => {
+            ParseNode::Symbol(node) => {
+                write!(f, "{}", node.leading_whitespace)?;
+                if starts_otherwise(&node.value) {
+                    write!(f, "\\")?;
+                }
+                write!(f, "{}", escaped(&node.value))?;
+            },
+            ParseNode::Number(node) => {
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{}", node.value)?;
+                write!(f, "{}", escaped(&node.value))?;
             },
             ParseNode::String(node) => {
                 // We actually don't want the rendered string with the escpaes
@@ -70,7 +93,7 @@ impl<'a> SExpFormatter<'a> {
             },
             ParseNode::Attribute { keyword, node, leading_whitespace, .. } => {
                 write!(f, "{}", leading_whitespace)?;
-                write!(f, ":{}", keyword)?;
+                write!(f, ":{}", escaped(keyword))?;
                 self.generate_node(f, node)?;
             },
         }
-- 
2.43.0

