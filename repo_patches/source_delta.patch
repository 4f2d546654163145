From b0c618136fe189c01258c5764b2e3c31dca0dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 01/37] Add a parse entry point for the verification harness,
 behind cfg(elm_parser_verif)

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5c7d39..7e443d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,3 +3,16 @@ extern crate nom;
 extern crate regex;
 
 mod ast;
+
+/// Entry point of the verification harness: the outcome of parsing a module, as `Debug` prints
+/// it. Only there when built with `RUSTFLAGS="--cfg elm_parser_verif"`.
+#[allow(unexpected_cfgs)]
+#[cfg(elm_parser_verif)]
+pub mod verif {
+    use ast::file;
+    use nom::types::CompleteStr;
+
+    pub fn parse(source: &str) -> String {
+        format!("{:?}", file(CompleteStr(source)))
+    }
+}
-- 
2.43.0


From 4e51aee07bf803836fafcaa3fb1b4db16111bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 02/37] fix: do not print to stdout while parsing a character
 code

elm-parser-dump and elm-parser-check wrote a stray Ok(..) line before their output.
---
 src/ast/expression/character.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..cd30d37 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -14,10 +14,7 @@ named!(character_content<CompleteStr, char>,
           code: take!(2) >>
           (u8::from_str_radix(code.0, 16))
         ),
-        |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
-            r.map(|u| u as char)
-        }
+        |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
     | anychar
   )
-- 
2.43.0


From 7cd36666341d923cbd7a26a981ecb583500077dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 03/37] fix: accept a record update whose closing brace follows
 its last value directly

examples/BrowserElement.elm has one, and was rejected for it.
---
 src/ast/expression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e62b93f..c176464 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -136,7 +136,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       ) >>
       (Expression::RecordUpdate(name.to_string(), pairs))
     ),
-    terminated!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
+    terminated!(call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE), char!('}'))
   )
 );
 
-- 
2.43.0


From adaf617e87cc0cb523ed1fafefef65c17ca57c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 04/37] fix: make the spaces inside an extensible record type
 optional

They are optional in every other record.
---
 src/ast/type_/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index f71ff90..c2a5c7e 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -65,13 +65,13 @@ named_args!(type_record_constructor(indentation: u32)<CompleteStr, Type>,
   delimited!(
     char!('{'),
     do_parse!(
-      call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+      opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       var: type_variable >>
-      call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+      opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       char!('|') >>
-      call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+      opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       record_pairs: call!(type_record_pairs, indentation) >>
-      call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+      opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       (Type::TypeRecordConstructor(Box::new(var), record_pairs))
     ),
     char!('}')
-- 
2.43.0


From 42f4a3bb314db559f58613b21431fb0938ed8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 05/37] fix: parse bracketed expressions and tuples in one go

( a ) gave a tuple of one element where (a) gave a, and as each bracket was parsed
once as parentheses and again as a tuple, the time doubled with every level of nesting.
---
 src/ast/expression/mod.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index c176464..2bf2f1d 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -41,7 +41,14 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
         ),
         char!(')')
     ),
-    Expression::Tuple
+    // A single expression in brackets is just that expression
+    |mut v: Vec<Expression>| {
+        if v.len() == 1 {
+            v.remove(0)
+        } else {
+            Expression::Tuple(v)
+        }
+    }
   )
 );
 
@@ -140,14 +147,6 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
   )
 );
 
-named_args!(parens(indentation: u32) <CompleteStr, Expression>,
-    delimited!(
-        char!('('),
-        call!(expression, indentation),
-        char!(')')
-    )
-);
-
 // Term
 
 named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
@@ -159,9 +158,8 @@ named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
     | float
     | integer
     | character
-    | call!(parens, indentation)
-    | call!(list, indentation)
     | call!(tuple, indentation)
+    | call!(list, indentation)
     | call!(record_update, indentation)
     | call!(record, indentation)
     | call!(simplified_record, indentation)
-- 
2.43.0


From d22ef54558b2c7574377a8e63cf8d6a2cc0a8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 06/37] fix: parse bracketed types and tuple types in one go

A tuple with a function in it, as in (Int -> a, b), was rejected, (a) gave a tuple of
one type, and the time doubled with every level of brackets around a function type.
---
 src/ast/type_/mod.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index c2a5c7e..8cc5196 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -31,11 +31,18 @@ named_args!(type_tuple(indentation: u32)<CompleteStr, Type>,
             char!(','),
             opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))
         ),
-        call!(type_, indentation)
+        call!(type_annotation, indentation)
       ),
       terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
     ),
-    Type::TypeTuple
+    // A single type in brackets is just that type
+    |mut v: Vec<Type>| {
+        if v.len() == 1 {
+            v.remove(0)
+        } else {
+            Type::TypeTuple(v)
+        }
+    }
   )
 );
 
@@ -96,11 +103,6 @@ named_args!(type_parameter(indentation: u32)<CompleteStr, Type>,
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
     | call!(type_tuple, indentation)
-    | delimited!(
-        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
-        call!(type_annotation, indentation),
-        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
-      )
   )
 );
 
@@ -128,11 +130,6 @@ named_args!(pub type_(indentation: u32)<CompleteStr, Type>,
     | call!(type_record_constructor, indentation)
     | call!(type_record, indentation)
     | call!(type_tuple, indentation)
-    | delimited!(
-        preceded!(char!('('), opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE))),
-        call!(type_annotation, indentation),
-        terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
-      )
   )
 );
 
-- 
2.43.0


From 702638ba9a6d40b33343409900113e320645e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 07/37] fix: accept capital letters and zeros in type variables

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 8cc5196..71d290c 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,7 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-z1-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From 7d636db49573deb715e354bb34bba1b70fdd7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 08/37] fix: accept escape sequences in character literals

'\n', '\'', '\\' and the like were rejected.
---
 src/ast/expression/character.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index cd30d37..b287285 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -2,7 +2,7 @@ use ast::expression::core::Expression;
 
 use std;
 
-use nom::anychar;
+use nom::{anychar, hex_digit};
 use nom::types::CompleteStr;
 
 named!(character_content<CompleteStr, char>,
@@ -16,6 +16,20 @@ named!(character_content<CompleteStr, char>,
         ),
         |r: Result<u8, std::num::ParseIntError>| r.map(|u| u as char)
       )
+    // Code points in the form \\u{1F600}
+    | map_opt!(
+        delimited!(tag!("\\u{"), hex_digit, char!('}')),
+        |code: CompleteStr| u32::from_str_radix(code.0, 16).ok().and_then(std::char::from_u32)
+      )
+    | preceded!(
+        char!('\\'),
+        alt!(
+            value!('\n', char!('n'))
+          | value!('\r', char!('r'))
+          | value!('\t', char!('t'))
+          | one_of!("\\'\"")
+        )
+      )
     | anychar
   )
 );
-- 
2.43.0


From 847217ef4dfc439b4a1d2a73ae677bde1b792005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 09/37] fix: accept quotes and escaped quotes in triple-quoted
 strings

---
 src/ast/expression/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/string.rs b/src/ast/expression/string.rs
index 904d5ad..181ac0d 100644
--- a/src/ast/expression/string.rs
+++ b/src/ast/expression/string.rs
@@ -16,7 +16,7 @@ named!(single_string<CompleteStr, String>,
 
 named!(multi_string<CompleteStr, String>,
   map!(
-    delimited!(tag!(r#"""""#), re_matches!(r#"^([^"]*)"#), tag!(r#"""""#)),
+    delimited!(tag!(r#"""""#), re_matches!(r#"(?s)^((?:\\.|"{0,2}[^"\\])*)"#), tag!(r#"""""#)),
     // There is a match above so we'll have a single entry in the vec
     |v| v[0].to_string()
   )
-- 
2.43.0


From 6251836d062da1f9f6b1529b7a949339ab5d64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 10/37] fix: accept nested comments

---
 src/ast/statement/comment.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ast/statement/comment.rs b/src/ast/statement/comment.rs
index 0968cbd..1cb0f6a 100644
--- a/src/ast/statement/comment.rs
+++ b/src/ast/statement/comment.rs
@@ -1,6 +1,7 @@
 use ast::statement::core::Statement;
 
 use nom::types::CompleteStr;
+use nom::{Err, ErrorKind, IResult, Slice};
 
 named!(single_line_comment<CompleteStr, Statement>,
   map!(
@@ -9,11 +10,40 @@ named!(single_line_comment<CompleteStr, Statement>,
   )
 );
 
+// The text up to the "-}" that matches an opening "{-" that has already been consumed. Comments can
+// be nested.
+fn multi_line_comment_content(input: CompleteStr) -> IResult<CompleteStr, CompleteStr> {
+    let mut depth = 1;
+    let mut index = 0;
+
+    while let Some(pair) = input.as_bytes().get(index..index + 2) {
+        match pair {
+            b"{-" => depth += 1,
+            b"-}" => depth -= 1,
+            _ => {
+                index += 1;
+                continue;
+            }
+        }
+
+        if depth == 0 {
+            return Ok((input.slice(index + 2..), input.slice(..index)));
+        }
+
+        index += 2;
+    }
+
+    Err(Err::Error(error_position!(
+        input,
+        ErrorKind::TakeUntilAndConsume
+    )))
+}
+
 named!(multi_line_comment<CompleteStr, Statement>,
   map!(
     preceded!(
         tag!("{-"),
-        take_until_and_consume!("-}")
+        multi_line_comment_content
     ),
     |s| Statement::Comment(s.to_string())
   )
-- 
2.43.0


From 2b6efe40f5d02f024ef702eb63cfe4ca3b761a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 11/37] fix: accept hexadecimal integers and floats with an
 exponent

---
 src/ast/expression/float.rs   | 18 ++++++++++++++----
 src/ast/expression/integer.rs |  7 +++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ast/expression/float.rs b/src/ast/expression/float.rs
index 885d0a5..e2bf282 100644
--- a/src/ast/expression/float.rs
+++ b/src/ast/expression/float.rs
@@ -3,16 +3,26 @@ use ast::expression::core::Expression;
 use nom::digit;
 use nom::types::CompleteStr;
 
+named!(exponent<CompleteStr, CompleteStr>,
+  recognize!(tuple!(one_of!("eE"), opt!(one_of!("+-")), digit))
+);
+
 named!(pub float<CompleteStr, Expression>,
   do_parse!(
     sign: map!(
         opt!(alt!(char!('+') | char!('-'))),
         |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
     ) >>
-    start: digit >>
-    char!('.') >>
-    end: digit >>
-    (Expression::Float(sign.to_string() + start.0 + "." + end.0))
+    number: recognize!(
+      tuple!(
+        digit,
+        alt!(
+            value!((), tuple!(char!('.'), digit, opt!(exponent)))
+          | value!((), exponent)
+        )
+      )
+    ) >>
+    (Expression::Float(sign.to_string() + number.0))
   )
 );
 
diff --git a/src/ast/expression/integer.rs b/src/ast/expression/integer.rs
index a26db7c..93cac87 100644
--- a/src/ast/expression/integer.rs
+++ b/src/ast/expression/integer.rs
@@ -1,7 +1,7 @@
 use ast::expression::core::Expression;
 
-use nom::digit;
 use nom::types::CompleteStr;
+use nom::{digit, hex_digit};
 
 named!(pub integer<CompleteStr, Expression>,
   do_parse!(
@@ -9,7 +9,10 @@ named!(pub integer<CompleteStr, Expression>,
       opt!(alt!(char!('+') | char!('-'))),
       |opt| opt.map(|c| c.to_string()).unwrap_or_else(String::new)
     ) >>
-    number: digit >>
+    number: alt!(
+        recognize!(preceded!(tag!("0x"), hex_digit))
+      | digit
+    ) >>
     (Expression::Integer(sign.to_string() + number.0))
   )
 );
-- 
2.43.0


From bf2183384250add368e430b47cc369d5a9510340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 12/37] fix: accept trailing spaces after a type signature

---
 src/ast/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 59c898d..9b13b0d 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -158,7 +158,7 @@ named_args!(pub opt_spaces_or_new_lines_and_indent(indentation: u32, ir: IR) <Co
 named_args!(pub new_line_and_same_indent(indentation: u32) <CompleteStr, u32>,
   map_res!(
     preceded!(
-      char!('\n'),
+      pair!(spaces0, char!('\n')),
       alt!(
           map!(spaces0, |s| s.len() as u32)
       )
-- 
2.43.0


From d1c89fc55f101a8a7eaa6f1541085edbb56b907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 13/37] fix: do not parse the body of a let binding twice
 before rejecting it

The time to reject an error inside nested let expressions doubled with every level.
---
 src/ast/expression/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 2bf2f1d..7607036 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -216,11 +216,18 @@ named_args!(let_binding_target(indentation: u32) <CompleteStr, Expression>,
   )
 );
 
-named_args!(let_binding(indentation: u32) <CompleteStr, LetEntry>,
+named_args!(let_binding_start(indentation: u32) <CompleteStr, Expression>,
    do_parse!(
        binding: call!(let_binding_target, indentation) >>
        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
        char!('=') >>
+       (binding)
+   )
+);
+
+named_args!(let_binding(indentation: u32) <CompleteStr, LetEntry>,
+   do_parse!(
+       binding: call!(let_binding_start, indentation) >>
        new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
        expression: call!(expression, new_indent) >>
        (LetEntry::LetBinding(binding, expression))
@@ -232,7 +239,12 @@ named_args!(let_bindings(indentation: u32) <CompleteStr, Vec<LetEntry>>,
         call!(spaces_or_new_lines_and_indent, indentation, IR::EQ),
         alt!(
             call!(let_binding, indentation)
-          | map!(call!(function, indentation), LetEntry::LetFunction)
+          // What starts like a binding can only be one: trying its body again as the body of a
+          // function doubles the time with every level of nesting
+          | preceded!(
+              not!(call!(let_binding_start, indentation)),
+              map!(call!(function, indentation), LetEntry::LetFunction)
+            )
         )
     )
 );
-- 
2.43.0


From 99a7e3a3a158292ae66c04543c2358d1b781e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 14/37] fix: accept spaces inside the braces of an effect
 module's settings

---
 src/ast/statement/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/statement/module.rs b/src/ast/statement/module.rs
index 038a10e..3b45938 100644
--- a/src/ast/statement/module.rs
+++ b/src/ast/statement/module.rs
@@ -30,7 +30,7 @@ named!(pub effect_module_declaration<CompleteStr, Statement>,
     tag!("where") >>
     call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
     where_: delimited!(
-      char!('{'),
+      terminated!(char!('{'), opt!(spaces)),
       separated_list!(
         tag!(", "),
         do_parse!(
@@ -42,7 +42,7 @@ named!(pub effect_module_declaration<CompleteStr, Statement>,
           ((lname, uname))
         )
       ),
-      char!('}')
+      preceded!(opt!(spaces), char!('}'))
     ) >>
     call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
     tag!("exposing") >>
-- 
2.43.0


From 210820cbbddaa3f8098ecccadcd9938fb47451ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 15/37] fix: accept an import spread over several lines, as a
 module declaration is

---
 src/ast/statement/import.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement/import.rs b/src/ast/statement/import.rs
index ce02a48..75c5bb2 100644
--- a/src/ast/statement/import.rs
+++ b/src/ast/statement/import.rs
@@ -1,4 +1,4 @@
-use ast::helpers::{module_name, spaces, up_name};
+use ast::helpers::{module_name, spaces, spaces_or_new_lines_and_indent, up_name, IR};
 use ast::statement::core::Statement;
 use ast::statement::export::exports;
 
@@ -11,13 +11,21 @@ named!(pub import_statement<CompleteStr, Statement>,
     name: module_name >>
     alias: opt!(
       preceded!(
-        delimited!(spaces, tag!("as"), spaces),
+        delimited!(
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT),
+          tag!("as"),
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT)
+        ),
         up_name
       )
     ) >>
     exposing: opt!(
       preceded!(
-        delimited!(spaces, tag!("exposing"), spaces),
+        delimited!(
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT),
+          tag!("exposing"),
+          call!(spaces_or_new_lines_and_indent, 0, IR::GT)
+        ),
         exports
       )
     ) >>
-- 
2.43.0


From 415a244fddfdd5d2150c96f2fd8c14e6c261eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 16/37] fix: let elm-parser-dump carry on after a file it
 cannot read

Walking a directory stopped with a panic at a file that was not UTF-8 or a dangling link, stopped
silently at a directory that could not be read, and skipped files whose path was not UTF-8.
---
 src/dump.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/dump.rs b/src/dump.rs
index dc4fb2e..59f21ed 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -12,17 +12,17 @@ use std::env;
 use std::ffi::OsStr;
 use std::fs::File;
 use std::io::prelude::*;
+use std::path::Path;
 
 mod ast;
 
 use ast::file;
 
-fn dump_file(filename: &str, quiet: bool) {
-    let mut f = File::open(filename).expect("file not found");
+fn dump_file(filename: &Path, quiet: bool) -> std::io::Result<()> {
+    let mut f = File::open(filename)?;
 
     let mut contents = String::new();
-    f.read_to_string(&mut contents)
-        .expect("something went wrong reading the file");
+    f.read_to_string(&mut contents)?;
 
     let result = file(CompleteStr(&contents));
 
@@ -42,11 +42,19 @@ fn dump_file(filename: &str, quiet: bool) {
             }
         }
     }
+
+    Ok(())
 }
 
-fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
+fn dump_directory(path: &Path, quiet: bool) {
     for entry in WalkDir::new(path) {
-        let ent = entry?;
+        let ent = match entry {
+            Ok(ent) => ent,
+            Err(error) => {
+                println!("{}", error);
+                continue;
+            }
+        };
 
         if ent.path().is_dir() {
             continue;
@@ -56,13 +64,11 @@ fn dump_directory(path: &str, quiet: bool) -> walkdir::Result<()> {
             continue;
         }
 
-        match ent.path().to_str() {
-            Some(path) => dump_file(path, quiet),
-            None => {}
+        // One file that cannot be read must not keep us from the rest
+        if let Err(error) = dump_file(ent.path(), quiet) {
+            println!("{:?} could not be read: {}", ent.path(), error);
         }
     }
-
-    Ok(())
 }
 
 fn main() {
@@ -81,9 +87,9 @@ fn main() {
             let attr = std::fs::metadata(path).expect("file not found");
 
             if attr.is_dir() {
-                dump_directory(path, quiet);
+                dump_directory(Path::new(path), quiet);
             } else {
-                dump_file(path, quiet);
+                dump_file(Path::new(path), quiet).expect("something went wrong reading the file");
             }
         }
         None => {}
-- 
2.43.0


From 669410f218ad0abcf3d95463c8958d52c8f11494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 17/37] fix: keep an inner case on one line from taking the
 branches of the outer one

In
    case x of
        A -> case y of B -> 1
        C -> 2
the branch C became part of the inner case.
---
 src/ast/expression/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 7607036..9a25cc9 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -20,7 +20,8 @@ use ast::expression::integer::integer;
 use ast::expression::string::string;
 use ast::expression::variable::variable;
 use ast::helpers::{
-    lo_name, operator, opt_spaces_or_new_lines_and_indent, spaces_or_new_lines_and_indent, IR,
+    lo_name, operator, opt_spaces_or_new_lines_and_indent, spaces, spaces0,
+    spaces_or_new_lines_and_indent, IR,
 };
 
 // use nom;
@@ -289,8 +290,22 @@ named_args!(case_expression(indentation: u32) <CompleteStr, Expression>,
        expression: call!(expression, indentation) >>
        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
        tag!("of") >>
-       new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
-       cases: call!(cases, new_indent) >>
+       cases: alt!(
+           // A first branch on the same line as the "of" is the only one: we do not know its column
+           // and the lines that follow can belong to a case expression around this one
+           do_parse!(
+               spaces >>
+               not!(alt!(tag!("\n") | tag!("--"))) >>
+               case: call!(case, indentation) >>
+               (vec![case])
+           )
+         | do_parse!(
+               peek!(preceded!(spaces0, alt!(tag!("\n") | tag!("--")))) >>
+               new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+               cases: call!(cases, new_indent) >>
+               (cases)
+           )
+       ) >>
        (Expression::Case(Box::new(expression), cases))
    )
 );
-- 
2.43.0


From a3258c502f688dfe0073a051a493cee6f46b44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 18/37] fix: let only the entry on the line of a let belong to
 it when there is one

The column of an entry on the line of the 'let' is not known, so lines at any enclosing indentation
were taken for further entries, whatever their column.
---
 src/ast/expression/mod.rs | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 9a25cc9..5abf773 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -235,26 +235,44 @@ named_args!(let_binding(indentation: u32) <CompleteStr, LetEntry>,
    )
 );
 
+named_args!(let_entry(indentation: u32) <CompleteStr, LetEntry>,
+    alt!(
+        call!(let_binding, indentation)
+      // What starts like a binding can only be one: trying its body again as the body of a
+      // function doubles the time with every level of nesting
+      | preceded!(
+          not!(call!(let_binding_start, indentation)),
+          map!(call!(function, indentation), LetEntry::LetFunction)
+        )
+    )
+);
+
 named_args!(let_bindings(indentation: u32) <CompleteStr, Vec<LetEntry>>,
     separated_nonempty_list!(
         call!(spaces_or_new_lines_and_indent, indentation, IR::EQ),
-        alt!(
-            call!(let_binding, indentation)
-          // What starts like a binding can only be one: trying its body again as the body of a
-          // function doubles the time with every level of nesting
-          | preceded!(
-              not!(call!(let_binding_start, indentation)),
-              map!(call!(function, indentation), LetEntry::LetFunction)
-            )
-        )
+        call!(let_entry, indentation)
     )
 );
 
 named_args!(let_expression(indentation: u32) <CompleteStr, Expression>,
    do_parse!(
        tag!("let") >>
-       assignment_indentation: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
-       assignments: call!(let_bindings, assignment_indentation) >>
+       assignments: alt!(
+           // A first entry on the same line as the "let" is the only one: we do not know its column
+           // so we cannot tell which of the lines that follow belong to the same let
+           do_parse!(
+               spaces >>
+               not!(alt!(tag!("\n") | tag!("--"))) >>
+               entry: call!(let_entry, indentation) >>
+               (vec![entry])
+           )
+         | do_parse!(
+               peek!(preceded!(spaces0, alt!(tag!("\n") | tag!("--")))) >>
+               new_indent: call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
+               entries: call!(let_bindings, new_indent) >>
+               (entries)
+           )
+       ) >>
        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
        tag!("in") >>
        call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
-- 
2.43.0


From 78a4b1e10a07621349fb68ba8a5c14e2c15a2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 19/37] fix: do not accept reserved words as type variables

---
 src/ast/helpers.rs   |  2 +-
 src/ast/type_/mod.rs | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 9b13b0d..e77d3ae 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -8,7 +8,7 @@ pub type ModuleName = Vec<String>;
 
 pub type Alias = String;
 
-const RESERVED_WORDS: &[&str] = &[
+pub const RESERVED_WORDS: &[&str] = &[
     "module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else",
     "let", "in", "case", "of",
 ];
diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 71d290c..94e6e6b 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -2,13 +2,24 @@ pub mod core;
 
 use ast::helpers::{
     lo_name, spaces_and_newlines, spaces_or_new_lines_and_indent, up_name, Name, IR,
+    RESERVED_WORDS,
 };
 use ast::type_::core::Type;
 
 use nom::types::CompleteStr;
 
-named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+named!(pub type_variable<CompleteStr, Type>,
+  map_res!(
+    re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#),
+    |c: Vec<CompleteStr>| {
+        let name = c[0].to_string();
+        if RESERVED_WORDS.contains(&name.as_str()) {
+            Err("Reserved word: ".to_string() + &name)
+        } else {
+            Ok(Type::TypeVariable(name))
+        }
+    }
+  )
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From 485bc8a3a4695e81203c6008e3f1011fc9bea823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 20/37] fix: only accept a name and type variables as the head
 of a type declaration

---
 src/ast/statement/type_declaration.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ast/statement/type_declaration.rs b/src/ast/statement/type_declaration.rs
index fba98ff..b73b3c1 100644
--- a/src/ast/statement/type_declaration.rs
+++ b/src/ast/statement/type_declaration.rs
@@ -1,16 +1,31 @@
-use ast::helpers::{spaces, spaces_or_new_lines_and_indent, IR};
+use ast::helpers::{spaces, spaces_or_new_lines_and_indent, up_name, IR};
 use ast::statement::core::Statement;
-use ast::type_::{type_, type_annotation, type_constructor};
+use ast::type_::core::Type;
+use ast::type_::{type_annotation, type_constructor, type_variable};
 
 use nom::types::CompleteStr;
 
+// The new type on the left of the '=': an unqualified name and its type variables
+named_args!(type_head(indentation: u32)<CompleteStr, Type>,
+  do_parse!(
+    name: up_name >>
+    variables: many0!(
+      preceded!(
+        call!(spaces_or_new_lines_and_indent, indentation, IR::GT),
+        type_variable
+      )
+    ) >>
+    (Type::TypeConstructor(vec![name], variables))
+  )
+);
+
 named!(pub type_alias_declaration<CompleteStr, Statement>,
   do_parse!(
     tag!("type") >>
     spaces >>
     tag!("alias") >>
     spaces >>
-    name: call!(type_, 0) >>
+    name: call!(type_head, 0) >>
     spaces >>
     char!('=') >>
     call!(spaces_or_new_lines_and_indent, 1, IR::GTE) >>
@@ -23,7 +38,7 @@ named_args!(pub type_declaration(indentation: u32)<CompleteStr, Statement>,
   do_parse!(
     tag!("type") >>
     spaces >>
-    name: call!(type_, indentation) >>
+    name: call!(type_head, indentation) >>
     new_indent: call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>
     char!('=') >>
     call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE) >>
-- 
2.43.0


From a46730739f9d239c65147a7e99ade48a1f3dd493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 21/37] fix: do not accept a qualified name as a constructor
 being declared

---
 src/ast/statement/type_declaration.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ast/statement/type_declaration.rs b/src/ast/statement/type_declaration.rs
index b73b3c1..f58166f 100644
--- a/src/ast/statement/type_declaration.rs
+++ b/src/ast/statement/type_declaration.rs
@@ -19,6 +19,21 @@ named_args!(type_head(indentation: u32)<CompleteStr, Type>,
   )
 );
 
+// One constructor of the new type: its name cannot be qualified, its arguments can
+named_args!(constructor(indentation: u32)<CompleteStr, Type>,
+  map_res!(
+    call!(type_constructor, indentation),
+    |type_: Type| {
+        match type_ {
+            Type::TypeConstructor(ref name, _) if name.len() > 1 => {
+                Err("Qualified name for a constructor: ".to_string() + &name.join("."))
+            }
+            type_ => Ok(type_),
+        }
+    }
+  )
+);
+
 named!(pub type_alias_declaration<CompleteStr, Statement>,
   do_parse!(
     tag!("type") >>
@@ -44,7 +59,7 @@ named_args!(pub type_declaration(indentation: u32)<CompleteStr, Statement>,
     call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE) >>
     definition: separated_nonempty_list!(
       delimited!(call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE), char!('|'), spaces),
-      call!(type_constructor, new_indent)
+      call!(constructor, new_indent)
     ) >>
     (Statement::TypeDeclaration(name, definition))
   )
-- 
2.43.0


From 00f8719a7d54babf44ba53ba44de73251810dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 22/37] fix: do not accept a signature for a definition of
 another name

---
 src/ast/expression/function.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/ast/expression/function.rs b/src/ast/expression/function.rs
index 46047f5..37f2e59 100644
--- a/src/ast/expression/function.rs
+++ b/src/ast/expression/function.rs
@@ -37,15 +37,28 @@ named_args!(function_definition(indentation: u32)<CompleteStr, FunctionDefinitio
 );
 
 named_args!(pub function(indentation: u32)<CompleteStr, Function>,
-    do_parse!(
-        signature: opt!(
-            terminated!(
-                call!(function_signature, indentation),
-                call!(new_line_and_same_indent, indentation)
-            )
-        ) >>
-        definition: call!(function_definition, indentation) >>
-        (Function { signature, definition })
+    map_res!(
+        do_parse!(
+            signature: opt!(
+                terminated!(
+                    call!(function_signature, indentation),
+                    call!(new_line_and_same_indent, indentation)
+                )
+            ) >>
+            definition: call!(function_definition, indentation) >>
+            (Function { signature, definition })
+        ),
+        |function: Function| {
+            let same_name = match function.signature {
+                Some(ref signature) => signature.name == function.definition.name,
+                None => true,
+            };
+            if same_name {
+                Ok(function)
+            } else {
+                Err("Signature of another name: ".to_string() + &function.definition.name)
+            }
+        }
     )
 );
 
-- 
2.43.0


From 922a3afcc52fde8648a700fbe8b477ca2549e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 23/37] fix: do not accept let entries and case branches side
 by side on one line

---
 src/ast/helpers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index e77d3ae..813f26e 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -115,10 +115,11 @@ named_args!(pub spaces_or_new_lines_and_indent(indentation: u32, ir: IR) <Comple
         let has_new_line = v.iter().any(|ref subv| subv.iter().any(|(ref content, _)| *content == SpacesContent::NewLineAndSpaces));
 
         // Only apply test if there have been new lines - otherwise we've just had some spaces or
-        // comments and there isn't any new indentation to test
+        // comments and there isn't any new indentation to test. Something at the same indentation
+        // has to be on a new line
         match ir {
             IR::EQ => {
-                if !has_new_line || new_indent == indentation {
+                if has_new_line && new_indent == indentation {
                     Ok(new_indent)
                 }
                 else {
-- 
2.43.0


From 179ae8f4c6c89f08eaa29d092ad8920042109a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 24/37] fix: do not accept a comment as the name of an operator

---
 src/ast/helpers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 813f26e..c8a2fad 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -53,7 +53,8 @@ named!(pub operator<CompleteStr, String>,
     // Regex from elm-ast with extra '-' at the start as it was failing
     map!(re_matches!(r"^([-+\\-\\/*=.$<>:&|^?%#@~!]+)"), |c| c[0].to_string()),
     |op: String| {
-        if RESERVED_OPERATORS.contains(&op.as_str()) {
+        // two dashes begin a comment, whatever follows
+        if op.starts_with("--") || RESERVED_OPERATORS.contains(&op.as_str()) {
             Err("Reserved operator: ".to_string() + &op)
         }
         else {
-- 
2.43.0


From 9c64c7be26fadb7c9317b3fe710dcb9c5c0cb5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 25/37] fix: accept any spacing in a list of exposed
 constructors

---
 src/ast/statement/export.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement/export.rs b/src/ast/statement/export.rs
index 5432da0..519d06f 100644
--- a/src/ast/statement/export.rs
+++ b/src/ast/statement/export.rs
@@ -22,7 +22,7 @@ named!(function_export<CompleteStr, ExportSet>,
 named!(constructor_subset_exports<CompleteStr, ExportSet>,
   map!(
     separated_nonempty_list!(
-      tag!(", "),
+      delimited!(opt!(spaces_and_newlines), char!(','), opt!(spaces_and_newlines)),
       map!(up_name, ExportSet::FunctionExport)
     ),
     ExportSet::SubsetExport
@@ -33,12 +33,12 @@ named!(constructor_exports<CompleteStr, Option<Box<ExportSet>>>,
   opt!(
     map!(
       delimited!(
-        char!('('),
+        terminated!(char!('('), opt!(spaces_and_newlines)),
         alt!(
             all_export
           | constructor_subset_exports
         ),
-        char!(')')
+        preceded!(opt!(spaces_and_newlines), char!(')'))
       ),
       Box::new
     )
-- 
2.43.0


From 6ce84b6a15514801f6c23d0b7cb5b06711d0832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 26/37] fix: accept any spacing between the settings of an
 effect module

---
 src/ast/statement/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/statement/module.rs b/src/ast/statement/module.rs
index 3b45938..d3f565b 100644
--- a/src/ast/statement/module.rs
+++ b/src/ast/statement/module.rs
@@ -32,7 +32,7 @@ named!(pub effect_module_declaration<CompleteStr, Statement>,
     where_: delimited!(
       terminated!(char!('{'), opt!(spaces)),
       separated_list!(
-        tag!(", "),
+        delimited!(opt!(spaces), char!(','), opt!(spaces)),
         do_parse!(
           lname: lo_name >>
           opt!(spaces) >>
-- 
2.43.0


From 942f2b63b8cba6ffea5d4ff71e74f721bfab0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 27/37] fix: accept line comments in tuples and around
 operators, arrows, commas and record updates

---
 src/ast/expression/mod.rs   | 22 +++++++++++-----------
 src/ast/helpers.rs          | 22 ++++++++++++++++++----
 src/ast/statement/export.rs | 10 +++++-----
 src/ast/type_/mod.rs        |  4 ++--
 4 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 5abf773..c246f72 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -20,13 +20,13 @@ use ast::expression::integer::integer;
 use ast::expression::string::string;
 use ast::expression::variable::variable;
 use ast::helpers::{
-    lo_name, operator, opt_spaces_or_new_lines_and_indent, spaces, spaces0,
-    spaces_or_new_lines_and_indent, IR,
+    lo_name, operator, opt_spaces_and_comments, opt_spaces_or_new_lines_and_indent, spaces, spaces0,
+    spaces_and_comments, spaces_or_new_lines_and_indent, IR,
 };
 
 // use nom;
 use nom::types::CompleteStr;
-use nom::{multispace, multispace0, space1};
+use nom::space1;
 
 named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
   map!(
@@ -35,9 +35,9 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
         separated_list!(
             char!(','),
             delimited!(
-                multispace0,
+                opt_spaces_and_comments,
                 call!(expression, indentation),
-                multispace0
+                opt_spaces_and_comments
             )
         ),
         char!(')')
@@ -107,9 +107,9 @@ named_args!(simplified_record(indentation: u32) <CompleteStr, Expression>,
         separated_list!(
             char!(','),
             do_parse!(
-                multispace0 >>
+                opt_spaces_and_comments >>
                 name: lo_name >>
-                multispace0 >>
+                opt_spaces_and_comments >>
                 ((name.clone(), Expression::Variable(vec![name.to_string()])))
             )
         ),
@@ -126,7 +126,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       name: lo_name >>
       call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       char!('|') >>
-      multispace0 >>
+      opt_spaces_and_comments >>
       pairs: separated_list!(
         delimited!(
             call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE),
@@ -135,9 +135,9 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
         ),
         do_parse!(
           name: lo_name >>
-          multispace0 >>
+          opt_spaces_and_comments >>
           char!('=') >>
-          multispace0 >>
+          opt_spaces_and_comments >>
           expression: call!(expression, indentation) >>
           ((name, expression))
         )
@@ -367,7 +367,7 @@ named_args!(binary(indentation: u32) <CompleteStr, Expression>,
        do_parse!(
          call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
          operator: operator_or_as >>
-         multispace >>
+         spaces_and_comments >>
          expression: call!(expression, indentation) >>
          (operator, expression)
        )
diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index c8a2fad..3b6b2ae 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -1,3 +1,4 @@
+use nom::multispace;
 use nom::types::CompleteStr;
 
 pub type Name = String;
@@ -72,14 +73,27 @@ named!(pub spaces0 <CompleteStr, String>,
   map!(opt!(is_a!(" ")), |s| s.map(|c| c.to_string()).unwrap_or_else(String::new))
 );
 
-named!(pub spaces_and_newlines <CompleteStr, String>,
-  map!(is_a!(" \n"), |s| s.to_string())
-);
-
 named!(single_line_comment<CompleteStr, String>,
   map!(preceded!(tag!("--"), re_matches!(r"^(.*)")), |v| v[0].to_string())
 );
 
+// Spaces, new lines and comments where the indentation does not matter
+named!(pub spaces_and_comments <CompleteStr, ()>,
+  value!(
+    (),
+    many1!(
+      alt!(
+          value!((), multispace)
+        | value!((), single_line_comment)
+      )
+    )
+  )
+);
+
+named!(pub opt_spaces_and_comments <CompleteStr, ()>,
+  value!((), opt!(spaces_and_comments))
+);
+
 // IndentRelation
 pub enum IR {
     EQ,
diff --git a/src/ast/statement/export.rs b/src/ast/statement/export.rs
index 519d06f..55291d4 100644
--- a/src/ast/statement/export.rs
+++ b/src/ast/statement/export.rs
@@ -1,5 +1,5 @@
 use ast::helpers::{
-    function_name, operator, spaces_and_newlines, spaces_or_new_lines_and_indent, up_name, IR,
+    function_name, operator, opt_spaces_and_comments, spaces_or_new_lines_and_indent, up_name, IR,
 };
 use ast::statement::core::ExportSet;
 
@@ -22,7 +22,7 @@ named!(function_export<CompleteStr, ExportSet>,
 named!(constructor_subset_exports<CompleteStr, ExportSet>,
   map!(
     separated_nonempty_list!(
-      delimited!(opt!(spaces_and_newlines), char!(','), opt!(spaces_and_newlines)),
+      delimited!(opt_spaces_and_comments, char!(','), opt_spaces_and_comments),
       map!(up_name, ExportSet::FunctionExport)
     ),
     ExportSet::SubsetExport
@@ -33,12 +33,12 @@ named!(constructor_exports<CompleteStr, Option<Box<ExportSet>>>,
   opt!(
     map!(
       delimited!(
-        terminated!(char!('('), opt!(spaces_and_newlines)),
+        terminated!(char!('('), opt_spaces_and_comments),
         alt!(
             all_export
           | constructor_subset_exports
         ),
-        preceded!(opt!(spaces_and_newlines), char!(')'))
+        preceded!(opt_spaces_and_comments, char!(')'))
       ),
       Box::new
     )
@@ -56,7 +56,7 @@ named!(type_export<CompleteStr, ExportSet>,
 named!(subset_export<CompleteStr, ExportSet>,
   map!(
     separated_nonempty_list!(
-      delimited!(opt!(spaces_and_newlines), char!(','), opt!(spaces_and_newlines)),
+      delimited!(opt_spaces_and_comments, char!(','), opt_spaces_and_comments),
       alt!(
           function_export
         | type_export
diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 94e6e6b..a3f55af 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -1,7 +1,7 @@
 pub mod core;
 
 use ast::helpers::{
-    lo_name, spaces_and_newlines, spaces_or_new_lines_and_indent, up_name, Name, IR,
+    lo_name, spaces_and_comments, spaces_or_new_lines_and_indent, up_name, Name, IR,
     RESERVED_WORDS,
 };
 use ast::type_::core::Type;
@@ -147,7 +147,7 @@ named_args!(pub type_(indentation: u32)<CompleteStr, Type>,
 named_args!(pub type_annotation(indentation: u32)<CompleteStr, Type>,
   map_res!(
     separated_nonempty_list!(
-      delimited!(spaces_and_newlines, tag!("->"), spaces_and_newlines),
+      delimited!(spaces_and_comments, tag!("->"), spaces_and_comments),
       call!(type_, indentation)
     ),
     |mut v: Vec<Type>| {
-- 
2.43.0


From e62e0cb956043406634ef11816904e3802424126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 28/37] fix: accept blank lines and comments between a
 signature and its definition

---
 src/ast/expression/function.rs |  6 ++----
 src/ast/helpers.rs             | 19 -------------------
 2 files changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/ast/expression/function.rs b/src/ast/expression/function.rs
index 37f2e59..fbb6b2a 100644
--- a/src/ast/expression/function.rs
+++ b/src/ast/expression/function.rs
@@ -1,8 +1,6 @@
 use ast::expression::core::{Function, FunctionDefinition, FunctionSignature};
 use ast::expression::{expression, term};
-use ast::helpers::{
-    lo_name, new_line_and_same_indent, operator, spaces, spaces_or_new_lines_and_indent, IR,
-};
+use ast::helpers::{lo_name, operator, spaces, spaces_or_new_lines_and_indent, IR};
 use ast::type_::type_annotation;
 
 use nom::types::CompleteStr;
@@ -42,7 +40,7 @@ named_args!(pub function(indentation: u32)<CompleteStr, Function>,
             signature: opt!(
                 terminated!(
                     call!(function_signature, indentation),
-                    call!(new_line_and_same_indent, indentation)
+                    call!(spaces_or_new_lines_and_indent, indentation, IR::EQ)
                 )
             ) >>
             definition: call!(function_definition, indentation) >>
diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 3b6b2ae..6c9a89c 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -171,25 +171,6 @@ named_args!(pub opt_spaces_or_new_lines_and_indent(indentation: u32, ir: IR) <Co
     )
 );
 
-named_args!(pub new_line_and_same_indent(indentation: u32) <CompleteStr, u32>,
-  map_res!(
-    preceded!(
-      pair!(spaces0, char!('\n')),
-      alt!(
-          map!(spaces0, |s| s.len() as u32)
-      )
-    ),
-    |new_indent: u32| {
-        if new_indent == indentation {
-            Ok(new_indent)
-        }
-        else {
-            Err("Indent does not match".to_string())
-        }
-    }
-  )
-);
-
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 750a273af83476a264f436b5b21ab567cdab1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 29/37] fix: accept spaces in an empty tuple and after the
 backslash of a lambda

---
 src/ast/expression/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index c246f72..e3f5858 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -40,7 +40,7 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
                 opt_spaces_and_comments
             )
         ),
-        char!(')')
+        preceded!(opt_spaces_and_comments, char!(')'))
     ),
     // A single expression in brackets is just that expression
     |mut v: Vec<Expression>| {
@@ -172,6 +172,7 @@ named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
 named_args!(lambda(indentation: u32) <CompleteStr, Expression>,
   do_parse!(
     char!('\\') >>
+    opt!(spaces) >>
     args: separated_nonempty_list!(space1, call!(term, indentation)) >>
     call!(spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
     tag!("->") >>
-- 
2.43.0


From 74d51e1609ad5b2625549306af97be96070b9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 30/37] fix: accept spaces before the constructors of an
 exposed type

---
 src/ast/statement/export.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/statement/export.rs b/src/ast/statement/export.rs
index 55291d4..0f532d3 100644
--- a/src/ast/statement/export.rs
+++ b/src/ast/statement/export.rs
@@ -1,5 +1,6 @@
 use ast::helpers::{
-    function_name, operator, opt_spaces_and_comments, spaces_or_new_lines_and_indent, up_name, IR,
+    function_name, operator, opt_spaces_and_comments, spaces, spaces_or_new_lines_and_indent,
+    up_name, IR,
 };
 use ast::statement::core::ExportSet;
 
@@ -33,7 +34,7 @@ named!(constructor_exports<CompleteStr, Option<Box<ExportSet>>>,
   opt!(
     map!(
       delimited!(
-        terminated!(char!('('), opt_spaces_and_comments),
+        delimited!(opt!(spaces), char!('('), opt_spaces_and_comments),
         alt!(
             all_export
           | constructor_subset_exports
-- 
2.43.0


From 515742061840e38cd5a01f224c706a1abe656273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 31/37] fix: accept a line break or comment after the bar
 between constructors

---
 src/ast/statement/type_declaration.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast/statement/type_declaration.rs b/src/ast/statement/type_declaration.rs
index f58166f..92743ea 100644
--- a/src/ast/statement/type_declaration.rs
+++ b/src/ast/statement/type_declaration.rs
@@ -58,7 +58,11 @@ named_args!(pub type_declaration(indentation: u32)<CompleteStr, Statement>,
     char!('=') >>
     call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE) >>
     definition: separated_nonempty_list!(
-      delimited!(call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE), char!('|'), spaces),
+      delimited!(
+        call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE),
+        char!('|'),
+        call!(spaces_or_new_lines_and_indent, new_indent, IR::GTE)
+      ),
       call!(constructor, new_indent)
     ) >>
     (Statement::TypeDeclaration(name, definition))
-- 
2.43.0


From e682da4a69890b30fa826b38e9a73b7539924a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 32/37] fix: accept field access on an expression in brackets

---
 src/ast/expression/access.rs | 20 ++++++++++++--------
 src/ast/expression/mod.rs    | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/ast/expression/access.rs b/src/ast/expression/access.rs
index 9d317c8..3b01843 100644
--- a/src/ast/expression/access.rs
+++ b/src/ast/expression/access.rs
@@ -2,18 +2,22 @@ use nom::types::CompleteStr;
 
 use ast::expression::core::Expression;
 use ast::expression::variable::variable;
-use ast::helpers::lo_name;
+use ast::helpers::{lo_name, Name};
+
+named!(pub accessors<CompleteStr, Vec<Name>>,
+  many1!(
+      do_parse!(
+          char!('.') >>
+          name: lo_name >>
+          (name)
+      )
+  )
+);
 
 named!(pub access<CompleteStr, Expression>,
   do_parse!(
     var: variable >>
-    accessors: many1!(
-        do_parse!(
-            char!('.') >>
-            name: lo_name >>
-            (name)
-        )
-    ) >>
+    accessors: accessors >>
     (Expression::Access(Box::new(var), accessors))
   )
 );
diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e3f5858..6b19ea1 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -11,7 +11,7 @@ mod variable;
 pub use ast::expression::core::Expression;
 use ast::expression::core::{Function, FunctionDefinition, FunctionSignature, LetEntry};
 
-use ast::expression::access::access;
+use ast::expression::access::{access, accessors};
 use ast::expression::access_function::access_function;
 use ast::expression::character::character;
 use ast::expression::float::float;
@@ -53,6 +53,18 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
   )
 );
 
+// Brackets, and the names of fields of what is in them
+named_args!(tuple_or_access(indentation: u32) <CompleteStr, Expression>,
+  do_parse!(
+    expression: call!(tuple, indentation) >>
+    names: opt!(accessors) >>
+    (match names {
+        Some(names) => Expression::Access(Box::new(expression), names),
+        None => expression
+    })
+  )
+);
+
 named_args!(list(indentation: u32) <CompleteStr, Expression>,
   map!(
     delimited!(
@@ -159,7 +171,7 @@ named_args!(pub term(indentation: u32) <CompleteStr, Expression>,
     | float
     | integer
     | character
-    | call!(tuple, indentation)
+    | call!(tuple_or_access, indentation)
     | call!(list, indentation)
     | call!(record_update, indentation)
     | call!(record, indentation)
-- 
2.43.0


From 161efb20c57fd0ed9863c41f984ae95d976ffe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 33/37] fix: do not accept a backslash by itself as an operator

---
 src/ast/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/helpers.rs b/src/ast/helpers.rs
index 6c9a89c..c06eea0 100644
--- a/src/ast/helpers.rs
+++ b/src/ast/helpers.rs
@@ -14,7 +14,7 @@ pub const RESERVED_WORDS: &[&str] = &[
     "let", "in", "case", "of",
 ];
 
-const RESERVED_OPERATORS: &[&str] = &["=", ".", "..", "->", "--", "|", ":"];
+const RESERVED_OPERATORS: &[&str] = &["=", ".", "..", "->", "--", "|", ":", "\\"];
 
 named!(pub lo_name<CompleteStr, String>,
   alt!(
-- 
2.43.0


From 7b8788fdb735fe084b037c92a18c0e98d325c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 34/37] fix: accept an escape after a quote in triple-quoted
 strings

---
 src/ast/expression/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/string.rs b/src/ast/expression/string.rs
index 181ac0d..6bb387d 100644
--- a/src/ast/expression/string.rs
+++ b/src/ast/expression/string.rs
@@ -16,7 +16,7 @@ named!(single_string<CompleteStr, String>,
 
 named!(multi_string<CompleteStr, String>,
   map!(
-    delimited!(tag!(r#"""""#), re_matches!(r#"(?s)^((?:\\.|"{0,2}[^"\\])*)"#), tag!(r#"""""#)),
+    delimited!(tag!(r#"""""#), re_matches!(r#"(?s)^((?:"{0,2}(?:\\.|[^"\\]))*)"#), tag!(r#"""""#)),
     // There is a match above so we'll have a single entry in the vec
     |v| v[0].to_string()
   )
-- 
2.43.0


From b3e238deff34f84a99f54bef6fec2b56b923a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 35/37] fix: reject a record update without fields

`{ r | }` was accepted as an update of nothing; Elm requires at least one field.
---
 src/ast/expression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index 6b19ea1..0ba9f00 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -139,7 +139,7 @@ named_args!(record_update(indentation: u32) <CompleteStr, Expression>,
       call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE) >>
       char!('|') >>
       opt_spaces_and_comments >>
-      pairs: separated_list!(
+      pairs: separated_nonempty_list!(
         delimited!(
             call!(opt_spaces_or_new_lines_and_indent, indentation, IR::GTE),
             char!(','),
-- 
2.43.0


From db6f72cd22da486fa9744469a5a193540237f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 36/37] fix: reject an extensible record type without fields

`{ a | }` was accepted as a record type; Elm requires at least one field.
---
 src/ast/type_/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index a3f55af..6a29469 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -88,6 +88,8 @@ named_args!(type_record_constructor(indentation: u32)<CompleteStr, Type>,
       opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       char!('|') >>
       opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
+      // There must be at least one pair
+      peek!(lo_name) >>
       record_pairs: call!(type_record_pairs, indentation) >>
       opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)) >>
       (Type::TypeRecordConstructor(Box::new(var), record_pairs))
-- 
2.43.0


From 366b50d78c21a00cf96bb650cbf2637617db272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 37/37] fix: pass over named pipes in folders

---
 src/dump.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dump.rs b/src/dump.rs
index 59f21ed..0b01965 100644
--- a/src/dump.rs
+++ b/src/dump.rs
@@ -64,6 +64,11 @@ fn dump_directory(path: &Path, quiet: bool) {
             continue;
         }
 
+        // A named pipe, a socket or a device is no file to read to its end
+        if std::fs::metadata(ent.path()).map(|m| !m.is_file()).unwrap_or(false) {
+            continue;
+        }
+
         // One file that cannot be read must not keep us from the rest
         if let Err(error) = dump_file(ent.path(), quiet) {
             println!("{:?} could not be read: {}", ent.path(), error);
-- 
2.43.0

