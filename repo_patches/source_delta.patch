From 3d4d8596f1337a128c35d458ed049e53e272cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 1/9] fix: parse texts with multi-byte characters

The position counts chars, but it was compared with the byte length of the
text and used to slice it: non-ASCII input was never fully consumed, and
reporting an error could panic inside a character.
---
 src/lib.rs        |  2 +-
 src/parser/mod.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..a6d42a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..3d67428 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -160,10 +160,19 @@ mod test;
 //-----------------------------------------------------------------------
 impl Error {
     pub(crate) fn from_status(status: &Status, descr: &str, prior: ErrPriority) -> Self {
+        //  pos counts chars, slices need bytes
+        let end = status.text2parse.len() - status.it_parsing.as_str().len();
+        let start = status.text2parse[..end]
+            .char_indices()
+            .rev()
+            .take(status.pos.n - status.pos.start_line)
+            .last()
+            .map_or(end, |(i, _)| i);
+
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: status.text2parse[start..end].to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From 6ddeb40f015260df71bdda0df4880dafe8fe66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 2/9] fix: a repetition with maximum 0 matches nothing

rep!(e, 0, 0) never reached its upper bound and repeated without limit.
---
 src/parser/expression/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..936d4b5 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -299,6 +299,13 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
         Some(ref m) => counter + 1 == m.0,
         None => false,
     };
+    let no_reps = match rep_info.max {
+        Some(ref m) => m.0 == 0,
+        None => false,
+    };
+    if no_reps {
+        return Ok((status, vec![]));
+    }
 
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
-- 
2.43.0


From c94b567a666563fdb34c21b2c9b628c6cf560213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 3/9] fix: stop repeating without limit what matches the empty
 string

An unbounded repetition of a nullable expression, i.e. ('a'?)*, never
finished. Once the minimum is reached, an iteration without progress ends it.
---
 src/parser/expression/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 936d4b5..73ebd40 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -323,6 +323,13 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
             //     &acc.0,
             //     &format!("inside repeat {:#?}", e),
             // ))),
+            //  an unbounded repetition of something matching the empty
+            //  string would never finish
+            (Ok((status, _)), true, _)
+                if rep_info.max.is_none() && status.pos.n == acc.0.pos.n =>
+            {
+                TailCall::Return(Ok((status, acc.2)))
+            }
             (Ok((status, vnodes)), _, false) => {
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
-- 
2.43.0


From 845ee83af9fb5ace0f07f86156687817807837f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 4/9] fix: a backslash in a literal without escapes is one
 backslash

It was doubled while compiling the grammar, to make up for generated code
not escaping backslashes, so '\n' matched two backslashes and an n.
Generated literals are escaped instead; the generated code is the same.
---
 src/peg/gcode.rs | 11 ++---------
 src/peg/mod.rs   |  2 +-
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..b8adec5 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -83,16 +83,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({:?})", s),
+        Atom::Error(s) => format!("error!({:?})", s),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..116a2ba 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -790,7 +790,7 @@ fn consume_literal_no_esc(
         let (nodes, context) = consume_single_quote(nodes, context)?;
         let (val, nodes) = flat::consume_val(nodes)?;
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From 2c1200269a471671ba499d4c02ea0a4515239a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 5/9] fix: accept the empty literal without escapes

The notation allows '', but compiling a grammar containing it failed.
---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 116a2ba..de4c38e 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes), //  empty literal
+        };
 
         let val = val.to_string();
         let vclone = val.clone();
-- 
2.43.0


From 1fe550beac8b81bd32984511bceb1efda2580dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 6/9] fix: accept expressions after error(...) in a sequence

The notation allows them, but compiling such a grammar failed.
---
 src/peg/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index de4c38e..829c4ea 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -504,13 +504,17 @@ fn consume_and(
                 Ok((eov, nodes, context))
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
-                let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
+                let (mut eov, mut nodes, mut context) = (eov.ipush(expr), nodes, context);
+
+                //  an error doesn't take the rest of the sequence, then
+                //  there can be more than one
+                while let flat::Node::BeginRule(_) = flat::peek_first_node(nodes)? {
+                    let (e, n, c) = rec_consume_and(eov, nodes, context)?;
+                    eov = e;
+                    nodes = n;
+                    context = c;
                 }
+                Ok((eov, nodes, context))
             }
         })
     }
-- 
2.43.0


From 185a29f5718b2bce2181a41b13dc60e113cd7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 7/9] fix: generate valid code for every character class

Quotes, backslashes and control chars were not escaped, and a class without
ranges became a macro call that doesn't compile.
---
 src/peg/gcode.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index b8adec5..ffcab8d 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -96,17 +96,26 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
     fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
         match bounds.split_first() {
             Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
+                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
             }
             None => acc,
         }
     }
 
-    format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
+    //  a raw string can't have all chars
+    let chars = if mrules.0.contains("\"#") || mrules.0.contains('\r') {
+        format!("{:?}", mrules.0)
+    } else {
+        format!(r##"r#"{}"#"##, mrules.0)
+    };
+
+    let bounds = if mrules.1.is_empty() {
+        ", from2 vec![]".to_string() // the macro needs bounds
+    } else {
         bounds2code(String::new(), &mrules.1)
-    )
+    };
+
+    format!("ematch!(chlist {}  {})", chars, bounds)
 }
 
 fn repeat2code(rep: &expression::RepInfo) -> String {
-- 
2.43.0


From 6bc6ce187d42acd1123731fb5d120c82bfc3cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 8/9] fix: generate the same code on each execution

The rules were written in the order of the hash map, different each time.
---
 src/peg/gcode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index ffcab8d..8eb4fa4 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -52,7 +52,11 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
         crules + "\n       " + begin + rule
     };
 
-    rules.0.iter().fold("".to_string(), |acc, (name, expr)| {
+    //  the order of the map changes on each execution
+    let mut sorted: Vec<_> = rules.0.iter().collect();
+    sorted.sort_by_key(|&(name, _)| name);
+
+    sorted.iter().fold("".to_string(), |acc, (name, expr)| {
         add_rule(acc, &rule2code(name, expr))
     })
 }
-- 
2.43.0


From 9b0585d6813d43b8a7dad87d75f52baf442440c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 9/9] fix: generate valid code for every rule name

A name with "# or a carriage return ended the raw string early.
---
 src/peg/gcode.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 8eb4fa4..6649e0e 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -62,7 +62,16 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
 }
 
 fn rule2code(name: &str, expr: &Expression) -> String {
-    format!(r##"r#"{}"# => {}"##, name, expr2code(expr))
+    format!("{} => {}", str2code(name), expr2code(expr))
+}
+
+fn str2code(s: &str) -> String {
+    //  a raw string can't have all chars
+    if s.contains("\"#") || s.contains('\r') {
+        format!("{:?}", s)
+    } else {
+        format!(r##"r#"{}"#"##, s)
+    }
 }
 
 fn expr2code(expr: &Expression) -> String {
@@ -72,7 +81,7 @@ fn expr2code(expr: &Expression) -> String {
         Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
         Expression::Not(e) => format!("not!({})", expr2code(e)),
         Expression::Repeat(rep) => repeat2code(rep),
-        Expression::RuleName(rname) => format!(r##"ref_rule!(r#"{}"#)"##, rname),
+        Expression::RuleName(rname) => format!("ref_rule!({})", str2code(rname)),
     }
 }
 
@@ -106,12 +115,7 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
         }
     }
 
-    //  a raw string can't have all chars
-    let chars = if mrules.0.contains("\"#") || mrules.0.contains('\r') {
-        format!("{:?}", mrules.0)
-    } else {
-        format!(r##"r#"{}"#"##, mrules.0)
-    };
+    let chars = str2code(&mrules.0);
 
     let bounds = if mrules.1.is_empty() {
         ", from2 vec![]".to_string() // the macro needs bounds
-- 
2.43.0

