From 8cdc4072c37b32f0d66144741446603737754fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 01/11] fix: count characters and bytes separately so non-ASCII
 text parses

pos.n counts characters but was compared with the byte length of the input
and used to slice it: non-ASCII text was rejected as not fully consumed, or
panicked on a char boundary when an error was built.
---
 src/lib.rs        | 2 +-
 src/parser/mod.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..a6d42a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..6f1cc45 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -160,10 +160,13 @@ mod test;
 //-----------------------------------------------------------------------
 impl Error {
     pub(crate) fn from_status(status: &Status, descr: &str, prior: ErrPriority) -> Self {
+        //  pos counts chars, slicing a str needs bytes
+        let parsed = status.text2parse.len() - status.it_parsing.as_str().len();
+        let line_start = status.text2parse[..parsed].rfind('\n').map_or(0, |i| i + 1);
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: status.text2parse[line_start..parsed].to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From 95e0d2659b361f6b28801e8c6f22b50314af5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 02/11] fix: a repetition with max 0 was unbounded

---
 src/parser/expression/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..e94ad5a 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -300,6 +300,11 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
         None => false,
     };
 
+    //  the max bound is checked after each repetition, zero has to be checked before
+    if let Some(NRep(0)) = rep_info.max {
+        return Ok((status, vec![]));
+    }
+
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-- 
2.43.0


From b9f7d4ba0aef6e4fb75652d779189da6e80354a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 03/11] fix: unbounded repetition of an expression matching
 nothing never ended

---
 src/parser/expression/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index e94ad5a..8112525 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -321,6 +321,12 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
             //     &acc.0,
             //     &format!("inside repeat {:#?}", e),
             // ))),
+            //  without max bound, repeating something that consumes nothing would never end
+            (Ok((ref status, _)), true, _)
+                if rep_info.max.is_none() && status.pos.n == acc.0.pos.n =>
+            {
+                TailCall::Return(Ok((acc.0, acc.2)))
+            }
             (Ok((status, vnodes)), _, false) => {
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
-- 
2.43.0


From da5cc18b85cac90abf1758463d8ad95b78655579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 04/11] fix: report left recursion instead of overflowing the
 stack

---
 src/parser/expression/mod.rs | 12 +++++++++++-
 src/parser/mod.rs            | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 8112525..5e49e2e 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -194,7 +194,17 @@ fn parse_rule_name<'a>(status: Status<'a>, rule_name: &str) -> Result<'a> {
             ErrPriority::Critical,
         )
     })?;
-    let (st, nodes) = parse_expr(status, &expression)?;
+    //  entering again in a rule without consuming anything, would never end
+    let outer_rules = status.open_rules.clone();
+    let status = status.open_rule(rule_name).map_err(|st| {
+        Error::from_status(
+            &st,
+            &format!("Left recursion in rule: {}", rule_name),
+            ErrPriority::Critical,
+        )
+    })?;
+    let (mut st, nodes) = parse_expr(status, &expression)?;
+    st.open_rules = outer_rules;
 
     // let elapsed = start.elapsed();
     // println!(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6f1cc45..e191726 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -99,6 +99,10 @@ pub(crate) struct Status<'a> {
     /// too expensive. For use just to debug errors
     pub(crate) trace_rules: bool,
     pub(crate) walking_rules: Vec<String>,
+
+    /// Position, and rules entered on it (and still not finished)
+    /// Necessary to detect left recursion
+    pub(crate) open_rules: (usize, Vec<String>),
 }
 
 impl<'a> Status<'a> {
@@ -109,6 +113,7 @@ impl<'a> Status<'a> {
             pos: Possition::init(),
             trace_rules: false,
             walking_rules: vec![],
+            open_rules: (0, vec![]),
             rules,
             potential_error: None,
         }
@@ -125,6 +130,7 @@ impl<'a> Status<'a> {
             pos: Possition::init(),
             trace_rules,
             walking_rules: vec![],
+            open_rules: (0, vec![]),
             rules,
             potential_error: None,
         }
@@ -133,6 +139,16 @@ impl<'a> Status<'a> {
         self.walking_rules.push(on_node.to_string());
         self
     }
+    pub(crate) fn open_rule(mut self, rule_name: &str) -> result::Result<Self, Self> {
+        if self.open_rules.0 != self.pos.n {
+            self.open_rules = (self.pos.n, vec![]);
+        }
+        if self.open_rules.1.iter().any(|r| r == rule_name) {
+            return Err(self);
+        }
+        self.open_rules.1.push(rule_name.to_string());
+        Ok(self)
+    }
     pub(crate) fn set_potential_error(mut self, err: Error) -> Self {
         self.potential_error = Some(err);
         self
-- 
2.43.0


From b6ef8f7d72d5c7c96f00e07339482ffe24083bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 05/11] fix: matching end of file gives the EOF node, not a
 value with the text EOF

---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From cd0b0af884512cd82009a824a036bacf197399de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 06/11] fix: backslashes in single quoted literals were doubled

They were doubled when reading the grammar because the code generator did
not escape them. Now the literal is the text between the quotes, and the
generator escapes everything that needs it in a rust string.
---
 src/peg/gcode.rs | 11 ++---------
 src/peg/mod.rs   |  2 +-
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..b8adec5 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -83,16 +83,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({:?})", s),
+        Atom::Error(s) => format!("error!({:?})", s),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..116a2ba 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -790,7 +790,7 @@ fn consume_literal_no_esc(
         let (nodes, context) = consume_single_quote(nodes, context)?;
         let (val, nodes) = flat::consume_val(nodes)?;
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From 968f8a8752b8eb03636255646a15c70bc56cd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 07/11] fix: generated code for classes did not compile without
 ranges or with special chars

---
 src/peg/gcode.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index b8adec5..1143cb0 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -96,17 +96,18 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
     fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
         match bounds.split_first() {
             Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
+                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
             }
             None => acc,
         }
     }
 
-    format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
+    let bounds = if mrules.1.is_empty() {
+        ", from2 vec![]".to_string()
+    } else {
         bounds2code(String::new(), &mrules.1)
-    )
+    };
+    format!("ematch!(chlist {:?}  {})", &mrules.0, bounds)
 }
 
 fn repeat2code(rep: &expression::RepInfo) -> String {
-- 
2.43.0


From 568c9f5afdca7e783ac4384fd00bd28edce3e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 08/11] fix: the empty single quoted literal was rejected

---
 src/peg/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 116a2ba..b52bb86 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,11 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        //  there is no val on empty literals
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes),
+        };
 
         let val = val.to_string();
         let vclone = val.clone();
-- 
2.43.0


From 02e548124987de8ee1a849d604a884de44947747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 09/11] fix: a sequence going on after an error(...) was
 refused

---
 src/peg/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index b52bb86..762b0df 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -505,16 +505,28 @@ fn consume_and(
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
                 let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                rec_consume_following_ands(eov, nodes, context)
             }
         })
     }
 
+    //  after an error, the sequence goes on with another "and" node
+    fn rec_consume_following_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                rec_consume_following_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
+
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-- 
2.43.0


From 898ac6fa0e33dd0fa83e54372cb77ebdd171cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 10/11] fix: grammars with thousands of rules, ranges, escaped
 chars or dots exhausted the stack when read

---
 src/peg/mod.rs | 95 ++++++++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 50 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 762b0df..154b275 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -267,30 +267,30 @@ fn consume_grammar(
         let rules = rules.merge(mod_rules);
         Ok((rules, nodes, context))
     }
-    fn rec_consume_rules_or_modules(
+    //  looping, as a grammar can have too many rules for the stack
+    fn consume_rules_or_modules(
         rules: expression::SetOfRules,
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(expression::SetOfRules, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::BeginRule(rule_or_module) => {
-                let (rules, nodes, context) = match rule_or_module.as_ref() {
-                    "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
-                    "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
-                    unknown => Err(error_peg_s(&format!(
-                        "expected rule or module, received: {}",
-                        unknown
-                    ))),
-                }?;
-                rec_consume_rules_or_modules(rules, nodes, context)
-            }
-            _ => Ok((rules, nodes, context)),
+        let mut acc = (rules, nodes, context);
+        while let flat::Node::BeginRule(rule_or_module) = flat::peek_first_node(acc.1)? {
+            let (rules, nodes, context) = acc;
+            acc = match rule_or_module.as_ref() {
+                "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
+                "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
+                unknown => Err(error_peg_s(&format!(
+                    "expected rule or module, received: {}",
+                    unknown
+                ))),
+            }?;
         }
+        Ok(acc)
     }
     //  --------------------------
 
     consuming_rule("grammar", nodes, context, |nodes, context| {
-        rec_consume_rules_or_modules(rules!(), &nodes, context)
+        consume_rules_or_modules(rules!(), &nodes, context)
     })
 }
 
@@ -344,24 +344,21 @@ fn consume_rule_name(
 ) -> result::Result<(String, &[flat::Node], Context), Error> {
     // rule_name       =   '.'?  symbol  ('.' symbol)*
 
-    fn rec_consume_dot_symbol(
-        acc_name: String,
+    fn consume_dot_symbols(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::Val(ch) => {
-                if ch == "." {
-                    let (_, nodes) = flat::consume_val(nodes)?;
-                    let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-                    let acc_name = format!("{}.{}", acc_name, symbol);
-                    rec_consume_dot_symbol(acc_name, nodes, context)
-                } else {
-                    Ok((acc_name, nodes, context))
-                }
+        let mut acc = (String::new(), nodes, context);
+        while let flat::Node::Val(ch) = flat::peek_first_node(acc.1)? {
+            if ch != "." {
+                break;
             }
-            _ => Ok((acc_name, nodes, context)),
+            let (acc_name, nodes, context) = acc;
+            let (_, nodes) = flat::consume_val(nodes)?;
+            let (symbol, nodes, context) = consume_symbol(nodes, context)?;
+            acc = (acc_name + "." + symbol, nodes, context);
         }
+        Ok(acc)
     }
 
     let get_dot_or_empty =
@@ -382,7 +379,7 @@ fn consume_rule_name(
     consuming_rule("rule_name", nodes, context, |nodes, context| {
         let (start_dot, nodes, context) = get_dot_or_empty(nodes, context)?;
         let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-        let (dot_symbol, nodes, context) = rec_consume_dot_symbol(String::new(), nodes, context)?;
+        let (dot_symbol, nodes, context) = consume_dot_symbols(nodes, context)?;
 
         let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
         Ok((str_result, nodes, context))
@@ -718,18 +715,19 @@ fn consume_literal_esc(
         Ok((val.to_string(), nodes, context))
     }
 
-    fn rec_consume_lit_esc_ch(
-        s: String,
+    fn consume_lit_esc_chs(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        let next_node_name = flat::get_nodename(flat::peek_first_node(nodes)?);
-
-        match next_node_name {
-            Ok("_\"") => Ok((s, nodes, context)),
-            _ => {
-                let (v, nodes, context) = consume_element(nodes, context)?;
-                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)
+        let mut acc = (String::new(), nodes, context);
+        loop {
+            match flat::get_nodename(flat::peek_first_node(acc.1)?) {
+                Ok("_\"") => return Ok(acc),
+                _ => {
+                    let (s, nodes, context) = acc;
+                    let (v, nodes, context) = consume_element(nodes, context)?;
+                    acc = (s + &v, nodes, context);
+                }
             }
         }
     }
@@ -737,7 +735,7 @@ fn consume_literal_esc(
     consuming_rule("lit_esc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_quote(nodes, context)?;
 
-        let (val, nodes, context) = rec_consume_lit_esc_ch(String::new(), nodes, context)?;
+        let (val, nodes, context) = consume_lit_esc_chs(nodes, context)?;
 
         let vclone = val.clone();
         push_err!(&format!("lesc:({})", vclone), {
@@ -875,20 +873,17 @@ fn consume_match(
 
     type VecChCh = Vec<(char, char)>;
     consuming_rule("match", nodes, context, |nodes, context| {
-        fn rec_consume_mbetween(
-            acc: Vec<(char, char)>,
+        fn consume_mbetweens(
             nodes: &[flat::Node],
             context: Context,
         ) -> result::Result<(VecChCh, &[flat::Node], Context), Error> {
-            let next_node = flat::peek_first_node(nodes)?;
-            let node_name = flat::get_nodename(next_node);
-            match node_name {
-                Ok("mbetween") => {
-                    let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
-                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
-                }
-                _ => Ok((acc, nodes, context)),
+            let mut acc: (VecChCh, _, _) = (vec![], nodes, context);
+            while let Ok("mbetween") = flat::get_nodename(flat::peek_first_node(acc.1)?) {
+                let (vchars, nodes, context) = acc;
+                let (from_to, nodes, context) = consume_mbetween(nodes, context)?;
+                acc = (vchars.ipush(from_to), nodes, context);
             }
+            Ok(acc)
         }
         //  --------------------------
 
@@ -902,7 +897,7 @@ fn consume_match(
             _ => (None, nodes, context),
         };
 
-        let (vchars, nodes, context) = rec_consume_mbetween(vec![], nodes, context)?;
+        let (vchars, nodes, context) = consume_mbetweens(nodes, context)?;
 
         let (expr, nodes) = match (omchars, vchars.is_empty()) {
             (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
-- 
2.43.0


From 6b6eb275d66376f747dd4034d31696e1950756a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 11/11] fix: generating code for classes with thousands of
 ranges exhausted the stack

---
 src/peg/gcode.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 1143cb0..8166a4f 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -93,19 +93,17 @@ fn atom2code(atom: &Atom) -> String {
 }
 
 fn match_rules2code(mrules: &atom::MatchRules) -> String {
-    fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
-        match bounds.split_first() {
-            Some(((f, t), rest)) => {
-                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
-            }
-            None => acc,
-        }
+    fn bounds2code(bounds: &[(char, char)]) -> String {
+        bounds
+            .iter()
+            .map(|(f, t)| format!(", from {:?}, to {:?} ", f, t))
+            .collect()
     }
 
     let bounds = if mrules.1.is_empty() {
         ", from2 vec![]".to_string()
     } else {
-        bounds2code(String::new(), &mrules.1)
+        bounds2code(&mrules.1)
     };
     format!("ematch!(chlist {:?}  {})", &mrules.0, bounds)
 }
-- 
2.43.0

