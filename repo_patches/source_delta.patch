From c5f2c3911796a3e66f509d6e82240194ae59e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:09 +0000
Subject: [PATCH 01/49] verif: native entry points behind --cfg bq2cst_verif

---
 src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4b7a678..43f473a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 // https://github.com/rustwasm/wasm-bindgen/issues/2882
 #![allow(non_upper_case_globals)]
+// `bq2cst_verif` is not declared in Cargo.toml
+#![allow(unexpected_cfgs)]
 
 mod constants;
 mod cst;
@@ -57,3 +59,21 @@ pub fn tokenize(code: String) -> Result<JsValue, JsValue> {
         .serialize(&s)
         .expect("Problem converting tokens to json."))
 }
+
+// Entry points for the verification harness, which runs natively and therefore cannot use
+// `JsValue`. Compiled only with `--cfg bq2cst_verif`.
+#[cfg(bq2cst_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use serde::Serialize;
+
+    pub fn tokenize(code: String) -> Result<impl Serialize, impl Serialize> {
+        crate::lexer::Lexer::new(code).tokenize_code()
+    }
+    pub fn parse(code: String) -> Result<impl Serialize, impl Serialize> {
+        match crate::lexer::Lexer::new(code).tokenize_code() {
+            Ok(tokens) => crate::parser::Parser::new(tokens).parse_code(),
+            Err(bq2cst_error) => Err(bq2cst_error),
+        }
+    }
+}
-- 
2.43.0


From a56f30dedfc4a9716b009b32d797adbe6af2fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:18 +0000
Subject: [PATCH 02/49] fix: bind unary +, - and ~ looser than field access

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..691bdfc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -459,7 +459,8 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    // NOTE 103 is a little greater than `.` (field access)
+                    let right = self.parse_expr(103, false, false, false, true)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0


From 14ba5e423bfa47550fae45376af113afaa730cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:45 +0000
Subject: [PATCH 03/49] fix: do not panic when the code begins with <

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..d552a3d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,10 +153,10 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
-                        self.type_declaration_depth += 1;
+                    if let Some(last_token) = self.tokens.last() {
+                        if last_token.in_(&vec!["ARRAY", "STRUCT"]) {
+                            self.type_declaration_depth += 1;
+                        }
                     }
                     self.next_char()?;
                     self.construct_token(line, column, ch.to_string())
-- 
2.43.0


From ed1389003d3ae8c42a029747e6f73a0217eb4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:48 +0000
Subject: [PATCH 04/49] fix: count < of a type after a comment or RANGE

---
 src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d552a3d..3b66233 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,8 +153,8 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if let Some(last_token) = self.tokens.last() {
-                        if last_token.in_(&vec!["ARRAY", "STRUCT"]) {
+                    if let Some(last_token) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
+                        if last_token.in_(&vec!["ARRAY", "RANGE", "STRUCT"]) {
                             self.type_declaration_depth += 1;
                         }
                     }
-- 
2.43.0


From f2a162bb0cfe3fcbd3b78240e0a62e988edd5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:53 +0000
Subject: [PATCH 05/49] fix: do not treat /*/ as a whole comment

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 3b66233..283c6d9 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -312,6 +312,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * ->
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From 06b5e42ee69e1896ef82e9558cfd07dd4e65385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:57 +0000
Subject: [PATCH 06/49] fix: close an empty template such as {} or {{}}

---
 src/lexer.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 283c6d9..6440582 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -222,15 +222,8 @@ impl Lexer {
                     // maybe it is pattern quantifier like {m,n}
                     self.construct_token(line, column, ch.to_string())
                 } else {
-                    let mut end = false;
-                    'outer: while !end {
+                    while !(0..count).all(|i| self.get_char(i) == Some('}')) {
                         self.next_char()?;
-                        for i in 0..count {
-                            if self.get_char(i) != Some('}') {
-                                continue 'outer;
-                            };
-                        }
-                        end = true
                     }
                     for _ in 0..count {
                         self.next_char()?
-- 
2.43.0


From 18bb068619276caa3c4056acbfd921c7e3f99b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:04 +0000
Subject: [PATCH 07/49] fix: do not panic when EOF is found instead of an
 identifier

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 691bdfc..14f2bb6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -939,6 +939,12 @@ impl Parser {
         // This method is used to parse only identifier.
         // If you want to parse table function, you have to use parse_expr().
         fn parse_single_or_multi_token_identifier(parser: &mut Parser) -> BQ2CSTResult<Node> {
+            if parser.is_eof(0) {
+                return Err(BQ2CSTError::from_token(
+                    parser.get_token(0)?,
+                    "Followed by unexpected EOF".to_string(),
+                ));
+            }
             let mut root = parser.construct_node(NodeType::Identifier)?;
             let mut trailing_idents = vec![];
             loop {
-- 
2.43.0


From d2462ffa7a170e5e06b9da8359c72ce01db70e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:10 +0000
Subject: [PATCH 08/49] fix: allow NOT NULL after DEFAULT

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 14f2bb6..f172e67 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -128,7 +128,7 @@ impl Parser {
             "=" | "<" | ">" | "<=" | ">=" | "!=" | "<>" | "LIKE" | "BETWEEN" | "IN" | "IS" => 109,
             "NOT" => match self.get_token(offset + 1)?.literal.to_uppercase().as_str() {
                 "IN" | "LIKE" | "BETWEEN" => 109,
-                "ENFORCED" => usize::MAX,
+                "ENFORCED" | "NULL" => usize::MAX,
                 _ => {
                     return Err(BQ2CSTError::from_token(
                         self.get_token(offset + 1)?,
-- 
2.43.0


From 41bec08c10be3cf33944037db094474d987f3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:15 +0000
Subject: [PATCH 09/49] fix: do not take |> for a part of an identifier

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f172e67..7416cef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -956,7 +956,7 @@ impl Parser {
                     Ok(n) => n,
                     Err(_) => break, // in the case of EOF
                 };
-                if next_token.in_(&vec![",", ".", "(", ")", ";"]) {
+                if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
                     break;
                 }
                 if !(curr_token.literal.chars().last().unwrap() == '.')
-- 
2.43.0


From 0fe4fbcc59beaebb8a7594eeda4c5d1e052c8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:21 +0000
Subject: [PATCH 10/49] fix: apply |> to the whole query instead of its last ()

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7416cef..bfbe56e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2073,7 +2073,7 @@ impl Parser {
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
-            } else if self.get_token(1)?.is("|>") {
+            } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
                 return self.parse_pipe_statement(node);
             }
-- 
2.43.0


From e6bfa193b5e764e3c0ae40ff9c3c6de18b1a6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:45 +0000
Subject: [PATCH 11/49] fix: allow a pattern quantifier without the upper limit

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bfbe56e..d10641c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1971,8 +1971,10 @@ impl Parser {
         if self.get_token(1)?.is(",") {
             self.next_token()?; // -> ,
             quantifier.push_node("comma", self.construct_node(NodeType::Symbol)?);
-            self.next_token()?; // -> n
-            quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            if !self.get_token(1)?.is("}") {
+                self.next_token()?; // -> n
+                quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            }
         }
         self.next_token()?; // -> }
         quantifier.push_node("rbrace", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0


From 1fd83120762c9830e3a1a823941a211211ec94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 12/49] fix: do not take OPTIONS(...) for an alias of a cloned
 table

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d10641c..b30b691 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1293,11 +1293,12 @@ impl Parser {
             left.node_type = NodeType::CallingTableFunction; // EXTERNAL_QUERY() is included
         }
         // alias
-        // NOTE PIVOT, UNPIVOT and MATCH_RECOGNIZE are not reserved keywords
+        // NOTE PIVOT, UNPIVOT, MATCH_RECOGNIZE and OPTIONS are not reserved keywords
         if !(self
             .get_token(1)?
             .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE"])
-            && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"]))
+            && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"])
+            || self.get_token(1)?.is("OPTIONS") && self.get_token(2)?.is("("))
         {
             left = self.push_trailing_alias(left)?;
         }
-- 
2.43.0


From f802de7b07c0c9817baf9eadc5a620fd424f5340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:59 +0000
Subject: [PATCH 13/49] fix: distinguish set operators such as LEFT UNION from
 joins

---
 src/parser.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b30b691..846d799 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -181,6 +181,21 @@ impl Parser {
         };
         self.tokens.len() - 1 <= idx
     }
+    /// Whether the following tokens are a set operator (e.g. `UNION`, `LEFT OUTER UNION`) or not.
+    fn is_set_operator(&self) -> BQ2CSTResult<bool> {
+        let operators = vec!["UNION", "INTERSECT", "EXCEPT"];
+        let mut offset = 1;
+        if self
+            .get_token(offset)?
+            .in_(&vec!["INNER", "FULL", "LEFT", "OUTER"])
+        {
+            offset += 1;
+            if self.get_token(offset)?.is("OUTER") {
+                offset += 1;
+            }
+        }
+        Ok(self.get_token(offset)?.in_(&operators))
+    }
     fn next_token(&mut self) -> BQ2CSTResult<()> {
         // leading comments
         self.leading_comment_indices = Vec::new();
@@ -1375,7 +1390,8 @@ impl Parser {
         // JOIN
         while self.get_token(1)?.in_(&vec![
             "left", "right", "cross", "inner", "full", "join", ",",
-        ]) && root
+        ]) && !self.is_set_operator()?
+            && root
         {
             self.next_token()?; // table -> LEFT, RIGHT, INNER, CROSS, FULL, JOIN, ","
             let mut join = if self.get_token(0)?.in_(&vec!["join", ","]) {
@@ -2034,16 +2050,7 @@ impl Parser {
                 ));
             }
             node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-            while self.get_token(1)?.in_(&vec![
-                "UNION",
-                "INTERSECT",
-                "EXCEPT",
-                "INNER",
-                "FULL",
-                "LEFT",
-                "OUTER",
-            ]) && root
-            {
+            while self.is_set_operator()? && root {
                 self.next_token()?;
                 node = self.parse_set_operator(node)?;
             }
@@ -2232,16 +2239,7 @@ impl Parser {
             node.push_node("limit", limit);
         }
         // UNION
-        while self.get_token(1)?.in_(&vec![
-            "UNION",
-            "INTERSECT",
-            "EXCEPT",
-            "INNER",
-            "FULL",
-            "LEFT",
-            "OUTER",
-        ]) && root
-        {
+        while self.is_set_operator()? && root {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
-- 
2.43.0


From d46569cf6a5dff48c04f167d6dc177818fff1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 14/49] fix: allow both EXCEPT and REPLACE after *

---
 src/parser.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 846d799..3e80a1b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -369,24 +369,19 @@ impl Parser {
             match self.get_token(0)?.literal.to_uppercase().as_str() {
                 "*" => {
                     left.node_type = NodeType::Asterisk;
-                    match self.get_token(1)?.literal.to_uppercase().as_str() {
-                        "REPLACE" => {
-                            self.next_token()?; // * -> REPLACE
-                            let mut replace =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // REPLACE -> (
-                            replace.push_node("group", self.parse_grouped_exprs(true)?);
-                            left.push_node("replace", replace);
-                        }
-                        "EXCEPT" => {
-                            self.next_token()?; // * -> except
-                            let mut except =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // except -> (
-                            except.push_node("group", self.parse_grouped_exprs(false)?);
-                            left.push_node("except", except);
-                        }
-                        _ => (),
+                    if self.get_token(1)?.is("EXCEPT") {
+                        self.next_token()?; // * -> except
+                        let mut except = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // except -> (
+                        except.push_node("group", self.parse_grouped_exprs(false)?);
+                        left.push_node("except", except);
+                    }
+                    if self.get_token(1)?.is("REPLACE") {
+                        self.next_token()?; // -> REPLACE
+                        let mut replace = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // REPLACE -> (
+                        replace.push_node("group", self.parse_grouped_exprs(true)?);
+                        left.push_node("replace", replace);
                     }
                 }
                 // STRUCT
-- 
2.43.0


From 64a7c4e66c23ff6b81f135d9a153a462fd2cc57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:11 +0000
Subject: [PATCH 15/49] fix: allow BREAK, CONTINUE and a label to be the last
 token

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3e80a1b..fa2171e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4118,7 +4118,7 @@ impl Parser {
         };
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> trailing_label
             stmt.push_node("trailing_label", self.construct_node(NodeType::Identifier)?);
         }
@@ -4130,7 +4130,7 @@ impl Parser {
     }
     fn parse_break_continue_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut node = self.construct_node(NodeType::BreakContinueStatement)?;
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> label
             node.push_node("label", self.construct_node(NodeType::Identifier)?);
         }
-- 
2.43.0


From 937207d51714fa6cdadb9ad51834b3177daf9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:17 +0000
Subject: [PATCH 16/49] fix: do not accept (and lose) ; after USING clause of
 MERGE

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fa2171e..4c74ef0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2650,10 +2650,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From a231294e1b326a1d72aacec10258fbac2424adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:12 +0000
Subject: [PATCH 17/49] fix: do not let a nested pipe query take the ; of the
 outer statement

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4c74ef0..03e8bb7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -318,7 +318,7 @@ impl Parser {
         let mut grouped = self.construct_node(NodeType::GroupedStatement)?;
         self.next_token()?; // ( -> SELECT | FROM
         if self.get_token(0)?.is("FROM") {
-            grouped.push_node("stmt", self.parse_from_statement()?);
+            grouped.push_node("stmt", self.parse_from_statement(false)?);
         } else {
             grouped.push_node("stmt", self.parse_select_statement(false, true)?);
         }
@@ -1114,7 +1114,7 @@ impl Parser {
                 // actually, it may be pipe syntax
                 self.parse_select_statement(semicolon, true)?
             }
-            "FROM" => self.parse_from_statement()?, // pipe syntax
+            "FROM" => self.parse_from_statement(semicolon)?, // pipe syntax
             // DML
             "INSERT" => self.parse_insert_statement(semicolon)?,
             "DELETE" => self.parse_delete_statement(semicolon)?,
@@ -2033,7 +2033,7 @@ impl Parser {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
             self.next_token()?; // ( -> SELECT
             if self.get_token(0)?.is("FROM") {
-                node.push_node("stmt", self.parse_from_statement()?);
+                node.push_node("stmt", self.parse_from_statement(false)?);
             } else {
                 node.push_node("stmt", self.parse_select_statement(false, true)?);
             }
@@ -2080,7 +2080,7 @@ impl Parser {
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
             } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
-                return self.parse_pipe_statement(node);
+                return self.parse_pipe_statement(node, semicolon);
             }
             return Ok(node);
         }
@@ -2088,7 +2088,7 @@ impl Parser {
             let with = self.parse_with_clause()?;
             self.next_token()?; // -> SELECT | '(' | FROM
             let mut node = if self.get_token(0)?.is("FROM") {
-                self.parse_from_statement()?
+                self.parse_from_statement(semicolon)?
             } else {
                 self.parse_select_statement(semicolon, true)?
             };
@@ -2244,27 +2244,27 @@ impl Parser {
             node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         } else if self.get_token(1)?.is("|>") && root {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(node);
+            return self.parse_pipe_statement(node, semicolon);
         }
         Ok(node)
     }
-    fn parse_from_statement(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
         from.push_node("expr", self.parse_table(true)?);
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(from);
+            return self.parse_pipe_statement(from, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             from.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
         Ok(from)
     }
-    fn parse_pipe_statement(&mut self, left: Node) -> BQ2CSTResult<Node> {
+    fn parse_pipe_statement(&mut self, left: Node, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut pipe = self.construct_node(NodeType::PipeStatement)?;
         pipe.push_node("left", left);
         self.next_token()?; // -> SELECT | LIMIT | ...
@@ -2304,10 +2304,10 @@ impl Parser {
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(pipe);
+            return self.parse_pipe_statement(pipe, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             pipe.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
-- 
2.43.0


From 5f05910703d7669a2243642d3d557528ea0574e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:18 +0000
Subject: [PATCH 18/49] fix: parse FROM query at the end of another statement

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 03e8bb7..616c67c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2095,6 +2095,9 @@ impl Parser {
             node.push_node("with", with);
             return Ok(node);
         }
+        if self.get_token(0)?.is("FROM") && root {
+            return self.parse_from_statement(semicolon); // pipe syntax
+        }
         // SELECT
         let mut node = self.construct_node(NodeType::SelectStatement)?;
 
-- 
2.43.0


From 496229ed8d05daf77d52e1412ef950053d9e0eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:25 +0000
Subject: [PATCH 19/49] fix: allow ORDER BY and LIMIT after SELECT ... UNION
 ALL (SELECT ...)

---
 src/parser.rs | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 616c67c..e2b397c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2027,6 +2027,25 @@ impl Parser {
         }
         Ok(node)
     }
+    fn parse_limit_clause(&mut self) -> BQ2CSTResult<Node> {
+        let mut limit = self.construct_node(NodeType::LimitClause)?;
+        self.next_token()?; // -> expr
+        limit.push_node(
+            "expr",
+            self.parse_expr(usize::MAX, false, false, false, true)?,
+        );
+        if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
+            self.next_token()?; // expr -> OFFSET
+            let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
+            self.next_token()?; // OFFSET -> expr
+            offset.push_node(
+                "expr",
+                self.parse_expr(usize::MAX, false, false, false, true)?,
+            );
+            limit.push_node("offset", offset);
+        }
+        Ok(limit)
+    }
     // ----- SELECT statement -----
     fn parse_select_statement(&mut self, semicolon: bool, root: bool) -> BQ2CSTResult<Node> {
         if self.get_token(0)?.literal.to_uppercase() == "(" {
@@ -2057,23 +2076,7 @@ impl Parser {
             // LIMIT
             if self.get_token(1)?.is("LIMIT") && root {
                 self.next_token()?; // -> LIMIT
-                let mut limit = self.construct_node(NodeType::LimitClause)?;
-                self.next_token()?; // -> expr
-                limit.push_node(
-                    "expr",
-                    self.parse_expr(usize::MAX, false, false, false, true)?,
-                );
-                if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
-                    self.next_token()?; // expr -> OFFSET
-                    let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
-                    self.next_token()?; // OFFSET -> expr
-                    offset.push_node(
-                        "expr",
-                        self.parse_expr(usize::MAX, false, false, false, true)?,
-                    );
-                    limit.push_node("offset", offset);
-                }
-                node.push_node("limit", limit);
+                node.push_node("limit", self.parse_limit_clause()?);
             }
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
@@ -2218,29 +2221,24 @@ impl Parser {
         // LIMIT
         if self.get_token(1)?.is("LIMIT") {
             self.next_token()?; // expr -> LIMIT
-            let mut limit = self.construct_node(NodeType::LimitClause)?;
-            self.next_token()?; // LIMIT -> expr
-            limit.push_node(
-                "expr",
-                self.parse_expr(usize::MAX, false, false, false, true)?,
-            );
-            if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
-                self.next_token()?; // expr -> OFFSET
-                let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
-                self.next_token()?; // OFFSET -> expr
-                offset.push_node(
-                    "expr",
-                    self.parse_expr(usize::MAX, false, false, false, true)?,
-                );
-                limit.push_node("offset", offset);
-            }
-            node.push_node("limit", limit);
+            node.push_node("limit", self.parse_limit_clause()?);
         }
         // UNION
         while self.is_set_operator()? && root {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
+        // e.g. SELECT 1 UNION ALL (SELECT 2) ORDER BY 1 LIMIT 1
+        if node.node_type == NodeType::SetOperator {
+            if self.get_token(1)?.is("ORDER") {
+                self.next_token()?; // -> ORDER
+                node.push_node("orderby", self.parse_xxxby_exprs()?);
+            }
+            if self.get_token(1)?.is("LIMIT") {
+                self.next_token()?; // -> LIMIT
+                node.push_node("limit", self.parse_limit_clause()?);
+            }
+        }
         // ;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // expr -> ;
-- 
2.43.0


From b86deb75aca36f74a96fe0a8c5ee26bf2e9cc18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:33 +0000
Subject: [PATCH 20/49] fix: treat RANGE(...) as a function call

---
 src/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e2b397c..e67526c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -430,11 +430,14 @@ impl Parser {
                     left = struct_literal;
                 }
                 "RANGE" => {
-                    let type_ = self.parse_type(false, false)?;
-                    self.next_token()?; // > -> '[lower, upper)'
-                    let mut range_literal = self.construct_node(NodeType::RangeLiteral)?;
-                    range_literal.push_node("type", type_);
-                    left = range_literal;
+                    // when used as literal
+                    if !self.get_token(1)?.is("(") {
+                        let type_ = self.parse_type(false, false)?;
+                        self.next_token()?; // > -> '[lower, upper)'
+                        let mut range_literal = self.construct_node(NodeType::RangeLiteral)?;
+                        range_literal.push_node("type", type_);
+                        left = range_literal;
+                    }
                 }
                 // ARRAY
                 "[" => {
-- 
2.43.0


From 6c92799a337e1b45d3926e7eef8e6bead3983403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 21/49] fix: allow an anonymous parameterized type in STRUCT<>

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e67526c..571cd92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1460,7 +1460,7 @@ impl Parser {
                     let mut type_declarations = Vec::new();
                     while !self.get_token(0)?.is(">") {
                         let mut type_declaration;
-                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<"]) {
+                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<", "("]) {
                             // `is_identifier` is not availabe here,
                             // because `int64` is valid identifier
                             type_declaration = self.construct_node(NodeType::TypeDeclaration)?;
-- 
2.43.0


From 232299aedb4c6dc4b91cda2805d636786dcafb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 22/49] fix: do not lose NOT ENFORCED when both PRIMARY KEY and
 REFERENCES are given

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 571cd92..3b4cbf1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1528,8 +1528,7 @@ impl Parser {
                 self.next_token()?; // -> NOT | ENFORCED
                 res.push_node("enforced", self.parse_enforced()?);
             }
-        }
-        if self.get_token(1)?.is("REFERENCES") {
+        } else if self.get_token(1)?.is("REFERENCES") {
             self.next_token()?; // -> REFERENCES
             let mut references = self.construct_node(NodeType::KeywordWithExpr)?;
             self.next_token()?; // -> ident
-- 
2.43.0


From df367aca53499bc2dfcd69854d266d842a683b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 23/49] fix: apply [] to the whole chained function call

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3b4cbf1..fb8c8cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -117,7 +117,8 @@ impl Parser {
         // 200... => (ST_GEOGFROMGEOJSON)
         let precedence = match self.get_token(offset)?.literal.to_uppercase().as_str() {
             // return precedence of BINARY operator
-            "(" | "[" => 101,
+            "(" => 101,
+            "[" => 102, // so that `[]` is applied to the whole chained function call
             "." => 102, // when used with chained function call (otherwise 101)
             "*" | "/" | "||" => 103,
             "+" | "-" => 104,
-- 
2.43.0


From 58dca22737f8d37aea40a6f5e3f21b23fb73c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:05 +0000
Subject: [PATCH 24/49] fix: parse WITH expression enclosed by ()

---
 src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fb8c8cc..fd0ab16 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -389,7 +389,10 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT"]) {
+                    // NOTE `WITH (` is the beginning of WITH expression
+                    if self.get_token(0)?.is("SELECT")
+                        || self.get_token(0)?.is("WITH") && !self.get_token(1)?.is("(")
+                    {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_select_statement(false, true)?);
                         self.next_token()?; // expr -> )
@@ -1014,7 +1017,10 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH"]) {
+            // NOTE `WITH (` is the beginning of WITH expression
+            if self.get_token(1)?.is("SELECT")
+                || self.get_token(1)?.is("WITH") && !self.get_token(2)?.is("(")
+            {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH
                 lparen.push_node("stmt", self.parse_select_statement(false, true)?);
-- 
2.43.0


From 9cc231979858f3eba456899f61b11ae97d6c7622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:02 +0000
Subject: [PATCH 25/49] fix: parse FROM query used as an expression

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fd0ab16..c2639fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -390,7 +390,7 @@ impl Parser {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
                     // NOTE `WITH (` is the beginning of WITH expression
-                    if self.get_token(0)?.is("SELECT")
+                    if self.get_token(0)?.in_(&vec!["SELECT", "FROM"])
                         || self.get_token(0)?.is("WITH") && !self.get_token(1)?.is("(")
                     {
                         left.node_type = NodeType::GroupedStatement;
@@ -525,7 +525,7 @@ impl Parser {
                         left = self.parse_select_statement(false, true)?;
                     }
                 }
-                "SELECT" => {
+                "SELECT" | "FROM" => {
                     // in the case of `ARRAY(SELECT 1)`
                     left = self.parse_select_statement(false, true)?;
                 }
@@ -1018,7 +1018,7 @@ impl Parser {
         } else {
             self.next_token()?; // IN -> (
             // NOTE `WITH (` is the beginning of WITH expression
-            if self.get_token(1)?.is("SELECT")
+            if self.get_token(1)?.in_(&vec!["SELECT", "FROM"])
                 || self.get_token(1)?.is("WITH") && !self.get_token(2)?.is("(")
             {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
-- 
2.43.0


From cf3cb78eb08af1d0d0eeb8b1d3fd9d430793803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:28 +0000
Subject: [PATCH 26/49] fix: do not panic when an identifier is followed by .
 and EOF

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c2639fe..af9b139 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -969,10 +969,10 @@ impl Parser {
                 if curr_token.literal.chars().next().unwrap() == '`' {
                     break;
                 }
-                let next_token = match parser.get_token(1) {
-                    Ok(n) => n,
-                    Err(_) => break, // in the case of EOF
-                };
+                if parser.is_eof(1) {
+                    break;
+                }
+                let next_token = parser.get_token(1)?;
                 if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
                     break;
                 }
-- 
2.43.0


From 8ef7c8a71f2c2b7944e5a488ef8f335b77461c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:20 +0000
Subject: [PATCH 27/49] fix: parse nested tables quoted by () in polynomial
 time

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index af9b139..7635d3d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,6 +6,7 @@ use crate::cst::Node;
 use crate::cst::NodeType;
 use crate::error::{BQ2CSTError, BQ2CSTResult};
 use crate::token::Token;
+use std::collections::HashSet;
 
 #[derive(Clone)]
 pub struct Parser {
@@ -13,6 +14,7 @@ pub struct Parser {
     leading_comment_indices: Vec<usize>,
     trailing_comment_indices: Vec<usize>,
     tokens: Vec<Token>,
+    not_statement_positions: HashSet<usize>, // positions of `(` which turned out not to be a statement
 }
 
 impl Parser {
@@ -22,6 +24,7 @@ impl Parser {
             leading_comment_indices: Vec::new(),
             trailing_comment_indices: Vec::new(),
             tokens,
+            not_statement_positions: HashSet::new(),
         };
         while p.tokens[p.position].is_comment() {
             p.leading_comment_indices.push(p.position);
@@ -1269,7 +1272,7 @@ impl Parser {
                         break;
                     }
                 }
-                if statement_flg {
+                if statement_flg && !self.not_statement_positions.contains(&self.position) {
                     let org = self.clone();
                     group = match self.parse_select_statement(false, false) {
                         Ok(stmt) => stmt,
@@ -1281,6 +1284,8 @@ impl Parser {
                             self.leading_comment_indices = org.leading_comment_indices;
                             self.trailing_comment_indices = org.trailing_comment_indices;
                             self.tokens = org.tokens;
+                            // otherwise retrying takes exponential time when nested
+                            self.not_statement_positions.insert(self.position);
 
                             // retry
                             let mut group = self.construct_node(NodeType::GroupedExpr)?;
-- 
2.43.0


From b588300aba9694c75c5fd4cb7a2dc1236019f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:12 +0000
Subject: [PATCH 28/49] fix: parse INSERT ... (SELECT ...) without the list of
 columns

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7635d3d..2d457bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2540,7 +2540,11 @@ impl Parser {
             self.next_token()?; // INSERT -> identifier
             insert.push_node("target_name", self.parse_identifier()?);
         }
-        if self.get_token(1)?.is("(") {
+        if self.get_token(1)?.is("(")
+            && !self
+                .get_token(2)?
+                .in_(&vec!["(", "SELECT", "WITH", "FROM"])
+        {
             self.next_token()?; // identifier -> (
             insert.push_node("columns", self.parse_grouped_exprs(false)?);
         }
-- 
2.43.0


From 93363d079fc0c926d5c787992bfb255c4bbd07a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 29/49] fix: report the error of an incomplete subquery in FROM
 instead of retrying it as a table

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2d457bb..873a6fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1277,6 +1277,9 @@ impl Parser {
                     group = match self.parse_select_statement(false, false) {
                         Ok(stmt) => stmt,
 
+                        // no table begins with SELECT, WITH or FROM
+                        Err(err) if !org.get_token(1)?.is("(") => return Err(err),
+
                         // maybe that is a table quoted by ()! not a select statement!
                         Err(_) => {
                             // restore original state
-- 
2.43.0


From 74ff795c3bf849f50e927f37f8b2cf04c1a8e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:13 +0000
Subject: [PATCH 30/49] fix: a table quoted by () has to be closed

---
 src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 873a6fe..0fe236b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1295,6 +1295,12 @@ impl Parser {
                             self.next_token()?; // ( -> table
                             group.push_node("expr", self.parse_table(true)?);
                             self.next_token()?; // -> )
+                            if !self.get_token(0)?.is(")") {
+                                return Err(BQ2CSTError::from_token(
+                                    self.get_token(0)?,
+                                    "expected )".to_string(),
+                                ));
+                            }
                             group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                             group
                         }
@@ -1304,6 +1310,12 @@ impl Parser {
                     self.next_token()?; // ( -> expr
                     group.push_node("expr", self.parse_table(true)?);
                     self.next_token()?; // table -> )
+                    if !self.get_token(0)?.is(")") {
+                        return Err(BQ2CSTError::from_token(
+                            self.get_token(0)?,
+                            "expected )".to_string(),
+                        ));
+                    }
                     group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                 }
                 left = group;
-- 
2.43.0


From c4a0d67f328fa0977ceba9f3870080dd53aae5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:45 +0000
Subject: [PATCH 31/49] fix: the kind of a CREATE or ALTER statement is not
 decided by the next statement

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0fe236b..65d00fc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1160,6 +1160,7 @@ impl Parser {
                             return self.parse_create_search_index_statement(semicolon)
                         }
                         "MODEL" => return self.parse_create_model_statement(semicolon),
+                        ";" => break, // the next statement does not matter
                         _ => {
                             offset += 1;
                             if 5 < offset {
@@ -1191,6 +1192,7 @@ impl Parser {
                             return self.parse_alter_reservation_statement(semicolon)
                         }
                         "MODEL" => return self.parse_alter_model_statement(semicolon),
+                        ";" => break, // the next statement does not matter
                         _ => {
                             offset += 1;
                             if 5 < offset {
-- 
2.43.0


From 3516b35649850e714c3685466a560b6ffe7be93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:31 +0000
Subject: [PATCH 32/49] fix: reject brackets that are not closed by the
 matching bracket

---
 src/parser.rs | 70 +++++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 65d00fc..8e4b906 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,6 +53,16 @@ impl Parser {
         Ok(stmts)
     }
     // ----- core -----
+    fn construct_closing_symbol(&self, literal: &str) -> BQ2CSTResult<Node> {
+        let curr_token = self.get_token(0)?;
+        if !curr_token.is(literal) {
+            return Err(BQ2CSTError::from_token(
+                curr_token,
+                format!("expected {}", literal),
+            ));
+        }
+        self.construct_node(NodeType::Symbol)
+    }
     fn construct_node(&self, node_type: NodeType) -> BQ2CSTResult<Node> {
         // NOTE
         // It is possible to avoid cloning tokens (see #20)
@@ -399,7 +409,7 @@ impl Parser {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_select_statement(false, true)?);
                         self.next_token()?; // expr -> )
-                        left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                        left.push_node("rparen", self.construct_closing_symbol(")")?);
                     } else if self.get_token(0)?.is(")") {
                         left.node_type = NodeType::EmptyStruct;
                         left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
@@ -413,7 +423,7 @@ impl Parser {
                             left.push_node_vec("exprs", exprs);
                         }
                         self.next_token()?; // expr -> )
-                        left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                        left.push_node("rparen", self.construct_closing_symbol(")")?);
                     }
                 }
                 "STRUCT" => {
@@ -431,7 +441,7 @@ impl Parser {
                         exprs.push(expr)
                     }
                     self.next_token()?; // -> )
-                    struct_literal.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    struct_literal.push_node("rparen", self.construct_closing_symbol(")")?);
                     struct_literal.push_node_vec("exprs", exprs);
                     struct_literal.push_node("type", type_);
                     left = struct_literal;
@@ -456,7 +466,7 @@ impl Parser {
                         left.push_node_vec("exprs", self.parse_exprs(&vec![], false, true)?);
                         self.next_token()?; // exprs -> ]
                     }
-                    left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    left.push_node("rparen", self.construct_closing_symbol("]")?);
                 }
                 "ARRAY" => {
                     // when used as literal
@@ -471,7 +481,7 @@ impl Parser {
                             arr.push_node_vec("exprs", self.parse_exprs(&vec![], false, true)?);
                             self.next_token()?; // exprs -> ]
                         }
-                        arr.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                        arr.push_node("rparen", self.construct_closing_symbol("]")?);
                         arr.push_node("type", type_);
                         left = arr;
                     }
@@ -699,7 +709,7 @@ impl Parser {
                         }
                         self.next_token()?; // expr -> )
                     }
-                    node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    node.push_node("rparen", self.construct_closing_symbol(")")?);
                     if self.get_token(1)?.is("over") {
                         self.next_token()?; // ) -> OVER
                         let mut over = self.construct_node(NodeType::OverClause)?;
@@ -719,7 +729,7 @@ impl Parser {
                         self.parse_expr(usize::MAX, false, false, false, true)?,
                     );
                     self.next_token()?; // expr -> ]
-                    node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    node.push_node("rparen", self.construct_closing_symbol("]")?);
                     left = node;
                 }
                 "." => {
@@ -898,7 +908,7 @@ impl Parser {
             group.push_node_vec("exprs", self.parse_exprs(&vec![")"], alias, true)?);
         }
         self.next_token()?; // exprs -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(group)
     }
     fn parse_grouped_type_declaration_or_constraints(
@@ -1028,7 +1038,7 @@ impl Parser {
                 self.next_token()?; // -> SELECT | WITH
                 lparen.push_node("stmt", self.parse_select_statement(false, true)?);
                 self.next_token()?; // -> )
-                lparen.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                lparen.push_node("rparen", self.construct_closing_symbol(")")?);
                 node.push_node("right", lparen);
             } else {
                 node.push_node("right", self.parse_grouped_exprs(false)?);
@@ -1297,13 +1307,7 @@ impl Parser {
                             self.next_token()?; // ( -> table
                             group.push_node("expr", self.parse_table(true)?);
                             self.next_token()?; // -> )
-                            if !self.get_token(0)?.is(")") {
-                                return Err(BQ2CSTError::from_token(
-                                    self.get_token(0)?,
-                                    "expected )".to_string(),
-                                ));
-                            }
-                            group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                            group.push_node("rparen", self.construct_closing_symbol(")")?);
                             group
                         }
                     }
@@ -1312,13 +1316,7 @@ impl Parser {
                     self.next_token()?; // ( -> expr
                     group.push_node("expr", self.parse_table(true)?);
                     self.next_token()?; // table -> )
-                    if !self.get_token(0)?.is(")") {
-                        return Err(BQ2CSTError::from_token(
-                            self.get_token(0)?,
-                            "expected )".to_string(),
-                        ));
-                    }
-                    group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    group.push_node("rparen", self.construct_closing_symbol(")")?);
                 }
                 left = group;
             }
@@ -1474,7 +1472,7 @@ impl Parser {
                     self.next_token()?; // < -> type
                     type_.push_node("type", self.parse_type(schema, false)?);
                     self.next_token()?; // type -> >
-                    type_.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    type_.push_node("rparen", self.construct_closing_symbol(">")?);
                     res.push_node("type_declaration", type_);
                 }
                 res
@@ -1506,7 +1504,7 @@ impl Parser {
                         }
                         type_declarations.push(type_declaration);
                     }
-                    type_.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    type_.push_node("rparen", self.construct_closing_symbol(">")?);
                     type_.push_node_vec("declarations", type_declarations);
                     res.push_node("type_declaration", type_);
                 }
@@ -1685,7 +1683,7 @@ impl Parser {
                 window.push_node("frame", frame)
             }
             self.next_token()?; // -> )
-            window.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+            window.push_node("rparen", self.construct_closing_symbol(")")?);
             Ok(window)
         } else {
             Ok(self.construct_node(NodeType::Identifier)?)
@@ -1779,7 +1777,7 @@ impl Parser {
         self.next_token()?; // -> PERCENT
         group.push_node("percent", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(group)
     }
     fn parse_pivot_config_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1794,7 +1792,7 @@ impl Parser {
         self.next_token()?; // -> IN
         config.push_node("in", self.parse_keyword_with_grouped_exprs(true)?);
         self.next_token()?; // -> )
-        config.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        config.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(config)
     }
     fn parse_unpivot_config_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1849,12 +1847,12 @@ impl Parser {
             exprs.push(expr);
         }
         self.next_token()?; // -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_closing_symbol(")")?);
         group.push_node_vec("exprs", exprs);
         in_.push_node("group", group);
         config.push_node("in", in_);
         self.next_token()?; // -> )
-        config.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        config.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(config)
     }
     fn parse_match_recognize_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1925,7 +1923,7 @@ impl Parser {
             config.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
         };
         self.next_token()?; // -> )
-        config.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        config.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(config)
     }
     fn parse_by_name_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1974,7 +1972,7 @@ impl Parser {
         }
         group.push_node_vec("patterns", patterns);
         self.next_token()?; // -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(group)
     }
     fn parse_pattern(&mut self) -> BQ2CSTResult<Node> {
@@ -2020,7 +2018,7 @@ impl Parser {
             }
         }
         self.next_token()?; // -> }
-        quantifier.push_node("rbrace", self.construct_node(NodeType::Symbol)?);
+        quantifier.push_node("rbrace", self.construct_closing_symbol("}")?);
         Ok(quantifier)
     }
     fn parse_corresponding_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -2821,7 +2819,7 @@ impl Parser {
             all.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
             group.push_node("expr", all);
             self.next_token()?; // -> )
-            group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+            group.push_node("rparen", self.construct_closing_symbol(")")?);
             create.push_node("column_group", group);
         } else {
             create.push_node("column_group", self.parse_grouped_exprs(false)?);
@@ -3117,7 +3115,7 @@ impl Parser {
                     self.parse_expr(usize::MAX, false, false, false, true)?,
                 );
                 self.next_token()?; // expr -> )
-                group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                group.push_node("rparen", self.construct_closing_symbol(")")?);
                 as_.push_node("group", group);
                 node.push_node("as", as_);
             }
@@ -3344,7 +3342,7 @@ impl Parser {
                 self.next_token()?; // -> custom_holiday
                 group.push_node("custom_holiday", self.parse_cte()?);
                 self.next_token()?; // -> )
-                group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                group.push_node("rparen", self.construct_closing_symbol(")")?);
                 as_.push_node("group", group);
                 create.push_node("training_data_custom_holiday", as_)
             } else {
-- 
2.43.0


From 39135fbf7943516d8eb90dfc0df23e9a51298e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:42 +0000
Subject: [PATCH 33/49] fix: a list of columns or arguments is not closed by >

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8e4b906..62ee6ef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -961,7 +961,7 @@ impl Parser {
         if 0 < type_declarations.len() {
             group.push_node_vec("declarations", type_declarations);
         }
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_closing_symbol(")")?);
         Ok(group)
     }
     fn parse_identifier(&mut self) -> BQ2CSTResult<Node> {
-- 
2.43.0


From 47d511f876036e6e90c2828e5743787a87c4a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 34/49] fix: do not take < after a field named array, range or
 struct for a type

---
 src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 6440582..971fe6c 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,8 +153,12 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if let Some(last_token) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
-                        if last_token.in_(&vec!["ARRAY", "RANGE", "STRUCT"]) {
+                    let mut last_tokens = self.tokens.iter().rev().filter(|t| !t.is_comment());
+                    if let Some(last_token) = last_tokens.next() {
+                        // `foo.array` is a field
+                        if last_token.in_(&vec!["ARRAY", "RANGE", "STRUCT"])
+                            && !last_tokens.next().map_or(false, |t| t.is("."))
+                        {
                             self.type_declaration_depth += 1;
                         }
                     }
-- 
2.43.0


From 72924823d31fcb144c5a1bb3580760150797d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 35/49] fix: DEFAULT as a value to be inserted or set was left
 unclassified

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 62ee6ef..f956598 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -88,6 +88,8 @@ impl Parser {
                     node.node_type = NodeType::NullLiteral;
                 } else if let "(" | "." = self.get_token(1)?.literal.as_str() {
                     node.node_type = NodeType::Identifier;
+                } else if curr_token.is("DEFAULT") {
+                    node.node_type = NodeType::Keyword; // e.g. `VALUES (DEFAULT)`
                 }
                 node
             }
-- 
2.43.0


From ab04795a5c2f1984ec816157ec1f13af4fa5e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:01 +0000
Subject: [PATCH 36/49] fix: declare children which may be absent as optional
 in the TypeScript types

---
 src/types.rs | 66 ++++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 89f22f7..16b7843 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -203,7 +203,7 @@ export type Expr = BaseNode & {
 
 export type FromItemExpr = Expr & {
   children: {
-    with_offset: NodeChild;
+    with_offset?: NodeChild;
     pivot?: NodeChild;
     unpivot?: NodeChild;
     match_recognize?: NodeChild;
@@ -284,7 +284,7 @@ export type AlterColumnStatement = BaseNode & {
     if_exists?: NodeVecChild;
     ident: NodeChild;
     // SET
-    set: NodeChild;
+    set?: NodeChild;
     options?: NodeChild;
     data_type?: NodeVecChild;
     type?: NodeChild;
@@ -434,8 +434,8 @@ export type AssertStatement = XXXStatement & {
   node_type: "AssertStatement";
   children: {
     expr: NodeChild;
-    as: NodeChild;
-    description: NodeChild;
+    as?: NodeChild;
+    description?: NodeChild;
   };
 };
 
@@ -697,7 +697,7 @@ export type CreateSchemaStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    default_collate: NodeChild;
+    default_collate?: NodeChild;
     with_connection?: NodeChild;
     options?: NodeChild;
   };
@@ -729,8 +729,8 @@ export type CreateTableStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    like_or_copy: NodeChild;
-    source_table: NodeChild;
+    like_or_copy?: NodeChild;
+    source_table?: NodeChild;
     column_schema_group?: NodeChild;
     default_collate?: NodeChild;
     clone?: NodeChild;
@@ -771,7 +771,7 @@ export type DeclareStatement = XXXStatement & {
 export type DeleteStatement = XXXStatement & {
   node_type: "DeleteStatement";
   children: {
-    from: NodeChild;
+    from?: NodeChild;
     table_name: NodeChild;
     where: NodeChild;
   };
@@ -847,7 +847,7 @@ export type ExecuteStatement = XXXStatement & {
   children: {
     immediate: NodeChild;
     sql_expr: NodeChild;
-    into: NodeChild;
+    into?: NodeChild;
     using?: NodeChild;
   };
 };
@@ -877,8 +877,8 @@ export type ExtractArgument = BaseNode & {
   children: {
     extract_datepart: NodeChild;
     extract_from: NodeChild;
-    at_time_zone: NodeVecChild;
-    time_zone: NodeChild;
+    at_time_zone?: NodeVecChild;
+    time_zone?: NodeChild;
   };
 };
 
@@ -904,7 +904,7 @@ export type ForSystemTimeAsOfClause = BaseNode & {
 export type FromStatement = XXXStatement & {
   node_type: "FromStatement";
   children: {
-    with: NodeChild;
+    with?: NodeChild;
     expr: NodeChild;
   };
 }
@@ -986,15 +986,15 @@ export type GroupedStatement = FromItemExpr &
       with?: { Node: WithClause };
       stmt: NodeChild;
       rparen: NodeChild;
-      orderby: NodeChild;
-      limit: NodeChild;
+      orderby?: NodeChild;
+      limit?: NodeChild;
     };
   };
 
 export type GroupedTypeDeclarationOrConstraints = BaseNode & {
   node_type: "GroupedTypeDeclarationOrConstraints";
   children: {
-    declarations: NodeVecChild;
+    declarations?: NodeVecChild;
     rparen: NodeChild;
   };
 };
@@ -1027,8 +1027,8 @@ export type IfStatement = XXXStatement & {
   children: {
     condition: NodeChild;
     then: NodeChild;
-    elseifs: NodeVecChild;
-    else: NodeChild;
+    elseifs?: NodeVecChild;
+    else?: NodeChild;
     end_if: NodeVecChild;
   };
 };
@@ -1078,12 +1078,12 @@ export type IsDistinctFromOperator = Expr & {
 export type JoinOperator = FromItemExpr & {
   node_type: "JoinOperator";
   children: {
-    join_type: NodeChild;
-    outer: NodeChild;
+    join_type?: NodeChild;
+    outer?: NodeChild;
     left: NodeChild;
     right: NodeChild;
-    on: NodeChild;
-    using: NodeChild;
+    on?: NodeChild;
+    using?: NodeChild;
     order: undefined;
     null_order: undefined;
     comma: undefined;
@@ -1107,7 +1107,7 @@ export type Keyword = BaseNode & {
 export type KeywordSequence = BaseNode & {
   node_type: "KeywordSequence";
   children: {
-    next_keyword: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
+    next_keyword?: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
   };
 };
 
@@ -1186,7 +1186,7 @@ export type MatchRecognizeConfig = BaseNode & {
     orderby?: NodeChild;
     measures?: NodeChild;
     skip_rule?: NodeChild;
-    pattern: NodeChild;
+    pattern?: NodeChild;
     define?: NodeChild;
     options?: NodeChild;
     rparen: NodeChild;
@@ -1545,7 +1545,7 @@ export type TypeDeclaration = BaseNode & {
   token: Token;
   node_type: "TypeDeclaration";
   children: {
-    in_out: NodeChild;
+    in_out?: NodeChild;
     type: NodeChild;
     comma?: NodeChild;
   };
@@ -1602,7 +1602,7 @@ export type UnpivotOperator = BaseNode & {
   token: Token;
   node_type: "UnpivotOperator";
   children: {
-    include_or_exclude_nulls: NodeVecChild;
+    include_or_exclude_nulls?: NodeVecChild;
     config: NodeChild;
     as?: NodeChild;
     alias?: NodeChild;
@@ -1615,7 +1615,7 @@ export type UpdateStatement = XXXStatement & {
     table_name?: NodeChild;
     set: NodeChild;
     from?: NodeChild;
-    where: NodeChild;
+    where?: NodeChild;
   };
 };
 
@@ -1624,8 +1624,8 @@ export type WhenClause = BaseNode & {
   children: {
     not?: NodeChild;
     matched: NodeChild;
-    by_target_or_source: NodeVecChild;
-    and: NodeChild;
+    by_target_or_source?: NodeVecChild;
+    and?: NodeChild;
     then: NodeChild;
   };
 };
@@ -1673,9 +1673,9 @@ export type WindowSpecification = BaseNode & {
   node_type: "WindowSpecification";
   children: {
     name?: NodeChild;
-    partitionby: NodeChild;
-    orderby: NodeChild;
-    frame: NodeChild;
+    partitionby?: NodeChild;
+    orderby?: NodeChild;
+    frame?: NodeChild;
     rparen: NodeChild;
   };
 };
@@ -1710,7 +1710,7 @@ export type WithPartitionColumnsClause = BaseNode & {
   node_type: "WithPartitionColumnsClause";
   children: {
     partition_columns: NodeVecChild;
-    column_schema_group: NodeChild;
+    column_schema_group?: NodeChild;
   };
 };
 
@@ -1720,7 +1720,7 @@ export type WithQuery = BaseNode & {
   children: {
     as: { Node: Keyword };
     stmt: { Node: GroupedStatement };
-    comma: NodeChild;
+    comma?: NodeChild;
   };
 };
 
-- 
2.43.0


From 70b8172e972d6335972bcc9287f393cb26b7c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:13 +0000
Subject: [PATCH 37/49] fix: declare all the children and nullable tokens in
 the TypeScript types

---
 src/types.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 16b7843..0e3d618 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -194,10 +194,11 @@ export type Expr = BaseNode & {
   token: Token;
   children: {
     as?: { Node: Keyword };
-    alias?: { Node: Identifier };
+    alias?: NodeChild; // not only identifier (e.g. `DEFINE x AS y > 1`)
     comma?: NodeChild;
     order?: NodeChild;
     null_order?: NodeVecChild;
+    row_value_alias?: NodeChild; // only in UNPIVOT operator
   };
 };
 
@@ -1059,8 +1060,6 @@ export type IntervalLiteral = Expr & {
     date_part: NodeChild;
     to?: NodeChild;
     to_date_part?: NodeChild;
-    order: undefined;
-    null_order: undefined;
   };
 };
 
@@ -1102,6 +1101,9 @@ export type JoinPipeOperator = PipeOperator & {
 export type Keyword = BaseNode & {
   token: Token;
   node_type: "Keyword";
+  children: {
+    comma?: NodeChild; // e.g. `VALUES (DEFAULT, 1)`
+  };
 };
 
 export type KeywordSequence = BaseNode & {
@@ -1315,6 +1317,7 @@ export type PatternQuantifier = BaseNode & {
 export type PipeStatement = XXXStatement & {
   node_type: "PipeStatement";
   children: {
+    with?: { Node: WithClause };
     left: NodeChild;
     right: NodeChild;
   };
@@ -1435,6 +1438,8 @@ export type SetOperator = XXXStatement & {
     distinct_or_all: NodeChild;
     left: { Node: SetOperator | SelectStatement | GroupedStatement };
     right: { Node: SetOperator | SelectStatement | GroupedStatement };
+    orderby?: NodeChild;
+    limit?: NodeChild;
   };
 };
 
@@ -1542,7 +1547,7 @@ export type Type = BaseNode & {
 };
 
 export type TypeDeclaration = BaseNode & {
-  token: Token;
+  // NOTE token is null if anonymous (e.g. `STRUCT<INT64>`)
   node_type: "TypeDeclaration";
   children: {
     in_out?: NodeChild;
-- 
2.43.0


From 06bfd1fc79bd5c9c7670a8a34e162c6b057f9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 38/49] fix: DROP VECTOR INDEX was not parsed

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f956598..8ae13f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3841,7 +3841,7 @@ impl Parser {
             drop.push_node("table", self.construct_node(NodeType::Keyword)?)
         }
         self.next_token()?; // -> SCHEMA, TABLE, VIEW, FUNCTION, PROCEDURE, SEARCH
-        if self.get_token(0)?.is("SEARCH") {
+        if self.get_token(0)?.in_(&vec!["SEARCH", "VECTOR"]) {
             let mut what = self.construct_node(NodeType::KeywordSequence)?;
             self.next_token()?; // -> INDEX
             what.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
-- 
2.43.0


From 99b674ff669384b94e45941084c79c64aa5264ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:15 +0000
Subject: [PATCH 39/49] fix: HAVING MAX/MIN of an aggregate function stands
 before ORDER BY and LIMIT

---
 src/parser.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8ae13f9..ac4d056 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -674,6 +674,19 @@ impl Parser {
                                 vec![ignore_or_respect, self.construct_node(NodeType::Keyword)?],
                             );
                         }
+                        if self.get_token(1)?.is("HAVING") {
+                            self.next_token()?; // expr -> HAVING
+                            let mut having = self.construct_node(NodeType::KeywordSequence)?;
+                            self.next_token()?; // -> MAX | MIN
+                            let mut max = self.construct_node(NodeType::KeywordWithExpr)?;
+                            self.next_token()?; // -> expr
+                            max.push_node(
+                                "expr",
+                                self.parse_expr(usize::MAX, false, false, false, true)?,
+                            );
+                            having.push_node("next_keyword", max);
+                            node.push_node("having", having);
+                        }
                         if self.get_token(1)?.is("ORDER") {
                             self.next_token()?; // expr -> ORDER
                             let mut orderby = self.construct_node(NodeType::XXXByExprs)?;
@@ -693,22 +706,6 @@ impl Parser {
                             );
                             node.push_node("limit", limit);
                         }
-                        if self.get_token(1)?.is("HAVING") {
-                            // TODO
-                            // check if parse order is collect
-                            // this block shold be placed before RESPECT/IGNORE?
-                            self.next_token()?; // expr -> HAVING
-                            let mut having = self.construct_node(NodeType::KeywordSequence)?;
-                            self.next_token()?; // -> MAX | MIN
-                            let mut max = self.construct_node(NodeType::KeywordWithExpr)?;
-                            self.next_token()?; // -> expr
-                            max.push_node(
-                                "expr",
-                                self.parse_expr(usize::MAX, false, false, false, true)?,
-                            );
-                            having.push_node("next_keyword", max);
-                            node.push_node("having", having);
-                        }
                         self.next_token()?; // expr -> )
                     }
                     node.push_node("rparen", self.construct_closing_symbol(")")?);
-- 
2.43.0


From 6f4ec1665d732b7a2a0e603749a240611b2b87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 40/49] fix: OPTIONS of SQL functions and table functions were
 not parsed

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ac4d056..84daebc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3096,8 +3096,12 @@ impl Parser {
                 self.next_token()?; // -> OPTIONS
                 node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
             }
-        } else if self.get_token(1)?.is("AS") {
+        } else if self.get_token(1)?.is("AS") || self.get_token(1)?.is("OPTIONS") && is_tvf {
             // sql function definition
+            if self.get_token(1)?.is("OPTIONS") {
+                self.next_token()?; // -> OPTIONS
+                node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
+            }
             self.next_token()?; // -> AS
             if is_tvf {
                 let mut as_ = self.construct_node(NodeType::KeywordWithStatement)?;
@@ -3117,6 +3121,10 @@ impl Parser {
                 group.push_node("rparen", self.construct_closing_symbol(")")?);
                 as_.push_node("group", group);
                 node.push_node("as", as_);
+                if self.get_token(1)?.is("OPTIONS") {
+                    self.next_token()?; // -> OPTIONS
+                    node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
+                }
             }
         } else {
             // javascript | python function definition
-- 
2.43.0


From d69658f2ebe0fc17444b5ed4776cb4b8d7d1582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:23 +0000
Subject: [PATCH 41/49] fix: a trailing comma may end a list before a pipe
 operator or a closing parenthesis

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 84daebc..db84137 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2183,6 +2183,7 @@ impl Parser {
                     "UNION",
                     "INTERSECT",
                     "EXCEPT",
+                    "|>",
                     ";",
                     ")",
                 ],
@@ -2367,7 +2368,7 @@ impl Parser {
             operator.push_node("keywords", temp)
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "WINDOW"], true, true)?;
+        let exprs = self.parse_exprs(&vec!["|>", ";", ")", "WINDOW"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("WINDOW") {
             self.next_token()?; // -> WINDOW
@@ -2397,7 +2398,7 @@ impl Parser {
     fn parse_aggregate_pipe_operator(&mut self) -> BQ2CSTResult<Node> {
         let mut operator = self.construct_node(NodeType::AggregatePipeOperator)?;
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
+        let exprs = self.parse_exprs(&vec!["|>", ";", ")", "GROUP"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("GROUP") {
             self.next_token()?; // expr -> GROUP
@@ -2538,7 +2539,7 @@ impl Parser {
             operator.push_node("keywords", self.construct_node(NodeType::Keyword)?);
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";"], true, true)?;
+        let exprs = self.parse_exprs(&vec!["|>", ";", ")"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         Ok(operator)
     }
-- 
2.43.0


From 24034f22b32b65d370430e6864e1dd37a5d42301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:32 +0000
Subject: [PATCH 42/49] fix: a list that something else closes is rejected, not
 read on

---
 src/parser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index db84137..e655ae1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -439,6 +439,9 @@ impl Parser {
                         if self.get_token(1)?.is(",") {
                             self.next_token()?; // -> ,
                             expr.push_node("comma", self.construct_node(NodeType::Symbol)?);
+                        } else {
+                            exprs.push(expr);
+                            break;
                         }
                         exprs.push(expr)
                     }
@@ -954,6 +957,9 @@ impl Parser {
             if self.get_token(0)?.is(",") {
                 type_declaration.push_node("comma", self.construct_node(NodeType::Symbol)?);
                 self.next_token()?; // , -> type
+            } else {
+                type_declarations.push(type_declaration);
+                break;
             }
             type_declarations.push(type_declaration);
         }
@@ -985,7 +991,7 @@ impl Parser {
                     break;
                 }
                 let next_token = parser.get_token(1)?;
-                if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
+                if next_token.in_(&vec![",", ".", "(", ")", "]", ";", "|>"]) {
                     break;
                 }
                 if !(curr_token.literal.chars().last().unwrap() == '.')
@@ -1500,6 +1506,9 @@ impl Parser {
                             type_declaration
                                 .push_node("comma", self.construct_node(NodeType::Symbol)?);
                             self.next_token()?; // , -> next_declaration
+                        } else {
+                            type_declarations.push(type_declaration);
+                            break;
                         }
                         type_declarations.push(type_declaration);
                     }
@@ -2995,8 +3004,13 @@ impl Parser {
                 if self.get_token(1)?.is(",") {
                     self.next_token()?; // -> ,
                     ident.push_node("comma", self.construct_node(NodeType::Symbol)?);
+                    idents.push(ident);
+                } else {
+                    idents.push(ident);
+                    self.next_token()?; // -> )
+                    column_name_list.push_node("rparen", self.construct_closing_symbol(")")?);
+                    break;
                 }
-                idents.push(ident);
             }
             column_name_list.push_node_vec("idents", idents);
             create.push_node("column_name_list", column_name_list)
-- 
2.43.0


From 5f68b82fc8451dd7298b219d68ea816c18db3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:12 +0000
Subject: [PATCH 43/49] fix: hexadecimal literals and numbers ending in a point
 are numeric literals

---
 src/lexer.rs | 21 +++++++++++++++++++++
 src/token.rs |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 971fe6c..d860b76 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -354,6 +354,20 @@ impl Lexer {
     }
     fn read_number(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        if self.get_char(0) == Some('0')
+            && matches!(self.get_char(1), Some('x') | Some('X'))
+            && is_hex_digit(&self.get_char(2))
+        {
+            self.next_char()?; // 0 -> x
+            self.next_char()?; // x -> F
+            while is_hex_digit(&self.get_char(0)) {
+                self.next_char()?;
+            }
+            let res = self.input[first_position..self.position]
+                .into_iter()
+                .collect();
+            return Ok(res);
+        }
         while is_digit(&self.get_char(0)) {
             self.next_char()?;
         } // 9 -> .
@@ -423,6 +437,13 @@ fn is_digit(ch: &Option<char>) -> bool {
     }
 }
 
+fn is_hex_digit(ch: &Option<char>) -> bool {
+    match ch {
+        Some(ch) => ch.is_digit(16),
+        None => false,
+    }
+}
+
 fn is_end_of_line(ch: &Option<char>) -> bool {
     match ch {
         Some(ch) => ch == &'\n',
diff --git a/src/token.rs b/src/token.rs
index 55df731..1477940 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,7 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(r"^(([0-9]+\.?[0-9]*|\.[0-9]+)([eE][\+\-]?[0-9]+)?|0[xX][0-9a-fA-F]+)$").unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From c40cd483ceaafeb2e1226013b21e9910faca2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:29 +0000
Subject: [PATCH 44/49] fix: the source of a MERGE statement is a table, whose
 name may have dashes

---
 src/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e655ae1..1a9ad0d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2687,11 +2687,8 @@ impl Parser {
         merge.push_node("table_name", self.parse_table(true)?);
         self.next_token()?; // -> USING
         let mut using = self.construct_node(NodeType::KeywordWithExpr)?;
-        self.next_token()?; // USING -> expr
-        using.push_node(
-            "expr",
-            self.parse_expr(usize::MAX, true, false, false, true)?,
-        );
+        self.next_token()?; // USING -> table
+        using.push_node("expr", self.parse_table(false)?);
         merge.push_node("using", using);
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
-- 
2.43.0


From dfba7751f579b6ca497129a1eba153fdfaa344df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:35 +0000
Subject: [PATCH 45/49] fix: a statement that begins with an unknown word is
 rejected, not read as a label

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 1a9ad0d..dea57a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4148,6 +4148,12 @@ impl Parser {
     }
     fn parse_labeled_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let label = self.construct_node(NodeType::Identifier)?;
+        if !self.is_eof(1) && !self.get_token(1)?.is(":") {
+            return Err(BQ2CSTError::from_token(
+                self.get_token(0)?,
+                format!("Unknown statement: {:?}", self.get_token(0)?),
+            ));
+        }
         self.next_token()?; // -> :
         let colon = self.construct_node(NodeType::Symbol)?;
         self.next_token()?; // -> stmt
-- 
2.43.0


From 933b47dae68b0b7ab8d8ece2c6f1e82201834729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:34 +0000
Subject: [PATCH 46/49] fix: a second label is reported where it stands, not
 behind the statement

---
 src/parser.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dea57a7..effab40 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4157,12 +4157,7 @@ impl Parser {
         self.next_token()?; // -> :
         let colon = self.construct_node(NodeType::Symbol)?;
         self.next_token()?; // -> stmt
-        let mut stmt = self.parse_statement(false)?;
-        if stmt
-            .children
-            .keys()
-            .any(|k| k == "leading_label" || k == "colon")
-        {
+        if self.get_token(1)?.is(":") {
             return Err(BQ2CSTError::from_token(
                 self.get_token(0)?,
                 format!(
@@ -4171,6 +4166,7 @@ impl Parser {
                 ),
             ));
         };
+        let mut stmt = self.parse_statement(false)?;
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
         if !self.get_token(1)?.is(";") && !self.is_eof(1) {
-- 
2.43.0


From 5f2022536274d902b257f0cd73cbc7b502c9f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 47/49] fix: a query that begins with something else than
 SELECT, FROM, WITH or ( is rejected

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index effab40..386003e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2139,6 +2139,12 @@ impl Parser {
             return self.parse_from_statement(semicolon); // pipe syntax
         }
         // SELECT
+        if !self.get_token(0)?.is("SELECT") && !self.is_eof(0) {
+            return Err(BQ2CSTError::from_token(
+                self.get_token(0)?,
+                "expected SELECT".to_string(),
+            ));
+        }
         let mut node = self.construct_node(NodeType::SelectStatement)?;
 
         // WITH DIFFERENTIAL_PRIVACY
-- 
2.43.0


From 911caa009e16520ae0cfacb4527507c69616baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 48/49] fix: report the error of the attempt that got further
 when a parenthesis is neither a query nor a table

---
 src/parser.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 386003e..97206b1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1273,11 +1273,19 @@ impl Parser {
         };
         Ok(node)
     }
+    fn parse_grouped_table(&mut self) -> BQ2CSTResult<Node> {
+        let mut group = self.construct_node(NodeType::GroupedExpr)?;
+        self.next_token()?; // ( -> table
+        group.push_node("expr", self.parse_table(true)?);
+        self.next_token()?; // table -> )
+        group.push_node("rparen", self.construct_closing_symbol(")")?);
+        Ok(group)
+    }
     fn parse_table(&mut self, root: bool) -> BQ2CSTResult<Node> {
         let mut left: Node;
         match self.get_token(0)?.literal.to_uppercase().as_str() {
             "(" => {
-                let mut group;
+                let group;
                 let mut statement_flg = false;
                 let mut offset = 0;
                 loop {
@@ -1298,7 +1306,7 @@ impl Parser {
                         Err(err) if !org.get_token(1)?.is("(") => return Err(err),
 
                         // maybe that is a table quoted by ()! not a select statement!
-                        Err(_) => {
+                        Err(stmt_err) => {
                             // restore original state
                             self.position = org.position;
                             self.leading_comment_indices = org.leading_comment_indices;
@@ -1308,20 +1316,20 @@ impl Parser {
                             self.not_statement_positions.insert(self.position);
 
                             // retry
-                            let mut group = self.construct_node(NodeType::GroupedExpr)?;
-                            self.next_token()?; // ( -> table
-                            group.push_node("expr", self.parse_table(true)?);
-                            self.next_token()?; // -> )
-                            group.push_node("rparen", self.construct_closing_symbol(")")?);
-                            group
+                            match self.parse_grouped_table() {
+                                Ok(table) => table,
+                                // the attempt that got further tells what is wrong
+                                Err(err)
+                                    if (stmt_err.line, stmt_err.column) > (err.line, err.column) =>
+                                {
+                                    return Err(stmt_err)
+                                }
+                                Err(err) => return Err(err),
+                            }
                         }
                     }
                 } else {
-                    group = self.construct_node(NodeType::GroupedExpr)?;
-                    self.next_token()?; // ( -> expr
-                    group.push_node("expr", self.parse_table(true)?);
-                    self.next_token()?; // table -> )
-                    group.push_node("rparen", self.construct_closing_symbol(")")?);
+                    group = self.parse_grouped_table()?;
                 }
                 left = group;
             }
-- 
2.43.0


From 71482590d48095114520e648674ab44972afc9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:06 +0000
Subject: [PATCH 49/49] fix: a query in parentheses may begin a set operation,
 ORDER BY, LIMIT or pipe in expression places

---
 src/parser.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 97206b1..db4c6a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -212,6 +212,39 @@ impl Parser {
         }
         Ok(self.get_token(offset)?.in_(&operators))
     }
+    /// Whether the token is the beginning of a query such as `(SELECT 1) UNION ALL (SELECT 2)` or not.
+    /// Note that `(SELECT 1)` itself is regarded as an expression.
+    fn is_query_beginning_with_paren(&self, offset: usize) -> BQ2CSTResult<bool> {
+        let from = self.get_offset_index(offset)?;
+        let mut tokens = self.tokens[from..].iter().filter(|t| !t.is_comment());
+        let mut depth = 0;
+        let mut token = tokens.next();
+        while token.map_or(false, |t| t.literal == "(") {
+            depth += 1;
+            token = tokens.next();
+        }
+        if depth == 0 || !token.map_or(false, |t| t.in_(&vec!["SELECT", "FROM", "WITH"])) {
+            return Ok(false);
+        }
+        while 0 < depth {
+            match tokens.next() {
+                Some(t) if t.literal == "(" => depth += 1,
+                Some(t) if t.literal == ")" => depth -= 1,
+                Some(_) => (),
+                None => return Ok(false),
+            }
+        }
+        token = tokens.next();
+        if token.map_or(false, |t| t.in_(&vec!["INNER", "FULL", "LEFT", "OUTER"])) {
+            token = tokens.next();
+            if token.map_or(false, |t| t.is("OUTER")) {
+                token = tokens.next();
+            }
+        }
+        Ok(token.map_or(false, |t| {
+            t.in_(&vec!["UNION", "INTERSECT", "EXCEPT", "ORDER", "LIMIT", "|>"])
+        }))
+    }
     fn next_token(&mut self) -> BQ2CSTResult<()> {
         // leading comments
         self.leading_comment_indices = Vec::new();
@@ -407,6 +440,7 @@ impl Parser {
                     // NOTE `WITH (` is the beginning of WITH expression
                     if self.get_token(0)?.in_(&vec!["SELECT", "FROM"])
                         || self.get_token(0)?.is("WITH") && !self.get_token(1)?.is("(")
+                        || self.is_query_beginning_with_paren(0)?
                     {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_select_statement(false, true)?);
@@ -661,6 +695,10 @@ impl Parser {
                                 }
                                 node.push_node_vec("args", vec![from]);
                             }
+                            "ARRAY" | "EXISTS" if self.is_query_beginning_with_paren(0)? => {
+                                let query = self.parse_select_statement(false, true)?;
+                                node.push_node_vec("args", vec![query]);
+                            }
                             _ => {
                                 node.push_node_vec(
                                     "args",
@@ -1038,6 +1076,7 @@ impl Parser {
             // NOTE `WITH (` is the beginning of WITH expression
             if self.get_token(1)?.in_(&vec!["SELECT", "FROM"])
                 || self.get_token(1)?.is("WITH") && !self.get_token(2)?.is("(")
+                || self.is_query_beginning_with_paren(1)?
             {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH
-- 
2.43.0

