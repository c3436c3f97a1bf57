From 4e6307f744ad54dcea7e03b3f485733d519f5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:27 +0000
Subject: [PATCH 01/47] fix: do not panic when the input starts with `<`

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..59a5978 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,10 +153,10 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
-                        self.type_declaration_depth += 1;
+                    if let Some(last) = self.tokens.last() {
+                        if last.in_(&vec!["ARRAY", "STRUCT"]) {
+                            self.type_declaration_depth += 1;
+                        }
                     }
                     self.next_char()?;
                     self.construct_token(line, column, ch.to_string())
-- 
2.43.0


From b7d64713971cf2c732f38bbbc8ce54be40c174d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:31 +0000
Subject: [PATCH 02/47] fix: recognize type declarations when a comment
 precedes `<`

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 59a5978..b9adc71 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,7 +153,7 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if let Some(last) = self.tokens.last() {
+                    if let Some(last) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
                         if last.in_(&vec!["ARRAY", "STRUCT"]) {
                             self.type_declaration_depth += 1;
                         }
-- 
2.43.0


From a50dfd695556161faf7a927424d6e4ee5a795424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:35 +0000
Subject: [PATCH 03/47] fix: tokenize `>` of RANGE<...> as a closing bracket

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index b9adc71..ba64a46 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -154,7 +154,7 @@ impl Lexer {
                     self.construct_token(line, column, "<>".to_string())
                 } else {
                     if let Some(last) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
-                        if last.in_(&vec!["ARRAY", "STRUCT"]) {
+                        if last.in_(&vec!["ARRAY", "STRUCT", "RANGE"]) {
                             self.type_declaration_depth += 1;
                         }
                     }
-- 
2.43.0


From 45ee43a66c060ced489602eff727cd45ff422217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:42 +0000
Subject: [PATCH 04/47] fix: do not panic when the input ends where an
 identifier is expected

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..a506df9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -942,7 +942,7 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
-                if curr_token.literal.chars().next().unwrap() == '`' {
+                if curr_token.literal.starts_with('`') {
                     break;
                 }
                 let next_token = match parser.get_token(1) {
@@ -952,7 +952,7 @@ impl Parser {
                 if next_token.in_(&vec![",", ".", "(", ")", ";"]) {
                     break;
                 }
-                if !(curr_token.literal.chars().last().unwrap() == '.')
+                if !curr_token.literal.ends_with('.')
                     && !(curr_token.line == next_token.line
                         && curr_token.column + curr_token.literal.chars().count()
                             == next_token.column)
-- 
2.43.0


From dfd3273cdfdf38c9b454d495319230fa21eeb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:46 +0000
Subject: [PATCH 05/47] fix: do not treat `/*/` as a complete comment

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index ba64a46..a978760 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -312,6 +312,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * -> next_char
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From 80365ec5e9d3873c65fa7b39481271901b61341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:52 +0000
Subject: [PATCH 06/47] fix: accept NOT NULL after the DEFAULT expression of a
 column

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a506df9..b04e692 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -128,7 +128,7 @@ impl Parser {
             "=" | "<" | ">" | "<=" | ">=" | "!=" | "<>" | "LIKE" | "BETWEEN" | "IN" | "IS" => 109,
             "NOT" => match self.get_token(offset + 1)?.literal.to_uppercase().as_str() {
                 "IN" | "LIKE" | "BETWEEN" => 109,
-                "ENFORCED" => usize::MAX,
+                "ENFORCED" | "NULL" => usize::MAX,
                 _ => {
                     return Err(BQ2CSTError::from_token(
                         self.get_token(offset + 1)?,
-- 
2.43.0


From 9a94e7b017fb6e5e2613bca5dd1e53f630de12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 07/47] fix: field access binds tighter than unary operators

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b04e692..f854db7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -459,7 +459,7 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    let right = self.parse_expr(103, false, false, false, true)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0


From 7e5f01fc72b467d7cc35978b4aff55bae760e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:35 +0000
Subject: [PATCH 08/47] fix: a number ending with a decimal point is a numeric
 literal

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 55df731..b2574ef 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,7 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From 78689295283388f5dd84ef81cc7196f93ea893e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:42 +0000
Subject: [PATCH 09/47] fix: parse a parenthesized WITH(...) expression

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f854db7..2e2c9ec 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -378,7 +378,9 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT"]) {
+                    if self.get_token(0)?.is("SELECT")
+                        || self.get_token(0)?.is("WITH") && !self.get_token(1)?.is("(")
+                    {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_select_statement(false, true)?);
                         self.next_token()?; // expr -> )
-- 
2.43.0


From 52e5e670efc53bb18a6838da2e37521f47ee46cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:46 +0000
Subject: [PATCH 10/47] fix: accept labeled and BREAK/CONTINUE statements at
 the end of input without a semicolon

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2e2c9ec..7df3fad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4117,7 +4117,7 @@ impl Parser {
         };
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> trailing_label
             stmt.push_node("trailing_label", self.construct_node(NodeType::Identifier)?);
         }
@@ -4129,7 +4129,7 @@ impl Parser {
     }
     fn parse_break_continue_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut node = self.construct_node(NodeType::BreakContinueStatement)?;
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> label
             node.push_node("label", self.construct_node(NodeType::Identifier)?);
         }
-- 
2.43.0


From 5407e225076fdc7c07f139045f16d7a364aeb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:52 +0000
Subject: [PATCH 11/47] fix: do not drop a semicolon in the middle of a MERGE
 statement

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7df3fad..6000de4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2649,10 +2649,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From 78656e68e26c43d44e5d94179d215fceb1f7f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:48 +0000
Subject: [PATCH 12/47] fix: do not parse `FROM t FULL OUTER UNION ...` as a
 join

---
 src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6000de4..7033b51 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -181,6 +181,17 @@ impl Parser {
         };
         self.tokens.len() - 1 <= idx
     }
+    fn is_set_operator_mode(&self, offset: usize) -> BQ2CSTResult<bool> {
+        // e.g. `FULL OUTER UNION ALL BY NAME` (not to be confused with `FULL OUTER JOIN`)
+        if !self.get_token(offset)?.in_(&vec!["LEFT", "INNER", "FULL"]) {
+            return Ok(false);
+        }
+        let mut operator = self.get_token(offset + 1)?;
+        if operator.is("OUTER") {
+            operator = self.get_token(offset + 2)?;
+        }
+        Ok(operator.in_(&vec!["UNION", "INTERSECT", "EXCEPT"]))
+    }
     fn next_token(&mut self) -> BQ2CSTResult<()> {
         // leading comments
         self.leading_comment_indices = Vec::new();
@@ -1370,6 +1381,7 @@ impl Parser {
         while self.get_token(1)?.in_(&vec![
             "left", "right", "cross", "inner", "full", "join", ",",
         ]) && root
+            && !self.is_set_operator_mode(1)?
         {
             self.next_token()?; // table -> LEFT, RIGHT, INNER, CROSS, FULL, JOIN, ","
             let mut join = if self.get_token(0)?.in_(&vec!["join", ","]) {
-- 
2.43.0


From 80947155558c3a08dd2535d438cc11b111a1ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 13/47] fix: attach ASC/DESC and NULLS FIRST/LAST to the whole
 sort expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7033b51..aaeb15d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -833,7 +833,7 @@ impl Parser {
                 left.push_node("alias", self.construct_node(NodeType::Identifier)?);
             }
         }
-        if order {
+        if order && precedence == usize::MAX {
             if self.get_token(1)?.in_(&vec!["ASC", "DESC"]) {
                 self.next_token()?; // expr -> ASC, DESC
                 let order = self.construct_node(NodeType::Keyword)?;
-- 
2.43.0


From 6f744de1a3a3e3ed7fe9e926ce485d416be07f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 14/47] fix: declare the WITH clause of a pipe statement

---
 src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.rs b/src/types.rs
index 89f22f7..76988e2 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1315,6 +1315,7 @@ export type PatternQuantifier = BaseNode & {
 export type PipeStatement = XXXStatement & {
   node_type: "PipeStatement";
   children: {
+    with?: { Node: WithClause };
     left: NodeChild;
     right: NodeChild;
   };
-- 
2.43.0


From 781e30d5187ed7fed902a39783d1d3807d971960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 15/47] fix: declare ORDER BY and LIMIT of a set operation

---
 src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 76988e2..036db60 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1436,6 +1436,8 @@ export type SetOperator = XXXStatement & {
     distinct_or_all: NodeChild;
     left: { Node: SetOperator | SelectStatement | GroupedStatement };
     right: { Node: SetOperator | SelectStatement | GroupedStatement };
+    orderby?: NodeChild;
+    limit?: NodeChild;
   };
 };
 
-- 
2.43.0


From 14bc88dc156a2c08f8009c6fd60b5a2bab1b6119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 16/47] fix: declare that a type declaration without a name has
 no token

---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 036db60..f1e873c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1545,10 +1545,10 @@ export type Type = BaseNode & {
 };
 
 export type TypeDeclaration = BaseNode & {
-  token: Token;
+  // null when the declaration has no name, e.g. STRUCT<INT64>
   node_type: "TypeDeclaration";
   children: {
-    in_out: NodeChild;
+    in_out?: NodeChild;
     type: NodeChild;
     comma?: NodeChild;
   };
-- 
2.43.0


From 1826d9dd8e2211c8c9c93f054d1873008089654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 17/47] fix: declare the row value alias of an UNPIVOT column

---
 src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index f1e873c..142389f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -198,6 +198,8 @@ export type Expr = BaseNode & {
     comma?: NodeChild;
     order?: NodeChild;
     null_order?: NodeVecChild;
+    // only in UNPIVOT operator
+    row_value_alias?: NodeChild;
   };
 };
 
-- 
2.43.0


From 07df264eb2d4adecaf004df9db974c898898d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 18/47] fix: declare that an interval can be sorted by

---
 src/types.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 142389f..11f7858 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1061,8 +1061,6 @@ export type IntervalLiteral = Expr & {
     date_part: NodeChild;
     to?: NodeChild;
     to_date_part?: NodeChild;
-    order: undefined;
-    null_order: undefined;
   };
 };
 
-- 
2.43.0


From 839da94e878885a0ddb1c1bcb23d528c65ada805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:34 +0000
Subject: [PATCH 19/47] fix: tokenize hexadecimal integer literals

---
 src/lexer.rs | 13 +++++++++++++
 src/token.rs |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index a978760..d90dfc2 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -357,6 +357,19 @@ impl Lexer {
     }
     fn read_number(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        if let (Some('0'), Some('x') | Some('X'), Some('0'..='9' | 'a'..='f' | 'A'..='F')) =
+            (self.get_char(0), self.get_char(1), self.get_char(2))
+        {
+            self.next_char()?; // 0 -> x
+            self.next_char()?; // x -> hex digit
+            while let Some('0'..='9' | 'a'..='f' | 'A'..='F') = self.get_char(0) {
+                self.next_char()?;
+            }
+            let res = self.input[first_position..self.position]
+                .into_iter()
+                .collect();
+            return Ok(res);
+        }
         while is_digit(&self.get_char(0)) {
             self.next_char()?;
         } // 9 -> .
diff --git a/src/token.rs b/src/token.rs
index b2574ef..0b3e980 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,9 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re =
+            Regex::new(r"^(0[xX][0-9a-fA-F]+|([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?)$")
+                .unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From cd83566fc82a2e1ae4e308d79073ed4db5e836f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:47 +0000
Subject: [PATCH 20/47] fix: a pipe operator right after a table name is not
 part of the name

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index aaeb15d..2828684 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -962,7 +962,7 @@ impl Parser {
                     Ok(n) => n,
                     Err(_) => break, // in the case of EOF
                 };
-                if next_token.in_(&vec![",", ".", "(", ")", ";"]) {
+                if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
                     break;
                 }
                 if !curr_token.literal.ends_with('.')
-- 
2.43.0


From 7e423245da7c6ace067175806550bc5ac3496f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:00 +0000
Subject: [PATCH 21/47] fix: declare children that can be absent as optional

---
 src/types.rs | 66 ++++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 11f7858..3879240 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -205,7 +205,7 @@ export type Expr = BaseNode & {
 
 export type FromItemExpr = Expr & {
   children: {
-    with_offset: NodeChild;
+    with_offset?: NodeChild;
     pivot?: NodeChild;
     unpivot?: NodeChild;
     match_recognize?: NodeChild;
@@ -286,7 +286,7 @@ export type AlterColumnStatement = BaseNode & {
     if_exists?: NodeVecChild;
     ident: NodeChild;
     // SET
-    set: NodeChild;
+    set?: NodeChild;
     options?: NodeChild;
     data_type?: NodeVecChild;
     type?: NodeChild;
@@ -436,8 +436,8 @@ export type AssertStatement = XXXStatement & {
   node_type: "AssertStatement";
   children: {
     expr: NodeChild;
-    as: NodeChild;
-    description: NodeChild;
+    as?: NodeChild;
+    description?: NodeChild;
   };
 };
 
@@ -699,7 +699,7 @@ export type CreateSchemaStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    default_collate: NodeChild;
+    default_collate?: NodeChild;
     with_connection?: NodeChild;
     options?: NodeChild;
   };
@@ -731,8 +731,8 @@ export type CreateTableStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    like_or_copy: NodeChild;
-    source_table: NodeChild;
+    like_or_copy?: NodeChild;
+    source_table?: NodeChild;
     column_schema_group?: NodeChild;
     default_collate?: NodeChild;
     clone?: NodeChild;
@@ -757,7 +757,7 @@ export type CreateViewStatement = XXXStatement & {
     partitionby?: NodeChild;
     clusterby?: NodeChild;
     options?: NodeChild;
-    as: NodeChild;
+    as?: NodeChild;
   };
 };
 
@@ -773,7 +773,7 @@ export type DeclareStatement = XXXStatement & {
 export type DeleteStatement = XXXStatement & {
   node_type: "DeleteStatement";
   children: {
-    from: NodeChild;
+    from?: NodeChild;
     table_name: NodeChild;
     where: NodeChild;
   };
@@ -849,7 +849,7 @@ export type ExecuteStatement = XXXStatement & {
   children: {
     immediate: NodeChild;
     sql_expr: NodeChild;
-    into: NodeChild;
+    into?: NodeChild;
     using?: NodeChild;
   };
 };
@@ -879,8 +879,8 @@ export type ExtractArgument = BaseNode & {
   children: {
     extract_datepart: NodeChild;
     extract_from: NodeChild;
-    at_time_zone: NodeVecChild;
-    time_zone: NodeChild;
+    at_time_zone?: NodeVecChild;
+    time_zone?: NodeChild;
   };
 };
 
@@ -906,7 +906,7 @@ export type ForSystemTimeAsOfClause = BaseNode & {
 export type FromStatement = XXXStatement & {
   node_type: "FromStatement";
   children: {
-    with: NodeChild;
+    with?: NodeChild;
     expr: NodeChild;
   };
 }
@@ -988,15 +988,15 @@ export type GroupedStatement = FromItemExpr &
       with?: { Node: WithClause };
       stmt: NodeChild;
       rparen: NodeChild;
-      orderby: NodeChild;
-      limit: NodeChild;
+      orderby?: NodeChild;
+      limit?: NodeChild;
     };
   };
 
 export type GroupedTypeDeclarationOrConstraints = BaseNode & {
   node_type: "GroupedTypeDeclarationOrConstraints";
   children: {
-    declarations: NodeVecChild;
+    declarations?: NodeVecChild;
     rparen: NodeChild;
   };
 };
@@ -1029,8 +1029,8 @@ export type IfStatement = XXXStatement & {
   children: {
     condition: NodeChild;
     then: NodeChild;
-    elseifs: NodeVecChild;
-    else: NodeChild;
+    elseifs?: NodeVecChild;
+    else?: NodeChild;
     end_if: NodeVecChild;
   };
 };
@@ -1078,12 +1078,12 @@ export type IsDistinctFromOperator = Expr & {
 export type JoinOperator = FromItemExpr & {
   node_type: "JoinOperator";
   children: {
-    join_type: NodeChild;
-    outer: NodeChild;
+    join_type?: NodeChild;
+    outer?: NodeChild;
     left: NodeChild;
     right: NodeChild;
-    on: NodeChild;
-    using: NodeChild;
+    on?: NodeChild;
+    using?: NodeChild;
     order: undefined;
     null_order: undefined;
     comma: undefined;
@@ -1107,7 +1107,7 @@ export type Keyword = BaseNode & {
 export type KeywordSequence = BaseNode & {
   node_type: "KeywordSequence";
   children: {
-    next_keyword: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
+    next_keyword?: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
   };
 };
 
@@ -1186,7 +1186,7 @@ export type MatchRecognizeConfig = BaseNode & {
     orderby?: NodeChild;
     measures?: NodeChild;
     skip_rule?: NodeChild;
-    pattern: NodeChild;
+    pattern?: NodeChild;
     define?: NodeChild;
     options?: NodeChild;
     rparen: NodeChild;
@@ -1605,7 +1605,7 @@ export type UnpivotOperator = BaseNode & {
   token: Token;
   node_type: "UnpivotOperator";
   children: {
-    include_or_exclude_nulls: NodeVecChild;
+    include_or_exclude_nulls?: NodeVecChild;
     config: NodeChild;
     as?: NodeChild;
     alias?: NodeChild;
@@ -1618,7 +1618,7 @@ export type UpdateStatement = XXXStatement & {
     table_name?: NodeChild;
     set: NodeChild;
     from?: NodeChild;
-    where: NodeChild;
+    where?: NodeChild;
   };
 };
 
@@ -1627,8 +1627,8 @@ export type WhenClause = BaseNode & {
   children: {
     not?: NodeChild;
     matched: NodeChild;
-    by_target_or_source: NodeVecChild;
-    and: NodeChild;
+    by_target_or_source?: NodeVecChild;
+    and?: NodeChild;
     then: NodeChild;
   };
 };
@@ -1676,9 +1676,9 @@ export type WindowSpecification = BaseNode & {
   node_type: "WindowSpecification";
   children: {
     name?: NodeChild;
-    partitionby: NodeChild;
-    orderby: NodeChild;
-    frame: NodeChild;
+    partitionby?: NodeChild;
+    orderby?: NodeChild;
+    frame?: NodeChild;
     rparen: NodeChild;
   };
 };
@@ -1713,7 +1713,7 @@ export type WithPartitionColumnsClause = BaseNode & {
   node_type: "WithPartitionColumnsClause";
   children: {
     partition_columns: NodeVecChild;
-    column_schema_group: NodeChild;
+    column_schema_group?: NodeChild;
   };
 };
 
@@ -1723,7 +1723,7 @@ export type WithQuery = BaseNode & {
   children: {
     as: { Node: Keyword };
     stmt: { Node: GroupedStatement };
-    comma: NodeChild;
+    comma?: NodeChild;
   };
 };
 
-- 
2.43.0


From 5b456621298fd1c54152f1252da4f9c3fa32e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 22/47] fix: DEFAULT used as a value is a keyword, not a node
 of unknown type

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2828684..33e8ae3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -75,6 +75,9 @@ impl Parser {
                     node.node_type = NodeType::NullLiteral;
                 } else if let "(" | "." = self.get_token(1)?.literal.as_str() {
                     node.node_type = NodeType::Identifier;
+                } else if curr_token.literal.to_uppercase() == "DEFAULT" {
+                    // e.g. VALUES (DEFAULT)
+                    node.node_type = NodeType::Keyword;
                 }
                 node
             }
-- 
2.43.0


From 6fb073aa3cf7e73ba0990c1595dfbebd46761b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:24 +0000
Subject: [PATCH 23/47] fix: accept EXCEPT followed by REPLACE after an
 asterisk

---
 src/parser.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 33e8ae3..c901f3f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -368,24 +368,19 @@ impl Parser {
             match self.get_token(0)?.literal.to_uppercase().as_str() {
                 "*" => {
                     left.node_type = NodeType::Asterisk;
-                    match self.get_token(1)?.literal.to_uppercase().as_str() {
-                        "REPLACE" => {
-                            self.next_token()?; // * -> REPLACE
-                            let mut replace =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // REPLACE -> (
-                            replace.push_node("group", self.parse_grouped_exprs(true)?);
-                            left.push_node("replace", replace);
-                        }
-                        "EXCEPT" => {
-                            self.next_token()?; // * -> except
-                            let mut except =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // except -> (
-                            except.push_node("group", self.parse_grouped_exprs(false)?);
-                            left.push_node("except", except);
-                        }
-                        _ => (),
+                    if self.get_token(1)?.is("EXCEPT") {
+                        self.next_token()?; // * -> except
+                        let mut except = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // except -> (
+                        except.push_node("group", self.parse_grouped_exprs(false)?);
+                        left.push_node("except", except);
+                    }
+                    if self.get_token(1)?.is("REPLACE") {
+                        self.next_token()?; // * | ) -> REPLACE
+                        let mut replace = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // REPLACE -> (
+                        replace.push_node("group", self.parse_grouped_exprs(true)?);
+                        left.push_node("replace", replace);
                     }
                 }
                 // STRUCT
-- 
2.43.0


From 46046e0548f2aa8d3a0d862073bf87b58520a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 24/47] fix: a pipe operator after a subquery in FROM applies
 to the whole query

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c901f3f..4a6930f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2078,7 +2078,7 @@ impl Parser {
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
-            } else if self.get_token(1)?.is("|>") {
+            } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
                 return self.parse_pipe_statement(node);
             }
-- 
2.43.0


From 38edbf9b40ebef0524da6690045e1bed75fc3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 25/47] fix: parse nested parenthesized joins in polynomial
 time

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4a6930f..3c88ade 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,6 +6,7 @@ use crate::cst::Node;
 use crate::cst::NodeType;
 use crate::error::{BQ2CSTError, BQ2CSTResult};
 use crate::token::Token;
+use std::collections::HashSet;
 
 #[derive(Clone)]
 pub struct Parser {
@@ -13,6 +14,8 @@ pub struct Parser {
     leading_comment_indices: Vec<usize>,
     trailing_comment_indices: Vec<usize>,
     tokens: Vec<Token>,
+    // positions of `(` in FROM clause which turned out not to start a select statement
+    grouped_table_positions: HashSet<usize>,
 }
 
 impl Parser {
@@ -22,6 +25,7 @@ impl Parser {
             leading_comment_indices: Vec::new(),
             trailing_comment_indices: Vec::new(),
             tokens,
+            grouped_table_positions: HashSet::new(),
         };
         while p.tokens[p.position].is_comment() {
             p.leading_comment_indices.push(p.position);
@@ -1253,7 +1257,7 @@ impl Parser {
                         break;
                     }
                 }
-                if statement_flg {
+                if statement_flg && !self.grouped_table_positions.contains(&self.position) {
                     let org = self.clone();
                     group = match self.parse_select_statement(false, false) {
                         Ok(stmt) => stmt,
@@ -1265,6 +1269,8 @@ impl Parser {
                             self.leading_comment_indices = org.leading_comment_indices;
                             self.trailing_comment_indices = org.trailing_comment_indices;
                             self.tokens = org.tokens;
+                            // do not try again, otherwise it takes exponential time
+                            self.grouped_table_positions.insert(self.position);
 
                             // retry
                             let mut group = self.construct_node(NodeType::GroupedExpr)?;
-- 
2.43.0


From 2d502ce54b2e02b82b9dc19f891e73b5253271f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 26/47] fix: a semicolon after a piped query belongs to the
 statement the query is part of

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3c88ade..bb62ba9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -321,7 +321,7 @@ impl Parser {
         let mut grouped = self.construct_node(NodeType::GroupedStatement)?;
         self.next_token()?; // ( -> SELECT | FROM
         if self.get_token(0)?.is("FROM") {
-            grouped.push_node("stmt", self.parse_from_statement()?);
+            grouped.push_node("stmt", self.parse_from_statement(false)?);
         } else {
             grouped.push_node("stmt", self.parse_select_statement(false, true)?);
         }
@@ -1112,7 +1112,7 @@ impl Parser {
                 // actually, it may be pipe syntax
                 self.parse_select_statement(semicolon, true)?
             }
-            "FROM" => self.parse_from_statement()?, // pipe syntax
+            "FROM" => self.parse_from_statement(semicolon)?, // pipe syntax
             // DML
             "INSERT" => self.parse_insert_statement(semicolon)?,
             "DELETE" => self.parse_delete_statement(semicolon)?,
@@ -2030,7 +2030,7 @@ impl Parser {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
             self.next_token()?; // ( -> SELECT
             if self.get_token(0)?.is("FROM") {
-                node.push_node("stmt", self.parse_from_statement()?);
+                node.push_node("stmt", self.parse_from_statement(false)?);
             } else {
                 node.push_node("stmt", self.parse_select_statement(false, true)?);
             }
@@ -2086,7 +2086,7 @@ impl Parser {
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
             } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
-                return self.parse_pipe_statement(node);
+                return self.parse_pipe_statement(node, semicolon);
             }
             return Ok(node);
         }
@@ -2094,7 +2094,7 @@ impl Parser {
             let with = self.parse_with_clause()?;
             self.next_token()?; // -> SELECT | '(' | FROM
             let mut node = if self.get_token(0)?.is("FROM") {
-                self.parse_from_statement()?
+                self.parse_from_statement(semicolon)?
             } else {
                 self.parse_select_statement(semicolon, true)?
             };
@@ -2259,27 +2259,27 @@ impl Parser {
             node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         } else if self.get_token(1)?.is("|>") && root {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(node);
+            return self.parse_pipe_statement(node, semicolon);
         }
         Ok(node)
     }
-    fn parse_from_statement(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
         from.push_node("expr", self.parse_table(true)?);
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(from);
+            return self.parse_pipe_statement(from, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             from.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
         Ok(from)
     }
-    fn parse_pipe_statement(&mut self, left: Node) -> BQ2CSTResult<Node> {
+    fn parse_pipe_statement(&mut self, left: Node, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut pipe = self.construct_node(NodeType::PipeStatement)?;
         pipe.push_node("left", left);
         self.next_token()?; // -> SELECT | LIMIT | ...
@@ -2319,10 +2319,10 @@ impl Parser {
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(pipe);
+            return self.parse_pipe_statement(pipe, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             pipe.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
-- 
2.43.0


From 0dd00fc1d10994b346f99a8fc27332a880bb9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 27/47] fix: parse a query that starts with FROM wherever a
 query is allowed

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bb62ba9..62f67aa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -391,7 +391,7 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.is("SELECT")
+                    if self.get_token(0)?.in_(&vec!["SELECT", "FROM"])
                         || self.get_token(0)?.is("WITH") && !self.get_token(1)?.is("(")
                     {
                         left.node_type = NodeType::GroupedStatement;
@@ -522,7 +522,7 @@ impl Parser {
                         left = self.parse_select_statement(false, true)?;
                     }
                 }
-                "SELECT" => {
+                "SELECT" | "FROM" => {
                     // in the case of `ARRAY(SELECT 1)`
                     left = self.parse_select_statement(false, true)?;
                 }
@@ -1008,7 +1008,7 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH"]) {
+            if self.get_token(1)?.in_(&vec!["SELECT", "WITH", "FROM"]) {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH
                 lparen.push_node("stmt", self.parse_select_statement(false, true)?);
@@ -2101,6 +2101,10 @@ impl Parser {
             node.push_node("with", with);
             return Ok(node);
         }
+        // FROM (pipe syntax)
+        if self.get_token(0)?.is("FROM") {
+            return self.parse_from_statement(semicolon);
+        }
         // SELECT
         let mut node = self.construct_node(NodeType::SelectStatement)?;
 
-- 
2.43.0


From 616a0b67614b6dec3e2ffa7795a9d29af78ff771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 28/47] fix: parse the source of a MERGE statement as a table

---
 src/parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 62f67aa..60604be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2664,10 +2664,7 @@ impl Parser {
         self.next_token()?; // -> USING
         let mut using = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // USING -> expr
-        using.push_node(
-            "expr",
-            self.parse_expr(usize::MAX, true, false, false, true)?,
-        );
+        using.push_node("expr", self.parse_table(true)?);
         merge.push_node("using", using);
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
-- 
2.43.0


From e9cc01ba11c2abea03d15a93604ea58712e1125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 29/47] fix: accept a dashed project name in CALL statement

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 60604be..43fd85b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4317,7 +4317,7 @@ impl Parser {
     fn parse_call_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut call = self.construct_node(NodeType::CallStatement)?;
         self.next_token()?; // -> procedure_name
-        let procedure = self.parse_expr(usize::MAX, false, false, false, true)?;
+        let procedure = self.parse_expr(usize::MAX, false, true, false, true)?;
         call.push_node("procedure", procedure);
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
-- 
2.43.0


From 4a773d131e3e33dabde0f4f63c920c1c81011703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 30/47] fix: accept AGGREGATE pipe operator without aggregate
 expressions

---
 src/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43fd85b..5c48354 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2386,9 +2386,11 @@ impl Parser {
     }
     fn parse_aggregate_pipe_operator(&mut self) -> BQ2CSTResult<Node> {
         let mut operator = self.construct_node(NodeType::AggregatePipeOperator)?;
-        self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
-        operator.push_node_vec("exprs", exprs);
+        if !self.get_token(1)?.is("GROUP") {
+            self.next_token()?; // -> expr
+            let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
+            operator.push_node_vec("exprs", exprs);
+        }
         if self.get_token(1)?.is("GROUP") {
             self.next_token()?; // expr -> GROUP
             operator.push_node("groupby", self.parse_groupby_exprs(true)?);
-- 
2.43.0


From 6065518031b717b77a7362d36f8c3527c7091a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 31/47] fix: accept a parenthesized query as the input of
 INSERT statement

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c48354..40b03ab 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2546,7 +2546,11 @@ impl Parser {
             self.next_token()?; // INSERT -> identifier
             insert.push_node("target_name", self.parse_identifier()?);
         }
-        if self.get_token(1)?.is("(") {
+        if self.get_token(1)?.is("(")
+            && !self
+                .get_token(2)?
+                .in_(&vec!["SELECT", "WITH", "FROM", "("])
+        {
             self.next_token()?; // identifier -> (
             insert.push_node("columns", self.parse_grouped_exprs(false)?);
         }
-- 
2.43.0


From 674b8a0093054c4c6403064d747cd8a87c71423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 32/47] fix: parse HAVING MAX/MIN of an aggregate function
 before ORDER BY and LIMIT

---
 src/parser.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 40b03ab..020bb84 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -656,6 +656,19 @@ impl Parser {
                                 vec![ignore_or_respect, self.construct_node(NodeType::Keyword)?],
                             );
                         }
+                        if self.get_token(1)?.is("HAVING") {
+                            self.next_token()?; // expr -> HAVING
+                            let mut having = self.construct_node(NodeType::KeywordSequence)?;
+                            self.next_token()?; // -> MAX | MIN
+                            let mut max = self.construct_node(NodeType::KeywordWithExpr)?;
+                            self.next_token()?; // -> expr
+                            max.push_node(
+                                "expr",
+                                self.parse_expr(usize::MAX, false, false, false, true)?,
+                            );
+                            having.push_node("next_keyword", max);
+                            node.push_node("having", having);
+                        }
                         if self.get_token(1)?.is("ORDER") {
                             self.next_token()?; // expr -> ORDER
                             let mut orderby = self.construct_node(NodeType::XXXByExprs)?;
@@ -675,22 +688,6 @@ impl Parser {
                             );
                             node.push_node("limit", limit);
                         }
-                        if self.get_token(1)?.is("HAVING") {
-                            // TODO
-                            // check if parse order is collect
-                            // this block shold be placed before RESPECT/IGNORE?
-                            self.next_token()?; // expr -> HAVING
-                            let mut having = self.construct_node(NodeType::KeywordSequence)?;
-                            self.next_token()?; // -> MAX | MIN
-                            let mut max = self.construct_node(NodeType::KeywordWithExpr)?;
-                            self.next_token()?; // -> expr
-                            max.push_node(
-                                "expr",
-                                self.parse_expr(usize::MAX, false, false, false, true)?,
-                            );
-                            having.push_node("next_keyword", max);
-                            node.push_node("having", having);
-                        }
                         self.next_token()?; // expr -> )
                     }
                     node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0


From 3a082e06d9fb1d201765e81f1abb0827514c8a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 33/47] fix: parse the RANGE constructor as a function call

---
 src/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 020bb84..91fc1ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -435,11 +435,14 @@ impl Parser {
                     left = struct_literal;
                 }
                 "RANGE" => {
-                    let type_ = self.parse_type(false, false)?;
-                    self.next_token()?; // > -> '[lower, upper)'
-                    let mut range_literal = self.construct_node(NodeType::RangeLiteral)?;
-                    range_literal.push_node("type", type_);
-                    left = range_literal;
+                    // when used as literal
+                    if !self.get_token(1)?.is("(") {
+                        let type_ = self.parse_type(false, false)?;
+                        self.next_token()?; // > -> '[lower, upper)'
+                        let mut range_literal = self.construct_node(NodeType::RangeLiteral)?;
+                        range_literal.push_node("type", type_);
+                        left = range_literal;
+                    }
                 }
                 // ARRAY
                 "[" => {
-- 
2.43.0


From e78b6a51e3646193ef3df051f3ccf5e89a316c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 34/47] fix: accept OPTIONS of SQL functions and table
 functions

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 91fc1ae..08c07e1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3068,6 +3068,10 @@ impl Parser {
             returns.push_node("type", self.parse_type(false, false)?);
             node.push_node("returns", returns);
         }
+        if is_tvf && self.get_token(1)?.is("OPTIONS") {
+            self.next_token()?; // -> OPTIONS
+            node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
+        }
         if self.get_token(1)?.is("REMOTE") {
             self.next_token()?; // -> REMOTE
             node.push_node("remote", self.construct_node(NodeType::Keyword)?);
@@ -3106,6 +3110,10 @@ impl Parser {
                 group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                 as_.push_node("group", group);
                 node.push_node("as", as_);
+                if self.get_token(1)?.is("OPTIONS") {
+                    self.next_token()?; // -> OPTIONS
+                    node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
+                }
             }
         } else {
             // javascript | python function definition
-- 
2.43.0


From 19f00ccc840e598c6e990c1f2f823ab5d6315a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 35/47] fix: parse DROP VECTOR INDEX statement

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 08c07e1..c089acc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3834,8 +3834,8 @@ impl Parser {
             self.next_token()?; // -> TABLE
             drop.push_node("table", self.construct_node(NodeType::Keyword)?)
         }
-        self.next_token()?; // -> SCHEMA, TABLE, VIEW, FUNCTION, PROCEDURE, SEARCH
-        if self.get_token(0)?.is("SEARCH") {
+        self.next_token()?; // -> SCHEMA, TABLE, VIEW, FUNCTION, PROCEDURE, SEARCH, VECTOR
+        if self.get_token(0)?.in_(&vec!["SEARCH", "VECTOR"]) {
             let mut what = self.construct_node(NodeType::KeywordSequence)?;
             self.next_token()?; // -> INDEX
             what.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
-- 
2.43.0


From c3d66f0b04114590250768400c4d64a068ddb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 36/47] fix: parse WITH(...) expression on the right side of IN

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c089acc..3d7f1ba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1008,7 +1008,9 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH", "FROM"]) {
+            if self.get_token(1)?.in_(&vec!["SELECT", "FROM"])
+                || self.get_token(1)?.is("WITH") && !self.get_token(2)?.is("(")
+            {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH
                 lparen.push_node("stmt", self.parse_select_statement(false, true)?);
-- 
2.43.0


From d519275a5a7975cb97d16865bf074d4f5f5be445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 37/47] fix: accept WITH CONNECTION in CREATE TABLE statement

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3d7f1ba..4763c5c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2901,7 +2901,7 @@ impl Parser {
             self.next_token()?; // -> CLUSTER
             create.push_node("clusterby", self.parse_xxxby_exprs()?);
         }
-        if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("CONNECTION") && external {
+        if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("CONNECTION") {
             self.next_token()?; // -> WITH
             create.push_node("with_connection", self.parse_with_connection_clause()?);
         }
-- 
2.43.0


From 38de037c39409788bf8a99e6fd0385fa20f85989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 38/47] fix: accept a trailing comma before a pipe operator or
 a closing parenthesis

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4763c5c..7c92e06 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2163,6 +2163,7 @@ impl Parser {
                     "EXCEPT",
                     ";",
                     ")",
+                    "|>",
                 ],
                 true,
                 true,
@@ -2359,7 +2360,7 @@ impl Parser {
             operator.push_node("keywords", temp)
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "WINDOW"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", ")", "|>", "WINDOW"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("WINDOW") {
             self.next_token()?; // -> WINDOW
@@ -2390,7 +2391,7 @@ impl Parser {
         let mut operator = self.construct_node(NodeType::AggregatePipeOperator)?;
         if !self.get_token(1)?.is("GROUP") {
             self.next_token()?; // -> expr
-            let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
+            let exprs = self.parse_exprs(&vec![";", ")", "|>", "GROUP"], true, true)?;
             operator.push_node_vec("exprs", exprs);
         }
         if self.get_token(1)?.is("GROUP") {
@@ -2532,7 +2533,7 @@ impl Parser {
             operator.push_node("keywords", self.construct_node(NodeType::Keyword)?);
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", ")", "|>"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         Ok(operator)
     }
-- 
2.43.0


From 6abbb13dea3615252fcb2a17df518e87a992bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 39/47] fix: parse DROP SNAPSHOT TABLE statement

---
 src/parser.rs | 3 +++
 src/types.rs  | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7c92e06..fcb22bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3833,6 +3833,9 @@ impl Parser {
         } else if self.get_token(1)?.is("MATERIALIZED") {
             self.next_token()?; // -> MATERIALIZED
             drop.push_node("materialized", self.construct_node(NodeType::Keyword)?);
+        } else if self.get_token(1)?.is("SNAPSHOT") {
+            self.next_token()?; // -> SNAPSHOT
+            drop.push_node("snapshot", self.construct_node(NodeType::Keyword)?);
         } else if self.get_token(1)?.is("TABLE") && self.get_token(2)?.is("FUNCTION") {
             self.next_token()?; // -> TABLE
             drop.push_node("table", self.construct_node(NodeType::Keyword)?)
diff --git a/src/types.rs b/src/types.rs
index 3879240..7e8e56c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -811,6 +811,7 @@ export type DropStatement = XXXStatement & {
   children: {
     external?: NodeChild;
     materialized?: NodeChild;
+    snapshot?: NodeChild;
     table?: NodeChild;
     what: NodeChild;
     if_exists?: NodeVecChild;
-- 
2.43.0


From e97cd8c4d6abbeaa74b4670ca58c7b28e835cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 40/47] fix: parse GRANT and REVOKE on an external table

---
 src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fcb22bb..c50de8c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3899,7 +3899,7 @@ impl Parser {
         self.next_token()?; // -> ON
         grant.push_node("on", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> resource_type
-        grant.push_node("resource_type", self.construct_node(NodeType::Keyword)?);
+        grant.push_node("resource_type", self.parse_resource_type()?);
         self.next_token()?; // -> ident
         grant.push_node("ident", self.parse_identifier()?);
         self.next_token()?; // -> TO
@@ -3920,7 +3920,7 @@ impl Parser {
         self.next_token()?; // -> ON
         revoke.push_node("on", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> resource_type
-        revoke.push_node("resource_type", self.construct_node(NodeType::Keyword)?);
+        revoke.push_node("resource_type", self.parse_resource_type()?);
         self.next_token()?; // -> ident
         revoke.push_node("ident", self.parse_identifier()?);
         self.next_token()?; // -> FROM
@@ -3934,6 +3934,15 @@ impl Parser {
         }
         Ok(revoke)
     }
+    fn parse_resource_type(&mut self) -> BQ2CSTResult<Node> {
+        if !self.get_token(0)?.is("EXTERNAL") {
+            return Ok(self.construct_node(NodeType::Keyword)?);
+        }
+        let mut external = self.construct_node(NodeType::KeywordSequence)?;
+        self.next_token()?; // -> TABLE
+        external.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
+        Ok(external)
+    }
     fn parse_create_reservation_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut create = self.construct_node(NodeType::CreateReservationStatement)?;
         self.next_token()?; // -> CAPACITY | RESERVATION | ASSIGNMENT
-- 
2.43.0


From 4d19a535bd337256bfd39e5b1119a1128058aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:33 +0000
Subject: [PATCH 41/47] fix: `<` after a column named array, struct or range
 does not start a type

---
 src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d90dfc2..372f455 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,8 +153,12 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if let Some(last) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
-                        if last.in_(&vec!["ARRAY", "STRUCT", "RANGE"]) {
+                    let mut last_tokens = self.tokens.iter().rev().filter(|t| !t.is_comment());
+                    if let Some(last) = last_tokens.next() {
+                        // NOTE a keyword after a dot is a column e.g. `t.range < 1`
+                        if last.in_(&vec!["ARRAY", "STRUCT", "RANGE"])
+                            && !last_tokens.next().map_or(false, |t| t.is("."))
+                        {
                             self.type_declaration_depth += 1;
                         }
                     }
-- 
2.43.0


From 783c6bc1afdf167ee391bcdbcb14e127bed6f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:23 +0000
Subject: [PATCH 42/47] fix: the alias of an expression is not always an
 Identifier

In WITH(a AS 1, a) the child `alias` holds the expression after AS, but the
published declarations said that it is an Identifier.
---
 src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 7e8e56c..537edc0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -194,7 +194,8 @@ export type Expr = BaseNode & {
   token: Token;
   children: {
     as?: { Node: Keyword };
-    alias?: { Node: Identifier };
+    // not only Identifier, e.g. WITH(a AS 1, a)
+    alias?: NodeChild;
     comma?: NodeChild;
     order?: NodeChild;
     null_order?: NodeVecChild;
-- 
2.43.0


From 6ea2ce424a8d16574292a546cf74dd9eda7c03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:02 +0000
Subject: [PATCH 43/47] fix: OPTIONS after the source of CLONE is not an alias

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c50de8c..978d09d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1305,10 +1305,10 @@ impl Parser {
             left.node_type = NodeType::CallingTableFunction; // EXTERNAL_QUERY() is included
         }
         // alias
-        // NOTE PIVOT, UNPIVOT and MATCH_RECOGNIZE are not reserved keywords
+        // NOTE PIVOT, UNPIVOT, MATCH_RECOGNIZE and OPTIONS are not reserved keywords
         if !(self
             .get_token(1)?
-            .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE"])
+            .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE", "OPTIONS"])
             && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"]))
         {
             left = self.push_trailing_alias(left)?;
-- 
2.43.0


From 1552008944ebe2f77ddca83e2387f2566179d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:27 +0000
Subject: [PATCH 44/47] fix: INNER, LEFT or FULL JOIN after a parenthesized
 query is not a set operator

---
 src/parser.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 978d09d..e1ed2d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2044,15 +2044,11 @@ impl Parser {
                 ));
             }
             node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-            while self.get_token(1)?.in_(&vec![
-                "UNION",
-                "INTERSECT",
-                "EXCEPT",
-                "INNER",
-                "FULL",
-                "LEFT",
-                "OUTER",
-            ]) && root
+            while (self
+                .get_token(1)?
+                .in_(&vec!["UNION", "INTERSECT", "EXCEPT", "OUTER"])
+                || self.is_set_operator_mode(1)?)
+                && root
             {
                 self.next_token()?;
                 node = self.parse_set_operator(node)?;
@@ -2247,15 +2243,11 @@ impl Parser {
             node.push_node("limit", limit);
         }
         // UNION
-        while self.get_token(1)?.in_(&vec![
-            "UNION",
-            "INTERSECT",
-            "EXCEPT",
-            "INNER",
-            "FULL",
-            "LEFT",
-            "OUTER",
-        ]) && root
+        while (self
+            .get_token(1)?
+            .in_(&vec!["UNION", "INTERSECT", "EXCEPT", "OUTER"])
+            || self.is_set_operator_mode(1)?)
+            && root
         {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
-- 
2.43.0


From 675667422cf9c904b8975c0db15d46a432dd622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:56 +0000
Subject: [PATCH 45/47] fix: accept a trailing comma before a set operator with
 INNER, LEFT or FULL

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e1ed2d9..85b1d3e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -871,7 +871,7 @@ impl Parser {
         }
         exprs.push(expr);
         // second expr and later
-        while !self.get_token(1)?.in_(until) && !self.is_eof(1) {
+        while !self.get_token(1)?.in_(until) && !self.is_set_operator_mode(1)? && !self.is_eof(1) {
             self.next_token()?;
             let mut expr = self.parse_expr(usize::MAX, alias, false, false, true)?;
             if self.get_token(1)?.is(",") {
-- 
2.43.0


From 45ea355929cbb3bc4d0b1f7ed1b228b4e3e6a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:57 +0000
Subject: [PATCH 46/47] fix: declare the comma after DEFAULT in a list

---
 src/types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 537edc0..1f5f905 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1104,6 +1104,9 @@ export type JoinPipeOperator = PipeOperator & {
 export type Keyword = BaseNode & {
   token: Token;
   node_type: "Keyword";
+  children: {
+    comma?: NodeChild;
+  };
 };
 
 export type KeywordSequence = BaseNode & {
-- 
2.43.0


From af79ca2d1107dcbb6760025a17ce37226fec1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:41 +0000
Subject: [PATCH 47/47] fix: a pattern quantifier without an upper bound ends
 at its brace

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 85b1d3e..4e81d70 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1984,8 +1984,10 @@ impl Parser {
         if self.get_token(1)?.is(",") {
             self.next_token()?; // -> ,
             quantifier.push_node("comma", self.construct_node(NodeType::Symbol)?);
-            self.next_token()?; // -> n
-            quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            if !self.get_token(1)?.is("}") {
+                self.next_token()?; // -> n
+                quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            }
         }
         self.next_token()?; // -> }
         quantifier.push_node("rbrace", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0

