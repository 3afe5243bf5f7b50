From b707c3dbf1ccc13615ae774bbac70f2c1dd06f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 01/19] fix: do not underflow when the expression is empty

The span of an unexpected end of expression is computed as `cursor - 1`, which
underflows (and panics in debug builds) for the empty text.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..0ba3be4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,7 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From a84846a2b988b35ce0ab1966d5fc11f089cfcab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 02/19] fix: apply every factorial sign of a run

Only the first `!` was consumed as a postfix operator, the second one was taken
for a binary operator: `3!!2` reached an `unreachable!()` and `3!!` was rejected.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ba3be4..8bf8fd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,8 +164,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     ) -> Result<Element<'input>, ParseError> {
         let mut el = self.atom()?;
 
-        // Right-associative unary operators
-        if self.consume_if_eq(b'!') {
+        // Postfix unary operators
+        while self.consume_if_eq(b'!') {
             el = UnOp::new_element(Operator::Factorial, el);
         }
 
-- 
2.43.0


From 020050ad8f41d2eb509170a4ef9640c509a3e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 03/19] fix: decide implicit multiplication on the text before
 a number

A number literal directly following another one was refused only when the whole
left operand was a (possibly folded) number: `x^2 5` and, without optimisation,
`2*3 5` were accepted, while `(2)5`, `pi 5` and, with optimisation, `(1+1)3` were
rejected. What matters is whether the previous token is a number literal.
---
 src/parser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8bf8fd3..6e6a2a1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,6 +118,8 @@ struct ParserImpl<'input, 'ctx> {
     cursor: usize,
     /// The context of the parser.
     ctx: &'ctx Context<'ctx>,
+    /// Whether the text right before the cursor is a number literal.
+    after_number: bool,
 }
 
 impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
@@ -127,6 +129,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             input: input.as_bytes(),
             cursor: 0,
             ctx,
+            after_number: false,
         }
     }
 
@@ -167,11 +170,12 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         // Postfix unary operators
         while self.consume_if_eq(b'!') {
             el = UnOp::new_element(Operator::Factorial, el);
+            self.after_number = false;
         }
 
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
-            self.get_operator_infos(&el, precedence)
+            self.get_operator_infos(precedence)
         {
             let rhs = self.element(op_precedence)?;
             el = BinOp::new_element(op, el, rhs);
@@ -221,6 +225,13 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             },
         };
 
+        match next {
+            b'0'..=b'9' | b'.' => self.after_number = true,
+            // what the operand ends with
+            b'+' | b'-' => (),
+            _ => self.after_number = false,
+        }
+
         Ok(atom)
     }
 
@@ -405,7 +416,6 @@ impl ParserImpl<'_, '_> {
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
-        current_atom: &Element<'_>,
         precedence: usize,
     ) -> Option<(Operator, usize)> {
         use precedence::IMPLICIT_MULTIPLICATION_INFO;
@@ -429,8 +439,8 @@ impl ParserImpl<'_, '_> {
             // we can consider its an implicit multiplication
             b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
             // if it's a number implicit multiplication is
-            // only possible if previous atom isn't a number
-            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
+            // only possible if it doesn't follow another number
+            b'0'..=b'9' if !self.after_number => {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             _ => None,
-- 
2.43.0


From f8f1f3e919574ee5d11d1fe10db4ee4ce9887384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 04/19] fix: multiply implicitly by names starting with a
 capital

Identifiers may start with `A-Z`, yet `2X` was rejected while `2x` was not.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6e6a2a1..010356a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -437,7 +437,9 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
+                Some(IMPLICIT_MULTIPLICATION_INFO)
+            },
             // if it's a number implicit multiplication is
             // only possible if it doesn't follow another number
             b'0'..=b'9' if !self.after_number => {
-- 
2.43.0


From 5e07d6baf5d216d7e3533211219fdfca50844902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 05/19] fix: compute operations on two numbers before any
 rewriting

The algebraic rules came first, so constant expressions were folded to something
else than their value: `-1/0` gave inf, `0*(1/0)` gave 0, `0^-1` gave 0,
`(1/0)-(1/0)` gave 0 and `5.5%1` gave 0.
---
 src/element/simplify.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..6a664b8 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,24 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -217,24 +235,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From c4ded294938d5e0cb8f9efa7868cfa1ac0fb9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 06/19] fix: do not rewrite `a % 1` to 0

`x % 1` is the fractional part of x.
---
 src/element/simplify.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 6a664b8..8a3ba86 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -225,10 +225,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
-- 
2.43.0


From da02db8e2a0773d65af4956f540710abb7fd8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 07/19] fix: do not rewrite `0 ^ a` to 0

`0 ^ x` is 1 for x = 0 and infinite for negative x.
---
 src/element/simplify.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 8a3ba86..1ba3a17 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -198,8 +198,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
-            // 0 ^ a => 0
-            BinOp { op: Power, lhs, .. } if lhs == Number(0.0) => Number(0.0),
             // a ^ 0 => 1
             BinOp {
                 op: Divide, rhs, ..
-- 
2.43.0


From 160478f6215e7220201b3290a93f6c58727e371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 08/19] fix: do not rewrite `a / 0` to infinity

`x / 0` is negative infinity for negative x (and NaN for 0). The arm meant for
`a ^ 0` matched divisions, hidden behind the removed one: let it match powers.
---
 src/element/simplify.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 1ba3a17..8d53bb6 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -159,10 +159,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Divide, lhs, ..
             } if lhs == Number(0.0) => Number(0.0),
-            // a / 0 => inf
-            BinOp {
-                op: Divide, rhs, ..
-            } if rhs == Number(0.0) => Number(f64::INFINITY),
             // a / 1 => a
             BinOp {
                 op: Divide,
@@ -199,9 +195,7 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
             // a ^ 0 => 1
-            BinOp {
-                op: Divide, rhs, ..
-            } if rhs == Number(0.0) => Number(1.0),
+            BinOp { op: Power, rhs, .. } if rhs == Number(0.0) => Number(1.0),
             // a ^ 1 => a
             BinOp {
                 op: Power,
-- 
2.43.0


From ba7513c30384f189efbec88e742442b4063ac820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 09/19] fix: keep the expression valid when a function panics
 while simplifying

Simplifying in place moved the root out with `ptr::read`; a user function that
panicked meanwhile left a root whose boxes had been freed already, freed again
when the expression was dropped.
---
 src/xprs.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..0396445 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,17 +1,14 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::{fmt, mem};
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
     element::Simplify,
     token::Operator,
-    utils::{
-        factorial::factorial,
-        hidden_macros::{trust_me, yeet},
-    },
+    utils::{factorial::factorial, hidden_macros::yeet},
 };
 
 /// Represents a mathematical expression and its variables.
@@ -42,7 +39,7 @@ impl fmt::Display for Xprs<'_> {
     }
 }
 
-impl Xprs<'_> {
+impl<'a> Xprs<'a> {
     /// Evaluates the expression using the provided variable values.
     /// Returns an [`f64`] if the evaluation is successful, or an [`EvalError`] if an error occurs.
     ///
@@ -141,9 +138,8 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        let tmp = self.take_root();
+        self.root = tmp.simplify_for(var);
         self.vars.remove(var.0);
     }
 
@@ -217,13 +213,19 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // rewriting `simplify_for_in_place` to avoid moving the root dozens of times
+        let mut tmp = self.take_root();
         for &var in vars {
             tmp = tmp.simplify_for(var);
             self.vars.remove(var.0);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
+    }
+
+    /// Moves the root out of the expression, leaving a number in its place
+    /// so that the expression stays valid if a user function panics meanwhile.
+    fn take_root(&mut self) -> Element<'a> {
+        mem::replace(&mut self.root, Element::Number(f64::NAN))
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 6627f70daec9945c3a544e25d8e3c2aed85c7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 10/19] fix: report the variables left after a simplification

Simplifying removed only the substituted names from `vars`, although it may
eliminate others: `x * y` simplified for x = 0 is 0, but still reported y, and
could not be bound without it.
---
 src/xprs.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 0396445..4f62bb3 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -139,8 +139,7 @@ impl<'a> Xprs<'a> {
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
         let tmp = self.take_root();
-        self.root = tmp.simplify_for(var);
-        self.vars.remove(var.0);
+        self.put_root(tmp.simplify_for(var));
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -217,17 +216,23 @@ impl<'a> Xprs<'a> {
         let mut tmp = self.take_root();
         for &var in vars {
             tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
         }
-        self.root = tmp;
+        self.put_root(tmp);
     }
 
     /// Moves the root out of the expression, leaving a number in its place
     /// so that the expression stays valid if a user function panics meanwhile.
     fn take_root(&mut self) -> Element<'a> {
+        self.vars.clear();
         mem::replace(&mut self.root, Element::Number(f64::NAN))
     }
 
+    /// Replaces the root, simplification may have eliminated any variable.
+    fn put_root(&mut self, root: Element<'a>) {
+        root.find_variables(&mut self.vars);
+        self.root = root;
+    }
+
     /// Simplifies the expression in-place for multiple variables and returns the expression.
     ///
     /// # Example
-- 
2.43.0


From 69bb09269836b45d1187f5c5231b6406aeee7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 11/19] fix: count missing variables beyond 255

Binding an expression with 256 missing variables or more overflowed the counter.
---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 4f62bb3..ab349d3 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -754,7 +754,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From ca96b2dbba3255f636ff9c2627fe240ec0e4d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 12/19] fix: name the whole character in parse errors
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first byte of a multi-byte character was reported as if it were a character:
`€` gave "Illegal character: `â`".
---
 src/parser.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 010356a..19b93d5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -142,8 +142,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
         let root = parser_impl.element(precedence::NO_PRECEDENCE)?;
 
-        if let Some(&tok) = parser_impl.next_trim() {
-            yeet!(ParseError::new_unexpected_token(&parser_impl, tok));
+        if parser_impl.next_trim().is_some() {
+            yeet!(ParseError::new_unexpected_token(&parser_impl));
         }
 
         // TODO: find a better way to get variables
@@ -219,10 +219,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
                 el
             },
             /* Errors */
-            b')' => yeet!(ParseError::new_unexpected_token(self, b')')),
-            tok => {
-                yeet!(ParseError::new_illegal_character(self, tok));
-            },
+            b')' => yeet!(ParseError::new_unexpected_token(self)),
+            _ => yeet!(ParseError::new_illegal_character(self)),
         };
 
         match next {
@@ -333,9 +331,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             match self.next_trim() {
                 Some(&b',') => self.cursor += 1,
                 Some(&b')') => break,
-                Some(&tok) => {
-                    yeet!(ParseError::new_unexpected_token(self, tok))
-                },
+                Some(_) => yeet!(ParseError::new_unexpected_token(self)),
                 None => {
                     yeet!(ParseError::new_unexpected_end_of_expression(self))
                 },
@@ -397,6 +393,17 @@ impl ParserImpl<'_, '_> {
         self.input.get(self.cursor)
     }
 
+    /// Returns the whole character the cursor is on, for error messages.
+    #[cold]
+    fn current_char(&self) -> char {
+        // the cursor only ever moves past ASCII characters
+        self.input
+            .get(self.cursor..)
+            .and_then(|rest| str::from_utf8(rest).ok())
+            .and_then(|rest| rest.chars().next())
+            .unwrap_or(char::REPLACEMENT_CHARACTER)
+    }
+
     /// Returns the current character after trimming whitespaces.
     fn next_trim(&mut self) -> Option<&u8> {
         self.skip_while(u8::is_ascii_whitespace);
@@ -585,9 +592,9 @@ impl ParseError {
 
     /// Creates a new [`ParseError`] for an unexpected token.
     #[cold]
-    fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
+    fn new_unexpected_token(parser: &ParserImpl) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.current_char()),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -606,9 +613,9 @@ impl ParseError {
 
     /// Creates a new [`ParseError`] for an illegal character.
     #[cold]
-    fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
+    fn new_illegal_character(parser: &ParserImpl) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.current_char()),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
-- 
2.43.0


From 78c97019646deec47d8305cc81e622c22636ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 13/19] fix: report a missing argument only where the argument
 is missing

Any unexpected token inside an argument, however deep, was turned into a missing
argument: `sin(2 + )` or `sin((1 + ) * 3)`.
---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 19b93d5..5d7776f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -342,13 +342,17 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
     /// Parses a single argument in a function call.
     fn argument(&mut self) -> Result<Element<'input>, ParseError> {
+        self.next_trim();
+        let start = self.cursor;
         self.element(precedence::NO_PRECEDENCE).map_err(
             #[cold]
             |err| match err.kind {
-                ErrorKind::UnexpectedToken(_) => {
+                // nothing at all where the argument should be
+                ErrorKind::UnexpectedToken(_) if self.cursor == start => {
                     ParseError::new_missing_argument(self)
                 },
-                ErrorKind::UnexpectedEndOfExpression
+                ErrorKind::UnexpectedToken(_)
+                | ErrorKind::UnexpectedEndOfExpression
                 | ErrorKind::ExpectedToken(_)
                 | ErrorKind::MalformedNumber(_)
                 | ErrorKind::IllegalCharacter(_)
-- 
2.43.0


From 07aa7a2d75f5312ce0831e9a10ff26ce39edd30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 14/19] fix: accept calls without arguments

Functions of no argument could be declared (`xprs_fn!("four", four, 0)`) but never
called, and the variadic functions are defined for no argument.
---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5d7776f..f55e922 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -252,8 +252,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             Identifier::Constant(val) => Element::Number(val),
             Identifier::Variable(var) => Element::Variable(var),
             Identifier::Function(func) if self.consume_if_eq(b'(') => {
-                // for now the minimum number of arguments is 1
-                // self.parse_arguments() will fail if no argument is found
                 let args = self.parse_arguments()?;
                 self.assert_eq_consume(b')')?;
                 if let Some(nb_args) = func.nb_args {
@@ -323,6 +321,10 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     fn parse_arguments(&mut self) -> Result<Vec<Element<'input>>, ParseError> {
         let mut args = Vec::new();
 
+        if self.next_trim() == Some(&b')') {
+            return Ok(args);
+        }
+
         loop {
             let arg = self.argument()?;
             args.push(arg);
-- 
2.43.0


From 1ed125570c9a1f0965f6e4b94aaa9faed9fd50f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 15/19] fix: display the factorial sign after its operand

`x!` was shown as `(!x)`, which does not parse.
---
 src/element/unop.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..0cc7424 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,9 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        if self.op == Operator::Factorial {
+            return write!(fmt, "({}{})", self.operand, self.op);
+        }
         write!(fmt, "({}{})", self.op, self.operand)
     }
 }
-- 
2.43.0


From 3f2fc54111ef7a92e0da0c517b08869427c71b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 16/19] fix: parenthesise negative numbers raised to a power in
 displays

The display of `(-2)^x` was `(-2 ^ x)`, which reads back as `-(2^x)`.
---
 src/element/binop.rs |  4 ++++
 src/element/mod.rs   | 23 +++++++++++++++++++++++
 src/element/unop.rs  |  2 +-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/element/binop.rs b/src/element/binop.rs
index 16eda9a..23a8011 100644
--- a/src/element/binop.rs
+++ b/src/element/binop.rs
@@ -32,6 +32,10 @@ impl<'a> BinOp<'a> {
 
 impl fmt::Display for BinOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        if self.op == Operator::Power {
+            let base = self.lhs.as_base();
+            return write!(fmt, "({base} {} {})", self.op, self.rhs);
+        }
         write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
     }
 }
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 5ac64c3..d414a4e 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -44,6 +44,24 @@ impl fmt::Display for Element<'_> {
     }
 }
 
+/// Displays an element that an operator binding tighter than the unary minus applies to.
+struct Base<'el, 'a>(&'el Element<'a>);
+
+impl fmt::Display for Base<'_, '_> {
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match *self.0 {
+            Element::Number(num) if num.is_sign_negative() => {
+                write!(fmt, "({num})")
+            },
+            Element::Number(_)
+            | Element::BinOp(_)
+            | Element::UnOp(_)
+            | Element::Function(_)
+            | Element::Variable(_) => write!(fmt, "{}", self.0),
+        }
+    }
+}
+
 impl<T> From<T> for Element<'_>
 where
     T: Into<f64>,
@@ -72,6 +90,11 @@ impl<'a> From<FunctionCall<'a>> for Element<'a> {
 }
 
 impl<'a> Element<'a> {
+    /// The displayable form of the base of a power or the operand of a factorial.
+    const fn as_base(&self) -> Base<'_, 'a> {
+        Base(self)
+    }
+
     /// Finds variables in the element and adds them to the provided set.
     pub(crate) fn find_variables(&self, vars: &mut HashSet<&'a str>) {
         match *self {
diff --git a/src/element/unop.rs b/src/element/unop.rs
index 0cc7424..408cbad 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -30,7 +30,7 @@ impl<'a> UnOp<'a> {
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.op == Operator::Factorial {
-            return write!(fmt, "({}{})", self.operand, self.op);
+            return write!(fmt, "({}{})", self.operand.as_base(), self.op);
         }
         write!(fmt, "({}{})", self.op, self.operand)
     }
-- 
2.43.0


From 8262e446d8c121588b9c449be98307656b194234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 17/19] fix: leave the REPL at the end of the input

Once its input ended, the REPL printed errors about the empty expression forever.
---
 src/bin/repl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..21aedd0 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,10 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        if io::stdin().read_line(&mut input)? == 0 {
+            // end of input
+            break;
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
-- 
2.43.0


From ac05a9146b532d944fc91508143d32547c25dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 18/19] fix: move the helpers of the in-place forms out of the
 documented impl block

ba7513c named the lifetime of the block, which changed the names of its doc
tests.
---
 src/xprs.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index ab349d3..d5dbec9 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -39,7 +39,7 @@ impl fmt::Display for Xprs<'_> {
     }
 }
 
-impl<'a> Xprs<'a> {
+impl Xprs<'_> {
     /// Evaluates the expression using the provided variable values.
     /// Returns an [`f64`] if the evaluation is successful, or an [`EvalError`] if an error occurs.
     ///
@@ -220,19 +220,6 @@ impl<'a> Xprs<'a> {
         self.put_root(tmp);
     }
 
-    /// Moves the root out of the expression, leaving a number in its place
-    /// so that the expression stays valid if a user function panics meanwhile.
-    fn take_root(&mut self) -> Element<'a> {
-        self.vars.clear();
-        mem::replace(&mut self.root, Element::Number(f64::NAN))
-    }
-
-    /// Replaces the root, simplification may have eliminated any variable.
-    fn put_root(&mut self, root: Element<'a>) {
-        root.find_variables(&mut self.vars);
-        self.root = root;
-    }
-
     /// Simplifies the expression in-place for multiple variables and returns the expression.
     ///
     /// # Example
@@ -260,6 +247,21 @@ impl<'a> Xprs<'a> {
     }
 }
 
+impl<'a> Xprs<'a> {
+    /// Moves the root out of the expression, leaving a number in its place
+    /// so that the expression stays valid if a user function panics meanwhile.
+    fn take_root(&mut self) -> Element<'a> {
+        self.vars.clear();
+        mem::replace(&mut self.root, Element::Number(f64::NAN))
+    }
+
+    /// Replaces the root, simplification may have eliminated any variable.
+    fn put_root(&mut self, root: Element<'a>) {
+        root.find_variables(&mut self.vars);
+        self.root = root;
+    }
+}
+
 /// An internal struct used for evaluating expressions.
 ///
 /// This struct is responsible for handling the evaluation of individual elements within an expression.
-- 
2.43.0


From 8312837c460fd36a3d8f80338c212c31088fe143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:44 +0000
Subject: [PATCH 19/19] fix: order functions as equal only when they are equal

---
 src/token/function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/token/function.rs b/src/token/function.rs
index af5da66..1362041 100644
--- a/src/token/function.rs
+++ b/src/token/function.rs
@@ -58,7 +58,11 @@ impl Function {
 impl PartialOrd for Function {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.name.partial_cmp(other.name)
+        match self.name.cmp(other.name) {
+            // only equal functions order as equal
+            Ordering::Equal => (self == other).then_some(Ordering::Equal),
+            ordering @ (Ordering::Less | Ordering::Greater) => Some(ordering),
+        }
     }
 }
 
-- 
2.43.0

