From d3fe9c0554434f846e219bbf5a0e05c4eb148492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 01/38] fix: stop at the end of source in an unterminated
 template literal

read_template_kind had no case for the terminating NUL byte, so lexing a
template literal without a closing backtick ran past the source buffer.
---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..ae3bfa6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
-- 
2.43.0


From 62938d352315cd35328719a76f2223fdfa3fcd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/38] fix: stop at the end of source in an unterminated
 regular expression

read_regular_expression had no case for the terminating NUL byte, so lexing
a regular expression without a closing slash ran past the source buffer.
---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index ae3bfa6..da2a333 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1018,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From f76fbe416ffab3c781158cd6d2acf8ae93da6fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/38] fix: consume unexpected unicode characters, and slice
 only the character itself

A character that cannot start an identifier left the lexer where it was, so
the parser reported the same error forever. The slice that was decoded was
always four bytes long, which could reach past the end of the source or cut
the following character in half.
---
 ratel/src/lexer/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index da2a333..b85412a 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -457,19 +457,12 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
-    let start = lex.index;
-
-    // TODO: unicodes with different lengths
-    let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
+    let first = lex.read_char();
 
     if !first.is_alphanumeric() {
         return lex.token = UnexpectedToken;
     }
 
-    // `read_label` bumps one at the beginning,
-    // so we subtract it here.
-    lex.index += first.len_utf8() - 1;
-
     lex.read_label();
 
     lex.token = Identifier;
@@ -831,6 +824,20 @@ impl<'arena> Lexer<'arena> {
         self.read_byte()
     }
 
+    /// Read the non-ASCII character at the current index, and advance past it.
+    #[inline]
+    fn read_char(&mut self) -> char {
+        let start = self.index;
+
+        self.index += match self.read_byte() {
+            byte if byte >= 0xF0 => 4,
+            byte if byte >= 0xE0 => 3,
+            _                    => 2,
+        };
+
+        self.slice_from(start).chars().next().expect("Has to have one")
+    }
+
     #[inline]
     fn read_binary(&mut self) {
         loop {
-- 
2.43.0


From 374c329bf868a97c660faac6874e0fea2ff47a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 04/38] fix: accessors at the end of source, and accessors
 starting with a unicode letter

The search for the name following a dot skipped the NUL byte terminating the
source and kept reading past it, and panicked on any non-ASCII letter.
---
 ratel/src/lexer/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index b85412a..8157b5e 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -889,12 +889,20 @@ impl<'arena> Lexer<'arena> {
         unwind_loop!({
             ch = self.read_byte();
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    if !self.read_char().is_alphanumeric() {
+                        return self.token = UnexpectedToken;
+                    }
+
+                    self.read_label();
+                    return self.token = Accessor;
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
-- 
2.43.0


From e7b7bbbc06600fca70a99ec7c9f57931f5940e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 05/38] fix: keep the line termination before or inside of a
 comment for ASI

Skipping a comment reset the flag, so a newline that came before a block
comment, or was part of one, did not allow semicolon insertion.
---
 ratel/src/lexer/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 8157b5e..4086387 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -403,7 +403,7 @@ const SLH: ByteHandler = Some(|lex| {
             unwind_loop!({
                 match lex.next_byte() {
                     0 | b'\n' => {
-                        return lex.consume();
+                        return lex.read_token();
                     }
                     _ => {}
                 }
@@ -420,12 +420,16 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.consume();
+                                return lex.read_token();
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
                         }
                     },
+                    b'\n' => {
+                        lex.bump();
+                        lex.asi = Asi::ImplicitSemicolon;
+                    },
                     0 => return lex.token = UnexpectedEndOfProgram,
                     _ => lex.bump()
                 }
@@ -650,6 +654,13 @@ impl<'arena> Lexer<'arena> {
     pub fn consume(&mut self) {
         self.asi = Asi::NoSemicolon;
 
+        self.read_token();
+    }
+
+    /// Read the next token, leaving the ASI flag raised by any line
+    /// termination that precedes it, even if it's followed by a comment.
+    #[inline]
+    fn read_token(&mut self) {
         let mut ch;
 
         unwind_loop!({
-- 
2.43.0


From 9e206490b2e0f47925d3581696ddfc02487a37fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 06/38] fix: stop parsing the statements of a switch case at
 the end of program

An unterminated switch kept reporting the same error forever.
---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..14988bd 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From 4a6bda72d897e6539ba91c9f25d68f04ce86ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 07/38] fix: parse the exponentiation operator as right
 associative

`a ** b ** c` is `a ** (b ** c)`.
---
 ratel/src/parser/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..7913b65 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -426,7 +426,7 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
+binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From 59c9c5900eab370f471d877a8306e95a37204106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 08/38] fix: parenthesize operands, callees and list items when
 their binding power requires it

Only operands of binary expressions and objects of member expressions were
put in parentheses, so `(a, b)()`, `!(a + b)`, `(a ? b : c) ? d : e`,
`f((a, b))` or `var a = (b, c)` were printed as different programs.
---
 ratel-codegen/src/expression.rs | 28 ++++++++++++++--------------
 ratel-codegen/src/function.rs   |  4 ++--
 ratel-codegen/src/lib.rs        | 20 ++++++++++++++++++--
 ratel-codegen/src/statement.rs  |  7 +++++--
 4 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..d4b5232 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -91,7 +91,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
             },
             Method {
                 ref key,
@@ -104,7 +104,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, 1);
             }
         }
     }
@@ -113,7 +113,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
     }
 }
 
@@ -121,7 +121,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -157,9 +157,9 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expression_list(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -222,14 +222,14 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 15);
     }
 }
 
 impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 17);
         gen.write(&self.operator);
     }
 }
@@ -237,15 +237,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, 5);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, 1);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, 1);
     }
 }
 
@@ -281,7 +281,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, 17);
         gen.write(&self.quasi);
     }
 }
@@ -290,7 +290,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, 1);
     }
 }
 
@@ -298,7 +298,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
+            ArrowBody::Expression(ref expression) => gen.write_expression(expression, 1),
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..9c1cb92 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -104,7 +104,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
                 gen.write_byte(b';');
             }
         }
@@ -121,7 +121,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, 17);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..13589ac 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -3,7 +3,7 @@
 extern crate pretty_assertions;
 extern crate ratel;
 
-use ratel::ast::{Node, ExpressionNode, Loc, Block, Pattern};
+use ratel::ast::{Node, ExpressionNode, ExpressionList, Loc, Block, Pattern};
 use ratel::Module;
 
 mod expression;
@@ -55,6 +55,22 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Same as `write_list`, but adds parenthesis around sequence expressions
+    #[inline]
+    fn write_expression_list<'ast>(&mut self, items: &ExpressionList<'ast>) {
+        let mut items = items.iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, 1);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, 1);
+        }
+    }
+
     #[inline]
     fn write_block<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -314,7 +330,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, 1);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..f7157b2 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -72,7 +72,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, 1);
         }
     }
 }
@@ -216,7 +216,10 @@ impl<'ast, G: Generator> ToCode<G> for ForInStatement<'ast> {
         gen.write_bytes(b"for");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-        gen.write(&self.left);
+        match self.left.item {
+            ForInit::Expression(ref left) => gen.write_expression(left, 11),
+            _                             => gen.write(&self.left),
+        }
         gen.write_bytes(b" in ");
         gen.write(&self.right);
         gen.write_byte(b')');
-- 
2.43.0


From dbc694164d97ae3fea3bd6a313f732851748260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 09/38] fix: group arrow functions, exponentiation and
 assignments the way they are parsed

The body of an arrow function extends as far as possible, so an arrow function
needs parentheses in every operand. Operators of the same binding power are
not interchangeable on the left of `**`, which, unlike assignments, was
treated as left associative.
---
 ratel-codegen/src/expression.rs | 20 ++++++++++++++++++--
 ratel/src/ast/expression.rs     |  4 +++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index d4b5232..ed9c52e 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -192,7 +192,14 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        gen.write_expression(&self.left, bp);
+        // Exponentiation does not allow for unary operators or
+        // other multiplicative operators on its left hand side.
+        let left_bp = match self.operator {
+            OperatorKind::Exponent => 16,
+            _                      => bp,
+        };
+
+        gen.write_expression(&self.left, left_bp);
 
         if spacing_left {
             gen.write_byte(b' ');
@@ -211,7 +218,16 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
         // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
         // hence the need for parenthesis in a right-balanced tree
         // even if binding power of operators is exactly the same.
-        gen.write_expression(&self.right, bp + 1);
+        //
+        // Assignments and exponentiation are right-balanced to begin with.
+        let right_bp = match self.right.item {
+            Expression::Binary(BinaryExpression { operator: OperatorKind::Exponent, .. })
+            if self.operator == OperatorKind::Exponent => bp,
+            _ if self.operator.assignment()            => bp,
+            _                                          => bp + 1,
+        };
+
+        gen.write_expression(&self.right, right_bp);
     }
 }
 
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..85c22fa 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,7 +191,7 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_) | MetaProperty(_) => 18,
 
             Call(_) => 17,
 
@@ -202,6 +202,8 @@ impl<'ast> Expression<'ast> {
 
             Conditional(_) => 4,
 
+            Arrow(_) => 3,
+
             Sequence(_) => 0,
 
             _  => 100,
-- 
2.43.0


From 92375bb18880a7ec82d60d2a90b9d7bb2efa0281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 10/38] fix: parenthesize statements and arrow bodies that
 start with a brace or a keyword

Only a bare object, function or class got its parentheses, `({}).foo` or
`(function() {})()` were printed as a block and a function declaration. The
body of `() => ({})` was printed as a block.
---
 ratel-codegen/src/expression.rs | 57 +++++++++++++++++++++++++++------
 ratel-codegen/src/statement.rs  |  3 +-
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index ed9c52e..adb3d8a 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -4,6 +4,44 @@ use ratel::ast::expression::*;
 use {ToCode, Generator};
 
 
+/// Binding power required of the left operand of a binary expression.
+#[inline]
+fn left_binding_power(operator: OperatorKind) -> u8 {
+    match operator {
+        // Exponentiation does not allow for unary operators or
+        // other multiplicative operators on its left hand side.
+        OperatorKind::Exponent => 16,
+        _                      => operator.binding_power(),
+    }
+}
+
+/// Find the expression that the code generated for given expression starts with,
+/// unless it starts with a parenthesis.
+pub fn leftmost<'a, 'ast>(expression: &'a Expression<'ast>) -> &'a Expression<'ast> {
+    use ratel::ast::Expression::*;
+
+    let (inner, bp) = match *expression {
+        Binary(ref binary)           => (&binary.left, left_binding_power(binary.operator)),
+        Conditional(ref conditional) => (&conditional.test, 5),
+        Postfix(ref postfix)         => (&postfix.operand, 17),
+        Call(ref call)               => (&call.callee, 17),
+        TaggedTemplate(ref tagged)   => (&tagged.tag, 17),
+        Member(ref member)           => (&member.object, 19),
+        ComputedMember(ref computed) => (&computed.object, 19),
+        Sequence(ref sequence)       => match sequence.body.iter().next() {
+            Some(first) => (first, 1),
+            None        => return expression,
+        },
+        _ => return expression,
+    };
+
+    if inner.binding_power() < bp {
+        expression
+    } else {
+        leftmost(inner)
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for Expression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -192,14 +230,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        // Exponentiation does not allow for unary operators or
-        // other multiplicative operators on its left hand side.
-        let left_bp = match self.operator {
-            OperatorKind::Exponent => 16,
-            _                      => bp,
-        };
-
-        gen.write_expression(&self.left, left_bp);
+        gen.write_expression(&self.left, left_binding_power(self.operator));
 
         if spacing_left {
             gen.write_byte(b' ');
@@ -314,7 +345,15 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write_expression(expression, 1),
+            ArrowBody::Expression(ref expression) => match *leftmost(expression) {
+                // Would be parsed as a block
+                Expression::Object(_) => {
+                    gen.write_byte(b'(');
+                    gen.write(expression);
+                    gen.write_byte(b')');
+                },
+                _ => gen.write_expression(expression, 1),
+            },
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index f7157b2..8231a24 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -2,6 +2,7 @@ use ratel::ast::{Statement, Declarator, DeclarationKind};
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
+use expression::leftmost;
 use ratel::ast::Node;
 
 
@@ -16,7 +17,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
                 gen.write_bytes(b"debugger");
             },
             Expression(ref expression) => {
-                if expression.is_allowed_as_bare_statement() {
+                if leftmost(expression).is_allowed_as_bare_statement() {
                     gen.write(expression);
                 } else {
                     gen.write_byte(b'(');
-- 
2.43.0


From aae1859e16b28dd0cb302a08459bb16f20968056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 11/38] fix: keep adjacent tokens apart in the generated code

`- -a` was printed as `--a`, `a + +b * c` as `a++b*c`, `a / /b/` as a
comment, and `1 .foo` as `1.foo`.
---
 ratel-codegen/src/expression.rs | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index adb3d8a..4ea8b1a 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -167,7 +167,15 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        match self.object.item {
+            // The dot would become a part of the number
+            Expression::Literal(Literal::Number(number)) if number.bytes().all(|ch| ch.is_ascii_digit()) => {
+                gen.write_byte(b'(');
+                gen.write(&self.object);
+                gen.write_byte(b')');
+            },
+            _ => gen.write_expression(&self.object, 19),
+        }
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
@@ -210,7 +218,15 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 
         let (spacing_left, spacing_right) = match category {
             OperatorCategory::Word => (true, true),
-            OperatorCategory::Safe => (false, false),
+            OperatorCategory::Safe => {
+                // Division followed by a regular expression would start a comment
+                let spacing_right = match *leftmost(&self.right) {
+                    Expression::Literal(Literal::RegEx(_)) => self.operator == OperatorKind::Division,
+                    _ => false
+                };
+
+                (false, spacing_right)
+            },
             category => {
                 let spacing_left = match self.left.item {
                     Expression::Postfix(PostfixExpression { operator, .. }) => {
@@ -219,7 +235,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
                     _ => false
                 };
 
-                let spacing_right = match self.right.item {
+                let spacing_right = match *leftmost(&self.right) {
                     Expression::Prefix(PrefixExpression { operator, .. }) => {
                         category == operator.category()
                     },
@@ -266,9 +282,19 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write(&self.operator);
-        if self.operator.category() == OperatorCategory::Word {
+
+        let spacing = match self.operand.item {
+            Expression::Prefix(PrefixExpression { operator, .. }) => {
+                operator.category() != OperatorCategory::Safe &&
+                operator.category() == self.operator.category()
+            },
+            _ => false
+        };
+
+        if spacing || self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
+
         gen.write_expression(&self.operand, 15);
     }
 }
-- 
2.43.0


From 0fe9b78820d3036216e78fac8fe26269ac06ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/38] fix: write the finally keyword of a try statement

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 8231a24..ccb1512 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -261,6 +261,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From d994bddf1c6aa0955610ff37bfd0b61fbebd8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 13/38] fix: write the asterisk of a generator function

---
 ratel-codegen/src/function.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index 9c1cb92..51a19b2 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -59,6 +59,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
-- 
2.43.0


From a51a9c8b73caa69e0c6ddca05e244f6c7869fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 14/38] fix: write empty statements that are bodies of other
 statements

`if (a);` or `while (a);` swallowed the statement that followed.
---
 ratel-codegen/src/statement.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index ccb1512..94e9773 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{Statement, Declarator, DeclarationKind};
+use ratel::ast::{Statement, StatementNode, Declarator, DeclarationKind};
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
@@ -6,6 +6,16 @@ use expression::leftmost;
 use ratel::ast::Node;
 
 
+/// Write a statement that is a body of another statement. An empty statement
+/// can be skipped in a block, but here it has to be written.
+#[inline]
+fn write_body<'ast, G: Generator>(gen: &mut G, body: &StatementNode<'ast>) {
+    match body.item {
+        Statement::Empty => gen.write_byte(b';'),
+        _                => gen.write(body),
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -132,7 +142,7 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
         gen.write(&self.test);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        write_body(gen, &self.consequent);
 
         if let Some(ref alternate) = self.alternate {
             if self.consequent.is_block() {
@@ -146,7 +156,7 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
             } else {
                 gen.write_byte(b' ');
             }
-            gen.write(alternate);
+            write_body(gen, alternate);
         }
     }
 }
@@ -160,7 +170,7 @@ impl<'ast, G: Generator> ToCode<G> for WhileStatement<'ast> {
         gen.write(&self.test);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -173,7 +183,7 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
         } else {
             gen.write_byte(b' ');
         }
-        gen.write(&self.body);
+        write_body(gen, &self.body);
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
@@ -207,7 +217,7 @@ impl<'ast, G: Generator> ToCode<G> for ForStatement<'ast> {
         gen.write(&self.update);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -225,7 +235,7 @@ impl<'ast, G: Generator> ToCode<G> for ForInStatement<'ast> {
         gen.write(&self.right);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -240,7 +250,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write(&self.right);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
@@ -275,7 +285,7 @@ impl<'ast, G: Generator> ToCode<G> for LabeledStatement<'ast> {
         gen.write(&self.label);
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.body);
+        write_body(gen, &self.body);
     }
 }
 
-- 
2.43.0


From 2e5280150a4e91db4d1db5d7923ecae729a913a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 15/38] fix: consume the semicolon terminating debugger and
 import statements

It was parsed as a separate empty statement, so `if (a) debugger; else b;`
did not parse.
---
 ratel/src/parser/statement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 14988bd..58c8001 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -76,6 +76,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
@@ -664,6 +665,7 @@ impl<'ast> Parser<'ast> {
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
+                self.expect_semicolon();
 
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
@@ -750,6 +752,7 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+        self.expect_semicolon();
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From ab3c382c84821d84122c2ffcdfacdfbd58c2a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 16/38] fix: separate debugger and import statements from the
 statements that follow

They are written without a semicolon, so minifying `debugger; foo()` gave
`debuggerfoo()`.
---
 ratel-codegen/src/lib.rs       | 43 +++++++++++++++++++++++++++++++---
 ratel-codegen/src/statement.rs | 36 ++++++++++++++++++++++++++++
 2 files changed, 76 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 13589ac..82e6194 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -78,18 +78,23 @@ pub trait Generator: Sized {
     {
         let mut items = items.into_iter();
 
-        match items.next() {
+        let mut previous = match items.next() {
             Some(item) => {
                 self.indent();
                 self.new_line();
                 self.write(item);
+                item
             },
             None => return,
-        }
+        };
 
         for item in items {
+            if previous.is_open_ended() {
+                self.write_byte(b';');
+            }
             self.new_line();
             self.write(item);
+            previous = item;
         }
         self.dedent();
         self.new_line();
@@ -198,8 +203,14 @@ pub fn codegen(module: &Module, minify: bool) -> String {
     if minify {
         let mut gen = MinifyingGenerator::default();
 
+        let mut separator = false;
+
         for statement in module.body() {
+            if separator {
+                gen.write_byte(b';');
+            }
             gen.write(statement);
+            separator = ToCode::<MinifyingGenerator>::is_open_ended(statement);
         }
 
         gen.consume()
@@ -207,11 +218,17 @@ pub fn codegen(module: &Module, minify: bool) -> String {
         let mut gen = PrettyGenerator::default();
         let mut body = module.body().iter();
 
-        gen.write(&body.next().cloned());
+        let mut previous = body.next().cloned();
+
+        gen.write(&previous);
 
         for statement in body {
+            if ToCode::<PrettyGenerator>::is_open_ended(&previous) {
+                gen.write_byte(b';');
+            }
             gen.new_line();
             gen.write(statement);
+            previous = Some(*statement);
         }
 
         gen.consume()
@@ -222,6 +239,13 @@ pub fn codegen(module: &Module, minify: bool) -> String {
 /// to efficiently write characters and string slices to the code `Generator`.
 pub trait ToCode<G: Generator> {
     fn to_code(&self, gen: &mut G);
+
+    /// Statements written without their semicolon need one
+    /// to separate them from a statement that follows.
+    #[inline]
+    fn is_open_ended(&self) -> bool {
+        false
+    }
 }
 
 impl<'ast, G, T> ToCode<G> for Node<'ast, T> where
@@ -232,6 +256,11 @@ impl<'ast, G, T> ToCode<G> for Node<'ast, T> where
     fn to_code(&self, gen: &mut G) {
         (**self).to_code(gen)
     }
+
+    #[inline]
+    fn is_open_ended(&self) -> bool {
+        self.item.is_open_ended()
+    }
 }
 
 impl<G, T> ToCode<G> for Loc<T> where
@@ -280,6 +309,14 @@ impl<G, T> ToCode<G> for Option<T> where
             gen.write(val);
         }
     }
+
+    #[inline]
+    fn is_open_ended(&self) -> bool {
+        match *self {
+            Some(ref val) => val.is_open_ended(),
+            None          => false,
+        }
+    }
 }
 
 impl<'ast, G, T> ToCode<G> for Block<'ast, T> where
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 94e9773..d456855 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -59,6 +59,28 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
             Import(ref import)           => gen.write(import)
         }
     }
+
+    #[inline]
+    fn is_open_ended(&self) -> bool {
+        ends_without_semicolon(self)
+    }
+}
+
+fn ends_without_semicolon<'ast>(statement: &Statement<'ast>) -> bool {
+    match *statement {
+        Statement::Debugger                 |
+        Statement::Import(_)                => true,
+        Statement::If(ref if_statement)     => match if_statement.alternate {
+            Some(ref alternate) => ends_without_semicolon(alternate),
+            None                => ends_without_semicolon(&if_statement.consequent),
+        },
+        Statement::While(ref statement)     => ends_without_semicolon(&statement.body),
+        Statement::For(ref statement)       => ends_without_semicolon(&statement.body),
+        Statement::ForIn(ref statement)     => ends_without_semicolon(&statement.body),
+        Statement::ForOf(ref statement)     => ends_without_semicolon(&statement.body),
+        Statement::Labeled(ref statement)   => ends_without_semicolon(&statement.body),
+        _                                   => false,
+    }
 }
 
 impl<G: Generator> ToCode<G> for DeclarationKind {
@@ -145,6 +167,9 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
         write_body(gen, &self.consequent);
 
         if let Some(ref alternate) = self.alternate {
+            if ends_without_semicolon(&self.consequent) {
+                gen.write_byte(b';');
+            }
             if self.consequent.is_block() {
                 gen.write_pretty(b' ');
             } else {
@@ -184,6 +209,9 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
             gen.write_byte(b' ');
         }
         write_body(gen, &self.body);
+        if ends_without_semicolon(&self.body) {
+            gen.write_byte(b';');
+        }
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
@@ -328,6 +356,14 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
         }
         gen.write_block(&self.consequent);
     }
+
+    #[inline]
+    fn is_open_ended(&self) -> bool {
+        match self.consequent.iter().last() {
+            Some(statement) => ends_without_semicolon(statement),
+            None            => false,
+        }
+    }
 }
 
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
-- 
2.43.0


From c985f377cf9b62f3e06c75f45ab766bfe01a5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 17/38] fix: quote the source of an import that contains a
 single quote

---
 ratel-codegen/src/statement.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index d456855..f334c69 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -370,10 +370,13 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"import ");
+
+        let quote = quote_for(self.source);
+
         if self.specifiers.is_empty() {
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             gen.write(&self.source);
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             return
         }
 
@@ -400,11 +403,28 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'}');
         }
 
-        gen.write_bytes(b" from '");
+        gen.write_bytes(b" from ");
+        gen.write_byte(quote);
         gen.write_bytes(self.source.as_bytes());
-        gen.write_byte(b'\'');
+        gen.write_byte(quote);
     }
 }
+
+/// Find the quote that can surround the content of a string literal. The content is never
+/// unescaped, so if there is a single quote in it, it was surrounded with double quotes.
+fn quote_for(content: &str) -> u8 {
+    let mut escaped = false;
+
+    for byte in content.bytes() {
+        if byte == b'\'' && !escaped {
+            return b'"';
+        }
+        escaped = byte == b'\\' && !escaped;
+    }
+
+    b'\''
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForImportSpecifier<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-- 
2.43.0


From 3ce6c92f1657eefddc8e27b8f79842ecda17d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 18/38] fix: push the import declaration on the stack of
 parents before popping it

---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..c4226f9 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From fc86c3346b81f3e77496f8953e71f67b4e250793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 19/38] fix: report the body of the program as a statement list
 to visitors

---
 ratel-visitor/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..61de6fa 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -125,8 +125,8 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
     where
         V: Visitor<'ast>,
     {
-        let body = self.body();
-        for item in body {
+        visitor.on_statement_list(self.body());
+        for item in self.body() {
             item.visit_with(visitor);
         }
     }
-- 
2.43.0


From b2a8ee3620695b72dd2e685ba8d24b1845609091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 20/38] fix: report names bound by an import to visitors as
 declarations, instead of uses

---
 ratel-visitor/src/statement.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index c4226f9..1d68120 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -393,7 +393,6 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
         self.specifiers.visit_with(visitor);
     }
 }
@@ -422,8 +421,7 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -435,7 +433,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -447,6 +445,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
-- 
2.43.0


From a0c82247728d633b46032fff1d1f946523c39cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 21/38] fix: do not report the names in a meta property to
 visitors as uses

---
 ratel-visitor/src/expression.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..c30004f 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -198,12 +198,8 @@ impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {
+        // Neither of the names is a reference to a variable
     }
 }
 
-- 
2.43.0


From 4743f4dd2a7621de3a3f6ff5e48605391ddde37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 22/38] fix: enter a function scope when visiting an arrow
 function

---
 ratel-visitor/src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index c30004f..1b852d1 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Identifier, Expression, ExpressionNode, StatementNode, Literal};
 use ratel::ast::expression::*;
 
-use {Visitor, Visitable, ParentNode};
+use {Visitor, Visitable, ParentNode, ScopeKind};
 
 
 impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
@@ -327,8 +327,10 @@ impl<'ast> Visitable<'ast> for ArrowExpression<'ast> {
     where
         V: Visitor<'ast>,
     {
+        visitor.on_enter_scope(ScopeKind::Function);
         self.params.visit_with(visitor);
         self.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 0687ba3343efed5fb01672dfcb67857fec1aae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 23/38] fix: declare the parameter of a catch clause in the
 scope of its block

---
 ratel-visitor/src/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index 1d68120..fc8f244 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -325,8 +325,12 @@ impl<'ast> Visitable<'ast> for CatchClause<'ast> {
     where
         V: Visitor<'ast>,
     {
+        // Call visit on the StatementList instead of BlockNode since we
+        // need to make sure that the parameter ends up inside the block
+        visitor.on_enter_scope(ScopeKind::Block);
         self.param.visit_with(visitor);
-        self.body.visit_with(visitor);
+        self.body.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 6419cc9ecec51936ff41276ded3014bf98c30c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 24/38] fix: report names bound by object patterns and rest
 parameters to visitors as declarations

---
 ratel-visitor/src/lib.rs | 54 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 61de6fa..3497250 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -6,7 +6,7 @@ extern crate ratel;
 use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 use ratel::ast::{ExpressionList, ExpressionNode, StatementList, StatementNode};
-use ratel::ast::{Identifier, Literal, Node, NodeList, Pattern};
+use ratel::ast::{Expression, Identifier, Literal, Node, NodeList, OperatorKind, Pattern};
 
 use ratel::Module;
 
@@ -144,13 +144,15 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::Void => {}
             Pattern::Identifier(ref ident) => visitor.on_reference_declaration(ident),
             Pattern::ObjectPattern { ref properties } => {
-                properties.visit_with(visitor);
+                for property in properties {
+                    visit_bound_property(&property.item, visitor);
+                }
             }
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
             }
             Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
+                visitor.on_reference_declaration(&argument.item);
             }
             Pattern::AssignmentPattern {
                 ref left,
@@ -163,6 +165,52 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
     }
 }
 
+/// Visit a property of an object pattern, names bound by it are declarations
+fn visit_bound_property<'ast, V>(property: &'ast Property<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match *property {
+        Property::Shorthand(ref ident) => visitor.on_reference_declaration(ident),
+        Property::Literal { ref key, ref value } => {
+            key.visit_with(visitor);
+            visit_bound_expression(value, visitor);
+        }
+        Property::Method { .. } => property.visit_with(visitor),
+        Property::Spread { ref argument } => visit_bound_expression(argument, visitor),
+    }
+}
+
+/// Visit an expression that stands for a nested pattern
+fn visit_bound_expression<'ast, V>(node: &'ast ExpressionNode<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match node.item {
+        Expression::Identifier(ref ident) => visitor.on_reference_declaration(ident),
+        Expression::Object(ref object) => {
+            for property in &object.body {
+                visit_bound_property(&property.item, visitor);
+            }
+        }
+        Expression::Array(ref array) => {
+            for element in &array.body {
+                visit_bound_expression(element, visitor);
+            }
+        }
+        Expression::Spread(ref spread) => visit_bound_expression(&spread.argument, visitor),
+        Expression::Binary(BinaryExpression {
+            operator: OperatorKind::Assign,
+            ref left,
+            ref right,
+        }) => {
+            visit_bound_expression(left, visitor);
+            right.visit_with(visitor);
+        }
+        _ => node.visit_with(visitor),
+    }
+}
+
 impl<'ast> Visitable<'ast> for PropertyKey<'ast> {
     type Parent = Node<'ast, Self>;
 
-- 
2.43.0


From 19d5b6c14c8e57ef7e0b15a51e1fd567cc4f8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 25/38] fix: report the right line of an unexpected token that
 is first on its line

---
 ratel/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..c9e5441 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -49,8 +49,9 @@ impl Display for ParseError {
                 start,
                 end
             } => {
+                // Can't use `lines` here, it skips the last line if it's empty
                 let (lineno, line) = source[..start]
-                                       .lines()
+                                       .split('\n')
                                        .enumerate()
                                        .last()
                                        .unwrap_or((0, ""));
-- 
2.43.0


From 29683a02f54bc3722de91d4854a079e2dc9040b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 26/38] fix: only the first call after new belongs to it

---
 ratel-codegen/src/expression.rs | 38 ++++++++++++++++++++++++++++++++-
 ratel/src/parser/expression.rs  | 33 ++++++++++++++++++++++++++--
 ratel/src/parser/nested.rs      | 13 +++++++++++
 3 files changed, 81 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4ea8b1a..a479447 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
+use ratel::ast::{Expression, ExpressionNode, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
 use {ToCode, Generator};
@@ -278,11 +278,47 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
     }
 }
 
+/// Write an operand of the `new` operator, up to but without the arguments.
+#[inline]
+fn write_new_callee<'ast, G: Generator>(gen: &mut G, callee: &ExpressionNode<'ast>) {
+    let mut leading = callee;
+
+    while let Expression::TaggedTemplate(ref tagged) = leading.item {
+        leading = &tagged.tag;
+    }
+
+    match leading.item {
+        // Arguments of the call would become the arguments of `new`
+        Expression::Call(_) => {
+            gen.write_byte(b'(');
+            gen.write(callee);
+            gen.write_byte(b')');
+        },
+        _ => gen.write_expression(callee, 17),
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write(&self.operator);
 
+        if self.operator == OperatorKind::New {
+            gen.write_byte(b' ');
+
+            match self.operand.item {
+                Expression::Call(ref call) => {
+                    write_new_callee(gen, &call.callee);
+                    gen.write_byte(b'(');
+                    gen.write_expression_list(&call.arguments);
+                    gen.write_byte(b')');
+                },
+                _ => write_new_callee(gen, &self.operand),
+            }
+
+            return;
+        }
+
         let spacing = match self.operand.item {
             Expression::Prefix(PrefixExpression { operator, .. }) => {
                 operator.category() != OperatorCategory::Safe &&
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..bf21a3b 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, B18};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -153,7 +153,7 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let expression = par.new_expression();
             let end = par.lexer.end();
             par.alloc_at_loc(start, end, expression)
         }
@@ -344,6 +344,35 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    #[inline]
+    pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let callee = self.expression::<B18>();
+
+        // Only the first arguments belong to `new`
+        let operand = match self.lexer.token {
+            ParenOpen => {
+                let start = self.lexer.start_then_consume();
+                let arguments = self.call_arguments();
+                let end = self.lexer.end_then_consume();
+
+                self.alloc_at_loc(start, end, CallExpression { callee, arguments })
+            },
+            _ => match callee.item {
+                // Arguments of a call in parenthesis don't belong to `new`
+                Expression::Call(_) => self.alloc_at_loc(callee.start, callee.end, CallExpression {
+                    callee,
+                    arguments: NodeList::empty(),
+                }),
+                _ => callee,
+            }
+        };
+
+        PrefixExpression {
+            operator: OperatorKind::New,
+            operand,
+        }
+    }
+
     #[inline]
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 7913b65..03a16b0 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Only member access and tagged templates, for callees of `new`
+bp!(B18, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
-- 
2.43.0


From 0d2e0961e31534f5a125e3e4b2d03d7920c90abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 27/38] fix: serialize new expressions without arguments,
 whatever the callee is

---
 ratel/src/astgen/expression.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..b578233 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,7 +164,7 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
@@ -172,7 +172,6 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", &arguments)
                     })
                 },
-                _ => unimplemented!()
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From 54da2f6464f06d41c128c254618c18e4000ed55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 28/38] fix: serialize class properties instead of panicking

---
 ratel/src/astgen/function.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..3145b3c 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -36,8 +36,13 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
-- 
2.43.0


From a364181816d54cf3b2a41c9acbfc316b5309f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 29/38] fix: serialize numbers with an exponent, and numbers
 that do not fit in 32 bits

---
 ratel/src/astgen/value.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..453e222 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -27,7 +27,25 @@ pub fn parse_regex(value: &str) -> RegExLiteral {
 
 #[inline]
 pub fn is_float(value: &str) -> bool {
-    value.bytes().any(|c| c == b'.')
+    value.bytes().any(|c| c == b'.' || c == b'e' || c == b'E')
+}
+
+/// Integers that do not fit in 64 bits are numbers in JavaScript still
+#[inline]
+fn serialize_integer<S>(state: &mut S, digits: &str, radix: u32) -> Result<(), S::Error>
+where
+    S: SerializeStruct,
+{
+    match i64::from_str_radix(digits, radix) {
+        Ok(value) => state.serialize_field("value", &value),
+        Err(_)    => {
+            let value = digits.chars().filter_map(|ch| ch.to_digit(radix)).fold(0.0, |value, digit| {
+                value * f64::from(radix) + f64::from(digit)
+            });
+
+            state.serialize_field("value", &value)
+        }
+    }
 }
 
 #[derive(Debug)]
@@ -205,30 +223,24 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         if is_hexdecimal || is_octal {
                             let value = unsafe { number.get_unchecked(2..number.len()) };
                             let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
+                            serialize_integer(state, value, radix)?;
                             return state.serialize_field("raw", &number)
                         }
                     }
 
-                    if is_float(number) {
+                    // Up to 18 digits always fit in 64 bits
+                    if is_float(number) || number.len() > 18 {
                         let value: f64 = number.parse().expect("Invalid number");
                         state.serialize_field("value", &value)?;
                         return state.serialize_field("raw", &number)
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
+                    serialize_integer(state, number, 10)?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
                     let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    serialize_integer(state, value, 2)?;
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From b0f30625bf708fe3d0409ac0721a0c753806cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 30/38] fix: report blocks that are not closed at the end of
 program

---
 ratel/src/parser/mod.rs       | 14 ++++++++++++--
 ratel/src/parser/statement.rs |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..a8dab02 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -127,7 +127,7 @@ impl<'ast> Parser<'ast> {
         }
 
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.block_end();
 
         self.alloc_at_loc(start, end, block)
     }
@@ -139,7 +139,7 @@ impl<'ast> Parser<'ast> {
     {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.block_end();
 
         self.alloc_at_loc(start, end, block)
     }
@@ -162,6 +162,16 @@ impl<'ast> Parser<'ast> {
         Block { body: builder.as_list() }
     }
 
+    /// Expect the closing brace of a block, returns its end position
+    #[inline]
+    fn block_end(&mut self) -> u32 {
+        let end = self.lexer.end();
+
+        expect!(self, BraceClose);
+
+        end
+    }
+
     #[inline]
     fn identifier(&mut self) -> IdentifierNode<'ast> {
         match self.lexer.token {
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 58c8001..423f9d2 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -177,7 +177,7 @@ impl<'ast> Parser<'ast> {
     pub fn block_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.block_end();
 
         self.alloc_at_loc(start, end, block)
     }
-- 
2.43.0


From 39439aab07be1453ab8e3faeaa251831bc04c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 31/38] fix: consume the semicolon terminating a do statement

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 423f9d2..f34aa67 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -473,6 +473,11 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end();
         expect!(self, ParenClose);
 
+        // The semicolon is optional, even if no line termination follows
+        if self.lexer.token == Semicolon {
+            self.lexer.consume();
+        }
+
         self.alloc_at_loc(start, end, DoStatement {
             body,
             test,
-- 
2.43.0


From c1decf61fc5bcb8623990c6b828396a0d72ad75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 32/38] fix: keep operators of lower precedence than in out of
 the head of a for-in loop

The head was recognised by looking for a binary in expression after parsing
all of it, so that 'for (a in b, c)' was an error, and 'for (a = b in c;;)'
printed unambiguously by the code generator lost its grouping.
---
 ratel-codegen/src/statement.rs | 24 ++++++++++++++++++++++--
 ratel/src/parser/statement.rs  | 32 ++++++--------------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index f334c69..81ff5b4 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{Statement, StatementNode, Declarator, DeclarationKind};
+use ratel::ast::{Statement, StatementNode, Expression, Declarator, DeclarationKind, OperatorKind};
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
@@ -220,11 +220,31 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
     }
 }
 
+/// Whether the expression could be mistaken for the head of a for-in loop.
+fn starts_with_in<'ast>(expression: &Expression<'ast>) -> bool {
+    match *expression {
+        Expression::Binary(ref binary) => {
+            binary.operator == OperatorKind::In || starts_with_in(&binary.left)
+        },
+        Expression::Conditional(ref conditional) => starts_with_in(&conditional.test),
+        Expression::Sequence(ref sequence)       => match sequence.body.iter().next() {
+            Some(first) => starts_with_in(first),
+            None        => false,
+        },
+        _ => false,
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForInit<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
             ForInit::Declaration(ref declaration) => gen.write(declaration),
+            ForInit::Expression(ref expression) if starts_with_in(expression) => {
+                gen.write_byte(b'(');
+                gen.write(expression);
+                gen.write_byte(b')');
+            },
             ForInit::Expression(ref expression) => gen.write(expression),
         }
     }
@@ -256,7 +276,7 @@ impl<'ast, G: Generator> ToCode<G> for ForInStatement<'ast> {
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
         match self.left.item {
-            ForInit::Expression(ref left) => gen.write_expression(left, 11),
+            ForInit::Expression(ref left) => gen.write_expression(left, 12),
             _                             => gen.write(&self.left),
         }
         gen.write_bytes(b" in ");
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index f34aa67..92d7af3 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,16 +1,14 @@
 use toolshed::list::{ListBuilder, GrowableList};
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, B11};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
-use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
-use ast::expression::BinaryExpression;
+use ast::{Statement, StatementNode, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
 use ast::statement::{DeclarationStatement, ForStatement, ForInStatement, ForOfStatement};
 use ast::statement::{SwitchStatement, SwitchCase, LabeledStatement, ForInit};
 use ast::statement::{ImportDeclaration, ImportDefaultSpecifier, ImportNamespaceSpecifier, ImportSpecifier, ForImportSpecifier};
-use ast::OperatorKind::*;
 
 
 type StatementHandler = for<'ast> fn(&mut Parser<'ast>) -> StatementNode<'ast>;
@@ -510,17 +508,11 @@ impl<'ast> Parser<'ast> {
             DeclarationLet   => Some(self.for_init(DeclarationKind::Let)),
             DeclarationConst => Some(self.for_init(DeclarationKind::Const)),
             _ => {
-                let init = self.expression::<ANY>();
+                // Stop at the `in` keyword
+                let mut init = self.expression::<B11>();
 
-                if let Expression::Binary(BinaryExpression {
-                    operator: In,
-                    left,
-                    right,
-                    ..
-                }) = init.item {
-                    let left = self.alloc_at_loc(left.start, left.end, left);
-
-                    return self.for_in_statement_from_parts(start, left, right);
+                if self.lexer.token != OperatorIn {
+                    init = self.nested_expression::<ANY>(init);
                 }
 
                 Some(self.alloc_at_loc(init.start, init.end, init))
@@ -577,18 +569,6 @@ impl<'ast> Parser<'ast> {
         })
     }
 
-    fn for_in_statement_from_parts(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>, right: ExpressionNode<'ast>) -> StatementNode<'ast> {
-        expect!(self, ParenClose);
-
-        let body = self.statement();
-
-        self.alloc_at_loc(start, body.end, ForInStatement {
-            left,
-            right,
-            body,
-        })
-    }
-
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
-- 
2.43.0


From 496edb1000d9f3a4f8cbb9e1a9aa1e70e71940d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 33/38] fix: allow comments between a dot and the property name
 that follows it

---
 ratel/src/lexer/mod.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 4086387..8363883 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -904,6 +904,10 @@ impl<'arena> Lexer<'arena> {
                 return self.token = UnexpectedEndOfProgram;
             }
 
+            if ch == b'/' && self.skip_comment() {
+                return self.read_accessor();
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
@@ -926,6 +930,42 @@ impl<'arena> Lexer<'arena> {
         })
     }
 
+    /// Skip the comment between an accessor (`.`) and the identifier following it.
+    /// Returns false, without advancing, if there is none at the current index.
+    #[inline]
+    fn skip_comment(&mut self) -> bool {
+        let start = self.index;
+
+        match self.next_byte() {
+            b'/' => loop {
+                match self.next_byte() {
+                    0 | b'\n' => return true,
+                    _ => {}
+                }
+            },
+            b'*' => {
+                self.bump();
+
+                loop {
+                    match self.read_byte() {
+                        b'*' => {
+                            if self.next_byte() == b'/' {
+                                self.bump();
+                                return true;
+                            }
+                        },
+                        0 => return true,
+                        _ => self.bump()
+                    }
+                }
+            },
+            _ => {
+                self.index = start;
+                false
+            }
+        }
+    }
+
     #[inline]
     fn read_label(&mut self) {
         while util::legal_in_label(self.read_byte()) {
-- 
2.43.0


From 5a3d4a18ea6f0358236ee215cbb83acee76bf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:20 +0000
Subject: [PATCH 34/38] fix: accept every reserved word as a property name

---
 ratel/src/lexer/token.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ratel/src/lexer/token.rs b/ratel/src/lexer/token.rs
index e1f0eef..ed49bfe 100644
--- a/ratel/src/lexer/token.rs
+++ b/ratel/src/lexer/token.rs
@@ -130,6 +130,9 @@ impl Token {
 
         match self {
             Identifier         |
+            DeclarationVar     |
+            DeclarationLet     |
+            DeclarationConst   |
             Break              |
             Do                 |
             Case               |
@@ -161,6 +164,14 @@ impl Token {
             OperatorVoid       |
             OperatorDelete     |
             OperatorInstanceof |
+            OperatorIn         |
+            ReservedEnum       |
+            ReservedImplements |
+            ReservedPackage    |
+            ReservedProtected  |
+            ReservedInterface  |
+            ReservedPrivate    |
+            ReservedPublic     |
             LiteralTrue        |
             LiteralFalse       |
             LiteralNull        |
-- 
2.43.0


From c89aaee870f9a1be2b03ae78753e2fa990ac599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 35/38] fix: a number needs the digits its prefix or exponent
 calls for

---
 ratel/src/lexer/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 8363883..089632a 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -851,6 +851,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        let start = self.index;
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -863,7 +865,7 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        self.token = LiteralBinary;
+        self.token = if self.index == start { UnexpectedToken } else { LiteralBinary };
     }
 
     /// This is a specialized method that expects the next token to be an identifier,
@@ -993,6 +995,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -1000,11 +1004,13 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = if self.index == start { UnexpectedToken } else { LiteralNumber };
     }
 
     #[inline]
     fn read_hexadec(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -1014,7 +1020,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = if self.index == start { UnexpectedToken } else { LiteralNumber };
     }
 
     #[inline]
@@ -1040,6 +1046,8 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
@@ -1047,7 +1055,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = if self.index == start { UnexpectedToken } else { LiteralNumber };
     }
 
     #[inline]
-- 
2.43.0


From 53b5787ee8c6d43734ec2891c5207eb7dbb12cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 36/38] fix: export holes of an array pattern as null

---
 ratel/src/astgen/value.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 453e222..8eb334d 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -271,7 +271,16 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
-                state.serialize_field("elements", &elements)
+                let mut elems = elements.iter()
+                                        .map(|loc| if loc.item != Pattern::Void { Some(loc) } else { None } )
+                                        .collect::<Vec<_>>();
+
+                // The hole after a trailing comma is not an element
+                if let Some(&None) = elems.last() {
+                    elems.pop();
+                }
+
+                state.serialize_field("elements", &elems)
             }),
             AssignmentPattern { left, right } => {
                 self.in_loc(serializer, "AssignmentPattern", 2, |state| {
-- 
2.43.0


From 1507cc23037b4d6325bfe4a753a877596186d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 37/38] fix: export computed keys of methods and class members
 as computed

---
 ratel/src/astgen/function.rs |  5 +++--
 ratel/src/astgen/value.rs    | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 3145b3c..20028c7 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -1,5 +1,6 @@
 use serde::ser::{Serialize, Serializer, SerializeStruct};
 use astgen::SerializeInLoc;
+use astgen::value::is_computed;
 use ast::{Function, Class, Name, MandatoryName, OptionalName, EmptyName, ClassMember, Block};
 use ast::MethodKind;
 
@@ -31,7 +32,7 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &is_computed(&key.item))?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
@@ -39,7 +40,7 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
             Literal { is_static, key, value } => {
                 self.in_loc(serializer, "PropertyDefinition", 4, |state| {
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &is_computed(&key.item))?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 8eb334d..494d2ec 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -48,6 +48,14 @@ where
     }
 }
 
+#[inline]
+pub fn is_computed<'ast>(key: &PropertyKey<'ast>) -> bool {
+    match *key {
+        PropertyKey::Computed(_) => true,
+        _                        => false,
+    }
+}
+
 #[derive(Debug)]
 pub struct TemplateElement<'ast> {
     pub tail: bool,
@@ -132,17 +140,11 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 Expression::Identifier(value).serialize(serializer)
             }
             Literal { key, value } => {
-                let computed = if let PropertyKey::Computed(_) = key.item {
-                    true
-                } else {
-                    false
-                };
-
                 self.in_loc(serializer, "Property", 6, |state| {
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("method", &false)?;
                     state.serialize_field("shorthand", &false)?;
-                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("computed", &is_computed(&key.item))?;
                     state.serialize_field("value", &value)?;
                     state.serialize_field("kind", &"init")
                 })
@@ -151,7 +153,7 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 state.serialize_field("key", &*key)?;
                 state.serialize_field("method", &true)?;
                 state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
+                state.serialize_field("computed", &is_computed(&key.item))?;
                 state.serialize_field("value", &value)?;
                 state.serialize_field("kind", &"init")
             }),
-- 
2.43.0


From 336fc09718e5112d15f7ea76ce6bb58106d5305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:42 +0000
Subject: [PATCH 38/38] fix: transform() changed copies of nodes, so arrow
 functions stayed

swap() took the node by value and set the copy. It now sets the node in the
tree. An arrow function that is the whole body of another one is replaced
with it: the new return statement holds a node that no visit reaches.
---
 ratel-transformer/src/es2015/arrow.rs | 28 ++++++++++++++++++---------
 ratel-transformer/src/lib.rs          |  4 +++-
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index c01ea7b..6f3fe11 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{NodeList, ExpressionNode, Function, Name, OptionalName, Block};
+use ratel::ast::{NodeList, Expression, ExpressionNode, Function, Name, OptionalName, Block};
 use ratel::ast::expression::{ArrowExpression, ArrowBody};
 use ratel::ast::statement::ReturnStatement;
 use ratel_visitor::Visitor;
@@ -15,15 +15,19 @@ impl<'ast> TransformArrow<'ast> {
             ctx
         }
     }
-}
 
-impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
-    fn on_arrow_expression(&mut self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+    fn replace(&self, node: &ArrowExpression<'ast>, ptr: &ExpressionNode<'ast>) -> ExpressionNode<'ast> {
         let body = match node.body {
             ArrowBody::Block(block)     => block,
-            ArrowBody::Expression(expr) => {
-                let ret = self.ctx.alloc_as_loc(&expr, ReturnStatement {
-                    value: Some(expr)
+            ArrowBody::Expression(ref expr) => {
+                // The new statement gets a node of its own that isn't visited
+                let value = match expr.item {
+                    Expression::Arrow(ref arrow) => self.replace(arrow, expr),
+                    _                            => *expr,
+                };
+
+                let ret = self.ctx.alloc_as_loc(expr, ReturnStatement {
+                    value: Some(value)
                 });
 
                 self.ctx.alloc_as_loc(&ret, Block {
@@ -32,11 +36,17 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
             }
         };
 
-        self.ctx.swap(*ptr, Function {
+        self.ctx.swap(ptr, Function {
             name: OptionalName::empty(),
             generator: false,
             params: node.params,
             body,
-        });
+        })
+    }
+}
+
+impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
+    fn on_arrow_expression(&mut self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+        self.replace(node, ptr);
     }
 }
diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index 7a345a4..1435c7e 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -61,7 +61,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 
     #[inline]
-    pub fn swap<T, I>(&self, ptr: Node<'ast, T>, item: I) where
+    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) -> Node<'ast, T> where
         T: Copy + 'ast,
         I: Into<T>,
     {
@@ -72,6 +72,8 @@ impl<'ast> TransformerCtxt<'ast> {
         });
 
         ptr.set(new);
+
+        Node::new(new)
     }
 }
 
-- 
2.43.0

