From 6fb8ce76979d69f2c3f73c07a8679ea9ab49253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 01/20] fix: report tokens without a parser rule instead of
 panicking

---
 dice-syntax/src/parser/rules.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..45717c5 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
-use dice_core::error::Error;
+use dice_core::error::{
+    codes::{RESERVED_KEYWORD, UNRECOGNIZED_INPUT},
+    Error,
+};
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,16 +230,15 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = if token.kind == TokenKind::Reserved {
+                RESERVED_KEYWORD
+            } else {
+                UNRECOGNIZED_INPUT
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            Error::new(error).with_span(token.span).with_tags(tags! {
+                input => token.slice.to_string()
+            })
         })
     }
 
-- 
2.43.0


From a390509fe04135e3c57d09fc93544254f95c4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 02/20] fix: report unterminated strings and backslash
 arguments as such

---
 data/locales/en-US/errors.ftl  | 1 +
 dice-syntax/src/lexer/token.rs | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..929c5e7 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -8,6 +8,7 @@ E1005 = Function has too many arguments (max: 255).
 E1006 = Operator has an incorrect number of arguments (1 for unary operators and 2 for binary).
 E1007 = Invalid integer value: {$message}
 E1008 = Invalid float value: {$message}
+E1009 = Unterminated backslash argument encountered.
 
 # Compiler errors
 E2000 = Internal Compiler Error (please report this as a bug with code to reproduce the issue).
diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..a3f86a7 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -7,7 +7,7 @@ use logos::{Lexer, Logos};
 
 use dice_core::{
     error::{
-        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_STRING},
+        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_BACKSLASH_ARG, UNTERMINATED_STRING},
         Error, ResultExt,
     },
     source::Source,
@@ -319,7 +319,7 @@ fn lex_backslash_arg(lexer: &mut Lexer<TokenKind>) -> bool {
                 input.push(current);
             }
             None => {
-                // lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
+                lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
                 return false;
             }
         }
@@ -372,7 +372,7 @@ fn lex_string(lexer: &mut Lexer<TokenKind>) -> bool {
                 result.push(current);
             }
             None => {
-                //   lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
+                lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
                 return false;
             }
         }
-- 
2.43.0


From 456e070f525a6555f55d3dbb29363972692a33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 03/20] fix: reject input after a stray closing brace instead
 of ignoring it

---
 dice-syntax/src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..b07ebd5 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -53,6 +53,7 @@ impl<'a> Parser<'a> {
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
+        self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
-- 
2.43.0


From 5e14aaf7f86c07b32e6e8d29c68a72a86cb03155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:52 +0000
Subject: [PATCH 04/20] fix: treat an empty line comment as a comment

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a3f86a7..85aae62 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From 772f3c91014caaf093b4a1aac3234b82a2f65286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 05/20] fix: consume the identifier of an export declaration

---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index b07ebd5..cd55548 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -321,9 +321,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.next()?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From 5a7d44f8565614c6bcc5a4c2bdb72bba0e4ea2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 06/20] fix: reject an else that is not followed by a block or
 if

---
 dice-syntax/src/parser/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index cd55548..dc33ea7 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -151,10 +151,10 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
-                TokenKind::If => Some(self.if_expression(false)?),
-                TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+            if self.lexer.peek()?.kind == TokenKind::If {
+                Some(self.if_expression(false)?)
+            } else {
+                Some(self.block_expression(false)?)
             }
         } else {
             None
-- 
2.43.0


From 609462138cf3caa5dbe37311be9a63cc31d8e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 07/20] fix: do not include the quotes in the name of a quoted
 object field

---
 dice-syntax/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index dc33ea7..9aaca3c 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -951,7 +951,10 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)
+                    .with_source(|| self.source.clone())
+                    .with_span(|| next.span)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
-- 
2.43.0


From 598e867721f2d94a03109745665a43a36b478597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 08/20] fix: honour mut on destructured variables

---
 dice-compiler/src/visitor/decl_var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 934efb5..087daeb 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -52,7 +52,7 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
 
                 Ok((item.as_str(), slot as u8))
             })
-- 
2.43.0


From 98536c8cba9c896767b38d5d7b512218d64b8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 09/20] fix: reject duplicate parameters of anonymous functions

---
 dice-compiler/src/visitor/literal_anonymous_fn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index ab35579..90d05f0 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -8,6 +8,8 @@ use super::NodeVisitor;
 
 impl NodeVisitor<&LitAnonymousFn> for Compiler {
     fn visit(&mut self, node: &LitAnonymousFn) -> Result<(), Error> {
+        Self::assert_unique_params(&node.args, node.span)?;
+
         let id = uuid::Uuid::new_v4();
         let name = format!("__anonymous_fn_{id}");
         let body = self.syntax_tree.child(node.body);
-- 
2.43.0


From 28a6f4990f16d023922173fe1014f25ac2e07c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 10/20] fix: evaluate the operand of a nullable type test once

---
 dice-compiler/src/visitor/expr_is.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..59914ee 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -11,15 +11,23 @@ impl NodeVisitor<&Is> for Compiler {
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
+                    DUP 0;
                     PUSH_NULL;
                     EQ;
-                    DUP 0;
-                    JUMP_IF_TRUE -> type_check_jump;
+                    JUMP_IF_FALSE -> type_check_jump;
                     POP;
-                    {self.visit(*value)?};
+                    PUSH_BOOL true;
+                ]
+            }
+
+            let end_jump = self.assembler()?.jump(*span);
+
+            emit_bytecode! {
+                self.assembler()?, *span => [
+                    PATCH_JUMP <- type_check_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                    PATCH_JUMP <- end_jump;
                 ]
             }
         } else {
-- 
2.43.0


From 4ea96bcf9c3e75f0e78b99f70cf18a043899b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 11/20] fix: initialize the declared function or class when
 another variable has its name

---
 dice-compiler/src/scope_stack.rs        | 18 ++++++++++++++++++
 dice-compiler/src/visitor/decl_class.rs |  3 +--
 dice-compiler/src/visitor/decl_fn.rs    |  3 +--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..927a95e 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -142,6 +142,24 @@ impl ScopeStack {
             .find(|var| var.name == name)
     }
 
+    /// Find the inner most variable of the given name that was declared as a function.
+    pub fn function(&mut self, name: &str) -> Option<&mut ScopeVariable> {
+        self.find(|var| var.name == name && matches!(var.state, State::Function { .. }))
+    }
+
+    /// Find the inner most variable of the given name that was declared as a class.
+    pub fn class(&mut self, name: &str) -> Option<&mut ScopeVariable> {
+        self.find(|var| var.name == name && matches!(var.state, State::Class { .. }))
+    }
+
+    fn find(&mut self, predicate: impl Fn(&ScopeVariable) -> bool) -> Option<&mut ScopeVariable> {
+        self.stack
+            .iter_mut()
+            .rev()
+            .flat_map(|scope| scope.variables.iter_mut().rev())
+            .find(|var| predicate(var))
+    }
+
     pub fn top_mut(&mut self) -> Result<&mut ScopeContext, Error> {
         self.stack.last_mut().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..bafea8d 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -47,11 +47,10 @@ impl NodeVisitor<&ClassDecl> for Compiler {
         }
 
         let slot = {
-            let class_name: String = (&*node.name.identifier).into();
             let local = self
                 .context()?
                 .scope_stack()
-                .local(class_name)
+                .class(&node.name.identifier)
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
             // NOTE: Check if a class of the given name has already been initialized.
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..168d05c 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -60,10 +60,9 @@ impl Compiler {
         compiled_fn: ConstantValue,
     ) -> Result<(), Error> {
         let context = self.context()?;
-        let fn_name: String = (&*fn_decl.name.identifier).into();
         let local = context
             .scope_stack()
-            .local(fn_name)
+            .function(&fn_decl.name.identifier)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
         // NOTE: Check if a function of the given name has already been initialized.
-- 
2.43.0


From 23bcbf0e8868037e152c8af82000f7e1ff56dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:45 +0000
Subject: [PATCH 12/20] fix: reject super calls outside of methods instead of
 panicking

---
 dice-compiler/src/visitor/expr_super_call.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..c8d3300 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,20 +1,27 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
             .local(SELF)
-            .expect("self should always be declared in constructors.")
+            .expect("self should always be declared in methods and constructors.")
             .slot as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
-- 
2.43.0


From df3e12f2d3bfdde0779c6595c4fdfcbab03a30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:03 +0000
Subject: [PATCH 13/20] fix: export the variables of a destructured declaration
 instead of panicking

---
 dice-compiler/src/visitor/decl_export.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..8a00eec 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -7,7 +7,7 @@ use dice_core::{
     protocol::module::EXPORT,
     tags,
 };
-use dice_syntax::{ExportDecl, SyntaxNode, VarDecl, VarDeclKind};
+use dice_syntax::{ExportDecl, LitIdent, SyntaxNode, VarDecl, VarDeclKind};
 
 use crate::{compiler::Compiler, compiler_stack::CompilerKind, visitor::NodeVisitor};
 
@@ -37,6 +37,25 @@ impl NodeVisitor<&ExportDecl> for Compiler {
             .local(EXPORT)
             .expect("#export should always be defined in modules.")
             .slot as u8;
+        // NOTE: A destructured declaration exports each of its variables; the declared value is left as the result.
+        if let SyntaxNode::VarDecl(VarDecl {
+            kind: VarDeclKind::Destructured(names),
+            ..
+        }) = self.syntax_tree.get(node.export)
+        {
+            let names = names.clone();
+            self.visit(node.export)?;
+
+            for name in names {
+                self.assembler()?.load_local(export_slot, node.span);
+                self.visit(&LitIdent::synthesize(name.clone(), node.span))?;
+                self.assembler()?.store_field(name, node.span)?;
+                self.assembler()?.pop(node.span);
+            }
+
+            return Ok(());
+        }
+
         self.assembler()?.load_local(export_slot, node.span);
         self.visit(node.export)?;
 
-- 
2.43.0


From 259a87058244ad15058978a2be1cd1b244f207c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 14/20] fix: keep null propagation inside an operand from
 exiting the enclosing call chain

---
 dice-compiler/src/visitor/syntax_node.rs | 30 +++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..16eb832 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,7 +10,35 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
-        match &node {
+        if !Self::is_call_chain(&node) {
+            // NOTE: Any other node nested in a call chain starts a chain of its own, so that propagating nulls inside of it
+            // doesn't exit the outer chain.
+            let original_call_context = std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context);
+            self.visit_node(&node)?;
+            self.context()?.scope_stack().top_mut()?.call_context = original_call_context;
+            return Ok(());
+        }
+
+        self.visit_node(&node)
+    }
+}
+
+impl Compiler {
+    fn is_call_chain(node: &SyntaxNode) -> bool {
+        matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        )
+    }
+
+    fn visit_node(&mut self, node: &SyntaxNode) -> Result<(), Error> {
+        match node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
             SyntaxNode::LitNull(literal) => self.visit(literal)?,
-- 
2.43.0


From d003e294648ceed9f604d4662f0310247bf63859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 15/20] fix: clean up every pending operand when returning from
 inside an expression

---
 dice-compiler/src/visitor/expr_assignment.rs | 14 +++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 ++--
 dice-compiler/src/visitor/expr_for.rs        |  3 ++-
 dice-compiler/src/visitor/expr_range_loop.rs |  5 +++--
 dice-compiler/src/visitor/literal_list.rs    |  4 ++--
 dice-compiler/src/visitor/literal_object.rs  |  2 +-
 dice-compiler/src/visitor/mod.rs             | 13 +++++++++++++
 7 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..3af8c2a 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_with_temporaries(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..c9f2060 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_with_temporaries(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_with_temporaries(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..74243cd 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -50,7 +50,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        self.visit(for_loop.body)?;
+        // NOTE: The next method stays on the stack while the body runs.
+        self.visit_with_temporaries(for_loop.body, 1)?;
 
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..3889fcf 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -25,7 +25,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_with_temporaries(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
@@ -52,7 +52,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
             ]
         }
 
-        self.visit(range_loop.body)?;
+        // NOTE: The end of the range stays on the stack while the body runs.
+        self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..b278674 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_with_temporaries(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..b5376bb 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,7 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            self.visit_with_temporaries(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
diff --git a/dice-compiler/src/visitor/mod.rs b/dice-compiler/src/visitor/mod.rs
index 1250b42..f417394 100644
--- a/dice-compiler/src/visitor/mod.rs
+++ b/dice-compiler/src/visitor/mod.rs
@@ -36,13 +36,26 @@ mod literal_unit;
 mod literal_variable;
 mod syntax_node;
 
+use crate::compiler::Compiler;
 use dice_core::error::Error;
+use dice_syntax::SyntaxNodeId;
 pub use expr_block::{BlockKind, FunctionBlockKind};
 
 pub(super) trait NodeVisitor<T> {
     fn visit(&mut self, node: T) -> Result<(), Error>;
 }
 
+impl Compiler {
+    /// Visit a node while additional temporaries are on the stack, which have to be cleaned up if the node exits early.
+    fn visit_with_temporaries(&mut self, node: SyntaxNodeId, count: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += count;
+        self.visit(node)?;
+        *self.context()?.temporary_count() -= count;
+
+        Ok(())
+    }
+}
+
 #[derive(Clone, Copy, Eq, PartialEq)]
 pub enum ClassKind {
     Base,
-- 
2.43.0


From ac697e61f5affc3abcf8afec3ca7f7a0a493c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:14 +0000
Subject: [PATCH 16/20] fix: leave the operand stack balanced on break and
 continue, and allow continue in for loops

---
 dice-compiler/src/scope_stack.rs             | 39 +++++++++++++++++---
 dice-compiler/src/visitor/expr_break.rs      |  6 +++
 dice-compiler/src/visitor/expr_continue.rs   | 16 +++++++-
 dice-compiler/src/visitor/expr_for.rs        | 19 +++++++---
 dice-compiler/src/visitor/expr_loop.rs       |  5 ++-
 dice-compiler/src/visitor/expr_range_loop.rs | 21 ++++++++---
 dice-compiler/src/visitor/expr_while.rs      |  5 ++-
 7 files changed, 89 insertions(+), 22 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 927a95e..82e1883 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -55,7 +55,10 @@ pub struct ScopeContext {
     pub depth: usize,
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
+    pub continue_points: Vec<usize>,
     pub exit_points: Vec<usize>,
+    /// The number of temporaries on the stack when a loop's body is entered.
+    pub temporary_count: usize,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     slot_count: usize,
@@ -67,7 +70,9 @@ impl Default for ScopeContext {
             depth: 0,
             kind: ScopeKind::Block,
             entry_point: None,
+            continue_points: Vec::new(),
             exit_points: Vec::new(),
+            temporary_count: 0,
             variables: Vec::new(),
             call_context: Default::default(),
             slot_count: 0,
@@ -91,6 +96,16 @@ impl ScopeStack {
         }
     }
 
+    pub fn push_loop(&mut self, entry_point: Option<usize>, temporary_count: usize) {
+        self.stack.push(ScopeContext {
+            kind: ScopeKind::Loop,
+            depth: self.stack.len(),
+            entry_point,
+            temporary_count,
+            ..Default::default()
+        });
+    }
+
     pub fn push_scope(&mut self, kind: ScopeKind, entry_point: Option<usize>) {
         self.stack.push(ScopeContext {
             kind,
@@ -175,15 +190,29 @@ impl ScopeStack {
         Ok(())
     }
 
-    /// Get the entry point of the first scope to match the specified kind.
-    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<usize, Error> {
+    /// Push the bytecode location of a jump to the end of the inner most loop's body, to later be patched.
+    pub fn add_loop_continue_point(&mut self, continue_point: usize) -> Result<(), Error> {
+        let scope = self
+            .first_of_kind_mut(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        scope.continue_points.push(continue_point);
+        Ok(())
+    }
+
+    /// Get the entry point of the first scope to match the specified kind, if it has one.
+    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<Option<usize>, Error> {
         let scope = self
             .first_of_kind(kind)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        scope
-            .entry_point
-            .clone()
+        Ok(scope.entry_point)
+    }
+
+    /// Get the number of temporaries on the stack when the inner most loop's body is entered.
+    pub fn loop_temporary_count(&self) -> Result<usize, Error> {
+        self.first_of_kind(ScopeKind::Loop)
+            .map(|scope| scope.temporary_count)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..0226092 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -11,6 +11,12 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        // NOTE: Clean up any temporaries created since the loop's body was entered.
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        for _ in 0..temporary_count {
+            context.assembler().pop(*span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..bb7f3b6 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,8 +10,20 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
-        let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
-        context.assembler().jump_back(loop_start as u64, *span);
+        // NOTE: Clean up any temporaries created since the loop's body was entered.
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        for _ in 0..temporary_count {
+            context.assembler().pop(*span);
+        }
+
+        match context.scope_stack().entry_point(ScopeKind::Loop)? {
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            None => {
+                // NOTE: The end of the loop's body isn't known yet, so the jump gets patched later.
+                let patch_location = context.assembler().jump(*span);
+                context.scope_stack().add_loop_continue_point(patch_location as usize)?;
+            }
+        }
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 74243cd..798e541 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -6,7 +6,7 @@ use dice_syntax::ForLoop;
 
 use crate::{
     compiler::Compiler,
-    scope_stack::{ScopeKind, State},
+    scope_stack::State,
 };
 
 use super::NodeVisitor;
@@ -33,7 +33,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
@@ -57,16 +58,25 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
         let scope_context = context.scope_stack().pop_scope()?;
+        context.assembler().pop(for_loop.span);
+
+        // NOTE: Continuing the loop resumes at this point.
+        for continue_point in scope_context.continue_points {
+            context.assembler().patch_jump(continue_point as u64);
+        }
+
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
         }
 
-        // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
+        // NOTE: When the iterator is done, its last result is still on the stack.
         context.assembler().patch_jump(loop_exit);
+        context.assembler().pop(for_loop.span);
+
+        // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
@@ -74,7 +84,6 @@ impl NodeVisitor<&ForLoop> for Compiler {
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..cb082c7 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{Loop, SyntaxNode};
 
@@ -9,9 +9,10 @@ impl NodeVisitor<&Loop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
+            let temporary_count = *self.context()?.temporary_count();
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop(Some(loop_start as usize), temporary_count);
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 3889fcf..a2f47be 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,6 +1,6 @@
 use crate::{
     compiler::Compiler,
-    scope_stack::{ScopeKind, State},
+    scope_stack::State,
     visitor::NodeVisitor,
 };
 use dice_core::{error::Error, span::Span};
@@ -32,7 +32,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
@@ -56,18 +57,26 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
-        // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
+        let scope_context = context.scope_stack().pop_scope()?;
+
+        // NOTE: Pop off the value from evaluating the loop body.
+        context.assembler().pop(range_loop.span);
+
+        // NOTE: Continuing the loop resumes at this point.
+        for continue_point in scope_context.continue_points {
+            context.assembler().patch_jump(continue_point as u64);
+        }
+
+        // NOTE: Increment the loop variable by 1.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
-                POP;
                 LOAD_LOCAL variable_slot;
                 PUSH_I1;
                 ADD;
             ]
         }
 
-        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
-        let scope_context = context.scope_stack().pop_scope()?;
+        // NOTE: Close out any upvalues at the end of the loop scope, before jumping back.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 CLOSE_UPVALUES scope_context.variables;
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..c2ca7f0 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{SyntaxNode, WhileLoop};
 
@@ -9,9 +9,10 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
+            let temporary_count = *self.context()?.temporary_count();
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop(Some(loop_start as usize), temporary_count);
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
-- 
2.43.0


From 3a69980343b6a2d4e9b32a9aef5016a1193bc9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 17/20] fix: close captured variables on every way out of their
 scope

---
 dice-compiler/src/scope_stack.rs           | 33 ++++++++++++++++++++++
 dice-compiler/src/visitor/expr_block.rs    | 13 +++++++--
 dice-compiler/src/visitor/expr_break.rs    |  4 +++
 dice-compiler/src/visitor/expr_continue.rs |  4 +++
 4 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 82e1883..97115ed 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -216,6 +216,39 @@ impl ScopeStack {
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
+    /// Get the slots of all captured variables that go out of scope when breaking out of the inner most loop, or when
+    /// continuing it, in which case the scope of the loop itself is left to be closed at the end of the loop's body.
+    pub fn captured_in_loop(&self, include_loop: bool) -> Vec<usize> {
+        let mut slots = Vec::new();
+
+        for scope in self.stack.iter().rev() {
+            if scope.kind != ScopeKind::Loop || include_loop {
+                slots.extend(scope.variables.iter().filter(|var| var.is_captured).map(|var| var.slot));
+            }
+
+            if scope.kind == ScopeKind::Loop {
+                break;
+            }
+        }
+
+        slots
+    }
+
+    /// Get the slots of all variables that have to be closed when returning.
+    pub fn captured_in_function(&self) -> Vec<usize> {
+        // NOTE: Variables declared outside of a loop may get captured in an earlier iteration by code that follows, and hasn't
+        // been compiled yet.
+        let inner_most_loop = self.stack.iter().rposition(|scope| scope.kind == ScopeKind::Loop).unwrap_or(0);
+
+        self.stack
+            .iter()
+            .enumerate()
+            .flat_map(|(index, scope)| scope.variables.iter().map(move |var| (index, var)))
+            .filter(|(index, var)| var.is_captured || *index < inner_most_loop)
+            .map(|(_, var)| var.slot)
+            .collect()
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..3c724b3 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -81,7 +81,6 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
 
         if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
             self.visit_return(block.span)?
@@ -98,7 +97,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
-                    RET;
+                    {self.visit_return(block.span)?};
                 ]
             }
         }
@@ -173,6 +172,14 @@ impl Compiler {
         Ok(())
     }
 
+    fn close_function_upvalues(&mut self, span: Span) -> Result<(), Error> {
+        for slot in self.context()?.scope_stack().captured_in_function() {
+            self.assembler()?.close_upvalue(slot as u8, span);
+        }
+
+        Ok(())
+    }
+
     pub(super) fn visit_return(&mut self, span: Span) -> Result<(), Error> {
         if let CompilerKind::Function {
             return_type: Some(return_type),
@@ -184,6 +191,7 @@ impl Compiler {
             emit_bytecode! {
                 self.assembler()?, span => [
                     {self.visit(&return_type.name)?};
+                    {self.close_function_upvalues(span)?};
                     if return_type.is_nullable => [
                         ASSERT_TYPE_OR_NULL_AND_RETURN;
                     ] else [
@@ -192,6 +200,7 @@ impl Compiler {
                 ]
             }
         } else {
+            self.close_function_upvalues(span)?;
             self.assembler()?.ret(span)
         }
 
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 0226092..250f533 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -17,6 +17,10 @@ impl NodeVisitor<&Break> for Compiler {
             context.assembler().pop(*span);
         }
 
+        for slot in context.scope_stack().captured_in_loop(true) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index bb7f3b6..c4a97b8 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -16,6 +16,10 @@ impl NodeVisitor<&Continue> for Compiler {
             context.assembler().pop(*span);
         }
 
+        for slot in context.scope_stack().captured_in_loop(false) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
             Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
             None => {
-- 
2.43.0


From 02e8cce1a602094076fbc0b49493916799657a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:31 +0000
Subject: [PATCH 18/20] fix: use the receiver's slot for constructors and super
 even if self is shadowed

---
 dice-compiler/src/visitor/expr_block.rs        |  9 ++-------
 dice-compiler/src/visitor/expr_return.rs       |  9 ++-------
 dice-compiler/src/visitor/expr_super_access.rs |  5 +++--
 dice-compiler/src/visitor/expr_super_call.rs   | 11 +++--------
 4 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 3c724b3..7a4c4ea 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -1,6 +1,5 @@
 use dice_core::{
     error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error},
-    protocol::class::SELF,
     span::Span,
 };
 use dice_syntax::{Block, FnArg, SyntaxNode};
@@ -86,12 +85,8 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
             self.visit_return(block.span)?
         } else if let FunctionBlockKind::Constructor(..) = kind {
             // NOTE: If in context of a constructor, pop the last value, load self, return.
-            let local_slot = self
-                .context()?
-                .scope_stack()
-                .local(SELF)
-                .expect("Methods should always have a self.")
-                .slot as u8;
+            // The calling convention always stores self in the first slot, even if another variable shadows its name.
+            let local_slot = 0;
 
             emit_bytecode! {
                 self.assembler()?, block.span => [
diff --git a/dice-compiler/src/visitor/expr_return.rs b/dice-compiler/src/visitor/expr_return.rs
index 6153bd9..07f0120 100644
--- a/dice-compiler/src/visitor/expr_return.rs
+++ b/dice-compiler/src/visitor/expr_return.rs
@@ -3,7 +3,6 @@ use dice_core::{
         codes::{INVALID_RETURN_USAGE, NEW_RETURN_CANNOT_HAVE_EXPRESSION},
         Error,
     },
-    protocol::class::SELF,
 };
 use dice_syntax::Return;
 
@@ -21,12 +20,8 @@ impl NodeVisitor<&Return> for Compiler {
                 None => context.assembler().push_unit(expr_return.span),
             },
             CompilerKind::Constructor if expr_return.result.is_none() => {
-                let self_slot = context
-                    .scope_stack()
-                    .local(SELF)
-                    .expect("The self parameter should always be declared in constructors.")
-                    .slot;
-                self.assembler()?.load_local(self_slot as u8, expr_return.span);
+                // NOTE: The calling convention always stores self in the first slot.
+                self.assembler()?.load_local(0, expr_return.span);
             }
             CompilerKind::Constructor if expr_return.result.is_some() => {
                 return Err(Error::new(NEW_RETURN_CANNOT_HAVE_EXPRESSION).with_span(expr_return.span))
diff --git a/dice-compiler/src/visitor/expr_super_access.rs b/dice-compiler/src/visitor/expr_super_access.rs
index 9768200..2cefa47 100644
--- a/dice-compiler/src/visitor/expr_super_access.rs
+++ b/dice-compiler/src/visitor/expr_super_access.rs
@@ -1,6 +1,6 @@
 use dice_core::{
     error::{codes::INVALID_SUPER_CALL, Error},
-    protocol::class::{SELF, SUPER},
+    protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperAccess};
 
@@ -29,7 +29,8 @@ impl NodeVisitor<&SuperAccess> for Compiler {
             None => self.visit(&LitIdent::synthesize(SUPER, *span))?,
         }
 
-        self.visit(&LitIdent::synthesize(SELF, *span))?;
+        // NOTE: The calling convention always stores self in the first slot.
+        self.assembler()?.load_local(0, *span);
         self.assembler()?.load_method(&**field, *span)?;
 
         Ok(())
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index c8d3300..c0b3c1f 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,6 +1,6 @@
 use dice_core::{
     error::{codes::INVALID_SUPER_CALL, Error},
-    protocol::class::{SELF, SUPER},
+    protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperCall};
 
@@ -17,13 +17,8 @@ impl NodeVisitor<&SuperCall> for Compiler {
             return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
         }
 
-        let local_slot = self
-            .context()?
-            .scope_stack()
-            .local(SELF)
-            .expect("self should always be declared in methods and constructors.")
-            .slot as u8;
-        self.assembler()?.load_local(local_slot, node.span);
+        // NOTE: The calling convention always stores self in the first slot.
+        self.assembler()?.load_local(0, node.span);
 
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
         let original_temporary_count = *self.context()?.temporary_count();
-- 
2.43.0


From 593e68e4a1d2522038faa570c35e01243bc5242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:19 +0000
Subject: [PATCH 19/20] fix: reject programs that exceed the limits of the
 instruction encoding instead of wrapping

---
 data/locales/en-US/errors.ftl                 |  3 +++
 dice-compiler/src/assembler.rs                | 19 ++++++++++++++++---
 dice-compiler/src/compiler.rs                 |  4 +++-
 dice-compiler/src/compiler_stack.rs           | 17 ++++++++++++++---
 dice-compiler/src/visitor/decl_fn.rs          |  2 +-
 dice-compiler/src/visitor/decl_op.rs          |  2 +-
 dice-compiler/src/visitor/expr_fn_call.rs     |  9 +++++++--
 dice-compiler/src/visitor/expr_super_call.rs  | 12 ++++++++++--
 .../src/visitor/literal_anonymous_fn.rs       |  2 +-
 dice-compiler/src/visitor/literal_list.rs     |  8 ++++++--
 dice-core/src/error/codes.rs                  |  3 +++
 dice-syntax/src/parser/mod.rs                 |  7 +++++++
 12 files changed, 72 insertions(+), 16 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 929c5e7..adf5a4e 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -15,6 +15,9 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = The maximum number of local variables (256) has been exceeded for this function.
+E2103 = The maximum number of list items (255) has been exceeded.
+E2104 = The function is too large.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index b034ee5..6b21717 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use bytes::BufMut as _;
 
@@ -19,6 +19,7 @@ pub struct Assembler {
     constants: Vec<ConstantValue>,
     source_map: HashMap<u64, Span>,
     data: Vec<u8>,
+    has_invalid_jump: bool,
 }
 
 impl Assembler {
@@ -27,6 +28,7 @@ impl Assembler {
             constants: Default::default(),
             source_map: Default::default(),
             data: Default::default(),
+            has_invalid_jump: false,
         }
     }
 
@@ -260,17 +262,28 @@ impl Assembler {
     }
 
     pub fn patch_jump(&mut self, jump_position: u64) {
-        let offset = (self.current_position() - jump_position - 2) as i16;
+        let offset = i16::try_from(self.current_position() - jump_position - 2).unwrap_or_else(|_| {
+            self.has_invalid_jump = true;
+            0
+        });
         (&mut self.data[jump_position as usize..]).put_i16(offset)
     }
 
     pub fn jump_back(&mut self, position: u64, span: Span) {
         self.source_map.insert(self.data.len() as u64, span);
         self.data.put_u8(Instruction::Jump.into());
-        let offset = -((self.current_position() - position + 2) as i16);
+        let offset = i16::try_from(-((self.current_position() - position + 2) as i64)).unwrap_or_else(|_| {
+            self.has_invalid_jump = true;
+            0
+        });
         self.data.put_i16(offset);
     }
 
+    /// Whether any jump is further than what can be encoded.
+    pub fn has_invalid_jump(&self) -> bool {
+        self.has_invalid_jump
+    }
+
     pub fn current_position(&self) -> u64 {
         (self.data.len()) as u64
     }
diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index f288c45..bb25f56 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -64,7 +64,9 @@ impl Compiler {
 
         let compiler_context = self.compiler_stack.pop()?;
 
-        Ok(compiler_context.finish(self.source.clone()))
+        let span = self.syntax_tree.get(self.syntax_tree.root()).span();
+
+        compiler_context.finish(self.source.clone(), span)
     }
 
     pub(super) fn context(&mut self) -> Result<&mut CompilerContext, Error> {
diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index ea46348..f5fbe64 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -2,8 +2,9 @@ use std::fmt::Display;
 
 use dice_bytecode::Bytecode;
 use dice_core::{
-    error::{codes::INTERNAL_COMPILER_ERROR, Error},
+    error::{codes::{INTERNAL_COMPILER_ERROR, JUMP_TOO_FAR, TOO_MANY_LOCALS}, Error},
     source::Source,
+    span::Span,
 };
 use dice_syntax::TypeAnnotation;
 
@@ -85,10 +86,20 @@ impl CompilerContext {
         &mut self.temporary_count
     }
 
-    pub fn finish(mut self, source: Source) -> Bytecode {
+    pub fn finish(mut self, source: Source, span: Span) -> Result<Bytecode, Error> {
         let slot_count = self.scope_stack.slot_count;
+
+        // NOTE: Slots are encoded in a single byte.
+        if slot_count > 256 {
+            return Err(Error::new(TOO_MANY_LOCALS).with_span(span));
+        }
+
+        if self.assembler.has_invalid_jump() {
+            return Err(Error::new(JUMP_TOO_FAR).with_span(span));
+        }
+
         let upvalue_count = self.upvalues().len();
-        self.assembler.generate(slot_count, upvalue_count, source)
+        Ok(self.assembler.generate(slot_count, upvalue_count, source))
     }
 }
 
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 168d05c..8239c47 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -22,7 +22,7 @@ impl NodeVisitor<(&FnDecl, FnKind)> for Compiler {
         let body = self.syntax_tree.child(fn_decl.body);
         let mut fn_context = self.compile_fn(body, &fn_decl.args, fn_decl.return_.clone(), fn_kind)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone(), fn_decl.span)?;
         let compiled_fn = ConstantValue::Function(FunctionBytecode::new(
             bytecode,
             &*fn_decl.name.identifier,
diff --git a/dice-compiler/src/visitor/decl_op.rs b/dice-compiler/src/visitor/decl_op.rs
index d8904e4..8594e5f 100644
--- a/dice-compiler/src/visitor/decl_op.rs
+++ b/dice-compiler/src/visitor/decl_op.rs
@@ -28,7 +28,7 @@ impl NodeVisitor<(&OpDecl, OpKind)> for Compiler {
         let name = Compiler::op_name(node);
 
         let upvalues = op_context.upvalues().clone();
-        let bytecode = op_context.finish(self.source.clone());
+        let bytecode = op_context.finish(self.source.clone(), node.span)?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, uuid::Uuid::new_v4()));
 
         match kind {
diff --git a/dice-compiler/src/visitor/expr_fn_call.rs b/dice-compiler/src/visitor/expr_fn_call.rs
index fab31b9..58e7126 100644
--- a/dice-compiler/src/visitor/expr_fn_call.rs
+++ b/dice-compiler/src/visitor/expr_fn_call.rs
@@ -1,6 +1,8 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use std::convert::TryFrom;
+
+use dice_core::error::{codes::FUNCTION_HAS_TOO_MANY_ARGUMENTS, Error};
 use dice_syntax::FnCall;
 
 impl NodeVisitor<&FnCall> for Compiler {
@@ -22,7 +24,10 @@ impl NodeVisitor<&FnCall> for Compiler {
         }
 
         *self.context()?.temporary_count() = original_temporary_count;
-        self.assembler()?.call(node.args.len() as u8, node.span);
+        let arg_count = u8::try_from(node.args.len())
+            .map_err(|_| Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(node.span))?;
+
+        self.assembler()?.call(arg_count, node.span);
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index c0b3c1f..dbf80bf 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,5 +1,10 @@
+use std::convert::TryFrom;
+
 use dice_core::{
-    error::{codes::INVALID_SUPER_CALL, Error},
+    error::{
+        codes::{FUNCTION_HAS_TOO_MANY_ARGUMENTS, INVALID_SUPER_CALL},
+        Error,
+    },
     protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperCall};
@@ -40,7 +45,10 @@ impl NodeVisitor<&SuperCall> for Compiler {
             identifier: SUPER.to_owned(),
             span: node.span,
         })?;
-        self.assembler()?.call_super(node.args.len() as u8, node.span);
+        let arg_count = u8::try_from(node.args.len())
+            .map_err(|_| Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS).with_span(node.span))?;
+
+        self.assembler()?.call_super(arg_count, node.span);
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index 90d05f0..fd76036 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -15,7 +15,7 @@ impl NodeVisitor<&LitAnonymousFn> for Compiler {
         let body = self.syntax_tree.child(node.body);
         let mut fn_context = self.compile_fn(body, &node.args, node.return_.clone(), FnKind::Function)?;
         let upvalues = fn_context.upvalues().clone();
-        let bytecode = fn_context.finish(self.source.clone());
+        let bytecode = fn_context.finish(self.source.clone(), node.span)?;
         let value = ConstantValue::Function(FunctionBytecode::new(bytecode, name, id));
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index b278674..1c8d38e 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,6 +1,8 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use std::convert::TryFrom;
+
+use dice_core::error::{codes::TOO_MANY_LIST_ITEMS, Error};
 use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
@@ -9,7 +11,9 @@ impl NodeVisitor<&LitList> for Compiler {
             self.visit_with_temporaries(*item, index)?;
         }
 
-        self.assembler()?.create_list(value.len() as u8, *span);
+        let length = u8::try_from(value.len()).map_err(|_| Error::new(TOO_MANY_LIST_ITEMS).with_span(*span))?;
+
+        self.assembler()?.create_list(length, *span);
 
         Ok(())
     }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..ae1785b 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,9 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static TOO_MANY_LOCALS: ErrorCode = "E2102";
+pub static TOO_MANY_LIST_ITEMS: ErrorCode = "E2103";
+pub static JUMP_TOO_FAR: ErrorCode = "E2104";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 9aaca3c..a78f247 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -470,6 +470,13 @@ impl<'a> Parser<'a> {
             )?,
         };
         let args = self.parse_args(TokenKind::LeftParen, TokenKind::RightParen)?;
+
+        if args.len() > (u8::MAX as usize) {
+            return Err(Error::new(FUNCTION_HAS_TOO_MANY_ARGUMENTS)
+                .with_source(self.source.clone())
+                .with_span(span_start + self.lexer.current().span));
+        }
+
         let return_ = self.parse_return()?;
         let body = self.block_expression(false)?;
         let span_end = self.lexer.current().span;
-- 
2.43.0


From 51686e49fbdfea48751762dd59ff0879f9875dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:09 +0000
Subject: [PATCH 20/20] hook: expose the lexer and error spans under cfg(verif)

---
 dice-core/src/error/mod.rs | 5 +++++
 dice-syntax/src/lib.rs     | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/dice-core/src/error/mod.rs b/dice-core/src/error/mod.rs
index ca0a4bd..a5abec7 100644
--- a/dice-core/src/error/mod.rs
+++ b/dice-core/src/error/mod.rs
@@ -46,6 +46,11 @@ impl Error {
         &self.error_code
     }
 
+    #[cfg(verif)]
+    pub fn parts(&self) -> (Span, Option<&Source>, &[Context]) {
+        (self.span, self.source_code.as_ref(), &self.context)
+    }
+
     pub const fn with_span(mut self, span: Span) -> Self {
         self.span = span;
         self
diff --git a/dice-syntax/src/lib.rs b/dice-syntax/src/lib.rs
index 7efb111..a721ea6 100644
--- a/dice-syntax/src/lib.rs
+++ b/dice-syntax/src/lib.rs
@@ -1,5 +1,8 @@
 mod ast;
+#[cfg(not(verif))]
 mod lexer;
+#[cfg(verif)]
+pub mod lexer;
 mod parser;
 
 pub use ast::*;
-- 
2.43.0

