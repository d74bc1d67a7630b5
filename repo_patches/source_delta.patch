From 7117ddc35df1aa19c39f15b1207e5f1609febd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 001/115] fix: report an invalid first token instead of
 panicking in Parser::new

---
 giron/src/parser/parser.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..8a8dab9 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -75,6 +75,7 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    init_error: Option<Error>,
 }
 
 impl<I> Parser<I>
@@ -83,7 +84,27 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        // `new` can't fail: an error in the first token is reported by the entry points.
+        let (current, init_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (
+                Token {
+                    tokentype: TokenType::Eof,
+                    value: Value::Null,
+                    pattern: None,
+                    flags: None,
+                    octal: None,
+                    cooked: None,
+                    head: None,
+                    tail: None,
+                    line_num: 1,
+                    col: 1,
+                    start: 0,
+                    end: 0,
+                },
+                Some(error),
+            ),
+        };
 
         Parser {
             scanner,
@@ -99,6 +120,7 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            init_error,
         }
     }
 
@@ -109,6 +131,9 @@ where
     /// Parse source as an ECMAScript script.
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
+        if let Some(error) = self.init_error.take() {
+            return Err(error);
+        }
         self.goal = SyntaxGoal::Script;
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
@@ -123,6 +148,9 @@ where
     /// Parse source as an ECMAScript module.
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
+        if let Some(error) = self.init_error.take() {
+            return Err(error);
+        }
         self.goal = SyntaxGoal::Module;
         self.start_span();
         self.ctx.strict = true;
-- 
2.43.0


From 1f9af6418efd1bb0ce815731de63007dc2bb4e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 002/115] fix: default imports are ImportDefaultSpecifier nodes

---
 giron/src/parser/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8a8dab9..788403a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -242,9 +242,8 @@ where
                         &mut Self::parse_binding_id,
                     )?
                     .to_id()?;
-                let imported = local.clone();
                 let mut specifiers =
-                    vec![ImportDeclarationSpecifier::ImportSpecifier { local, imported }];
+                    vec![ImportDeclarationSpecifier::ImportDefaultSpecifier { local }];
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(",") => {
                         self.advance(LexGoal::RegExp)?;
-- 
2.43.0


From 67ef23fd5faaff9c785cdc6b106dfa554a30afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 003/115] fix: a reserved import name is reported where it
 stands

---
 giron/src/parser/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 788403a..cd36a9c 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -289,6 +289,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let (line, col) = (this.current.line_num, this.current.col);
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
@@ -312,10 +313,9 @@ where
                 }
                 _ => {
                     if this.scanner.is_keyword(&name) {
-                        let token = this.advance(LexGoal::RegExp)?;
                         return Err(Error {
-                            line: token.line_num,
-                            col: token.col,
+                            line,
+                            col,
                             errortype: ErrorType::UnexpectedReserved,
                         });
                     }
-- 
2.43.0


From df2ea5aec45d1fc7db620a3ccd890ffe8224cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 004/115] fix: parse imports without an import clause

---
 giron/src/parser/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cd36a9c..6373b37 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -262,7 +262,15 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 55a66b1c6b6414e154928d6bf9a11bfb893944b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 005/115] fix: null, true and false are identifier names

---
 giron/src/parser/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6373b37..12672fc 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -298,6 +298,7 @@ where
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
             let (line, col) = (this.current.line_num, this.current.col);
+            let is_reserved = this.current.tokentype != TokenType::Identifier;
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
@@ -320,7 +321,7 @@ where
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
-                    if this.scanner.is_keyword(&name) {
+                    if is_reserved {
                         return Err(Error {
                             line,
                             col,
@@ -3913,9 +3914,10 @@ where
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
-                Ok(self.advance(goal)?.value.string().unwrap())
-            }
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => Ok(String::from(&self.advance(goal)?.value)),
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 560d2d54fc6636af2eb4f6e2b0a12f6e46a7315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 006/115] fix: export specifiers keep their local and exported
 names

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 12672fc..08fbc31 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -507,13 +507,13 @@ where
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
-                    let exported = Identifier {
+                    let local = Identifier {
                         name,
                         span: this.end_span(),
                     };
                     this.advance(LexGoal::RegExp)?;
                     this.start_span();
-                    let local = Identifier {
+                    let exported = Identifier {
                         name: this.parse_id_name(LexGoal::RegExp)?,
                         span: this.end_span(),
                     };
-- 
2.43.0


From e0780176e61dd9bf9a41f154f647cb0fa8c0ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 007/115] fix: parse the from clause and semicolon of export
 lists

---
 giron/src/parser/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 08fbc31..04e25df 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -467,7 +467,7 @@ where
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 let specifiers = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("from") => {
+                    TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
                         let source = Some(self.parse_module_specifier()?);
                         self.consume_semicolon(LexGoal::RegExp)?;
@@ -478,12 +478,15 @@ where
                             span: self.end_span(),
                         })
                     }
-                    _ => Ok(Node::ExportNamedDeclaration {
-                        declaration: None,
-                        specifiers,
-                        source: None,
-                        span: self.end_span(),
-                    }),
+                    _ => {
+                        self.consume_semicolon(LexGoal::RegExp)?;
+                        Ok(Node::ExportNamedDeclaration {
+                            declaration: None,
+                            specifiers,
+                            source: None,
+                            span: self.end_span(),
+                        })
+                    }
                 }
             }
             TokenType::Punctuator if self.current.matches_punc("*") => {
-- 
2.43.0


From c93255e05f724ae41fed97576af29242b66c0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 008/115] fix: directive prologues end at the first statement
 that is not a directive

---
 giron/src/parser/parser.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 04e25df..6112fdd 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -178,19 +178,23 @@ where
                 TokenType::StringLiteral => {
                     self.start_span();
                     let expr = self.parse_expression()?;
-                    match &expr {
-                        Node::Literal { value, .. }
-                            if value == &Value::Str(String::from("use strict")) =>
-                        {
-                            self.ctx.strict = true;
+                    let is_directive = match &expr {
+                        Node::Literal { value, .. } => {
+                            if value == &Value::Str(String::from("use strict")) {
+                                self.ctx.strict = true;
+                            }
+                            true
                         }
-                        _ => (),
-                    }
+                        _ => false,
+                    };
                     self.consume_semicolon(LexGoal::RegExp)?;
                     body.push(Node::ExpressionStatement {
                         expression: Box::from(expr),
                         span: self.end_span(),
                     });
+                    if !is_directive {
+                        return Ok(body);
+                    }
                 }
                 _ => return Ok(body),
             }
-- 
2.43.0


From f503e556fd16b148ab2bebb2c7debda8bccd77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 009/115] fix: no in operator in any declarator of a for head

---
 giron/src/parser/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6112fdd..2fcf37a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -871,7 +871,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr();
                             this.restore_params();
                             res
@@ -899,7 +899,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr();
                                     this.restore_params();
                                     res
@@ -953,7 +953,7 @@ where
                         declarations.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
-                            this.params.has_in = true;
+                            this.params.has_in = false;
                             let res = this.parse_variable_dclr();
                             this.restore_params();
                             res
@@ -981,7 +981,7 @@ where
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
-                                    this.params.has_in = true;
+                                    this.params.has_in = false;
                                     let res = this.parse_variable_dclr();
                                     this.restore_params();
                                     res
-- 
2.43.0


From 5225d531e61aa93867b267aba818d1b7ecdd8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 010/115] fix: directives are parsed with the in operator

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2fcf37a..d6a62d9 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -177,7 +177,7 @@ where
             match self.current.tokentype {
                 TokenType::StringLiteral => {
                     self.start_span();
-                    let expr = self.parse_expression()?;
+                    let expr = self.with_in(true, &mut Self::parse_expression)?;
                     let is_directive = match &expr {
                         Node::Literal { value, .. } => {
                             if value == &Value::Str(String::from("use strict")) {
-- 
2.43.0


From 70dc4017584a4705c18f88f3d321ae3211d21957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 011/115] fix: of is an identifier token in every for-of head

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d6a62d9..bd2fd6b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -883,7 +883,7 @@ where
                         }));
                         self.parse_for_classic_stmt(init)
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
                         self.parse_for_of_stmt(Box::from(id.to_node()?))
                     }
@@ -1033,7 +1033,7 @@ where
                         }
                         self.parse_for_in_stmt(Box::from(expr))
                     }
-                    TokenType::Keyword if self.current.matches_str("of") => {
+                    TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-- 
2.43.0


From a808533d048fc45e772324edfb4fd23ce6ec8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 012/115] fix: declarations of for-in and for-of heads are
 VariableDeclaration nodes

---
 giron/src/parser/parser.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index bd2fd6b..df15573 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -885,11 +885,13 @@ where
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // "var" (BindingIdentifier | BindingPattern) "of"
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, "var");
+                        self.parse_for_of_stmt(left)
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // "var" (BindingIdentifier | BindingPattern) "in"
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, "var");
+                        self.parse_for_in_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -967,11 +969,13 @@ where
                     }
                     TokenType::Keyword if self.current.matches_str("in") => {
                         // LetOrConst Binding "in" ...
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, kind);
+                        self.parse_for_in_stmt(left)
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         // LetOrConst Binding "of" ...
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
+                        let left = self.for_declaration(id, kind);
+                        self.parse_for_of_stmt(left)
                     }
                     _ => {
                         match &id {
@@ -1065,6 +1069,14 @@ where
         }
     }
 
+    fn for_declaration(&mut self, id: Binding, kind: &'static str) -> Box<Node> {
+        Box::from(Node::VariableDeclaration {
+            declarations: vec![VariableDeclarator { id, init: None }],
+            kind,
+            span: self.end_span(),
+        })
+    }
+
     fn parse_for_classic_stmt(&mut self, init: Option<Box<Node>>) -> Result<Node> {
         // "for" "(" "var" VariableDeclarationList[~In, ?Yield, ?Await]
         //     ";" Expression[+In, ?Yield, ?Await](opt)
-- 
2.43.0


From 3d9b93f1b7131ff85f11dccff0df47892d2506e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 013/115] fix: const declarations need an initializer

---
 giron/src/parser/parser.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index df15573..0629d96 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -729,10 +729,10 @@ where
         }
         self.save_params();
         self.params.has_in = true;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr("var")?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr("var")
         })?);
         self.restore_params();
         self.consume_semicolon(LexGoal::RegExp)?;
@@ -743,7 +743,7 @@ where
         })
     }
 
-    fn parse_variable_dclr(&mut self) -> Result<VariableDeclarator> {
+    fn parse_variable_dclr(&mut self, kind: &str) -> Result<VariableDeclarator> {
         log!("parse_variable_dclr");
         let id = self.parse_binding_id_or_pat()?;
         let init = match self.current.tokentype {
@@ -752,7 +752,7 @@ where
                 Some(self.parse_assignment_expr()?)
             }
             _ => match &id {
-                Binding::BindingIdentifier { .. } => None,
+                Binding::BindingIdentifier { .. } if kind != "const" => None,
                 _ => {
                     let token = self.advance(LexGoal::RegExp)?;
                     return self.error(token, ErrorType::MissingInitializer);
@@ -872,7 +872,7 @@ where
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
                             this.params.has_in = false;
-                            let res = this.parse_variable_dclr();
+                            let res = this.parse_variable_dclr("var");
                             this.restore_params();
                             res
                         })?);
@@ -902,7 +902,7 @@ where
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
                                     this.params.has_in = false;
-                                    let res = this.parse_variable_dclr();
+                                    let res = this.parse_variable_dclr("var");
                                     this.restore_params();
                                     res
                                 })?);
@@ -956,7 +956,7 @@ where
                             this.consume(",", LexGoal::RegExp)?;
                             this.save_params();
                             this.params.has_in = false;
-                            let res = this.parse_variable_dclr();
+                            let res = this.parse_variable_dclr(kind);
                             this.restore_params();
                             res
                         })?);
@@ -979,14 +979,14 @@ where
                     }
                     _ => {
                         match &id {
-                            Binding::BindingIdentifier { .. } => {
+                            Binding::BindingIdentifier { .. } if kind != "const" => {
                                 // LetOrConst BindingIdentifier "," ...
                                 let mut declarations = vec![VariableDeclarator { id, init: None }];
                                 declarations.extend(self.parse_while_punc(",", &mut |this| {
                                     this.consume(",", LexGoal::RegExp)?;
                                     this.save_params();
                                     this.params.has_in = false;
-                                    let res = this.parse_variable_dclr();
+                                    let res = this.parse_variable_dclr(kind);
                                     this.restore_params();
                                     res
                                 })?);
@@ -1944,10 +1944,10 @@ where
             }
             _ => self.unexpected_current(),
         }?;
-        let mut declarations = vec![self.parse_variable_dclr()?];
+        let mut declarations = vec![self.parse_variable_dclr(kind)?];
         declarations.extend(self.parse_while_punc(",", &mut |this| {
             this.consume(",", LexGoal::RegExp)?;
-            this.parse_variable_dclr()
+            this.parse_variable_dclr(kind)
         })?);
         self.consume_semicolon(LexGoal::RegExp)?;
         Ok(Node::VariableDeclaration {
-- 
2.43.0


From 0a538a0642867ba6a04989261914ee72a8c88374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 014/115] fix: no span marker is left behind by a for head
 without initializer

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 0629d96..69a0c5f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1014,13 +1014,13 @@ where
                 //     Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
                 // for "(" [lookahead ≠ let] LeftHandSideExpression[?Yield, ?Await] "of"
                 //     AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                self.start_span();
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(";") => {
                         return self.parse_for_classic_stmt(None)
                     }
                     _ => (),
                 }
+                self.start_span();
                 let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
-- 
2.43.0


From e9519090d97bc17b76211f692f46d25cb92a8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 015/115] fix: the initializer expression of a for head is its
 own node and has no in operator

---
 giron/src/parser/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 69a0c5f..ee5969a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1051,11 +1051,11 @@ where
                         }
                         self.parse_for_of_stmt(Box::from(expr))
                     }
-                    _ => {
+                    TokenType::Punctuator if self.current.matches_punc(",") => {
                         let mut expressions = vec![expr];
                         expressions.extend(self.parse_while_punc(",", &mut |this| {
                             this.consume(",", LexGoal::RegExp)?;
-                            this.with_in(true, &mut Self::parse_assignment_expr)
+                            this.with_in(false, &mut Self::parse_assignment_expr)
                         })?);
                         let init = Some(Box::from(Node::SequenceExpression {
                             expressions,
@@ -1064,6 +1064,10 @@ where
                         }));
                         self.parse_for_classic_stmt(init)
                     }
+                    _ => {
+                        self.end_span(); // not needed
+                        self.parse_for_classic_stmt(Some(Box::from(expr)))
+                    }
                 }
             }
         }
-- 
2.43.0


From c885a9f5f84abbf885a0b3fac3f3e3776abad8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 016/115] fix: for-in and for-of accept destructuring
 assignment patterns

---
 giron/src/parser/parser.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ee5969a..62eb3c9 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1027,28 +1027,26 @@ where
                         self.end_span(); // not needed
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
+                                expr.to_assignment_pattern()?
                             }
-                            _ => Ok(expr),
-                        }?;
-                        if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
-                            return self.error(token, ErrorType::InvalidLhsInFor);
-                        }
+                            _ if expr.assign_target_type() != "simple" => {
+                                return self.error_current(ErrorType::InvalidLhsInFor)
+                            }
+                            _ => expr,
+                        };
                         self.parse_for_in_stmt(Box::from(expr))
                     }
                     TokenType::Identifier if self.current.matches_str("of") => {
                         self.end_span(); // not needed
                         expr = match expr {
                             Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
+                                expr.to_assignment_pattern()?
                             }
-                            _ => Ok(expr),
-                        }?;
-                        if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
-                            return self.error(token, ErrorType::InvalidLhsInFor);
-                        }
+                            _ if expr.assign_target_type() != "simple" => {
+                                return self.error_current(ErrorType::InvalidLhsInFor)
+                            }
+                            _ => expr,
+                        };
                         self.parse_for_of_stmt(Box::from(expr))
                     }
                     TokenType::Punctuator if self.current.matches_punc(",") => {
-- 
2.43.0


From 847d18f4299510e84974f008ea7287cd96886019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 017/115] fix: the semicolon after do-while is optional

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 62eb3c9..d91a932 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1198,7 +1198,10 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        // a semicolon is always inserted here
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
-- 
2.43.0


From dbd608f1675ba48cc26355146ba1c82ca36b8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 018/115] fix: a switch may have no clauses

---
 giron/src/parser/parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d91a932..e8856c2 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1251,15 +1251,12 @@ where
                 TokenType::Keyword if self.current.matches_str("default") => {
                     return self.error_current(ErrorType::MultipleDefaultsInSwitch);
                 }
+                TokenType::Punctuator if self.current.matches_punc("}") => break,
                 _ => return self.unexpected_current(),
             };
             self.consume(":", LexGoal::RegExp)?;
             let consequent = self.parse_switch_case_consequent()?;
             cases.push(SwitchCase { test, consequent });
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("}") => break,
-                _ => (),
-            }
         }
         self.consume("}", LexGoal::RegExp)?;
         self.ctx.in_switch = prev_in_switch;
-- 
2.43.0


From 4002356c46d4b5a08b06d337df762ac92e266d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 019/115] fix: only identifiers are labels of break and
 continue

---
 giron/src/parser/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e8856c2..5edfa21 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1280,6 +1280,13 @@ where
         Ok(consequent)
     }
 
+    fn at_label_identifier(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Identifier => true,
+            _ => self.current.matches_str("yield") || self.current.matches_str("await"),
+        }
+    }
+
     fn parse_continue_stmt(&mut self) -> Result<Node> {
         log!("parse_continue_stmt");
         // ContinueStatement[Yield, Await]:
@@ -1288,7 +1295,9 @@ where
         self.start_span();
         self.consume_kw("continue", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
+            TokenType::Identifier | TokenType::Keyword
+                if !self.has_line_terminator && self.at_label_identifier() =>
+            {
                 Some(Box::from(self.parse_id_reference()?))
             }
             _ => None,
@@ -1314,7 +1323,9 @@ where
         self.start_span();
         self.consume_kw("break", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
+            TokenType::Identifier | TokenType::Keyword
+                if !self.has_line_terminator && self.at_label_identifier() =>
+            {
                 Some(Box::from(self.parse_id_reference()?))
             }
             _ => None,
-- 
2.43.0


From f12a41f4ba05d04dad3bc36467fc02b916a712ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 020/115] fix: return without an argument before a closing
 brace or the end

---
 giron/src/parser/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 5edfa21..27e5a98 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1351,7 +1351,12 @@ where
         self.start_span();
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator
+                if self.current.matches_punc(";") || self.current.matches_punc("}") =>
+            {
+                None
+            }
+            TokenType::Eof => None,
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
-- 
2.43.0


From b226192e1ccb8ba718c41d00da4dc1bc5a4a19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 021/115] fix: a token scanned ahead keeps its position and
 brace state

---
 giron/src/scanner/scanner.rs | 51 +++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..2fb9fad 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -40,7 +40,7 @@ pub struct Scanner<I> {
     record_raw: bool,
     raw_string: String,
     curly_stack: Vec<Brace>,
-    unscanned: Option<Token>,
+    unscanned: Option<(Token, ScannerState)>,
     state: Option<ScannerState>,
 }
 
@@ -65,9 +65,9 @@ where
     }
 
     pub fn next(&mut self, goal: LexGoal) -> Result<Token> {
-        if let Some(_) = self.unscanned {
-            let token = mem::replace(&mut self.unscanned, None);
-            return Ok(token.unwrap());
+        if let Some((token, state)) = mem::replace(&mut self.unscanned, None) {
+            self.set_state(state);
+            return Ok(token);
         }
 
         self.newline = false;
@@ -1036,34 +1036,43 @@ where
         //     raw_string: String,
         //     curly_stack: Vec<Brace>,
         // }
-        self.state = Some(ScannerState {
-            start: self.start,
-            current: self.current,
-            line: self.line,
-            col: self.col,
-            newline: self.newline,
-            raw_string: self.raw_string.clone(),
-            curly_stack: self.curly_stack.clone(),
-        });
+        self.state = Some(self.get_state());
     }
 
     pub fn restore_state(&mut self, token: Token) {
         let state = mem::replace(&mut self.state, None);
         match state {
             Some(state) => {
-                self.start = state.start;
-                self.current = state.current;
-                self.line = state.line;
-                self.col = state.col;
-                self.newline = state.newline;
-                self.raw_string = state.raw_string;
-                self.curly_stack = state.curly_stack;
-                self.unscanned = Some(token);
+                // next() hands the token out again and returns to this state
+                self.unscanned = Some((token, self.get_state()));
+                self.set_state(state);
             }
             None => panic!("Trying to restore an unsaved state."),
         }
     }
 
+    fn get_state(&self) -> ScannerState {
+        ScannerState {
+            start: self.start,
+            current: self.current,
+            line: self.line,
+            col: self.col,
+            newline: self.newline,
+            raw_string: self.raw_string.clone(),
+            curly_stack: self.curly_stack.clone(),
+        }
+    }
+
+    fn set_state(&mut self, state: ScannerState) {
+        self.start = state.start;
+        self.current = state.current;
+        self.line = state.line;
+        self.col = state.col;
+        self.newline = state.newline;
+        self.raw_string = state.raw_string;
+        self.curly_stack = state.curly_stack;
+    }
+
     fn error<T>(&self, errortype: ErrorType) -> Result<T> {
         Err(Error {
             line: self.line,
-- 
2.43.0


From 4614d6e26c81e82e81cc3392fbdca926df6c678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 022/115] fix: looking past async neither lexes a division as a
 regular expression nor leaks a span

---
 giron/src/parser/parser.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 27e5a98..6315660 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -602,22 +602,10 @@ where
             }
             // special LL(2) grammar case
             TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
-                self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::RegExp)?;
-                match &next_token.tokentype {
-                    TokenType::Keyword
-                        if next_token.matches_str("function")
-                            && self.current.line_num == next_token.line_num =>
-                    {
-                        self.scanner.restore_state(next_token);
-                        self.with_default(false, &mut Self::parse_hoistable_dclr)
-                    }
-                    _ => {
-                        self.scanner.restore_state(next_token);
-                        self.end_span();
-                        self.parse_expression_or_labelled_stmt()
-                    }
+                if self.before_function()? {
+                    self.with_default(false, &mut Self::parse_hoistable_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt()
                 }
             }
             // declarations
@@ -4091,6 +4079,22 @@ where
         expr
     }
 
+    /// The token after the current one, for the LL(2) cases of the grammar.
+    fn lookahead(&mut self) -> Result<Token> {
+        self.scanner.save_state();
+        let next_token = self.scanner.next(LexGoal::Div)?;
+        self.scanner.restore_state(next_token.clone());
+        Ok(next_token)
+    }
+
+    /// Whether "function" follows the current token on the same line.
+    fn before_function(&mut self) -> Result<bool> {
+        let next_token = self.lookahead()?;
+        Ok(next_token.tokentype == TokenType::Keyword
+            && next_token.matches_str("function")
+            && next_token.line_num == self.current.line_num)
+    }
+
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
         let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-- 
2.43.0


From f0357d5a7a93dc666bed960e2b933515538264d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 023/115] fix: async and function of a declaration stand on one
 line

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6315660..16b1216 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1556,7 +1556,7 @@ where
         //     "async" [no LineTerminator here] "function" "*" BindingIdentifier[?Yield, ?Await]
         //       "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
         //     [+Default] "async" [no LineTerminator here] "function" "*" "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
-        if r#async && !self.has_line_terminator {
+        if r#async && self.has_line_terminator {
             return self.unexpected_current();
         }
         if !r#async {
-- 
2.43.0


From f41179a907fcdc2400d26c4e9c2e70da1b7c7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 024/115] fix: let and async declarations can be exported

---
 giron/src/parser/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 16b1216..3a29d20 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -452,7 +452,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.is_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_dclr_kw() => {
                 let declaration = self.with_params(
                     Params {
                         has_yield: false,
@@ -554,13 +554,13 @@ where
     fn parse_declaration(&mut self) -> Result<Node> {
         log!("parse_declaration");
         match self.current.tokentype {
-            TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             _ => self.unexpected_current(),
-- 
2.43.0


From 025384349e55781a45912dd41bcae92ff2739a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 025/115] fix: export default accepts expressions that start
 with async

---
 giron/src/parser/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3a29d20..8b84db5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -385,10 +385,11 @@ where
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("default") => {
                 self.advance(LexGoal::RegExp)?;
+                // an "async" that is not part of a declaration starts an expression
+                let hoistable = self.current.is_hoistable_dclr_kw()
+                    && (self.current.tokentype == TokenType::Keyword || self.before_function()?);
                 match self.current.tokentype {
-                    TokenType::Identifier | TokenType::Keyword
-                        if self.current.is_hoistable_dclr_kw() =>
-                    {
+                    TokenType::Identifier | TokenType::Keyword if hoistable => {
                         let declaration = self.with_params(
                             Params {
                                 has_yield: false,
-- 
2.43.0


From 04f76ecba2319049d86caf57be6756648bdc0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 026/115] fix: declarations inside an exported default function
 need names

---
 giron/src/parser/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8b84db5..c3fffe0 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1594,6 +1594,7 @@ where
             Params {
                 has_yield: generator,
                 has_await: r#async,
+                has_default: false,
                 ..self.params
             },
             &mut Self::parse_formal_params,
@@ -1603,6 +1604,7 @@ where
             Params {
                 has_yield: generator,
                 has_await: r#async,
+                has_default: false,
                 ..self.params
             },
             &mut Self::parse_function_body,
-- 
2.43.0


From f853bbc6f07bc1c05e32140ff7f86ee6dbc7127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 027/115] fix: break and continue inside a function body do not
 see enclosing loops

---
 giron/src/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c3fffe0..b67207b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1634,9 +1634,14 @@ where
         let prev_strict = self.ctx.strict;
         let mut body = self.parse_directive_prologues()?;
 
+        // break and continue do not reach out of a function
         let prev_in_iteration = self.ctx.in_iteration;
+        let prev_in_switch = self.ctx.in_switch;
+        self.ctx.in_iteration = false;
+        self.ctx.in_switch = false;
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
+        self.ctx.in_switch = prev_in_switch;
 
         self.consume("}", LexGoal::RegExp)?;
         self.ctx.strict = prev_strict;
-- 
2.43.0


From ac3b4f5c13d9576662ea2f43cf4f1fb1f3545bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 028/115] fix: a class declaration is no statement

---
 giron/src/parser/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b67207b..a441e9b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -673,6 +673,9 @@ where
 
     fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
+        if self.current.tokentype == TokenType::Keyword && self.current.matches_str("class") {
+            return self.unexpected_current();
+        }
         self.start_span();
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
-- 
2.43.0


From e6d135a8862dfb1fa5795dadbb87fc023ff608f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 029/115] fix: generator and async function expressions set
 their own yield and await parameters

---
 giron/src/parser/parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a441e9b..060e206 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3244,17 +3244,28 @@ where
         }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_str("*") => true,
+            TokenType::Punctuator if self.current.matches_punc("*") => {
+                self.advance(LexGoal::RegExp)?;
+                true
+            }
             _ => false,
         };
+        let params = Params {
+            has_yield: generator,
+            has_await: r#async,
+            ..self.params
+        };
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
-            _ => Some(Box::from(self.parse_id_reference()?)),
+            _ => Some(Box::from(self.with_params(
+                Params { ..params },
+                &mut Self::parse_id_reference,
+            )?)),
         };
         Ok(Node::FunctionExpression {
             id,
-            params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            params: self.with_params(Params { ..params }, &mut Self::parse_formal_params)?,
+            body: Box::from(self.with_params(params, &mut Self::parse_function_body)?),
             generator,
             expression: false,
             r#async,
-- 
2.43.0


From b9e99ffe265510cfbc9336e9d5c555c89e3ed2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 030/115] fix: a function expression may be divided

---
 giron/src/parser/parser.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 060e206..baeacb8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1624,14 +1624,26 @@ where
     }
 
     fn parse_function_body(&mut self) -> Result<Node> {
+        self.parse_function_body_then(LexGoal::RegExp)
+    }
+
+    /// The body of a function expression, which a division may follow.
+    fn parse_function_expr_body(&mut self) -> Result<Node> {
+        self.parse_function_body_then(LexGoal::Div)
+    }
+
+    fn parse_function_body_then(&mut self, goal: LexGoal) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
-        let res = self.with_return(true, &mut Self::parse_function_body_block);
+        self.save_params();
+        self.params.has_return = true;
+        let res = self.parse_function_body_block(goal);
+        self.restore_params();
         self.ctx.in_function = prev_in_function;
         res
     }
 
-    fn parse_function_body_block(&mut self) -> Result<Node> {
+    fn parse_function_body_block(&mut self, goal: LexGoal) -> Result<Node> {
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
@@ -1646,7 +1658,7 @@ where
         self.ctx.in_iteration = prev_in_iteration;
         self.ctx.in_switch = prev_in_switch;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", goal)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -3265,7 +3277,7 @@ where
         Ok(Node::FunctionExpression {
             id,
             params: self.with_params(Params { ..params }, &mut Self::parse_formal_params)?,
-            body: Box::from(self.with_params(params, &mut Self::parse_function_body)?),
+            body: Box::from(self.with_params(params, &mut Self::parse_function_expr_body)?),
             generator,
             expression: false,
             r#async,
@@ -4090,17 +4102,6 @@ where
         expr
     }
 
-    fn with_return<F>(&mut self, has_return: bool, parse_fn: &mut F) -> Result<Node>
-    where
-        F: FnMut(&mut Self) -> Result<Node>,
-    {
-        self.save_params();
-        self.params.has_return = has_return;
-        let expr = parse_fn(self);
-        self.restore_params();
-        expr
-    }
-
     /// The token after the current one, for the LL(2) cases of the grammar.
     fn lookahead(&mut self) -> Result<Token> {
         self.scanner.save_state();
-- 
2.43.0


From 53c2df8b28d14ea9c147caea0221684f72480223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 031/115] fix: class expressions are ClassExpression nodes and
 may be divided

---
 giron/src/parser/parser.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index baeacb8..e91689e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1681,12 +1681,17 @@ where
             }
             _ => unreachable!(),
         }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+        let (super_class, body) = self.parse_class_tail(LexGoal::RegExp)?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassDeclaration {
+            id: Some(Box::from(id)),
+            super_class,
+            body,
+            span: self.end_span(),
+        })
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    fn parse_class_tail(&mut self, goal: LexGoal) -> Result<(Option<Box<Node>>, ClassBody)> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
@@ -1706,13 +1711,8 @@ where
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
-        Ok(Node::ClassDeclaration {
-            id,
-            super_class,
-            body,
-            span: self.end_span(),
-        })
+        self.consume("}", goal)?;
+        Ok((super_class, body))
     }
 
     fn parse_class_body(&mut self) -> Result<ClassBody> {
@@ -3226,9 +3226,15 @@ where
             _ if self.params.has_default => None,
             _ => return self.unexpected_current(),
         };
-        let res = self.parse_class_tail(id)?;
+        let (super_class, body) = self.parse_class_tail(LexGoal::Div)?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassExpression {
+            id,
+            super_class,
+            body,
+            assign_target_type: "invalid",
+            span: self.end_span(),
+        })
     }
 
     fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
-- 
2.43.0


From 77e7cb2f6dab4c777100e2fcd84a3da1e46b5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 032/115] fix: the name of a class expression is optional

---
 giron/src/parser/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e91689e..623717e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3217,14 +3217,14 @@ where
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
         let id = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => match self.parse_binding_id()? {
+            TokenType::Punctuator if self.current.matches_punc("{") => None,
+            TokenType::Keyword if self.current.matches_str("extends") => None,
+            _ => match self.parse_binding_id()? {
                 Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
                     Some(Box::from(Node::BindingIdentifier { name, span }))
                 }
                 _ => unreachable!(),
             },
-            _ if self.params.has_default => None,
-            _ => return self.unexpected_current(),
         };
         let (super_class, body) = self.parse_class_tail(LexGoal::Div)?;
         self.ctx.strict = prev_strict;
-- 
2.43.0


From 9b6349f81fc55920768b35416959660bb7972342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 033/115] fix: an exported default class may have no name

---
 giron/src/parser/parser.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 623717e..6554678 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1675,16 +1675,28 @@ where
         self.ctx.strict = true;
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.parse_binding_id()? {
-            Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                Ok(Node::BindingIdentifier { name, span })
+        let id = match self.current.tokentype {
+            TokenType::Punctuator
+                if self.params.has_default && self.current.matches_punc("{") =>
+            {
+                None
             }
-            _ => unreachable!(),
-        }?;
+            TokenType::Keyword
+                if self.params.has_default && self.current.matches_str("extends") =>
+            {
+                None
+            }
+            _ => match self.parse_binding_id()? {
+                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
+                    Some(Box::from(Node::BindingIdentifier { name, span }))
+                }
+                _ => unreachable!(),
+            },
+        };
         let (super_class, body) = self.parse_class_tail(LexGoal::RegExp)?;
         self.ctx.strict = prev_strict;
         Ok(Node::ClassDeclaration {
-            id: Some(Box::from(id)),
+            id,
             super_class,
             body,
             span: self.end_span(),
-- 
2.43.0


From a9f539527d2188b42547246655e5634e0a0357c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 034/115] fix: static is an identifier token, a modifier or the
 name of a method

---
 giron/src/parser/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6554678..7566279 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1745,9 +1745,12 @@ where
                 }
                 _ => {
                     let r#static = match this.current.tokentype {
-                        TokenType::Keyword if this.current.matches_str("static") => {
-                            this.advance(LexGoal::RegExp)?;
-                            true
+                        TokenType::Identifier if this.current.matches_str("static") => {
+                            let modifier = this.before_property_name()?;
+                            if modifier {
+                                this.advance(LexGoal::RegExp)?;
+                            }
+                            modifier
                         }
                         _ => false,
                     };
@@ -4128,6 +4131,11 @@ where
         Ok(next_token)
     }
 
+    /// Whether the current word modifies the method after it rather than names a method.
+    fn before_property_name(&mut self) -> Result<bool> {
+        Ok(!self.lookahead()?.matches_punc("("))
+    }
+
     /// Whether "function" follows the current token on the same line.
     fn before_function(&mut self) -> Result<bool> {
         let next_token = self.lookahead()?;
-- 
2.43.0


From 16562af9592279660abe9bc0142faafd8350318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 035/115] fix: get, set and async may name a method of a class

---
 giron/src/parser/parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7566279..f2e6f44 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1754,8 +1754,18 @@ where
                         }
                         _ => false,
                     };
+                    let modifier = match this.current.tokentype {
+                        TokenType::Identifier
+                            if this.current.matches_str("get")
+                                || this.current.matches_str("set")
+                                || this.current.matches_str("async") =>
+                        {
+                            this.before_property_name()?
+                        }
+                        _ => false,
+                    };
                     match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("get") => {
+                        TokenType::Identifier if modifier && this.current.matches_str("get") => {
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
                             this.consume("(", LexGoal::RegExp)?;
@@ -1784,7 +1794,7 @@ where
                                 r#static,
                             }))
                         }
-                        TokenType::Identifier if this.current.matches_str("set") => {
+                        TokenType::Identifier if modifier && this.current.matches_str("set") => {
                             this.advance(LexGoal::RegExp)?;
                             let (key, computed) = this.parse_property_name()?;
                             let params = this.with_params(
@@ -1819,7 +1829,7 @@ where
                                 r#static,
                             }))
                         }
-                        TokenType::Identifier if this.current.matches_str("async") => {
+                        TokenType::Identifier if modifier && this.current.matches_str("async") => {
                             this.advance(LexGoal::RegExp)?;
                             let r#async = true;
                             let generator = match this.current.tokentype {
-- 
2.43.0


From 3f93bb8e8f8c03e03a14615b7d2c83836dec2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 036/115] fix: async methods of a class stand on the line of
 their name

---
 giron/src/parser/parser.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f2e6f44..f6e4099 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1832,19 +1832,16 @@ where
                         TokenType::Identifier if modifier && this.current.matches_str("async") => {
                             this.advance(LexGoal::RegExp)?;
                             let r#async = true;
+                            if this.has_line_terminator {
+                                return this.unexpected_current();
+                            }
                             let generator = match this.current.tokentype {
-                                TokenType::Punctuator
-                                    if !this.has_line_terminator
-                                        && this.current.matches_punc("*") =>
-                                {
+                                TokenType::Punctuator if this.current.matches_punc("*") => {
                                     this.advance(LexGoal::RegExp)?;
                                     true
                                 }
                                 _ => false,
                             };
-                            if !generator && !this.has_line_terminator {
-                                return this.unexpected_current();
-                            }
                             let (key, computed) = this.parse_property_name()?;
                             let params = this.with_params(
                                 Params {
-- 
2.43.0


From 0b9062a4c32e7c509fc869ca3d0080543f8395bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 037/115] fix: static and computed methods are not the
 constructor

---
 giron/src/parser/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f6e4099..2906061 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1917,6 +1917,7 @@ where
                             let generator = false;
                             let (key, computed) = this.parse_property_name()?;
                             let kind = match &key {
+                                _ if computed || r#static => "method",
                                 PropertyKey::Identifier(Identifier { name, .. }) => {
                                     if name == &String::from("constructor") {
                                         "constructor"
-- 
2.43.0


From 465d014ea860a315337847879ee3c7980df44f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 038/115] fix: setters of a class have one parameter

---
 giron/src/parser/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2906061..21073ee 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1803,7 +1803,7 @@ where
                                     has_await: false,
                                     ..this.params
                                 },
-                                &mut Self::parse_formal_params,
+                                &mut Self::parse_setter_params,
                             )?;
                             let body = Box::from(this.with_params(
                                 Params {
@@ -3390,6 +3390,16 @@ where
         Ok(parameters)
     }
 
+    fn parse_setter_params(&mut self) -> Result<Vec<FunctionParameter>> {
+        let params = self.parse_formal_params()?;
+        // PropertySetParameterList: FormalParameter
+        match params.first() {
+            Some(FunctionParameter::RestElement { .. }) => self.unexpected_current(),
+            Some(_) if params.len() == 1 => Ok(params),
+            _ => self.unexpected_current(),
+        }
+    }
+
     fn parse_object_lit_expr(&mut self) -> Result<Node> {
         log!("parse_object_lit_expr");
         // ObjectLiteral[Yield, Await]:
-- 
2.43.0


From a34f4f5055676ae0ebd997cc0a65eba94587af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 039/115] fix: null, true and false are property names

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 21073ee..f6e29ce 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3642,7 +3642,10 @@ where
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => {
                 self.start_span();
                 Ok((
                     PropertyKey::Identifier(Identifier {
-- 
2.43.0


From a9a9f7e36b4594a6e16cdd8a631e081523dfba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 040/115] fix: consume string and numeric property names

---
 giron/src/parser/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f6e29ce..f7ea4fb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3657,10 +3657,11 @@ where
             }
             TokenType::StringLiteral | TokenType::NumericLiteral => {
                 self.start_span();
+                let value = self.advance(LexGoal::RegExp)?.value;
                 Ok((
                     PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
+                        raw: String::from(&value),
+                        value,
                         span: self.end_span(),
                     }),
                     false,
-- 
2.43.0


From c8b608732fe30add8c0107d69d619bc8223d58de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 041/115] fix: the raw text of a literal property name is its
 own

---
 giron/src/parser/parser.rs | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f7ea4fb..7f25edd 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3452,7 +3452,7 @@ where
                 return Ok(res);
             }
 
-            let mut computed = false;
+            let computed = false;
             let mut r#async = false;
             let mut generator = false;
             let mut kind = "init";
@@ -3556,31 +3556,7 @@ where
                 _ => (),
             }
 
-            let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword => {
-                    this.start_span();
-                    let name = this.parse_id_name(LexGoal::Div)?;
-                    Ok(PropertyKey::Identifier(Identifier {
-                        name,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    this.start_span();
-                    let value = this.advance(LexGoal::RegExp)?.value;
-                    Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
-                        value,
-                        raw: String::from(&this.current.value),
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::Punctuator if this.current.matches_punc("[") => {
-                    computed = true;
-                    this.parse_computed_property_name()
-                }
-                _ => this.unexpected_current(),
-            }?;
+            let (key, computed) = this.parse_property_name()?;
 
             let property = match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc(":") => {
-- 
2.43.0


From ab683b8512905a72b5e824b9ff0e20975da588ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 042/115] fix: an object literal may be divided

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7f25edd..dea8741 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3607,7 +3607,7 @@ where
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
-- 
2.43.0


From e43ce2ccb234a512b33115dec3d7848214b80e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 043/115] fix: modifiers and separators of methods in object
 literals

---
 giron/src/parser/parser.rs | 119 +++++++++----------------------------
 1 file changed, 28 insertions(+), 91 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index dea8741..d0b69de 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3452,113 +3452,47 @@ where
                 return Ok(res);
             }
 
-            let computed = false;
             let mut r#async = false;
             let mut generator = false;
             let mut kind = "init";
 
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("get") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("get"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "get";
-                        }
+                    if this.before_property_name()? {
+                        this.advance(LexGoal::RegExp)?;
+                        kind = "get";
                     }
                 }
                 TokenType::Identifier if this.current.matches_str("set") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("set"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "set";
-                        }
+                    if this.before_property_name()? {
+                        this.advance(LexGoal::RegExp)?;
+                        kind = "set";
                     }
                 }
                 TokenType::Identifier if this.current.matches_str("async") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
-                        }
-                        _ => {
-                            this.scanner.restore_state(next_token);
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("*") {
-                                this.advance(LexGoal::RegExp)?;
-                                generator = true;
-                            }
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("async"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            } else {
-                                r#async = true;
-                            }
+                    if this.before_property_name()? {
+                        this.advance(LexGoal::RegExp)?;
+                        if this.has_line_terminator {
+                            return this.unexpected_current();
                         }
+                        r#async = true;
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("*") => {
-                    this.advance(LexGoal::RegExp)?;
-                    generator = true;
-                    let (key, computed) = this.parse_property_name()?;
-                    return this.parse_method_definition(key, kind, r#async, generator, computed);
-                }
                 _ => (),
             }
+            if kind == "init" && this.current.matches_punc("*") {
+                this.advance(LexGoal::RegExp)?;
+                generator = true;
+            }
+            let modified = kind != "init" || r#async || generator;
 
             let (key, computed) = this.parse_property_name()?;
 
             let property = match this.current.tokentype {
+                TokenType::Punctuator if this.current.matches_punc("(") => {
+                    this.parse_method_definition(key, kind, r#async, generator, computed)?
+                }
+                _ if modified => return this.unexpected_current(),
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
@@ -3589,9 +3523,6 @@ where
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("(") => {
-                    this.parse_method_definition(key, kind, r#async, generator, computed)?
-                }
                 _ => ObjectExpressionProperty::Property {
                     key,
                     computed,
@@ -4129,9 +4060,15 @@ where
         Ok(next_token)
     }
 
-    /// Whether the current word modifies the method after it rather than names a method.
+    /// Whether the current word modifies the method after it rather than names a property.
     fn before_property_name(&mut self) -> Result<bool> {
-        Ok(!self.lookahead()?.matches_punc("("))
+        let next_token = self.lookahead()?;
+        let names_property = next_token.matches_punc("(")
+            || next_token.matches_punc(",")
+            || next_token.matches_punc(":")
+            || next_token.matches_punc("}")
+            || next_token.matches_punc("=");
+        Ok(!names_property)
     }
 
     /// Whether "function" follows the current token on the same line.
-- 
2.43.0


From 2da9899958d78abdde6193920e6e45ebe5ac725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 044/115] fix: accessors of object literals are not methods

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d0b69de..ecd87cb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3622,7 +3622,7 @@ where
                     computed,
                     value,
                     kind,
-                    method: true,
+                    method: false,
                     shorthand: false,
                     span: self.end_span(),
                 })
@@ -3655,7 +3655,7 @@ where
                     computed,
                     value,
                     kind,
-                    method: true,
+                    method: false,
                     shorthand: false,
                     span: self.end_span(),
                 })
-- 
2.43.0


From 6649086a3e7783b905b05537c59a9526e9eda438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 045/115] fix: setters of object literals have one parameter

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ecd87cb..c0fb73d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3636,7 +3636,7 @@ where
                             has_await: false,
                             ..self.params
                         },
-                        &mut Self::parse_formal_params,
+                        &mut Self::parse_setter_params,
                     )?,
                     body: Box::from(self.with_params(
                         Params {
-- 
2.43.0


From 823877350bd4ac5c799b555e7fe810658a6f62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 046/115] fix: shorthand properties are identifier references
 and carry their value

---
 giron/src/parser/parser.rs | 87 ++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c0fb73d..388c894 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1272,7 +1272,7 @@ where
         Ok(consequent)
     }
 
-    fn at_label_identifier(&self) -> bool {
+    fn at_identifier(&self) -> bool {
         match self.current.tokentype {
             TokenType::Identifier => true,
             _ => self.current.matches_str("yield") || self.current.matches_str("await"),
@@ -1288,7 +1288,7 @@ where
         self.consume_kw("continue", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword
-                if !self.has_line_terminator && self.at_label_identifier() =>
+                if !self.has_line_terminator && self.at_identifier() =>
             {
                 Some(Box::from(self.parse_id_reference()?))
             }
@@ -1316,7 +1316,7 @@ where
         self.consume_kw("break", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword
-                if !self.has_line_terminator && self.at_label_identifier() =>
+                if !self.has_line_terminator && self.at_identifier() =>
             {
                 Some(Box::from(self.parse_id_reference()?))
             }
@@ -3486,6 +3486,16 @@ where
             }
             let modified = kind != "init" || r#async || generator;
 
+            if !modified && this.before_shorthand_end()? {
+                // IdentifierReference | CoverInitializedName
+                let value = this.parse_id_reference()?;
+                let property = this.parse_shorthand_property(value)?;
+                if !this.current.matches_punc("}") {
+                    this.consume(",", LexGoal::RegExp)?;
+                }
+                return Ok(property);
+            }
+
             let (key, computed) = this.parse_property_name()?;
 
             let property = match this.current.tokentype {
@@ -3508,30 +3518,7 @@ where
                         span: this.end_span(),
                     }
                 }
-                TokenType::Punctuator if this.current.matches_punc("=") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
-                    ObjectExpressionProperty::Property {
-                        key,
-                        computed,
-                        value: Some(value),
-                        kind,
-                        method: false,
-                        shorthand: true,
-                        span: this.end_span(),
-                    }
-                }
-                _ => ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value: None,
-                    kind,
-                    method: false,
-                    shorthand: true,
-                    span: this.end_span(),
-                },
+                _ => return this.unexpected_current(),
             };
             if !this.current.matches_punc("}") {
                 this.consume(",", LexGoal::RegExp)?;
@@ -3546,6 +3533,39 @@ where
         })
     }
 
+    fn parse_shorthand_property(&mut self, value: Node) -> Result<ObjectExpressionProperty> {
+        let (name, span) = match &value {
+            Node::Identifier { name, span, .. } => (name.clone(), span.clone()),
+            _ => return self.unexpected_current(),
+        };
+        let key = PropertyKey::Identifier(Identifier {
+            name: name.clone(),
+            span: span.clone(),
+        });
+        let value = match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("=") => {
+                if value.assign_target_type() != "simple" {
+                    return self.error_current(ErrorType::InvalidLhsInAssignment);
+                }
+                self.advance(LexGoal::RegExp)?;
+                PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
+                    right: self.with_in(true, &mut Self::parse_assignment_expr)?,
+                })
+            }
+            _ => PropertyValue::Expression(value),
+        };
+        Ok(ObjectExpressionProperty::Property {
+            key,
+            computed: false,
+            value: Some(value),
+            kind: "init",
+            method: false,
+            shorthand: true,
+            span: self.end_span(),
+        })
+    }
+
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
@@ -4071,6 +4091,19 @@ where
         Ok(!names_property)
     }
 
+    /// Whether the current word is a property without a value of its own.
+    fn before_shorthand_end(&mut self) -> Result<bool> {
+        match self.current.tokentype {
+            TokenType::Identifier | TokenType::Keyword if self.at_identifier() => {
+                let next_token = self.lookahead()?;
+                Ok(next_token.matches_punc(",")
+                    || next_token.matches_punc("}")
+                    || next_token.matches_punc("="))
+            }
+            _ => Ok(false),
+        }
+    }
+
     /// Whether "function" follows the current token on the same line.
     fn before_function(&mut self) -> Result<bool> {
         let next_token = self.lookahead()?;
-- 
2.43.0


From 6ede25f3aa0295d6ccbc772f308de95ede692274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 047/115] fix: no underflow for an empty array pattern among
 arrow parameters

---
 giron/src/estree/estree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..7a6f7c6 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1262,14 +1262,14 @@ impl Node {
 
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
+        let len = elements.len();
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
-                    pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
+                    pat_elems.push(Some(expr.to_array_pattern_element(i + 1 == len)?))
                 }
                 Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                    if i + 1 != len {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
-- 
2.43.0


From 54499eb90478644293728e4e9cb8a4bdeb4f455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 048/115] fix: a rest element may end an array assignment
 pattern

---
 giron/src/estree/estree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 7a6f7c6..ab0ce47 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1091,7 +1091,7 @@ impl Node {
         span: Span,
     ) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len();
+        let len = elements.len();
         for (i, element) in elements.into_iter().enumerate() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
@@ -1099,7 +1099,7 @@ impl Node {
                     pat_elems.push(Some(ArrayAssignmentPatternElement::Expression(element)));
                 }
                 Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                    if i + 1 != len {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     let argument = match argument {
-- 
2.43.0


From 965ad95a6a4d47403e6b914f88bd5b70904b8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 049/115] fix: array assignment patterns may nest in a rest
 element

---
 giron/src/estree/estree.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ab0ce47..8036b4b 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1102,13 +1102,7 @@ impl Node {
                     if i + 1 != len {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start)
-                        }
-                        _ => argument,
-                    };
+                    let argument = argument.to_assignment_pattern()?;
                     if argument.assign_target_type() != "simple" {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
-- 
2.43.0


From 3fb353d9ea42f4260c2de43c69129e2fae6c649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 050/115] fix: rest targets of assignment patterns are not
 parsed as bindings

---
 giron/src/estree/estree.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 8036b4b..ac61c85 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1042,19 +1042,13 @@ impl Node {
         }
     }
 
-    fn to_binding(self) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
-            Node::BindingIdentifier { name, span } => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
-            }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
+    /// The target of a rest element in an assignment pattern.
+    fn to_binding(self) -> Binding {
+        match self {
+            Node::Identifier { name, span, .. } => {
+                Binding::BindingIdentifier(BindingIdentifier { name, span })
             }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Ok(Binding::Expression(Box::from(node))),
+            _ => Binding::Expression(Box::from(self)),
         }
     }
 
@@ -1108,7 +1102,7 @@ impl Node {
                     }
                     pat_elems.push(Some(ArrayAssignmentPatternElement::RestElement(
                         RestElement {
-                            argument: argument.to_binding()?,
+                            argument: argument.to_binding(),
                         },
                     )))
                 }
@@ -1216,7 +1210,7 @@ impl Node {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_props.push(ObjectPatternProperty::RestElement {
-                        argument: argument.to_binding()?,
+                        argument: argument.to_binding(),
                     });
                 }
             }
-- 
2.43.0


From edb857a3e4ee22e2607611fc5c57bc50c6924cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 051/115] fix: shorthand properties with an initializer are
 assignment patterns

---
 giron/src/estree/estree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ac61c85..62917c7 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1183,6 +1183,10 @@ impl Node {
                         Some(PropertyValue::Expression(expr)) => Ok(Some(
                             PropertyValue::Expression(expr.as_assignment_element()?),
                         )),
+                        // CoverInitializedName
+                        Some(PropertyValue::AssignmentPattern(pattern)) => {
+                            Ok(Some(PropertyValue::AssignmentPattern(pattern)))
+                        }
                         None => Ok(None),
                         _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                     }?;
@@ -1355,6 +1359,10 @@ impl Node {
                             }
                             _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                         },
+                        // CoverInitializedName
+                        Some(PropertyValue::AssignmentPattern(pattern)) => {
+                            Ok(Some(PropertyValue::AssignmentPattern(pattern)))
+                        }
                         None => Ok(None),
                         _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                     }?;
-- 
2.43.0


From 1970951a4fe9bb2ecd711fcf3a7720c7cb6546b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 052/115] fix: the rest of an object binding pattern is an
 identifier

---
 giron/src/estree/estree.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 62917c7..61dc4a0 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1376,13 +1376,18 @@ impl Node {
                     });
                 }
                 ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i == last_idx {
-                        pat_props.push(ObjectPatternProperty::RestElement {
-                            argument: argument.to_strict_binding(span.start)?,
-                        });
-                    } else {
+                    if i != last_idx {
                         return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start);
                     }
+                    let marker = span.start.clone();
+                    match argument.to_strict_binding(span.start)? {
+                        Binding::BindingIdentifier(id) => {
+                            pat_props.push(ObjectPatternProperty::RestElement {
+                                argument: Binding::BindingIdentifier(id),
+                            });
+                        }
+                        _ => return Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
+                    }
                 }
             }
         }
-- 
2.43.0


From a0185913c28602add3dc9fe166219af77262b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 053/115] fix: eval and arguments are no arrow parameters in
 strict code

---
 giron/src/estree/estree.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 61dc4a0..baceab4 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -1228,7 +1228,14 @@ impl Node {
 
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
-            Node::Identifier { name, span, .. } => Ok(Node::BindingIdentifier { name, span }),
+            Node::Identifier {
+                name,
+                assign_target_type,
+                span,
+            } => match assign_target_type {
+                "simple" => Ok(Node::BindingIdentifier { name, span }),
+                _ => Node::error(ErrorType::UnexpectedStrictReserved, span.start),
+            },
             Node::ArrayExpression { elements, span, .. } => Node::array_to_pattern(elements, span),
             Node::ObjectExpression {
                 properties, span, ..
-- 
2.43.0


From f16ae04d8f4d7948cd0c8b51bf8809f99ce213f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 054/115] fix: patterns with an initializer are arrow
 parameters

---
 giron/src/estree/estree.rs | 160 +++++++++++++++++++++++++++++--------
 1 file changed, 127 insertions(+), 33 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index baceab4..933549f 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -125,6 +125,13 @@ impl Binding {
         }
     }
 
+    fn to_strict_binding(self, marker: Marker) -> Result<Binding> {
+        match self {
+            Binding::Expression(node) => node.to_strict_binding(marker),
+            _ => Ok(self),
+        }
+    }
+
     pub fn to_id(self) -> Result<Identifier> {
         match self {
             Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
@@ -1251,6 +1258,18 @@ impl Node {
                 right,
                 span,
             }),
+            // assignment patterns left of "=" in a parameter list
+            Node::ArrayAssignmentPattern { elements, span, .. } => {
+                Node::array_pattern_to_binding(elements, span)
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => Node::object_pattern_to_binding(properties, span),
+            Node::AssignmentPattern { left, right, span } => Ok(Node::AssignmentPattern {
+                left: left.to_strict_binding(span.clone().start)?,
+                right,
+                span,
+            }),
             Node::SpreadElement { argument, span } => Ok(Node::RestElement {
                 argument: (*argument).to_strict_binding(span.clone().start)?,
                 span,
@@ -1319,6 +1338,32 @@ impl Node {
         }
     }
 
+    fn array_pattern_to_binding(
+        elements: Vec<Option<ArrayAssignmentPatternElement>>,
+        span: Span,
+    ) -> Result<Node> {
+        let mut pat_elems = vec![];
+        let len = elements.len();
+        for (i, element) in elements.into_iter().enumerate() {
+            match element {
+                Some(ArrayAssignmentPatternElement::Expression(expr)) => {
+                    pat_elems.push(Some(expr.to_array_pattern_element(i + 1 == len)?))
+                }
+                Some(ArrayAssignmentPatternElement::RestElement(RestElement { argument })) => {
+                    pat_elems.push(Some(ArrayPatternElement::RestElement {
+                        argument: argument.to_strict_binding(span.start.clone())?,
+                    }));
+                }
+                None => pat_elems.push(None),
+            }
+        }
+        Ok(Node::ArrayPattern {
+            elements: pat_elems,
+            assign_target_type: "simple",
+            span,
+        })
+    }
+
     fn object_to_pattern(properties: Vec<ObjectExpressionProperty>, span: Span) -> Result<Node> {
         let mut pat_props = vec![];
         if properties.len() == 0 {
@@ -1340,39 +1385,7 @@ impl Node {
                     shorthand,
                     span,
                 } => {
-                    let value = match value {
-                        Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
-                            Node::AssignmentPattern { left, right, .. } => {
-                                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left,
-                                    right: *right,
-                                })))
-                            }
-                            Node::BindingIdentifier { name, span } => {
-                                Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                    name,
-                                    span,
-                                })))
-                            }
-                            Node::ObjectPattern { properties, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ObjectPattern { properties },
-                                )))
-                            }
-                            Node::ArrayPattern { elements, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ArrayPattern { elements },
-                                )))
-                            }
-                            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                        },
-                        // CoverInitializedName
-                        Some(PropertyValue::AssignmentPattern(pattern)) => {
-                            Ok(Some(PropertyValue::AssignmentPattern(pattern)))
-                        }
-                        None => Ok(None),
-                        _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                    }?;
+                    let value = Node::property_value_to_binding(value, span.start)?;
                     pat_props.push(ObjectPatternProperty::Property {
                         key,
                         computed,
@@ -1405,6 +1418,87 @@ impl Node {
         })
     }
 
+    fn object_pattern_to_binding(
+        properties: Vec<ObjectPatternProperty>,
+        span: Span,
+    ) -> Result<Node> {
+        let mut pat_props = vec![];
+        for property in properties.into_iter() {
+            match property {
+                ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value,
+                    kind,
+                    method,
+                    shorthand,
+                } => {
+                    let value = Node::property_value_to_binding(value, span.start.clone())?;
+                    pat_props.push(ObjectPatternProperty::Property {
+                        key,
+                        computed,
+                        value,
+                        kind,
+                        method,
+                        shorthand,
+                    });
+                }
+                ObjectPatternProperty::RestElement {
+                    argument: Binding::BindingIdentifier(id),
+                } => pat_props.push(ObjectPatternProperty::RestElement {
+                    argument: Binding::BindingIdentifier(id),
+                }),
+                ObjectPatternProperty::RestElement { .. } => {
+                    return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start)
+                }
+            }
+        }
+        Ok(Node::ObjectPattern {
+            properties: pat_props,
+            assign_target_type: "simple",
+            span,
+        })
+    }
+
+    fn property_value_to_binding(
+        value: Option<PropertyValue>,
+        marker: Marker,
+    ) -> Result<Option<PropertyValue>> {
+        match value {
+            Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
+                Node::AssignmentPattern { left, right, .. } => {
+                    Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
+                        left,
+                        right: *right,
+                    })))
+                }
+                Node::BindingIdentifier { name, span } => {
+                    Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
+                        name,
+                        span,
+                    })))
+                }
+                Node::ObjectPattern { properties, .. } => {
+                    Ok(Some(PropertyValue::BindingPattern(
+                        BindingPattern::ObjectPattern { properties },
+                    )))
+                }
+                Node::ArrayPattern { elements, .. } => {
+                    Ok(Some(PropertyValue::BindingPattern(
+                        BindingPattern::ArrayPattern { elements },
+                    )))
+                }
+                _ => Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
+            },
+            // CoverInitializedName
+            Some(PropertyValue::AssignmentPattern(pattern)) => {
+                Ok(Some(PropertyValue::AssignmentPattern(pattern)))
+            }
+            None => Ok(None),
+            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, marker),
+        }
+    }
+
     pub fn error<T>(errortype: ErrorType, marker: Marker) -> Result<T> {
         Err(Error {
             line: marker.line,
-- 
2.43.0


From d06d9735a7f092a03e0d8658370ef40ca9106ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 055/115] fix: the rest property of an object pattern is an
 identifier

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 388c894..6f599d3 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2917,7 +2917,7 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.advance(LexGoal::RegExp)?;
                 Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id_or_pat()?,
+                    argument: this.parse_binding_id()?,
                 })
             }
             _ => {
-- 
2.43.0


From 622f90a340dcb723cb1b602e97241e5559cf0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 056/115] fix: names, keys and shorthand values of object
 binding patterns

---
 giron/src/parser/parser.rs | 177 +++++++++++++------------------------
 1 file changed, 60 insertions(+), 117 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6f599d3..c33e86a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,12 +24,7 @@ macro_rules! log {
 
 // **************************************************************
 
-pub enum ValueOrExpr {
-    Value(Value),
-    Expr(Node),
-}
-
-struct Context {
+pub struct Context {
     strict: bool,
     in_function: bool,
     in_iteration: bool,
@@ -1676,9 +1671,7 @@ where
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
         let id = match self.current.tokentype {
-            TokenType::Punctuator
-                if self.params.has_default && self.current.matches_punc("{") =>
-            {
+            TokenType::Punctuator if self.params.has_default && self.current.matches_punc("{") => {
                 None
             }
             TokenType::Keyword
@@ -2910,62 +2903,20 @@ where
         //     "=" AssignmentExpression[?In, ?Yield, ?Await]
         self.start_span();
         self.consume("{", LexGoal::RegExp)?;
-        let properties = self.parse_until_punc_or_rest("}", &mut |this| match this
-            .current
-            .tokentype
-        {
-            TokenType::Punctuator if this.current.matches_punc("...") => {
-                this.advance(LexGoal::RegExp)?;
-                Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id()?,
-                })
-            }
-            _ => {
-                this.start_span();
-                let value = match this.current.tokentype {
-                    TokenType::Identifier
-                    | TokenType::Keyword
-                    | TokenType::StringLiteral
-                    | TokenType::NumericLiteral => {
-                        Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
-                    }
-                    TokenType::Punctuator if this.current.matches_punc("[") => {
-                        this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                        this.consume("]", LexGoal::RegExp)?;
-                        Ok(ValueOrExpr::Expr(expr))
-                    }
-                    _ => this.unexpected_current(),
-                }?;
-                let span = this.end_span();
-                let property = match this.current.tokentype {
-                    TokenType::Punctuator if this.current.matches_punc("=") => {
-                        this.advance(LexGoal::RegExp)?;
-                        let name = match &value {
-                            ValueOrExpr::Value(Value::Str(s)) => Ok(s.clone()),
-                            _ => this.unexpected_current(),
-                        }?;
-                        let key = this.value_to_key(value, false, span.clone())?;
-                        let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
-                            left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
-                            right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                        });
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: Some(obj_value),
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
-                    }
-                    TokenType::Punctuator if this.current.matches_punc(":") => {
-                        this.advance(LexGoal::RegExp)?;
-                        let key = this.value_to_key(value, true, span)?;
-                        let computed = match &key {
-                            PropertyKey::Expression(_) => true,
-                            _ => false,
-                        };
+        let properties =
+            self.parse_until_punc_or_rest("}", &mut |this| match this.current.tokentype {
+                TokenType::Punctuator if this.current.matches_punc("...") => {
+                    this.advance(LexGoal::RegExp)?;
+                    Ok(ObjectPatternProperty::RestElement {
+                        argument: this.parse_binding_id()?,
+                    })
+                }
+                _ => {
+                    let property = if this.at_single_name_binding()? {
+                        this.parse_single_name_property()?
+                    } else {
+                        let (key, computed) = this.parse_property_name()?;
+                        this.consume(":", LexGoal::RegExp)?;
                         let (line, col) = (this.current.line_num, this.current.col);
                         let pattern = this.parse_binding_id_or_pat()?;
                         let obj_value = match this.current.tokentype {
@@ -3002,33 +2953,21 @@ where
                                 }
                             },
                         }?;
-                        Ok(ObjectPatternProperty::Property {
+                        ObjectPatternProperty::Property {
                             key,
                             computed,
                             value: Some(obj_value),
                             kind: "init",
                             method: false,
                             shorthand: false,
-                        })
-                    }
-                    _ => {
-                        let key = this.value_to_key(value, false, span)?;
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: None,
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
+                        }
+                    };
+                    if !this.current.matches_punc("}") {
+                        this.consume(",", LexGoal::RegExp)?;
                     }
-                }?;
-                if !this.current.matches_punc("}") {
-                    this.consume(",", LexGoal::RegExp)?;
+                    Ok(property)
                 }
-                Ok(property)
-            }
-        })?;
+            })?;
         self.consume("}", LexGoal::RegExp)?;
         Ok(Binding::ObjectPattern(ObjectPattern {
             properties,
@@ -3036,43 +2975,47 @@ where
         }))
     }
 
-    fn value_to_key(
-        &mut self,
-        value: ValueOrExpr,
-        literal: bool,
-        span: Span,
-    ) -> Result<PropertyKey> {
-        match value {
-            ValueOrExpr::Expr(expr) if literal => Ok(PropertyKey::Expression(expr)),
-            ValueOrExpr::Value(value) => {
-                if literal {
-                    let raw = String::from(&value);
-                    Ok(PropertyKey::Literal(Literal { value, raw, span }))
-                } else {
-                    let val = &String::from(&value)[..];
-                    if self.scanner.is_keyword(val) {
-                        if (!self.params.has_yield && val == "yield")
-                            | (!self.params.has_await && val == "await")
-                        {
-                            Ok(PropertyKey::Identifier(Identifier {
-                                name: String::from(val),
-                                span,
-                            }))
-                        } else {
-                            self.unexpected_current()
-                        }
-                    } else {
-                        Ok(PropertyKey::Identifier(Identifier {
-                            name: String::from(val),
-                            span,
-                        }))
-                    }
-                }
+    /// SingleNameBinding without a property name: an identifier that ":" does not follow.
+    fn at_single_name_binding(&mut self) -> Result<bool> {
+        match self.current.tokentype {
+            TokenType::Identifier | TokenType::Keyword if self.at_identifier() => {
+                Ok(!self.lookahead()?.matches_punc(":"))
             }
-            _ => panic!(),
+            _ => Ok(false),
         }
     }
 
+    fn parse_single_name_property(&mut self) -> Result<ObjectPatternProperty> {
+        self.start_span();
+        let binding = self.parse_binding_id()?;
+        let id = match binding {
+            Binding::BindingIdentifier(id) => id,
+            _ => return self.unexpected_current(),
+        };
+        let key = PropertyKey::Identifier(Identifier {
+            name: id.name.clone(),
+            span: self.end_span(),
+        });
+        let value = match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("=") => {
+                self.advance(LexGoal::RegExp)?;
+                PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left: Binding::BindingIdentifier(id),
+                    right: self.with_in(true, &mut Self::parse_assignment_expr)?,
+                })
+            }
+            _ => PropertyValue::BindingIdentifier(id),
+        };
+        Ok(ObjectPatternProperty::Property {
+            key,
+            computed: false,
+            value: Some(value),
+            kind: "init",
+            method: false,
+            shorthand: true,
+        })
+    }
+
     fn parse_arr_binding_pat(&mut self) -> Result<Binding> {
         log!("parse_arr_binding_pat");
         // ArrayBindingPattern[Yield, Await]:
-- 
2.43.0


From 858e33fb591ea8530784eeadea765ce5757d461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 057/115] fix: member, call and tagged template expressions
 span their object

---
 giron/src/parser/parser.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c33e86a..9201774 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2382,7 +2382,6 @@ where
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
-                            span,
                             ..
                         } => {
                             callee = Node::TaggedTemplateExpression {
@@ -2391,7 +2390,7 @@ where
                                     quasis,
                                     expressions,
                                 },
-                                span,
+                                span: self.peek_span(),
                             };
                         }
                         _ => unreachable!(),
@@ -2413,6 +2412,7 @@ where
         // SuperProperty[Yield, Await]:
         //     "super" "[" Expression[+In] "]"
         //     super "." IdentifierName
+        self.start_span();
         let mut expr = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
@@ -2441,7 +2441,6 @@ where
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
-                            span,
                             ..
                         } => {
                             expr = Node::TaggedTemplateExpression {
@@ -2450,7 +2449,7 @@ where
                                     quasis,
                                     expressions,
                                 },
-                                span,
+                                span: self.peek_span(),
                             };
                         }
                         _ => unreachable!(),
@@ -2459,27 +2458,28 @@ where
                 _ => break,
             }
         }
+        self.end_span();
         Ok(expr)
     }
 
+    /// The span of the object starts at the topmost marker.
     fn parse_computed_member_expr(&mut self, object: Node) -> Result<Node> {
         log!("parse_computed_member_expr");
-        self.start_span();
         self.consume("[", LexGoal::RegExp)?;
-        let member_expr = Node::ComputedMemberExpression {
+        let property = Box::from(self.with_in(true, &mut Self::parse_expression)?);
+        self.consume("]", LexGoal::Div)?;
+        Ok(Node::ComputedMemberExpression {
             computed: true,
             object: Box::from(object),
-            property: Box::from(self.with_in(true, &mut Self::parse_expression)?),
+            property,
             assign_target_type: "simple",
-            span: self.end_span(),
-        };
-        self.consume("]", LexGoal::Div)?;
-        Ok(member_expr)
+            span: self.peek_span(),
+        })
     }
 
+    /// The span of the object starts at the topmost marker.
     fn parse_static_member_expr(&mut self, object: Node) -> Result<Node> {
         log!("parse_static_member_expr");
-        self.start_span();
         self.consume(".", LexGoal::RegExp)?;
         self.start_span();
         let name = self.parse_id_name(LexGoal::Div)?;
@@ -2493,7 +2493,7 @@ where
             object: Box::from(object),
             property,
             assign_target_type: "simple",
-            span: self.end_span(),
+            span: self.peek_span(),
         })
     }
 
-- 
2.43.0


From 39a49d363b50a1f9c6c6211ab496472ae40a2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 058/115] fix: new expressions are member expressions

---
 giron/src/parser/parser.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 9201774..41e14b9 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2322,10 +2322,7 @@ where
 
     fn parse_left_hand_side_expr(&mut self) -> Result<Node> {
         log!("parse_left_hand_side_expr");
-        match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
-            _ => self.parse_call_expr(),
-        }
+        self.parse_call_expr()
     }
 
     fn parse_call_expr(&mut self) -> Result<Node> {
@@ -2426,6 +2423,7 @@ where
                     _ => self.unexpected_current(),
                 }
             }
+            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
             _ => self.parse_primary_expr(),
         }?;
         loop {
@@ -2540,12 +2538,6 @@ where
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
                 let arguments = match self.current.tokentype {
@@ -2554,13 +2546,12 @@ where
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
+                Ok(Node::NewExpression {
                     callee,
                     arguments,
                     assign_target_type: "invalid",
                     span: self.end_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                })
             }
         }
     }
-- 
2.43.0


From b5e441880b1381becd1e4df2280388dd86ce568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 059/115] fix: binary and arrow expressions span their left
 operand, no marker is left behind

---
 giron/src/parser/parser.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 41e14b9..ca3d9fa 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2031,6 +2031,7 @@ where
                 span: self.end_span(),
             })
         } else {
+            self.end_span();
             Ok(expr)
         }
     }
@@ -2122,9 +2123,6 @@ where
                         span: self.end_span(),
                     })
                 }
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"))
-                }
                 _ => Ok(Node::YieldExpression {
                     argument: Some(Box::from(
                         self.with_yield(true, &mut Self::parse_assignment_expr)?,
@@ -2156,7 +2154,7 @@ where
             expression,
             r#async: false,
             assign_target_type: "invalid",
-            span: self.end_span(),
+            span: self.peek_span(),
         })
     }
 
@@ -2181,6 +2179,7 @@ where
                 span: self.end_span(),
             })
         } else {
+            self.end_span();
             Ok(expr)
         }
     }
@@ -2190,28 +2189,31 @@ where
         // ExponentiationExpression binop ExponentiationExpression
         self.start_span();
         let lhs = self.parse_exponentiation_expr()?;
-        self.precedence_climbing(lhs, 1)
+        let res = self.precedence_climbing(lhs, 1);
+        self.end_span();
+        res
     }
 
+    /// The span of lhs starts at the topmost marker.
     fn precedence_climbing(&mut self, mut lhs: Node, prec: usize) -> Result<Node> {
         while self.current.is_bin_op() && self.current.precedence(self.params.has_in) >= prec {
             let op = self.advance(LexGoal::RegExp)?;
+            self.start_span();
             let mut rhs = self.parse_exponentiation_expr()?;
             while self.current.is_bin_op()
                 && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
             {
                 rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
             }
+            self.end_span(); // not needed
             lhs = Node::BinaryExpression {
                 operator: op.to_string(),
                 left: Box::from(lhs),
                 right: Box::from(rhs),
                 assign_target_type: "invalid",
-                span: self.end_span(),
+                span: self.peek_span(),
             };
-            self.start_span();
         }
-        self.end_span();
         Ok(lhs)
     }
 
@@ -2315,6 +2317,7 @@ where
                     span: self.end_span(),
                 })
             } else {
+                self.end_span();
                 Ok(expr)
             }
         }
@@ -3723,17 +3726,13 @@ where
         let id = self.parse_id_reference()?;
         if !self.has_line_terminator {
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
                 TokenType::Punctuator if self.current.matches_punc("(") => {
                     self.parse_async_call_or_arrow(Box::from(id))
                 }
                 TokenType::Keyword if self.current.matches_str("function") => {
                     self.parse_function_expr(true)
                 }
-                _ => {
+                _ if self.at_identifier() => {
                     let param = match self.with_await(true, &mut Self::parse_id_reference)? {
                         Node::Identifier { name, .. } => {
                             Ok(FunctionParameter::BindingIdentifier { name })
@@ -3757,6 +3756,10 @@ where
                         self.unexpected_current()
                     }
                 }
+                _ => {
+                    self.end_span();
+                    Ok(id)
+                }
             }
         } else {
             self.end_span();
-- 
2.43.0


From 52fcf4d24836b1e31bedb5ea5a6301780658677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 060/115] fix: == is not an assignment operator

---
 giron/src/parser/syntax.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..a9cbc08 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -81,7 +81,6 @@ impl Syntax for Token {
             | Value::Punc(Punctuator::BitOrAssign)
             | Value::Punc(Punctuator::BitXorAssign)
             | Value::Punc(Punctuator::SlashAssign) => true,
-            Value::Punc(Punctuator::Equal) => true,
             _ => false,
         }
     }
-- 
2.43.0


From 09d42c47cf1dfd7ef872d361e003ff7c85a13c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 061/115] fix: % has the precedence of the other multiplicative
 operators

---
 giron/src/parser/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index a9cbc08..b091909 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -161,7 +161,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
-- 
2.43.0


From 16361c629c3b81e3a671dfec38c5ae741884bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 062/115] fix: && and || produce LogicalExpression nodes

---
 giron/src/parser/parser.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index ca3d9fa..96bc90b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2206,12 +2206,27 @@ where
                 rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
             }
             self.end_span(); // not needed
-            lhs = Node::BinaryExpression {
-                operator: op.to_string(),
-                left: Box::from(lhs),
-                right: Box::from(rhs),
-                assign_target_type: "invalid",
-                span: self.peek_span(),
+            let (left, right) = (Box::from(lhs), Box::from(rhs));
+            lhs = match &op.to_string()[..] {
+                "||" => Node::LogicalExpression {
+                    operator: "||",
+                    left,
+                    right,
+                    span: self.peek_span(),
+                },
+                "&&" => Node::LogicalExpression {
+                    operator: "&&",
+                    left,
+                    right,
+                    span: self.peek_span(),
+                },
+                operator => Node::BinaryExpression {
+                    operator: String::from(operator),
+                    left,
+                    right,
+                    assign_target_type: "invalid",
+                    span: self.peek_span(),
+                },
             };
         }
         Ok(lhs)
-- 
2.43.0


From 98bb8e590c1b65d3de05707ebf8f53ecd4a3281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 063/115] fix: await produces AwaitExpression nodes

---
 giron/src/parser/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 96bc90b..dcdb501 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2275,6 +2275,14 @@ where
         //     ! UnaryExpression[?Yield, ?Await]
         //     [+Await] AwaitExpression[?Yield]
         match self.current.tokentype {
+            TokenType::Keyword if self.params.has_await && self.current.matches_str("await") => {
+                self.start_span();
+                self.advance(LexGoal::RegExp)?;
+                Ok(Node::AwaitExpression {
+                    argument: Box::new(self.parse_unary_expr()?),
+                    span: self.end_span(),
+                })
+            }
             TokenType::Punctuator | TokenType::Keyword
                 if self.current.is_unary_op(self.params.has_await) =>
             {
-- 
2.43.0


From 129d90a9e186f1ae212b5b235e848517cd2f29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 064/115] fix: a slash after a postfix operator is a division

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index dcdb501..16d3c56 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2333,7 +2333,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
-- 
2.43.0


From cee0a034aff988a00a17fbefa02061b4b8e7b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 065/115] fix: yield without an argument

---
 giron/src/parser/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 16d3c56..95ba835 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2110,7 +2110,7 @@ where
         log!("parse_yield_expr");
         self.start_span();
         self.consume_kw("yield", LexGoal::RegExp)?;
-        if !self.has_line_terminator {
+        if !self.has_line_terminator && !self.at_end_of_yield() {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("*") => {
                     self.advance(LexGoal::RegExp)?;
@@ -2142,6 +2142,19 @@ where
         }
     }
 
+    /// True if no argument of a yield expression can start at the current token.
+    fn at_end_of_yield(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Punctuator => [")", "]", "}", ",", ";", ":"]
+                .iter()
+                .any(|punc| self.current.matches_punc(punc)),
+            TokenType::Keyword => self.current.matches_str("in"),
+            TokenType::Template => self.current.head == Some(false),
+            TokenType::Eof => true,
+            _ => false,
+        }
+    }
+
     fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
         self.consume("=>", LexGoal::RegExp)?;
-- 
2.43.0


From 74821d1c54eb3e8e9b189d40eeaa50f26f4e0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 066/115] fix: await is an identifier in the body of a
 non-async arrow function

---
 giron/src/parser/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 95ba835..35ece69 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2158,7 +2158,7 @@ where
     fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
+        let (body, expression) = self.parse_arrow_body(false)?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
             params: vec![FunctionParameter::BindingIdentifier { name }],
@@ -2691,7 +2691,7 @@ where
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=>") => {
                 self.advance(LexGoal::RegExp)?;
-                let (body, expression) = self.parse_arrow_body()?;
+                let (body, expression) = self.parse_arrow_body(true)?;
                 let params = self.arguments_to_params(arguments)?;
                 Ok(Node::AsyncArrowFunctionExpression {
                     id: None,
@@ -2848,7 +2848,7 @@ where
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
+        let (body, expression) = self.parse_arrow_body(false)?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
             params,
@@ -3777,7 +3777,7 @@ where
                     }?;
                     if !self.has_line_terminator && self.current.matches_punc("=>") {
                         self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body()?;
+                        let (body, expression) = self.parse_arrow_body(true)?;
                         Ok(Node::AsyncArrowFunctionExpression {
                             id: None,
                             params: vec![param],
@@ -3803,7 +3803,7 @@ where
         }
     }
 
-    fn parse_arrow_body(&mut self) -> Result<(Box<Node>, bool)> {
+    fn parse_arrow_body(&mut self, r#async: bool) -> Result<(Box<Node>, bool)> {
         log!("parse_arrow_body");
         let body;
         let mut expression = false;
@@ -3811,7 +3811,7 @@ where
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
@@ -3821,7 +3821,7 @@ where
             _ => {
                 body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
-- 
2.43.0


From 824be8d544c337f412c6d023104f700e95c5a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 067/115] fix: () needs an arrow, and no newline may precede it

---
 giron/src/parser/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 35ece69..b304fcb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2054,6 +2054,9 @@ where
         if let Node::Identifier { name, .. } = &lhs {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("=>") => {
+                    if self.has_line_terminator {
+                        return self.unexpected_current();
+                    }
                     lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
                 }
                 _ => (),
@@ -2689,7 +2692,9 @@ where
         log!("parse_async_call_or_arrow");
         let arguments = self.parse_arguments()?;
         match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("=>") => {
+            TokenType::Punctuator
+                if self.current.matches_punc("=>") && !self.has_line_terminator =>
+            {
                 self.advance(LexGoal::RegExp)?;
                 let (body, expression) = self.parse_arrow_body(true)?;
                 let params = self.arguments_to_params(arguments)?;
@@ -2804,7 +2809,7 @@ where
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
         self.start_span();
         self.consume("(", LexGoal::RegExp)?;
-        let mut definitely_arrow = false;
+        let mut definitely_arrow = self.current.matches_punc(")");
         let expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
@@ -2847,6 +2852,9 @@ where
     fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
+        if self.has_line_terminator {
+            return self.unexpected_current();
+        }
         self.consume("=>", LexGoal::RegExp)?;
         let (body, expression) = self.parse_arrow_body(false)?;
         Ok(Node::ArrowFunctionExpression {
-- 
2.43.0


From 25226d55878a16c7b0cf9493a88cc82ac6e99504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 068/115] fix: an arrow function is not an operand or a callee

---
 giron/src/estree/estree.rs | 10 ++++++++++
 giron/src/parser/parser.rs | 32 +++++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 933549f..eae7abf 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -921,6 +921,16 @@ pub enum Node {
 }
 
 impl Node {
+    /// Arrow functions are AssignmentExpressions: they can't be operands or callees.
+    pub fn is_arrow_function(&self) -> bool {
+        match self {
+            Node::ArrowFunctionExpression { .. } | Node::AsyncArrowFunctionExpression { .. } => {
+                true
+            }
+            _ => false,
+        }
+    }
+
     pub fn expr_span(self) -> Span {
         match self {
             Node::ArrayExpression { span, .. } => span,
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index b304fcb..6f31797 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2063,6 +2063,12 @@ where
             }
         }
 
+        if lhs.is_arrow_function()
+            && (self.current.matches_punc("=") || self.current.is_assign_op())
+        {
+            return self.error_current(ErrorType::InvalidLhsInAssignment);
+        }
+
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 let token = self.advance(LexGoal::RegExp)?;
@@ -2183,7 +2189,7 @@ where
         //      AssignmentExpression[?In, ?Yield, ?Await]
         self.start_span();
         let expr = self.parse_binary_expr()?;
-        if self.current.matches_punc("?") {
+        if self.current.matches_punc("?") && !expr.is_arrow_function() {
             self.consume("?", LexGoal::RegExp)?;
             let consequent = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
             self.consume(":", LexGoal::RegExp)?;
@@ -2205,6 +2211,10 @@ where
         // ExponentiationExpression binop ExponentiationExpression
         self.start_span();
         let lhs = self.parse_exponentiation_expr()?;
+        if lhs.is_arrow_function() {
+            self.end_span();
+            return Ok(lhs);
+        }
         let res = self.precedence_climbing(lhs, 1);
         self.end_span();
         res
@@ -2259,7 +2269,9 @@ where
             self.start_span();
             let lhs = self.parse_update_expr()?;
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("**") => {
+                TokenType::Punctuator
+                    if self.current.matches_punc("**") && !lhs.is_arrow_function() =>
+                {
                     let operator = self.consume("**", LexGoal::RegExp)?.to_string();
                     let rhs = self.parse_exponentiation_expr()?;
                     Ok(Node::BinaryExpression {
@@ -2340,7 +2352,10 @@ where
             self.start_span();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
-            if !self.has_line_terminator && self.current.is_update_op() {
+            if !self.has_line_terminator
+                && self.current.is_update_op()
+                && !expr.is_arrow_function()
+            {
                 if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
                     return Err(Error {
                         line,
@@ -2396,6 +2411,10 @@ where
             }
             _ => self.parse_member_expr(),
         }?;
+        if callee.is_arrow_function() {
+            self.end_span();
+            return Ok(callee);
+        }
         self.parse_call_expr_tail(callee)
     }
 
@@ -2468,6 +2487,10 @@ where
             TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
             _ => self.parse_primary_expr(),
         }?;
+        if expr.is_arrow_function() {
+            self.end_span();
+            return Ok(expr);
+        }
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
@@ -2582,6 +2605,9 @@ where
             }
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
+                if callee.is_arrow_function() {
+                    return self.unexpected_current();
+                }
                 let arguments = match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("(") => {
                         self.parse_arguments()?
-- 
2.43.0


From 0e1ed1875b1ced7b827d5622bac6068ddfabc4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 069/115] fix: a slash at the start of a template substitution
 is a regular expression

---
 giron/src/parser/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6f31797..85b75fd 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3193,7 +3193,8 @@ where
         match self.current.tokentype {
             TokenType::Template => match &self.current.head {
                 Some(true) => {
-                    let token = self.advance(LexGoal::Div)?;
+                    let goal = self.template_goal();
+                    let token = self.advance(goal)?;
                     Ok(TemplateElement {
                         value: TemplateElementValue {
                             cooked: token.cooked.unwrap(),
@@ -3208,11 +3209,20 @@ where
         }
     }
 
+    /// An expression follows a template chunk unless it's the last one.
+    fn template_goal(&self) -> LexGoal {
+        match self.current.tail {
+            Some(false) => LexGoal::RegExp,
+            _ => LexGoal::Div,
+        }
+    }
+
     fn parse_template_element(&mut self) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
             TokenType::Template => {
-                let token = self.advance(LexGoal::Div)?;
+                let goal = self.template_goal();
+                let token = self.advance(goal)?;
                 Ok(TemplateElement {
                     value: TemplateElementValue {
                         cooked: token.cooked.unwrap(),
-- 
2.43.0


From 685a0a7781682bd1e51a6285b093a1ec91afb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 070/115] fix: a template substitution can't be closed by
 another template

---
 giron/src/parser/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 85b75fd..d322ad5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3220,7 +3220,7 @@ where
     fn parse_template_element(&mut self) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
-            TokenType::Template => {
+            TokenType::Template if self.current.head == Some(false) => {
                 let goal = self.template_goal();
                 let token = self.advance(goal)?;
                 Ok(TemplateElement {
-- 
2.43.0


From 744ac1f3a268a431796e98dc3119a76a891bebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 071/115] fix: the value of a regular expression is its own
 text, not the next token's

---
 giron/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d322ad5..bf87f63 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2698,8 +2698,8 @@ where
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
+                    value: String::from(&token.value),
+                    raw: String::from(&token.value),
                     regex: Regex {
                         pattern: token.pattern.unwrap(),
                         flags: token.flags.unwrap(),
-- 
2.43.0


From 72e0638a91f43d4ca602d9305635bdc1a4d30474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 072/115] fix: the strict mode reserved words include let,
 static and yield, other tokens aren't words

---
 giron/src/parser/syntax.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index b091909..7afce53 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -216,8 +216,12 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+        match self.tokentype {
+            TokenType::Identifier | TokenType::Keyword => match self.to_str() {
+                "implements" | "interface" | "package" | "private" | "protected" | "public"
+                | "let" | "static" | "yield" => true,
+                _ => false,
+            },
             _ => false,
         }
     }
-- 
2.43.0


From 5209966c94cb19d38aa1066c69306e0e26d0da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 073/115] fix: eval and arguments can't be bound in strict
 mode, nor yield in generators and await in async functions

---
 giron/src/parser/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index bf87f63..3e46140 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3937,17 +3937,28 @@ where
         }
 
         match self.current.tokentype {
+            TokenType::Identifier
+                if self.ctx.strict
+                    && (self.current.matches_str("eval")
+                        || self.current.matches_str("arguments")) =>
+            {
+                self.error_current(ErrorType::UnexpectedStrictReserved)
+            }
             TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
                 name: self.advance(LexGoal::Div)?.to_string(),
                 span: self.end_span(),
             })),
-            TokenType::Keyword if self.current.matches_str("yield") => {
+            TokenType::Keyword
+                if self.current.matches_str("yield") && !self.params.has_yield =>
+            {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
                 }))
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
+            TokenType::Keyword
+                if self.current.matches_str("await") && !self.params.has_await =>
+            {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
-- 
2.43.0


From f475d8644ad068097d3248154808d10debff72a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 074/115] fix: a "yield" string in a generator is not a yield
 expression

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3e46140..1e5254f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2045,7 +2045,10 @@ where
         //     AsyncArrowFunction[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] "=" AssignmentExpression[?In, ?Yield, ?Await]
         //     LeftHandSideExpression[?Yield, ?Await] AssignmentOperator AssignmentExpression[?In, ?Yield, ?Await]
-        if self.params.has_yield && self.current.matches_str("yield") {
+        if self.params.has_yield
+            && self.current.tokentype == TokenType::Keyword
+            && self.current.matches_str("yield")
+        {
             return self.parse_yield_expr();
         }
         self.start_span();
-- 
2.43.0


From 877c6d8c21c540f3cb2711284d1eaddc47ea5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 075/115] fix: string and template tokens reading yield/await
 are not identifiers

---
 giron/src/parser/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1e5254f..01aa3a0 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1270,7 +1270,10 @@ where
     fn at_identifier(&self) -> bool {
         match self.current.tokentype {
             TokenType::Identifier => true,
-            _ => self.current.matches_str("yield") || self.current.matches_str("await"),
+            TokenType::Keyword => {
+                self.current.matches_str("yield") || self.current.matches_str("await")
+            }
+            _ => false,
         }
     }
 
-- 
2.43.0


From 0bf1fd01e1e537248e7ff9cc5656dd0005f498b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:21 +0000
Subject: [PATCH 076/115] fix: report the offending token even when the text
 after it does not scan

---
 giron/src/parser/parser.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 01aa3a0..e577815 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -586,8 +586,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    self.error(token, ErrorType::IllegalReturn)
+                    self.error_current(ErrorType::IllegalReturn)
                 }
             }
             TokenType::Keyword if self.current.matches_str("with") => self.parse_with_stmt(),
@@ -651,8 +650,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    self.error(token, ErrorType::IllegalReturn)
+                    self.error_current(ErrorType::IllegalReturn)
                 }
             }
             TokenType::Keyword if self.current.matches_str("with") => self.parse_with_stmt(),
@@ -741,8 +739,7 @@ where
             _ => match &id {
                 Binding::BindingIdentifier { .. } if kind != "const" => None,
                 _ => {
-                    let token = self.advance(LexGoal::RegExp)?;
-                    return self.error(token, ErrorType::MissingInitializer);
+                    return self.error_current(ErrorType::MissingInitializer);
                 }
             },
         };
@@ -4249,7 +4246,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.error(token, errortype)
     }
 
@@ -4264,7 +4261,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.unexpected(token)
     }
 }
-- 
2.43.0


From e59e7f8be4f55c7af8fdbdb25311d0d30d7f5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 077/115] fix: a multi-line token does not put a line
 terminator before itself

---
 giron/src/parser/parser.rs   | 6 +++---
 giron/src/scanner/scanner.rs | 4 ++++
 giron/src/token/token.rs     | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e577815..9070103 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -92,6 +92,7 @@ where
                     cooked: None,
                     head: None,
                     tail: None,
+                    newline: false,
                     line_num: 1,
                     col: 1,
                     start: 0,
@@ -4140,13 +4141,12 @@ where
         let next_token = self.lookahead()?;
         Ok(next_token.tokentype == TokenType::Keyword
             && next_token.matches_str("function")
-            && next_token.line_num == self.current.line_num)
+            && !next_token.newline)
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-        self.has_line_terminator = self.current.line_num > prev_line_num;
+        self.has_line_terminator = self.current.newline;
         Ok(token)
     }
 
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2fb9fad..b43993e 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -36,6 +36,7 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    start_newline: bool,
     reader: Reader<I>,
     record_raw: bool,
     raw_string: String,
@@ -55,6 +56,7 @@ where
             line: 1,
             col: 1,
             newline: false,
+            start_newline: false,
             reader: Reader::new(source),
             record_raw: false,
             raw_string: String::with_capacity(8),
@@ -970,6 +972,7 @@ where
     fn start_new_token(&mut self) {
         self.col = 1;
         self.start = self.current;
+        self.start_newline = self.newline;
     }
 
     fn start_recording(&mut self) {
@@ -1001,6 +1004,7 @@ where
             cooked,
             head,
             tail,
+            newline: self.start_newline,
             line_num: self.line,
             col: self.col,
             start: self.start,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fea3a0b..372b1f2 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -25,6 +25,8 @@ pub struct Token {
     pub cooked: Option<String>,
     pub head: Option<bool>,
     pub tail: Option<bool>,
+    /// Whether a line terminator precedes the token.
+    pub newline: bool,
     pub line_num: usize,
     pub col: usize,
     pub start: usize,
-- 
2.43.0


From 0ff98629734e7e71d167eeed757f61a03ad59d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 078/115] fix: tokens carry the line and column they start at

---
 giron/src/scanner/scanner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index b43993e..5d34cf0 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -36,6 +36,8 @@ pub struct Scanner<I> {
     pub line: usize,
     pub col: usize,
     pub newline: bool,
+    start_line: usize,
+    start_col: usize,
     start_newline: bool,
     reader: Reader<I>,
     record_raw: bool,
@@ -56,6 +58,8 @@ where
             line: 1,
             col: 1,
             newline: false,
+            start_line: 1,
+            start_col: 1,
             start_newline: false,
             reader: Reader::new(source),
             record_raw: false,
@@ -970,8 +974,9 @@ where
     }
 
     fn start_new_token(&mut self) {
-        self.col = 1;
         self.start = self.current;
+        self.start_line = self.line;
+        self.start_col = self.col;
         self.start_newline = self.newline;
     }
 
@@ -1005,8 +1010,8 @@ where
             head,
             tail,
             newline: self.start_newline,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.start_line,
+            col: self.start_col,
             start: self.start,
             end: self.current - 1,
         })
-- 
2.43.0


From 6dfa0268f3a032d710f6a6beb82d33cb899a1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 079/115] fix: no underflow of the end position for an empty
 source

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 5d34cf0..7b09dae 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -1013,7 +1013,7 @@ where
             line_num: self.start_line,
             col: self.start_col,
             start: self.start,
-            end: self.current - 1,
+            end: self.current.saturating_sub(1),
         })
     }
 
-- 
2.43.0


From a46d4675fdf01f3153dc3f97e4be369ebb07fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 080/115] fix: the end of input does not advance the position

---
 giron/src/scanner/scanner.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 7b09dae..6fa3edf 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -953,24 +953,22 @@ where
     }
 
     fn consume(&mut self) -> Option<char> {
-        let cp = self.reader.next();
+        let cp = self.reader.next()?;
         if self.record_raw {
-            if let Some(cp) = cp {
-                self.raw_string.push(cp);
-            }
+            self.raw_string.push(cp);
         }
         self.current += 1;
         self.col += 1;
         match (cp, self.peek()) {
-            (Some('\r'), Some('\n')) => (),
-            (Some(cp), _) if cp.is_line_terminator() => {
+            ('\r', Some('\n')) => (),
+            (cp, _) if cp.is_line_terminator() => {
                 self.line += 1;
                 self.col = 1;
                 self.newline = true;
             }
             (_, _) => (),
         }
-        cp
+        Some(cp)
     }
 
     fn start_new_token(&mut self) {
-- 
2.43.0


From 59da8cbb083db963baf11280e67850d305eca8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 081/115] fix: unterminated template is an error, not a panic

---
 giron/src/scanner/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 6fa3edf..44f5c89 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -660,7 +660,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
@@ -695,7 +695,7 @@ where
                 self.consume();
                 tail = true;
             }
-            (_, _) => unreachable!(),
+            (_, _) => return self.error(ErrorType::UnexpectedEOS),
         }
         self.token(
             TokenType::Template,
-- 
2.43.0


From 2daa8ff3963681e02b73523d67e13249bd4cf390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:00 +0000
Subject: [PATCH 082/115] fix: normalise line terminators in raw template
 strings

---
 giron/src/scanner/scanner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 44f5c89..164b9cc 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -955,7 +955,12 @@ where
     fn consume(&mut self) -> Option<char> {
         let cp = self.reader.next()?;
         if self.record_raw {
-            self.raw_string.push(cp);
+            // the raw value of <CR> and <CR><LF> is <LF>
+            match (cp, self.peek()) {
+                ('\r', Some('\n')) => (),
+                ('\r', _) => self.raw_string.push('\n'),
+                (cp, _) => self.raw_string.push(cp),
+            }
         }
         self.current += 1;
         self.col += 1;
-- 
2.43.0


From d9bc877a76efaf69fb86b00f07b0a55e8d8038c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 083/115] fix: reject empty and overflowing \u{} escapes

---
 giron/src/scanner/scanner.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 164b9cc..79a09fa 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -205,19 +205,19 @@ where
 
         if self.matches('{') {
             self.consume();
-            // reduce scanned chars to u32
-            let value = self
-                .scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?
-                .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
+            let digits = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+                this.consume().ok_or(Error {
+                    line: this.line,
+                    col: this.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                })
+            })?;
             // consume "}"
             self.expect('}')?;
+            // no digits and values that don't fit are no code points
+            let value = u32::from_str_radix(&digits, 16).or_else(|_| {
+                self.error(ErrorType::InvalidUnicodeEscapeSequence)
+            })?;
             char::from_u32(value).ok_or(Error {
                 line: self.line,
                 col: self.col,
-- 
2.43.0


From 257940f204ed0c723c8732b6ef9647f59f5556d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 084/115] fix: unicode escapes in identifiers

---
 giron/src/codepoint/codepoint.rs |  2 +-
 giron/src/scanner/scanner.rs     | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..b14c613 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -42,7 +42,7 @@ impl CodePoint for char {
 
     fn is_identifier_continue(self) -> bool {
         match self {
-            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' => true,
             _ => self.is_id_continue(),
         }
     }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 79a09fa..1155dfb 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -81,7 +81,7 @@ where
         self.start_new_token();
 
         match self.peek2() {
-            (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
+            (Some(cp), _) if cp.is_identifier_start() || cp == '\\' => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
             (Some('.'), Some(cp)) if cp.is_decimal_digit() => self.scan_numeric_literal(),
             (Some(cp), _) if cp.is_decimal_digit() => self.scan_numeric_literal(),
@@ -159,11 +159,15 @@ where
         let part = self.scan_until_with(
             |cp| cp != '\\' && !cp.is_identifier_continue(),
             &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
+                let cp = if this.matches('\\') {
+                    this.scan_unicode_esc_seq()?
                 } else {
+                    this.consume().unwrap()
+                };
+                if cp.is_identifier_continue() {
                     Ok(cp)
+                } else {
+                    this.error(ErrorType::InvalidUnicodeEscapeSequence)
                 }
             },
         )?;
-- 
2.43.0


From 13d122093431c367cf542e1b4baf9847007cd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 085/115] fix: ZWNJ and ZWJ continue identifiers

---
 giron/src/codepoint/codepoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b14c613..df08f6e 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -42,7 +42,7 @@ impl CodePoint for char {
 
     fn is_identifier_continue(self) -> bool {
         match self {
-            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' => true,
+            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
-- 
2.43.0


From 7d173d9c32bf2b5528e4386254e3078066aaf479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 086/115] fix: regular expressions end at the first / outside a
 class and before any line terminator

---
 giron/src/scanner/scanner.rs | 74 ++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 41 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 1155dfb..6abfba7 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -584,40 +584,31 @@ where
             return self.error(ErrorType::InvalidOrUnexpectedToken);
         }
         let mut value = String::from("");
+        let mut in_class = false;
         loop {
             match self.peek() {
-                Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
-                    value.push_str(&group);
-                }
                 Some('\\') => {
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
+                    value.push('\\');
+                    self.consume();
+                    match self.peek() {
+                        Some(cp) if !cp.is_line_terminator() => {
+                            value.push(cp);
+                            self.consume();
+                        }
+                        _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
+                    }
                 }
-                Some(cp) if cp == '/' => break,
-                Some(_) => {
-                    let res = self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?;
-                    value.push(res);
+                Some('/') if !in_class => break,
+                Some(cp) if !cp.is_line_terminator() => {
+                    match cp {
+                        '[' => in_class = true,
+                        ']' => in_class = false,
+                        _ => (),
+                    }
+                    value.push(cp);
+                    self.consume();
                 }
-                None => break,
+                _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
             }
         }
         self.expect('/')?;
@@ -625,18 +616,19 @@ where
     }
 
     fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
-        self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
-                }
-            },
-        )
-        .map(|value| value.chars().collect())
+        let mut flags = vec![];
+        while let Some(cp) = self.peek() {
+            if cp == '\\' {
+                // escapes are not allowed in flags
+                return self.error(ErrorType::InvalidOrUnexpectedToken);
+            }
+            if !cp.is_identifier_continue() {
+                break;
+            }
+            flags.push(cp);
+            self.consume();
+        }
+        Ok(flags)
     }
 
     // *******************************************************************
-- 
2.43.0


From e29ed0cea8c9d092246959975e995a2efa540beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 087/115] fix: unterminated block comment is an error

---
 giron/src/scanner/scanner.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 6abfba7..8dd54a2 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -77,7 +77,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.start_new_token();
 
         match self.peek2() {
@@ -97,7 +97,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if cp.is_whitespace() => {
@@ -111,8 +111,8 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
-                (_, _) => break,
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
+                (_, _) => return Ok(()),
             }
         }
     }
@@ -131,7 +131,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -139,12 +139,12 @@ where
                 (Some('*'), Some('/')) => {
                     self.consume();
                     self.consume();
-                    break;
+                    return Ok(());
                 }
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::UnexpectedEOS),
             }
         }
     }
-- 
2.43.0


From 3506e4e035a1057c732fb12db371cc9f951dd88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 088/115] fix: an operator may end the source

---
 giron/src/scanner/scanner.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 8dd54a2..a17ef3b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -793,32 +793,32 @@ where
                     (_, _) => self.punc0("?"),
                 }
             }
-            (Some('+'), Some(cp)) => match cp {
-                '=' => self.punc2("+="),
-                '+' => self.punc2("++"),
+            (Some('+'), cp) => match cp {
+                Some('=') => self.punc2("+="),
+                Some('+') => self.punc2("++"),
                 _ => self.punc1("+"),
             },
-            (Some('-'), Some(cp)) => match cp {
-                '=' => self.punc2("-="),
-                '-' => self.punc2("--"),
+            (Some('-'), cp) => match cp {
+                Some('=') => self.punc2("-="),
+                Some('-') => self.punc2("--"),
                 _ => self.punc1("-"),
             },
-            (Some('&'), Some(cp)) => match cp {
-                '=' => self.punc2("&="),
-                '&' => self.punc2("&&"),
+            (Some('&'), cp) => match cp {
+                Some('=') => self.punc2("&="),
+                Some('&') => self.punc2("&&"),
                 _ => self.punc1("&"),
             },
-            (Some('|'), Some(cp)) => match cp {
-                '=' => self.punc2("|="),
-                '|' => self.punc2("||"),
+            (Some('|'), cp) => match cp {
+                Some('=') => self.punc2("|="),
+                Some('|') => self.punc2("||"),
                 _ => self.punc1("|"),
             },
-            (Some('%'), Some(cp)) => match cp {
-                '=' => self.punc2("%="),
+            (Some('%'), cp) => match cp {
+                Some('=') => self.punc2("%="),
                 _ => self.punc1("%"),
             },
-            (Some('^'), Some(cp)) => match cp {
-                '=' => self.punc2("^="),
+            (Some('^'), cp) => match cp {
+                Some('=') => self.punc2("^="),
                 _ => self.punc1("^"),
             },
             (Some('.'), _) => {
-- 
2.43.0


From 9dcb1a705a38f5402147d46936399d95bbebd876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 089/115] fix: a character that needs no escape may be escaped
 in strings

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index a17ef3b..0a1f6a2 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -470,6 +470,7 @@ where
                     return (self.scan_octal_esc_seq(), true)
                 }
                 (Some('\\'), Some(_)) => {
+                    self.consume();
                     return (
                         self.consume().ok_or(Error {
                             line: self.line,
-- 
2.43.0


From 48eedc5b04052f6c0fe2ff855f4becf17dfbcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 090/115] fix: the character after a line continuation is not
 part of it

---
 giron/src/scanner/scanner.rs | 121 +++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 56 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 0a1f6a2..8fa0d93 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -426,9 +426,11 @@ where
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
         }
 
+        self.scan_line_continuations();
         let value = self.scan_until_with(|cp| cp == quote, &mut |this| {
             let (res, is_octal) = this.scan_string_literal_cp();
             octal = octal || is_octal;
+            this.scan_line_continuations();
             res
         })?;
 
@@ -445,18 +447,10 @@ where
         )
     }
 
-    fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
+    /// Line continuations contribute no code points to a literal
+    fn scan_line_continuations(&mut self) {
         loop {
             match self.peek2() {
-                (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
-                    self.consume();
-                    let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    });
-                    return (val, false);
-                }
                 (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
                     self.consume(); // consume "\"
                     if let (Some('\r'), Some('\n')) = self.peek2() {
@@ -464,52 +458,67 @@ where
                     }
                     self.consume(); // consume line terminator
                 }
-                (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
-                (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-                    return (self.scan_octal_esc_seq(), true)
-                }
-                (Some('\\'), Some(_)) => {
-                    self.consume();
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (Some(cp), _) if cp.is_line_terminator() => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
-                (Some(_), _) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (_, _) => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
+                (_, _) => return,
+            }
+        }
+    }
+
+    fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
+        match self.peek2() {
+            (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
+                self.consume();
+                let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
+                    line: self.line,
+                    col: self.col,
+                    errortype: ErrorType::UnexpectedEOS,
+                });
+                return (val, false);
+            }
+            (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
+            (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
+            (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
+                return (self.scan_octal_esc_seq(), true)
+            }
+            (Some('\\'), Some(_)) => {
+                self.consume();
+                return (
+                    self.consume().ok_or(Error {
+                        line: self.line,
+                        col: self.col,
+                        errortype: ErrorType::UnexpectedEOS,
+                    }),
+                    false,
+                )
+            }
+            (Some(cp), _) if cp.is_line_terminator() => {
+                return (
+                    Err(Error {
+                        line: self.line,
+                        col: self.col,
+                        errortype: ErrorType::InvalidOrUnexpectedToken,
+                    }),
+                    false,
+                )
+            }
+            (Some(_), _) => {
+                return (
+                    self.consume().ok_or(Error {
+                        line: self.line,
+                        col: self.col,
+                        errortype: ErrorType::UnexpectedEOS,
+                    }),
+                    false,
+                )
+            }
+            (_, _) => {
+                return (
+                    Err(Error {
+                        line: self.line,
+                        col: self.col,
+                        errortype: ErrorType::InvalidOrUnexpectedToken,
+                    }),
+                    false,
+                )
             }
         }
     }
-- 
2.43.0


From 2653702059be6cff23d44b67bbb8d797f6cd8d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 091/115] fix: an octal escape ends after three digits and \\0
 is the NUL character

---
 giron/src/scanner/scanner.rs | 39 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 8fa0d93..6f9e10d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -477,7 +477,7 @@ where
             (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
             (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
             (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-                return (self.scan_octal_esc_seq(), true)
+                return self.scan_octal_esc_seq()
             }
             (Some('\\'), Some(_)) => {
                 self.consume();
@@ -523,30 +523,31 @@ where
         }
     }
 
-    fn scan_octal_esc_seq(&mut self) -> Result<char> {
+    /// Scans a legacy octal escape, or \0 which isn't one unless a digit follows it
+    fn scan_octal_esc_seq(&mut self) -> (Result<char>, bool) {
         self.consume();
 
-        let value = self.scan_until_with(|cp| !cp.is_octal_digit(), &mut |this| {
-            this.consume().ok_or(Error {
-                line: this.line,
-                col: this.col,
-                errortype: ErrorType::UnexpectedEOS,
-            })
-        })?;
+        let mut value = 0;
+        let mut len = 0;
+        while let Some(cp) = self.peek() {
+            // the escape has at most three digits and is less than 256
+            if !cp.is_octal_digit() || len == 3 || value >= 32 {
+                break;
+            }
+            value = value * 8 + cp.to_digit(8).unwrap();
+            len += 1;
+            self.consume();
+        }
 
-        let mv = i64::from_str_radix(&value, 8)
-            .map(|i| i as u32)
-            .map_err(|_| Error {
+        let nul = value == 0 && len == 1 && !self.peek().map_or(false, |cp| cp.is_decimal_digit());
+        (
+            char::from_u32(value).ok_or(Error {
                 line: self.line,
                 col: self.col,
                 errortype: ErrorType::InvalidOrUnexpectedToken,
-            })?;
-
-        char::from_u32(mv).ok_or(Error {
-            line: self.line,
-            col: self.col,
-            errortype: ErrorType::InvalidOrUnexpectedToken,
-        })
+            }),
+            !nul,
+        )
     }
 
     fn scan_hex_esc_seq(&mut self) -> Result<char> {
-- 
2.43.0


From 62a470d687443f8325bf3656d2085371874554a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 092/115] fix: strings may contain U+2028 and U+2029

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 6f9e10d..dd36a65 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -490,7 +490,7 @@ where
                     false,
                 )
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\n'), _) | (Some('\r'), _) => {
                 return (
                     Err(Error {
                         line: self.line,
-- 
2.43.0


From 3037163ef03fd45b783b129104a2a59d505e2450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 093/115] fix: line continuations are not part of the value of
 a template

---
 giron/src/scanner/scanner.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index dd36a65..e6701a6 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -652,9 +652,14 @@ where
         let octal = false;
         self.expect('`')?;
         self.start_recording();
+        self.scan_line_continuations();
         let cooked = self.scan2_until_with(
             |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
-            &mut |this| this.scan_template_char(),
+            &mut |this| {
+                let res = this.scan_template_char();
+                this.scan_line_continuations();
+                res
+            },
         )?;
         value.push_str(&self.stop_recording());
         match self.peek2() {
@@ -687,9 +692,14 @@ where
         let octal = false;
         self.expect('}')?;
         self.start_recording();
+        self.scan_line_continuations();
         let cooked = self.scan2_until_with(
             |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
-            &mut |this| this.scan_template_char(),
+            &mut |this| {
+                let res = this.scan_template_char();
+                this.scan_line_continuations();
+                res
+            },
         )?;
         value.push_str(&self.stop_recording());
         match self.peek2() {
@@ -718,20 +728,6 @@ where
 
     fn scan_template_char(&mut self) -> Result<char> {
         match self.peek2() {
-            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                self.consume();
-                match self.peek2() {
-                    (Some('\r'), Some('\n')) => {
-                        self.consume();
-                        self.consume();
-                        Ok('\0')
-                    }
-                    (_, _) => {
-                        self.consume();
-                        Ok('\0')
-                    }
-                }
-            }
             (Some('\\'), Some('b'))
             | (Some('\\'), Some('f'))
             | (Some('\\'), Some('v'))
-- 
2.43.0


From dfb293663bae783ab4a2d3384b07d2dac5c1d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 094/115] fix: only <CR> and <CR><LF> become <LF> in templates,
 and a single one

---
 giron/src/scanner/scanner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index e6701a6..9d5b283 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -752,8 +752,11 @@ where
                     errortype: ErrorType::UnexpectedEOS,
                 })
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\r'), next) => {
                 self.consume();
+                if next == Some('\n') {
+                    self.consume();
+                }
                 Ok('\n')
             }
             (Some(_), _) => self.consume().ok_or(Error {
-- 
2.43.0


From 24fa91cf53b123f22be5693c1e0975c94a70019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 095/115] fix: \\0 is the only decimal escape in templates

---
 giron/src/scanner/scanner.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9d5b283..832bcad 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -743,7 +743,16 @@ where
             }
             (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
             (Some('\\'), Some('u')) => self.scan_unicode_esc_seq(),
-            // TODO: handle octal escape
+            (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
+                self.consume();
+                match (self.consume(), self.peek()) {
+                    (_, Some(cp)) if cp.is_decimal_digit() => {
+                        self.error(ErrorType::InvalidOrUnexpectedToken)
+                    }
+                    (Some('0'), _) => Ok('\0'),
+                    (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
+                }
+            }
             (Some('\\'), Some(_)) => {
                 self.consume();
                 self.consume().ok_or(Error {
-- 
2.43.0


From e3b620254281804c888fb30f06b42218ada36678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 096/115] fix: a number starting with 0 may be decimal, with a
 fraction or an exponent

---
 giron/src/scanner/scanner.rs | 58 +++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 832bcad..4e97ad6 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -293,7 +293,7 @@ where
             (Some('0'), Some('b')) | (Some('0'), Some('B')) => self.scan_radix_literal(2),
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
             (Some('0'), Some('x')) | (Some('0'), Some('X')) => self.scan_radix_literal(16),
-            (Some('0'), Some(cp)) if cp != '.' => {
+            (Some('0'), Some(cp)) if cp.is_decimal_digit() => {
                 let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
@@ -302,38 +302,22 @@ where
                     })
                 })?;
                 // A number starting with 0 can either be octal or decimal.
-                i64::from_str_radix(&val, 8)
-                    .or_else(|_| {
-                        i64::from_str_radix(&val, 10)
-                        // TODO: Scan dot and exponent
-                    })
-                    .map(|i| i as f64)
-                    .map_err(|_| Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
+                if val.chars().all(|cp| cp.is_octal_digit()) {
+                    Ok(Self::radix_value(&val, 8))
+                } else {
+                    self.scan_decimal_rest(val)
+                }
             }
             (Some(cp), _) if cp.is_decimal_digit() => {
                 // scan decimal digit
-                let mut val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
+                let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
                         col: this.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })
                 })?;
-                // scan potential dot
-                if self.matches('.') {
-                    self.scan_fractional_part(val)
-                } else {
-                    val.push_str(&self.scan_exponent()?);
-                    val.parse().map_err(|_| Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
-                }
+                self.scan_decimal_rest(val)
             }
             (Some('.'), _) => {
                 let val = String::new();
@@ -345,6 +329,32 @@ where
         self.token_simple(TokenType::NumericLiteral, Value::Num(value))
     }
 
+    /// Scans what follows the integer part of a decimal literal
+    fn scan_decimal_rest(&mut self, mut val: String) -> Result<f64> {
+        // scan potential dot
+        if self.matches('.') {
+            self.scan_fractional_part(val)
+        } else {
+            val.push_str(&self.scan_exponent()?);
+            val.parse().map_err(|_| Error {
+                line: self.line,
+                col: self.col,
+                errortype: ErrorType::InvalidOrUnexpectedToken,
+            })
+        }
+    }
+
+    /// The value of digits of the given radix, which may not fit an integer
+    fn radix_value(digits: &str, radix: u32) -> f64 {
+        i64::from_str_radix(digits, radix)
+            .map(|i| i as f64)
+            .unwrap_or_else(|_| {
+                digits.chars().fold(0.0, |value, cp| {
+                    value * f64::from(radix) + f64::from(cp.to_digit(radix).unwrap_or(0))
+                })
+            })
+    }
+
     fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
         self.expect('.')?;
         value.push('.');
-- 
2.43.0


From 2a2f0cd80652bfa754b152a12c56155705650a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 097/115] fix: literals with a radix may be greater than 2**63

---
 giron/src/scanner/scanner.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 4e97ad6..bd35556 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -403,11 +403,9 @@ where
     }
 
     fn scan_radix_literal(&mut self, radix: u32) -> Result<f64> {
-        // NOTE: This function consumes as many hex digits as possible.
-        // Can this lead to Err for valid ECMAScript?
         self.expect('0')?;
         self.consume(); // b | B | o | O | x | X
-        let value = self.scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
+        let value = self.scan_until_with(|cp| !cp.is_digit(radix), &mut |this| {
             this.consume().ok_or(Error {
                 line: this.line,
                 col: this.col,
@@ -415,13 +413,10 @@ where
             })
         })?;
 
-        i64::from_str_radix(&value, radix)
-            .map(|i| i as f64)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+        if value.is_empty() {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(Self::radix_value(&value, radix))
     }
 
     // *******************************************************************
-- 
2.43.0


From 9742160a860815bdafc006bfddb210a35e664049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 098/115] fix: no identifier or digit follows a number

---
 giron/src/scanner/scanner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index bd35556..24c5a44 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -326,6 +326,13 @@ where
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }?;
 
+        match self.peek() {
+            Some(cp) if cp == '\\' || cp.is_decimal_digit() || cp.is_identifier_start() => {
+                return self.error(ErrorType::InvalidOrUnexpectedToken);
+            }
+            _ => (),
+        }
+
         self.token_simple(TokenType::NumericLiteral, Value::Num(value))
     }
 
-- 
2.43.0


From ed875a892b3e12fd84be2f6bf3414911db9460c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 099/115] fix: member expressions have the ESTree type
 MemberExpression

---
 giron/src/estree/estree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index eae7abf..4dbe53b 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -547,6 +547,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     ComputedMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -628,6 +629,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     StaticMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
-- 
2.43.0


From ee4e8844a131981a09764f5b07d453ac804090ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 100/115] fix: async functions have the ESTree types of other
 functions

---
 giron/src/estree/estree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 4dbe53b..6ec4644 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -231,6 +231,7 @@ pub struct AssignmentPattern {
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
+#[serde(rename = "FunctionExpression")]
 pub struct AsyncFunctionExpression {
     pub id: Option<Box<Node>>, // Identifier | null
     pub params: Vec<FunctionParameter>,
@@ -479,6 +480,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ArrowFunctionExpression")]
     AsyncArrowFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -491,6 +493,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "FunctionExpression")]
     AsyncFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -718,6 +721,7 @@ pub enum Node {
     // ****************************************************
     // Statements & Declarations
     // ****************************************************
+    #[serde(rename = "FunctionDeclaration")]
     AsyncFunctionDeclaration {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
-- 
2.43.0


From 42c19e09c58c10e7cb17e3f828b0a010df2e6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 101/115] fix: bound names in patterns and parameters have the
 ESTree type Identifier

---
 giron/src/estree/estree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 6ec4644..6cd9211 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -150,6 +150,7 @@ pub enum ArrayPatternElement {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -310,6 +311,7 @@ pub enum FunctionParameter {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
-- 
2.43.0


From a06f403ff98826771efed02251d14e8afc68efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 102/115] fix: ESTree names of the rest element and the
 superclass of a class expression

---
 giron/src/estree/estree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 6cd9211..12e72b2 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -477,6 +477,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "RestElement")]
     AssignmentRestElement {
         argument: Box<Node>,
         #[serde(skip)]
@@ -545,6 +546,7 @@ pub enum Node {
     },
     ClassExpression {
         id: Option<Box<Node>>,          // Identifier | null
+        #[serde(rename = "superClass")]
         super_class: Option<Box<Node>>, // Identifier | null
         body: ClassBody,
         #[serde(skip)]
-- 
2.43.0


From 6b8ea79064a1cbe139147b01cb33f2a0dbd9be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 103/115] fix: directives have the ESTree type
 ExpressionStatement

---
 giron/src/estree/estree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 12e72b2..a9d40d5 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -765,6 +765,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ExpressionStatement")]
     Directive {
         expression: Box<Node>, // Expression
         directive: String,
-- 
2.43.0


From 6a2f868c7713f19f4894c151ebe2a601ab99429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 104/115] fix: properties of object expressions have no span in
 the ESTree output

---
 giron/src/estree/estree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index a9d40d5..3c72f81 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -359,10 +359,12 @@ pub enum ObjectExpressionProperty {
         kind: &'static str,
         method: bool,
         shorthand: bool,
+        #[serde(skip)]
         span: Span,
     },
     SpreadElement {
         argument: Node,
+        #[serde(skip)]
         span: Span,
     },
 }
-- 
2.43.0


From 8d7e566ae091e14560c0eb5a1a88f82a37432054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 105/115] fix: regular expressions are ESTree literals and
 their flags a string

---
 giron/src/estree/estree.rs   | 3 ++-
 giron/src/scanner/scanner.rs | 6 +++---
 giron/src/token/token.rs     | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 3c72f81..930a23d 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -61,7 +61,7 @@ pub struct ClassBody {
 #[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
-    pub flags: Vec<char>,
+    pub flags: String,
 }
 
 #[derive(Serialize, Debug)]
@@ -622,6 +622,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "Literal")]
     RegexLiteral {
         value: String,
         raw: String,
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 24c5a44..2db06a2 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -638,8 +638,8 @@ where
         Ok(value)
     }
 
-    fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
-        let mut flags = vec![];
+    fn scan_regexp_flags(&mut self) -> Result<String> {
+        let mut flags = String::new();
         while let Some(cp) = self.peek() {
             if cp == '\\' {
                 // escapes are not allowed in flags
@@ -1024,7 +1024,7 @@ where
         tokentype: TokenType,
         value: Value,
         pattern: Option<String>,
-        flags: Option<Vec<char>>,
+        flags: Option<String>,
         octal: Option<bool>,
         cooked: Option<String>,
         head: Option<bool>,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 372b1f2..52c6a5a 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -20,7 +20,7 @@ pub struct Token {
     pub tokentype: TokenType,
     pub value: Value,
     pub pattern: Option<String>,
-    pub flags: Option<Vec<char>>,
+    pub flags: Option<String>,
     pub octal: Option<bool>,
     pub cooked: Option<String>,
     pub head: Option<bool>,
-- 
2.43.0


From 5afee521b5086952d45ac64705adf7a89662a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 106/115] fix: the text of a regular expression is not empty

---
 giron/src/scanner/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2db06a2..43c7131 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -588,10 +588,14 @@ where
     pub fn scan_regexp_literal(&mut self) -> Result<Token> {
         let pattern = self.scan_regexp_body()?;
         let flags = self.scan_regexp_flags()?;
+        let mut value = String::from("/");
+        value.push_str(&pattern);
+        value.push('/');
+        value.push_str(&flags);
 
         self.token(
             TokenType::RegularExpression,
-            Value::Str(String::from("")),
+            Value::Str(value),
             Some(pattern),
             Some(flags),
             None,
-- 
2.43.0


From d64f5f21e72d302463afb6744d5c3cd2ff929950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 107/115] fix: boolean literals have boolean values

---
 giron/src/parser/parser.rs | 8 ++++++--
 giron/src/token/value.rs   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 9070103..8700623 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2687,8 +2687,12 @@ where
             | TokenType::BooleanLiteral
             | TokenType::NullLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::Div)?.value;
-                let raw = String::from(&value);
+                let token = self.advance(LexGoal::Div)?;
+                let raw = String::from(&token.value);
+                let value = match token.tokentype {
+                    TokenType::BooleanLiteral => Value::Bool(raw == "true"),
+                    _ => token.value,
+                };
                 Ok(Node::Literal {
                     value,
                     raw,
diff --git a/giron/src/token/value.rs b/giron/src/token/value.rs
index 2af7cca..4e9fbd2 100644
--- a/giron/src/token/value.rs
+++ b/giron/src/token/value.rs
@@ -6,6 +6,7 @@ use serde::Serialize;
 pub enum Value {
     Str(String),
     Num(f64),
+    Bool(bool),
     Punc(Punctuator),
     Null,
 }
@@ -15,6 +16,7 @@ impl From<&Value> for String {
         match value {
             Value::Str(s) => s.clone(),
             Value::Num(x) => x.to_string(),
+            Value::Bool(b) => b.to_string(),
             Value::Punc(p) => p.to_string(),
             Value::Null => String::from("null"),
         }
-- 
2.43.0


From 216984fbddc91aa07f3240c5245f40a1904ae3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 108/115] fix: white space is what the language says it is, not
 what Unicode says

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 43c7131..6cf1da4 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -100,7 +100,7 @@ where
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From 829593b8ab552ad53e687c83e00cac125cf818e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 109/115] fix: >>= is one punctuator

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 6cf1da4..75c4442 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -909,6 +909,7 @@ where
                             (_, _) => self.punc1(">>>"),
                         }
                     }
+                    (Some('>'), Some('=')) => self.punc2(">>="),
                     (Some('>'), _) => self.punc1(">>"),
                     (_, _) => self.punc0(">"),
                 }
-- 
2.43.0


From 54b99801d506cdf7ba648b3e083867fe6fbd1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 110/115] fix: fix: regex and template element values are plain
 objects in the ESTree output

---
 giron/src/estree/estree.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 930a23d..e633f48 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -58,7 +58,6 @@ pub struct ClassBody {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
     pub flags: String,
@@ -401,7 +400,6 @@ pub struct TemplateElement {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct TemplateElementValue {
     pub cooked: String,
     pub raw: String,
-- 
2.43.0


From 3223a2aa067ebeb6eae3b3139bcbcd7112363f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 111/115] fix: named imports are not bound to names reserved in
 strict code

---
 giron/src/parser/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8700623..be32c07 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -298,7 +298,7 @@ where
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
             let (line, col) = (this.current.line_num, this.current.col);
-            let is_reserved = this.current.tokentype != TokenType::Identifier;
+            let is_reserved = this.at_reserved_name();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
@@ -344,6 +344,19 @@ where
         Ok(specifiers)
     }
 
+    /// Whether the current name can't be bound.
+    fn at_reserved_name(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Identifier => {
+                self.ctx.strict
+                    && (self.current.is_strict_reserved_kw()
+                        || self.current.matches_str("eval")
+                        || self.current.matches_str("arguments"))
+            }
+            _ => true,
+        }
+    }
+
     fn parse_import_from_dclr(
         &mut self,
         specifiers: Vec<ImportDeclarationSpecifier>,
-- 
2.43.0


From 6157d1411c80638a79b7f02ee676588884eb8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:11 +0000
Subject: [PATCH 112/115] fix: local names in export lists are not reserved
 words

---
 giron/src/parser/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index be32c07..87738d0 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -479,7 +479,7 @@ where
                 })
             }
             TokenType::Punctuator if self.current.matches_punc("{") => {
-                let specifiers = self.parse_named_export_specifiers()?;
+                let (specifiers, needs_from) = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
                     TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
@@ -492,6 +492,8 @@ where
                             span: self.end_span(),
                         })
                     }
+                    // what is exported is a binding of this module
+                    _ if needs_from => self.unexpected_current(),
                     _ => {
                         self.consume_semicolon(LexGoal::RegExp)?;
                         Ok(Node::ExportNamedDeclaration {
@@ -517,10 +519,16 @@ where
         }
     }
 
-    fn parse_named_export_specifiers(&mut self) -> Result<Vec<ExportSpecifier>> {
+    /// The specifiers, and whether a reserved word is among the names they refer to.
+    fn parse_named_export_specifiers(&mut self) -> Result<(Vec<ExportSpecifier>, bool)> {
         self.consume("{", LexGoal::RegExp)?;
+        let mut has_reserved = false;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            has_reserved |= match this.current.tokentype {
+                TokenType::Identifier => this.ctx.strict && this.current.is_strict_reserved_kw(),
+                _ => true,
+            };
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
@@ -554,7 +562,7 @@ where
             }
         })?;
         self.consume("}", LexGoal::RegExp)?;
-        Ok(specifiers)
+        Ok((specifiers, has_reserved))
     }
 
     // *******************************************************************
-- 
2.43.0


From f9735b0ccd92819e43f4167c7c7a503b4a5a18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:44 +0000
Subject: [PATCH 113/115] fix: statement and spread spans end with their last
 token

---
 giron/src/parser/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 87738d0..569c5d8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -779,9 +779,11 @@ where
 
     fn parse_expression_stmt(&mut self, expression: Box<Node>) -> Result<Node> {
         log!("parse_expression_stmt");
-        let span = self.end_span();
         self.consume_semicolon(LexGoal::RegExp)?;
-        Ok(Node::ExpressionStatement { expression, span })
+        Ok(Node::ExpressionStatement {
+            expression,
+            span: self.end_span(),
+        })
     }
 
     fn parse_if_stmt(&mut self) -> Result<Node> {
@@ -3805,12 +3807,13 @@ where
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let span = this.end_span();
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
-                    span: this.end_span(),
+                    span,
                 })))
             }
             _ => {
-- 
2.43.0


From 6866ecc8ea690dfaaf3dea6b6de2ca640deb1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:47 +0000
Subject: [PATCH 114/115] fix: nodes end where their last consumed token ends

---
 giron/src/parser/parser.rs | 41 +++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 569c5d8..d357bae 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -69,6 +69,8 @@ pub struct Parser<I> {
     params: Params,
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
+    /// Where the last consumed token ends.
+    prev_end: Marker,
     goal: SyntaxGoal,
     init_error: Option<Error>,
 }
@@ -115,6 +117,11 @@ where
             current,
             params_stack: vec![],
             marker_stack: vec![],
+            prev_end: Marker {
+                line: 1,
+                col: 1,
+                idx: 0,
+            },
             goal: SyntaxGoal::Ambiguous,
             init_error,
         }
@@ -4173,7 +4180,13 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
+        let end = Marker {
+            line: self.scanner.line,
+            col: self.scanner.col,
+            idx: self.scanner.current,
+        };
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
+        self.prev_end = end;
         self.has_line_terminator = self.current.newline;
         Ok(token)
     }
@@ -4236,14 +4249,7 @@ where
             Some(marker) => marker,
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
-        Span {
-            start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
-        }
+        self.span_from(start)
     }
 
     fn peek_span(&mut self) -> Span {
@@ -4251,14 +4257,17 @@ where
             Some(marker) => marker.clone(),
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
-        Span {
-            start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
-        }
+        self.span_from(start)
+    }
+
+    /// The span up to the last consumed token, or an empty one if nothing was consumed since `start`.
+    fn span_from(&self, start: Marker) -> Span {
+        let end = if self.prev_end.idx < start.idx {
+            start.clone()
+        } else {
+            self.prev_end.clone()
+        };
+        Span { start, end }
     }
 
     // *******************************************************************
-- 
2.43.0


From 690bd7b2e21fdf8325d31a60fa97bb7d12f09923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:24 +0000
Subject: [PATCH 115/115] fix: the target of new.target has its own span

---
 giron/src/parser/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index d357bae..d22217a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2618,10 +2618,11 @@ where
                 self.advance(LexGoal::RegExp)?;
                 match self.current.tokentype {
                     TokenType::Identifier if self.current.matches_str("target") => {
+                        self.start_span();
                         let property = Box::from(Node::Identifier {
                             name: self.advance(LexGoal::Div)?.value.string().unwrap(),
                             assign_target_type: "invalid",
-                            span: span.clone(),
+                            span: self.end_span(),
                         });
                         Ok(Node::MetaProperty {
                             meta: Box::from(Node::Identifier {
-- 
2.43.0

