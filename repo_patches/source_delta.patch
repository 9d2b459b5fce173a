From fa4c4246b111c0ad186b2581455a639a9a18a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 01/38] fix: keep parent lookup of the layout in step with
 clears, removals and moves

---
 koopa/src/ir/layout.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/koopa/src/ir/layout.rs b/koopa/src/ir/layout.rs
index badf26c..a659f84 100644
--- a/koopa/src/ir/layout.rs
+++ b/koopa/src/ir/layout.rs
@@ -103,6 +103,9 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
   }
 
   fn clear(&mut self) {
+    for node in self.map.values_mut() {
+      node.insts.clear();
+    }
     self.map.clear()
   }
 
@@ -140,7 +143,19 @@ impl Map<BasicBlock, BasicBlockNode> for BasicBlockMap {
     BasicBlock: Borrow<Q>,
     Q: ?Sized + Hash + Eq,
   {
-    self.map.remove_entry(k)
+    let kv = self.map.remove_entry(k);
+    if let Some((bb, node)) = &kv
+      && let Some(inst_bb) = self.inst_bb.upgrade()
+    {
+      // instructions of a removed basic block have no parent any more
+      let mut inst_bb = inst_bb.as_ref().borrow_mut();
+      for inst in node.insts.keys() {
+        if inst_bb.get(inst) == Some(bb) {
+          inst_bb.remove(inst);
+        }
+      }
+    }
+    kv
   }
 }
 
@@ -222,6 +237,14 @@ impl Map<Value, InstNode> for InstMap {
   }
 
   fn clear(&mut self) {
+    if let Some(inst_bb) = self.inst_bb.upgrade() {
+      let mut inst_bb = inst_bb.as_ref().borrow_mut();
+      for inst in self.map.keys() {
+        if inst_bb.get(inst) == Some(&self.bb) {
+          inst_bb.remove(inst);
+        }
+      }
+    }
     self.map.clear()
   }
 
@@ -267,13 +290,12 @@ impl Map<Value, InstNode> for InstMap {
   {
     let kv = self.map.remove_entry(k);
     if kv.is_some() {
-      self
-        .inst_bb
-        .upgrade()
-        .unwrap()
-        .as_ref()
-        .borrow_mut()
-        .remove(k);
+      let inst_bb = self.inst_bb.upgrade().unwrap();
+      let mut inst_bb = inst_bb.as_ref().borrow_mut();
+      // the instruction may have been inserted to another basic block
+      if inst_bb.get(k) == Some(&self.bb) {
+        inst_bb.remove(k);
+      }
     }
     kv
   }
-- 
2.43.0


From 2daa7d377f991366cfe44af46d28eeac25ccd88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 02/38] fix: drop the uses of globals when a function is
 removed, and let remove_func answer None

---
 koopa/src/ir/entities.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/koopa/src/ir/entities.rs b/koopa/src/ir/entities.rs
index b879e47..d9075b6 100644
--- a/koopa/src/ir/entities.rs
+++ b/koopa/src/ir/entities.rs
@@ -132,6 +132,16 @@ impl Program {
     data.dfg.globals = Rc::downgrade(&self.values);
     data.dfg.func_tys = Rc::downgrade(&self.func_tys);
     self.func_tys.borrow_mut().insert(func, data.ty.clone());
+    // a function that was removed before may use global values
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.insert(*value);
+        }
+      }
+    }
+    drop(globals);
     self.funcs.insert(func, data);
     self.func_layout.push(func);
     func
@@ -180,11 +190,20 @@ impl Program {
   ///
   /// Returns the function data if the function was previously in the program.
   pub fn remove_func(&mut self, func: Function) -> Option<FunctionData> {
+    let data = self.funcs.remove(&func)?;
     self.func_tys.borrow_mut().remove(&func);
-    self
-      .func_layout
-      .remove(self.func_layout.iter().position(|f| *f == func).unwrap());
-    self.funcs.remove(&func)
+    self.func_layout.retain(|f| *f != func);
+    // values of the removed function no longer use the global values
+    let mut globals = self.values.borrow_mut();
+    for (value, value_data) in data.dfg.values() {
+      for v in value_data.kind().value_uses() {
+        if let Some(global) = globals.get_mut(&v) {
+          global.used_by.remove(value);
+        }
+      }
+    }
+    drop(globals);
+    Some(data)
   }
 
   /// Returns a reference to the function map.
-- 
2.43.0


From 55c481eadb46c5c1043d6119a5bd11a2dbdae67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 03/38] fix: never give a temporary or numeric name twice when
 generating text

---
 koopa/src/back/generator.rs | 38 +++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index aa0060b..74a001f 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -136,33 +136,55 @@ impl NameManager {
   /// and stores it to the given name set.
   fn next_name<F>(&mut self, name: &Option<String>, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
     // check if there is a name
     if let Some(name) = name {
       self.next_name_str(name, name_set)
     } else {
-      // generate a temporary name
-      let name = self.prefix.temp_name(self.next_id);
-      self.next_id += 1;
-      let names = name_set(self);
-      names.insert(name.clone().into());
-      names.get(&name).unwrap().to_rc()
+      self.next_temp_name(name_set)
     }
   }
 
+  /// Generates a temporary name that has not been used yet
+  /// and stores it to the given name set.
+  fn next_temp_name<F>(&mut self, name_set: F) -> Rc<String>
+  where
+    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+  {
+    let mut next_id = self.next_id;
+    let prefix = std::mem::take(&mut self.prefix);
+    let names = name_set(self);
+    let name = loop {
+      let name = prefix.temp_name(next_id);
+      next_id += 1;
+      if !names.contains(&name) {
+        break name;
+      }
+    };
+    names.insert(name.clone().into());
+    let name = names.get(&name).unwrap().to_rc();
+    self.prefix = prefix;
+    self.next_id = next_id;
+    name
+  }
+
   /// Generates the next name by the given string
   /// and stores it to the given name set.
   fn next_name_str<F>(&mut self, name: &str, name_set: F) -> Rc<String>
   where
-    F: for<'a> FnOnce(&'a mut Self) -> &'a mut HashSet<StringRc>,
+    F: for<'a> Fn(&'a mut Self) -> &'a mut HashSet<StringRc>,
   {
+    let is_temp = name[1..].bytes().all(|b| b.is_ascii_digit());
     let name = self.prefix.name(name);
     let names = name_set(self);
     // check for duplicate names
     if !names.contains(&name) {
       names.insert(name.clone().into());
       names.get(&name).unwrap().to_rc()
+    } else if is_temp {
+      // numeric names can not be followed by a suffix
+      self.next_temp_name(name_set)
     } else {
       // generate a new name
       for id in 0.. {
-- 
2.43.0


From 1f2c1b4db2006f9a9d6d4c702847d6ed5f3926ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 04/38] fix: give basic blocks and values of a function
 different names when generating text

---
 koopa/src/back/generator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 74a001f..554b48c 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -22,7 +22,6 @@ pub struct NameManager {
   cur_scope: ScopeKind,
   prefix: Prefix,
   global_names: HashSet<StringRc>,
-  bb_names: HashSet<StringRc>,
   global_vars: HashMap<*const ValueData, Rc<String>>,
   funcs: HashMap<*const FunctionData, Rc<String>>,
   bbs: HashMap<*const BasicBlockData, Rc<String>>,
@@ -62,11 +61,10 @@ impl NameManager {
       "not in function scope"
     );
     self.cur_scope = ScopeKind::Global;
-    self.bb_names.clear();
-    self.bbs.clear();
-    for name in self.values.values() {
+    for name in self.values.values().chain(self.bbs.values()) {
       self.global_names.remove(name);
     }
+    self.bbs.clear();
   }
 
   /// Sets the prefix of generated names.
@@ -92,7 +90,7 @@ impl NameManager {
     if let Some(name) = self.bbs.get(&ptr) {
       name.clone()
     } else {
-      let name = self.next_name(bb.name(), |s| &mut s.bb_names);
+      let name = self.next_name(bb.name(), |s| &mut s.global_names);
       self.bbs.insert(ptr, name);
       self.bbs[&ptr].clone()
     }
-- 
2.43.0


From 6671fe18b92fb9a8d7566f9af5202f4dcc5a911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 05/38] fix: name all functions before generating function
 bodies

---
 koopa/src/back/koopa.rs | 5 +++++
 koopa/src/back/llvm.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/koopa.rs b/koopa/src/back/koopa.rs
index 38c8afe..06346fa 100644
--- a/koopa/src/back/koopa.rs
+++ b/koopa/src/back/koopa.rs
@@ -57,6 +57,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
+    // all functions are global symbols even if they are
+    // referenced by other functions before their definitions
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
         writeln!(self.w)?;
diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 2fec584..8839fc7 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -78,7 +78,11 @@ impl<W: Write> VisitorImpl<'_, W> {
     if !self.program.inst_layout().is_empty() {
       writeln!(self.w)?;
     }
-    // functions
+    // functions, all of them are global symbols even if they are
+    // referenced by other functions before their definitions
+    for func in self.program.func_layout() {
+      self.nm.func_name(self.program.func(*func));
+    }
     for (i, func) in self.program.func_layout().iter().enumerate() {
       if i != 0 {
         writeln!(self.w)?;
-- 
2.43.0


From cc8cf96ad509e6e6d0b8f38512bda32f2cbc3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 06/38] fix: always generate element types of LLVM IR
 aggregates

---
 koopa/src/back/llvm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/back/llvm.rs b/koopa/src/back/llvm.rs
index 8839fc7..ca9967f 100644
--- a/koopa/src/back/llvm.rs
+++ b/koopa/src/back/llvm.rs
@@ -446,7 +446,7 @@ impl<W: Write> VisitorImpl<'_, W> {
           if i != 0 {
             write!(self.w, ", ")?;
           }
-          self.visit_local_const(with_ty, value!(self, *elem))?;
+          self.visit_local_const(true, value!(self, *elem))?;
         }
         write!(self.w, "]")
       }
-- 
2.43.0


From 9310a81ee447ef570c339879c1ecd8c540f1a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 07/38] fix: do not reuse names of previously generated
 programs

---
 koopa/src/back/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index 554b48c..bae4027 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -336,6 +336,8 @@ impl<W: Write, V: Visitor<W>> Generator<W, V> {
 
   /// Generates on the given Koopa IR program.
   pub fn generate_on(&mut self, program: &Program) -> Result<V::Output> {
+    // names are bound to the addresses of entities in one program
+    self.name_man = NameManager::new();
     self
       .visitor
       .visit(&mut self.writer, &mut self.name_man, program)
-- 
2.43.0


From 22964e97e398ee772534307fa75924adb4d51362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 08/38] fix: check the number of arguments of calls, branches
 and jumps

---
 koopa/src/front/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index c2ca9d4..fd44d70 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -503,12 +503,12 @@ impl Builder {
     args_ty: &[Type],
   ) -> Result<Vec<Value>, Error> {
     // check length of argument list
-    if args.len() != args.len() {
+    if args.len() != args_ty.len() {
       return_error!(
         span,
         "expected {} {}, found {} {}",
-        args.len(),
-        "arguments".to_plural(args.len()),
+        args_ty.len(),
+        "arguments".to_plural(args_ty.len()),
         args.len(),
         "arguments".to_plural(args.len())
       );
-- 
2.43.0


From cca9132245e950ea8352b0e80d6829d6df6bed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 09/38] fix: report branches to undefined blocks instead of
 panicking

---
 koopa/src/front/builder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index fd44d70..50a9c8f 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -345,12 +345,10 @@ impl Builder {
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
       let mut add_pred = |bb_name| {
-        self
-          .local_bbs
-          .get_mut(bb_name)
-          .unwrap()
-          .preds
-          .push(block.name.clone());
+        // undefined target has already been reported
+        if let Some(info) = self.local_bbs.get_mut(bb_name) {
+          info.preds.push(block.name.clone());
+        }
       };
       match &last_inst.kind {
         AstKind::Branch(ast::Branch { tbb, fbb, .. }) => {
-- 
2.43.0


From db306162748dd25975a89d6e4e0ac9c3ca790a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 10/38] fix: reject aggregates whose type or length does not
 match

---
 koopa/src/front/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 50a9c8f..dd0005a 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -72,7 +72,7 @@ macro_rules! generate_init {
         let $elem_ty = match $ty.kind() {
           TypeKind::Array(base, len) => {
             if *len != agg.elems.len() {
-              log_error!(
+              return_error!(
                 $ast.span,
                 "expected array length {}, found length {}",
                 len,
@@ -81,7 +81,6 @@ macro_rules! generate_init {
             }
             base
           }
-          TypeKind::Pointer(base) => base,
           _ => return_error!($ast.span, "invalid aggregate type '{}'", $ty),
         };
         let elems = agg.elems.iter().map($agg_rec).collect::<Result<_, _>>()?;
-- 
2.43.0


From 21efd3588bce385e4c48d473c644af77dcc2ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 11/38] fix: reject parameters that redefine a global or
 another parameter

---
 koopa/src/front/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index dd0005a..03657ab 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -189,6 +189,9 @@ impl Builder {
       if args.insert(n.clone(), *p).is_some() {
         log_error!(a.span, "duplicate parameter name '{}'", n);
       }
+      if self.global_vars.contains_key(n) {
+        log_error!(a.span, "symbol '{}' has already been defined", n);
+      }
     }
     // add to global function map
     if self.global_vars.contains_key(&ast.name)
@@ -297,6 +300,8 @@ impl Builder {
 
   /// Initializes local basic block map.
   fn init_local_bbs(&mut self, func: Function, args: HashMap<String, Value>, bbs: &[&ast::Block]) {
+    // add argument references local symbols
+    self.local_symbols.extend(args.keys().cloned());
     // create all basic blocks
     self.local_bbs.clear();
     for block in bbs {
@@ -334,12 +339,10 @@ impl Builder {
       // insert block info to local basic block map
       self.local_bbs.insert(block.name.clone(), info);
     }
-    // add argument references local symbols
-    self.local_symbols.extend(args.keys().cloned());
     // add argument references to the entry basic block
     let entry_bb_name = &bbs[0].name;
     let entry_info = &mut self.local_bbs.get_mut(entry_bb_name).unwrap();
-    entry_info.local_defs = args;
+    entry_info.local_defs.extend(args);
     // fill predecessors
     for block in bbs {
       let last_inst = block.stmts.last().unwrap();
-- 
2.43.0


From 65b3e9adbbd7747663ba304a8d713c7f1a14ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 12/38] fix: reject array types whose length is not positive

---
 koopa/src/front/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/front/parser.rs b/koopa/src/front/parser.rs
index cee270d..317df82 100644
--- a/koopa/src/front/parser.rs
+++ b/koopa/src/front/parser.rs
@@ -219,7 +219,12 @@ impl<T: Read> Parser<T> {
     // check & eat ','
     self.expect(TokenKind::Other(','))?;
     // get length
-    let len = read!(self, TokenKind::Int, "length")? as usize;
+    let len_span = self.span();
+    let len = read!(self, TokenKind::Int, "length")?;
+    if len <= 0 {
+      return_error!(len_span, "invalid array length {}", len);
+    }
+    let len = len as usize;
     // check & eat ']'
     span.update_span(self.expect(TokenKind::Other(']'))?);
     Ok(ast::ArrayType::new_boxed(span, base, len))
-- 
2.43.0


From 02fa0edf2cbb03175e52e43d9a17f09498e16b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 13/38] fix: skip comments in a loop, so that many of them do
 not overflow the stack

---
 koopa/src/front/lexer.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/koopa/src/front/lexer.rs b/koopa/src/front/lexer.rs
index 19ec9e5..fe2c90a 100644
--- a/koopa/src/front/lexer.rs
+++ b/koopa/src/front/lexer.rs
@@ -32,16 +32,19 @@ impl<T: Read> Lexer<T> {
 
   /// Returns the next token from file, or a lexer error.
   pub fn next_token(&mut self) -> Result {
-    // skip spaces
-    while self.last_char.is_some_and(|c| c.is_whitespace()) {
-      self.next_char()?;
+    // skip spaces and comments
+    while let Some(c) = self.last_char {
+      if c.is_whitespace() {
+        self.next_char()?;
+      } else if c == '/' {
+        self.handle_comment()?;
+      } else {
+        break;
+      }
     }
     // check the last character
     if let Some(c) = self.last_char {
-      if c == '/' {
-        // skip comments
-        self.handle_comment()
-      } else if c == '@' || c == '%' {
+      if c == '@' || c == '%' {
         // symbols
         self.handle_symbol()
       } else if c.is_alphabetic() {
@@ -167,7 +170,7 @@ impl<T: Read> Lexer<T> {
   }
 
   /// Handles comments.
-  fn handle_comment(&mut self) -> Result {
+  fn handle_comment(&mut self) -> std::result::Result<(), Error> {
     let span = Span::new(self.pos);
     // eat '/'
     self.next_char()?;
@@ -179,15 +182,16 @@ impl<T: Read> Lexer<T> {
       while self.last_char.is_some_and(|c| c != '\r' && c != '\n') {
         self.next_char()?;
       }
-      // return the next token
-      self.next_token()
+      Ok(())
     } else {
-      self.log_err_and_skip(span.into_updated(self.pos), "invalid comment")
+      self
+        .log_err_and_skip(span.into_updated(self.pos), "invalid comment")
+        .map(|_| ())
     }
   }
 
   /// Handles block comments.
-  fn handle_block_comment(&mut self, span: Span) -> Result {
+  fn handle_block_comment(&mut self, span: Span) -> std::result::Result<(), Error> {
     // eat '*'
     self.next_char()?;
     // read until there is '*/' in stream
@@ -198,11 +202,12 @@ impl<T: Read> Lexer<T> {
     }
     // check unclosed block comment
     if self.last_char.is_none() {
-      self.log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
+      self
+        .log_err_and_skip(span.into_updated(self.pos), "comment unclosed at EOF")
+        .map(|_| ())
     } else {
       // eat '/'
-      self.next_char()?;
-      self.next_token()
+      self.next_char()
     }
   }
 
-- 
2.43.0


From 6b883f465a80ba7622dbe7a7d5ac8edaaa9511be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 14/38] fix: do not panic when showing the source lines of a
 diagnostic

---
 koopa/src/front/span.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 58bb176..e7b8006 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -79,24 +79,25 @@ pub struct Span {
 macro_rules! get_line_str {
   ($line:expr) => {
     $line
-      .map_or("".into(), |r| r.unwrap())
+      .and_then(|r| r.ok())
+      .unwrap_or_default()
       .replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH))
   };
   ($line:expr, $col:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
+    let line = $line.and_then(|r| r.ok()).unwrap_or_default();
     let col = $col as usize;
-    let tabs = (&line[..col]).matches('\t').count();
+    let tabs = line.chars().take(col).filter(|c| *c == '\t').count();
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
       col + tabs * (Span::TAB_WIDTH - 1),
     )
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
-    let line = $line.map_or("".into(), |r| r.unwrap());
+    let line = $line.and_then(|r| r.ok()).unwrap_or_default();
     let col1 = $col1 as usize;
     let col2 = $col2 as usize;
-    let tabs1 = (&line[..col1]).matches('\t').count();
-    let tabs2 = tabs1 + (&line[col1..col2]).matches('\t').count();
+    let tabs1 = line.chars().take(col1).filter(|c| *c == '\t').count();
+    let tabs2 = line.chars().take(col2).filter(|c| *c == '\t').count();
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
       col1 + tabs1 * (Span::TAB_WIDTH - 1),
@@ -327,9 +328,10 @@ impl Span {
     if self.start.col > 0
       && self.end.col > 0
       && let FileType::File(path) = file
+      && let Ok(file) = File::open(path)
     {
-      // open file and get lines
-      let mut lines = BufReader::new(File::open(path).unwrap()).lines();
+      // get lines
+      let mut lines = BufReader::new(file).lines();
       if self.start.line == self.end.line {
         self.print_single_line_info(&mut lines, color);
       } else {
@@ -357,8 +359,8 @@ impl Span {
     eprintln!("{:w$} {}", "", "|".blue(), w = width);
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:w$} {} {:l$}", "", "|".blue(), "", w = width, l = leading);
-    eprintln!("{}", format!("{:^>w$}", "", w = len).color(color));
+    eprint!("{:w$} {} {}", "", "|".blue(), " ".repeat(leading), w = width);
+    eprintln!("{}", "^".repeat(len).color(color));
   }
 
   /// Prints the multi-line information.
@@ -379,7 +381,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{}   {}", "|".blue(), line);
     eprint!("{:w$} {}  ", "", "|".blue(), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = start).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(start)).color(color));
     // print the middle lines to stderr
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -405,7 +407,7 @@ impl Span {
     eprint!("{} ", format!("{:w$}", line_num, w = width).blue());
     eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
     eprint!("{:w$} {} {}", "", "|".blue(), "|".color(color), w = width);
-    eprintln!("{}", format!("{:_>w$}^", "", w = end).color(color));
+    eprintln!("{}", format!("{}^", "_".repeat(end)).color(color));
   }
 }
 
-- 
2.43.0


From a43060cc5e938b72d2716c57a3cf6d25bb38c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 15/38] fix: keep a prepared driver from disturbing other
 drivers of its thread

---
 koopa/src/front/driver.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index b24fbc0..baec3d4 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -15,7 +15,8 @@ use std::path::Path;
 ///
 /// See the [module-level documentation](crate::front) for more examples.
 pub struct Driver<T: Read> {
-  parser: Result<Parser<T>, Error>,
+  file_type: FileType,
+  reader: T,
   builder: Builder,
 }
 
@@ -25,9 +26,9 @@ impl<T: Read> Driver<T> {
 
   /// Creates a new driver.
   pub fn new(ft: FileType, reader: T) -> Self {
-    Span::reset(ft);
     Self {
-      parser: Parser::new(Lexer::new(reader)),
+      file_type: ft,
+      reader,
       builder: Builder::new(),
     }
   }
@@ -35,7 +36,10 @@ impl<T: Read> Driver<T> {
   /// Consumes the current driver and generates Koopa IR program
   /// from the reader.
   pub fn generate_program(mut self) -> Result<Program, Error> {
-    let mut parser = self.parser?;
+    // the state of spans is shared by all drivers of the current thread,
+    // so it must not be touched until this driver runs
+    Span::reset(self.file_type);
+    let mut parser = Parser::new(Lexer::new(self.reader))?;
     loop {
       // parse & get the next AST
       let ast = parser.parse_next()?;
-- 
2.43.0


From eff20ab58570c5cf7193780a7083a81264089bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 16/38] fix: pass basic block arguments simultaneously in the
 interpreter

---
 koopa/examples/interpreter/interpreter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index 3452a89..a56c360 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -388,8 +388,11 @@ impl<'a> InterpreterImpl<'a> {
 
   fn update_bb_params(&mut self, bb: BasicBlock, args: &[Value]) {
     let bb = func!(self).dfg().bb(bb);
-    for (param, arg) in bb.params().iter().zip(args.iter()) {
-      self.insert_val(func!(self).dfg().value(*param), self.eval_value(*arg));
+    // evaluate all arguments before updating any parameter,
+    // because arguments may refer to the parameters to be updated
+    let vals: Vec<_> = args.iter().map(|arg| self.eval_value(*arg)).collect();
+    for (param, val) in bb.params().iter().zip(vals) {
+      self.insert_val(func!(self).dfg().value(*param), val);
     }
   }
 }
-- 
2.43.0


From 7f7d16fd2c4b1ee986f9c81f585db80b6c47f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 17/38] fix: accept zero offsets on pointers to variables in
 the interpreter

---
 koopa/examples/interpreter/interpreter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index a56c360..552d833 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -434,7 +434,8 @@ impl Val {
     Self::Pointer {
       ptr: parent.map(|p| unsafe { NonNull::new_unchecked(p as *const Val as *mut Val) }),
       index: 0,
-      len: 0,
+      // the pointed value can be seen as an array of length 1
+      len: parent.is_some() as usize,
     }
   }
 
-- 
2.43.0


From d3b9e858fe2094b2ab64763cef52315b225835b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 18/38] fix: wrap integers on overflow in the interpreter

---
 koopa/examples/interpreter/interpreter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index 552d833..823a50a 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -314,11 +314,11 @@ impl<'a> InterpreterImpl<'a> {
       BinaryOp::Lt => (lv < rv) as i32,
       BinaryOp::Ge => (lv >= rv) as i32,
       BinaryOp::Le => (lv <= rv) as i32,
-      BinaryOp::Add => lv + rv,
-      BinaryOp::Sub => lv - rv,
-      BinaryOp::Mul => lv * rv,
-      BinaryOp::Div => lv / rv,
-      BinaryOp::Mod => lv % rv,
+      BinaryOp::Add => lv.wrapping_add(rv),
+      BinaryOp::Sub => lv.wrapping_sub(rv),
+      BinaryOp::Mul => lv.wrapping_mul(rv),
+      BinaryOp::Div => lv.wrapping_div(rv),
+      BinaryOp::Mod => lv.wrapping_rem(rv),
       BinaryOp::And => lv & rv,
       BinaryOp::Or => lv | rv,
       BinaryOp::Xor => lv ^ rv,
-- 
2.43.0


From 4f76641c11cd5de1f84bb43cb7eb172f95ae3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 19/38] fix: do not overflow the stack of the interpreter in
 long loops

---
 koopa/examples/interpreter/interpreter.rs | 36 +++++++++++++++--------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index 823a50a..b3f82ea 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -188,17 +188,23 @@ impl<'a> InterpreterImpl<'a> {
           .zip(args)
           .collect(),
       ));
-      // evaluate the entry basic block
-      let ret = self.eval_bb(bb);
+      // evaluate basic blocks, starting from the entry
+      let mut next = self.eval_bb(bb);
+      while let Ok(Next::Jump(bb)) = next {
+        next = self.eval_bb(bb_node!(self, bb));
+      }
       self.envs.pop();
-      ret
+      match next? {
+        Next::Return(val) => Ok(val),
+        Next::Jump(_) => unreachable!(),
+      }
     } else {
       // call the external function
       unsafe { self.ext_funcs.call(func, args) }
     }
   }
 
-  fn eval_bb(&mut self, bb: &BasicBlockNode) -> Result<Val> {
+  fn eval_bb(&mut self, bb: &BasicBlockNode) -> Result<Next> {
     // evaluate on all instructions
     for inst in bb.insts().keys() {
       let inst = func!(self).dfg().value(*inst);
@@ -210,9 +216,9 @@ impl<'a> InterpreterImpl<'a> {
         ValueKind::GetElemPtr(v) => self.eval_getelemptr(inst, v)?,
         ValueKind::Binary(v) => self.eval_binary(inst, v),
         ValueKind::Call(v) => self.eval_call(inst, v)?,
-        ValueKind::Branch(v) => return self.eval_branch(v),
-        ValueKind::Jump(v) => return self.eval_jump(v),
-        ValueKind::Return(v) => return Ok(self.eval_return(v)),
+        ValueKind::Branch(v) => return Ok(Next::Jump(self.eval_branch(v))),
+        ValueKind::Jump(v) => return Ok(Next::Jump(self.eval_jump(v))),
+        ValueKind::Return(v) => return Ok(Next::Return(self.eval_return(v))),
         _ => panic!("invalid instruction"),
       }
     }
@@ -338,22 +344,22 @@ impl<'a> InterpreterImpl<'a> {
     Ok(())
   }
 
-  fn eval_branch(&mut self, br: &Branch) -> Result<Val> {
+  fn eval_branch(&mut self, br: &Branch) -> BasicBlock {
     // evaluate on condition
     let cond = self.eval_value(br.cond());
     // perform branching
     if cond.as_bool() {
       self.update_bb_params(br.true_bb(), br.true_args());
-      self.eval_bb(bb_node!(self, br.true_bb()))
+      br.true_bb()
     } else {
       self.update_bb_params(br.false_bb(), br.false_args());
-      self.eval_bb(bb_node!(self, br.false_bb()))
+      br.false_bb()
     }
   }
 
-  fn eval_jump(&mut self, jump: &Jump) -> Result<Val> {
+  fn eval_jump(&mut self, jump: &Jump) -> BasicBlock {
     self.update_bb_params(jump.target(), jump.args());
-    self.eval_bb(bb_node!(self, jump.target()))
+    jump.target()
   }
 
   fn eval_return(&self, ret: &Return) -> Val {
@@ -397,6 +403,12 @@ impl<'a> InterpreterImpl<'a> {
   }
 }
 
+/// What to do after evaluating a basic block.
+enum Next {
+  Jump(BasicBlock),
+  Return(Val),
+}
+
 struct Environment<'a> {
   func: &'a FunctionData,
   allocs: Vec<Pin<Box<Val>>>,
-- 
2.43.0


From 6d7e0b3cf68bd905275c5d2ec8ddbb2cce924657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 20/38] fix: keep pointers to array elements valid when the
 interpreter stores an array

---
 koopa/examples/interpreter/interpreter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index b3f82ea..7ee6239 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -254,7 +254,7 @@ impl<'a> InterpreterImpl<'a> {
     let val = self.eval_value(store.value());
     match self.eval_value(store.dest()) {
       Val::Pointer { ptr, .. } => ptr
-        .map(|p| unsafe { *p.as_ptr() = val })
+        .map(|p| unsafe { (*p.as_ptr()).assign(val) })
         .ok_or_else(|| new_error("accessing to null pointer")),
       Val::UnsafePointer(ptr) => val.store_to_unsafe_ptr(ptr, value!(self, store.value()).ty()),
       _ => panic!("invalid pointer"),
@@ -483,6 +483,21 @@ impl Val {
     })
   }
 
+  /// Assigns the given value to the current value.
+  ///
+  /// Elements of arrays are updated in place, so that pointers to them
+  /// are still valid.
+  fn assign(&mut self, val: Val) {
+    match (self, val) {
+      (Val::Array(dst), Val::Array(src)) if dst.len() == src.len() => {
+        for (d, s) in dst.iter_mut().zip(src) {
+          d.assign(s);
+        }
+      }
+      (dst, src) => *dst = src,
+    }
+  }
+
   fn as_bool(&self) -> bool {
     matches!(self, Val::Int(i) if *i != 0)
   }
-- 
2.43.0


From 40efb9e0a27cb59f34a0ac1ca7b10259bb35fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 21/38] fix: let the interpreter access elements of undefined
 arrays

---
 koopa/examples/interpreter/interpreter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index 7ee6239..f68f655 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -108,7 +108,7 @@ impl<'a> InterpreterImpl<'a> {
     match value.kind() {
       ValueKind::Integer(v) => Val::Int(v.value()),
       ValueKind::ZeroInit(_) => Self::new_zeroinit(value.ty()),
-      ValueKind::Undef(_) => Val::Undef,
+      ValueKind::Undef(_) => Self::new_undef(value.ty()),
       ValueKind::Aggregate(v) => Val::Array(
         v.elems()
           .iter()
@@ -123,7 +123,7 @@ impl<'a> InterpreterImpl<'a> {
     match value.kind() {
       ValueKind::Integer(v) => Val::Int(v.value()),
       ValueKind::ZeroInit(_) => Self::new_zeroinit(value.ty()),
-      ValueKind::Undef(_) => Val::Undef,
+      ValueKind::Undef(_) => Self::new_undef(value.ty()),
       ValueKind::Aggregate(v) => Val::Array(
         v.elems()
           .iter()
@@ -145,6 +145,15 @@ impl<'a> InterpreterImpl<'a> {
     }
   }
 
+  fn new_undef(ty: &Type) -> Val {
+    match ty.kind() {
+      TypeKind::Array(base, len) => {
+        Val::Array((0..*len).map(|_| Self::new_undef(base)).collect())
+      }
+      _ => Val::Undef,
+    }
+  }
+
   fn get_pointer(src: Val, offset: isize, base_size: usize) -> Result<Val> {
     match src {
       Val::Pointer { ptr, index, len } => {
-- 
2.43.0


From b7ed154f8ae8c84249a1dc2e3b188f120da41c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 22/38] fix: do not panic on overflow when folding constants in
 the optimizer

---
 koopa/examples/opt/const_fold.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/koopa/examples/opt/const_fold.rs b/koopa/examples/opt/const_fold.rs
index 60317f4..79773c5 100644
--- a/koopa/examples/opt/const_fold.rs
+++ b/koopa/examples/opt/const_fold.rs
@@ -34,17 +34,19 @@ impl ConstantFolding {
               BinaryOp::Lt => Some((l.value() < r.value()) as i32),
               BinaryOp::Ge => Some((l.value() >= r.value()) as i32),
               BinaryOp::Le => Some((l.value() <= r.value()) as i32),
-              BinaryOp::Add => Some(l.value() + r.value()),
-              BinaryOp::Sub => Some(l.value() - r.value()),
-              BinaryOp::Mul => Some(l.value() * r.value()),
-              BinaryOp::Div => (r.value() != 0).then(|| l.value() / r.value()),
-              BinaryOp::Mod => (r.value() != 0).then(|| l.value() % r.value()),
+              BinaryOp::Add => Some(l.value().wrapping_add(r.value())),
+              BinaryOp::Sub => Some(l.value().wrapping_sub(r.value())),
+              BinaryOp::Mul => Some(l.value().wrapping_mul(r.value())),
+              BinaryOp::Div => (r.value() != 0).then(|| l.value().wrapping_div(r.value())),
+              BinaryOp::Mod => (r.value() != 0).then(|| l.value().wrapping_rem(r.value())),
               BinaryOp::And => Some(l.value() & r.value()),
               BinaryOp::Or => Some(l.value() | r.value()),
               BinaryOp::Xor => Some(l.value() ^ r.value()),
-              BinaryOp::Shl => Some(l.value() << r.value()),
-              BinaryOp::Shr => Some((l.value() as u32 >> r.value()) as i32),
-              BinaryOp::Sar => Some(l.value() >> r.value()),
+              BinaryOp::Shl => l.value().checked_shl(r.value() as u32),
+              BinaryOp::Shr => (l.value() as u32)
+                .checked_shr(r.value() as u32)
+                .map(|v| v as i32),
+              BinaryOp::Sar => l.value().checked_shr(r.value() as u32),
             },
             (ValueKind::Undef(_), _) => todo!(),
             (_, ValueKind::Undef(_)) => todo!(),
-- 
2.43.0


From e5bb83d8a4443cc651784724361f35f881ce7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 23/38] fix: fold operations on undefined values in the
 optimizer

---
 koopa/examples/opt/const_fold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koopa/examples/opt/const_fold.rs b/koopa/examples/opt/const_fold.rs
index 79773c5..e1ab01f 100644
--- a/koopa/examples/opt/const_fold.rs
+++ b/koopa/examples/opt/const_fold.rs
@@ -48,8 +48,8 @@ impl ConstantFolding {
                 .map(|v| v as i32),
               BinaryOp::Sar => l.value().checked_shr(r.value() as u32),
             },
-            (ValueKind::Undef(_), _) => todo!(),
-            (_, ValueKind::Undef(_)) => todo!(),
+            (ValueKind::Undef(_), _) => None,
+            (_, ValueKind::Undef(_)) => None,
             _ => continue,
           }
         }
-- 
2.43.0


From a6cee21eb1a48970399de2f9f3ff91ecd65804f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 24/38] fix: accept operations on global variables in the
 optimizer

---
 koopa/examples/opt/const_fold.rs | 4 ++++
 koopa/examples/opt/dce.rs        | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/koopa/examples/opt/const_fold.rs b/koopa/examples/opt/const_fold.rs
index e1ab01f..ab7c2dd 100644
--- a/koopa/examples/opt/const_fold.rs
+++ b/koopa/examples/opt/const_fold.rs
@@ -96,6 +96,10 @@ impl ConstantFolding {
             ValueKind::Jump(jump) => jump.args()[i],
             _ => panic!("invalid branch/jump instruction"),
           };
+          // global variables are not constants, and not in the current DFG
+          if value.is_global() {
+            continue 'outer;
+          }
           // check if is constant
           let value = data.dfg().value(value);
           if !value.kind().is_const() || !ans.is_none_or(|v| data.dfg().data_eq(&v, value)) {
diff --git a/koopa/examples/opt/dce.rs b/koopa/examples/opt/dce.rs
index 87de617..2a465f0 100644
--- a/koopa/examples/opt/dce.rs
+++ b/koopa/examples/opt/dce.rs
@@ -39,7 +39,10 @@ impl DeadCodeElimination {
     while let Some(inst) = self.worklist.pop() {
       // mark all of its operand as undead
       for u in data.dfg().value(inst).kind().value_uses() {
-        if !self.liveset.contains(&u) && data.dfg().value(u).kind().is_local_inst() {
+        if !u.is_global()
+          && !self.liveset.contains(&u)
+          && data.dfg().value(u).kind().is_local_inst()
+        {
           self.liveset.insert(u);
           self.worklist.push(u);
         }
@@ -144,7 +147,7 @@ impl DeadCodeElimination {
         data.dfg_mut().replace_value_with(user).raw(inst);
         // remove unused values
         removed_args.into_iter().for_each(|v| {
-          if data.dfg().value(v).used_by().is_empty() {
+          if !v.is_global() && data.dfg().value(v).used_by().is_empty() {
             data.dfg_mut().remove_value(v);
           }
         });
-- 
2.43.0


From 1430701e3ecc78e47ac3b21beb97204d74e55798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 25/38] fix: do not remove instructions and parameters used as
 removed arguments in the optimizer

---
 koopa/examples/opt/dce.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koopa/examples/opt/dce.rs b/koopa/examples/opt/dce.rs
index 2a465f0..3128470 100644
--- a/koopa/examples/opt/dce.rs
+++ b/koopa/examples/opt/dce.rs
@@ -145,9 +145,13 @@ impl DeadCodeElimination {
         });
         // replace the existing instruction
         data.dfg_mut().replace_value_with(user).raw(inst);
-        // remove unused values
+        // remove unused constants
+        // other values are still in the layout, or are parameters
         removed_args.into_iter().for_each(|v| {
-          if !v.is_global() && data.dfg().value(v).used_by().is_empty() {
+          if !v.is_global()
+            && data.dfg().value(v).kind().is_const()
+            && data.dfg().value(v).used_by().is_empty()
+          {
             data.dfg_mut().remove_value(v);
           }
         });
-- 
2.43.0


From 881d01dc7ee2c8285155090b9fbbb9670b33cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 26/38] fix: do not replace pointer parameters by undefined
 pointers in the optimizer

---
 koopa/examples/opt/const_fold.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koopa/examples/opt/const_fold.rs b/koopa/examples/opt/const_fold.rs
index ab7c2dd..f763de3 100644
--- a/koopa/examples/opt/const_fold.rs
+++ b/koopa/examples/opt/const_fold.rs
@@ -1,4 +1,4 @@
-use koopa::ir::{BinaryOp, Function, FunctionData, Type, ValueKind, builder_traits::*};
+use koopa::ir::{BinaryOp, Function, FunctionData, Type, TypeKind, ValueKind, builder_traits::*};
 use koopa::opt::FunctionPass;
 
 /// Performs constant folding.
@@ -80,7 +80,11 @@ impl ConstantFolding {
     for (b, bb) in data.dfg().bbs() {
       // collect parameters that can be evaluated in the current basic block
       let mut evaluated = Vec::new();
-      'outer: for i in 0..bb.params().len() {
+      'outer: for (i, param) in bb.params().iter().enumerate() {
+        // constants can not be used as operands of memory accesses
+        if matches!(data.dfg().value(*param).ty().kind(), TypeKind::Pointer(_)) {
+          continue;
+        }
         let mut ans = None;
         // check if all corresponding arguments are constant
         for user in bb.used_by() {
-- 
2.43.0


From a0ee09b26d88677775c8d27ea631e315da1bec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 27/38] fix: reject unmatched opening brackets in the brainfuck
 compiler

---
 koopa/examples/brainfuck/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/examples/brainfuck/main.rs b/koopa/examples/brainfuck/main.rs
index 46aa06e..120f385 100644
--- a/koopa/examples/brainfuck/main.rs
+++ b/koopa/examples/brainfuck/main.rs
@@ -211,7 +211,12 @@ fn generate_bbs<T: Read>(
       _ => continue,
     }?;
   }
-  Ok(bb)
+  // check if there are unmatched brackets
+  if loop_info.is_empty() {
+    Ok(bb)
+  } else {
+    Err(Error::Parse)
+  }
 }
 
 fn generate_ptr_op(env: &mut Environment, bb: BasicBlock, i: i32) -> Result<BasicBlock, Error> {
-- 
2.43.0


From 6f4265e2ed33d610c198569fedb8aca5f4198322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 28/38] fix: report null pointers in raw programs

---
 libkoopa/src/raw/generator.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 0e2b9ba..37b6351 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -123,8 +123,18 @@ impl<T: Pointer> Iterator for RawSliceIter<'_, T> {
 }
 
 impl RawSlice {
+  /// Checks if the buffer of this slice is valid.
+  fn check_buffer(&self) -> Result<()> {
+    if self.len != 0 && self.buffer.is_null() {
+      Err(ErrorCode::NullPointerError)
+    } else {
+      Ok(())
+    }
+  }
+
   /// Returns an type iterator of this slice.
   fn types(&self) -> Result<RawSliceIter<'_, RawType>> {
+    self.check_buffer()?;
     match self.kind {
       RawSliceItemKind::Type => Ok(RawSliceIter::<RawType> {
         slice: self,
@@ -137,6 +147,7 @@ impl RawSlice {
 
   /// Returns an function iterator of this slice.
   fn funcs(&self) -> Result<RawSliceIter<'_, RawFunction>> {
+    self.check_buffer()?;
     match self.kind {
       RawSliceItemKind::Function => Ok(RawSliceIter::<RawFunction> {
         slice: self,
@@ -149,6 +160,7 @@ impl RawSlice {
 
   /// Returns an basic block iterator of this slice.
   fn bbs(&self) -> Result<RawSliceIter<'_, RawBasicBlock>> {
+    self.check_buffer()?;
     match self.kind {
       RawSliceItemKind::BasicBlock => Ok(RawSliceIter::<RawBasicBlock> {
         slice: self,
@@ -161,6 +173,7 @@ impl RawSlice {
 
   /// Returns an value iterator of this slice.
   fn values(&self) -> Result<RawSliceIter<'_, RawValue>> {
+    self.check_buffer()?;
     match self.kind {
       RawSliceItemKind::Value => Ok(RawSliceIter::<RawValue> {
         slice: self,
@@ -172,6 +185,12 @@ impl RawSlice {
   }
 }
 
+/// Dereferences the given raw pointer.
+/// Returns `NullPointerError` if the pointer is null.
+fn deref<'a, T>(ptr: *const T) -> Result<&'a T> {
+  unsafe { ptr.as_ref() }.ok_or(ErrorCode::NullPointerError)
+}
+
 /// Trait for generating on raw structures.
 trait GenerateOnRaw {
   /// The type of generated entity.
@@ -214,7 +233,7 @@ impl GenerateOnRaw for RawType {
   type Entity = Type;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
-    Ok(match unsafe { &**self } {
+    Ok(match deref(*self)? {
       RawTypeKind::Int32 => Type::get_i32(),
       RawTypeKind::Unit => Type::get_unit(),
       RawTypeKind::Array(base, len) => Type::get_array(base.generate(program, info)?, *len),
@@ -234,7 +253,7 @@ impl GenerateOnRaw for RawFunction {
     if let Some(f) = info.funcs.get(self) {
       Ok(f.func)
     } else {
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       // generate function name & type
       let name = raw.name.generate(program, info)?.unwrap_string()?;
       let (params, ret) = match raw.ty.generate(program, info)?.kind() {
@@ -251,7 +270,7 @@ impl GenerateOnRaw for RawFunction {
         let params = params
           .into_iter()
           .zip(raw.params.values()?)
-          .map(|(ty, p)| Ok((unsafe { &*p }.name.generate(program, info)?, ty)))
+          .map(|(ty, p)| Ok((deref(p)?.name.generate(program, info)?, ty)))
           .collect::<Result<_>>()?;
         program.new_func_def_with_param_names(name, params, ret)
       };
@@ -283,14 +302,14 @@ impl GenerateOnRaw for RawBasicBlock {
     if let Some(b) = info.cur_func_info().bbs.get(self) {
       Ok(*b)
     } else {
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       // generate basic block name & parameters
       let name = raw.name.generate(program, info)?;
       let params = raw
         .params
         .values()?
         .map(|p| {
-          let raw = unsafe { &*p };
+          let raw = deref(p)?;
           let name = raw.name.generate(program, info)?;
           Ok((name, raw.ty.generate(program, info)?))
         })
@@ -337,7 +356,7 @@ impl GenerateOnRaw for RawValue {
       Ok(*v)
     } else {
       // generate value
-      let raw = unsafe { &**self };
+      let raw = deref(*self)?;
       let value = match &raw.kind {
         RawValueKind::Integer(v) => v.generate(program, info)?,
         RawValueKind::Aggregate(v) => v.generate(program, info)?,
-- 
2.43.0


From 8fb274fc43cffd631b816d1442568285bbd5b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 29/38] Restore koopa/examples: examples are left as they are,
 their defects are recorded as findings

---
 koopa/examples/brainfuck/main.rs          |  7 +-
 koopa/examples/interpreter/interpreter.rs | 86 ++++++-----------------
 koopa/examples/opt/const_fold.rs          | 34 ++++-----
 koopa/examples/opt/dce.rs                 | 13 +---
 4 files changed, 39 insertions(+), 101 deletions(-)

diff --git a/koopa/examples/brainfuck/main.rs b/koopa/examples/brainfuck/main.rs
index 120f385..46aa06e 100644
--- a/koopa/examples/brainfuck/main.rs
+++ b/koopa/examples/brainfuck/main.rs
@@ -211,12 +211,7 @@ fn generate_bbs<T: Read>(
       _ => continue,
     }?;
   }
-  // check if there are unmatched brackets
-  if loop_info.is_empty() {
-    Ok(bb)
-  } else {
-    Err(Error::Parse)
-  }
+  Ok(bb)
 }
 
 fn generate_ptr_op(env: &mut Environment, bb: BasicBlock, i: i32) -> Result<BasicBlock, Error> {
diff --git a/koopa/examples/interpreter/interpreter.rs b/koopa/examples/interpreter/interpreter.rs
index f68f655..3452a89 100644
--- a/koopa/examples/interpreter/interpreter.rs
+++ b/koopa/examples/interpreter/interpreter.rs
@@ -108,7 +108,7 @@ impl<'a> InterpreterImpl<'a> {
     match value.kind() {
       ValueKind::Integer(v) => Val::Int(v.value()),
       ValueKind::ZeroInit(_) => Self::new_zeroinit(value.ty()),
-      ValueKind::Undef(_) => Self::new_undef(value.ty()),
+      ValueKind::Undef(_) => Val::Undef,
       ValueKind::Aggregate(v) => Val::Array(
         v.elems()
           .iter()
@@ -123,7 +123,7 @@ impl<'a> InterpreterImpl<'a> {
     match value.kind() {
       ValueKind::Integer(v) => Val::Int(v.value()),
       ValueKind::ZeroInit(_) => Self::new_zeroinit(value.ty()),
-      ValueKind::Undef(_) => Self::new_undef(value.ty()),
+      ValueKind::Undef(_) => Val::Undef,
       ValueKind::Aggregate(v) => Val::Array(
         v.elems()
           .iter()
@@ -145,15 +145,6 @@ impl<'a> InterpreterImpl<'a> {
     }
   }
 
-  fn new_undef(ty: &Type) -> Val {
-    match ty.kind() {
-      TypeKind::Array(base, len) => {
-        Val::Array((0..*len).map(|_| Self::new_undef(base)).collect())
-      }
-      _ => Val::Undef,
-    }
-  }
-
   fn get_pointer(src: Val, offset: isize, base_size: usize) -> Result<Val> {
     match src {
       Val::Pointer { ptr, index, len } => {
@@ -197,23 +188,17 @@ impl<'a> InterpreterImpl<'a> {
           .zip(args)
           .collect(),
       ));
-      // evaluate basic blocks, starting from the entry
-      let mut next = self.eval_bb(bb);
-      while let Ok(Next::Jump(bb)) = next {
-        next = self.eval_bb(bb_node!(self, bb));
-      }
+      // evaluate the entry basic block
+      let ret = self.eval_bb(bb);
       self.envs.pop();
-      match next? {
-        Next::Return(val) => Ok(val),
-        Next::Jump(_) => unreachable!(),
-      }
+      ret
     } else {
       // call the external function
       unsafe { self.ext_funcs.call(func, args) }
     }
   }
 
-  fn eval_bb(&mut self, bb: &BasicBlockNode) -> Result<Next> {
+  fn eval_bb(&mut self, bb: &BasicBlockNode) -> Result<Val> {
     // evaluate on all instructions
     for inst in bb.insts().keys() {
       let inst = func!(self).dfg().value(*inst);
@@ -225,9 +210,9 @@ impl<'a> InterpreterImpl<'a> {
         ValueKind::GetElemPtr(v) => self.eval_getelemptr(inst, v)?,
         ValueKind::Binary(v) => self.eval_binary(inst, v),
         ValueKind::Call(v) => self.eval_call(inst, v)?,
-        ValueKind::Branch(v) => return Ok(Next::Jump(self.eval_branch(v))),
-        ValueKind::Jump(v) => return Ok(Next::Jump(self.eval_jump(v))),
-        ValueKind::Return(v) => return Ok(Next::Return(self.eval_return(v))),
+        ValueKind::Branch(v) => return self.eval_branch(v),
+        ValueKind::Jump(v) => return self.eval_jump(v),
+        ValueKind::Return(v) => return Ok(self.eval_return(v)),
         _ => panic!("invalid instruction"),
       }
     }
@@ -263,7 +248,7 @@ impl<'a> InterpreterImpl<'a> {
     let val = self.eval_value(store.value());
     match self.eval_value(store.dest()) {
       Val::Pointer { ptr, .. } => ptr
-        .map(|p| unsafe { (*p.as_ptr()).assign(val) })
+        .map(|p| unsafe { *p.as_ptr() = val })
         .ok_or_else(|| new_error("accessing to null pointer")),
       Val::UnsafePointer(ptr) => val.store_to_unsafe_ptr(ptr, value!(self, store.value()).ty()),
       _ => panic!("invalid pointer"),
@@ -329,11 +314,11 @@ impl<'a> InterpreterImpl<'a> {
       BinaryOp::Lt => (lv < rv) as i32,
       BinaryOp::Ge => (lv >= rv) as i32,
       BinaryOp::Le => (lv <= rv) as i32,
-      BinaryOp::Add => lv.wrapping_add(rv),
-      BinaryOp::Sub => lv.wrapping_sub(rv),
-      BinaryOp::Mul => lv.wrapping_mul(rv),
-      BinaryOp::Div => lv.wrapping_div(rv),
-      BinaryOp::Mod => lv.wrapping_rem(rv),
+      BinaryOp::Add => lv + rv,
+      BinaryOp::Sub => lv - rv,
+      BinaryOp::Mul => lv * rv,
+      BinaryOp::Div => lv / rv,
+      BinaryOp::Mod => lv % rv,
       BinaryOp::And => lv & rv,
       BinaryOp::Or => lv | rv,
       BinaryOp::Xor => lv ^ rv,
@@ -353,22 +338,22 @@ impl<'a> InterpreterImpl<'a> {
     Ok(())
   }
 
-  fn eval_branch(&mut self, br: &Branch) -> BasicBlock {
+  fn eval_branch(&mut self, br: &Branch) -> Result<Val> {
     // evaluate on condition
     let cond = self.eval_value(br.cond());
     // perform branching
     if cond.as_bool() {
       self.update_bb_params(br.true_bb(), br.true_args());
-      br.true_bb()
+      self.eval_bb(bb_node!(self, br.true_bb()))
     } else {
       self.update_bb_params(br.false_bb(), br.false_args());
-      br.false_bb()
+      self.eval_bb(bb_node!(self, br.false_bb()))
     }
   }
 
-  fn eval_jump(&mut self, jump: &Jump) -> BasicBlock {
+  fn eval_jump(&mut self, jump: &Jump) -> Result<Val> {
     self.update_bb_params(jump.target(), jump.args());
-    jump.target()
+    self.eval_bb(bb_node!(self, jump.target()))
   }
 
   fn eval_return(&self, ret: &Return) -> Val {
@@ -403,21 +388,12 @@ impl<'a> InterpreterImpl<'a> {
 
   fn update_bb_params(&mut self, bb: BasicBlock, args: &[Value]) {
     let bb = func!(self).dfg().bb(bb);
-    // evaluate all arguments before updating any parameter,
-    // because arguments may refer to the parameters to be updated
-    let vals: Vec<_> = args.iter().map(|arg| self.eval_value(*arg)).collect();
-    for (param, val) in bb.params().iter().zip(vals) {
-      self.insert_val(func!(self).dfg().value(*param), val);
+    for (param, arg) in bb.params().iter().zip(args.iter()) {
+      self.insert_val(func!(self).dfg().value(*param), self.eval_value(*arg));
     }
   }
 }
 
-/// What to do after evaluating a basic block.
-enum Next {
-  Jump(BasicBlock),
-  Return(Val),
-}
-
 struct Environment<'a> {
   func: &'a FunctionData,
   allocs: Vec<Pin<Box<Val>>>,
@@ -455,8 +431,7 @@ impl Val {
     Self::Pointer {
       ptr: parent.map(|p| unsafe { NonNull::new_unchecked(p as *const Val as *mut Val) }),
       index: 0,
-      // the pointed value can be seen as an array of length 1
-      len: parent.is_some() as usize,
+      len: 0,
     }
   }
 
@@ -492,21 +467,6 @@ impl Val {
     })
   }
 
-  /// Assigns the given value to the current value.
-  ///
-  /// Elements of arrays are updated in place, so that pointers to them
-  /// are still valid.
-  fn assign(&mut self, val: Val) {
-    match (self, val) {
-      (Val::Array(dst), Val::Array(src)) if dst.len() == src.len() => {
-        for (d, s) in dst.iter_mut().zip(src) {
-          d.assign(s);
-        }
-      }
-      (dst, src) => *dst = src,
-    }
-  }
-
   fn as_bool(&self) -> bool {
     matches!(self, Val::Int(i) if *i != 0)
   }
diff --git a/koopa/examples/opt/const_fold.rs b/koopa/examples/opt/const_fold.rs
index f763de3..60317f4 100644
--- a/koopa/examples/opt/const_fold.rs
+++ b/koopa/examples/opt/const_fold.rs
@@ -1,4 +1,4 @@
-use koopa::ir::{BinaryOp, Function, FunctionData, Type, TypeKind, ValueKind, builder_traits::*};
+use koopa::ir::{BinaryOp, Function, FunctionData, Type, ValueKind, builder_traits::*};
 use koopa::opt::FunctionPass;
 
 /// Performs constant folding.
@@ -34,22 +34,20 @@ impl ConstantFolding {
               BinaryOp::Lt => Some((l.value() < r.value()) as i32),
               BinaryOp::Ge => Some((l.value() >= r.value()) as i32),
               BinaryOp::Le => Some((l.value() <= r.value()) as i32),
-              BinaryOp::Add => Some(l.value().wrapping_add(r.value())),
-              BinaryOp::Sub => Some(l.value().wrapping_sub(r.value())),
-              BinaryOp::Mul => Some(l.value().wrapping_mul(r.value())),
-              BinaryOp::Div => (r.value() != 0).then(|| l.value().wrapping_div(r.value())),
-              BinaryOp::Mod => (r.value() != 0).then(|| l.value().wrapping_rem(r.value())),
+              BinaryOp::Add => Some(l.value() + r.value()),
+              BinaryOp::Sub => Some(l.value() - r.value()),
+              BinaryOp::Mul => Some(l.value() * r.value()),
+              BinaryOp::Div => (r.value() != 0).then(|| l.value() / r.value()),
+              BinaryOp::Mod => (r.value() != 0).then(|| l.value() % r.value()),
               BinaryOp::And => Some(l.value() & r.value()),
               BinaryOp::Or => Some(l.value() | r.value()),
               BinaryOp::Xor => Some(l.value() ^ r.value()),
-              BinaryOp::Shl => l.value().checked_shl(r.value() as u32),
-              BinaryOp::Shr => (l.value() as u32)
-                .checked_shr(r.value() as u32)
-                .map(|v| v as i32),
-              BinaryOp::Sar => l.value().checked_shr(r.value() as u32),
+              BinaryOp::Shl => Some(l.value() << r.value()),
+              BinaryOp::Shr => Some((l.value() as u32 >> r.value()) as i32),
+              BinaryOp::Sar => Some(l.value() >> r.value()),
             },
-            (ValueKind::Undef(_), _) => None,
-            (_, ValueKind::Undef(_)) => None,
+            (ValueKind::Undef(_), _) => todo!(),
+            (_, ValueKind::Undef(_)) => todo!(),
             _ => continue,
           }
         }
@@ -80,11 +78,7 @@ impl ConstantFolding {
     for (b, bb) in data.dfg().bbs() {
       // collect parameters that can be evaluated in the current basic block
       let mut evaluated = Vec::new();
-      'outer: for (i, param) in bb.params().iter().enumerate() {
-        // constants can not be used as operands of memory accesses
-        if matches!(data.dfg().value(*param).ty().kind(), TypeKind::Pointer(_)) {
-          continue;
-        }
+      'outer: for i in 0..bb.params().len() {
         let mut ans = None;
         // check if all corresponding arguments are constant
         for user in bb.used_by() {
@@ -100,10 +94,6 @@ impl ConstantFolding {
             ValueKind::Jump(jump) => jump.args()[i],
             _ => panic!("invalid branch/jump instruction"),
           };
-          // global variables are not constants, and not in the current DFG
-          if value.is_global() {
-            continue 'outer;
-          }
           // check if is constant
           let value = data.dfg().value(value);
           if !value.kind().is_const() || !ans.is_none_or(|v| data.dfg().data_eq(&v, value)) {
diff --git a/koopa/examples/opt/dce.rs b/koopa/examples/opt/dce.rs
index 3128470..87de617 100644
--- a/koopa/examples/opt/dce.rs
+++ b/koopa/examples/opt/dce.rs
@@ -39,10 +39,7 @@ impl DeadCodeElimination {
     while let Some(inst) = self.worklist.pop() {
       // mark all of its operand as undead
       for u in data.dfg().value(inst).kind().value_uses() {
-        if !u.is_global()
-          && !self.liveset.contains(&u)
-          && data.dfg().value(u).kind().is_local_inst()
-        {
+        if !self.liveset.contains(&u) && data.dfg().value(u).kind().is_local_inst() {
           self.liveset.insert(u);
           self.worklist.push(u);
         }
@@ -145,13 +142,9 @@ impl DeadCodeElimination {
         });
         // replace the existing instruction
         data.dfg_mut().replace_value_with(user).raw(inst);
-        // remove unused constants
-        // other values are still in the layout, or are parameters
+        // remove unused values
         removed_args.into_iter().for_each(|v| {
-          if !v.is_global()
-            && data.dfg().value(v).kind().is_const()
-            && data.dfg().value(v).used_by().is_empty()
-          {
+          if data.dfg().value(v).used_by().is_empty() {
             data.dfg_mut().remove_value(v);
           }
         });
-- 
2.43.0


From 5e2f714c30a0cbd8c544dfb0f703a8cddae1dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 30/38] fix: let one raw program builder build several programs

---
 libkoopa/src/raw/builder.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index e93dfdf..f8b3620 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -36,25 +36,20 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
-    // fill `used_by` fields of all values
-    let slices: Vec<_> = self
-      .values
-      .keys()
-      .map(|value| {
-        let v: Vec<_> = info.value_used_by[value]
-          .iter()
-          .map(|v| self.values[v].get() as *const ())
-          .collect();
-        let slice = RawSlice {
-          buffer: v.as_ptr() as *const c_void,
-          len: v.len() as u32,
-          kind: RawSliceItemKind::Value,
-        };
-        self.slices.push(v);
-        slice
-      })
-      .collect();
-    for (data, slice) in self.values.values_mut().zip(slices.into_iter()) {
+    // fill `used_by` fields of the newly built values
+    for (value, used_by) in &info.value_used_by {
+      let v: Vec<_> = used_by
+        .iter()
+        .filter_map(|v| self.values.get(v))
+        .map(|v| v.get() as *const ())
+        .collect();
+      let slice = RawSlice {
+        buffer: v.as_ptr() as *const c_void,
+        len: v.len() as u32,
+        kind: RawSliceItemKind::Value,
+      };
+      self.slices.push(v);
+      let data = self.values.get_mut(value).unwrap();
       data.get_mut().used_by = slice;
     }
     raw
-- 
2.43.0


From c54e4a6d317bb2be2b86cd68d6fab4d4511d5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 31/38] fix: keep the order of functions and blocks of raw
 programs

---
 libkoopa/src/raw/generator.rs | 73 +++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 37b6351..03dec78 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -3,10 +3,9 @@ use super::entities::*;
 use crate::errors::ErrorCode;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::ffi::CStr;
 use std::marker::PhantomData;
-use std::mem::replace;
 use std::os::raw::c_char;
 use std::ptr::null;
 
@@ -24,6 +23,7 @@ pub(crate) fn generate_program(raw: &RawProgram) -> Result<Program> {
 struct ProgramInfo {
   values: HashMap<RawValue, Value>,
   funcs: HashMap<RawFunction, FunctionInfo>,
+  pending_funcs: VecDeque<RawFunction>,
   cur_func: RawFunction,
 }
 
@@ -33,6 +33,7 @@ impl ProgramInfo {
     ProgramInfo {
       values: HashMap::new(),
       funcs: HashMap::new(),
+      pending_funcs: VecDeque::new(),
       cur_func: null(),
     }
   }
@@ -52,6 +53,7 @@ impl ProgramInfo {
 struct FunctionInfo {
   func: Function,
   bbs: HashMap<RawBasicBlock, BasicBlock>,
+  pending_bbs: VecDeque<RawBasicBlock>,
   values: HashMap<RawValue, Value>,
 }
 
@@ -61,6 +63,7 @@ impl FunctionInfo {
     Self {
       func,
       bbs: HashMap::new(),
+      pending_bbs: VecDeque::new(),
       values,
     }
   }
@@ -225,6 +228,11 @@ impl GenerateOnRaw for RawProgram<'_> {
     for func in self.funcs.funcs()? {
       func.generate(program, info)?;
     }
+    // generate function bodies after all functions are created,
+    // so that the order of functions is preserved
+    while let Some(func) = info.pending_funcs.pop_front() {
+      func.generate_bbs(program, info)?;
+    }
     Ok(())
   }
 }
@@ -282,19 +290,37 @@ impl GenerateOnRaw for RawFunction {
         .collect();
       // insert to function map
       info.funcs.insert(*self, FunctionInfo::new(func, values));
-      // generate basic blocks
-      if raw.bbs.len != 0 {
-        let last_func = replace(&mut info.cur_func, *self);
-        for bb in raw.bbs.bbs()? {
-          bb.generate(program, info)?;
-        }
-        info.cur_func = last_func;
-      }
+      info.pending_funcs.push_back(*self);
       Ok(func)
     }
   }
 }
 
+/// Trait for generating the basic blocks of raw functions.
+trait GenerateBasicBlocks {
+  /// Generates the basic blocks of a function that has been created.
+  fn generate_bbs(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<()>;
+}
+
+impl GenerateBasicBlocks for RawFunction {
+  fn generate_bbs(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
+    let raw = deref(*self)?;
+    if raw.bbs.len != 0 {
+      info.cur_func = *self;
+      for bb in raw.bbs.bbs()? {
+        bb.generate(program, info)?;
+      }
+      // generate instructions after all basic blocks are created,
+      // so that the order of basic blocks is preserved
+      while let Some(bb) = info.cur_func_info_mut().pending_bbs.pop_front() {
+        bb.generate_insts(program, info)?;
+      }
+      info.cur_func = null();
+    }
+    Ok(())
+  }
+}
+
 impl GenerateOnRaw for RawBasicBlock {
   type Entity = BasicBlock;
 
@@ -328,18 +354,31 @@ impl GenerateOnRaw for RawBasicBlock {
       raw.params.values()?.zip(params).for_each(|(rp, p)| {
         func_info.values.insert(rp, *p);
       });
-      // generate instructions
-      for inst in raw.insts.values()? {
-        let inst = inst.generate(program, info)?;
-        // insert to the current basic block
-        let layout = program.func_mut(info.cur_func_info().func).layout_mut();
-        layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
-      }
+      func_info.pending_bbs.push_back(*self);
       Ok(bb)
     }
   }
 }
 
+/// Trait for generating the instructions of raw basic blocks.
+trait GenerateInsts {
+  /// Generates the instructions of a basic block that has been created.
+  fn generate_insts(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<()>;
+}
+
+impl GenerateInsts for RawBasicBlock {
+  fn generate_insts(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<()> {
+    let bb = info.cur_func_info().bbs[self];
+    for inst in deref(*self)?.insts.values()? {
+      let inst = inst.generate(program, info)?;
+      // insert to the current basic block
+      let layout = program.func_mut(info.cur_func_info().func).layout_mut();
+      layout.bb_mut(bb).insts_mut().push_key_back(inst).unwrap();
+    }
+    Ok(())
+  }
+}
+
 impl GenerateOnRaw for RawValue {
   type Entity = Value;
 
-- 
2.43.0


From ffec3af4cd284dbde9d11ee05ead52cba844219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 32/38] fix: report type mismatches in raw programs

---
 libkoopa/src/raw/generator.rs | 114 +++++++++++++++++++++++++++++-----
 1 file changed, 97 insertions(+), 17 deletions(-)

diff --git a/libkoopa/src/raw/generator.rs b/libkoopa/src/raw/generator.rs
index 03dec78..086e9a5 100644
--- a/libkoopa/src/raw/generator.rs
+++ b/libkoopa/src/raw/generator.rs
@@ -1,6 +1,7 @@
 use super::builder::Pointer;
 use super::entities::*;
 use crate::errors::ErrorCode;
+use koopa::ir::builder::EntityInfoQuerier;
 use koopa::ir::builder_traits::*;
 use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value};
 use std::collections::{HashMap, VecDeque};
@@ -194,6 +195,39 @@ fn deref<'a, T>(ptr: *const T) -> Result<&'a T> {
   unsafe { ptr.as_ref() }.ok_or(ErrorCode::NullPointerError)
 }
 
+/// Checks if the types of the raw program match.
+/// Returns `TypeMismatch` if they do not.
+fn check_type(matched: bool) -> Result<()> {
+  matched.then_some(()).ok_or(ErrorCode::TypeMismatch)
+}
+
+/// Checks if the given elements can make up an aggregate.
+fn is_aggregate(querier: &impl EntityInfoQuerier, elems: &[Value]) -> bool {
+  elems.first().is_some_and(|first| {
+    let ty = querier.value_type(*first);
+    elems
+      .iter()
+      .all(|e| querier.is_const(*e) && querier.value_type(*e) == ty)
+  })
+}
+
+/// Checks if the given arguments match the parameters of the given
+/// basic block of the current function.
+fn check_bb_args(
+  program: &mut Program,
+  info: &ProgramInfo,
+  bb: BasicBlock,
+  args: &[Value],
+) -> Result<()> {
+  let b = builder!(program, info);
+  let params = b.bb_params(bb);
+  check_type(params.len() == args.len())?;
+  for (param, arg) in params.iter().zip(args) {
+    check_type(b.value_type(*param) == b.value_type(*arg))?;
+  }
+  Ok(())
+}
+
 /// Trait for generating on raw structures.
 trait GenerateOnRaw {
   /// The type of generated entity.
@@ -244,7 +278,11 @@ impl GenerateOnRaw for RawType {
     Ok(match deref(*self)? {
       RawTypeKind::Int32 => Type::get_i32(),
       RawTypeKind::Unit => Type::get_unit(),
-      RawTypeKind::Array(base, len) => Type::get_array(base.generate(program, info)?, *len),
+      RawTypeKind::Array(base, len) => {
+        let base = base.generate(program, info)?;
+        check_type(*len != 0)?;
+        Type::get_array(base, *len)
+      }
       RawTypeKind::Pointer(base) => Type::get_pointer(base.generate(program, info)?),
       RawTypeKind::Function(params, ret) => Type::get_function(
         params.types()?.generate(program, info)?,
@@ -268,6 +306,7 @@ impl GenerateOnRaw for RawFunction {
         TypeKind::Function(params, ret) => (params.clone(), ret.clone()),
         _ => return Err(ErrorCode::TypeMismatch),
       };
+      check_type(params.iter().all(|ty| !ty.is_unit()))?;
       // generate function definition
       let func = if raw.bbs.len == 0 {
         program.new_func_decl(name, params, ret)
@@ -337,7 +376,9 @@ impl GenerateOnRaw for RawBasicBlock {
         .map(|p| {
           let raw = deref(p)?;
           let name = raw.name.generate(program, info)?;
-          Ok((name, raw.ty.generate(program, info)?))
+          let ty = raw.ty.generate(program, info)?;
+          check_type(!ty.is_unit())?;
+          Ok((name, ty))
         })
         .collect::<Result<_>>()?;
       // generate basic block
@@ -414,11 +455,16 @@ impl GenerateOnRaw for RawValue {
         _ => {
           let ty = raw.ty.generate(program, info)?;
           match &raw.kind {
+            RawValueKind::ZeroInit | RawValueKind::Undef if ty.is_unit() => {
+              return Err(ErrorCode::TypeMismatch);
+            }
             RawValueKind::ZeroInit => build_value!(program, info, b, { b.zero_init(ty) }),
             RawValueKind::Undef => build_value!(program, info, b, { b.undef(ty) }),
             RawValueKind::Alloc => match ty.kind() {
-              TypeKind::Pointer(base) => builder!(program, info).alloc(base.clone()),
-              _ => unreachable!(),
+              TypeKind::Pointer(base) if !base.is_unit() => {
+                builder!(program, info).alloc(base.clone())
+              }
+              _ => return Err(ErrorCode::TypeMismatch),
             },
             _ => unreachable!(),
           }
@@ -452,8 +498,11 @@ impl GenerateOnRaw for RawAggregate {
   type Entity = Value;
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
-    let elems = self.elems.values()?.generate(program, info)?;
-    Ok(build_value!(program, info, b, { b.aggregate(elems) }))
+    let elems: Vec<_> = self.elems.values()?.generate(program, info)?;
+    build_value!(program, info, b, {
+      check_type(is_aggregate(&b, &elems))?;
+      Ok(b.aggregate(elems))
+    })
   }
 }
 
@@ -471,7 +520,9 @@ impl GenerateOnRaw for RawLoad {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let src = self.src.generate(program, info)?;
-    Ok(builder!(program, info).load(src))
+    let b = builder!(program, info);
+    check_type(matches!(b.value_type(src).kind(), TypeKind::Pointer(_)))?;
+    Ok(b.load(src))
   }
 }
 
@@ -481,7 +532,9 @@ impl GenerateOnRaw for RawStore {
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let value = self.value.generate(program, info)?;
     let dest = self.dest.generate(program, info)?;
-    Ok(builder!(program, info).store(value, dest))
+    let b = builder!(program, info);
+    check_type(Type::get_pointer(b.value_type(value)) == b.value_type(dest))?;
+    Ok(b.store(value, dest))
   }
 }
 
@@ -491,7 +544,10 @@ impl GenerateOnRaw for RawGetPtr {
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let src = self.src.generate(program, info)?;
     let index = self.index.generate(program, info)?;
-    Ok(builder!(program, info).get_ptr(src, index))
+    let b = builder!(program, info);
+    check_type(matches!(b.value_type(src).kind(), TypeKind::Pointer(_)))?;
+    check_type(b.value_type(index).is_i32())?;
+    Ok(b.get_ptr(src, index))
   }
 }
 
@@ -501,7 +557,13 @@ impl GenerateOnRaw for RawGetElemPtr {
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let src = self.src.generate(program, info)?;
     let index = self.index.generate(program, info)?;
-    Ok(builder!(program, info).get_elem_ptr(src, index))
+    let b = builder!(program, info);
+    check_type(match b.value_type(src).kind() {
+      TypeKind::Pointer(base) => matches!(base.kind(), TypeKind::Array(..)),
+      _ => false,
+    })?;
+    check_type(b.value_type(index).is_i32())?;
+    Ok(b.get_elem_ptr(src, index))
   }
 }
 
@@ -530,7 +592,9 @@ impl GenerateOnRaw for RawBinary {
     };
     let lhs = self.lhs.generate(program, info)?;
     let rhs = self.rhs.generate(program, info)?;
-    Ok(builder!(program, info).binary(op, lhs, rhs))
+    let b = builder!(program, info);
+    check_type(b.value_type(lhs).is_i32() && b.value_type(rhs).is_i32())?;
+    Ok(b.binary(op, lhs, rhs))
   }
 }
 
@@ -541,8 +605,12 @@ impl GenerateOnRaw for RawBranch {
     let cond = self.cond.generate(program, info)?;
     let true_bb = self.true_bb.generate(program, info)?;
     let false_bb = self.false_bb.generate(program, info)?;
-    let true_args = self.true_args.values()?.generate(program, info)?;
-    let false_args = self.false_args.values()?.generate(program, info)?;
+    let true_args: Vec<_> = self.true_args.values()?.generate(program, info)?;
+    let false_args: Vec<_> = self.false_args.values()?.generate(program, info)?;
+    check_type(builder!(program, info).value_type(cond).is_i32())?;
+    check_type(true_bb != false_bb || (true_args.is_empty() && false_args.is_empty()))?;
+    check_bb_args(program, info, true_bb, &true_args)?;
+    check_bb_args(program, info, false_bb, &false_args)?;
     Ok(builder!(program, info).branch_with_args(cond, true_bb, false_bb, true_args, false_args))
   }
 }
@@ -552,7 +620,8 @@ impl GenerateOnRaw for RawJump {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let target = self.target.generate(program, info)?;
-    let args = self.args.values()?.generate(program, info)?;
+    let args: Vec<_> = self.args.values()?.generate(program, info)?;
+    check_bb_args(program, info, target, &args)?;
     Ok(builder!(program, info).jump_with_args(target, args))
   }
 }
@@ -562,8 +631,17 @@ impl GenerateOnRaw for RawCall {
 
   fn generate(&self, program: &mut Program, info: &mut ProgramInfo) -> Result<Self::Entity> {
     let callee = self.callee.generate(program, info)?;
-    let args = self.args.values()?.generate(program, info)?;
-    Ok(builder!(program, info).call(callee, args))
+    let args: Vec<_> = self.args.values()?.generate(program, info)?;
+    let b = builder!(program, info);
+    if let TypeKind::Function(params, _) = b.func_type(callee).kind() {
+      if params.len() != args.len() {
+        return Err(ErrorCode::FuncParamNumMismatch);
+      }
+      for (param, arg) in params.iter().zip(&args) {
+        check_type(*param == b.value_type(*arg))?;
+      }
+    }
+    Ok(b.call(callee, args))
   }
 }
 
@@ -574,7 +652,9 @@ impl GenerateOnRaw for RawReturn {
     let value = (!self.value.is_null())
       .then(|| self.value.generate(program, info))
       .transpose()?;
-    Ok(builder!(program, info).ret(value))
+    let b = builder!(program, info);
+    check_type(value.is_none_or(|v| !b.value_type(v).is_unit()))?;
+    Ok(b.ret(value))
   }
 }
 
-- 
2.43.0


From 830f0efd6ca0ac33beab5ac688e83155d1614e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 33/38] fix: look symbols up in a loop, so that long chains of
 blocks do not overflow the stack

---
 koopa/src/front/builder.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/koopa/src/front/builder.rs b/koopa/src/front/builder.rs
index 03657ab..74a6072 100644
--- a/koopa/src/front/builder.rs
+++ b/koopa/src/front/builder.rs
@@ -453,35 +453,31 @@ impl Builder {
   fn generate_symbol(&self, span: &Span, bb_name: &str, symbol: &str) -> ValueResult {
     // try to find symbol in global scope
     // if not found, find symbol in local definitions
-    let mut visited_bbs = HashSet::new();
     self
       .global_vars
       .get(symbol)
       .copied()
-      .or_else(|| self.generate_local_symbol(&mut visited_bbs, bb_name, symbol))
+      .or_else(|| self.generate_local_symbol(bb_name, symbol))
       .ok_or_else(|| return_error!(span, "symbol '{}' not found", symbol))
   }
 
   /// Generates the symbol locally by the symbol name.
-  fn generate_local_symbol<'a>(
-    &'a self,
-    visited_bbs: &mut HashSet<&'a str>,
-    bb_name: &'a str,
-    symbol: &str,
-  ) -> Option<Value> {
-    if visited_bbs.insert(bb_name) {
-      // find symbol in local scope of the current basic block
-      // if not found, try to find symbol in all predecessors
-      let bb_info = &self.local_bbs[bb_name];
-      bb_info.local_defs.get(symbol).copied().or_else(|| {
-        bb_info
-          .preds
-          .iter()
-          .find_map(|pred| self.generate_local_symbol(visited_bbs, pred, symbol))
-      })
-    } else {
-      None
+  fn generate_local_symbol(&self, bb_name: &str, symbol: &str) -> Option<Value> {
+    // visit blocks in a loop, because the chain of predecessors can be very long
+    let mut visited_bbs = HashSet::new();
+    let mut bbs = vec![bb_name];
+    while let Some(bb_name) = bbs.pop() {
+      if visited_bbs.insert(bb_name) {
+        // find symbol in local scope of the current basic block
+        // if not found, try to find symbol in all predecessors
+        let bb_info = &self.local_bbs[bb_name];
+        if let Some(value) = bb_info.local_defs.get(symbol) {
+          return Some(*value);
+        }
+        bbs.extend(bb_info.preds.iter().rev().map(String::as_str));
+      }
     }
+    None
   }
 
   /// Generates the basic block handle by the given basic block name.
-- 
2.43.0


From 5b79d4a9386c7499d263437f61b3cc78c3ce1650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 34/38] fix: build raw programs in a loop, so that long chains
 of references do not overflow the stack

---
 libkoopa/src/raw/builder.rs | 115 +++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 35 deletions(-)

diff --git a/libkoopa/src/raw/builder.rs b/libkoopa/src/raw/builder.rs
index f8b3620..4ef1276 100644
--- a/libkoopa/src/raw/builder.rs
+++ b/libkoopa/src/raw/builder.rs
@@ -36,6 +36,16 @@ impl RawProgramBuilder {
       funcs: iter_into_raw(program.func_layout().iter(), self, &mut info),
       rpb: PhantomData,
     };
+    // build the data of all referenced entities in a loop, because
+    // the chain of references between them can be very long
+    while let Some((func, entity)) = info.pending.pop() {
+      info.cur_func = func;
+      match entity {
+        Entity::Function(f) => f.build_data(self, &mut info),
+        Entity::BasicBlock(b) => b.build_data(self, &mut info),
+        Entity::Value(v) => v.build_data(self, &mut info),
+      }
+    }
     // fill `used_by` fields of the newly built values
     for (value, used_by) in &info.value_used_by {
       let v: Vec<_> = used_by
@@ -56,11 +66,21 @@ impl RawProgramBuilder {
   }
 }
 
+/// Entity that can be referenced by other entities.
+enum Entity {
+  Function(Function),
+  BasicBlock(BasicBlock),
+  Value(Value),
+}
+
 /// Some necessary information required by the [`BuildRaw`] trait.
 struct ProgramInfo<'a> {
   program: &'a Program,
   cur_func: Option<&'a FunctionData>,
   cur_bb: Option<BasicBlock>,
+  /// Referenced entities whose data has not been built yet,
+  /// and the functions they are in.
+  pending: Vec<(Option<&'a FunctionData>, Entity)>,
   value_used_by: HashMap<Value, Vec<Value>>,
 }
 
@@ -70,9 +90,15 @@ impl<'a> ProgramInfo<'a> {
       program,
       cur_func: None,
       cur_bb: None,
+      pending: Vec::new(),
       value_used_by: HashMap::new(),
     }
   }
+
+  /// Marks the given entity as referenced by the current function.
+  fn add_pending(&mut self, entity: Entity) {
+    self.pending.push((self.cur_func, entity));
+  }
 }
 
 impl Default for RawSlice {
@@ -118,6 +144,12 @@ trait BuildRaw {
   fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> Self::Raw;
 }
 
+/// Trait for building the data of entities that have been referenced.
+trait BuildData {
+  /// Builds the data of the current entity.
+  fn build_data(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo);
+}
+
 impl BuildRaw for str {
   type Raw = *const c_char;
 
@@ -195,17 +227,21 @@ impl BuildRaw for Function {
       f.as_ref()
     } else {
       builder.funcs.insert(*self, unsafe { new_uninit_box() });
-      let func = info.program.func(*self);
-      let last_func = info.cur_func.replace(func);
-      let f = func.build(builder, info);
-      info.cur_func = last_func;
-      let fb = builder.funcs.get_mut(self).unwrap();
-      **fb = f;
-      fb.as_ref()
+      info.add_pending(Entity::Function(*self));
+      builder.funcs.get(self).unwrap().as_ref()
     }
   }
 }
 
+impl BuildData for Function {
+  fn build_data(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) {
+    let func = info.program.func(*self);
+    info.cur_func = Some(func);
+    let f = func.build(builder, info);
+    **builder.funcs.get_mut(self).unwrap() = f;
+  }
+}
+
 impl BuildRaw for FunctionData {
   type Raw = RawFunctionData;
 
@@ -229,16 +265,20 @@ impl BuildRaw for BasicBlock {
       b.as_ref()
     } else {
       builder.bbs.insert(*self, unsafe { new_uninit_box() });
-      let last_bb = info.cur_bb.replace(*self);
-      let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
-      info.cur_bb = last_bb;
-      let bb = builder.bbs.get_mut(self).unwrap();
-      **bb = b;
-      bb.as_ref()
+      info.add_pending(Entity::BasicBlock(*self));
+      builder.bbs.get(self).unwrap().as_ref()
     }
   }
 }
 
+impl BuildData for BasicBlock {
+  fn build_data(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) {
+    info.cur_bb = Some(*self);
+    let b = info.cur_func.unwrap().dfg().bb(*self).build(builder, info);
+    **builder.bbs.get_mut(self).unwrap() = b;
+  }
+}
+
 impl BuildRaw for BasicBlockData {
   type Raw = RawBasicBlockData;
 
@@ -265,32 +305,37 @@ impl BuildRaw for Value {
       v.get() as _
     } else {
       builder.values.insert(*self, unsafe { new_uninit_box() });
-      let (v, used_by) = if self.is_global() {
-        // get global value
-        let value = info.program.borrow_value(*self);
-        // get `used_by` list
-        let used_by = value.used_by().iter().copied().collect();
-        // build value
-        (value.build(builder, info), used_by)
-      } else {
-        // get local value
-        let func = info.cur_func.unwrap();
-        let value = func.dfg().value(*self);
-        // get `used_by` list
-        let used_by = value.used_by().iter().copied().collect();
-        // build value
-        (value.build(builder, info), used_by)
-      };
-      // insert `used_by` list to info
-      info.value_used_by.insert(*self, used_by);
-      // store raw value data
-      let vb = builder.values.get_mut(self).unwrap();
-      *vb.get_mut() = v;
-      vb.get() as *const RawValueData
+      info.add_pending(Entity::Value(*self));
+      builder.values.get(self).unwrap().get() as _
     }
   }
 }
 
+impl BuildData for Value {
+  fn build_data(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) {
+    let (v, used_by) = if self.is_global() {
+      // get global value
+      let value = info.program.borrow_value(*self);
+      // get `used_by` list
+      let used_by = value.used_by().iter().copied().collect();
+      // build value
+      (value.build(builder, info), used_by)
+    } else {
+      // get local value
+      let func = info.cur_func.unwrap();
+      let value = func.dfg().value(*self);
+      // get `used_by` list
+      let used_by = value.used_by().iter().copied().collect();
+      // build value
+      (value.build(builder, info), used_by)
+    };
+    // insert `used_by` list to info
+    info.value_used_by.insert(*self, used_by);
+    // store raw value data
+    *builder.values.get_mut(self).unwrap().get_mut() = v;
+  }
+}
+
 impl BuildRaw for ValueData {
   type Raw = RawValueData;
 
-- 
2.43.0


From 132d5bdb73c9223081f713c6111490861984caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 35/38] fix: do not cut characters in half when truncating
 generated names

---
 koopa/src/back/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koopa/src/back/generator.rs b/koopa/src/back/generator.rs
index bae4027..2dccef5 100644
--- a/koopa/src/back/generator.rs
+++ b/koopa/src/back/generator.rs
@@ -244,7 +244,12 @@ impl Prefix {
           format!("{}{}", temp, &name[1..])
         };
         if let Some(max_len) = max_len {
-          name.truncate(max_len.get());
+          // do not cut a character in half
+          let mut len = max_len.get().min(name.len());
+          while !name.is_char_boundary(len) {
+            len -= 1;
+          }
+          name.truncate(len);
         }
         name
       }
-- 
2.43.0


From dbaaeb52188e3bc0545829759b7d333fa396867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 36/38] fix: end the row of dots in multi-line excerpts of
 reports

---
 koopa/src/front/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index e7b8006..54caadf 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -396,7 +396,7 @@ impl Span {
         eprint!("{} ", format!("{:w$}", line_num + i + 1, w = width).blue());
         eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
       }
-      eprint!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
+      eprintln!("{:.>w$} {} {}", "", "|".blue(), "|".color(color), w = width);
       let line = get_line_str!(lines.nth(mid_lines - 3));
       eprint!("{} ", format!("{:w$}", self.end.line - 1, w = width).blue());
       eprintln!("{} {} {}", "|".blue(), "|".color(color), line);
-- 
2.43.0


From 26094c629f6ac1944d7ecca8a8f7947530c2ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 37/38] fix: return the first error of a text if the front-end
 logger is disabled

---
 koopa/src/front/driver.rs |  2 +-
 koopa/src/front/span.rs   | 44 ++++++++++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/koopa/src/front/driver.rs b/koopa/src/front/driver.rs
index baec3d4..a940ac4 100644
--- a/koopa/src/front/driver.rs
+++ b/koopa/src/front/driver.rs
@@ -60,7 +60,7 @@ impl<T: Read> Driver<T> {
     }
     // exit if any errors are generated
     if Span::error_num() != 0 {
-      Error::default().into()
+      Span::first_error().into()
     } else {
       Ok(self.builder.program())
     }
diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index 54caadf..c89ee99 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -117,6 +117,8 @@ impl Span {
         file: FileType::Buffer,
         err_num: 0,
         warn_num: 0,
+        #[cfg(feature = "no-front-logger")]
+        first_err: None,
       })
     };
   }
@@ -133,6 +135,8 @@ impl Span {
         file,
         err_num: 0,
         warn_num: 0,
+        #[cfg(feature = "no-front-logger")]
+        first_err: None,
       }
     });
   }
@@ -140,9 +144,7 @@ impl Span {
   /// Logs normal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_error(args: Arguments) -> Error {
-    // update error number
-    Self::STATE.with(|gs| gs.borrow_mut().err_num += 1);
-    Error::Normal(format!("{}", args))
+    Error::Normal(Self::record_error(format!("{}", args)))
   }
 
   /// Logs normal error with no span provided.
@@ -160,9 +162,7 @@ impl Span {
   /// Logs fatal error with no span provided.
   #[cfg(feature = "no-front-logger")]
   pub fn log_raw_fatal_error(args: Arguments) -> Error {
-    // update error number
-    Self::STATE.with(|gs| gs.borrow_mut().err_num += 1);
-    Error::Fatal(format!("{}", args))
+    Error::Fatal(Self::record_error(format!("{}", args)))
   }
 
   /// Logs fatal error with no span provided.
@@ -234,6 +234,18 @@ impl Span {
     Self::STATE.with(|gs| gs.borrow().err_num)
   }
 
+  /// Returns the first error since the last reset.
+  #[cfg(feature = "no-front-logger")]
+  pub fn first_error() -> Error {
+    Self::STATE.with(|gs| Error::Normal(gs.borrow().first_err.clone().unwrap_or_default()))
+  }
+
+  /// Returns the first error since the last reset.
+  #[cfg(not(feature = "no-front-logger"))]
+  pub fn first_error() -> Error {
+    Error::Normal
+  }
+
   /// Gets the number of warnings.
   pub fn warning_num() -> usize {
     Self::STATE.with(|gs| gs.borrow().warn_num)
@@ -242,8 +254,7 @@ impl Span {
   /// Logs normal error message.
   #[cfg(feature = "no-front-logger")]
   pub fn log_error(&self, args: Arguments) -> Error {
-    Self::log_raw_error(args);
-    Error::Normal(self.error_message(args))
+    Error::Normal(Self::record_error(self.error_message(args)))
   }
 
   /// Logs normal error message.
@@ -257,8 +268,7 @@ impl Span {
   /// Logs fatal error message.
   #[cfg(feature = "no-front-logger")]
   pub fn log_fatal_error(&self, args: Arguments) -> Error {
-    Self::log_raw_error(args);
-    Error::Fatal(self.error_message(args))
+    Error::Fatal(Self::record_error(self.error_message(args)))
   }
 
   /// Logs fatal error message.
@@ -315,6 +325,17 @@ impl Span {
     self.end.line == span.start.line
   }
 
+  /// Counts an error, and keeps its message if it is the first one.
+  #[cfg(feature = "no-front-logger")]
+  fn record_error(msg: String) -> String {
+    Self::STATE.with(|gs| {
+      let mut gs = gs.borrow_mut();
+      gs.err_num += 1;
+      gs.first_err.get_or_insert_with(|| msg.clone());
+    });
+    msg
+  }
+
   /// Returns the error message.
   #[cfg(feature = "no-front-logger")]
   fn error_message(&self, args: Arguments) -> String {
@@ -466,6 +487,9 @@ struct GlobalState {
   file: FileType,
   err_num: usize,
   warn_num: usize,
+  /// Message of the first error.
+  #[cfg(feature = "no-front-logger")]
+  first_err: Option<String>,
 }
 
 /// Type of input file.
-- 
2.43.0


From 78a02a1b542ed934ed6f30aa22963b3ee4e7de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 38/38] fix: mark the right column in lines with characters of
 several bytes

---
 koopa/src/front/span.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/koopa/src/front/span.rs b/koopa/src/front/span.rs
index c89ee99..4d0bdba 100644
--- a/koopa/src/front/span.rs
+++ b/koopa/src/front/span.rs
@@ -85,23 +85,20 @@ macro_rules! get_line_str {
   };
   ($line:expr, $col:expr) => {{
     let line = $line.and_then(|r| r.ok()).unwrap_or_default();
-    let col = $col as usize;
-    let tabs = line.chars().take(col).filter(|c| *c == '\t').count();
+    let col = Span::shown_col(&line, $col as usize);
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col + tabs * (Span::TAB_WIDTH - 1),
+      col,
     )
   }};
   ($line:expr, $col1:expr, $col2:expr) => {{
     let line = $line.and_then(|r| r.ok()).unwrap_or_default();
-    let col1 = $col1 as usize;
-    let col2 = $col2 as usize;
-    let tabs1 = line.chars().take(col1).filter(|c| *c == '\t').count();
-    let tabs2 = line.chars().take(col2).filter(|c| *c == '\t').count();
+    let col1 = Span::shown_col(&line, $col1 as usize);
+    let col2 = Span::shown_col(&line, $col2 as usize);
     (
       line.replace('\t', &format!("{:w$}", "", w = Span::TAB_WIDTH)),
-      col1 + tabs1 * (Span::TAB_WIDTH - 1),
-      col2 + tabs2 * (Span::TAB_WIDTH - 1),
+      col1,
+      col2,
     )
   }};
 }
@@ -342,6 +339,18 @@ impl Span {
     Self::STATE.with(|gs| format!("{}:{}: {}", gs.borrow().file, self.start, args))
   }
 
+  /// Returns the column where the given column of the line is shown.
+  ///
+  /// Columns are counted in bytes, but the line is shown in characters.
+  #[cfg(not(feature = "no-front-logger"))]
+  fn shown_col(line: &str, col: usize) -> usize {
+    let bytes = line.as_bytes();
+    let read = &bytes[..col.min(bytes.len())];
+    let conts = read.iter().filter(|b| **b & 0xc0 == 0x80).count();
+    let tabs = read.iter().filter(|b| **b == b'\t').count();
+    col - conts + tabs * (Self::TAB_WIDTH - 1)
+  }
+
   /// Prints the file information.
   #[cfg(not(feature = "no-front-logger"))]
   fn print_file_info(&self, file: &FileType, color: Color) {
-- 
2.43.0

