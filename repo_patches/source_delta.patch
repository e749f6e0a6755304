From e2f4a4a4fe09d9f8c03661b267bdd43976ad7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 01/19] fix: print the modulo operator as % in emitted IR

---
 ticc-core/src/pretty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index 217f59f..b57b6ca 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -161,7 +161,7 @@ impl Format<'_> {
                     ir::Op::Subtract => "-",
                     ir::Op::Multiply => "*",
                     ir::Op::Divide => "/",
-                    ir::Op::Modulo => "*",
+                    ir::Op::Modulo => "%",
                     ir::Op::Less => "<",
                     ir::Op::LessEq => "<=",
                     ir::Op::Greater => ">",
-- 
2.43.0


From 82d3bf9f6372ba434bac28b97105d4f14b08227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 02/19] fix: make room on the bytecode heap before allocating
 an object

Collections only ran after an allocation, so an object bigger than the
space left after the previous one panicked instead of growing the heap.
---
 ticc-eval/src/bytecode.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..567d358 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,6 +260,8 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    // must happen while the fields are still rooted by the stack
+                    self.reserve(fields as usize * 8);
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -327,6 +329,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
+                    self.reserve(concat.len());
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -335,6 +338,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
+                    self.reserve(1);
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -344,6 +348,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
+                    self.reserve(s.len());
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -360,6 +365,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
+                    self.reserve(bytes.len());
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -387,6 +393,20 @@ impl Runtime {
             .chain(std::iter::once(&mut self.bools.f)),
         );
     }
+
+    /// Makes sure that an object with given size can be allocated.
+    fn reserve(&mut self, bytes: usize) {
+        // object header and padding need space too
+        let need_bytes = bytes + 32;
+        if self.heap.free_space() < need_bytes {
+            self.heap.collect_and_grow(self.stack.ptrs()
+                .chain(self.consts.iter_mut())
+                .chain(std::iter::once(&mut self.bools.t))
+                .chain(std::iter::once(&mut self.bools.f)),
+                need_bytes as u32,
+            );
+        }
+    }
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 4a2a31df517ef09d0b3dc5458282965b1904affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 03/19] fix: clean ill-kinded types from constructor signatures
 too

A constructor whose field misapplied a type was reported, but using that
constructor as a value then panicked in the type checker.
---
 ticc/src/compiler/kindck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..8b57953 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -9,12 +9,13 @@ pub(crate) fn kind_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Value { ty, .. } => {
                 check_ty(defs, ty)
             }
-            ir::DefKind::Ctor { fields, .. } => {
+            ir::DefKind::Ctor { fields, fn_ty, .. } => {
                 for field in fields {
                     if let ir::Field::Type(ty) = field {
                         check_ty(defs, ty);
                     }
                 }
+                check_ty(defs, fn_ty);
             }
             ir::DefKind::Type { .. } |
             ir::DefKind::Module { .. } => {}
-- 
2.43.0


From 1956643e0bb466d3edb1c901583eaec19d7e5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 04/19] fix: run the main function that is actually exported

The scan went on past the last exported main, so a shadowed earlier
definition was run (or rejected) instead.
---
 ticc/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticc/src/interpreter.rs b/ticc/src/interpreter.rs
index 5952639..241780a 100644
--- a/ticc/src/interpreter.rs
+++ b/ticc/src/interpreter.rs
@@ -63,6 +63,7 @@ fn do_eval_main<F>(compilation: &mut CompilationUnit, runner: ExecFn<F>, input:
                 },
                 _ => return Err(InterpretError::InvalidMain),
             }
+            break;
         }
     }
     let main = match main {
-- 
2.43.0


From 574e541da7615394315d12ddb4e13283d42d30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 05/19] fix: offer types when completing a namespaced type name

---
 ticc/src/compiler/resolve.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From c22c2bbf1cf1f975c1b3fe6460d5d5511ce495b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 06/19] fix: do not treat an unnamed import as a definition in
 navigation

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..5dcfe9c 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From 46d96ea5b15fbbc0c4374c8eba0eb8edf26f4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 07/19] fix: type check against definitions with cleaned types

---
 ticc/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..da58f7e 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -125,6 +125,8 @@ impl CompilationUnit {
             defs.add_item(&item);
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
+            // replace definitions with the ones that had their types cleaned
+            defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
             compiler::matchck::check_matches(&mut item, &defs);
             self.items.push(item);
-- 
2.43.0


From d108a73fa5790e794a64388bec0065e3b9bb9d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 08/19] fix: identify imported files by canonical path

An import cycle that used different spellings of a path recursed until
the path got too long for the OS, and a file reached by two spellings
was compiled twice with incompatible types.
---
 ticc/src/main.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index f23bb65..275a8fc 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -226,6 +226,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
+            key: file_key(&path),
             path,
             root: resolver.clone(),
             parent: None,
@@ -234,8 +235,15 @@ impl FileModuleResolver {
     }
 }
 
+/// One file might be reachable by many different paths, so paths cannot be
+/// directly used to check if files are the same.
+fn file_key(path: &Path) -> PathBuf {
+    std::fs::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 struct ChildResolver {
     path: PathBuf,
+    key: PathBuf,
     root: Arc<FileModuleResolver>,
     parent: Option<Arc<ChildResolver>>,
 }
@@ -254,9 +262,10 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
+        let key = file_key(&path);
         let mut resolver = &*self;
         loop {
-            if resolver.path == path {
+            if resolver.key == key {
                 return Err(ticc::ImportError::ImportCycle);
             }
             match &resolver.parent {
@@ -267,7 +276,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let root = self.root.props.lock().unwrap();
-            if let Some(unit) = root.cache.get(&path).cloned() {
+            if let Some(unit) = root.cache.get(&key).cloned() {
                 return Ok(unit);
             }
         }
@@ -279,6 +288,7 @@ impl ModuleResolver for ChildResolver {
 
         let child_resolver = Arc::new(ChildResolver {
             path: path.clone(),
+            key: key.clone(),
             root: self.root.clone(),
             parent: Some(self.clone()),
         });
@@ -293,7 +303,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let mut root = self.root.props.lock().unwrap();
-            root.cache.insert(path.clone(), unit.clone());
+            root.cache.insert(key, unit.clone());
         }
 
         if diagnostics.iter().any(|d| d.severity == Severity::Error) {
-- 
2.43.0


From 58c1200e9f46d4bbfdc9e01ae984a1dbf58e52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 09/19] fix: report an unreadable module the same way on every
 import

---
 ticc-lsp/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..c624f99 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -409,9 +409,11 @@ impl ModuleResolver for CompilationModuleResolver {
 
         match self.dependencies.lock().unwrap().entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
-                None => {
+                None if source.content.is_ok() => {
                     return Err(ticc::ImportError::ImportCycle);
                 }
+                // file could not be read, so it isn't being compiled either
+                None => {}
                 Some(unit) => {
                     return Ok(unit.clone())
                 }
-- 
2.43.0


From 20f76893cd6cf6af182d8fe99d496d50952be07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 10/19] fix: answer requests about documents that are not open

The language server panicked on them.
---
 ticc-lsp/src/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..3381b01 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
-- 
2.43.0


From 5bf8c7a7b58c3d094f92374bf98adcc83efc26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 11/19] fix: apply the last of the received document changes

The language server applied only the first one, and panicked when there
were none.
---
 ticc-lsp/src/handlers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 3381b01..d42904c 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -95,8 +95,11 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
-    on_file_update(server, key);
+    // changes are full documents, so only the last one matters
+    if let Some(change) = params.content_changes.last() {
+        server.files.set(key.clone(), &change.text);
+        on_file_update(server, key);
+    }
 }
 
 fn on_close(
-- 
2.43.0


From 4ea97bf23c9bc3f93737b1ac2006e79829baa3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 12/19] fix: reply to unsupported requests with an error

---
 ticc-lsp/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index c624f99..975741b 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -167,6 +167,12 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        let response = lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("method `{}` is not supported", request.method),
+        );
+        server.sender.send(Message::Response(response)).unwrap();
         Ok(())
     }
 
-- 
2.43.0


From 727c7daf8a9cfcb5f7e14070bef2cdfeb1f114ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 13/19] fix: do not panic on types with missing names

---
 ticc/src/compiler.rs         | 6 ++++++
 ticc/src/compiler/kindck.rs  | 5 ++++-
 ticc/src/compiler/matchck.rs | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ticc/src/compiler.rs b/ticc/src/compiler.rs
index 6b868e5..e67cd73 100644
--- a/ticc/src/compiler.rs
+++ b/ticc/src/compiler.rs
@@ -124,6 +124,12 @@ impl DefSet {
         }
     }
 
+    /// Type items with missing names do not have defs, but still have
+    /// constructors that refer to the type.
+    pub(crate) fn lookup_type(&self, symbol: ir::Symbol) -> Option<&ir::Def> {
+        self.defs.get(&symbol)
+    }
+
     pub(crate) fn lookup(&self, symbol: ir::Symbol) -> &ir::Def {
         &self.defs[&symbol]
     }
diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 8b57953..a8cf505 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -38,7 +38,10 @@ fn check_ty(defs: &DefSet, ty: &mut ir::Type) {
             for t in ts.iter_mut() {
                 check_ty(defs, t);
             }
-            let def = defs.lookup(*s);
+            let Some(def) = defs.lookup_type(*s) else {
+                *ty = ir::Type::Error;
+                return;
+            };
             match def.kind {
                 ir::DefKind::Type { param_count, .. } => {
                     if ts.len() != param_count {
diff --git a/ticc/src/compiler/matchck.rs b/ticc/src/compiler/matchck.rs
index c2fbb4b..7594940 100644
--- a/ticc/src/compiler/matchck.rs
+++ b/ticc/src/compiler/matchck.rs
@@ -56,7 +56,7 @@ fn check(
             return None;
         }
     };
-    let def = defs.lookup(ty_symbol);
+    let def = defs.lookup_type(ty_symbol)?;
     let all_ctors = match &def.kind {
         ir::DefKind::Type { ctors: ir::Ctors::List(ctors), .. } => ctors.clone(),
         ir::DefKind::Type { ctors: ir::Ctors::Opaque, .. } => {
-- 
2.43.0


From 16c675d8d0363042327887ccdf705f6ad95d24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 14/19] fix: infer types of top-level values that do not
 declare one

Such a value was usable at any type, so ill-typed programs were accepted
and then failed ir verification.
---
 ticc/src/compiler/typeck.rs | 31 +++++++++++++++++++++++++++++--
 ticc/src/lib.rs             |  2 ++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index d205950..e6bffd9 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -47,8 +47,9 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             let expected_ty = if let Some(name) = i.name() {
                 let span = name.token().span();
                 let def = item.defs.iter().find(|d| d.span == span).unwrap();
-                match &def.kind {
-                    ir::DefKind::Value { type_vars: _, ty } => {
+                match (&def.kind, checker.symbol_types.get(&def.symbol)) {
+                    (_, Some(&NameTy::Infer(inf))) => inf,
+                    (ir::DefKind::Value { type_vars: _, ty }, _) => {
                         checker.unifier.instantiate(ty, &[])
                     }
                     _ => unreachable!(),
@@ -73,11 +74,37 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         if let ir::DefKind::Value { ty, .. } = &mut def.kind {
             if let Some(&NameTy::Infer(inf)) = checker.symbol_types.get(&def.symbol) {
                 *ty = checker.unifier.to_ir(inf);
+                if def.vis != ir::Visibility::Local {
+                    // types are not generalized, so other items must not be
+                    // able to give different types to parts that are left
+                    default_unsolved(ty);
+                }
             }
         }
     }
 }
 
+/// Codegen picks int too for the types that were not determined.
+fn default_unsolved(ty: &mut ir::Type) {
+    match ty {
+        ir::Type::Infer => *ty = ir::Type::Int,
+        ir::Type::Int |
+        ir::Type::Bool |
+        ir::Type::String |
+        ir::Type::Error => {}
+        ir::Type::Named(_, ts) => {
+            for t in ts {
+                default_unsolved(t);
+            }
+        }
+        ir::Type::Fn(a, b) |
+        ir::Type::Folded(a, b) => {
+            default_unsolved(a);
+            default_unsolved(b);
+        }
+    }
+}
+
 #[derive(Debug)]
 enum NameTy<'a> {
     Infer(TyIdx),
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index da58f7e..e4cfc35 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -128,6 +128,8 @@ impl CompilationUnit {
             // replace definitions with the ones that had their types cleaned
             defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
+            // and with the ones that had their types inferred
+            defs.add_item(&item);
             compiler::matchck::check_matches(&mut item, &defs);
             self.items.push(item);
             scope.add_item(&self.src, self.items.last().unwrap(), false);
-- 
2.43.0


From 373892f0fdab83f6aaea16efb29f2bb55b8e46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 15/19] fix: complete the constructors of a module where a
 value is expected

---
 ticc/src/api/completion.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..9648d2f 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use ticc_syntax::Pos;
-use crate::{CompilationUnit, CompleteUnit, RawDiagnostic};
+use crate::{CompilationUnit, CompleteUnit, Namespace, RawDiagnostic};
 use crate::compiler::{Scope, ir, resolve, syntax::{AstNode, node}};
 
 pub struct Completion {
@@ -78,14 +78,14 @@ fn add_keys_from<T>(completions: &mut Vec<Completion>, map: &HashMap<&str, T>) {
 }
 
 fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage: resolve::NameUsage) {
-    for (name, def) in &unit.props.exports {
-        let kind = match def.kind {
-            ir::DefKind::Value {.. } => resolve::NameUsage::Value,
-            ir::DefKind::Ctor { .. } => resolve::NameUsage::Ctor,
-            ir::DefKind::Type { .. } => resolve::NameUsage::Type,
-            ir::DefKind::Module { .. } => resolve::NameUsage::Module,
-        };
-        if kind == for_usage {
+    let namespace = match for_usage {
+        resolve::NameUsage::Type => Namespace::Type,
+        resolve::NameUsage::Value => Namespace::Value,
+        resolve::NameUsage::Ctor => Namespace::Pattern,
+        resolve::NameUsage::Module => Namespace::Module,
+    };
+    for name in unit.props.exports.keys() {
+        if name.namespace == namespace {
             completions.push(Completion { name: name.name.clone() })
         }
     }
-- 
2.43.0


From 15e90b2e3c9e0091a6c74f6465528fda24f6939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 16/19] fix: a constructor uses its own type, not the first one
 of the item

---
 ticc/src/lint/unused.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 3a50eac..fc1d193 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -10,10 +10,6 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
         for r in &item.refs {
             used.insert(r.symbol);
         }
-        let type_def = item.defs
-            .iter()
-            .find(|d| matches!(d.kind, DefKind::Type { is_var: false, ..}))
-            .map(|d| d.symbol);
         for d in &item.defs {
             if let DefKind::Type { is_var: true, .. } = d.kind {
                 used.insert(d.symbol);
@@ -21,10 +17,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if d.vis == Visibility::Export {
                 used.insert(d.symbol);
             }
-            if let DefKind::Ctor { .. } = d.kind {
-                if let Some(type_sym) = type_def {
-                    deps.insert(d.symbol, type_sym);
-                }
+            if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                deps.insert(d.symbol, type_symbol);
             }
         }
     }
-- 
2.43.0


From ec23165c434924f3985604e2c85db5bf1eb9dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 17/19] fix: clamp positions past the end of a line to that
 line

---
 ticc-lsp/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..c7645bb 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,8 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        // both the line's start and the start of the following line need to be known
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From 6198ed00dfed195fea697736a8e96ac06fc6f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:11 +0000
Subject: [PATCH 18/19] fix: escape quotes and backslashes in printed strings

---
 ticc-core/src/ir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc-core/src/ir.rs b/ticc-core/src/ir.rs
index 1504b49..8a67c08 100644
--- a/ticc-core/src/ir.rs
+++ b/ticc-core/src/ir.rs
@@ -237,6 +237,8 @@ impl Debug for ByteString {
         for &b in self.bytes.iter() {
             let mut buf = [0u8; 4];
             let s = match b {
+                b'"' => "\\\"",
+                b'\\' => "\\\\",
                 32..=126 => {
                     buf[0] = b;
                     std::str::from_utf8(&buf[..1]).unwrap()
-- 
2.43.0


From e9a1c4c73a09a23dd3c71fd25712245325be4c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:20 +0000
Subject: [PATCH 19/19] fix: gcd does enough steps for every pair of numbers

Euclid's algorithm takes up to 92 steps on numbers below 2^64; 65 left
gcd (and lcm) of large neighbours in the Fibonacci sequence wrong.
---
 ticc/src/std/int.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index c025fc3..ccbdb77 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -60,7 +60,7 @@ export let gcd : int -> int -> int =
                 GcdState b (a % b)
         end;
     \a -> \b ->
-        match i.iterate 65 stepState (GcdState a b) with
+        match i.iterate 92 stepState (GcdState a b) with
         | GcdState x _ -> x
         end;
 
-- 
2.43.0

