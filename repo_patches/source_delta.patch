From a57809cb614559ad4e3502bca42f720c6f6acc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:16 +0000
Subject: [PATCH 1/9] fix: keep struct fields in declaration order when
 resolving types

Fields whose types were resolved late were moved to the end of the struct.
Which fields that hit depended on hash map iteration order, so two builds of
the same schema could disagree on the wire layout.
---
 src/lib/check.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..73f02f6 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -283,11 +283,11 @@ fn resolve_one_second_pass<'a>(
         // store any field (+ its type) which could not be resolved
         let mut not_resolved = Vec::new();
         let mut fields = Vec::new();
-        for (field_name, field_type) in s.0.into_iter() {
+        for (field_name, field_type) in s.0.iter() {
             if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
                 fields.push(field);
             } else {
-                not_resolved.push((field_name, field_type));
+                not_resolved.push((*field_name, field_type.clone()));
             }
         }
         if not_resolved.is_empty() {
@@ -311,21 +311,13 @@ fn resolve_one_second_pass<'a>(
                 }
             }
             // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
-            let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
-                now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
+            // placed in the cache so resolve all our fields, in declaration order
+            let mut fields = Vec::with_capacity(s.0.len());
+            for (fname, fty) in s.0.into_iter() {
+                fields.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
             }
             // and we have a complete type
-            cache.insert(
-                name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
-            );
+            cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
         }
     } else {
         panic!(
-- 
2.43.0


From 12a5a55a4798f5bc1da928f28e10c68480758250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:50 +0000
Subject: [PATCH 2/9] fix: detect duplicate fields after the first user-typed
 field

The duplicate check stopped at the first field with a non-builtin type, so a
repeated field behind it was accepted.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 73f02f6..cbdd009 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From 6d2da6e47d3918cdb04e6267dbd90291a55da144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:51 +0000
Subject: [PATCH 3/9] fix: report a cycle instead of a missing declaration

A cycle entered from a type outside of it was reported as 'Declaration for
type ... does not exist', naming a type that is declared. Whether that happened
depended on hash map iteration order.
---
 src/lib/check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index cbdd009..d917c38 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -302,6 +302,12 @@ fn resolve_one_second_pass<'a>(
 
                     // it may fail, so propagate the error out
                     resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+                } else if visited.contains(&ftype_name) && !cache.contains_key(&ftype_name) {
+                    // if it's still being resolved by one of our callers, it's a cycle
+                    return Err(format!(
+                        "Found a cycle between two or more top level definitions in type '{}'",
+                        &ftype_name
+                    ));
                 } else if !cache.contains_key(&ftype_name) {
                     //  if the field's typename is unresolved and not in the cache (resolved), it
                     // doesn't exist.
-- 
2.43.0


From b0be6d7fb9312523bdea66524d3cca35ac56029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:16 +0000
Subject: [PATCH 4/9] fix: make enums with 32 variants usable

The bit of the 32nd variant was treated as a sign bit. Reading accepted no value
at all, because the upper bound came out as -2147483648. The declared constant
was negative as well, so it never equalled a decoded value.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..cad1bd1 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // bit 31 is the sign bit of `<<` in TypeScript, `>>>` makes it unsigned
+        let unsigned = if variant.value == 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From f3538b84634d8279aee8cf3ad326773fd0864c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:17 +0000
Subject: [PATCH 5/9] fix: emit type declarations in a stable order

Declarations were written in hash map iteration order, so compiling the same
schema twice produced different files.
---
 src/lib/gen/ts.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index cad1bd1..5904fd4 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -331,7 +331,10 @@ impl Declaration for TypeScript {
 
         cat!(ctx, "export namespace {export} {{\n");
         cat!(ctx +++);
-        for (name, ty) in types.iter() {
+        // hash map order differs between runs
+        let mut types: Vec<_> = types.iter().collect();
+        types.sort_by_key(|(name, _)| **name);
+        for (name, ty) in types {
             if *name == export {
                 continue;
             }
-- 
2.43.0


From d031ec6bf25a13812c0bb0665b4aa43aa2ec6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:02 +0000
Subject: [PATCH 6/9] fix: fail when the input path cannot be accessed

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..fe915fd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -134,6 +134,8 @@ fn main() -> Result<()> {
             let out = result.path.clone();
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
         }
+    } else {
+        anyhow::bail!("Could not access '{}'", opts.path);
     }
 
     Ok(())
-- 
2.43.0


From 8231f89b192652bbca04f36ec176c6e8cc848b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:11 +0000
Subject: [PATCH 7/9] fix: keep dots in the output name of a single schema

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index fe915fd..3a25787 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From 5103b5a04eecfcf4a79bf4f9760609bd3b270583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:12 +0000
Subject: [PATCH 8/9] fix: fail when a directory entry cannot be examined

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3a25787..926f20e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,13 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
             let path = entry.path();
-            if path.is_dir() {
+            // `Path::is_dir` would hide directories which cannot be examined
+            let is_dir = match fs::metadata(&path) {
+                Ok(meta) => meta.is_dir(),
+                Err(err) if err.kind() == std::io::ErrorKind::NotFound => false,
+                Err(err) => return Err(err.into()),
+            };
+            if is_dir {
                 visit_files(path.to_str().unwrap(), cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
-- 
2.43.0


From 51a3f2bd4def0d267bb4376c233c6c5a1ba52af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:34 +0000
Subject: [PATCH 9/9] fix: give flattened field paths distinct variable names

Two field paths such as a.b and a_b became the same local variable in the
generated code, which was then a syntax error.
---
 src/lib/gen/gen_ctx.rs | 12 ++++++++++++
 src/lib/gen/ts.rs      | 26 +++++++++++++-------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..472d839 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    vars: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,6 +13,7 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            vars: HashSet::new(),
         }
     }
 
@@ -33,4 +37,12 @@ impl<'a> GenCtx<'a> {
 
     #[inline]
     pub fn swap_stack(&mut self, other: &mut Vec<String>) { std::mem::swap(&mut self.stack, other); }
+
+    // Different field paths may flatten to the same name, e.g. `a.b` and `a_b`
+    pub fn unique_var(&mut self, mut name: String) -> String {
+        while !self.vars.insert(name.clone()) {
+            name.push('_');
+        }
+        name
+    }
 }
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 5904fd4..dd99bfb 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -17,13 +17,13 @@ impl Common for TypeScript {
     }
 }
 
-fn varname(stack: &[String], name: &str) -> String { format!("{}_{}", stack.join("_"), name) }
-fn bindname(stack: &[String]) -> String { stack.join("_") }
+fn varname(ctx: &mut GenCtx, name: &str) -> String { ctx.unique_var(format!("{}_{}", ctx.stack.join("_"), name)) }
+fn bindname(ctx: &mut GenCtx) -> String { ctx.unique_var(ctx.stack.join("_")) }
 fn fname(stack: &[String]) -> String { stack.join(".") }
 
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = bindname(ctx);
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +48,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = varname(ctx, "item");
+    let index = varname(ctx, "index");
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +128,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = varname(ctx, "len");
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = varname(ctx, "index");
+    let item_var = varname(ctx, "item");
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +156,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = varname(ctx, "len");
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +179,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = self::varname(ctx, "temp");
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
@@ -187,15 +187,15 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
     let old_stack = if init {
+        let bind_var = bindname(ctx);
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
         ctx.push_fname(bind_var.clone());
 
         cat!(ctx, "let {bind_var}: any = {{}};\n");
 
-        Some(old_stack)
+        Some((old_stack, bind_var))
     } else {
         None
     };
@@ -226,7 +226,7 @@ fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init:
         ctx.pop_fname();
     }
 
-    if let Some(mut old_stack) = old_stack {
+    if let Some((mut old_stack, bind_var)) = old_stack {
         cat!(ctx, "{fname} = {bind_var};\n");
 
         ctx.swap_stack(&mut old_stack);
-- 
2.43.0

