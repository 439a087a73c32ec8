From f06fb83e430d8e9cd171c19bc803f19174a84f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:06 +0000
Subject: [PATCH 01/16] fix: keep struct fields in declaration order

Structs whose fields needed the second resolution pass had the fields that
were already resolvable moved in front of the others. Which fields those were
depended on hash map iteration order, so two compilations of one schema could
produce incompatible wire formats.
---
 src/lib/check.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..d3d863f 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -283,7 +283,7 @@ fn resolve_one_second_pass<'a>(
         // store any field (+ its type) which could not be resolved
         let mut not_resolved = Vec::new();
         let mut fields = Vec::new();
-        for (field_name, field_type) in s.0.into_iter() {
+        for (field_name, field_type) in s.0.iter().cloned() {
             if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
                 fields.push(field);
             } else {
@@ -311,9 +311,9 @@ fn resolve_one_second_pass<'a>(
                 }
             }
             // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
+            // placed in the cache so finish resolving our fields in declaration order
             let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
+            for (fname, fty) in s.0.into_iter() {
                 now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
             }
             // and we have a complete type
@@ -322,7 +322,7 @@ fn resolve_one_second_pass<'a>(
                 Ptr::new((
                     name,
                     ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
+                        fields: now_resolved,
                     }),
                 )),
             );
-- 
2.43.0


From 9429b4b3ca147d93d4c135dfea5cec04d9917d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:07 +0000
Subject: [PATCH 02/16] fix: detect duplicate fields after a field of
 non-builtin type

The duplicate check stopped at the first field whose type is not a builtin,
so later duplicates were accepted and produced invalid TypeScript.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index d3d863f..ca02ca3 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From 2bbaf9f01ee3ed102f27cfda854e88d19d0e1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:24 +0000
Subject: [PATCH 03/16] fix: report a cycle reached from outside as a cycle

If resolution entered a cycle through a type that is not part of it, the
checker claimed that a declared type does not exist.
---
 src/lib/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index ca02ca3..7c3b213 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -303,6 +303,13 @@ fn resolve_one_second_pass<'a>(
                     // it may fail, so propagate the error out
                     resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
                 } else if !cache.contains_key(&ftype_name) {
+                    // if we're still in the process of resolving it, it's a cycle
+                    if visited.contains(&ftype_name) {
+                        return Err(format!(
+                            "Found a cycle between two or more top level definitions in type '{}'",
+                            &ftype_name
+                        ));
+                    }
                     //  if the field's typename is unresolved and not in the cache (resolved), it
                     // doesn't exist.
                     return Err(format!("Declaration for type '{}' does not exist", ftype_name));
-- 
2.43.0


From 0050ef8f53ba41d015b8b413e2f9ec2d4849c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:25 +0000
Subject: [PATCH 04/16] fix: make the output and errors independent of hash map
 order

Compiling one schema twice gave differently ordered declarations, or a
different error if there was more than one problem.
---
 src/lib/check.rs  | 5 ++++-
 src/lib/gen/ts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 7c3b213..261ddb3 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -346,7 +346,10 @@ fn resolve_second_pass<'a>(
     mut unresolved: HashMap<&'a str, ast::Type<'a>>,
 ) -> Result<(), String> {
     let mut visited = HashSet::new();
-    for (name, ty) in unresolved.clone() {
+    // hash map order changes from run to run, and determines which error is reported
+    let mut pending = unresolved.clone().into_iter().collect::<Vec<_>>();
+    pending.sort_by_key(|(name, _)| *name);
+    for (name, ty) in pending {
         if let Err(err) = resolve_one_second_pass(name, ty, cache, &mut visited, &mut unresolved) {
             return Err(err);
         }
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..6b91778 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -329,7 +329,10 @@ impl Declaration for TypeScript {
 
         cat!(ctx, "export namespace {export} {{\n");
         cat!(ctx +++);
-        for (name, ty) in types.iter() {
+        // hash map order changes from run to run, but the output should not
+        let mut types = types.iter().collect::<Vec<_>>();
+        types.sort_by_key(|(name, _)| **name);
+        for (name, ty) in types {
             if *name == export {
                 continue;
             }
-- 
2.43.0


From b2ed8a4b28637e40f901a64a40eafb73c2147a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:44 +0000
Subject: [PATCH 05/16] fix: make enums with 32 variants readable

The upper bound of the generated range check and the constant of the last
variant were negative, so reading such an enum always failed.
---
 src/lib/gen/ts.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 6b91778..b0bc12f 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,10 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // shifting into the sign bit gives a negative number, which is not what is
+        // read from the packet
+        let unsigned = if variant.value == 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From 7677fd99adb4eb2c0183eafdc888d0393f077107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:45 +0000
Subject: [PATCH 06/16] fix: reject packets with enum values which are not a
 variant

The range check let through combinations of bits, such as 3 for an enum with
the variants 1, 2 and 4.
---
 src/lib/gen/ts.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index b0bc12f..c68e4c9 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -181,7 +181,14 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
-    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
+    // values in range which are not a single bit are not variants, but there are
+    // none unless the enum has more than two variants
+    let single_bit = if type_info.variants.len() > 2 {
+        format_f!(" && ({temp} & ({temp} - 1)) === 0")
+    } else {
+        String::new()
+    };
+    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}{single_bit}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
 }
 
-- 
2.43.0


From fc9cc123b17743ea01edb91950cad3d0ef57f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:08 +0000
Subject: [PATCH 07/16] fix: do not declare a local variable twice in generated
 code

The names of local variables are made from field names joined by '_', so for
example the fields 'a_b' and 'b' of the struct in 'a' used the same one, which
is an error in TypeScript.
---
 src/lib/gen/gen_ctx.rs | 12 ++++++++++++
 src/lib/gen/ts.rs      | 19 ++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..1984044 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    names: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,6 +13,7 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            names: HashSet::new(),
         }
     }
 
@@ -31,6 +35,14 @@ impl<'a> GenCtx<'a> {
     #[inline]
     pub fn pop_fname(&mut self) { self.stack.pop(); }
 
+    /// Turns `name` into one which was not returned before
+    pub fn unique_name(&mut self, mut name: String) -> String {
+        while !self.names.insert(name.clone()) {
+            name.push('_');
+        }
+        name
+    }
+
     #[inline]
     pub fn swap_stack(&mut self, other: &mut Vec<String>) { std::mem::swap(&mut self.stack, other); }
 }
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index c68e4c9..f3b7cea 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -23,7 +23,7 @@ fn fname(stack: &[String]) -> String { stack.join(".") }
 
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = ctx.unique_name(bindname(&ctx.stack));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +48,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = ctx.unique_name(varname(&ctx.stack, "item"));
+    let index = ctx.unique_name(varname(&ctx.stack, "index"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +128,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = ctx.unique_name(varname(&ctx.stack, "len"));
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = ctx.unique_name(varname(&ctx.stack, "index"));
+    let item_var = ctx.unique_name(varname(&ctx.stack, "item"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +156,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = ctx.unique_name(varname(&ctx.stack, "len"));
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +179,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = ctx.unique_name(self::varname(&ctx.stack, "temp"));
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     // values in range which are not a single bit are not variants, but there are
     // none unless the enum has more than two variants
@@ -194,8 +194,9 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let mut bind_var = bindname(&ctx.stack);
     let old_stack = if init {
+        bind_var = ctx.unique_name(bind_var);
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
         ctx.push_fname(bind_var.clone());
-- 
2.43.0


From 169dabb5ac26d7431a5018ec45244501abe6b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:28 +0000
Subject: [PATCH 08/16] fix: name the right character in errors after non-ASCII
 text

The offset of a parse error is in bytes, but was used to count characters.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From 3fcde59fd4f0e7afaac9b108a09f224259ff8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:54 +0000
Subject: [PATCH 09/16] fix: allow identifiers which start with a keyword

Names such as 'strings', 'structure', 'int8_value' or 'exported' were
rejected, even though they are not reserved.
---
 src/lib/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..2398b95 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -35,7 +35,7 @@ peg::parser!(pub grammar pkt() for str {
     rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }
     /// Parses an entire identifier, ensuring no reserved keywords are used
     rule ident() -> &'input str
-        = i:quiet!{ $(!reserved() ident_start() ident_chars()*) } { i }
+        = i:quiet!{ $(!(reserved() !ident_chars()) ident_start() ident_chars()*) } { i }
 
     rule enum_variant() -> &'input str
         = s:ident() ___ ","? ___ { s }
@@ -76,8 +76,8 @@ peg::parser!(pub grammar pkt() for str {
 
     rule line() -> Option<Node<'input>>
         = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
         / _ s:(decl()) __ { Some(s) }
+        / _ e:(export()) __ { Some(e) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-- 
2.43.0


From 7cfede78b3620f07f72fca21bcd94311d9341985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:56 +0000
Subject: [PATCH 10/16] fix: allow white space at the end of and between lines

Blank lines containing spaces and trailing spaces after an export were
rejected, depending on what came before them.
---
 src/lib/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 2398b95..96985fb 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ s:(decl()) __ { Some(s) }
-        / _ e:(export()) __ { Some(e) }
+        = _ comment() ___ { None }
+        / _ s:(decl()) ___ { Some(s) }
+        / _ e:(export()) ___ { Some(e) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0


From bc0a7976610f52a144d8e863f6de7ba413307d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:24 +0000
Subject: [PATCH 11/16] fix: fail if the input does not exist

The compiler exited successfully without doing anything.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..d08d34b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -134,6 +134,8 @@ fn main() -> Result<()> {
             let out = result.path.clone();
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
         }
+    } else {
+        anyhow::bail!("Could not open '{}'", opts.path);
     }
 
     Ok(())
-- 
2.43.0


From fca7124b71175ca8df29257a4eab87ce863420ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:25 +0000
Subject: [PATCH 12/16] fix: replace only the last extension of a single input
 file

The output for 'a.b.pkt' was 'a.ts', overwriting that of 'a.pkt', while it is
'a.b.ts' when compiling a directory.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d08d34b..f85f6a2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From ba089c8210d9ecea257c552f3151c88842392da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:26 +0000
Subject: [PATCH 13/16] fix: report an error for directories with a non-UTF-8
 name

The compiler panicked, while it reports an error for such files.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f85f6a2..0e3a2b0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,7 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
             let entry = entry?;
             let path = entry.path();
             if path.is_dir() {
-                visit_files(path.to_str().unwrap(), cb)?;
+                visit_files(path.to_str().ok_or_else(|| anyhow::anyhow!("invalid path"))?, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
             }
-- 
2.43.0


From 9bccbc431b9f077efe3ec72ddaa400bcfa3159c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:02 +0000
Subject: [PATCH 14/16] fix: do not hide the generated class by a local
 variable

The decoder of a struct named 'output', or like one of the decoder's other
local variables, used that variable before its declaration instead of the class.
---
 src/lib/gen/ts.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index f3b7cea..14cdbd3 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -273,14 +273,17 @@ impl Impl for TypeScript {
         cat!(ctx ---);
         cat!(ctx, ") {{}}\n");
 
-        ctx.push_fname("output");
+        // the class must not be hidden by a local variable
+        ctx.unique_name(export.name.to_string());
+        let output = ctx.unique_name("output".to_string());
+        ctx.push_fname(output.clone());
         cat!(ctx, "static read(data: ArrayBuffer): {export.name} | null {{\n");
         cat!(ctx +++);
         cat!(ctx, "let reader = new Reader(data);\n");
-        cat!(ctx, "let output = Object.create({export.name});\n");
+        cat!(ctx, "let {output} = Object.create({export.name});\n");
         gen_read_impl_struct(&mut ctx, &export.r#struct, &export.name, false);
         cat!(ctx, "if (reader.failed) return null;\n");
-        cat!(ctx, "return output;\n");
+        cat!(ctx, "return {output};\n");
         cat!(ctx ---);
         cat!(ctx, "}}\n");
         ctx.pop_fname();
-- 
2.43.0


From cb62af9bf5bc5d4deac7c0f90cefbefe8e691c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:17 +0000
Subject: [PATCH 15/16] fix: do not skip a directory whose metadata cannot be
 read

Path::is_dir is false when the metadata cannot be read, so the directory
was left out and the tool still exited with status 0.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0e3a2b0..dc2dd31 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,8 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
             let path = entry.path();
-            if path.is_dir() {
+            let file_type = entry.file_type()?;
+            if file_type.is_dir() || (file_type.is_symlink() && path.is_dir()) {
                 visit_files(path.to_str().ok_or_else(|| anyhow::anyhow!("invalid path"))?, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
-- 
2.43.0


From 6c7b119c44f8ca49e342e07614eef3b3e9f46df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:56:09 +0000
Subject: [PATCH 16/16] fix: Export named like a variable of the decoder hid
 its own class

With an export called data or reader, the parameter or variable of that
name in read() was used instead of the class, so decoded objects
inherited from the buffer or the reader. A field such as byteLength then
made read() throw.
---
 src/lib/gen/gen_ctx.rs |  3 +++
 src/lib/gen/ts.rs      | 22 ++++++++++++----------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 1984044..73e16fd 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -4,6 +4,8 @@ pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    /// Name of the variable which holds the reader
+    pub reader: String,
     names: HashSet<String>,
 }
 
@@ -13,6 +15,7 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            reader: "reader".to_string(),
             names: HashSet::new(),
         }
     }
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 14cdbd3..75a8191 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -116,7 +116,7 @@ fn gen_write_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str) {
 fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
 
-    cat!(ctx, "if (reader.read_uint8() > 0) {{\n");
+    cat!(ctx, "if ({ctx.reader}.read_uint8() > 0) {{\n");
     cat!(ctx +++);
     body(ctx);
     cat!(ctx ---);
@@ -136,7 +136,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
 
-    cat!(ctx, "let {len_var} = reader.read_uint32();\n");
+    cat!(ctx, "let {len_var} = {ctx.reader}.read_uint32();\n");
     cat!(ctx, "{fname} = new Array({len_var});\n");
     cat!(ctx, "for (let {idx_var} = 0; {idx_var} < {len_var}; ++{idx_var}) {{\n");
     cat!(ctx +++);
@@ -157,13 +157,13 @@ fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name
     match type_info {
         check::Builtin::String => {
             let len_var = ctx.unique_name(varname(&ctx.stack, "len"));
-            cat!(ctx, "let {len_var} = reader.read_uint32();\n");
+            cat!(ctx, "let {len_var} = {ctx.reader}.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
-            cat!(ctx, "{fname} = reader.read_string({len_var});\n");
+            cat!(ctx, "{fname} = {ctx.reader}.read_string({len_var});\n");
         }
         _ => {
             let fname = self::fname(&ctx.stack);
-            cat!(ctx, "{fname} = reader.read_{type_name}();\n")
+            cat!(ctx, "{fname} = {ctx.reader}.read_{type_name}();\n")
         }
     }
 }
@@ -180,7 +180,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
     );
     let fname = self::fname(&ctx.stack);
     let temp = ctx.unique_name(self::varname(&ctx.stack, "temp"));
-    cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
+    cat!(ctx, "let {temp} = {ctx.reader}.read_{repr_name}();\n");
     // values in range which are not a single bit are not variants, but there are
     // none unless the enum has more than two variants
     let single_bit = if type_info.variants.len() > 2 {
@@ -189,7 +189,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         String::new()
     };
     cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}{single_bit}) {fname} = {temp};\n");
-    cat!(ctx, "else reader.failed = true;\n");
+    cat!(ctx, "else {ctx.reader}.failed = true;\n");
 }
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
@@ -275,14 +275,16 @@ impl Impl for TypeScript {
 
         // the class must not be hidden by a local variable
         ctx.unique_name(export.name.to_string());
+        let data = ctx.unique_name("data".to_string());
+        ctx.reader = ctx.unique_name("reader".to_string());
         let output = ctx.unique_name("output".to_string());
         ctx.push_fname(output.clone());
-        cat!(ctx, "static read(data: ArrayBuffer): {export.name} | null {{\n");
+        cat!(ctx, "static read({data}: ArrayBuffer): {export.name} | null {{\n");
         cat!(ctx +++);
-        cat!(ctx, "let reader = new Reader(data);\n");
+        cat!(ctx, "let {ctx.reader} = new Reader({data});\n");
         cat!(ctx, "let {output} = Object.create({export.name});\n");
         gen_read_impl_struct(&mut ctx, &export.r#struct, &export.name, false);
-        cat!(ctx, "if (reader.failed) return null;\n");
+        cat!(ctx, "if ({ctx.reader}.failed) return null;\n");
         cat!(ctx, "return {output};\n");
         cat!(ctx ---);
         cat!(ctx, "}}\n");
-- 
2.43.0

