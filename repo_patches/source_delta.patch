From 2ab5b5b13eb1635d7b95a4a90862d2e96c596cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:09 +0000
Subject: [PATCH 01/12] fix: keep struct fields in declaration order

Fields whose type was resolved late were moved behind the other fields.
Which fields that affected depended on hash map iteration order, so the same
schema could produce different wire layouts from one run to the next.
---
 src/lib/check.rs | 63 +++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 44 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..a0fdcbd 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -279,54 +279,29 @@ fn resolve_one_second_pass<'a>(
             ));
         }
         visited.insert(name);
-        // iterate over each field, trying to resolve it
-        // store any field (+ its type) which could not be resolved
-        let mut not_resolved = Vec::new();
+        // resolve each field in declaration order, so that the order of fields never
+        // depends on the order in which types happen to be resolved
         let mut fields = Vec::new();
         for (field_name, field_type) in s.0.into_iter() {
-            if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
-                fields.push(field);
-            } else {
-                not_resolved.push((field_name, field_type));
+            let ftype_name = field_type.0;
+            // try to find the field's typename in whatever is left unresolved
+            if let Some(utype) = unresolved.remove(&ftype_name) {
+                // if it exists, try to resolve it by recursively calling
+                // the function we're in
+
+                // it may fail, so propagate the error out
+                resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+            } else if !cache.contains_key(&ftype_name) {
+                //  if the field's typename is unresolved and not in the cache (resolved), it
+                // doesn't exist.
+                return Err(format!("Declaration for type '{}' does not exist", ftype_name));
             }
+            // if we get here, it means the field's type was successfully resolved and
+            // placed in the cache
+            fields.push(resolve_struct_field(field_name, field_type, cache, name)?.unwrap());
         }
-        if not_resolved.is_empty() {
-            // if all the fields are resolved, construct the type and cache it
-            cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
-        } else {
-            // otherwise, for each field that couldn't be resolved, try to resolve it
-            for (_, field_type) in not_resolved.iter() {
-                let ftype_name = field_type.0;
-                // try to find the field's typename in whatever is left unresolved
-                if let Some(utype) = unresolved.remove(&ftype_name) {
-                    // if it exists, try to resolve it by recursively calling
-                    // the function we're in
-
-                    // it may fail, so propagate the error out
-                    resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
-                } else if !cache.contains_key(&ftype_name) {
-                    //  if the field's typename is unresolved and not in the cache (resolved), it
-                    // doesn't exist.
-                    return Err(format!("Declaration for type '{}' does not exist", ftype_name));
-                }
-            }
-            // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
-            let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
-                now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
-            }
-            // and we have a complete type
-            cache.insert(
-                name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
-            );
-        }
+        // all the fields are resolved, so construct the type and cache it
+        cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
     } else {
         panic!(
             "Something unresolved which is not a struct got into the second pass: {:#?}",
-- 
2.43.0


From c5937a8f6b682baf79bc4eac9456a0abd74d64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:10 +0000
Subject: [PATCH 02/12] fix: reject duplicate fields after a field of a
 user-defined type

The first pass stopped looking at a struct at its first field with a
non-builtin type, so later duplicate field names were never noticed.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index a0fdcbd..1be5721 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From 6f04b8a8d534527db19d54aa8a7c92d6b86bb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:12 +0000
Subject: [PATCH 03/12] fix: report every recursive type as a cycle

A cycle entered from a type outside of it was reported as a missing
declaration.
---
 src/lib/check.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 1be5721..41dd216 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -289,6 +289,12 @@ fn resolve_one_second_pass<'a>(
 
                 // it may fail, so propagate the error out
                 resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+            } else if !cache.contains_key(&ftype_name) && visited.contains(&ftype_name) {
+                // it was taken out of the unresolved types, but is still being resolved
+                return Err(format!(
+                    "Found a cycle between two or more top level definitions in type '{}'",
+                    ftype_name
+                ));
             } else if !cache.contains_key(&ftype_name) {
                 //  if the field's typename is unresolved and not in the cache (resolved), it
                 // doesn't exist.
-- 
2.43.0


From 4f1d62324420638986ad1fc295b10b029d80d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:14 +0000
Subject: [PATCH 04/12] fix: make output and errors independent of hash map
 order

Declarations were emitted, and types resolved, in hash map iteration order.
The same schema gave differently ordered output, or a different error, from
one run to the next.
---
 src/lib/check.rs  | 5 ++++-
 src/lib/gen/ts.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 41dd216..c99ec4e 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -320,7 +320,10 @@ fn resolve_second_pass<'a>(
     mut unresolved: HashMap<&'a str, ast::Type<'a>>,
 ) -> Result<(), String> {
     let mut visited = HashSet::new();
-    for (name, ty) in unresolved.clone() {
+    // resolve in a fixed order, so that the same schema always has the same result
+    let mut remaining = unresolved.clone().into_iter().collect::<Vec<_>>();
+    remaining.sort_by_key(|(name, _)| *name);
+    for (name, ty) in remaining {
         if let Err(err) = resolve_one_second_pass(name, ty, cache, &mut visited, &mut unresolved) {
             return Err(err);
         }
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..4abf37b 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -329,7 +329,10 @@ impl Declaration for TypeScript {
 
         cat!(ctx, "export namespace {export} {{\n");
         cat!(ctx +++);
-        for (name, ty) in types.iter() {
+        // emit in a fixed order, so that the same schema always has the same output
+        let mut types = types.iter().collect::<Vec<_>>();
+        types.sort_by_key(|(name, _)| **name);
+        for (name, ty) in types {
             if *name == export {
                 continue;
             }
-- 
2.43.0


From f1f02f8ae6b5ea3438fca91a16e52e4b6ec1efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:16 +0000
Subject: [PATCH 05/12] fix: support the 32nd variant of an enum

Its value was treated as negative. The generated range check rejected every
value of a 32 variant enum, and the enum constant itself never compared equal
to the unsigned value on the wire.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 4abf37b..4f8f947 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // shifting into the sign bit gives a negative number in JS
+        let unsigned = if variant.value >= 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From 97cd8123a3e2d1ded2e8d8cb106b466aded7dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:17 +0000
Subject: [PATCH 06/12] fix: fail if the input path cannot be read

A missing input path was ignored, and the compiler exited successfully
without writing anything.
---
 src/main.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..10ba15e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,17 +123,16 @@ fn main() -> Result<()> {
     let opts = Opts::parse();
     let base_dir = PathBuf::from(opts.path.clone());
     let out_dir = PathBuf::from(opts.out.clone());
-    if let Ok(meta) = fs::metadata(&opts.path) {
-        if meta.is_dir() {
-            for result in run_all(opts.path.clone(), opts.lang)? {
-                let out = result.path.clone();
-                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
-            }
-        } else {
-            let result = run_one(opts.path.clone(), opts.lang)?;
+    let meta = fs::metadata(&opts.path)?;
+    if meta.is_dir() {
+        for result in run_all(opts.path.clone(), opts.lang)? {
             let out = result.path.clone();
-            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
+            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
         }
+    } else {
+        let result = run_one(opts.path.clone(), opts.lang)?;
+        let out = result.path.clone();
+        save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
     }
 
     Ok(())
-- 
2.43.0


From 60521cae8be7dfd9acfcfe9a367af1081adce7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:18 +0000
Subject: [PATCH 07/12] fix: report directories with a non UTF-8 name as an
 error

They caused a panic.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 10ba15e..b86e923 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,7 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
             let entry = entry?;
             let path = entry.path();
             if path.is_dir() {
-                visit_files(path.to_str().unwrap(), cb)?;
+                visit_files(path.to_str().ok_or_else(|| anyhow::anyhow!("invalid path"))?, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
             }
-- 
2.43.0


From b2afd78bb672316ec3049b82be429345eb8df229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:19 +0000
Subject: [PATCH 08/12] fix: keep dots in the name of a single input file

Compiling 'a.b.pkt' wrote 'a.ts' instead of 'a.b.ts', which is also what
compiling its directory writes.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b86e923..4853bfe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From 59fe36b288a16f1b9c6f85d7d24994082899779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:20 +0000
Subject: [PATCH 09/12] fix: show the right character in parse errors after
 non-ASCII text

The byte offset of the error was used as a character index.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From 6a9eeffe982782e3718c200158c5ee79386f7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:22 +0000
Subject: [PATCH 10/12] fix: allow identifiers which only start with a reserved
 word

Names like 'string_count' or 'enumerated' were rejected.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..bf1874e 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -35,7 +35,7 @@ peg::parser!(pub grammar pkt() for str {
     rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }
     /// Parses an entire identifier, ensuring no reserved keywords are used
     rule ident() -> &'input str
-        = i:quiet!{ $(!reserved() ident_start() ident_chars()*) } { i }
+        = i:quiet!{ $(!(reserved() !ident_chars()) ident_start() ident_chars()*) } { i }
 
     rule enum_variant() -> &'input str
         = s:ident() ___ ","? ___ { s }
-- 
2.43.0


From 769350a51214cb29b9b97859c0f59dd3ddb388c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:24 +0000
Subject: [PATCH 11/12] fix: allow declarations whose name starts with "export"

'exported: struct { ... }' was taken for an export of 'ed'.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index bf1874e..40ed291 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -70,7 +70,7 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule export() -> Node<'input>
-        = "export" _ s:string() {
+        = "export" !ident_chars() _ s:string() {
             Node::Export(s)
         }
 
-- 
2.43.0


From 35e988200c2db7d1ac8a815fe4e0c0f09d2005d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:25 +0000
Subject: [PATCH 12/12] fix: allow blank lines which contain whitespace

Whitespace at the start of the file, or in a blank line or at the end of a
line after an export or a comment, was a syntax error.
---
 src/lib/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 40ed291..9e63445 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
-        / _ s:(decl()) __ { Some(s) }
+        = _ comment() ___ { None }
+        / _ e:(export()) ___ { Some(e) }
+        / _ s:(decl()) ___ { Some(s) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0

