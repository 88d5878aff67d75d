From 12515d4101146e6d97911e5628527202a96916db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 01/27] fix: no_std Cursor: SeekFrom::End must move the cursor,
 relative to the end

---
 binread/src/io/cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..5f8ab56 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -69,12 +69,13 @@ impl<T: AsRef<[u8]>> Seek for Cursor<T> {
             }
             SeekFrom::End(x) => {
                 let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
+                if end + x < 0 {
                     Err(Error::new(
                         ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
                     ))
                 } else {
+                    self.pos = (end + x) as u64;
                     Ok(self.pos)
                 }
             }
-- 
2.43.0


From a951682ce4fc17ed17c9220652dabb630b2da980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 02/27] fix: Box forwards after_parse to its contents

---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From 5c652210b2b01b46eda82585c270af783b1f4828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 03/27] fix: until, until_exclusive, until_eof and count keep
 the field's offset for their elements

---
 binread/src/helpers.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..b9db352 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,10 +1,29 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinReaderExt, BinResult, ReadOptions,
+    BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::{vec, vec::Vec};
 
+// Reads and post-processes one element of a collection. Elements are read with
+// the byte order and offset of the collection, but not with its count.
+fn read_element<R: Read + Seek, T: BinRead>(
+    reader: &mut R,
+    ro: &ReadOptions,
+    args: T::Args,
+) -> BinResult<T> {
+    let options = ReadOptions {
+        endian: ro.endian,
+        offset: ro.offset,
+        ..Default::default()
+    };
+
+    let mut res = T::read_options(reader, &options, args)?;
+    res.after_parse(reader, &options, args)?;
+
+    Ok(res)
+}
+
 /// A helper for more efficiently mass-reading bytes
 ///
 ///## Example:
@@ -64,11 +83,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         result.push(last);
@@ -105,11 +124,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         Ok(result.into_iter().collect())
@@ -140,13 +159,13 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
-    let mut last = reader.read_type_args(ro.endian, args.clone());
+    let mut last = read_element(reader, ro, args.clone());
 
     while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-                reader.read_type_args(ro.endian, args.clone())
+                read_element(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
@@ -183,7 +202,7 @@ where
 {
     move |reader, ro, args| {
         (0..n)
-            .map(|_| reader.read_type_args(ro.endian, args.clone()))
+            .map(|_| read_element(reader, ro, args.clone()))
             .collect()
     }
 }
-- 
2.43.0


From 89a876aedc261acf308555f9308a67ac21e4248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 04/27] fix: check the assertions of unit structs and of enums
 with unit variants

---
 binread_derive/src/codegen/read_options/struct.rs | 2 ++
 binread_derive/src/parser/top_level_attrs.rs      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..ce73eae 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -8,9 +8,11 @@ use syn::Ident;
 
 pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
     let prelude = get_prelude(input);
+    let assertions = get_assertions(input.assertions());
     let return_type = get_return_type(variant_ident);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index ec7f8a3..41f7838 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,6 +91,14 @@ impl Input {
         }
     }
 
+    pub(crate) fn assertions(&self) -> &[Assert] {
+        match self {
+            Input::Struct(s) | Input::UnitStruct(s) => &s.assertions,
+            Input::Enum(e) => &e.assertions,
+            Input::UnitOnlyEnum(_) => &[],
+        }
+    }
+
     pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
-- 
2.43.0


From 8b5c7aaa81fdd84c55fb4fe18734ea006a1aebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 05/27] fix: read the magic of unit-like enums instead of
 ignoring it

---
 binread_derive/src/codegen/read_options/enum.rs | 6 +++++-
 binread_derive/src/parser/top_level_attrs.rs    | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..e7a322f 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -30,7 +30,10 @@ fn generate_unit_enum_repr(
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish();
 
     quote! {
         #prelude
@@ -51,6 +54,7 @@ fn generate_unit_enum_magic(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic_pre_assertion()
         .finish();
 
     let matches = variants.iter().filter_map(|field| {
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index 41f7838..57fccb2 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -99,11 +99,11 @@ impl Input {
         }
     }
 
-    pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
+    pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
             Input::Enum(e) => &e.pre_assertions,
-            Input::UnitOnlyEnum(_) => unimplemented!("`Input::pre_assert()` called on unit enum"),
+            Input::UnitOnlyEnum(_) => &[],
         }
     }
 }
-- 
2.43.0


From 5378f570878a6a23244b87b549f70743255622af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 06/27] fix: honour pre_assert on the variants of unit-like
 enums with a repr

---
 binread_derive/src/codegen/read_options/enum.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index e7a322f..2ef0640 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,19 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
     let prelude = PreludeGenerator::new(input)
+        .add_imports()
         .add_options()
         .add_magic_pre_assertion()
         .finish();
-- 
2.43.0


From f48757eb4e05cd93356a8168ad1efe3571d8821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 07/27] fix: try restores the position of the reader when the
 field cannot be parsed

---
 binread_derive/src/codegen/read_options/struct.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index ce73eae..abd27d1 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -357,10 +357,17 @@ impl<'field> FieldGenerator<'field> {
             }
         } else {
             let result = self.out;
+            let handle_error = debug_template::handle_error();
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)#handle_error?;
+                    let #TEMP = #result.ok();
+                    if #TEMP.is_none() {
+                        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))#handle_error?;
+                    }
+                    #TEMP
+                }}
             } else {
-                let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
             };
         }
-- 
2.43.0


From cd8152eb07709f2a29a697fb156cdb5bd9c8402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 08/27] fix: pad_size_to must not overflow when a field ends
 before its start

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index abd27d1..e81b2ef 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -438,7 +438,7 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64 - #POS as i64;
             if size < pad {
                 #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
             }
-- 
2.43.0


From 33cd1672954334dfc90069376037e4e5260b7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 09/27] fix: try_map functions that return an I/O error produce
 Error::Io, as documented

---
 binread/src/private.rs                     | 13 +++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..fce8048 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -34,6 +34,19 @@ where
     }
 }
 
+// I/O errors from a `try_map` function are returned as such, all other errors
+// are wrapped
+pub fn map_error<Err>(pos: u64, err: Err) -> Error
+where
+    Err: core::any::Any + Sync + Send + 'static,
+{
+    let err: Box<dyn core::any::Any + Sync + Send> = Box::new(err);
+    match err.downcast::<io::Error>() {
+        Ok(err) => Error::Io(*err),
+        Err(err) => Error::Custom { pos, err },
+    }
+}
+
 // This validates the map function return value by trying to coerce it into
 // a function with the expected return type. If this is not done, the
 // compiler will emit the diagnostic on the `#[derive(BinRead)]` attribute
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..09aa433 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -143,12 +143,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..853d045 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
-- 
2.43.0


From 4aa513b6f5605240051b31ddb7ed6016ac43b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 10/27] fix: types with map or try_map honour their byte order,
 magic, imports and pre_assert

---
 binread_derive/src/codegen/read_options.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 09aa433..50d58c7 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -20,16 +20,22 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
         Map::Try(map) => {
+            let prelude = get_map_prelude(input);
             let map_err = get_map_err(POS);
             quote! {
+                #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
                     #map(value)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_map_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
@@ -43,6 +49,14 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     }
 }
 
+fn get_map_prelude(input: &Input) -> TokenStream {
+    PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish()
+}
+
 struct PreludeGenerator<'input> {
     input: &'input Input,
     out: TokenStream,
-- 
2.43.0


From 1e77706f39f52e126ce40ba290d3dece7351945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 11/27] fix: do not allocate memory for more elements than the
 input holds

---
 binread/src/helpers.rs    | 14 +++++++++++---
 binread/src/punctuated.rs |  8 ++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index b9db352..2f9747a 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 // Reads and post-processes one element of a collection. Elements are read with
 // the byte order and offset of the collection, but not with its count.
@@ -24,6 +24,8 @@ fn read_element<R: Read + Seek, T: BinRead>(
     Ok(res)
 }
 
+const READ_BYTES_CHUNK: usize = 0x10000;
+
 /// A helper for more efficiently mass-reading bytes
 ///
 ///## Example:
@@ -49,8 +51,14 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // The count may well come from the input, so do not trust it for the size of
+    // an allocation: grow the buffer only as far as the reader has delivered.
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(start + (count - start).min(READ_BYTES_CHUNK), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..d6e3d1e 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +92,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From 3ab105c25e7bf425acd39437233d7ef7a94554a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 12/27] fix: a null terminated string of bytes needs its
 terminator

---
 binread/src/strings.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..723185c 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -20,11 +20,20 @@ impl BinRead for Vec<NonZeroU8> {
         _: &ReadOptions,
         _: Self::Args,
     ) -> BinResult<Self> {
-        reader
-            .bytes()
-            .take_while(|x| !matches!(x, Ok(0)))
-            .map(|x| Ok(x.map(|byte| unsafe { NonZeroU8::new_unchecked(byte) })?))
-            .collect()
+        let mut values = vec![];
+
+        for byte in reader.bytes() {
+            match NonZeroU8::new(byte?) {
+                Some(byte) => values.push(byte),
+                None => return Ok(values),
+            }
+        }
+
+        Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "no null terminator found",
+        )
+        .into())
     }
 }
 
-- 
2.43.0


From 3d664f310ce51390858487dc3b8093724e03654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 13/27] fix: file pointers that do not fit an i64 must not wrap
 around

---
 binread/src/file_ptr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..0589fd5 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -26,6 +26,7 @@
 //!
 //! Use `offset` to change what the pointer is relative to (default: beginning of reader).
 use super::*;
+use core::convert::TryFrom;
 use core::fmt;
 use core::ops::{Deref, DerefMut};
 
@@ -162,7 +163,14 @@ macro_rules! impl_into_seek_from {
         $(
             impl IntoSeekFrom for $t {
                 fn into_seek_from(self) -> SeekFrom {
-                    SeekFrom::Current(self as i64)
+                    // out of range pointers must not wrap around to some other place
+                    SeekFrom::Current(i64::try_from(self).unwrap_or_else(|_| {
+                        if self > 0 {
+                            i64::MAX
+                        } else {
+                            i64::MIN
+                        }
+                    }))
                 }
             }
         )*
-- 
2.43.0


From f80c8886ac489947c4e6bc839791d5530bf621fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 14/27] fix: an alignment of zero must not panic

---
 binread_derive/src/codegen/read_options/struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e81b2ef..01301cf 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -496,7 +496,9 @@ fn map_align(align: &TokenStream) -> TokenStream {
     quote! {{
         let align = (#align) as i64;
         let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
-        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;
+        // an alignment of zero, possibly read from the input, is no alignment
+        let padding = pos.checked_rem(align).map_or(0, |rem| align.wrapping_sub(rem) % align);
+        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(padding))#handle_error?;
     }}
 }
 
-- 
2.43.0


From 3e812d37be5065847a16f935c47ca9d22de7c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:42 +0000
Subject: [PATCH 15/27] fix: magic on calc, default and ignored fields refers
 to options that exist

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 01301cf..3a829bb 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -221,7 +221,7 @@ impl<'field> FieldGenerator<'field> {
         Self {
             field,
             out: TokenStream::new(),
-            emit_options_vars: get_after_parse_handler(field).is_some(),
+            emit_options_vars: get_after_parse_handler(field).is_some() || field.magic.is_some(),
         }
     }
 
-- 
2.43.0


From 31c09c3635ed5f33af8aa0f05bfec6189b21be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 16/27] fix: fields with raw identifiers no longer panic the
 derive macros

---
 binread_derive/src/codegen/sanitization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 853d045..2684781 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -59,7 +59,7 @@ ident_str! {
 }
 
 pub(crate) fn make_ident(ident: &Ident, kind: &str) -> Ident {
-    format_ident!("__binread_generated_{}_{}", kind, ident.to_string())
+    format_ident!("__binread_generated_{}_{}", kind, ident)
 }
 
 /// A string wrapper that converts the str to a $path `TokenStream`, allowing
-- 
2.43.0


From 0758434ecc93a4db8a86a3d9acb974e9b76219fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 17/27] fix: try_map on a type takes any closure, not only one
 with a block body

---
 binread_derive/src/codegen/read_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 50d58c7..a683ab2 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -25,7 +25,7 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             quote! {
                 #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    #map(value)#map_err
+                    (#map)(value)#map_err
                 })
             }
         }
-- 
2.43.0


From 3556606bac3ad7736a5292e0ccded6ef7cea4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 18/27] fix: an import called value is visible to try_map on a
 type

---
 binread_derive/src/codegen/read_options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index a683ab2..46fbf59 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -24,8 +24,8 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             let map_err = get_map_err(POS);
             quote! {
                 #prelude
-                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    (#map)(value)#map_err
+                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|#TEMP| {
+                    (#map)(#TEMP)#map_err
                 })
             }
         }
-- 
2.43.0


From ecd2bf58bcc187bbc433c831d47da7853672795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 19/27] fix: NullString::to_string replaces invalid UTF-8
 instead of panicking

---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 723185c..8d11b41 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -250,7 +250,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into()
     }
 }
 
-- 
2.43.0


From 2fb0bdb24a63a2e74068b2e3e3777d1146c932ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 20/27] fix: the structs of a debug template are closed once,
 however parsing ends

---
 binread_derive/src/codegen/read_options/debug_template.rs | 2 --
 binread_derive/src/codegen/read_options/struct.rs         | 7 +++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/debug_template.rs b/binread_derive/src/codegen/read_options/debug_template.rs
index 1e3d4cf..92c2b1d 100644
--- a/binread_derive/src/codegen/read_options/debug_template.rs
+++ b/binread_derive/src/codegen/read_options/debug_template.rs
@@ -21,11 +21,9 @@ pub(super) fn end() -> TokenStream {
 
 pub(super) fn handle_error() -> TokenStream {
     if cfg!(feature = "debug_template") {
-        let write_end_struct = end();
         quote! {
             .map_err(|e| {
                 #WRITE_COMMENT(&format!("Error: {:?}", e));
-                #write_end_struct
                 e
             })
         }
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 3a829bb..0f8c3aa 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -20,9 +20,9 @@ pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>)
 pub(super) fn generate_struct(ident: &Ident, input: &Input, st: &Struct) -> TokenStream {
     StructGenerator::new(input, st)
         .read_fields()
-        .wrap_debug(ident)
         .add_assertions(core::iter::empty())
         .return_value(None)
+        .wrap_debug(ident)
         .finish()
 }
 
@@ -104,8 +104,11 @@ impl<'input> StructGenerator<'input> {
             let body = self.out;
             self.out = quote! {
                 #debug_tpl_start
-                #body
+                let #TEMP = (|| {
+                    #body
+                })();
                 #debug_tpl_end
+                #TEMP
             };
         }
 
-- 
2.43.0


From a38400007ed95bd66606548ba7a3dac18bf13038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 21/27] fix: debug templates report I/O errors instead of
 panicking

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index 0589fd5..d6da1b9 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -85,7 +85,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 8d11b41..b1d6823 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -164,7 +164,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -197,7 +197,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From efd9adba7b478ceacd9086ebc77e6079b0444e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 22/27] fix: debug templates describe collections once, and
 vectors by their name

---
 binread/src/binread_impls.rs | 32 +++++++++++++++++++++-----------
 binread/src/file_ptr.rs      | 20 +++++++++++---------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 530cfb3..deab037 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -104,7 +104,13 @@ impl<C: Copy + 'static, B: BinRead<Args = C>> BinRead for Vec<B> {
                 type_name
             };
 
-            binary_template::write_vec(options.endian, pos, type_name, count);
+            if !options.dont_output_to_template {
+                if let Some(name) = options.variable_name {
+                    binary_template::write_vec_named(options.endian, pos, type_name, count, name);
+                } else {
+                    binary_template::write_vec(options.endian, pos, type_name, count);
+                }
+            }
 
             options.dont_output_to_template = true;
         }
@@ -144,12 +150,14 @@ macro_rules! binread_array_impl {
                         let pos = reader.stream_pos()?;
                         let type_name = core::any::type_name::<B>().rsplitn(1, "::").nth(0).unwrap();
 
-                        if let Some(name) = options.variable_name {
-                            binary_template::write_vec_named(
-                                options.endian, pos, type_name, $size, name
-                            );
-                        } else {
-                            binary_template::write_vec(options.endian, pos, type_name, $size);
+                        if !options.dont_output_to_template {
+                            if let Some(name) = options.variable_name {
+                                binary_template::write_vec_named(
+                                    options.endian, pos, type_name, $size, name
+                                );
+                            } else {
+                                binary_template::write_vec(options.endian, pos, type_name, $size);
+                            }
                         }
                     }
 
@@ -200,10 +208,12 @@ impl<C: Copy + 'static, B: BinRead<Args = C>, const N: usize> BinRead for [B; N]
             let pos = reader.stream_pos()?;
             let type_name = core::any::type_name::<B>().rsplitn(1, "::").nth(0).unwrap();
 
-            if let Some(name) = options.variable_name {
-                binary_template::write_vec_named(options.endian, pos, type_name, N, name);
-            } else {
-                binary_template::write_vec(options.endian, pos, type_name, N);
+            if !options.dont_output_to_template {
+                if let Some(name) = options.variable_name {
+                    binary_template::write_vec_named(options.endian, pos, type_name, N, name);
+                } else {
+                    binary_template::write_vec(options.endian, pos, type_name, N);
+                }
             }
         }
 
diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index d6da1b9..69e5d2a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -87,15 +87,17 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
 
             let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
-            if let Some(name) = options.variable_name {
-                binary_template::write_named(
-                    options.endian,
-                    pos,
-                    type_name,
-                    &format!("ptr_to_{}", name),
-                );
-            } else {
-                binary_template::write(options.endian, pos, type_name);
+            if !options.dont_output_to_template {
+                if let Some(name) = options.variable_name {
+                    binary_template::write_named(
+                        options.endian,
+                        pos,
+                        type_name,
+                        &format!("ptr_to_{}", name),
+                    );
+                } else {
+                    binary_template::write(options.endian, pos, type_name);
+                }
             }
             options.dont_output_to_template = true;
 
-- 
2.43.0


From 03a7fcf44aea157005d13831443e3d9f502e4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 23/27] fix: elements read by the helpers keep the debug
 template's options

---
 binread/src/helpers.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 2f9747a..de75ad5 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -12,11 +12,7 @@ fn read_element<R: Read + Seek, T: BinRead>(
     ro: &ReadOptions,
     args: T::Args,
 ) -> BinResult<T> {
-    let options = ReadOptions {
-        endian: ro.endian,
-        offset: ro.offset,
-        ..Default::default()
-    };
+    let options = ReadOptions { count: None, ..*ro };
 
     let mut res = T::read_options(reader, &options, args)?;
     res.after_parse(reader, &options, args)?;
-- 
2.43.0


From 535392c2d21464ee350ec1abc48b9c32d403175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:02 +0000
Subject: [PATCH 24/27] fix: seeks of the no_std Cursor must not overflow

---
 binread/src/io/cursor.rs | 45 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index 5f8ab56..dd0f5af 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,34 +51,31 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = (end + x) as u64;
-                    Ok(self.pos)
-                }
+            SeekFrom::Current(x) => (self.pos, x),
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+        };
+
+        // positions are the whole of u64, of which an i64 cannot hold the sum
+        let target = if offset < 0 {
+            base.checked_sub(offset.wrapping_neg() as u64)
+        } else {
+            base.checked_add(offset as u64)
+        };
+
+        match target {
+            Some(target) => {
+                self.pos = target;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From 7d797da92642515a5248cf231e72cc3abafbb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 25/27] fix: pad_size_to and alignment at positions beyond
 i64::MAX

---
 binread_derive/src/codegen/read_options/struct.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 0f8c3aa..0cb8fcb 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -440,10 +440,11 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let handle_error = debug_template::handle_error();
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
-            let pad = (#pad) as i64;
-            let size = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64 - #POS as i64;
-            if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+            // the positions and their distance need not fit in an i64
+            let end = #POS as i128 + (#pad) as i128;
+            if (#POS_TRAIT::stream_pos(#READER)#handle_error? as i128) < end {
+                let end = ::core::convert::TryFrom::try_from(end).unwrap_or(::core::u64::MAX);
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(end))#handle_error?;
             }
         }}
     });
@@ -497,10 +498,11 @@ fn get_return_type(variant_ident: Option<&Ident>) -> TokenStream {
 fn map_align(align: &TokenStream) -> TokenStream {
     let handle_error = debug_template::handle_error();
     quote! {{
-        let align = (#align) as i64;
-        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
+        let align = (#align) as i128;
+        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i128;
         // an alignment of zero, possibly read from the input, is no alignment
         let padding = pos.checked_rem(align).map_or(0, |rem| align.wrapping_sub(rem) % align);
+        let padding = ::core::convert::TryFrom::try_from(padding).unwrap_or(::core::i64::MAX);
         #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(padding))#handle_error?;
     }}
 }
-- 
2.43.0


From 739d92e62fd1d843fab380fa20f6a37efdac25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:44 +0000
Subject: [PATCH 26/27] fix: debug_template does not need a format! macro in
 the scope of the derived type

---
 binread/src/private.rs                                    | 3 +++
 binread_derive/src/codegen/read_options/debug_template.rs | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index fce8048..f35d7ff 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -2,6 +2,9 @@ use crate::{io, BinRead, BinResult, Error, ReadOptions};
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, string::String};
 
+#[cfg(feature = "debug_template")]
+pub use std::format;
+
 pub enum AssertErrorFn<M, E> {
     Message(M),
     Error(E),
diff --git a/binread_derive/src/codegen/read_options/debug_template.rs b/binread_derive/src/codegen/read_options/debug_template.rs
index 92c2b1d..61fed8c 100644
--- a/binread_derive/src/codegen/read_options/debug_template.rs
+++ b/binread_derive/src/codegen/read_options/debug_template.rs
@@ -4,6 +4,7 @@ use quote::quote;
 use syn::Ident;
 
 ident_str! {
+    FORMAT = from_crate!(__private::format);
     WRITE_COMMENT = from_crate!(binary_template::write_comment);
     WRITE_START_STRUCT = from_crate!(binary_template::write_start_struct);
     WRITE_END_STRUCT = from_crate!(binary_template::write_end_struct);
@@ -23,7 +24,7 @@ pub(super) fn handle_error() -> TokenStream {
     if cfg!(feature = "debug_template") {
         quote! {
             .map_err(|e| {
-                #WRITE_COMMENT(&format!("Error: {:?}", e));
+                #WRITE_COMMENT(&#FORMAT!("Error: {:?}", e));
                 e
             })
         }
-- 
2.43.0


From a68db463f5d0655aa32f8b96729e23a342ff3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:44 +0000
Subject: [PATCH 27/27] fix: a type parameter or a type named R does not clash
 with the generated reader type

---
 binread_derive/src/codegen/mod.rs          | 4 ++--
 binread_derive/src/codegen/sanitization.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/mod.rs b/binread_derive/src/codegen/mod.rs
index 0d8d711..613f8fe 100644
--- a/binread_derive/src/codegen/mod.rs
+++ b/binread_derive/src/codegen/mod.rs
@@ -33,8 +33,8 @@ pub(crate) fn generate_impl(
         impl #impl_generics #TRAIT_NAME for #name #ty_generics #where_clause {
             type Args = #arg_type;
 
-            fn read_options<R: #READ_TRAIT + #SEEK_TRAIT>
-                (#READER: &mut R, #OPT: &#OPTIONS, #ARGS: Self::Args)
+            fn read_options<#READER_TYPE: #READ_TRAIT + #SEEK_TRAIT>
+                (#READER: &mut #READER_TYPE, #OPT: &#OPTIONS, #ARGS: Self::Args)
                 -> #BIN_RESULT<Self>
             {
                 #read_opt_impl
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 2684781..2c789ef 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -44,6 +44,7 @@ ident_str! {
     pub(super) READ_METHOD = from_trait!(read_options);
     pub(super) AFTER_PARSE = from_trait!(after_parse);
     pub(super) READER = "__binread_generated_var_reader";
+    pub(super) READER_TYPE = "__BinReadGeneratedTypeReader";
     pub(super) OPT = "__binread_generated_var_options";
     pub(super) ARGS = "__binread_generated_var_arguments";
     pub(super) SAVED_POSITION = "__binread_generated_saved_position";
-- 
2.43.0

