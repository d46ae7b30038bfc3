From 7c41af5c3bd9a91f44b50897b7225d3dbacd91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 01/13] fix: reading null or undefined refuses the other
 constants

---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..4db591f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -289,14 +289,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From 89cdf8a1665fcd2b6593039a506d32448aa390fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 02/13] fix: no overflow when peeking a huge length

---
 src/context.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..bf7fb98 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -57,7 +57,6 @@ impl<'a> CborDataReader<'a> {
         }
         let offseted_rem = rem - offset;
         let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,7 +64,7 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
-            Ok(&self.data[start..end])
+            Ok(&self.data[start..start + n])
         }
     }
 
-- 
2.43.0


From 241cf78479fcb7728aa87025f5694d78c4b978f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 03/13] fix: canonical bytes 20 to 23 use the two-byte encoding

---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..ac4863d 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // 20 to 23 are the constants, which have no immediate byte encoding
+            _ if v < 20 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 20, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 20,
         }
     }
 }
-- 
2.43.0


From 07487e6dc83b39249638aa4677a7cce2d0ebd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 04/13] fix: state machine refuses foreign chunks in strings
 and indefinite maps of odd length

---
 src/state.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..33d0e73 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { exp_val: _ } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -220,6 +224,13 @@ impl State {
             }
             // A regular text or bytes, we can just call item_simple
             Some(_b) => {
+                match (self.ctx.last(), new_stream) {
+                    (Some(StructTy::Stream(StreamType::Bytes)), StreamType::Text)
+                    | (Some(StructTy::Stream(StreamType::Text)), StreamType::Bytes) => {
+                        return Err(StateError::InvalidTypeInChunk);
+                    }
+                    _ => (),
+                };
                 self.advance()?;
                 self.check_reduce()
             }
@@ -261,6 +272,12 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
         self.advance()?;
         self.check_reduce()
     }
@@ -288,7 +305,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -297,6 +314,10 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            // a value is still missing for the last key
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From 188f531dcecb7721cc47c5e0f80e544d31bec02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 05/13] fix: validating owned data as a type refuses trailing
 bytes

---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From ea7c9a607b9cee5ab5b2022ceff5480b30271aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 06/13] fix: derived enum variants are numbered from
 variant_starts_at, not twice of it

---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..24f6c13 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From e91c98237301bdbe1f86e8c24d259923a26c58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 07/13] fix: derived map decoding counts keys from
 map_starts_at, as encoding does

---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From f67d09fd5717b673ecef1ca05b54ffc40d8e5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 08/13] fix: derived map decoding handles keys of any size

---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..d623dab 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 86b5e8f7e1e859645bb93a47dfa75267a3df6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 09/13] fix: derived flat structures with a tag decode the tag
 they encode

---
 cbored-derive/src/product.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index d623dab..5a41612 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,7 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => (tag_wrapper, DeStructure::Flat),
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
@@ -443,6 +443,13 @@ pub(crate) fn derive_struct_de(
 
     let prelude_deser = quote! { #prelude_sty_de };
 
+    // how a field of a flat structure is decoded: from the content of the tag, if there is one
+    let flat_decode = if tag_structure {
+        quote! { tag.decode_data() }
+    } else {
+        quote! { reader.decode() }
+    };
+
     let mut de_bodies = Vec::new();
 
     // create the quote that deserialize all the elements one by one
@@ -597,7 +604,7 @@ pub(crate) fn derive_struct_de(
                         } = &field;
                         let field_name_str = format!("{}", field_name);
                         let de_body = quote! {
-                            let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                            let #field_name = #flat_decode.map_err(|e| e.push_str(#field_name_str))?;
                         };
                         de_bodies.push(de_body);
                     }
@@ -630,7 +637,7 @@ pub(crate) fn derive_struct_de(
                         todo!()
                     }
                     DeStructure::Flat => quote! {
-                        let #field_name = reader.decode().map_err(|e| e.push_str(#field_name_str))?;
+                        let #field_name = #flat_decode.map_err(|e| e.push_str(#field_name_str))?;
                     },
                 };
                 de_bodies.push(de_body);
-- 
2.43.0


From 1c5e1de8c50917520617d83e3959f32665b00b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 10/13] fix: derived enumtype code compiles with null variants
 and without Encode in scope

---
 cbored-derive/src/sum.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 24f6c13..b3e7ea1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -141,7 +141,7 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 { #field_name }
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     Some(StructOutput::Unnamed(field_names)) => {
@@ -153,12 +153,12 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 ( #field_name )
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From a8a738c7dff0dd74ff2c7599886fb226a8e0e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 11/13] fix: rational numbers with a negative bignum numerator
 decode

---
 src/tagged.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..0a13ac7 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -167,6 +167,8 @@ impl RationalNumber {
                     Type::Tag => PositiveBignum::read(&mut inner_reader)
                         .map(RationalNumerator::PositiveBignum)
                         .or_else(|_| {
+                            // start again, as the failed read has consumed the tag
+                            inner_reader = array[0].reader();
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
                         }),
-- 
2.43.0


From 58eaf14ffd06ec85d3a6a1f3ef8e0346ea9a4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 12/13] fix: readers and validators accept an empty buffer

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4db591f..291430d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..a637bed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From 9b0909799167a4a297ca5d544b24db9af7d11cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:09 +0000
Subject: [PATCH 13/13] fix: derive: make a field marked variant="vec" compile
 and be written as the array its decoder expects

---
 cbored-derive/src/product.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 5a41612..e2a465a 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -179,11 +179,12 @@ pub(crate) fn derive_struct_se(
             } else {
                 false
             };
+            let in_array = last_is_opt || attrs.structure_type == StructureType::Array;
             for field in fields.iter() {
                 let Field {
                     index: field_idx,
                     name: field_name,
-                    attrs: _,
+                    attrs: field_attrs,
                     is_vec: _,
                 } = &field;
                 let field_body = if last_is_opt && *field_idx == fields.len() - 1 {
@@ -193,6 +194,14 @@ pub(crate) fn derive_struct_se(
                             Some(v) => writer.encode(v),
                         };
                     }
+                } else if in_array && field_attrs.variant_type == FieldVariantType::Vec {
+                    quote! {
+                        writer.array_build(::cbored::StructureLength::from(self.#field_name.len() as u64), |writer| {
+                            for v in self.#field_name.iter() {
+                                writer.encode(v);
+                            }
+                        });
+                    }
                 } else {
                     quote! {
                         writer.encode(&self.#field_name);
@@ -476,7 +485,7 @@ pub(crate) fn derive_struct_de(
                             quote! {
                                 let #field_name = {
                                     let mut r = array[#field_index].reader();
-                                    let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.push::<Self>())?
+                                    let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
                                         .iter()
                                         .map(|mut r| r.decode())
                                         .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
-- 
2.43.0

