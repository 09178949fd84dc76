From 8c0ae1988a01397b43e73a61c2f000cfc6f36fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 01/13] fix: reject arrays of the wrong length when decoding
 tuples

---
 src/decode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..6b904e7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,13 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut values = values.into_iter();
+                let tuple = (for_tuples!( #( Tuple::try_from_cbor_value(values.next().ok_or(DecodeError::UnexpectedType)?)? ),* ));
+                if values.next().is_some() {
+                    return Err(DecodeError::UnexpectedType);
+                }
+                Ok(tuple)
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From c502ce661ded69ff4f0c7e2dc5ff1b4c2b6d9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 02/13] fix: order and deduplicate map entries by their encoded
 keys

---
 value/src/writer.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..b21a286 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -79,16 +79,25 @@ impl<'a> Writer<'a> {
                     self.encode_cbor(el, remaining_depth.map(|d| d - 1))?;
                 }
             }
-            Value::Map(mut map) => {
-                map.sort_by(|a, b| a.0.cmp(&b.0));
-                let map_len = map.len();
-                map.dedup_by(|a, b| a.0.eq(&b.0));
-                if map_len != map.len() {
+            Value::Map(map) => {
+                // Order entries by their encoded keys, as a key may itself contain maps whose
+                // entries are not in canonical order yet.
+                let mut entries = Vec::with_capacity(map.len());
+                for (k, v) in map {
+                    let mut encoded_key = Vec::new();
+                    Writer::new(&mut encoded_key)
+                        .encode_cbor(k, remaining_depth.map(|d| d - 1))?;
+                    entries.push((encoded_key, v));
+                }
+                entries.sort_by(|a, b| a.0.cmp(&b.0));
+                let map_len = entries.len();
+                entries.dedup_by(|a, b| a.0.eq(&b.0));
+                if map_len != entries.len() {
                     return Err(EncoderError::DuplicateMapKey);
                 }
                 self.start_item(type_label, map_len as u64);
-                for (k, v) in map {
-                    self.encode_cbor(k, remaining_depth.map(|d| d - 1))?;
+                for (encoded_key, v) in entries {
+                    self.encoded_cbor.extend(encoded_key);
                     self.encode_cbor(v, remaining_depth.map(|d| d - 1))?;
                 }
             }
-- 
2.43.0


From d428b7eeda13d21c0a0d0d88acb0807613e7bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 03/13] fix: decode floats as undefined in non-strict mode

---
 value/src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..dc98877 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -231,8 +231,11 @@ impl<'a> Reader<'a> {
     ) -> Result<Value, DecoderError> {
         if additional_info > Constants::ADDITIONAL_INFORMATION_MAX_INT
             && additional_info != Constants::ADDITIONAL_INFORMATION_1_BYTE
-            && !self.non_strict
         {
+            if self.non_strict {
+                // The bits of a float must not be mistaken for the number of a simple value.
+                return Ok(Value::Simple(SimpleValue::Undefined));
+            }
             // TODO(kaczmarczyck) the chromium C++ reference allows equality to 24 here, why?
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
-- 
2.43.0


From 4e9ca54c58e39ca63283d840582d44b0c67fc007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 04/13] fix: do not truncate string lengths on 32-bit targets

---
 value/src/reader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index dc98877..b2b0e2d 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -117,11 +117,11 @@ impl<'a> Reader<'a> {
         }
     }
 
-    fn read_bytes(&mut self, num_bytes: usize) -> Option<&[u8]> {
-        if num_bytes > self.remaining_cbor.len() {
+    fn read_bytes(&mut self, num_bytes: u64) -> Option<&[u8]> {
+        if num_bytes > self.remaining_cbor.len() as u64 {
             None
         } else {
-            let (left, right) = self.remaining_cbor.split_at(num_bytes);
+            let (left, right) = self.remaining_cbor.split_at(num_bytes as usize);
             self.remaining_cbor = right;
             Some(left)
         }
@@ -165,14 +165,14 @@ impl<'a> Reader<'a> {
     }
 
     fn read_byte_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(size_value) {
             Some(bytes) => Ok(cbor_bytes_lit!(bytes)),
             None => Err(DecoderError::IncompleteCborData),
         }
     }
 
     fn read_text_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(size_value) {
             Some(bytes) => match str::from_utf8(bytes) {
                 Ok(s) => Ok(cbor_text!(s)),
                 Err(_) => Err(DecoderError::InvalidUtf8),
-- 
2.43.0


From f83b92a5891de3d22b1225b8a5d060d9ae328c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 05/13] fix: do not wrap negative integers that do not fit an
 i64 in the serde deserializer

---
 src/serde/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
-- 
2.43.0


From 56b76be4d472e9b977ec22a39dd739ea80b6d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 06/13] fix: reject unread array elements in the serde
 deserializer

---
 src/serde/de.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index d8f2d58..08ff966 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -119,7 +119,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             Value::Array(a) => a,
             _ => return Err(Error::invalid_type(unexpected(&self.0), &"array")),
         };
-        visitor.visit_seq(SeqAccessImpl(items.into_iter()))
+        let len = items.len();
+        let mut items = SeqAccessImpl(items.into_iter());
+        let value = visitor.visit_seq(&mut items)?;
+        if items.0.next().is_some() {
+            return Err(Error::invalid_length(len, &"fewer elements in array"));
+        }
+        Ok(value)
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From 5be4fca17bc01fe7ef83de6f2f306629cd2f6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 07/13] fix: encode hash sets in a deterministic order

---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..5394fba 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -289,7 +289,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        // Iteration order is arbitrary, so sort to make the encoding deterministic.
+        let mut values: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        values.sort();
+        Value::Array(values)
     }
 }
 
-- 
2.43.0


From caf85fe3f74190aebf79c72184ac339d53dd5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 08/13] fix: encode unit variants of internally tagged enums as
 maps

---
 derive/src/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..0cad0d1 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,7 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From c6312be6695d64e517cd09c2343e252fa436547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 09/13] fix: do not mark enums with skipped or embedded
 variants as encoding to maps

---
 derive/src/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 0cad0d1..8da5582 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -273,7 +273,7 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
 
             if variant.skip.is_present() {
                 // If we need to skip serializing this variant, serialize into undefined.
-                return (quote! { Self::#variant_ident { .. } => __cbor::Value::Simple(__cbor::SimpleValue::Undefined), }, true);
+                return (quote! { Self::#variant_ident { .. } => __cbor::Value::Simple(__cbor::SimpleValue::Undefined), }, false);
             }
 
             if variant.embed.is_present() {
@@ -287,7 +287,7 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                     return (quote!(), false);
                 }
                 // TODO: It would be great if this somehow ensured that there was no overlap etc.
-                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, true);
+                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, false);
             }
 
             if variant.fields.is_unit() && !variant.as_struct.is_present() && enc.tag.is_none() {
-- 
2.43.0


From 016c32d5d6ff7264fd7eb723058a03506f12c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 10/13] fix: apply serialize_with to optional fields

---
 derive/src/encode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 8da5582..b544dde 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -144,11 +144,13 @@ fn derive_struct(
                         }),
                 };
 
-                let field_value = if let Some(custom_encode_fn) = &field.serialize_with {
-                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#custom_encode_fn(&#field_binding)))
+                let field_expr = if let Some(custom_encode_fn) = &field.serialize_with {
+                    quote!( #custom_encode_fn(&#field_binding) )
                 } else {
-                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#field_binding))
+                    quote!( #field_binding )
                 };
+                let field_value =
+                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#field_expr));
 
                 if as_array {
                     // Output the fields as a CBOR array.
@@ -173,7 +175,7 @@ fn derive_struct(
                         match &field.skip_serializing_if {
                             None => {
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_expr) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From 3681dc8ce1bc039c08e5a3f8e57ae74974f77a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 11/13] fix: ignore unknown fields anywhere in a struct with
 allow_unknown

---
 derive/src/decode.rs | 12 +++++++++---
 src/macros.rs        |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..6d5921e 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,10 +148,16 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct_value = if allow_unknown {
+                            // Skip any unknown fields that precede the field.
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value(&mut it, #key))
+                        } else {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict(&mut it, #key)?)
+                        };
                         let field_value = quote!({
-                            let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
+                            let v: Option<__cbor::Value> = #destruct_value;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
                         });
 
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..2310e50 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -2,6 +2,8 @@ use std::{cmp::Ordering, iter::Peekable};
 
 use crate::{values::Value, DecodeError};
 
+pub use oasis_cbor_value::macros::destructure_cbor_map_peek_value;
+
 /// This function is an internal detail of the Decode derive macro, but has public visibility so
 /// that users of the macro can use it.
 pub fn destructure_cbor_map_peek_value_strict(
-- 
2.43.0


From ceca70f738aef332f7248a565c8bff5e9d96d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 12/13] fix: check the value when decoding unit structs and
 unit variants

---
 derive/src/decode.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 6d5921e..6c461cf 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -24,6 +24,7 @@ pub fn derive(input: DeriveInput) -> TokenStream {
                 dec.transparent.is_present(),
                 dec.as_array.is_present(),
                 dec.allow_unknown.is_present(),
+                false,
                 fields,
                 quote!(Self),
             );
@@ -72,6 +73,7 @@ fn derive_struct(
     transparent: bool,
     as_array: bool,
     allow_unknown: bool,
+    unit_as_struct: bool,
     fields: darling::ast::Fields<&Field>,
     self_ty: TokenStream,
 ) -> TokenStream {
@@ -119,9 +121,16 @@ fn derive_struct(
                 .collect();
 
             (extract_value, field_map_items)
-        } else if fields.is_unit() {
-            // This is a unit struct with no fields.
-            (quote! {Vec::<()>::new()}, vec![])
+        } else if fields.is_unit() && !unit_as_struct {
+            // This is a unit struct with no fields, represented as null.
+            let extract_value = quote! {
+                match value {
+                    __cbor::Value::Simple(__cbor::SimpleValue::NullValue) => Vec::<()>::new(),
+                    _ => return Err(__cbor::DecodeError::UnexpectedType),
+                }
+            };
+
+            (extract_value, vec![])
         } else {
             // Field represented as a map.
             let extract_value = quote! {
@@ -291,6 +300,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
                     false,
                     variant.as_array.is_present(),
                     variant.allow_unknown.is_present(),
+                    variant.as_struct.is_present() || dec.tag.is_some(),
                     variant.fields.as_ref(),
                     quote!(Self::#variant_ident),
                 );
-- 
2.43.0


From d83d94a76ad021a23792a1b3682b4a55d53e5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 13/13] fix: decode embedded variants from maps of any length

---
 derive/src/decode.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 6c461cf..667f2b6 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -415,19 +415,26 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             Err(__cbor::DecodeError::UnknownField)
         }
     } else {
-        let embedded_decoders_map = if !embedded_decoders.is_empty() {
-            quote! {
-                let value = __cbor::Value::Map(vec![(key, value)]);
-                #(#embedded_decoders)*
-            }
+        let (embedded_decoders_map, embedded_decoders_multi) = if !embedded_decoders.is_empty() {
+            (
+                quote! {
+                    let value = __cbor::Value::Map(vec![(key, value)]);
+                    #(#embedded_decoders)*
+                },
+                quote! {
+                    let value = __cbor::Value::Map(map);
+                    #(#embedded_decoders)*
+                },
+            )
         } else {
-            quote!()
+            (quote!(), quote!())
         };
 
         quote! {
             match value {
                 __cbor::Value::Map(mut map) => {
                     if map.len() != 1 {
+                        #embedded_decoders_multi
                         return Err(__cbor::DecodeError::UnknownField);
                     }
 
-- 
2.43.0

