From 40ab5f7b9753938dc8e97a3ce1cb9903960ce9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 01/13] fix: reject tuples with a wrong number of elements
 instead of panicking

---
 src/decode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..dc57bdc 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,14 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut values = values.into_iter();
+                let result = (for_tuples!( #( Tuple::try_from_cbor_value(values.next().ok_or(DecodeError::UnexpectedType)?)? ),* ));
+                // The number of elements must match exactly.
+                if values.next().is_some() {
+                    return Err(DecodeError::UnexpectedType);
+                }
+                Ok(result)
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 502d357599655ff912551a5128c2bb0df9104867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 02/13] fix: do not reject unknown fields that sort before a
 known field with allow_unknown

---
 derive/src/decode.rs | 10 ++++++++--
 src/macros.rs        | 11 +++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..890c3d4 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,8 +148,14 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct_fn = if allow_unknown {
+                            // Skip over any unknown fields.
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_allow_unknown)
+                        } else {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict)
+                        };
                         let field_value = quote!({
                             let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..8c8a481 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,5 +1,7 @@
 use std::{cmp::Ordering, iter::Peekable};
 
+use oasis_cbor_value::macros::destructure_cbor_map_peek_value;
+
 use crate::{values::Value, DecodeError};
 
 /// This function is an internal detail of the Decode derive macro, but has public visibility so
@@ -26,3 +28,12 @@ pub fn destructure_cbor_map_peek_value_strict(
         }
     }
 }
+
+/// This function is an internal detail of the Decode derive macro, but has public visibility so
+/// that users of the macro can use it.
+pub fn destructure_cbor_map_peek_value_allow_unknown(
+    it: &mut Peekable<std::vec::IntoIter<(Value, Value)>>,
+    needle: Value,
+) -> Result<Option<Value>, DecodeError> {
+    Ok(destructure_cbor_map_peek_value(it, needle))
+}
-- 
2.43.0


From cd85949bfc1d38d924f534b4b242036e42359e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 03/13] fix: encode unit variants of internally tagged enums as
 maps

---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..ebaf6d9 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // Internally tagged enums need a map to put the tag into.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From e3ece61ac5616f975e5f88b2b08b87249fcd734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 04/13] fix: sort map entries by the canonical encoding of keys
 that contain maps

---
 value/src/writer.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..b6ee515 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -80,6 +80,11 @@ impl<'a> Writer<'a> {
                 }
             }
             Value::Map(mut map) => {
+                // Any maps nested in keys must be in canonical order as well as otherwise comparing
+                // keys would depend on the order of their entries.
+                for (k, _) in map.iter_mut() {
+                    sort_nested_maps(k, remaining_depth.map(|d| d - 1));
+                }
                 map.sort_by(|a, b| a.0.cmp(&b.0));
                 let map_len = map.len();
                 map.dedup_by(|a, b| a.0.eq(&b.0));
@@ -118,6 +123,32 @@ impl<'a> Writer<'a> {
     }
 }
 
+/// Put all maps in the given [`Value`] in canonical order, ignoring anything nested too deeply to be
+/// encoded.
+fn sort_nested_maps(value: &mut Value, remaining_depth: Option<i8>) {
+    if remaining_depth.map_or(false, |d| d < 0) {
+        return;
+    }
+    match value {
+        Value::Array(array) => {
+            for el in array.iter_mut() {
+                sort_nested_maps(el, remaining_depth.map(|d| d - 1));
+            }
+        }
+        Value::Map(map) => {
+            for (k, v) in map.iter_mut() {
+                sort_nested_maps(k, remaining_depth.map(|d| d - 1));
+                sort_nested_maps(v, remaining_depth.map(|d| d - 1));
+            }
+            map.sort_by(|a, b| a.0.cmp(&b.0));
+        }
+        Value::Tag(_, inner_value) => {
+            sort_nested_maps(inner_value, remaining_depth.map(|d| d - 1));
+        }
+        _ => {}
+    }
+}
+
 #[cfg(test)]
 mod test {
     use alloc::vec;
-- 
2.43.0


From 4755047fef8ebc5f11ac25ee5fcef7f979a6fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 05/13] fix: make the encoding of HashSet deterministic

---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..f5f354f 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -289,7 +289,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        let mut values: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        // Iteration order is arbitrary, sort the elements so that the encoding is deterministic.
+        values.sort();
+        Value::Array(values)
     }
 }
 
-- 
2.43.0


From 6cb219b7b1e1961aff07abdcc1752cfd19650bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 06/13] fix: do not wrap large negative integers in the serde
 deserializer

---
 src/serde/de.rs    | 7 +++++--
 src/serde/error.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..491ffe1 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom as _, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
diff --git a/src/serde/error.rs b/src/serde/error.rs
index 8d24a01..202b358 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{convert::TryFrom as _, fmt::Display};
 
 use serde::{de, ser};
 
@@ -48,7 +48,10 @@ impl de::Error for Error {
 pub(crate) fn unexpected(v: &Value) -> de::Unexpected {
     match v {
         Value::Unsigned(n) => de::Unexpected::Unsigned(*n),
-        Value::Negative(n) => de::Unexpected::Signed(*n as i64),
+        Value::Negative(n) => match i64::try_from(*n) {
+            Ok(n) => de::Unexpected::Signed(n),
+            Err(_) => de::Unexpected::Other("integer"),
+        },
         Value::ByteString(s) => de::Unexpected::Bytes(s),
         Value::TextString(s) => de::Unexpected::Str(s),
         Value::Array(_) => de::Unexpected::Seq,
-- 
2.43.0


From 518ae41fbecdfc3b2704a0c977d6b43a730064a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 07/13] fix: reject excess array elements in the serde
 deserializer

---
 src/serde/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 491ffe1..36b8d5d 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -119,7 +119,14 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             Value::Array(a) => a,
             _ => return Err(Error::invalid_type(unexpected(&self.0), &"array")),
         };
-        visitor.visit_seq(SeqAccessImpl(items.into_iter()))
+        let len = items.len();
+        let mut access = SeqAccessImpl(items.into_iter());
+        let value = visitor.visit_seq(&mut access)?;
+        // Make sure the visitor consumed all of the elements.
+        if access.0.next().is_some() {
+            return Err(Error::invalid_length(len, &"fewer elements in array"));
+        }
+        Ok(value)
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From bff01e5a3580351200974b1f9008e056df6c5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 08/13] fix: do not truncate string lengths where usize is
 smaller than 64 bits

---
 value/src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..7061eb4 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -15,6 +15,7 @@
 //! Functionality for deserializing CBOR data into values.
 
 use alloc::{str, vec::Vec};
+use core::convert::TryFrom;
 
 use super::values::{Constants, SimpleValue, Value};
 use crate::{
@@ -165,14 +166,14 @@ impl<'a> Reader<'a> {
     }
 
     fn read_byte_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(usize::try_from(size_value).unwrap_or(usize::MAX)) {
             Some(bytes) => Ok(cbor_bytes_lit!(bytes)),
             None => Err(DecoderError::IncompleteCborData),
         }
     }
 
     fn read_text_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(usize::try_from(size_value).unwrap_or(usize::MAX)) {
             Some(bytes) => match str::from_utf8(bytes) {
                 Ok(s) => Ok(cbor_text!(s)),
                 Err(_) => Err(DecoderError::InvalidUtf8),
-- 
2.43.0


From 47ed80f697aa70c4de697502578e64b0e2bb4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 09/13] fix: do not interpret floats as simple values in
 non-strict decoding

---
 value/src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 7061eb4..c9540e5 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -232,8 +232,11 @@ impl<'a> Reader<'a> {
     ) -> Result<Value, DecoderError> {
         if additional_info > Constants::ADDITIONAL_INFORMATION_MAX_INT
             && additional_info != Constants::ADDITIONAL_INFORMATION_1_BYTE
-            && !self.non_strict
         {
+            if self.non_strict {
+                // Floating-point values are not supported, do not interpret their bits.
+                return Ok(Value::Simple(SimpleValue::Undefined));
+            }
             // TODO(kaczmarczyck) the chromium C++ reference allows equality to 24 here, why?
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
-- 
2.43.0


From f06ed4bbe6ff670c9a391bd252f9653820946ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 10/13] fix: respect serialize_with for optional fields

---
 derive/src/encode.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index ebaf6d9..6810c31 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -144,11 +144,12 @@ fn derive_struct(
                         }),
                 };
 
-                let field_value = if let Some(custom_encode_fn) = &field.serialize_with {
-                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#custom_encode_fn(&#field_binding)))
+                let field_binding_or_custom = if let Some(custom_encode_fn) = &field.serialize_with {
+                    quote_spanned!(field_ty.span()=> #custom_encode_fn(&#field_binding))
                 } else {
-                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#field_binding))
+                    quote!( #field_binding )
                 };
+                let field_value = quote_spanned!(field_ty.span()=> __cbor::Encode::into_cbor_value(#field_binding_or_custom));
 
                 if as_array {
                     // Output the fields as a CBOR array.
@@ -173,7 +174,7 @@ fn derive_struct(
                         match &field.skip_serializing_if {
                             None => {
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding_or_custom) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From b89f91c3fb7ead4a9c9ad698c065e22cf5854cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 11/13] fix: try embedded decoders for maps with any number of
 entries

---
 derive/src/decode.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 890c3d4..3fdc4a5 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -405,6 +405,15 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             Err(__cbor::DecodeError::UnknownField)
         }
     } else {
+        // Embedded enums may be encoded as maps of any size (e.g. if they are internally tagged).
+        let embedded_decoders_multi_map = if !embedded_decoders.is_empty() {
+            quote! {
+                let value = __cbor::Value::Map(map);
+                #(#embedded_decoders)*
+            }
+        } else {
+            quote!()
+        };
         let embedded_decoders_map = if !embedded_decoders.is_empty() {
             quote! {
                 let value = __cbor::Value::Map(vec![(key, value)]);
@@ -418,6 +427,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             match value {
                 __cbor::Value::Map(mut map) => {
                     if map.len() != 1 {
+                        #embedded_decoders_multi_map
                         return Err(__cbor::DecodeError::UnknownField);
                     }
 
-- 
2.43.0


From eb27c0283a601338bce9c821770630467fb15419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 12/13] fix: do not panic on empty input in the differential
 fuzzer

---
 difffuzz/difffuzz.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/difffuzz/difffuzz.go b/difffuzz/difffuzz.go
index 36aeea0..55cfb63 100644
--- a/difffuzz/difffuzz.go
+++ b/difffuzz/difffuzz.go
@@ -12,6 +12,10 @@ import (
 )
 
 func CborFromSlice(data []byte) error {
+	if len(data) == 0 {
+		return fmt.Errorf("error during decoding")
+	}
+
 	ptr := (*C.uchar)(unsafe.Pointer(&data[0]))
 	len := C.size_t(len(data))
 	result := C.cbor_from_slice(ptr, len)
-- 
2.43.0


From 6161945c59e1a0f60de651782f8995e58363540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 13/13] fix: check the type and fields when decoding unit
 structs and variants

---
 derive/src/decode.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 3fdc4a5..8393e6e 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -24,6 +24,7 @@ pub fn derive(input: DeriveInput) -> TokenStream {
                 dec.transparent.is_present(),
                 dec.as_array.is_present(),
                 dec.allow_unknown.is_present(),
+                false,
                 fields,
                 quote!(Self),
             );
@@ -72,6 +73,7 @@ fn derive_struct(
     transparent: bool,
     as_array: bool,
     allow_unknown: bool,
+    unit_as_struct: bool,
     fields: darling::ast::Fields<&Field>,
     self_ty: TokenStream,
 ) -> TokenStream {
@@ -80,6 +82,14 @@ fn derive_struct(
         // newtype structs.
         let decode_fn = quote_spanned!(ident.span()=> __cbor::Decode::try_from_cbor_value_default);
         quote!(Self(#decode_fn(value)?))
+    } else if fields.is_unit() && !unit_as_struct {
+        // This is a unit struct with no fields.
+        quote! {
+            match value {
+                __cbor::Value::Simple(__cbor::SimpleValue::NullValue | __cbor::SimpleValue::Undefined) => #self_ty,
+                _ => return Err(__cbor::DecodeError::UnexpectedType),
+            }
+        }
     } else {
         // Process all fields and decode the structure as a map or array.
         let as_array = fields.is_tuple() || fields.is_newtype() || as_array;
@@ -119,9 +129,6 @@ fn derive_struct(
                 .collect();
 
             (extract_value, field_map_items)
-        } else if fields.is_unit() {
-            // This is a unit struct with no fields.
-            (quote! {Vec::<()>::new()}, vec![])
         } else {
             // Field represented as a map.
             let extract_value = quote! {
@@ -291,6 +298,8 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
                     false,
                     variant.as_array.is_present(),
                     variant.allow_unknown.is_present(),
+                    // Internally tagged enums always use maps.
+                    variant.as_struct.is_present() || dec.tag.is_some(),
                     variant.fields.as_ref(),
                     quote!(Self::#variant_ident),
                 );
-- 
2.43.0

