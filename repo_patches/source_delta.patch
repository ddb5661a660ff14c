From 23ac014e4064dd5b4e4e6a2a015f963b2533dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 1/6] fix: serialize a byte string as bytes under an internal
 tag

Serialize for [u8] writes a sequence of integers, so the Serializer's
serialize_bytes turned into serialize_seq. A format that tells bytes from
sequences could not read back what was written.
---
 src/ser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..8c6d090 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -25,6 +25,18 @@ where
     }
 }
 
+// The Serialize impl of `[u8]` writes a sequence.
+struct Bytes<'a>(&'a [u8]);
+
+impl<'a> Serialize for Bytes<'a> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 pub struct InternallyTaggedSerializer<S> {
     pub tag: &'static str,
     pub variant: &'static str,
@@ -122,7 +134,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 60bc880e0ed1267a433fb148cad6376efdecaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 2/6] fix: read internally tagged values the same wherever the
 tag is

Only structs and maps could be read if the tag was not the first key:
{"value":1,"type":"X"} failed while {"type":"X","value":1} was read.
---
 src/internally.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..49d0eb3 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -8,8 +8,8 @@ use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, value, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess,
+    Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -121,8 +121,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut map = value::MapDeserializer::new(entries.into_iter());
+        let object = fn_apply.deserialize(MapWithStringKeys { map: &mut map })?;
+        map.end()?;
+        Ok(object)
     }
 }
 
-- 
2.43.0


From 62ad5c7f6d52aa2daacf1629eabef4b690b597fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 3/6] fix: read a buffered tuple variant without fields

---
 src/content.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..f9d07b9 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -883,16 +883,12 @@ where
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
+            Err(de::Error::invalid_length(len, &"fewer elements in array"))
         }
     }
 
-- 
2.43.0


From 398d448619f3669b35215184ea133ac58d13646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:13 +0000
Subject: [PATCH 4/6] fix: read a buffered f64 from an f32 and floats from any
 integer

---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index f9d07b9..687bb73 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -332,6 +332,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -469,25 +480,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 7749eeb66fc5ba63ada584e51aa4935b057c41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 5/6] fix: read inner enums of internally tagged objects from
 formats without identifiers

The serializer writes the inner variant's name as a string key, but it was
read with whatever call the enum makes for its identifier, which compact
formats such as postcard reject.  Ask for a string, as for all other keys.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 49d0eb3..edaaba9 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -512,7 +512,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From dd06479794a68deed2a7e86fec1a1465a37fac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 6/6] fix: let traits and their type parameters be named S

---
 impl/src/tagged_trait.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index a3162e2..a8f749c 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -39,9 +39,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
-                    S: typetag::#private::serde::Serializer,
+                    __S: typetag::#private::serde::Serializer,
                 {
                     #serialize_impl
                 }
@@ -52,9 +52,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
-                        S: typetag::#private::serde::Serializer,
+                        __S: typetag::#private::serde::Serializer,
                     {
                         typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
                     }
-- 
2.43.0

