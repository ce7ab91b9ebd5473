From a0daba69527e91eac9a5125e48fcd632b76693c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 01/21] fix: register class metadata so that ClassWithId
 records can be parsed

---
 src/binary_parser/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..574b882 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -230,6 +230,8 @@ impl<'i> BinaryParser<'i> {
 
     let err_input = input;
 
+    let is_class_with_id = ClassWithId::parse(input).is_ok();
+
     let (input, (object_id, class)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
@@ -254,6 +256,11 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
+    // Only records which contain class information can be referenced by a `ClassWithId`.
+    if !is_class_with_id {
+      self.classes.insert(object_id, class.clone());
+    }
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
-- 
2.43.0


From b07c01c4f327cfa7de5b41de58afaa150040b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/21] fix: count RETURN_VALUE_INLINE as a flag of the return
 category

---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 5f87a7dd52d8e9b5ab23351d170ab2e793df7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 03/21] fix: decode Char as UTF-8

---
 src/data_type/char.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..43c7d3d 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,10 @@
+use std::str;
+
 use nom::{
   IResult, Parser,
   branch::alt,
+  bytes::complete::take,
   combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
 };
 
 use super::impl_primitive;
@@ -18,17 +20,10 @@ pub struct Char(pub char);
 
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
-    map(
-      alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
-      )),
-      Self,
-    )
-    .parse(input)
-    .map_err(|err| {
+    // A single character encoded as UTF-8, which may be 1 to 4 bytes long.
+    let utf8_char = |len: usize| map_opt(take(len), |bytes| str::from_utf8(bytes).ok()?.chars().next());
+
+    map(alt((utf8_char(1), utf8_char(2), utf8_char(3), utf8_char(4))), Self).parse(input).map_err(|err| {
       into_failure(err)
         .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
     })
-- 
2.43.0


From e1a873f1ffd2fe2090deeb2e3dbe85a93b5357eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 04/21] fix: read DateTime ticks from the low 62 bits and the
 kind from the high two

---
 src/value/date_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..aea3a9d 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,12 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    i64::from(self.0) & 0x3FFF_FFFF_FFFF_FFFF
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    match (i64::from(self.0) >> 62) & 0b11 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From b581f7a330541de72586be1a17b493312f3c43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 05/21] fix: reject a generic list with a size of one more than
 its items

---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From f17671add3fa6b4ab9c53d52c36126ac36142fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 06/21] fix: deserialize a message into an Option

---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 801e85db69302eaf44613353334ec752823efe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 07/21] fix: limit the length of decimal strings to avoid a
 stack overflow

---
 src/data_type/decimal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data_type/decimal.rs b/src/data_type/decimal.rs
index 86898d3..f74330f 100644
--- a/src/data_type/decimal.rs
+++ b/src/data_type/decimal.rs
@@ -13,11 +13,19 @@ use crate::{
 pub struct Decimal(pub rust_decimal::Decimal);
 
 impl Decimal {
+  /// Maximum length of the string representation. A decimal has at most 29 significant digits.
+  const MAX_LEN: usize = 64;
+
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
     let err_input = input;
 
     let (input, s) = LengthPrefixedString::parse(input)?;
 
+    // `Decimal::from_str` recurses for every character.
+    if s.as_str().len() > Self::MAX_LEN {
+      return Err(nom::Err::Failure(error_position!(err_input, ExpectedPrimitive(PrimitiveType::Decimal))))
+    }
+
     if let Ok(decimal) = rust_decimal::Decimal::from_str(s.as_str()) {
       Ok((input, Self(decimal)))
     } else {
-- 
2.43.0


From 76a6d15304d37954d396ee194fff7cb817ffab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 08/21] fix: do not look for a library record in front of an
 untyped primitive

---
 src/binary_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 574b882..ad4c3a5 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -95,7 +95,11 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    // The first byte of an untyped primitive is part of its value and never a record type.
+    let input = match type_enum_and_additional_type_info {
+      Some((BinaryType::Primitive, _)) => input,
+      _ => self.parse_binary_library(input)?.0,
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0


From 17ef6a30a41b5192c55d342fef5fc5f4a4b47505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 09/21] fix: allow a library record in front of arrays, method
 calls and method returns

---
 src/binary_parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index ad4c3a5..3bcc5d1 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -81,7 +81,12 @@ impl<'i> BinaryParser<'i> {
     if let Some(binary_library) = binary_library {
       let library_id = binary_library.library_id();
 
-      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
+      let library_name = binary_library.library_name.as_str();
+
+      // The same record may be parsed more than once when trying multiple alternatives.
+      let is_duplicate = |name: LengthPrefixedString<'i>| !std::ptr::eq(name.as_str(), library_name);
+
+      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some_and(is_duplicate) {
         return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
       }
     }
-- 
2.43.0


From d9e633d06a91851e84fb3c4a25f49a316dea255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 10/21] fix: reject null runs which exceed the length of a
 single-dimension array

---
 src/binary_parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 3bcc5d1..0965be8 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -336,6 +336,9 @@ impl<'i> BinaryParser<'i> {
       (input, member) = self.parse_member_reference(input, None)?;
 
       match member {
+        ValueOrRef::Null(count) if count > len - members.len() => {
+          return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+        },
         ValueOrRef::Null(count) => {
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
@@ -382,6 +385,9 @@ impl<'i> BinaryParser<'i> {
       (input, member) = self.parse_member_reference(input, Some((BinaryType::StringArray, None)))?;
 
       match member {
+        ValueOrRef::Null(count) if count > len - members.len() => {
+          return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+        },
         ValueOrRef::Null(count) => {
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
-- 
2.43.0


From 767bdb41843332468f9c0f784e4d26d90da58558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 11/21] fix: count null runs in binary arrays and classes as
 the number of members they stand for

---
 src/binary_parser/mod.rs | 61 ++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 0965be8..5228bec 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,5 +1,6 @@
 use std::{
   collections::{BTreeMap, HashMap},
+  iter,
   num::NonZeroU32,
 };
 
@@ -177,22 +178,46 @@ impl<'i> BinaryParser<'i> {
     Ok((input, object))
   }
 
-  fn parse_members_with_type_info(
+  /// Parses `len` members, one `NULL` run may stand for more than one member.
+  fn parse_members<'t>(
     &mut self,
     mut input: &'i [u8],
-    member_type_info: &MemberTypeInfo<'i>,
-  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
-    let mut member_references = vec![];
+    len: usize,
+    type_info: impl Fn(usize) -> Option<(BinaryType, Option<&'t AdditionalTypeInfo<'i>>)>,
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>>
+  where
+    'i: 't,
+  {
+    let mut members = vec![];
 
-    for (binary_type_enum, additional_info) in
-      member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter())
-    {
+    while members.len() < len {
       let member;
-      (input, member) = self.parse_member_reference(input, Some((*binary_type_enum, additional_info.as_ref())))?;
-      member_references.push(member);
+      (input, member) = self.parse_member_reference(input, type_info(members.len()))?;
+
+      match member {
+        ValueOrRef::Null(count) if count > len - members.len() => {
+          return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+        },
+        ValueOrRef::Null(count) => {
+          members.extend(iter::repeat_n(ValueOrRef::Null(1), count));
+        },
+        _ => {
+          members.push(member);
+        },
+      }
     }
 
-    Ok((input, member_references))
+    Ok((input, members))
+  }
+
+  fn parse_members_with_type_info(
+    &mut self,
+    input: &'i [u8],
+    member_type_info: &MemberTypeInfo<'i>,
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
+    self.parse_members(input, member_type_info.binary_type_enums.len(), |i| {
+      Some((member_type_info.binary_type_enums[i], member_type_info.additional_infos[i].as_ref()))
+    })
   }
 
   /// Resolves members from already parsed objects or by parsing missing members.
@@ -279,8 +304,7 @@ impl<'i> BinaryParser<'i> {
         };
 
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+        let (input, member_references) = self.parse_members(input, member_count, |_| None)?;
 
         (input, (class.class_info(), Some(library), member_references))
       },
@@ -297,8 +321,7 @@ impl<'i> BinaryParser<'i> {
       },
       Class::SystemClassWithMembers(ref class) => {
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+        let (input, member_references) = self.parse_members(input, member_count, |_| None)?;
 
         (input, (class.class_info(), None, member_references))
       },
@@ -415,13 +438,9 @@ impl<'i> BinaryParser<'i> {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
-      member_count,
-    )
-    .parse(input)?;
+    let (input, members) = self.parse_members(input, member_count, |_| {
+      Some((binary_array.type_enum, binary_array.additional_type_info.as_ref()))
+    })?;
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From 9fdbf6dcd173abc7040c05014de532aa5a50a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 12/21] fix: split multi-dimensional arrays in linear time

---
 src/binary_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 5228bec..9b93da4 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -449,8 +449,9 @@ impl<'i> BinaryParser<'i> {
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      let mut rest = members.into_iter().peekable();
+      while rest.peek().is_some() {
+        members2.push(Value::Array(rest.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
-- 
2.43.0


From 35c8c7ad1b6aef887e1c1753b0b5a9eb22eb62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 13/21] fix: accept references and nulls for typed members

---
 src/binary_parser/mod.rs | 57 ++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 9b93da4..bc03f10 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -114,19 +114,18 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
-          if let Ok((input, (_, object))) = self.parse_classes(input) {
-            if object.class != class_name.as_str() || object.library.is_some() {
-              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
-            }
-
-            (input, ValueOrRef::Value(Value::Object(object)))
-          } else {
-            Self::parse_null_object(input)?
+          match self.parse_classes(input) {
+            Ok((input, (_, object))) => {
+              if object.class != class_name.as_str() || object.library.is_some() {
+                return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
+              }
+
+              (input, ValueOrRef::Value(Value::Object(object)))
+            },
+            Err(nom::Err::Error(_)) => Self::parse_reference_or_null(input)?,
+            Err(err) => return Err(err),
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -138,29 +137,26 @@ impl<'i> BinaryParser<'i> {
             return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
           };
 
-          if let Ok((input, (_, object))) = self.parse_classes(input) {
-            if object.class != class_type_info.type_name.as_str() || object.library != Some(library) {
-              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
-            }
+          match self.parse_classes(input) {
+            Ok((input, (_, object))) => {
+              if object.class != class_type_info.type_name.as_str() || object.library != Some(library) {
+                return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
+              }
 
-            (input, ValueOrRef::Value(Value::Object(object)))
-          } else {
-            Self::parse_null_object(input)?
+              (input, ValueOrRef::Value(Value::Object(object)))
+            },
+            Err(nom::Err::Error(_)) => Self::parse_reference_or_null(input)?,
+            Err(err) => return Err(err),
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
+        (BinaryType::String | BinaryType::StringArray, None) => alt((
           map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
-          map(
-            |input| MemberReference::parse(input),
-            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
-          ),
-          Self::parse_null_object,
+          Self::parse_reference_or_null,
         ))
         .parse(input)?,
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+          Self::parse_reference_or_null(input)?
         },
         _ => unreachable!(),
       }
@@ -503,6 +499,15 @@ impl<'i> BinaryParser<'i> {
     .parse(input)
   }
 
+  /// A reference to an object or a `NULL` instead of an inline object.
+  fn parse_reference_or_null(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   fn parse_call_array(
     &mut self,
     input: &'i [u8],
-- 
2.43.0


From e6b45cdd220324a8af201bf5fe13604e71b1fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 14/21] fix: resolve references to strings which are members of
 other objects

---
 src/binary_parser/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index bc03f10..c22499e 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -151,7 +151,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::String | BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          map(|input| self.parse_string(input), |s| ValueOrRef::Value(Value::String(s))),
           Self::parse_reference_or_null,
         ))
         .parse(input)?,
@@ -161,14 +161,13 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        map(|input| self.parse_string(input), |s| ValueOrRef::Value(Value::String(s))),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
@@ -216,6 +215,22 @@ impl<'i> BinaryParser<'i> {
     })
   }
 
+  /// Parses a string which may be referenced by other members.
+  fn parse_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], &'i str, Error<'i>> {
+    let (input, string) = BinaryObjectString::parse(input)?;
+
+    self.objects.insert(string.object_id(), Value::String(string.as_str()));
+    Ok((input, string.as_str()))
+  }
+
+  /// Takes a parsed object, strings stay available since they may be referenced more than once.
+  fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
+    match self.objects.get(&id.0) {
+      Some(Value::String(string)) => Some(Value::String(string)),
+      _ => self.objects.remove(&id.0),
+    }
+  }
+
   /// Resolves members from already parsed objects or by parsing missing members.
   fn resolve_members(
     &mut self,
@@ -235,13 +250,13 @@ impl<'i> BinaryParser<'i> {
           }
         },
         ValueOrRef::Ref(id) => {
-          if let Some(value) = self.objects.remove(&id.0) {
+          if let Some(value) = self.take_object(id) {
             members2.push(value);
           } else {
             let member2;
             (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
 
-            if let Some(value) = self.objects.remove(&member2.0) {
+            if let Some(value) = self.take_object(member2) {
               members2.push(value);
             } else {
               return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
-- 
2.43.0


From 8ba869946460d391e44b366b8dd1810d28e11ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 15/21] fix: resolve references to objects in any order

---
 src/binary_parser/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index c22499e..b81c12d 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -7,7 +7,7 @@ use std::{
 use nom::{
   IResult, Parser,
   branch::alt,
-  combinator::{map, opt, verify},
+  combinator::{map, opt},
   multi::count,
 };
 
@@ -250,17 +250,14 @@ impl<'i> BinaryParser<'i> {
           }
         },
         ValueOrRef::Ref(id) => {
+          while !self.objects.contains_key(&id.0) {
+            (input, _) = self.parse_referenceable(input)?;
+          }
+
           if let Some(value) = self.take_object(id) {
             members2.push(value);
           } else {
-            let member2;
-            (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
-
-            if let Some(value) = self.take_object(member2) {
-              members2.push(value);
-            } else {
-              return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
-            }
+            return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
           }
         },
       }
-- 
2.43.0


From 45049a010ecdc4a18adc102dba5db1a2ad9ce930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 16/21] fix: reject duplicate object IDs of arrays, strings and
 repeated classes

---
 src/binary_parser/mod.rs | 52 ++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index b81c12d..59c1bd5 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::{BTreeMap, BTreeSet, HashMap},
   iter,
   num::NonZeroU32,
 };
@@ -7,7 +7,7 @@ use std::{
 use nom::{
   IResult, Parser,
   branch::alt,
-  combinator::{map, opt},
+  combinator::{cut, map, opt},
   multi::count,
 };
 
@@ -57,6 +57,7 @@ pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
+  object_ids: BTreeSet<NonZeroU32>,
 }
 
 macro_rules! alt_mut {
@@ -95,6 +96,15 @@ impl<'i> BinaryParser<'i> {
     Ok((input, ()))
   }
 
+  /// Every object has its own ID.
+  fn register_object_id(&mut self, input: &'i [u8], object_id: NonZeroU32) -> Result<(), nom::Err<Error<'i>>> {
+    if !self.object_ids.insert(object_id) {
+      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
+    }
+
+    Ok(())
+  }
+
   /// 2.7 Binary Record Grammar - `memberReference`
   fn parse_member_reference(
     &mut self,
@@ -151,7 +161,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::String | BinaryType::StringArray, None) => alt((
-          map(|input| self.parse_string(input), |s| ValueOrRef::Value(Value::String(s))),
+          map(|input| self.parse_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
           Self::parse_reference_or_null,
         ))
         .parse(input)?,
@@ -164,7 +174,7 @@ impl<'i> BinaryParser<'i> {
       alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(|input| self.parse_string(input), |s| ValueOrRef::Value(Value::String(s))),
+        map(|input| self.parse_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
       )?
@@ -216,11 +226,13 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// Parses a string which may be referenced by other members.
-  fn parse_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], &'i str, Error<'i>> {
+  fn parse_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, &'i str), Error<'i>> {
     let (input, string) = BinaryObjectString::parse(input)?;
 
+    self.register_object_id(input, string.object_id())?;
+
     self.objects.insert(string.object_id(), Value::String(string.as_str()));
-    Ok((input, string.as_str()))
+    Ok((input, (RefId(string.object_id()), string.as_str())))
   }
 
   /// Takes a parsed object, strings stay available since they may be referenced more than once.
@@ -294,9 +306,7 @@ impl<'i> BinaryParser<'i> {
       Err(err) => return Err(err),
     };
 
-    if self.classes.contains_key(&object_id) {
-      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
-    }
+    self.register_object_id(input, object_id)?;
 
     // Only records which contain class information can be referenced by a `ClassWithId`.
     if !is_class_with_id {
@@ -472,12 +482,16 @@ impl<'i> BinaryParser<'i> {
   fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
-    alt_mut!(input =>
+    let (input, (object_id, array)) = alt_mut!(input =>
       |input| self.parse_array_single_object(input),
       |input| self.parse_array_single_primitive(input),
       |input| self.parse_array_single_string(input),
       |input| self.parse_binary_array(input),
-    )
+    )?;
+
+    self.register_object_id(input, object_id.0)?;
+
+    Ok((input, (object_id, array)))
   }
 
   /// 2.7 Binary Record Grammar - `referenceable`
@@ -492,8 +506,8 @@ impl<'i> BinaryParser<'i> {
         |(object_id, array)| (object_id, Value::Array(array)),
       ),
       map(
-        BinaryObjectString::parse,
-        |s| (RefId(s.object_id()), Value::String(s.as_str())),
+        |input| self.parse_string(input),
+        |(object_id, s)| (object_id, Value::String(s)),
       ),
     )?;
 
@@ -527,7 +541,13 @@ impl<'i> BinaryParser<'i> {
   ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
-    let (input, (call_array_id, call_array)) = self.parse_array_single_object(input)?;
+    // Anything else than an array means that there is no call array.
+    let _ = ArraySingleObject::parse(input)?;
+
+    let (input, (call_array_id, call_array)) =
+      cut(|input| self.parse_array_single_object(input)).parse(input)?;
+
+    self.register_object_id(input, call_array_id.0)?;
 
     if Some(call_array_id.0) != root_id {
       return Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId }))
@@ -661,7 +681,9 @@ impl<'i> BinaryParser<'i> {
     let (mut input, method_call_or_return) =
       opt(|input| self.parse_method_call_or_return(input, header.root_id)).parse(input)?;
 
-    (input, ()) = self.parse_referenceables(input)?;
+    if method_call_or_return.is_some() {
+      (input, ()) = self.parse_referenceables(input)?;
+    }
 
     let (input, MessageEnd) = MessageEnd::parse(input)?;
 
-- 
2.43.0


From 7fe7ebe2cbee69ef5554af5a08ffb6c37ff9b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 17/21] fix: limit the nesting of objects instead of
 overflowing the stack

---
 src/binary_parser/mod.rs   | 45 ++++++++++++++++++++++++++++++++++----
 src/error.rs               |  2 ++
 src/record/binary_array.rs | 10 ++++++++-
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 59c1bd5..3228ad9 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -58,6 +58,19 @@ pub struct BinaryParser<'i> {
   classes: BTreeMap<NonZeroU32, Class<'i>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
   object_ids: BTreeSet<NonZeroU32>,
+  depth: usize,
+}
+
+/// Objects which are nested deeper than this are rejected instead of overflowing the stack.
+const MAX_DEPTH: usize = 64;
+
+/// Number of levels objects and arrays are nested in a value.
+fn depth(value: &Value<'_>) -> usize {
+  match value {
+    Value::Array(array) => 1 + array.iter().map(depth).max().unwrap_or(0),
+    Value::Object(object) => 1 + object.members.values().map(depth).max().unwrap_or(0),
+    _ => 0,
+  }
 }
 
 macro_rules! alt_mut {
@@ -105,6 +118,22 @@ impl<'i> BinaryParser<'i> {
     Ok(())
   }
 
+  /// Parses an object which is part of another object.
+  fn parse_nested<T>(
+    &mut self,
+    input: &'i [u8],
+    parse: impl FnOnce(&mut Self, &'i [u8]) -> IResult<&'i [u8], T, Error<'i>>,
+  ) -> IResult<&'i [u8], T, Error<'i>> {
+    if self.depth >= MAX_DEPTH {
+      return Err(nom::Err::Failure(error_position!(input, NestingTooDeep)))
+    }
+
+    self.depth += 1;
+    let res = parse(self, input);
+    self.depth -= 1;
+    res
+  }
+
   /// 2.7 Binary Record Grammar - `memberReference`
   fn parse_member_reference(
     &mut self,
@@ -126,7 +155,7 @@ impl<'i> BinaryParser<'i> {
         .parse(input)?,
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
-          match self.parse_classes(input) {
+          match self.parse_nested(input, Self::parse_classes) {
             Ok((input, (_, object))) => {
               if object.class != class_name.as_str() || object.library.is_some() {
                 return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
@@ -147,7 +176,7 @@ impl<'i> BinaryParser<'i> {
             return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
           };
 
-          match self.parse_classes(input) {
+          match self.parse_nested(input, Self::parse_classes) {
             Ok((input, (_, object))) => {
               if object.class != class_type_info.type_name.as_str() || object.library != Some(library) {
                 return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
@@ -176,7 +205,10 @@ impl<'i> BinaryParser<'i> {
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
         map(|input| self.parse_string(input), |(_, s)| ValueOrRef::Value(Value::String(s))),
         Self::parse_null_object,
-        map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
+        map(
+          |input| self.parse_nested(input, Self::parse_classes),
+          |(_, object)| ValueOrRef::Value(Value::Object(object)),
+        ),
       )?
     };
 
@@ -263,7 +295,7 @@ impl<'i> BinaryParser<'i> {
         },
         ValueOrRef::Ref(id) => {
           while !self.objects.contains_key(&id.0) {
-            (input, _) = self.parse_referenceable(input)?;
+            (input, _) = self.parse_nested(input, Self::parse_referenceable)?;
           }
 
           if let Some(value) = self.take_object(id) {
@@ -511,6 +543,11 @@ impl<'i> BinaryParser<'i> {
       ),
     )?;
 
+    // Objects can also be nested by references to already parsed objects.
+    if depth(&object) > MAX_DEPTH {
+      return Err(nom::Err::Failure(error_position!(input, NestingTooDeep)))
+    }
+
     self.objects.insert(object_id.0, object);
     Ok((input, object_id))
   }
diff --git a/src/error.rs b/src/error.rs
index 69d48d1..ded16ec 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -60,6 +60,7 @@ pub(crate) enum ErrorInner {
   MissingLibraryId,
   InvalidLibraryId,
   DuplicateLibraryId,
+  NestingTooDeep,
   ExpectedRecordType(RecordType),
   ExpectedClassInfo,
   ExpectedMessageFlags,
@@ -93,6 +94,7 @@ impl fmt::Display for ErrorInner {
       Self::MissingLibraryId => write!(f, "missing library ID"),
       Self::InvalidLibraryId => write!(f, "invalid library ID"),
       Self::DuplicateLibraryId => write!(f, "duplicate library ID"),
+      Self::NestingTooDeep => write!(f, "objects are nested too deep"),
       Self::ExpectedRecordType(record_type) => write!(f, "expected {}", record_type.description()),
       Self::ExpectedClassInfo => write!(f, "expected ClassInfo"),
       Self::ExpectedMessageFlags => write!(f, "expected MessageFlags"),
diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index cba98ac..0ae794d 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -6,7 +6,7 @@ use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
   enumeration::{BinaryArrayType, BinaryType},
-  error::Error,
+  error::{Error, error_position},
   record::RecordType,
 };
 
@@ -22,13 +22,21 @@ pub struct BinaryArray<'i> {
 }
 
 impl<'i> BinaryArray<'i> {
+  /// The maximum number of dimensions of an array in .NET.
+  const MAX_RANK: usize = 32;
+
   pub fn parse(input: &'i [u8]) -> IResult<&'i [u8], Self, Error<'i>> {
     let (input, _) = RecordType::BinaryArray.parse(input)?;
 
     let (input, object_id) = object_id(input)?;
     let (input, binary_array_type_enum) = BinaryArrayType::parse(input)?;
+    let err_input = input;
     let (input, rank) = length(input)?;
 
+    if rank > Self::MAX_RANK {
+      return Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
+    }
+
     let (input, lengths) = count(length, rank).parse(input)?;
     let (input, lower_bounds) = cond(
       matches!(
-- 
2.43.0


From 590fb5b109d6ca7779e13972e870e23851456e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 18/21] fix: resolve references of nested objects after the
 containing object is parsed

---
 src/binary_parser/mod.rs | 64 +++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 3228ad9..222f583 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -30,10 +30,20 @@ use crate::{
 #[derive(Debug, Clone)]
 enum ValueOrRef<'i> {
   Value(Value<'i>),
+  Object(UnresolvedObject<'i>),
   Null(usize),
   Ref(RefId),
 }
 
+/// An object whose members may be references to objects which are not parsed yet.
+#[derive(Debug, Clone)]
+struct UnresolvedObject<'i> {
+  class: &'i str,
+  library: Option<&'i str>,
+  member_names: Vec<LengthPrefixedString<'i>>,
+  members: Vec<ValueOrRef<'i>>,
+}
+
 #[derive(Debug, Clone, Copy)]
 pub struct RefId(NonZeroU32);
 
@@ -161,7 +171,7 @@ impl<'i> BinaryParser<'i> {
                 return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
               }
 
-              (input, ValueOrRef::Value(Value::Object(object)))
+              (input, ValueOrRef::Object(object))
             },
             Err(nom::Err::Error(_)) => Self::parse_reference_or_null(input)?,
             Err(err) => return Err(err),
@@ -182,7 +192,7 @@ impl<'i> BinaryParser<'i> {
                 return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
               }
 
-              (input, ValueOrRef::Value(Value::Object(object)))
+              (input, ValueOrRef::Object(object))
             },
             Err(nom::Err::Error(_)) => Self::parse_reference_or_null(input)?,
             Err(err) => return Err(err),
@@ -207,7 +217,7 @@ impl<'i> BinaryParser<'i> {
         Self::parse_null_object,
         map(
           |input| self.parse_nested(input, Self::parse_classes),
-          |(_, object)| ValueOrRef::Value(Value::Object(object)),
+          |(_, object)| ValueOrRef::Object(object),
         ),
       )?
     };
@@ -288,6 +298,11 @@ impl<'i> BinaryParser<'i> {
         ValueOrRef::Value(value) => {
           members2.push(value);
         },
+        ValueOrRef::Object(object) => {
+          let object2;
+          (input, object2) = self.parse_nested(input, |parser, input| parser.resolve_object(input, object))?;
+          members2.push(Value::Object(object2));
+        },
         ValueOrRef::Null(count) => {
           for _ in 0..count {
             members2.push(Value::Null);
@@ -310,8 +325,25 @@ impl<'i> BinaryParser<'i> {
     Ok((input, members2))
   }
 
+  /// Resolves members of an object, after everything which is part of the containing object is parsed.
+  fn resolve_object(
+    &mut self,
+    input: &'i [u8],
+    object: UnresolvedObject<'i>,
+  ) -> IResult<&'i [u8], Object<'i>, Error<'i>> {
+    let UnresolvedObject { class, library, member_names, members } = object;
+
+    let (input, members) = self.resolve_members(input, members)?;
+
+    let members = HashMap::from_iter(
+      member_names.iter().zip(members).map(|(member_name, member)| (member_name.as_str(), { member })),
+    );
+
+    Ok((input, Object { class, library, members }))
+  }
+
   /// 2.7 Binary Record Grammar - `Classes`
-  fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Object<'i>), Error<'i>> {
+  fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, UnresolvedObject<'i>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let err_input = input;
@@ -382,19 +414,10 @@ impl<'i> BinaryParser<'i> {
       },
     };
 
-    let (input, member_references) = self.resolve_members(input, member_references)?;
-
-    let members = HashMap::from_iter(
-      class_info
-        .member_names
-        .iter()
-        .zip(member_references)
-        .map(|(member_name, member)| (member_name.as_str(), { member })),
-    );
-
-    let class_name = class_info.name.as_str();
+    let class = class_info.name.as_str();
+    let member_names = class_info.member_names.clone();
 
-    Ok((input, (RefId(object_id), Object { class: class_name, library, members })))
+    Ok((input, (RefId(object_id), UnresolvedObject { class, library, member_names, members: member_references })))
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
@@ -529,10 +552,11 @@ impl<'i> BinaryParser<'i> {
   /// 2.7 Binary Record Grammar - `referenceable`
   fn parse_referenceable(&mut self, input: &'i [u8]) -> IResult<&'i [u8], RefId, Error<'i>> {
     let (input, (object_id, object)) = alt_mut!(input =>
-      map(
-        |input| self.parse_classes(input),
-        |(object_id, object)| (object_id, Value::Object(object)),
-      ),
+      |input| {
+        let (input, (object_id, object)) = self.parse_classes(input)?;
+        let (input, object) = self.resolve_object(input, object)?;
+        Ok((input, (object_id, Value::Object(object))))
+      },
       map(
         |input| self.parse_arrays(input),
         |(object_id, array)| (object_id, Value::Array(array)),
-- 
2.43.0


From 374bf4e53da2fa0741a32393baea53eb68f258f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 19/21] fix: accept negative lower bounds of arrays

---
 src/record/binary_array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index 0ae794d..0aa9734 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -5,6 +5,7 @@ use nom::{IResult, Parser, combinator::cond, multi::count};
 use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
+  data_type::Int32,
   enumeration::{BinaryArrayType, BinaryType},
   error::{Error, error_position},
   record::RecordType,
@@ -16,7 +17,7 @@ pub struct BinaryArray<'i> {
   pub object_id: NonZeroU32,
   pub binary_array_type_enum: BinaryArrayType,
   pub lengths: Vec<usize>,
-  pub lower_bounds: Option<Vec<usize>>,
+  pub lower_bounds: Option<Vec<Int32>>,
   pub type_enum: BinaryType,
   pub additional_type_info: Option<AdditionalTypeInfo<'i>>,
 }
@@ -43,7 +44,7 @@ impl<'i> BinaryArray<'i> {
         binary_array_type_enum,
         BinaryArrayType::SingleOffset | BinaryArrayType::JaggedOffset | BinaryArrayType::RectangularOffset
       ),
-      count(length, rank),
+      count(|input| Int32::parse(input), rank),
     )
     .parse(input)?;
     let (input, type_enum) = BinaryType::parse(input)?;
-- 
2.43.0


From 0af99fbf5847c6ed7395afde2e13a5b5fcd3321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 20/21] fix: deserialize newtype structs as the value they
 contain

---
 src/remoting_message.rs | 9 ++++++++-
 src/value/mod.rs        | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index b00f576..d099565 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -107,6 +107,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_option(visitor)
   }
 
+  fn deserialize_newtype_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_newtype_struct(name, visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -121,7 +128,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
diff --git a/src/value/mod.rs b/src/value/mod.rs
index 7b36c7d..57b9edf 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -222,6 +222,13 @@ impl<'de> Deserializer<'de> for ValueDeserializer<'de, '_> {
     if matches!(self.object, Value::Null) { visitor.visit_none() } else { visitor.visit_some(self) }
   }
 
+  fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    visitor.visit_newtype_struct(self)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -239,7 +246,7 @@ impl<'de> Deserializer<'de> for ValueDeserializer<'de, '_> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From 5cba3cc8cbf5723e5f0d6e97a2a46dc184036170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:57 +0000
Subject: [PATCH 21/21] fix: resolve references after all objects are parsed

---
 src/binary_parser/mod.rs | 104 ++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 41 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 222f583..224e4d8 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -31,6 +31,7 @@ use crate::{
 enum ValueOrRef<'i> {
   Value(Value<'i>),
   Object(UnresolvedObject<'i>),
+  Array(Vec<ValueOrRef<'i>>),
   Null(usize),
   Ref(RefId),
 }
@@ -66,7 +67,7 @@ enum MethodCallOrReturn<'i> {
 pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
   classes: BTreeMap<NonZeroU32, Class<'i>>,
-  objects: BTreeMap<NonZeroU32, Value<'i>>,
+  objects: BTreeMap<NonZeroU32, ValueOrRef<'i>>,
   object_ids: BTreeSet<NonZeroU32>,
   depth: usize,
 }
@@ -273,19 +274,19 @@ impl<'i> BinaryParser<'i> {
 
     self.register_object_id(input, string.object_id())?;
 
-    self.objects.insert(string.object_id(), Value::String(string.as_str()));
+    self.objects.insert(string.object_id(), ValueOrRef::Value(Value::String(string.as_str())));
     Ok((input, (RefId(string.object_id()), string.as_str())))
   }
 
   /// Takes a parsed object, strings stay available since they may be referenced more than once.
-  fn take_object(&mut self, id: RefId) -> Option<Value<'i>> {
+  fn take_object(&mut self, id: RefId) -> Option<ValueOrRef<'i>> {
     match self.objects.get(&id.0) {
-      Some(Value::String(string)) => Some(Value::String(string)),
+      Some(ValueOrRef::Value(Value::String(string))) => Some(ValueOrRef::Value(Value::String(string))),
       _ => self.objects.remove(&id.0),
     }
   }
 
-  /// Resolves members from already parsed objects or by parsing missing members.
+  /// Resolves members from parsed objects.
   fn resolve_members(
     &mut self,
     mut input: &'i [u8],
@@ -303,18 +304,21 @@ impl<'i> BinaryParser<'i> {
           (input, object2) = self.parse_nested(input, |parser, input| parser.resolve_object(input, object))?;
           members2.push(Value::Object(object2));
         },
+        ValueOrRef::Array(members) => {
+          let array;
+          (input, array) = self.parse_nested(input, |parser, input| parser.resolve_members(input, members))?;
+          members2.push(Value::Array(array));
+        },
         ValueOrRef::Null(count) => {
           for _ in 0..count {
             members2.push(Value::Null);
           }
         },
         ValueOrRef::Ref(id) => {
-          while !self.objects.contains_key(&id.0) {
-            (input, _) = self.parse_nested(input, Self::parse_referenceable)?;
-          }
-
-          if let Some(value) = self.take_object(id) {
-            members2.push(value);
+          if let Some(object) = self.take_object(id) {
+            let object2;
+            (input, object2) = self.resolve_members(input, vec![object])?;
+            members2.extend(object2);
           } else {
             return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
           }
@@ -325,7 +329,7 @@ impl<'i> BinaryParser<'i> {
     Ok((input, members2))
   }
 
-  /// Resolves members of an object, after everything which is part of the containing object is parsed.
+  /// Resolves members of an object, after all objects are parsed.
   fn resolve_object(
     &mut self,
     input: &'i [u8],
@@ -421,7 +425,10 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
-  fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_object(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
 
     let mut members = vec![];
@@ -446,8 +453,6 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
-    let (input, members) = self.resolve_members(input, members)?;
-
     let object_id = array_single_object.object_id();
     Ok((input, (RefId(object_id), members)))
   }
@@ -470,7 +475,10 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
-  fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_array_single_string(
+    &mut self,
+    input: &'i [u8],
+  ) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let (mut input, array_single_string) = ArraySingleString::parse(input)?;
 
     let mut members = vec![];
@@ -495,14 +503,12 @@ impl<'i> BinaryParser<'i> {
       }
     }
 
-    let (input, members) = self.resolve_members(input, members)?;
-
     let object_id = array_single_string.object_id();
     Ok((input, (RefId(object_id), members)))
   }
 
   /// 2.7 Binary Record Grammar - `BinaryArray *(memberReference)`
-  fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<ValueOrRef<'i>>), Error<'i>> {
     let err_input = input;
 
     let (input, binary_array) = BinaryArray::parse(input)?;
@@ -515,7 +521,6 @@ impl<'i> BinaryParser<'i> {
       Some((binary_array.type_enum, binary_array.additional_type_info.as_ref()))
     })?;
 
-    let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
 
     let mut members = members;
@@ -524,7 +529,7 @@ impl<'i> BinaryParser<'i> {
 
       let mut rest = members.into_iter().peekable();
       while rest.peek().is_some() {
-        members2.push(Value::Array(rest.by_ref().take(l).collect::<Vec<_>>()));
+        members2.push(ValueOrRef::Array(rest.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
@@ -534,14 +539,14 @@ impl<'i> BinaryParser<'i> {
   }
 
   /// 2.7 Binary Record Grammar - `Arrays`
-  fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
+  fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, ValueOrRef<'i>), Error<'i>> {
     let (input, ()) = self.parse_binary_library(input)?;
 
     let (input, (object_id, array)) = alt_mut!(input =>
-      |input| self.parse_array_single_object(input),
-      |input| self.parse_array_single_primitive(input),
-      |input| self.parse_array_single_string(input),
-      |input| self.parse_binary_array(input),
+      map(|input| self.parse_array_single_object(input), |(id, array)| (id, ValueOrRef::Array(array))),
+      map(|input| self.parse_array_single_primitive(input), |(id, array)| (id, ValueOrRef::Value(Value::Array(array)))),
+      map(|input| self.parse_array_single_string(input), |(id, array)| (id, ValueOrRef::Array(array))),
+      map(|input| self.parse_binary_array(input), |(id, array)| (id, ValueOrRef::Array(array))),
     )?;
 
     self.register_object_id(input, object_id.0)?;
@@ -552,26 +557,17 @@ impl<'i> BinaryParser<'i> {
   /// 2.7 Binary Record Grammar - `referenceable`
   fn parse_referenceable(&mut self, input: &'i [u8]) -> IResult<&'i [u8], RefId, Error<'i>> {
     let (input, (object_id, object)) = alt_mut!(input =>
-      |input| {
-        let (input, (object_id, object)) = self.parse_classes(input)?;
-        let (input, object) = self.resolve_object(input, object)?;
-        Ok((input, (object_id, Value::Object(object))))
-      },
       map(
-        |input| self.parse_arrays(input),
-        |(object_id, array)| (object_id, Value::Array(array)),
+        |input| self.parse_classes(input),
+        |(object_id, object)| (object_id, ValueOrRef::Object(object)),
       ),
+      |input| self.parse_arrays(input),
       map(
         |input| self.parse_string(input),
-        |(object_id, s)| (object_id, Value::String(s)),
+        |(object_id, s)| (object_id, ValueOrRef::Value(Value::String(s))),
       ),
     )?;
 
-    // Objects can also be nested by references to already parsed objects.
-    if depth(&object) > MAX_DEPTH {
-      return Err(nom::Err::Failure(error_position!(input, NestingTooDeep)))
-    }
-
     self.objects.insert(object_id.0, object);
     Ok((input, object_id))
   }
@@ -614,7 +610,10 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(Error { input, inner: ErrorInner::InvalidCallArrayId }))
     }
 
-    Ok((input, call_array))
+    // Members of the call array may be references to objects which follow it.
+    let (input, ()) = self.parse_referenceables(input)?;
+
+    self.resolve_members(input, call_array)
   }
 
   /// 2.7 Binary Record Grammar - `methodCall`
@@ -733,6 +732,27 @@ impl<'i> BinaryParser<'i> {
     Ok((input, ()))
   }
 
+  /// Resolves references of all objects, after all objects are parsed.
+  fn resolve_objects(&mut self, mut input: &'i [u8]) -> IResult<&'i [u8], (), Error<'i>> {
+    for object_id in self.objects.keys().copied().collect::<Vec<_>>() {
+      if let Some(object) = self.take_object(RefId(object_id)) {
+        let values;
+        (input, values) = self.resolve_members(input, vec![object])?;
+
+        for value in values {
+          // Objects can also be nested by references to already resolved objects.
+          if depth(&value) > MAX_DEPTH {
+            return Err(nom::Err::Failure(error_position!(input, NestingTooDeep)))
+          }
+
+          self.objects.insert(object_id, ValueOrRef::Value(value));
+        }
+      }
+    }
+
+    Ok((input, ()))
+  }
+
   /// 2.7 Binary Record Grammar - `remotingMessage`
   fn parse_remoting_message(&mut self, input: &'i [u8]) -> IResult<&'i [u8], RemotingMessage<'i>, Error<'i>> {
     let (mut input, header) = SerializationHeader::parse(input)?;
@@ -752,12 +772,14 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Error(error_position!(input, TrailingData)))
     }
 
+    let (input, ()) = self.resolve_objects(input)?;
+
     let remoting_message = match method_call_or_return {
       Some(MethodCallOrReturn::MethodCall(method_call)) => RemotingMessage::MethodCall(method_call),
       Some(MethodCallOrReturn::MethodReturn(method_return)) => RemotingMessage::MethodReturn(method_return),
       None => {
         if let Some(root_id) = header.root_id {
-          if let Some(root_object) = self.objects.remove(&root_id) {
+          if let Some(ValueOrRef::Value(root_object)) = self.objects.remove(&root_id) {
             RemotingMessage::Value(root_object)
           } else {
             return Err(nom::Err::Error(error_position!(input, MissingRootObject)))
-- 
2.43.0

