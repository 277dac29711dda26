From a3866fffdbdf447e548dea9498c3ac6805a6528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 01/17] fix: end the namespace at the first comma and allow
 newlines in arguments

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..2822ee0 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"(?s)^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 9f195eb1831739055cd0e242cd8f1bf3d782ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 02/17] fix: reject ids and attachment counts beyond 64 bits
 instead of panicking

---
 socket-io-protocol/src/socket/de.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 2822ee0..ecfe734 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -80,9 +80,16 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    let number = |group| {
+        captures
+            .get(group)
+            .map(|x| x.as_str().parse::<u64>())
+            .transpose()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
+    let attachments = number(3)?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = number(6)?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 1d1bfeb800d085717cd067848632208711e27f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 03/17] fix: accept acks that carry no arguments

---
 socket-io-protocol/src/socket/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index ecfe734..9e6be99 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -203,7 +203,11 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    let complete = match kind {
+        Kind::Ack => parse.id.is_some(),
+        _ => !parse.args.is_empty(),
+    };
+    if !complete {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
-- 
2.43.0


From 2ed6458beb57c1e5ae98b856b91f5a7634ee170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 04/17] fix: reject text messages that arrive before open

---
 socket-io-protocol/src/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket-io-protocol/src/engine.rs b/socket-io-protocol/src/engine.rs
index a15e705..86cc4cd 100644
--- a/socket-io-protocol/src/engine.rs
+++ b/socket-io-protocol/src/engine.rs
@@ -119,6 +119,9 @@ impl Decoder {
                 }
             }
             '4' => {
+                if self.state == State::Initial {
+                    return Err(Error::MessageBeforeOpen);
+                }
                 let len = text.len();
                 Ok(Packet::Message(Message::Text(OwnedSubslice::new(
                     text,
-- 
2.43.0


From 3c14d6b47772161e5a67c6589485d7e98ed00e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 05/17] fix: keep the packet builder unchanged when the first
 argument fails to serialize

---
 socket-io-protocol/src/socket/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..ab6febd 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -97,6 +97,7 @@ impl PacketBuilder {
         T: Serialize + ?Sized,
     {
         let start_pos = self.buffer.len();
+        let was_first = self.first;
         let mut cursor = Cursor::new(&mut self.buffer);
         cursor.set_position(start_pos as u64);
         if self.first {
@@ -117,6 +118,7 @@ impl PacketBuilder {
             }
         };
         if result.is_err() {
+            self.first = was_first;
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
         }
-- 
2.43.0


From f9c0076562222d05f8e3300bad2b0dae9ff43015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 06/17] fix: do not emit the attachment header as an element of
 mixed sequences

---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..36aa1cd 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,8 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    // The first byte is the attachment header, not an element
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From c3feeb1b0e7076be17726ae81fbedfa8bea20775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 07/17] fix: report arguments that are no representable json
 value instead of panicking

---
 socket-io-protocol/src/socket/args/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..d295759 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,10 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // The argument is known to be well-formed json, but it may still not be representable,
+        // e.g. because a number is out of range
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
-- 
2.43.0


From e40251c897290789feb859bf04f6098975242146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 08/17] fix: display arguments whose placeholders do not
 resolve instead of panicking

---
 socket-io-protocol/src/socket/args/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d295759..2d04d34 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -160,7 +160,10 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            Err(_) => write!(f, "{}", self.arg),
+        }
     }
 }
 
-- 
2.43.0


From 8c810060680ba18d66d3a0e311bf46f921fa2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 09/17] fix: do not let overflowing ranges escape the window of
 a subslice

---
 owned_subslice/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owned_subslice/src/lib.rs b/owned_subslice/src/lib.rs
index 82c6f52..26ef174 100644
--- a/owned_subslice/src/lib.rs
+++ b/owned_subslice/src/lib.rs
@@ -23,8 +23,8 @@ where
     }
 
     pub fn subslice(self, range: Range<usize>) -> Self {
-        let start = self.range.start + range.start;
-        let end = std::cmp::min(self.range.start + range.end, self.range.end);
+        let start = self.range.start.saturating_add(range.start);
+        let end = std::cmp::min(self.range.start.saturating_add(range.end), self.range.end);
         OwnedSubslice {
             data: self.data,
             range: Range { start, end },
-- 
2.43.0


From 04db0d72152fd1fa284fc7fb54ef6e823edb6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 10/17] fix: deserialize the first key of a map like every
 other key when there are attachments

---
 .../socket/args/deserialize_attachments.rs    | 149 +++++++++++++++++-
 1 file changed, 141 insertions(+), 8 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..10f09c3 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,16 +1,16 @@
-use std::fmt;
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
         value::{BorrowedStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
-        Visitor,
+        DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer, MapAccess, SeqAccess,
+        VariantAccess, Visitor,
     },
     Deserialize, Deserializer,
 };
-use serde_json::{Deserializer as JsonDeserializer, Error as JsonError};
+use serde_json::{Deserializer as JsonDeserializer, Error as JsonError, Number};
 
 #[derive(Debug, thiserror::Error)]
 #[error("{0}")]
@@ -97,7 +97,18 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<Cow<'a, str>>>,
+}
+
+/// A map key, borrowed from the input unless it contains escapes
+#[derive(Deserialize)]
+#[serde(transparent)]
+struct Key<'a>(#[serde(borrow)] Cow<'a, str>);
+
+/// Deserializes a map key that was already read, the way `serde_json` deserializes keys
+struct KeyDeserializer<'de, E> {
+    key: Cow<'de, str>,
+    error: PhantomData<E>,
 }
 
 macro_rules! deserialize_forward {
@@ -288,8 +299,8 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key = map.next_key::<Key<'de>>()?.map(|key| key.0);
+        if key.as_deref() == Some("_placeholder") {
             let _: bool = map.next_value()?;
             let next_key: Option<&'de str> = map.next_key()?;
             if next_key != Some("num") {
@@ -424,7 +435,10 @@ where
     {
         if let Some(key) = self.first_key.take() {
             if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
+                let deserializer = KeyDeserializer {
+                    key,
+                    error: PhantomData,
+                };
                 seed.deserialize(deserializer).map(Some)
             } else {
                 Ok(None)
@@ -447,6 +461,125 @@ where
     }
 }
 
+impl<'de, E> KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    /// Parses the whole key as a json number
+    fn number<T>(&self) -> Result<T, E>
+    where
+        T: for<'a> Deserialize<'a>,
+    {
+        if self.key.trim() != self.key {
+            return Err(E::custom("expected a numeric key"));
+        }
+        serde_json::from_str(&self.key).map_err(E::custom)
+    }
+}
+
+macro_rules! deserialize_number_key {
+    ($($fn:ident)*) => {
+        $(
+            paste!{
+                fn [<deserialize_ $fn>]<V>(self, visitor: V) -> Result<V::Value, E>
+                where
+                    V: Visitor<'de>
+                {
+                    self.number::<Number>()?
+                        .deserialize_any(visitor)
+                        .map_err(E::custom)
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_str(&key),
+        }
+    }
+
+    deserialize_number_key! { i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 }
+
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_i128(self.number()?)
+    }
+
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_u128(self.number()?)
+    }
+
+    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match &*self.key {
+            "true" => visitor.visit_bool(true),
+            "false" => visitor.visit_bool(false),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => {
+                BorrowedStrDeserializer::new(key).deserialize_enum(name, variants, visitor)
+            }
+            Cow::Owned(key) => key
+                .into_deserializer()
+                .deserialize_enum(name, variants, visitor),
+        }
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From 375c4554d4a25d284312b4b4d7411ccf713e52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 11/17] fix: with attachments, requests for strings, bytes,
 sequences and structs accept the same JSON as without

---
 .../socket/args/deserialize_attachments.rs    | 115 +++++++++++++-----
 1 file changed, 85 insertions(+), 30 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 10f09c3..4add4f5 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -6,7 +6,7 @@ use serde::{
     de::{
         value::{BorrowedStrDeserializer, SeqDeserializer},
         DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer, MapAccess, SeqAccess,
-        VariantAccess, Visitor,
+        Unexpected, VariantAccess, Visitor,
     },
     Deserialize, Deserializer,
 };
@@ -36,9 +36,12 @@ where
     T::deserialize(deserializer)
 }
 
+/// What the type being deserialized asked for, if the request isn't passed on as it is
 enum AccessType {
+    Str,
     Bytes,
     Seq,
+    Struct,
     Neither,
 }
 
@@ -187,14 +190,14 @@ where
     }
 
     deserialize_forward_any! {
-        str(AccessType::Bytes),
-        string(AccessType::Bytes),
+        str(AccessType::Str),
+        string(AccessType::Str),
         bytes(AccessType::Bytes),
         byte_buf(AccessType::Bytes),
         seq(AccessType::Seq),
         tuple(AccessType::Seq, len: usize),
         tuple_struct(AccessType::Seq, name: &'static str, len: usize),
-        struct(AccessType::Seq, name: &'static str, fields: &'static [&'static str]),
+        struct(AccessType::Struct, name: &'static str, fields: &'static [&'static str]),
     }
 
     fn is_human_readable(&self) -> bool {
@@ -202,15 +205,39 @@ where
     }
 }
 
+/// Values that only a request that was passed on as it is can lead to
 macro_rules! visit_forward {
-    ($($fn:ident ( $( $arg:ident : $ty:ty),* ) , )*) => {
+    ($($fn:ident ( $( $arg:ident : $ty:ty),* ) => $unexpected:expr , )*) => {
         $(
             paste!{
                 fn [<visit_ $fn>]<E>(self, $( $arg: $ty , )*) -> Result<V::Value, E>
                 where
                     E: DeError,
                 {
-                    self.visitor.[<visit_ $fn>]($($arg)*)
+                    match self.access_type {
+                        AccessType::Neither => self.visitor.[<visit_ $fn>]($($arg)*),
+                        _ => Err(E::invalid_type($unexpected, &self.visitor)),
+                    }
+                }
+            }
+        )*
+    };
+}
+
+/// Strings also serve requests for bytes
+macro_rules! visit_forward_str {
+    ($($fn:ident ( $ty:ty ) => $bytes:ident ( $convert:ident ) , )*) => {
+        $(
+            paste!{
+                fn [<visit_ $fn>]<E>(self, v: $ty) -> Result<V::Value, E>
+                where
+                    E: DeError,
+                {
+                    match self.access_type {
+                        AccessType::Str | AccessType::Neither => self.visitor.[<visit_ $fn>](v),
+                        AccessType::Bytes => self.visitor.[<visit_ $bytes>](v.$convert()),
+                        _ => Err(E::invalid_type(Unexpected::Str(&v), &self.visitor)),
+                    }
                 }
             }
         )*
@@ -228,27 +255,48 @@ where
     }
 
     visit_forward! {
-        bool(v: bool),
-        i8(v: i8),
-        i16(v: i16),
-        i32(v: i32),
-        i64(v: i64),
-        i128(v: i128),
-        u16(v: u16),
-        u32(v: u32),
-        u64(v: u64),
-        u128(v: u128),
-        f32(v: f32),
-        f64(v: f64),
-        char(v: char),
-        str(v: &str),
-        borrowed_str(v: &'de str),
-        string(v: String),
-        bytes(v: &[u8]),
-        borrowed_bytes(v: &'de [u8]),
-        byte_buf(v: Vec<u8>),
-        none(),
-        unit(),
+        bool(v: bool) => Unexpected::Bool(v),
+        i8(v: i8) => Unexpected::Signed(v.into()),
+        i16(v: i16) => Unexpected::Signed(v.into()),
+        i32(v: i32) => Unexpected::Signed(v.into()),
+        i64(v: i64) => Unexpected::Signed(v),
+        i128(v: i128) => Unexpected::Other("i128"),
+        u16(v: u16) => Unexpected::Unsigned(v.into()),
+        u32(v: u32) => Unexpected::Unsigned(v.into()),
+        u64(v: u64) => Unexpected::Unsigned(v),
+        u128(v: u128) => Unexpected::Other("u128"),
+        f32(v: f32) => Unexpected::Float(v.into()),
+        f64(v: f64) => Unexpected::Float(v),
+        char(v: char) => Unexpected::Char(v),
+        none() => Unexpected::Option,
+        unit() => Unexpected::Unit,
+    }
+
+    visit_forward_str! {
+        str(&str) => bytes(as_bytes),
+        borrowed_str(&'de str) => borrowed_bytes(as_bytes),
+        string(String) => byte_buf(into_bytes),
+    }
+
+    fn visit_bytes<E>(self, v: &[u8]) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        self.visitor.visit_bytes(v)
+    }
+
+    fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        self.visitor.visit_borrowed_bytes(v)
+    }
+
+    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        self.visitor.visit_byte_buf(v)
     }
 
     fn visit_some<D>(self, d: D) -> Result<V::Value, D::Error>
@@ -277,6 +325,9 @@ where
     where
         A: SeqAccess<'de>,
     {
+        if let AccessType::Str = self.access_type {
+            return Err(A::Error::invalid_type(Unexpected::Seq, &self.visitor));
+        }
         let wrapped = BinarySeqAccess {
             seq,
             buffers: self.buffers,
@@ -315,12 +366,16 @@ where
                 ))
             })?;
             match self.access_type {
-                AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
-                AccessType::Seq | AccessType::Neither => self
+                AccessType::Str | AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
+                AccessType::Seq | AccessType::Struct | AccessType::Neither => self
                     .visitor
                     .visit_seq(SeqDeserializer::new(buffer.iter().copied())),
             }
         } else {
+            match self.access_type {
+                AccessType::Struct | AccessType::Neither => {}
+                _ => return Err(A::Error::invalid_type(Unexpected::Map, &self.visitor)),
+            }
             let map = BinaryMapAccess {
                 map,
                 buffers: self.buffers,
@@ -417,7 +472,7 @@ where
             BinaryVisitor {
                 visitor,
                 buffers: self.buffers,
-                access_type: AccessType::Seq,
+                access_type: AccessType::Struct,
             },
         )
     }
-- 
2.43.0


From 7b1c3ad06c1818a604e23a050605ab26027effca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 12/17] fix: with attachments, a value that is only partly read
 is an error

---
 .../src/socket/args/deserialize_attachments.rs               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 4add4f5..e9bb858 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -33,7 +33,10 @@ where
 {
     let mut d = JsonDeserializer::from_str(arg);
     let deserializer = BinaryDeserializer { d: &mut d, buffers };
-    T::deserialize(deserializer)
+    let value = T::deserialize(deserializer)?;
+    // A part of a number may have been taken for the whole
+    d.end()?;
+    Ok(value)
 }
 
 /// What the type being deserialized asked for, if the request isn't passed on as it is
-- 
2.43.0


From 178d41ccbc91c79f3ed8b1e37cab960f2d13198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:35 +0000
Subject: [PATCH 13/17] fix: the first map key is deserialised like the others
 when it has escapes or is wanted as bytes

---
 .../socket/args/deserialize_attachments.rs    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index e9bb858..fede83b 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -528,10 +528,13 @@ where
     where
         T: for<'a> Deserialize<'a>,
     {
-        if self.key.trim() != self.key {
-            return Err(E::custom("expected a numeric key"));
+        match self.key {
+            Cow::Borrowed(key) if key.trim() == key => {
+                serde_json::from_str(key).map_err(E::custom)
+            }
+            // A number has no whitespace and no escapes
+            _ => Err(E::custom("expected a numeric key")),
         }
-        serde_json::from_str(&self.key).map_err(E::custom)
     }
 }
 
@@ -588,13 +591,30 @@ where
     where
         V: Visitor<'de>,
     {
-        match &*self.key {
-            "true" => visitor.visit_bool(true),
-            "false" => visitor.visit_bool(false),
-            _ => self.deserialize_any(visitor),
+        match self.key {
+            Cow::Borrowed("true") => visitor.visit_bool(true),
+            Cow::Borrowed("false") => visitor.visit_bool(false),
+            _ => Err(E::invalid_type(Unexpected::Str(&self.key), &visitor)),
         }
     }
 
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_bytes(key.as_bytes()),
+            Cow::Owned(key) => visitor.visit_bytes(key.as_bytes()),
+        }
+    }
+
+    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_bytes(visitor)
+    }
+
     fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
     where
         V: Visitor<'de>,
@@ -633,7 +653,7 @@ where
     }
 
     serde::forward_to_deserialize_any! {
-        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        char str string unit unit_struct seq tuple tuple_struct map struct
         identifier ignored_any
     }
 }
-- 
2.43.0


From 6fa73f6f764a52d6f883802b59eefa6c81d38cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 14/17] fix: the callback table is not locked while a callback
 runs

---
 socket-io-client/src/receiver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..ed10faa 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -142,17 +142,19 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // The callbacks must not stay locked while one of them runs
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From 95e319fec8b6800ff27851276890f534586dc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 15/17] fix: connecting fails instead of panicking when the
 connection ends before the open packet

---
 socket-io-client/src/connection.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..17b609c 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -3,7 +3,11 @@ use std::{
     time::Duration,
 };
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -70,9 +74,17 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => Ok(open.ok()),
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
+        let open = match open {
+            Some(open) => open,
+            // The connection ended before it was opened
+            None => {
+                handle.await?;
+                return Err(WsError::ConnectionClosed.into());
+            }
+        };
         log::trace!("Received open: {:?}", open);
 
         Ok(Connection {
-- 
2.43.0


From de398a0d0267d52d2c43669011ad57cce118af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 16/17] fix: a text message where an attachment is due is an
 error at once

---
 socket-io-client/src/receiver.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index ed10faa..06404b2 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -102,7 +102,7 @@ impl Receiver {
                 log::trace!("Received message engine packet: {:?}", msg);
                 match self.in_progress.take() {
                     Some(mut ip) => {
-                        ip.add(msg);
+                        ip.add(msg)?;
                         if ip.ready() {
                             let packet = ip.deserialize()?;
                             self.process_packet(packet)?;
@@ -173,8 +173,12 @@ impl InProgress {
         }
     }
 
-    fn add(&mut self, msg: EngineMessage) {
+    fn add(&mut self, msg: EngineMessage) -> Result<(), SocketError> {
+        if let EngineMessage::Text(text) = &msg {
+            return Err(SocketError::TextAttachment(text.to_string()));
+        }
         self.attachments.push(msg);
+        Ok(())
     }
 
     fn ready(&self) -> bool {
-- 
2.43.0


From 020cd028c2234eb9647f6fe2ccc7b3f8e63e00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 17/17] fix: packets sent before closing are sent before the
 close frame

---
 socket-io-client/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 17b609c..3be72f7 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -174,6 +174,12 @@ where
             }
         }
         drop(next);
+        // What was sent before closing still goes out
+        while let Some(Some(msgs)) = send_rx.next().now_or_never() {
+            for msg in msgs.into_iter() {
+                let _ = sink.send(msg).await;
+            }
+        }
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
         let _ = ws_stream.close(None).await;
-- 
2.43.0

