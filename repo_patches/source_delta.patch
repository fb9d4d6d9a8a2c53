From c53246c71caad99e0fe7660ca7ae2da27156e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 1/9] fix: match every path below the root with
 path_namespace='/' and argNpath='/'

---
 src/match_rule/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..6e35101 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,8 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        // A namespace ending with the separator (the root object path) contains every name below it.
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From e03417df76c6b431f4d6b87f550e801ea45f423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 2/9] fix: match argNpath when the argument ends with '/' and
 is a prefix of the path

---
 src/match_rule/matching.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index 6e35101..f9acfcf 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -82,7 +82,10 @@ impl MatchRule {
                 let body = message.get_body();
                 if let Some(value) = body.get(arg_path.get_index()) {
                     if let Some(string) = get_str_from_string_or_object_path(value) {
-                        match_namespace::<'/'>(arg_path.get_value().as_ref(), string)
+                        let path: &str = arg_path.get_value().as_ref();
+                        // The argument can also end with '/' and be a prefix of the path.
+                        match_namespace::<'/'>(path, string)
+                            || (string.ends_with('/') && path.starts_with(string))
                     } else {
                         false
                     }
-- 
2.43.0


From 6de126da7380f139549baf682c76ab58361447d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 3/9] fix: refuse to append an empty element to an object path

---
 src/value/object_path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..7072a7f 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -179,6 +179,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From 84ff3e0ad31e3df634d438d7383a7d19b2c3ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 4/9] fix: do not encode a stale header signature for an empty
 body

---
 src/encode/message/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..4dadf83 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,8 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            // Without a body there is nothing a signature in the header could describe.
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From a6abdabc72cd4595dcaf3c357fcbb1f227c01f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 5/9] fix: refuse to encode variants nested deeper than the
 decoder accepts

---
 src/encode/encoder.rs         |  2 ++
 src/encode/error.rs           |  3 +++
 src/encode/value/container.rs | 10 +++++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/encode/encoder.rs b/src/encode/encoder.rs
index ea62472..458f9bc 100644
--- a/src/encode/encoder.rs
+++ b/src/encode/encoder.rs
@@ -6,6 +6,7 @@ pub struct Encoder {
     pub(crate) buf: BytesMut,
     #[cfg(target_family = "unix")]
     pub(crate) fds: Vec<RawFd>,
+    pub(crate) variant_depth: u8,
 }
 
 impl Encoder {
@@ -27,6 +28,7 @@ impl Encoder {
             buf: BytesMut::new(),
             #[cfg(target_family = "unix")]
             fds: Vec::new(),
+            variant_depth: 0,
         }
     }
 }
diff --git a/src/encode/error.rs b/src/encode/error.rs
index ff8a0f6..812dd1f 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,3 +1,4 @@
+use crate::decode::MAXIMUM_VARIANT_DEPTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -14,4 +15,6 @@ pub enum EncodeError {
     BodySignatureMissing(u32),
     #[error("Could not encode Signature: {0}")]
     SignatureError(#[from] TypeError),
+    #[error("Variant depth is too big: {MAXIMUM_VARIANT_DEPTH} < {0}")]
+    VariantDepth(u8),
 }
diff --git a/src/encode/value/container.rs b/src/encode/value/container.rs
index 077bf2d..ccf30ce 100644
--- a/src/encode/value/container.rs
+++ b/src/encode/value/container.rs
@@ -1,3 +1,4 @@
+use crate::decode::MAXIMUM_VARIANT_DEPTH;
 use crate::encode::{EncodeError, EncodeResult, Encoder};
 use crate::value::{Array, Struct, Value, MAXIMUM_ARRAY_LENGTH};
 use std::slice::from_ref;
@@ -46,9 +47,16 @@ impl Encoder {
 
     /// Encode a `&[Value]` as a variant into the buffer.
     pub fn variant(&mut self, variant: &Value, is_le: bool) -> EncodeResult<()> {
+        if MAXIMUM_VARIANT_DEPTH <= self.variant_depth {
+            return Err(EncodeError::VariantDepth(self.variant_depth + 1));
+        }
+
         let type_ = variant.get_type()?;
         let signature = from_ref(&type_);
         self.signature(signature)?;
-        self.value(variant, is_le)
+        self.variant_depth += 1;
+        let result = self.value(variant, is_le);
+        self.variant_depth -= 1;
+        result
     }
 }
-- 
2.43.0


From 05d7fb331f50a352857072ffbdfbadf771ebf22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 6/9] fix: refuse to encode messages longer than the maximum
 message length

---
 src/encode/error.rs                  | 3 +++
 src/encode/message/message_struct.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/encode/error.rs b/src/encode/error.rs
index 812dd1f..560577d 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,4 +1,5 @@
 use crate::decode::MAXIMUM_VARIANT_DEPTH;
+use crate::message::MAXIMUM_MESSAGE_LENGTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -17,4 +18,6 @@ pub enum EncodeError {
     SignatureError(#[from] TypeError),
     #[error("Variant depth is too big: {MAXIMUM_VARIANT_DEPTH} < {0}")]
     VariantDepth(u8),
+    #[error("Message length is too big: {MAXIMUM_MESSAGE_LENGTH} < {0}")]
+    MessageTooBig(usize),
 }
diff --git a/src/encode/message/message_struct.rs b/src/encode/message/message_struct.rs
index acc3be4..8128c67 100644
--- a/src/encode/message/message_struct.rs
+++ b/src/encode/message/message_struct.rs
@@ -1,5 +1,5 @@
 use crate::encode::{EncodeError, EncodeResult, Encoder};
-use crate::message::Message;
+use crate::message::{Message, MAXIMUM_MESSAGE_LENGTH};
 use crate::value::Type;
 use bytes::BytesMut;
 use cfg_if::cfg_if;
@@ -25,6 +25,9 @@ impl Encoder {
         }
 
         let body = encoder.buf;
+        if MAXIMUM_MESSAGE_LENGTH < body.len() {
+            return Err(EncodeError::MessageTooBig(body.len()));
+        }
         let body_length = body.len() as u32;
         if body_length == 0 {
             if body_signature.is_empty() {
@@ -43,6 +46,10 @@ impl Encoder {
 
         // Append the body.
         self.algin(8);
+        let message_length = self.buf.len() + body.len();
+        if MAXIMUM_MESSAGE_LENGTH < message_length {
+            return Err(EncodeError::MessageTooBig(message_length));
+        }
         self.buf.extend(body);
 
         Ok(())
-- 
2.43.0


From c8ff32da29e14924406eb97c7b7b538d4b6539d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 7/9] fix: do not print the type of an empty struct

---
 src/value/type_enum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..db771f0 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -243,6 +243,9 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                if signature.is_empty() {
+                    return Err(TypeError::InvalidChar(b')'));
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0


From edf0ebe020ac49b611d9305d946be8c2b84cbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 8/9] fix: refuse strings containing a null byte

---
 src/decode/error.rs            | 2 ++
 src/decode/value/basic_type.rs | 3 +++
 src/encode/error.rs            | 2 ++
 src/encode/value/value_enum.rs | 5 ++++-
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decode/error.rs b/src/decode/error.rs
index 36a5989..ea087b4 100644
--- a/src/decode/error.rs
+++ b/src/decode/error.rs
@@ -22,6 +22,8 @@ pub enum DecodeError {
     Utf8Error(#[from] Utf8Error),
     #[error("Last byte is not null: {0}")]
     StringNotNull(u8),
+    #[error("String must not contain a null byte")]
+    StringContainsNull,
     #[error("Could not decode Bus: {0}")]
     BusError(#[from] BusError),
     #[error("Could not decode ObjectPath: {0}")]
diff --git a/src/decode/value/basic_type.rs b/src/decode/value/basic_type.rs
index 18c583c..2db6a17 100644
--- a/src/decode/value/basic_type.rs
+++ b/src/decode/value/basic_type.rs
@@ -189,6 +189,9 @@ impl<'a> Decoder<'a> {
     pub(crate) fn string(&mut self, is_le: bool) -> DecodeResult<Value> {
         let bytes = self.d_u32_string_bytes(is_le)?;
         let string = from_utf8(bytes.as_ref())?;
+        if string.contains('\0') {
+            return Err(DecodeError::StringContainsNull);
+        }
         Ok(Value::String(string.to_owned()))
     }
 
diff --git a/src/encode/error.rs b/src/encode/error.rs
index 560577d..6130b64 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -20,4 +20,6 @@ pub enum EncodeError {
     VariantDepth(u8),
     #[error("Message length is too big: {MAXIMUM_MESSAGE_LENGTH} < {0}")]
     MessageTooBig(usize),
+    #[error("String must not contain a null byte")]
+    StringContainsNull,
 }
diff --git a/src/encode/value/value_enum.rs b/src/encode/value/value_enum.rs
index e5a7a95..4519430 100644
--- a/src/encode/value/value_enum.rs
+++ b/src/encode/value/value_enum.rs
@@ -1,4 +1,4 @@
-use crate::encode::{EncodeResult, Encoder};
+use crate::encode::{EncodeError, EncodeResult, Encoder};
 use crate::value::Value;
 
 impl Encoder {
@@ -46,6 +46,9 @@ impl Encoder {
                 Ok(())
             }
             Value::String(s) => {
+                if s.contains('\0') {
+                    return Err(EncodeError::StringContainsNull);
+                }
                 self.string(s, is_le);
                 Ok(())
             }
-- 
2.43.0


From 7e966527d5a64ca3851b79f8688ce4d7fc31f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 9/9] fix: drop a stale header signature when splitting a
 message without body

---
 src/message/message_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/message/message_struct.rs b/src/message/message_struct.rs
index bfae08a..a9a985d 100644
--- a/src/message/message_struct.rs
+++ b/src/message/message_struct.rs
@@ -370,9 +370,11 @@ impl Message {
     /// Split the [`Message`] object into the header and the body.
     pub fn split(mut self) -> Result<(Header, Vec<Value>), TypeError> {
         let signature = self.get_signature()?;
-        if !signature.is_empty() {
-            self.header.fields.signature = Some(signature);
-        }
+        self.header.fields.signature = if signature.is_empty() {
+            None
+        } else {
+            Some(signature)
+        };
         Ok((self.header, self.body))
     }
 }
-- 
2.43.0

