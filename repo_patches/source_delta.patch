From ceabfa9b75ef9004b330b3f6aed14570ca5fc5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 01/14] fix: ObjectPath::append must reject an empty element

Appending "" returned true and left an invalid object path ('/object/').
---
 src/value/object_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..56abda2 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -164,7 +164,8 @@ impl ObjectPath {
     /// Append an element to the object path.
     ///
     /// Returns `true` if the new element could be appended, otherwise `false`.
-    /// An element cannot be appended if the element contain a character, which is not allowed.
+    /// An element cannot be appended if the element is empty or contain a character, which is not
+    /// allowed.
     ///
     /// # Example
     /// ```
@@ -179,6 +180,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From 398f0e8b860278b5ab9171519861651f8ffd9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 02/14] fix: the root path namespace matches every object path

path_namespace='/' and argNpath='/' only matched '/' itself, because the
remainder after the stripped prefix does not begin with a separator.
---
 src/match_rule/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..abcc014 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,7 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From 7d5158f429da3d70da973d917b740db6d7093b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 03/14] fix: limit the argument index of argNpath in match
 rules

argN rejected an index above 63, argNpath accepted any index.
---
 src/match_rule/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/decode.rs b/src/match_rule/decode.rs
index df83732..6964f9a 100644
--- a/src/match_rule/decode.rs
+++ b/src/match_rule/decode.rs
@@ -1,5 +1,9 @@
 use super::{
-    arg::Arg, arg_path::ArgPath, split::Split, unescape::unescape, MatchRule, MatchRuleError,
+    arg::{Arg, MAXIMUM_ARG_INDEX},
+    arg_path::ArgPath,
+    split::Split,
+    unescape::unescape,
+    MatchRule, MatchRuleError,
 };
 use crate::{
     message::MessageType,
@@ -52,6 +56,9 @@ impl TryFrom<&str> for MatchRule {
         } else if let Some(key_arg) = key.strip_prefix("arg") {
             if let Some(index) = key_arg.strip_suffix("path") {
                 let index = index.parse::<usize>()?;
+                if MAXIMUM_ARG_INDEX <= index {
+                    return Err(MatchRuleError::ArgIndexTooBig(index));
+                }
                 let arg_path = unescape(value)?;
                 match ObjectPath::try_from(arg_path.as_str()) {
                     Ok(arg_path) => Ok(MatchRule::ArgPath(ArgPath::from((index, arg_path)))),
-- 
2.43.0


From f7524d7444175348e21b4cfaca71fd324b5a5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 04/14] fix: refuse to encode variants nested deeper than the
 decoder accepts

A value with five nested variants was encoded without an error, but the
resulting message could not be decoded (DecodeError::VariantDepth).
---
 src/encode/encoder.rs         |  2 ++
 src/encode/error.rs           |  3 +++
 src/encode/value/container.rs | 10 +++++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/encode/encoder.rs b/src/encode/encoder.rs
index ea62472..141ea2f 100644
--- a/src/encode/encoder.rs
+++ b/src/encode/encoder.rs
@@ -4,6 +4,7 @@ use std::os::unix::io::RawFd;
 
 pub struct Encoder {
     pub(crate) buf: BytesMut,
+    pub(crate) variant_depth: u8,
     #[cfg(target_family = "unix")]
     pub(crate) fds: Vec<RawFd>,
 }
@@ -25,6 +26,7 @@ impl Encoder {
     pub fn new() -> Encoder {
         Encoder {
             buf: BytesMut::new(),
+            variant_depth: 0,
             #[cfg(target_family = "unix")]
             fds: Vec::new(),
         }
diff --git a/src/encode/error.rs b/src/encode/error.rs
index ff8a0f6..812dd1f 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,3 +1,4 @@
+use crate::decode::MAXIMUM_VARIANT_DEPTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -14,4 +15,6 @@ pub enum EncodeError {
     BodySignatureMissing(u32),
     #[error("Could not encode Signature: {0}")]
     SignatureError(#[from] TypeError),
+    #[error("Variant depth is too big: {MAXIMUM_VARIANT_DEPTH} < {0}")]
+    VariantDepth(u8),
 }
diff --git a/src/encode/value/container.rs b/src/encode/value/container.rs
index 077bf2d..08a4588 100644
--- a/src/encode/value/container.rs
+++ b/src/encode/value/container.rs
@@ -1,3 +1,4 @@
+use crate::decode::MAXIMUM_VARIANT_DEPTH;
 use crate::encode::{EncodeError, EncodeResult, Encoder};
 use crate::value::{Array, Struct, Value, MAXIMUM_ARRAY_LENGTH};
 use std::slice::from_ref;
@@ -46,9 +47,16 @@ impl Encoder {
 
     /// Encode a `&[Value]` as a variant into the buffer.
     pub fn variant(&mut self, variant: &Value, is_le: bool) -> EncodeResult<()> {
+        if MAXIMUM_VARIANT_DEPTH <= self.variant_depth {
+            return Err(EncodeError::VariantDepth(MAXIMUM_VARIANT_DEPTH + 1));
+        }
+
         let type_ = variant.get_type()?;
         let signature = from_ref(&type_);
         self.signature(signature)?;
-        self.value(variant, is_le)
+        self.variant_depth += 1;
+        let result = self.value(variant, is_le);
+        self.variant_depth -= 1;
+        result
     }
 }
-- 
2.43.0


From b76bbfd720d9b54d185fbfbaa1345cfe6e902e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 05/14] fix: do not encode a body signature for an empty body

If the header fields contained a signature, then it was encoded even though
the body is empty, and the message could not be decoded (BodyLengthZero).
---
 src/encode/message/header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..68c8235 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,7 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From 955607fea1fc489a49c9e0f98933b4bcfae77215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 06/14] fix: refuse to encode a message longer than
 MAXIMUM_MESSAGE_LENGTH

The decoder never reads more than MAXIMUM_MESSAGE_LENGTH bytes, therefore a
longer message could be encoded, but not decoded. The body length was also
truncated to 32 bits.
---
 src/encode/error.rs                  |  3 +++
 src/encode/message/message_struct.rs | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/encode/error.rs b/src/encode/error.rs
index 812dd1f..560577d 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,4 +1,5 @@
 use crate::decode::MAXIMUM_VARIANT_DEPTH;
+use crate::message::MAXIMUM_MESSAGE_LENGTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -17,4 +18,6 @@ pub enum EncodeError {
     SignatureError(#[from] TypeError),
     #[error("Variant depth is too big: {MAXIMUM_VARIANT_DEPTH} < {0}")]
     VariantDepth(u8),
+    #[error("Message length is too big: {MAXIMUM_MESSAGE_LENGTH} < {0}")]
+    MessageTooBig(usize),
 }
diff --git a/src/encode/message/message_struct.rs b/src/encode/message/message_struct.rs
index acc3be4..2f36c9d 100644
--- a/src/encode/message/message_struct.rs
+++ b/src/encode/message/message_struct.rs
@@ -1,11 +1,19 @@
 use crate::encode::{EncodeError, EncodeResult, Encoder};
-use crate::message::Message;
+use crate::message::{Message, MAXIMUM_MESSAGE_LENGTH};
 use crate::value::Type;
 use bytes::BytesMut;
 use cfg_if::cfg_if;
 #[cfg(target_family = "unix")]
 use std::os::unix::io::RawFd;
 
+fn check_message_length(length: usize) -> EncodeResult<()> {
+    if MAXIMUM_MESSAGE_LENGTH < length {
+        Err(EncodeError::MessageTooBig(length))
+    } else {
+        Ok(())
+    }
+}
+
 impl Encoder {
     /// Encode a `Message` object to a byte array.
     pub fn message(&mut self, message: &Message) -> EncodeResult<()> {
@@ -25,6 +33,7 @@ impl Encoder {
         }
 
         let body = encoder.buf;
+        check_message_length(body.len())?;
         let body_length = body.len() as u32;
         if body_length == 0 {
             if body_signature.is_empty() {
@@ -43,6 +52,7 @@ impl Encoder {
 
         // Append the body.
         self.algin(8);
+        check_message_length(self.buf.len() + body.len())?;
         self.buf.extend(body);
 
         Ok(())
-- 
2.43.0


From 16b8b544047f90f44626c7e388efe526fe4f56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 07/14] fix: an empty struct type has no valid signature

Type::Struct(vec![]) was printed as '()', which the parser rejects. So a
message with such a type could be encoded, but not decoded.
---
 src/value/type_enum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..db771f0 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -243,6 +243,9 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                if signature.is_empty() {
+                    return Err(TypeError::InvalidChar(b')'));
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0


From 629351d3f8529dac9698632c1ca15ced85c10dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 08/14] fix: Message::has_signature agrees with
 Message::get_signature

The decoder removes the signature from the header fields, so has_signature
was false for every decoded message, while get_signature returned the types
of the body.
---
 src/message/message_struct.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/message/message_struct.rs b/src/message/message_struct.rs
index bfae08a..463246f 100644
--- a/src/message/message_struct.rs
+++ b/src/message/message_struct.rs
@@ -288,12 +288,13 @@ impl Message {
         Ok(signature)
     }
 
-    has_field!(
-        /// It is true if the message contains a [`signature`] in the header fields.
-        ///
-        /// [`signature`]: crate::message::MessageHeaderFields::signature
-        has_signature
-    );
+    /// It is true if the message contains a [`signature`] in the header fields.
+    ///
+    /// [`signature`]: crate::message::MessageHeaderFields::signature
+    #[inline]
+    pub fn has_signature(&self) -> bool {
+        !self.body.is_empty()
+    }
 
     #[cfg(target_family = "unix")]
     get_field!(
-- 
2.43.0


From 3fcb03f9abd45ff79cdf525dfa29215282981091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 09/14] fix: a single match rule's key has the same characters
 as in a list

---
 src/match_rule/decode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/match_rule/decode.rs b/src/match_rule/decode.rs
index 6964f9a..4e0f3e8 100644
--- a/src/match_rule/decode.rs
+++ b/src/match_rule/decode.rs
@@ -18,6 +18,13 @@ impl TryFrom<&str> for MatchRule {
         let (key, value) = match_rule
             .split_once('=')
             .ok_or(MatchRuleError::MissingEqual)?;
+        // As in Split. In particular, "arg+1" must not be parsed as the index 1.
+        if let Some(c) = key
+            .chars()
+            .find(|c| !c.is_ascii_alphanumeric() && *c != '_')
+        {
+            return Err(MatchRuleError::KeyInvalidChar(c));
+        }
 
         if key == "type" {
             let r#type = unescape(value)?;
-- 
2.43.0


From 3b5fbd33ee623cd9d06eebb8fceb0055928b1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 10/14] fix: give FieldsError::BusError a text

---
 src/message/header/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/header/fields.rs b/src/message/header/fields.rs
index d1a6c9f..2b0afb8 100644
--- a/src/message/header/fields.rs
+++ b/src/message/header/fields.rs
@@ -62,7 +62,7 @@ pub enum FieldsError {
     ErrorError(#[from] ErrorError),
     #[error("Variant does not contain a Uint32: {0:?}")]
     ReplySerial(Value),
-    #[error("")]
+    #[error("String could not be converted to a Bus: {0}")]
     BusError(#[from] BusError),
     #[error("Variant does not contain a String: {0:?}")]
     Destination(Value),
-- 
2.43.0


From 1e9892be03ec9ed04de296a3d79bf9445adcd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 11/14] fix: TypeError::TooShort claimed the signature to be
 too big

---
 src/value/type_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index db771f0..c7f1fe1 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -17,7 +17,7 @@ pub enum TypeError {
     StructDepth(u8),
     #[error("Dict depth is too big: {MAXIMUM_DICT_DEPTH} < {0}")]
     DictDepth(u8),
-    #[error("Signature is too big: {MAXIMUM_SIGNATURE_LENGTH} < {0}")]
+    #[error("Signature is too short: got {0} offset {1}")]
     TooShort(usize, usize),
     #[error("The closing curly bracket is missing for the dict at {0} got {1}")]
     ClosingCurlyBracket(usize, u8),
-- 
2.43.0


From b9d6fb4a94c3d3f50d6b379b637b97fdc89771fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 12/14] fix: ObjectPathError::EndSlash blamed a dot

---
 src/value/object_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 56abda2..9098fba 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -90,7 +90,7 @@ pub struct ObjectPath(String);
 pub enum ObjectPathError {
     #[error("ObjectPath must not begin with an alphanumeric or with a '_' or with a '-'")]
     BeginAlphanumericAndUnderscoreAndHyphen,
-    #[error("ObjectPath must not end with '.'")]
+    #[error("ObjectPath must not end with '/'")]
     EndSlash,
     #[error("ObjectPath must not be empty")]
     Empty,
-- 
2.43.0


From c6c876fe970e2a03ea647253d67ace2b277c0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 13/14] fix: ArgIndexTooBig stated the limit the wrong way
 round

---
 src/match_rule/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_rule/mod.rs b/src/match_rule/mod.rs
index ff330ba..0c6bac6 100644
--- a/src/match_rule/mod.rs
+++ b/src/match_rule/mod.rs
@@ -63,7 +63,7 @@ pub enum MatchRuleError {
     PathErrorNamespace(ObjectPathError),
     #[error("Could not decode destination: {0}")]
     DestinationError(#[from] UniqueConnectionNameError),
-    #[error("The index of the argument is too big: {0} < {MAXIMUM_ARG_INDEX}")]
+    #[error("The index of the argument is too big: {MAXIMUM_ARG_INDEX} <= {0}")]
     ArgIndexTooBig(usize),
     #[error("Could not decode arg path: {0}")]
     ArgPathError(ObjectPathError),
-- 
2.43.0


From e13cd0843b26c916e82b1f19401ff1bd77b264b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 14/14] fix: FieldsError::MultipleSender blamed the destination

---
 src/message/header/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/header/fields.rs b/src/message/header/fields.rs
index 2b0afb8..25d94ee 100644
--- a/src/message/header/fields.rs
+++ b/src/message/header/fields.rs
@@ -87,7 +87,7 @@ pub enum FieldsError {
     MultipleReplySerial(Value),
     #[error("The destination is defined mutlple times: {0:?}")]
     MultipleDestination(Value),
-    #[error("The destination is defined mutlple times: {0:?}")]
+    #[error("The sender is defined mutlple times: {0:?}")]
     MultipleSender(Value),
     #[error("The signature is defined mutlple times: {0:?}")]
     MultipleSignature(Value),
-- 
2.43.0

