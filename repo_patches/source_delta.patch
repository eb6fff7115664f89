From 09f36fb80447719ebd875d193fc7112c909cac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 01/28] fix: do not print heartbeat formats to stdout while
 parsing

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..0d0e6d5 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -208,10 +208,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0


From a1d7290c820922676f804976b589eb6393f5b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 02/28] fix: reject array sizes that do not fit in usize
 instead of panicking

---
 core/src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..62062b6 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,11 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            // A number too large for usize is not a valid array size, so it is left for the parser to reject.
+            tokens.push_back(match number.as_str().parse::<usize>() {
+                Ok(number) => Token::Number(number),
+                Err(_) => Token::Unknown('0'),
+            });
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From a2a69e393282c6321134ffec37b81ba9343e62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 03/28] fix: report a stream that ends inside the header or a
 message as an error

---
 core/src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 0d0e6d5..015658d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -150,9 +150,18 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
         self.datastream.read_exact(&mut message)?;
+        self.fail_on_eof()?;
         Ok(MessageBuf::from_vec(message))
     }
 
+    // The datastream signals EOF through a flag, in which case the bytes returned by the last read are meaningless.
+    fn fail_on_eof(&self) -> Result<(), ULogError> {
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+        Ok(())
+    }
+
     #[allow(clippy::single_match_else)]
     fn next_sub(&mut self) -> Result<Option<msg::UlogMessage>, ULogError> {
         if self.state == State::HEADER {
@@ -361,13 +370,15 @@ impl<R: Read> ULogParser<R> {
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
         let msg_size = self.datastream.read_u16()?;
 
-        // ⚠️This is the only place where we check for EOF when calling a datastream read method.
+        // ⚠️This is the only place where EOF is expected when calling a datastream read method.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
+        // See: `fail_on_eof()`
         if self.datastream.eof {
             return Ok(None);
         }
 
         let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
+        self.fail_on_eof()?;
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
@@ -560,6 +571,7 @@ impl<R: Read> ULogParser<R> {
     fn read_file_header(&mut self) -> Result<FileHeader, ULogError> {
         let mut msg_header = [0; 16];
         self.datastream.read_exact(&mut msg_header)?;
+        self.fail_on_eof()?;
 
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
-- 
2.43.0


From 0c6e5748a09b9e6d4a7e2231d2faab162f37ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 04/28] fix: reject arrays with more elements than the message
 has bytes

---
 core/src/field_helpers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..9e4c0a2 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,6 +82,14 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
+    // Every element takes up at least one byte, so don't allocate memory for elements which can't be there.
+    if array_size > message_buf.len() {
+        return Err(ULogError::ParseError(format!(
+            "Array of {array_size} elements does not fit in the {} bytes remaining",
+            message_buf.len()
+        )));
+    }
+
     let mut array = Vec::with_capacity(array_size);
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
-- 
2.43.0


From b4eb539068359840afdff61eb54a89484341dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 05/28] fix: bound the nesting of formats and require nested
 values to use up bytes

---
 core/src/parser.rs | 67 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 015658d..749c06c 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -18,6 +18,9 @@ use crate::model::msg::{
 use crate::model::{def, inst, msg, Shared, MAGIC};
 use crate::tokenizer::TokenList;
 
+// How many levels deep formats can be nested inside of each other.
+const MAX_NESTING_DEPTH: usize = 64;
+
 pub struct ULogParser<R: Read> {
     state: State,
     file_header: Option<FileHeader>,
@@ -396,7 +399,7 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut data_format = self.parse_data_message_sub(format, &mut message_buf, 0)?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -422,6 +425,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::Format, ULogError> {
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
@@ -435,7 +439,7 @@ impl<R: Read> ULogParser<R> {
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, depth)?;
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -501,10 +505,42 @@ impl<R: Read> ULogParser<R> {
         Ok(None)
     }
 
+    // Decodes a value of another format, nested `depth` levels below the message itself.
+    fn parse_nested_format(
+        &self,
+        type_name: &str,
+        message_buf: &mut MessageBuf,
+        depth: usize,
+    ) -> Result<inst::Format, ULogError> {
+        // Formats can refer to themselves or each other, so the depth must be limited.
+        if depth >= MAX_NESTING_DEPTH {
+            return Err(ULogError::ParseError(format!(
+                "Formats are nested too deeply at: {type_name}"
+            )));
+        }
+
+        let remaining = message_buf.len();
+        let format = self.parse_data_message_sub(
+            self.get_format(type_name)?,
+            message_buf,
+            depth + 1,
+        )?;
+
+        // The number of nested values is only limited by the message length if each of them uses up some bytes.
+        if message_buf.len() >= remaining {
+            return Err(ULogError::ParseError(format!(
+                "Nested value has no data: {type_name}"
+            )));
+        }
+
+        Ok(format)
+    }
+
     fn parse_field_value(
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -524,16 +560,13 @@ impl<R: Read> ULogParser<R> {
                     DOUBLE => ScalarF64(parse_data_field(message_buf)?),
                     BOOL => ScalarBool(parse_data_field(message_buf)?),
                     CHAR => ScalarChar(parse_data_field(message_buf)?),
-                    OTHER(type_name) => {
-                        let child_format = self.get_format(type_name)?;
-                        ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
-                                .into(),
-                        )
-                    }
+                    OTHER(type_name) => ScalarOther(
+                        self.parse_nested_format(type_name, message_buf, depth)?
+                            .into(),
+                    ),
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, depth),
         }
     }
 
@@ -542,6 +575,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -559,12 +593,9 @@ impl<R: Read> ULogParser<R> {
             DOUBLE => ArrayF64(parse_primitive_array(array_size, message_buf)?),
             BOOL => ArrayBool(parse_primitive_array(array_size, message_buf)?),
             CHAR => ArrayChar(parse_primitive_array(array_size, message_buf)?),
-            OTHER(type_name) => {
-                let child_format = &self.get_format(type_name)?;
-                ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
-                })?)
-            }
+            OTHER(type_name) => ArrayOther(parse_array(array_size, message_buf, |buf| {
+                self.parse_nested_format(type_name, buf, depth)
+            })?),
         })
     }
 
@@ -693,7 +724,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -714,7 +745,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From 3c0509cc26bb4fbe0b175d5996eab68705b15efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 06/28] fix: yield tagged logged strings as TaggedLoggedString

---
 core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 749c06c..d77352d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -313,7 +313,7 @@ impl<R: Read> ULogParser<R> {
                 msg: String::from_utf8(message_buf.into_remaining_bytes())?,
             })),
             ULogMessageType::LOGGING_TAGGED => {
-                Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
+                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                     level: LogLevel::try_from(message_buf.take_u8()?)?,
                     tag: Some(message_buf.take_u16()?),
                     timestamp: message_buf.take_u64()?,
-- 
2.43.0


From e611721fb8c351893eb4ebc394172f87e80d9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 07/28] fix: keep the msg_id in the contents of unhandled
 remove-subscription messages

---
 core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index d77352d..8c823ed 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -281,11 +281,13 @@ impl<R: Read> ULogParser<R> {
                 Ok(msg::UlogMessage::AddSubscription(sub))
             }
             ULogMessageType::REMOVE_SUBSCRIPTION => {
-                let msg_id = message_buf.take_u16()?;
+                // The message is passed on as a whole, including the msg_id.
+                let message_contents = message_buf.into_remaining_bytes();
+                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                 self.subscriptions.remove(&msg_id);
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From e275b7b14bad5fff6d9231271ae0f531abafad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 08/28] fix: stop returning data of an allowed msg_id once it
 is subscribed under another name

---
 core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 8c823ed..cd9eaaa 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -70,6 +70,9 @@ impl SubscriptionFilter {
                     .as_mut()
                     .unwrap()
                     .insert(sub.msg_id);
+            } else if let Some(allowed_subscription_ids) = &mut self.allowed_subscription_ids {
+                // The msg_id may have been used for one of the allowed names before.
+                allowed_subscription_ids.remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From cda48a6ff80b07c56359494a652856fd37ac20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 09/28] fix: do not overflow when advancing a message buffer by
 a huge size

---
 core/src/message_buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/message_buf.rs b/core/src/message_buf.rs
index a0b8e6c..f3bccd6 100644
--- a/core/src/message_buf.rs
+++ b/core/src/message_buf.rs
@@ -247,7 +247,7 @@ impl MessageBuf {
     /// A `Result` containing a reference to the next slice of bytes or an
     /// error message if there are not enough remaining bytes in the buffer.
     pub fn advance(&mut self, size: usize) -> Result<&[u8], ULogError> {
-        if self.current_index + size > self.buf.len() {
+        if size > self.len() {
             Err(ULogError::ParseError(format!(
                 "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                 size,
-- 
2.43.0


From fd944ab7139b33f18ed9909cab086b4e9a58ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 10/28] fix: fail to encode messages and keys that are too long
 for their length prefix

---
 core/src/encode.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..cc05b4e 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -24,7 +24,9 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
+                    io::Error::new(io::ErrorKind::InvalidInput, "Message is too long to encode")
+                })?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -120,7 +122,7 @@ impl Encode for msg::Info {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -137,7 +139,7 @@ impl Encode for msg::MultiInfo {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -152,7 +154,7 @@ impl Encode for msg::Parameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -169,7 +171,7 @@ impl Encode for msg::DefaultParameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -404,6 +406,12 @@ impl<T: Encode> Encode for &T {
     }
 }
 
+// The length prefix of a key is a single byte.
+fn key_len(key_bytes: &[u8]) -> io::Result<u8> {
+    u8::try_from(key_bytes.len())
+        .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Key is too long to encode"))
+}
+
 // Convenience method to encode to Vec<u8>
 trait EncodeToVec {
     fn encode_to_vec(&self) -> io::Result<Vec<u8>>;
-- 
2.43.0


From a3d4edf67b1469c487eb103c1626e40a8d7cb63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 11/28] fix: do not emit ignored messages as empty data
 messages

---
 core/src/encode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index cc05b4e..3dab2d8 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -19,6 +19,8 @@ impl Encode for UlogMessage {
                 writer.write_all(&header.to_bytes())?;
                 Ok(())
             }
+            // Ignored messages don't carry their contents, so there is nothing that could be emitted.
+            UlogMessage::Ignored { .. } => Ok(()),
             other => {
                 // Wrap in Message struct with size and type prefix
                 let mut content_buf = Vec::new();
-- 
2.43.0


From eedd6ff8288d7d898f8b7d2c4d4269363f938068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 12/28] fix: reject logs with unknown incompat bits in the
 first flag byte

---
 core/src/model.rs  | 2 +-
 core/src/parser.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/model.rs b/core/src/model.rs
index 08b44dc..414d49e 100644
--- a/core/src/model.rs
+++ b/core/src/model.rs
@@ -64,7 +64,7 @@ pub mod msg {
 
     impl FlagBits {
         const ULOG_COMPAT_FLAG0_DEFAULT_PARAMETERS_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DEFAULT_PARAMETERS
-        const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
+        pub(crate) const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
 
         // If true, the log contains default parameters message
         // FIXME: Handle default parameters.
diff --git a/core/src/parser.rs b/core/src/parser.rs
index cd9eaaa..4bcc38e 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -704,7 +704,10 @@ impl<R: Read> ULogParser<R> {
         let incompat_flags: [u8; 8] = message_buf.advance(8)?.try_into().unwrap();
 
         // Check for any unknown bits in incompat_flags
-        let has_unknown_incompat_bits = incompat_flags.iter().skip(1).any(|&f| f != 0);
+        let has_unknown_incompat_bits = incompat_flags[0]
+            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK
+            != 0
+            || incompat_flags.iter().skip(1).any(|&f| f != 0);
 
         if has_unknown_incompat_bits {
             return Err(ULogError::UnknownIncompatBits);
-- 
2.43.0


From 39d88ee8e492b2dd1e9d627d29d1046cbab109cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 13/28] fix: consume the bytes of padding fields that are not
 byte arrays

---
 core/src/parser.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 4bcc38e..5a4735d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -438,7 +438,7 @@ impl<R: Read> ULogParser<R> {
         for field in &format.fields {
             // Handle padding fields.
             if field.name.starts_with("_padding") {
-                if let Some(padding_field) = self.parse_padding(field, message_buf)? {
+                if let Some(padding_field) = self.parse_padding(field, message_buf, depth)? {
                     fields.push(padding_field);
                 }
                 continue;
@@ -481,10 +481,25 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<Option<inst::Field>, ULogError> {
-        let Some(array_size) = field.r#type.array_size else {
-            log::warn!("Encountered padding, and type is scalar. Ignoring.");
-            return Ok(None);
+        let (Some(array_size), def::BaseType::UINT8) =
+            (field.r#type.array_size, &field.r#type.base_type)
+        else {
+            log::warn!("Encountered padding, and type is not a byte array.");
+
+            if message_buf.is_empty() {
+                return Ok(None);
+            }
+
+            // It takes up the bytes of its declared type all the same.
+            let value = self.parse_field_value(field, message_buf, depth)?;
+
+            return Ok(self.include_padding.then(|| inst::Field {
+                name: field.name.clone(),
+                r#type: field.r#type.clone(),
+                value,
+            }));
         };
         
         if array_size <= message_buf.len() {
-- 
2.43.0


From 9b40ce6a51e0e2d0f6ae45c9e44e38f432839217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 14/28] fix: reject info and parameter keys with trailing
 tokens

---
 core/src/formats.rs | 14 ++++++++++++++
 core/src/parser.rs  | 15 +++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/src/formats.rs b/core/src/formats.rs
index f9de917..a676517 100644
--- a/core/src/formats.rs
+++ b/core/src/formats.rs
@@ -79,6 +79,20 @@ pub(crate) fn parse_field(token_list: &mut TokenList) -> Result<def::Field, ULog
     })
 }
 
+// Parses the key of an info or parameter message, which is a single field and nothing else.
+pub(crate) fn parse_key(raw_key: &str) -> Result<def::Field, ULogError> {
+    let mut token_list = TokenList::from_str(raw_key);
+    let field = parse_field(&mut token_list)?;
+
+    if !token_list.is_empty() {
+        return Err(ULogError::ParseError(format!(
+            "Invalid key. Unexpected tokens after the name: {token_list:?}"
+        )));
+    }
+
+    Ok(field)
+}
+
 impl def::BaseType {
     pub fn from_string(string: &str) -> def::BaseType {
         match string {
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 5a4735d..f6391dc 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -9,14 +9,13 @@ use crate::datastream::DataStream;
 use crate::errors::ULogError;
 use crate::errors::ULogError::{UndefinedFormat, UndefinedSubscription};
 use crate::field_helpers::{parse_array, parse_data_field};
-use crate::formats::{parse_field, parse_format};
+use crate::formats::{parse_format, parse_key};
 use crate::message_buf::MessageBuf;
 use crate::model::def::BaseType;
 use crate::model::msg::{
     Dropout, FileHeader, FlagBits, LogLevel, LoggedData, MultiInfo, Subscription, UlogMessage,
 };
 use crate::model::{def, inst, msg, Shared, MAGIC};
-use crate::tokenizer::TokenList;
 
 // How many levels deep formats can be nested inside of each other.
 const MAX_NESTING_DEPTH: usize = 64;
@@ -744,8 +743,7 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn parse_info(&self, mut message_buf: MessageBuf) -> Result<msg::Info, ULogError> {
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
@@ -765,8 +763,7 @@ impl<R: Read> ULogParser<R> {
         let is_continued = message_buf.take_u8()? != 0;
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
@@ -786,8 +783,7 @@ impl<R: Read> ULogParser<R> {
     fn parse_parameter(&self, mut message_buf: MessageBuf) -> Result<msg::Parameter, ULogError> {
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         if field.r#type.is_array() {
             return Err(ULogError::UnknownParameterType(
@@ -822,8 +818,7 @@ impl<R: Read> ULogParser<R> {
         let default_types = message_buf.take_u8()?; // read the default_types bitfield
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         if field.r#type.is_array() {
             return Err(ULogError::UnknownParameterType(
-- 
2.43.0


From 285dee089c6d350026b26cc70f81c2587fccd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 15/28] fix: do not decode the bytes of truncated padding as
 the next field

---
 core/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f6391dc..f7c6fcf 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -518,8 +518,10 @@ impl<R: Read> ULogParser<R> {
         } else {
             match message_buf.len() {
                 0 => log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec."),
-                _ => log::error!("Encountered padding, and padding > message.len(). Ignoring and hoping for the best"),
+                _ => log::error!("Encountered padding, and padding > message.len(). Ignoring the rest of the message."),
             }
+            // The bytes that are there belong to the padding, not to the next field.
+            message_buf.skip(message_buf.len())?;
         }
         Ok(None)
     }
-- 
2.43.0


From 1eec8b0ebfa56ba8ede7ab185a96392123a87a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 16/28] fix: let derived enums and their catch-all variant have
 any name

---
 macros/src/lib.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..61e09b1 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -487,7 +487,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .iter()
         .map(|(var, _ty)| {
             quote! {
-                #accessor_enum_name::#var(a) => a.get_data(&data.data).map(|v| #enum_name::#var(v))
+                #accessor_enum_name::#var(ref a) => yule_log::macro_utils::ULogAccessor::get_data(a, &data.data).map(|v| #enum_name::#var(v))
             }
         })
         .collect();
@@ -513,23 +513,23 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
     let has_forward_other = forward_other_variant_ident.is_some();
 
-    let extra_logged_msg_conditional = match has_forward_other {
-        true => quote! {
+    let extra_logged_msg_conditional = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
-    let extra_subscription_forwarder = match has_forward_other {
-        true => quote! {
+    let extra_subscription_forwarder = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::AddSubscription(sub))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
     let expanded = quote! {
@@ -657,10 +657,6 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
             type Item = Result<#enum_name, yule_log::errors::ULogError>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                use ::yule_log::macro_utils::ULogAccessorFactory;
-                use ::yule_log::model::msg::UlogMessage;
-                use ::yule_log::macro_utils::ULogAccessor;
-
                 while let Some(msg_res) = self.parser.next() {
                     let msg = match msg_res {
                         Ok(m) => m,
@@ -668,7 +664,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                     };
 
                     match msg {
-                        UlogMessage::AddSubscription(sub) => {
+                        ::yule_log::model::msg::UlogMessage::AddSubscription(sub) => {
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
@@ -677,9 +673,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                             }
                             // Continue looping; don't yield yet
                         }
-                        UlogMessage::LoggedData(data) => {
+                        ::yule_log::model::msg::UlogMessage::LoggedData(data) => {
                             if let Some(acc) = self.subs.get(&data.msg_id) {
-                                return Some(match acc {
+                                return Some(match *acc {
                                     #( #logged_data_arms ),*
                                 });
                             }
-- 
2.43.0


From 1017069347d30b3b2de66a427d2b7bcea04e59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 17/28] fix: support raw identifiers as field names of derived
 structs

---
 macros/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 61e09b1..b29cee4 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -41,6 +41,7 @@ use darling::FromVariant;
 use heck::ToSnakeCase;
 use proc_macro::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{DeriveInput, Ident, Type};
 //
@@ -144,7 +145,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     }
 
     fn idx_ident(f: &syn::Field) -> Ident {
-        let name = named_ident(f);
+        let name = named_ident(f).unraw();
         Ident::new(&format!("{name}_index"), name.span())
     }
 
@@ -168,7 +169,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
                 let attr = LoggedFieldAttr::from_field(f).unwrap();
                 attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
+                    .unwrap_or_else(|| named_ident(f).unraw().to_string())
             };
 
             if is_option_type(&make_index_type(f)) {
-- 
2.43.0


From b11d5412bf3ed6cdbc198370c81340e65506a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 18/28] fix: let derived enums use structs that were derived in
 another module

---
 macros/src/lib.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index b29cee4..e8e98cf 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -267,8 +267,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         #[doc = "Optional #[yule_log(multi_id = N)] selects a multi-instance subscription."]
         #[automatically_derived]
         impl #struct_name {
-            const __YULE_LOG_SUBSCRIPTION: &'static str = #subscription;
-            const __YULE_LOG_MULTI_ID: u8 = #multi_id;
+            pub const __YULE_LOG_SUBSCRIPTION: &'static str = #subscription;
+            pub const __YULE_LOG_MULTI_ID: u8 = #multi_id;
         }
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
@@ -424,18 +424,14 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         enum_name.span(),
     );
 
-    /// Generate an accessor name for an enum variant wrapping a single struct.
+    /// Generate the accessor type for an enum variant wrapping a single struct.
     /// Fails at compile time if the type is not a simple struct path.
-    fn generate_accessor_name(
+    fn generate_accessor_type(
         ty: &syn::Type,
         span: proc_macro2::Span,
-    ) -> Result<Ident, syn::Error> {
-        if let syn::Type::Path(type_path) = ty {
-            #[allow(clippy::unwrap_used)]
-            // Safe: syn::Type::Path always has at least one segment for a valid Rust struct type.
-            let ident = &type_path.path.segments.last().unwrap().ident;
-            let name = format!("{ident}Accessor");
-            Ok(Ident::new(&name, span))
+    ) -> Result<proc_macro2::TokenStream, syn::Error> {
+        if let syn::Type::Path(_) = ty {
+            Ok(quote! { <#ty as yule_log::macro_utils::ULogAccessorFactory>::Accessor })
         } else {
             Err(syn::Error::new(
                 span,
@@ -448,8 +444,8 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let accessor_enum_variants: Result<Vec<_>, syn::Error> = filtered_variants
         .iter()
         .map(|(var, ty)| {
-            generate_accessor_name(ty, ty.span())
-                .map(|accessor_ident| quote! { #var(#accessor_ident) })
+            generate_accessor_type(ty, ty.span())
+                .map(|accessor_type| quote! { #var(#accessor_type) })
         })
         .collect();
 
-- 
2.43.0


From 4c95bd3b5801161bcf6ed22eadd96d8d37b43c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 19/28] fix: let structs without fields derive ULogData

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e8e98cf..0c13eb3 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -199,7 +199,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                let mut missing: Vec<&str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From 9a0b85197d27c121f392061c7e3ba0a0d3aea4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 20/28] fix: forget the previous mapping of a msg_id when it is
 subscribed again

---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0c13eb3..8e83c70 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -662,6 +662,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         ::yule_log::model::msg::UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have been mapped to one of the variants before.
+                            self.subs.remove(&sub.msg_id);
+
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-- 
2.43.0


From 882382649e429e4753eb3e62ef605bd14bf6b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 21/28] fix: let forward_subscriptions(false) undo an earlier
 request

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 8e83c70..cfdf8d5 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -594,10 +594,10 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                                 "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
                             ));
                         }
-                        self.forward_subscriptions = true;
                     }
                     false => {}
                 }
+                self.forward_subscriptions = value;
 
                 Ok(self)
             }
-- 
2.43.0


From 19b93de2eb4053b5b2490942586a100cd48ea80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 22/28] fix: report fields that are missing from the data
 instead of panicking

---
 macros/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cfdf8d5..56d0d8a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -243,6 +243,11 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             let idx_ident = idx_ident(f);
             let ty = &f.ty;
 
+            // A field that is in the definition can be missing from the data, as trailing padding may be omitted.
+            let missing_field = quote! {
+                .ok_or_else(|| yule_log::errors::ULogError::InvalidFieldName(stringify!(#name).to_string()))?
+            };
+
             if is_option_type(ty) {
                 // This unwrap is safe because we just confirmed it's an Option.
                 let inner_ty = extract_option_type(ty).expect("Expected Option inner type.");
@@ -250,12 +255,12 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 quote! {
                     #name: match self.#idx_ident {
                         None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)
                     }
                 }
             } else {
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: <#ty as #from_field_path>::from_field(format.fields.get(self.#idx_ident)#missing_field)?
                 }
             }
         });
-- 
2.43.0


From d978cc05f6dcc14dade4e150a1158de59550a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 23/28] fix: let structs that are not public derive ULogData

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 56d0d8a..536dc4b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -125,6 +125,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     }
 
     let struct_name = &input.ident;
+    let struct_vis = &input.vis;
 
     // Parse optional subscription name + multi_id
     let attr = match LoggedStructAttr::from_derive_input(&input) {
@@ -278,7 +279,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
         #[automatically_derived]
-        pub struct #accessor_name {
+        #struct_vis struct #accessor_name {
             #( #index_fields ),*
         }
 
-- 
2.43.0


From d9e42eaa0e5a0ff9643704b44337230e17ee3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 24/28] fix: support raw identifiers as names of derived types

---
 macros/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 536dc4b..6a55c5f 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -134,10 +134,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     };
     let subscription = attr
         .subscription_name
-        .unwrap_or_else(|| struct_name.to_string().to_snake_case());
+        .unwrap_or_else(|| struct_name.unraw().to_string().to_snake_case());
     let multi_id = attr.multi_id.unwrap_or(0);
 
-    let accessor_name = Ident::new(&format!("{struct_name}Accessor"), struct_name.span());
+    let accessor_name = Ident::new(
+        &format!("{}Accessor", struct_name.unraw()),
+        struct_name.span(),
+    );
 
     fn named_ident(f: &syn::Field) -> &syn::Ident {
         #[allow(clippy::unwrap_used)]
@@ -361,6 +364,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let input = syn::parse_macro_input!(input as DeriveInput);
 
     let enum_name = &input.ident;
+    let enum_base_name = enum_name.unraw();
 
     let variants = if let syn::Data::Enum(data_enum) = &input.data {
         &data_enum.variants
@@ -418,15 +422,17 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .collect();
 
     let accessor_enum_name = Ident::new(
-        &format!("__yule_log_derive_{enum_name}Accessor"),
+        &format!("__yule_log_derive_{enum_base_name}Accessor"),
         enum_name.span(),
     );
 
-    let hidden_struct_name =
-        Ident::new(&format!("__yule_log_derive_{enum_name}"), enum_name.span());
+    let hidden_struct_name = Ident::new(
+        &format!("__yule_log_derive_{enum_base_name}"),
+        enum_name.span(),
+    );
 
     let builder_struct_name = Ident::new(
-        &format!("__yule_log_derive_{enum_name}Builder"),
+        &format!("__yule_log_derive_{enum_base_name}Builder"),
         enum_name.span(),
     );
 
-- 
2.43.0


From 0ad46ae9f1508c5fd65db30d1cf0a04327a8e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 25/28] fix: let derived structs be named FromField

---
 macros/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 6a55c5f..86721e7 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -224,7 +224,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         }
     };
 
-    let from_field_path: syn::Path = syn::parse_str("FromField").unwrap();
+    let from_field_path: syn::Path = syn::parse_str("::yule_log::macro_utils::FromField").unwrap();
 
     // Generate get_data fields using the FromField trait.
     //
@@ -312,8 +312,6 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             fn get_data(&self, format: &yule_log::model::inst::Format)
                 -> Result<Self::Output, yule_log::errors::ULogError>
             {
-                use ::yule_log::macro_utils::FromField;
-
                 Ok(#struct_name {
                     #( #get_data_fields ),*
                 })
-- 
2.43.0


From 1a6685b6fb01ba25d13f621b77d14db4c0244698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 26/28] fix: let derived enums and their structs be named R

---
 macros/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 86721e7..9d6d5f1 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -630,8 +630,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         }
 
         #[automatically_derived]
-        impl<R: std::io::Read> #hidden_struct_name<R> {
-            fn new(reader: R) -> Result<Self, yule_log::errors::ULogError> {
+        // Not called R: one of the user's types could be.
+        impl<__R: std::io::Read> #hidden_struct_name<__R> {
+            fn new(reader: __R) -> Result<Self, yule_log::errors::ULogError> {
                 let mut parser = yule_log::builder::ULogParserBuilder::new(reader)
                     .include_timestamp(true)
                     .include_padding(true)
@@ -660,7 +661,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         }
 
         #[automatically_derived]
-        impl<R: std::io::Read> Iterator for #hidden_struct_name<R> {
+        impl<__R: std::io::Read> Iterator for #hidden_struct_name<__R> {
             type Item = Result<#enum_name, yule_log::errors::ULogError>;
 
             fn next(&mut self) -> Option<Self::Item> {
-- 
2.43.0


From bb1e2a369ae7f7a6f3867d9b913190be772c6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 27/28] fix: reject variants that are not tuple variants in
 ULogMessages

---
 macros/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 9d6d5f1..0dd02bf 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -410,6 +410,13 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 .into();
             }
             variant_info.push((v.ident.clone(), &fields.unnamed[0].ty));
+        } else {
+            return syn::Error::new_spanned(
+                v,
+                "Enum variants must be tuple variants containing exactly one struct type.",
+            )
+            .to_compile_error()
+            .into();
         }
     }
 
-- 
2.43.0


From 22ea028211e75335d486ec5b018c42fbd40ee72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 28/28] fix: accept types that derive input gets from a
 macro_rules macro

---
 macros/src/lib.rs   |  6 +++---
 macros/src/utils.rs | 13 +++++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0dd02bf..fe63fde 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -34,7 +34,7 @@
 
 mod utils;
 
-use crate::utils::{extract_option_type, is_option_type, make_index_type};
+use crate::utils::{extract_option_type, is_option_type, make_index_type, ungroup};
 use darling::FromDeriveInput;
 use darling::FromField;
 use darling::FromVariant;
@@ -409,7 +409,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                 .to_compile_error()
                 .into();
             }
-            variant_info.push((v.ident.clone(), &fields.unnamed[0].ty));
+            variant_info.push((v.ident.clone(), ungroup(&fields.unnamed[0].ty)));
         } else {
             return syn::Error::new_spanned(
                 v,
@@ -509,7 +509,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     // Build subscription allow-list tokens (names only, as parser doesn't know about multi_id)
     let subscription_idents: Vec<_> = filtered_variants
         .iter()
-        .map(|(_var, ty)| quote! { #ty::__YULE_LOG_SUBSCRIPTION })
+        .map(|(_var, ty)| quote! { <#ty>::__YULE_LOG_SUBSCRIPTION })
         .collect();
 
     // Generate match arm for forwarding other messages
diff --git a/macros/src/utils.rs b/macros/src/utils.rs
index 159671c..780a372 100644
--- a/macros/src/utils.rs
+++ b/macros/src/utils.rs
@@ -1,8 +1,17 @@
 use proc_macro2::Span;
 use syn::{Field, GenericArgument, Ident, Path, PathArguments, PathSegment, Token, Type, TypePath};
 
+/// Strips parentheses, and the invisible group around a type that was passed to a `macro_rules!` macro.
+pub fn ungroup(ty: &Type) -> &Type {
+    match ty {
+        Type::Group(group) => ungroup(&group.elem),
+        Type::Paren(paren) => ungroup(&paren.elem),
+        _ => ty,
+    }
+}
+
 pub fn is_option_type(ty: &Type) -> bool {
-    if let Type::Path(type_path) = ty {
+    if let Type::Path(type_path) = ungroup(ty) {
         if let Some(seg) = type_path.path.segments.last() {
             if seg.ident == "Option" {
                 return matches!(seg.arguments, PathArguments::AngleBracketed(_));
@@ -64,7 +73,7 @@ pub fn make_index_type(field: &Field) -> Type {
 }
 
 pub fn extract_option_type(ty: &Type) -> Option<&Type> {
-    if let Type::Path(TypePath { path, .. }) = ty {
+    if let Type::Path(TypePath { path, .. }) = ungroup(ty) {
         if let Some(PathSegment { ident, arguments }) = path.segments.last() {
             if *ident == "Option" {
                 if let PathArguments::AngleBracketed(ref args) = arguments {
-- 
2.43.0

