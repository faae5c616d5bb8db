From 285a9410c28a30f0d376bf96d891592e39982bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 01/27] fix: do not print heartbeat format definitions to
 stdout

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..0d0e6d5 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -208,10 +208,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0


From 923722c78f5826ca90fa1d2fc4dc4bb409baa572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 02/27] fix: report tagged logged strings as TaggedLoggedString

---
 core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 0d0e6d5..10eefd8 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -301,7 +301,7 @@ impl<R: Read> ULogParser<R> {
                 msg: String::from_utf8(message_buf.into_remaining_bytes())?,
             })),
             ULogMessageType::LOGGING_TAGGED => {
-                Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
+                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                     level: LogLevel::try_from(message_buf.take_u8()?)?,
                     tag: Some(message_buf.take_u16()?),
                     timestamp: message_buf.take_u64()?,
-- 
2.43.0


From 6321be4854db470a206b9feec0953df20ee8632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 03/27] fix: keep the msg_id in the contents of removed
 subscription messages

---
 core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 10eefd8..ae177fe 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -271,9 +271,14 @@ impl<R: Read> ULogParser<R> {
             ULogMessageType::REMOVE_SUBSCRIPTION => {
                 let msg_id = message_buf.take_u16()?;
                 self.subscriptions.remove(&msg_id);
+
+                // The msg_id is part of the contents of the passed through message.
+                let mut message_contents = msg_id.to_le_bytes().to_vec();
+                message_contents.extend(message_buf.into_remaining_bytes());
+
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From 57950a5d31ae11ec7190477b9ccacd52db144269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 04/27] fix: apply the allow list to the latest subscription of
 a msg_id

---
 core/src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index ae177fe..1f68378 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -61,12 +61,14 @@ impl SubscriptionFilter {
         // Once the AddSubscription messages come in, then we can convert the strings names to msg_ids
         // to more efficiently filter the subscriptions.
         if let Some(allowed_subscription_names) = &self.allowed_subscription_names {
+            // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
+            let allowed_subscription_ids = self.allowed_subscription_ids.as_mut().unwrap();
+
             if allowed_subscription_names.contains(&sub.message_name) {
-                // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
-                self.allowed_subscription_ids
-                    .as_mut()
-                    .unwrap()
-                    .insert(sub.msg_id);
+                allowed_subscription_ids.insert(sub.msg_id);
+            } else {
+                // The msg_id may have belonged to an allowed subscription before.
+                allowed_subscription_ids.remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From 64e9be1d8c924c151b168202e87f0dc197aaa868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 05/27] fix: reject undefined bits in the first byte of the
 incompat flags

---
 core/src/model.rs  | 2 +-
 core/src/parser.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/model.rs b/core/src/model.rs
index 08b44dc..414d49e 100644
--- a/core/src/model.rs
+++ b/core/src/model.rs
@@ -64,7 +64,7 @@ pub mod msg {
 
     impl FlagBits {
         const ULOG_COMPAT_FLAG0_DEFAULT_PARAMETERS_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DEFAULT_PARAMETERS
-        const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
+        pub(crate) const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
 
         // If true, the log contains default parameters message
         // FIXME: Handle default parameters.
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 1f68378..bd01f4d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -663,7 +663,10 @@ impl<R: Read> ULogParser<R> {
         let incompat_flags: [u8; 8] = message_buf.advance(8)?.try_into().unwrap();
 
         // Check for any unknown bits in incompat_flags
-        let has_unknown_incompat_bits = incompat_flags.iter().skip(1).any(|&f| f != 0);
+        let has_unknown_incompat_bits = incompat_flags[0]
+            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK
+            != 0
+            || incompat_flags.iter().skip(1).any(|&f| f != 0);
 
         if has_unknown_incompat_bits {
             return Err(ULogError::UnknownIncompatBits);
-- 
2.43.0


From c16aa407af03076eae67679188541a2a53b722aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 06/27] fix: do not panic on numbers that do not fit a usize

---
 core/src/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..892553e 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,11 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            tokens.push_back(match number.as_str().parse::<usize>() {
+                Ok(n) => Token::Number(n),
+                // Too large to be represented, so it is not a usable number.
+                Err(_) => Token::Unknown(number.as_str().chars().next().unwrap()),
+            });
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From 7886a1cce63913d93cef9db5fd1f3f334cf6eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 07/27] fix: do not allocate arrays larger than the message
 that contains them

---
 core/src/field_helpers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..4796e58 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,7 +82,8 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
-    let mut array = Vec::with_capacity(array_size);
+    // The declared size is untrusted, don't reserve more elements than there are bytes left.
+    let mut array = Vec::with_capacity(array_size.min(message_buf.len()));
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
     }
-- 
2.43.0


From 4776c7c979f62a3d0f93c9628b5351ecefba0502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 08/27] fix: do not overflow when asked for more bytes than a
 usize can index

---
 core/src/message_buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/message_buf.rs b/core/src/message_buf.rs
index a0b8e6c..f3bccd6 100644
--- a/core/src/message_buf.rs
+++ b/core/src/message_buf.rs
@@ -247,7 +247,7 @@ impl MessageBuf {
     /// A `Result` containing a reference to the next slice of bytes or an
     /// error message if there are not enough remaining bytes in the buffer.
     pub fn advance(&mut self, size: usize) -> Result<&[u8], ULogError> {
-        if self.current_index + size > self.buf.len() {
+        if size > self.len() {
             Err(ULogError::ParseError(format!(
                 "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                 size,
-- 
2.43.0


From f4303825247b9f842a4ed9ff3dcd7dedc10c66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 09/27] fix: report truncated messages as errors instead of
 filling them with zeros

---
 core/src/parser.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index bd01f4d..7739d6d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -151,10 +151,23 @@ impl<R: Read> ULogParser<R> {
 
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
-        self.datastream.read_exact(&mut message)?;
+        self.read_exact(&mut message)?;
         Ok(MessageBuf::from_vec(message))
     }
 
+    /// Reads bytes which must be present. If the stream ends before them it is an error, and there is
+    /// nothing left to iterate over.
+    fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ULogError> {
+        self.datastream.read_exact(buf)?;
+
+        if self.datastream.eof {
+            self.state = State::EOF;
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
+        Ok(())
+    }
+
     #[allow(clippy::single_match_else)]
     fn next_sub(&mut self) -> Result<Option<msg::UlogMessage>, ULogError> {
         if self.state == State::HEADER {
@@ -366,15 +379,19 @@ impl<R: Read> ULogParser<R> {
     }
 
     fn read_message_header(&mut self) -> Result<Option<ULogMessageHeader>, ULogError> {
-        let msg_size = self.datastream.read_u16()?;
+        let mut header = [0; 3];
 
-        // ⚠️This is the only place where we check for EOF when calling a datastream read method.
+        // ⚠️The first byte of a message is the only place where EOF is the regular end of the file.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
+        self.datastream.read_exact(&mut header[..1])?;
         if self.datastream.eof {
             return Ok(None);
         }
 
-        let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
+        self.read_exact(&mut header[1..])?;
+
+        let msg_size = LittleEndian::read_u16(&header);
+        let msg_type = ULogMessageType::from(header[2]);
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
@@ -566,7 +583,7 @@ impl<R: Read> ULogParser<R> {
 
     fn read_file_header(&mut self) -> Result<FileHeader, ULogError> {
         let mut msg_header = [0; 16];
-        self.datastream.read_exact(&mut msg_header)?;
+        self.read_exact(&mut msg_header)?;
 
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
-- 
2.43.0


From f8ff12a87d2ecd83fe53b3674b309a3a19da0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 10/27] fix: stop after a read failure instead of continuing at
 an unknown position

---
 core/src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 7739d6d..de4a205 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -158,7 +158,7 @@ impl<R: Read> ULogParser<R> {
     /// Reads bytes which must be present. If the stream ends before them it is an error, and there is
     /// nothing left to iterate over.
     fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ULogError> {
-        self.datastream.read_exact(buf)?;
+        self.read_or_stop(buf)?;
 
         if self.datastream.eof {
             self.state = State::EOF;
@@ -168,6 +168,17 @@ impl<R: Read> ULogParser<R> {
         Ok(())
     }
 
+    /// Reads bytes from the stream. After a read failure the position in the stream is unknown, so nothing
+    /// that follows can be interpreted.
+    fn read_or_stop(&mut self, buf: &mut [u8]) -> Result<(), ULogError> {
+        if let Err(err) = self.datastream.read_exact(buf) {
+            self.state = State::EOF;
+            return Err(err);
+        }
+
+        Ok(())
+    }
+
     #[allow(clippy::single_match_else)]
     fn next_sub(&mut self) -> Result<Option<msg::UlogMessage>, ULogError> {
         if self.state == State::HEADER {
@@ -383,7 +394,7 @@ impl<R: Read> ULogParser<R> {
 
         // ⚠️The first byte of a message is the only place where EOF is the regular end of the file.
         // If we encounter EOF anywhere else, it counts as a true 'Unexpected EOF' and is treated as an error.
-        self.datastream.read_exact(&mut header[..1])?;
+        self.read_or_stop(&mut header[..1])?;
         if self.datastream.eof {
             return Ok(None);
         }
-- 
2.43.0


From 4800d81eb51d7457f3e40f93cd22f61d85e0c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 11/27] fix: do not read messages across the start of the
 appended data

---
 core/src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index de4a205..78ae07c 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -18,6 +18,9 @@ use crate::model::msg::{
 use crate::model::{def, inst, msg, Shared, MAGIC};
 use crate::tokenizer::TokenList;
 
+/// Size of the length and type fields in front of every message.
+const MESSAGE_HEADER_SIZE: usize = 3;
+
 pub struct ULogParser<R: Read> {
     state: State,
     file_header: Option<FileHeader>,
@@ -211,7 +214,7 @@ impl<R: Read> ULogParser<R> {
         let max_bytes_to_read = self.max_bytes_to_read;
 
         if let Some(max_bytes_to_read) = max_bytes_to_read {
-            if self.datastream.num_bytes_read >= max_bytes_to_read {
+            if self.datastream.num_bytes_read + MESSAGE_HEADER_SIZE > max_bytes_to_read {
                 self.state = State::EOF;
                 return Ok(None);
             }
@@ -222,6 +225,15 @@ impl<R: Read> ULogParser<R> {
                 self.state = State::EOF;
                 return Ok(None);
             }
+            // A message that does not end before the crash dump is not a ULOG message.
+            Some(header)
+                if max_bytes_to_read.is_some_and(|max_bytes_to_read| {
+                    self.datastream.num_bytes_read + header.msg_size as usize > max_bytes_to_read
+                }) =>
+            {
+                self.state = State::EOF;
+                return Ok(None);
+            }
             Some(header) => (
                 header.msg_type,
                 self.read_message(header.msg_size as usize)?,
-- 
2.43.0


From 09b3f93ba56f2353074718a212f3eec821857633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 12/27] fix: consume padding fields that are not byte arrays

---
 core/src/parser.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 78ae07c..da8bde0 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -509,9 +509,22 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         message_buf: &mut MessageBuf,
     ) -> Result<Option<inst::Field>, ULogError> {
-        let Some(array_size) = field.r#type.array_size else {
-            log::warn!("Encountered padding, and type is scalar. Ignoring.");
-            return Ok(None);
+        let array_size = match (&field.r#type.base_type, field.r#type.array_size) {
+            (BaseType::UINT8, Some(array_size)) => array_size,
+            // Padding of any other type takes up space just like an ordinary field of that type.
+            _ => {
+                if message_buf.is_empty() {
+                    return Ok(None);
+                }
+
+                let value = self.parse_field_value(field, message_buf)?;
+
+                return Ok(self.include_padding.then(|| inst::Field {
+                    name: Shared::from(field.name.clone()),
+                    r#type: field.r#type.clone(),
+                    value,
+                }));
+            }
         };
         
         if array_size <= message_buf.len() {
-- 
2.43.0


From 4e73b9e1b37e8769ce9298d583c93d325cf5d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 13/27] fix: do not decode the bytes of cut off padding as
 other fields

---
 core/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index da8bde0..fb41f8a 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -544,7 +544,11 @@ impl<R: Read> ULogParser<R> {
         } else {
             match message_buf.len() {
                 0 => log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec."),
-                _ => log::error!("Encountered padding, and padding > message.len(). Ignoring and hoping for the best"),
+                remaining => {
+                    log::error!("Encountered padding, and padding > message.len(). The rest of the message is padding.");
+                    // No field after the padding can be in the message.
+                    message_buf.skip(remaining)?;
+                }
             }
         }
         Ok(None)
-- 
2.43.0


From 99d6e13e54726e531d769a8cfe9451e5e46af574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 14/27] fix: bound the nesting of formats and the work caused
 by empty nested fields

---
 core/src/parser.rs | 58 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index fb41f8a..9fbd13c 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -36,6 +36,38 @@ pub struct ULogParser<R: Read> {
     pub(crate) include_padding: bool,
 }
 
+/// Tracks the work caused by the fields of a single message. Formats come from the file, so they can refer to
+/// themselves or nest fields which take up no space in the message.
+#[derive(Default)]
+struct Nesting {
+    depth: usize,
+    num_values: usize,
+}
+
+impl Nesting {
+    const MAX_DEPTH: usize = 64;
+    // Well above the number of fields that can take up space in a message of at most 64K.
+    const MAX_VALUES: usize = 4 * 65536;
+
+    fn enter(&mut self, format: &def::Format) -> Result<(), ULogError> {
+        self.depth += 1;
+        self.num_values += 1 + format.fields.len();
+
+        if self.depth > Self::MAX_DEPTH || self.num_values > Self::MAX_VALUES {
+            return Err(ULogError::ParseError(format!(
+                "Nesting limits exceeded in format: {}",
+                format.name
+            )));
+        }
+
+        Ok(())
+    }
+
+    fn leave(&mut self) {
+        self.depth -= 1;
+    }
+}
+
 pub struct SubscriptionFilter {
     allowed_subscription_names: Option<HashSet<String>>,
     allowed_subscription_ids: Option<HashSet<u16>>,
@@ -432,7 +464,7 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut data_format = self.parse_data_message_sub(format, &mut message_buf, &mut Nesting::default())?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -458,20 +490,23 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        nesting: &mut Nesting,
     ) -> Result<inst::Format, ULogError> {
+        nesting.enter(&format)?;
+
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
 
         for field in &format.fields {
             // Handle padding fields.
             if field.name.starts_with("_padding") {
-                if let Some(padding_field) = self.parse_padding(field, message_buf)? {
+                if let Some(padding_field) = self.parse_padding(field, message_buf, nesting)? {
                     fields.push(padding_field);
                 }
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, nesting)?;
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -492,6 +527,8 @@ impl<R: Read> ULogParser<R> {
             });
         }
 
+        nesting.leave();
+
         Ok(inst::Format {
             name: format.name.clone(),
             timestamp,
@@ -508,6 +545,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        nesting: &mut Nesting,
     ) -> Result<Option<inst::Field>, ULogError> {
         let array_size = match (&field.r#type.base_type, field.r#type.array_size) {
             (BaseType::UINT8, Some(array_size)) => array_size,
@@ -517,7 +555,7 @@ impl<R: Read> ULogParser<R> {
                     return Ok(None);
                 }
 
-                let value = self.parse_field_value(field, message_buf)?;
+                let value = self.parse_field_value(field, message_buf, nesting)?;
 
                 return Ok(self.include_padding.then(|| inst::Field {
                     name: Shared::from(field.name.clone()),
@@ -558,6 +596,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        nesting: &mut Nesting,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -580,13 +619,13 @@ impl<R: Read> ULogParser<R> {
                     OTHER(type_name) => {
                         let child_format = self.get_format(type_name)?;
                         ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
+                            self.parse_data_message_sub(child_format, message_buf, nesting)?
                                 .into(),
                         )
                     }
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, nesting),
         }
     }
 
@@ -595,6 +634,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        nesting: &mut Nesting,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -615,7 +655,7 @@ impl<R: Read> ULogParser<R> {
             OTHER(type_name) => {
                 let child_format = &self.get_format(type_name)?;
                 ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
+                    self.parse_data_message_sub(child_format.clone(), buf, nesting)
                 })?)
             }
         })
@@ -748,7 +788,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, &mut Nesting::default())?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -769,7 +809,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, &mut Nesting::default())?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From abb8c3d141a32f0edf978a051bdea10a9c6d5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 15/27] fix: fail to encode messages too long for their length
 fields

---
 core/src/encode.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..964a1af 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -9,6 +9,13 @@ pub trait Encode {
     fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()>;
 }
 
+fn too_long(what: &str) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidInput,
+        format!("{what} too long for its length field"),
+    )
+}
+
 // ------------------------ UlogMessage ------------------------
 
 impl Encode for UlogMessage {
@@ -24,7 +31,8 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len())
+                    .map_err(|_| too_long("message contents"))?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -120,7 +128,8 @@ impl Encode for msg::Info {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        let key_len = u8::try_from(key_bytes.len()).map_err(|_| too_long("message key"))?;
+        writer.write_all(&[key_len])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -137,7 +146,8 @@ impl Encode for msg::MultiInfo {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        let key_len = u8::try_from(key_bytes.len()).map_err(|_| too_long("message key"))?;
+        writer.write_all(&[key_len])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -152,7 +162,8 @@ impl Encode for msg::Parameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        let key_len = u8::try_from(key_bytes.len()).map_err(|_| too_long("message key"))?;
+        writer.write_all(&[key_len])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -169,7 +180,8 @@ impl Encode for msg::DefaultParameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        let key_len = u8::try_from(key_bytes.len()).map_err(|_| too_long("message key"))?;
+        writer.write_all(&[key_len])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
-- 
2.43.0


From 08257503123f97c69a12b95755d25a25ffd3de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 16/27] fix: do not encode ignored messages as empty records

---
 core/src/encode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index 964a1af..ea30905 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -26,6 +26,8 @@ impl Encode for UlogMessage {
                 writer.write_all(&header.to_bytes())?;
                 Ok(())
             }
+            // The contents of ignored messages are not available
+            UlogMessage::Ignored { .. } => Ok(()),
             other => {
                 // Wrap in Message struct with size and type prefix
                 let mut content_buf = Vec::new();
-- 
2.43.0


From 6a5d569cfb17387f6a0bf36f40a6d3bc09962362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 17/27] fix: forget the accessor of a msg_id when it is
 subscribed again

---
 macros/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..0e35d42 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -669,6 +669,8 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have been bound to another subscription before.
+                            self.subs.remove(&sub.msg_id);
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-- 
2.43.0


From c8e12039af32f6da6dc0e71b95992b4f76548d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 18/27] fix: use the derived enum and its forward_other variant
 instead of LoggedMessages::Other

---
 macros/src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0e35d42..b24bba5 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -513,23 +513,23 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
     let has_forward_other = forward_other_variant_ident.is_some();
 
-    let extra_logged_msg_conditional = match has_forward_other {
-        true => quote! {
+    let extra_logged_msg_conditional = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::LoggedData(data))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
-    let extra_subscription_forwarder = match has_forward_other {
-        true => quote! {
+    let extra_subscription_forwarder = match &forward_other_variant_ident {
+        Some(forward_ident) => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_ident(UlogMessage::AddSubscription(sub))));
             }
         },
-        false => quote! {},
+        None => quote! {},
     };
 
     let expanded = quote! {
-- 
2.43.0


From 926d926b28fa033ba44376ffbec81899b1407252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 19/27] fix: do not panic in derived structs when the data
 lacks padding fields

---
 macros/src/lib.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index b24bba5..cf4649a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -154,6 +154,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         make_index_type(f)
     }
 
+    fn ulog_name(f: &syn::Field) -> String {
+        // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
+        let attr = LoggedFieldAttr::from_field(f).unwrap();
+        attr.field_name
+            .unwrap_or_else(|| named_ident(f).to_string())
+    }
+
     // Generate index_fields to hold the index of the field in the LoggedData message, for efficient lookup.
     let index_fields = fields.iter().map(|f| {
         let idx_ident = idx_ident(f);
@@ -164,12 +171,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     let accessor_struct = {
         let idx_field_exprs = fields.iter().map(|f| {
             let idx_ident = idx_ident(f);
-            let ulog_name = {
-                // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
-                let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
-            };
+            let ulog_name = ulog_name(f);
 
             if is_option_type(&make_index_type(f)) {
                 quote! {
@@ -230,7 +232,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     // - For any non-optional field `f`, the corresponding index field is `usize` and guaranteed to be present.
     //
     // This invariant is established earlier when generating index fields and validated by construction of the Accessor struct.
-    // Therefore, it is safe to unwrap and index into `format.fields` accordingly.
+    // It holds for the ULog format. The data lacks trailing padding fields, so look up every field through `get_field`.
     //
     // The generated code uses this to:
     // - Return `None` directly when the index is `None` (field missing),
@@ -241,6 +243,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             let name = named_ident(f);
             let idx_ident = idx_ident(f);
             let ty = &f.ty;
+            let ulog_name = ulog_name(f);
 
             if is_option_type(ty) {
                 // This unwrap is safe because we just confirmed it's an Option.
@@ -249,12 +252,12 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 quote! {
                     #name: match self.#idx_ident {
                         None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(get_field(idx, #ulog_name)?)?)
                     }
                 }
             } else {
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: <#ty as #from_field_path>::from_field(get_field(self.#idx_ident, #ulog_name)?)?
                 }
             }
         });
@@ -304,6 +307,17 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
             {
                 use ::yule_log::macro_utils::FromField;
 
+                // Padding is not in the data when the message ends before it, so the fields may be fewer than in
+                // the format definition, and those after the padding may have moved.
+                let get_field = |idx: usize, name: &str| {
+                    format.fields.get(idx)
+                        .filter(|f| &*f.name == name)
+                        .or_else(|| format.fields.iter().find(|f| &*f.name == name))
+                        .ok_or_else(|| yule_log::errors::ULogError::InvalidFieldName(
+                            format!("The field `{}` is not in the data of `{}`", name, format.name)
+                        ))
+                };
+
                 Ok(#struct_name {
                     #( #get_data_fields ),*
                 })
-- 
2.43.0


From b6fa21c4c54de099ba8711a04c57c30a2461e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 20/27] fix: let the derived builder turn subscription
 forwarding off again

---
 macros/src/lib.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4649a..d097ebd 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -604,17 +604,12 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
             #[allow(dead_code)]
             pub fn forward_subscriptions(mut self, value: bool) -> Result<Self, yule_log::errors::ULogError> {
-                match value {
-                    true => {
-                        if !Self::HAS_FORWARD_OTHER {
-                            return Err(yule_log::errors::ULogError::InvalidConfiguration(
-                                "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
-                            ));
-                        }
-                        self.forward_subscriptions = true;
-                    }
-                    false => {}
+                if value && !Self::HAS_FORWARD_OTHER {
+                    return Err(yule_log::errors::ULogError::InvalidConfiguration(
+                        "Cannot forward subscriptions messages because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
+                    ));
                 }
+                self.forward_subscriptions = value;
 
                 Ok(self)
             }
-- 
2.43.0


From f24f177370609917fb3900682fb11dba154bc04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 21/27] fix: let structs with only optional fields be derived

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index d097ebd..82c50bd 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -200,7 +200,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                let mut missing: Vec<&str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From cb481de80f1ddc9420ee3b4781f02637855bd097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 22/27] fix: an allow list set on a parser in use counts the
 subscriptions already seen

---
 core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 9fbd13c..2d84f96 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -161,13 +161,18 @@ impl<R: Read> ULogParser<R> {
         subscr_names: impl IntoIterator<Item = String>,
     ) {
         self.subscription_filter = SubscriptionFilter::new(subscr_names);
+
+        // Subscriptions may already have been seen if the parser is in use.
+        for sub in self.subscriptions.values() {
+            self.subscription_filter.update_ids(sub);
+        }
     }
 
     /// Deprecated. Use `ULogParserBuilder::set_subscription_allow_list()` instead.
     /// This will be removed or made private in a future release.
     #[deprecated]
     pub fn set_subscription_allow_list(&mut self, set: HashSet<String>) {
-        self.subscription_filter = SubscriptionFilter::new(set);
+        self.set_allowed_subscription_names(set);
     }
 
     pub fn get_format(&self, message_name: &str) -> Result<Shared<def::Format>, ULogError> {
-- 
2.43.0


From 16592b7606a3816ddecf771d42066c7d75cd4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 23/27] fix: derive ULogData for structs that are not public

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 82c50bd..aa5fade 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -124,6 +124,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     }
 
     let struct_name = &input.ident;
+    let vis = &input.vis;
 
     // Parse optional subscription name + multi_id
     let attr = match LoggedStructAttr::from_derive_input(&input) {
@@ -275,7 +276,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
         #[automatically_derived]
-        pub struct #accessor_name {
+        #vis struct #accessor_name {
             #( #index_fields ),*
         }
 
-- 
2.43.0


From 7042b52f3941c4006d39924171375e3ab87ac3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 24/27] fix: derive ULogMessages for structs of other modules

---
 macros/src/lib.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index aa5fade..5e8400a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -270,8 +270,10 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         #[doc = "Optional #[yule_log(multi_id = N)] selects a multi-instance subscription."]
         #[automatically_derived]
         impl #struct_name {
-            const __YULE_LOG_SUBSCRIPTION: &'static str = #subscription;
-            const __YULE_LOG_MULTI_ID: u8 = #multi_id;
+            #[doc(hidden)]
+            #vis const __YULE_LOG_SUBSCRIPTION: &'static str = #subscription;
+            #[doc(hidden)]
+            #vis const __YULE_LOG_MULTI_ID: u8 = #multi_id;
         }
 
         #[doc = "Accessor type for efficiently retrieving fields from this message type."]
@@ -438,18 +440,15 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         enum_name.span(),
     );
 
-    /// Generate an accessor name for an enum variant wrapping a single struct.
+    /// Generate the accessor type for an enum variant wrapping a single struct. The accessor is not in scope when
+    /// the struct is imported from another module.
     /// Fails at compile time if the type is not a simple struct path.
-    fn generate_accessor_name(
+    fn generate_accessor_type(
         ty: &syn::Type,
         span: proc_macro2::Span,
-    ) -> Result<Ident, syn::Error> {
-        if let syn::Type::Path(type_path) = ty {
-            #[allow(clippy::unwrap_used)]
-            // Safe: syn::Type::Path always has at least one segment for a valid Rust struct type.
-            let ident = &type_path.path.segments.last().unwrap().ident;
-            let name = format!("{ident}Accessor");
-            Ok(Ident::new(&name, span))
+    ) -> Result<proc_macro2::TokenStream, syn::Error> {
+        if let syn::Type::Path(_) = ty {
+            Ok(quote! { <#ty as yule_log::macro_utils::ULogAccessorFactory>::Accessor })
         } else {
             Err(syn::Error::new(
                 span,
@@ -462,8 +461,8 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let accessor_enum_variants: Result<Vec<_>, syn::Error> = filtered_variants
         .iter()
         .map(|(var, ty)| {
-            generate_accessor_name(ty, ty.span())
-                .map(|accessor_ident| quote! { #var(#accessor_ident) })
+            generate_accessor_type(ty, ty.span())
+                .map(|accessor_type| quote! { #var(#accessor_type) })
         })
         .collect();
 
@@ -510,7 +509,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     // Build subscription allow-list tokens (names only, as parser doesn't know about multi_id)
     let subscription_idents: Vec<_> = filtered_variants
         .iter()
-        .map(|(_var, ty)| quote! { #ty::__YULE_LOG_SUBSCRIPTION })
+        .map(|(_var, ty)| quote! { <#ty>::__YULE_LOG_SUBSCRIPTION })
         .collect();
 
     // Generate match arm for forwarding other messages
-- 
2.43.0


From 644b4b921ec0d13338658b65b42d801d3fa18945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 25/27] fix: derive ULogMessages for an enum with only a
 forward variant

---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 5e8400a..df027d2 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -501,7 +501,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         .iter()
         .map(|(var, _ty)| {
             quote! {
-                #accessor_enum_name::#var(a) => a.get_data(&data.data).map(|v| #enum_name::#var(v))
+                #accessor_enum_name::#var(ref a) => a.get_data(&data.data).map(|v| #enum_name::#var(v))
             }
         })
         .collect();
@@ -690,7 +690,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                         }
                         UlogMessage::LoggedData(data) => {
                             if let Some(acc) = self.subs.get(&data.msg_id) {
-                                return Some(match acc {
+                                return Some(match *acc {
                                     #( #logged_data_arms ),*
                                 });
                             }
-- 
2.43.0


From 43d3e1accdba8bc111cb115b6aa652eb5f57b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 26/27] fix: derive ULogData for fields with raw identifiers

---
 macros/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index df027d2..6f3b2cc 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -40,7 +40,8 @@ use darling::FromField;
 use darling::FromVariant;
 use heck::ToSnakeCase;
 use proc_macro::TokenStream;
-use quote::quote;
+use quote::{format_ident, quote};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{DeriveInput, Ident, Type};
 //
@@ -146,7 +147,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
 
     fn idx_ident(f: &syn::Field) -> Ident {
         let name = named_ident(f);
-        Ident::new(&format!("{name}_index"), name.span())
+        format_ident!("{name}_index")
     }
 
     fn idx_type(f: &syn::Field) -> Type {
@@ -159,7 +160,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
         let attr = LoggedFieldAttr::from_field(f).unwrap();
         attr.field_name
-            .unwrap_or_else(|| named_ident(f).to_string())
+            .unwrap_or_else(|| named_ident(f).unraw().to_string())
     }
 
     // Generate index_fields to hold the index of the field in the LoggedData message, for efficient lookup.
-- 
2.43.0


From 127b2534fab9fbd86898e4a5f3907dd173f0cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 27/27] fix: report malformed attributes of enum variants

---
 macros/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 6f3b2cc..bd42fbd 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -396,7 +396,10 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let mut variant_info = Vec::new();
 
     for v in variants {
-        let attr = LoggedVariantAttr::from_variant(v).unwrap_or_default();
+        let attr = match LoggedVariantAttr::from_variant(v) {
+            Ok(a) => a,
+            Err(e) => return e.write_errors().into(),
+        };
         if attr.forward_other {
             if forward_other_variant_ident.is_some() {
                 return syn::Error::new_spanned(
-- 
2.43.0

