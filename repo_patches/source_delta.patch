From 69057bc68950e300f97610a9acb52052cb599c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 01/12] fix: read exactly the bytes asked for, whatever pieces
 the source delivers

Read::read may deliver fewer bytes than asked for, which left zeros in the
signature, header fields and blocks, and the log held bytes that were never
read. Opening from such a source failed, and a truncated file read as zeros.
---
 src/format/kdb2_reader.rs | 6 +++---
 src/io/log_reader.rs      | 6 +++---
 src/types/database.rs     | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..6e658b7 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -346,19 +346,19 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
     let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..40c86ca 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let size = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From 375beeace758aeab21ada864032562965f2ae230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/12] fix: write all bytes, however few the sink accepts at a
 time

Write::write may accept fewer bytes than offered, so saving could report
success while parts of the header, the payload or a key file were missing,
and the log (and so the header hash) held bytes that were never written.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..fd21435 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let size = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 2fba243104bb6085b7afa9ef811a154c6d0e442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 03/12] fix: refuse a payload too short to hold the stream
 start bytes

A file whose payload decrypts to fewer than 32 bytes made opening panic.
---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 6e658b7..dc2535b 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if payload.len() < 32 || payload[0..32] != stream_start_bytes.0 {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From 84310086a5406414b5b58ee5c9d31b8adf8a63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 04/12] fix: accept only hexadecimal digits in colour texts

Text with a multi-byte character made from_hex_string slice inside the
character and panic, and a plus sign was taken for a digit.
---
 src/types/color.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..da7b43d 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -138,24 +138,41 @@ impl error::Error for ColorError {
     }
 }
 
+fn from_hex_digits(hex_str: &str, start: usize) -> Option<u8> {
+    let bytes = hex_str.as_bytes();
+    match (hex_digit(bytes[start]), hex_digit(bytes[start + 1])) {
+        (Some(high), Some(low)) => Some(high * 16 + low),
+        _ => None,
+    }
+}
+
+fn hex_digit(byte: u8) -> Option<u8> {
+    match byte {
+        b'0'..=b'9' => Some(byte - b'0'),
+        b'a'..=b'f' => Some(byte - b'a' + 10),
+        b'A'..=b'F' => Some(byte - b'A' + 10),
+        _ => None,
+    }
+}
+
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+    match from_hex_digits(hex_str, 5) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
+    match from_hex_digits(hex_str, 3) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
+    match from_hex_digits(hex_str, 1) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidRedValue),
     }
 }
 
-- 
2.43.0


From d411a56f4c0c73c80c1648311ddb7851e98c9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 05/12] fix: refuse to save a comment longer than its length
 field can say

The length was cut to 16 bits, so saving such a database succeeded and gave
a file that cannot be opened.
---
 src/format/kdb2_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..0781485 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -18,6 +18,7 @@ use crate::io::Log;
 use crate::types::Comment;
 use crate::types::Compression;
 use crate::types::Database;
+use crate::types::Error;
 use crate::types::HeaderHash;
 use crate::types::MasterCipher;
 use crate::types::MasterIV;
@@ -33,7 +34,7 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::io::{self, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,6 +107,10 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            if comment.0.len() > u16::MAX as usize {
+                let msg = "the comment is too long for its header";
+                return Err(Error::Io(io::Error::new(io::ErrorKind::InvalidInput, msg)));
+            }
             write_header_id(writer, kdb2::COMMENT_HID)?;
             write_header_size(writer, comment.0.len() as u16)?;
             write_bytes(writer, &comment.0)?;
-- 
2.43.0


From bbfe153c8e7c2c9990539ac4dde37d247da9ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 06/12] fix: save the custom icon of a group

The reader reads it, but the writer left it out, so it was lost on saving.
---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From 643ec533071f99d31b35b581f59ff2d599c2832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 07/12] fix: decompress the data of all payload blocks together

KeePass cuts one compressed stream into blocks of 1 MiB. Each block was
decompressed on its own, so larger databases could not be opened.
---
 src/format/kdb2_reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index dc2535b..750bb12 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut raw_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -337,11 +337,10 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.append(&mut raw_data);
     }
 
-    Ok(xml)
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From f31b71c0d777b6dc6ac4efaff61dfdc433c9c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 08/12] fix: read an empty key, value, icon or window back as
 empty

An element that is present but empty was taken for a missing one: saving a
database with an empty custom data value, icon or string name gave a file
that cannot be opened, and associations with an empty sequence or window
disappeared.
---
 src/format/kdb2_xml_reader.rs | 14 +++++++-------
 src/format/xml.rs             | 18 ++++++------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..c9dfa48 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -662,7 +662,7 @@ fn read_binary<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_binary_key_opt(reader)?;
+                    key = Some(xml::read_binary_key(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
@@ -735,7 +735,7 @@ fn read_string<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_key_opt(reader)?;
+                    key = Some(xml::read_string_key(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..c6b7bf1 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -39,12 +39,9 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     }
 }
 
-/// Attempts to read an optional binary key.
-pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
-    }
+/// Attempts to read a binary key.
+pub fn read_binary_key<R: Read>(reader: &mut EventReader<R>) -> Result<BinaryKey> {
+    Ok(BinaryKey(read_string(reader)?))
 }
 
 /// Attempts to read optional binary data.
@@ -214,12 +211,9 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
     }
 }
 
-/// Attempts to read an optional string key
-pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
-    }
+/// Attempts to read a string key.
+pub fn read_string_key<R: Read>(reader: &mut EventReader<R>) -> Result<StringKey> {
+    Ok(StringKey::from_string(&read_string(reader)?))
 }
 
 /// Attempts to read an optional string.
-- 
2.43.0


From a0a92a624716c55aa3953aac742e148f3da458c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 09/12] fix: refuse to save text that cannot be read back

Control characters that XML does not allow, and protected strings that are
not UTF-8, were written as they are and gave a file that cannot be opened.
---
 src/format/kdb2_xml_writer.rs |  7 +++++++
 src/format/xml.rs             | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..0e6ae94 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -30,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use rust_xml::writer::{EmitterConfig, EventWriter, XmlEvent};
 use std::io::Write;
+use std::str;
 
 /// Attempts to write the database's XML data to the writer.
 pub fn write<W: Write>(
@@ -104,6 +106,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_text(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +122,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_text(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
@@ -342,6 +346,9 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            if let Err(err) = str::from_utf8(sec.unsecure()) {
+                return Err(Error::XmlError(format!("UTF8 {}", err)));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index c6b7bf1..757ba0d 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -280,6 +280,20 @@ pub fn read_uuid_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Uuid
     }
 }
 
+/// Checks that XML can carry the text.
+pub fn check_text(text: &str) -> Result<()> {
+    for c in text.chars() {
+        match c {
+            '\t' | '\n' | '\r' | '\u{20}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}' => {}
+            _ => {
+                let msg = format!("Character {:?} not allowed in XML", c);
+                return Err(Error::XmlError(msg));
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Searches the specified attribute in the attributes and returns the value if found.
 pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<String> {
     for attr in attrs {
@@ -387,6 +401,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_text(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From d0fbda7a45efe35fde512c9873327f25f5a961da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 10/12] fix: read text of white space and CDATA sections as
 they stand

The XML parser reports both as events of their own, which were taken for an
empty element, so a name, note, password or custom value made of white space
or held in a CDATA section came back empty.
---
 src/format/kdb2_xml_reader.rs |  7 +++++--
 src/format/xml.rs             | 24 +++++++++++++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index c9dfa48..1dcecea 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -31,13 +31,16 @@ use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use std::io::Read;
 
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new()
+        .whitespace_to_characters(true)
+        .cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 757ba0d..951b01c 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -46,7 +46,7 @@ pub fn read_binary_key<R: Read>(reader: &mut EventReader<R>) -> Result<BinaryKey
 
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match general_purpose::STANDARD.decode(&string) {
             Ok(bin) => Ok(Some(bin)),
             Err(err) => read_err(reader, format!("Base64 {}", err)),
@@ -96,7 +96,7 @@ pub fn read_bool<R: Read>(reader: &mut EventReader<R>) -> Result<bool> {
 
 /// Attempts to read an optional boolean.
 pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match string.to_lowercase().as_str() {
             "false" => Ok(Some(false)),
             "null" => Ok(None),
@@ -109,7 +109,7 @@ pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool
 
 /// Attempts to read an optional color.
 pub fn read_color_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Color>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match Color::from_hex_string(&string) {
             Ok(color) => Ok(Some(color)),
             Err(err) => read_err(reader, format!("Color {}", err)),
@@ -130,7 +130,7 @@ pub fn read_custom_icon_uuid_opt<R: Read>(
 
 /// Attempts to read a date and time.
 pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Utc>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match string.parse::<DateTime<Utc>>() {
             Ok(datetime) => Ok(datetime),
             Err(err) => read_err(reader, format!("DateTime {}", err)),
@@ -172,7 +172,7 @@ pub fn read_i32<R: Read>(reader: &mut EventReader<R>) -> Result<i32> {
 
 /// Attempts to read an optional i32.
 pub fn read_i32_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<i32>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match string.parse::<i32>() {
             Ok(num) => Ok(Some(num)),
             Err(err) => read_err(reader, format!("Number {}", err)),
@@ -280,6 +280,20 @@ pub fn read_uuid_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Uuid
     }
 }
 
+/// Attempts to read an optional value that isn't text, blank meaning that there is none.
+fn read_value_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
+    match read_string_opt(reader)? {
+        Some(string) => {
+            if string.trim_matches(&[' ', '\t', '\n', '\r'][..]).is_empty() {
+                Ok(None)
+            } else {
+                Ok(Some(string))
+            }
+        }
+        None => Ok(None),
+    }
+}
+
 /// Checks that XML can carry the text.
 pub fn check_text(text: &str) -> Result<()> {
     for c in text.chars() {
-- 
2.43.0


From 28647ee0dd66bf28294f4140ec3cdc6bb8a6bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 11/12] fix: store documents of more than 4 GiB in several
 blocks

The size of a block is 32 bits wide, but the whole document was written as
one block whatever its length, so the size was cut off and the file could
not be opened again (InvalidBlockHash).
---
 src/format/kdb2_writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 0781485..e7bf8e2 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -75,8 +75,12 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
-    write_block(&mut payload, 0, &compressed)?;
-    write_block_final(&mut payload, 1)?;
+    let mut block_id = 0;
+    for block in compressed.chunks(u32::MAX as usize) {
+        write_block(&mut payload, block_id, block)?;
+        block_id += 1;
+    }
+    write_block_final(&mut payload, block_id)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
     writer.write_all(&encrypted)?;
-- 
2.43.0


From 82f1daef3335d3501c8abc31853f89a5594051bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 12/12] fix: check the padding of the payload

A file cut off by exactly its last block was opened as if nothing was wrong,
because rust_crypto takes a byte of zero for padding, and a payload that ends in
a block of equal bytes above 16 made it panic.
---
 src/crypto/aes256.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..70490ef 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,16 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{NoPadding, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
-use crate::types::{MasterIV, MasterKey, Result};
+use crate::rust_crypto::symmetriccipher::SymmetricCipherError;
+use crate::types::{Error, MasterIV, MasterKey, Result};
 
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, NoPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
@@ -36,7 +37,7 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
-    Ok(output)
+    strip_padding(output)
 }
 
 /// Encrypt the input using the key and initialization vector.
@@ -65,6 +66,30 @@ pub fn encrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
     Ok(output)
 }
 
+/// Strip the padding, which is 1 to 16 bytes that all hold their count. The PkcsPadding of
+/// rust_crypto isn't used for this because it takes a count of zero for padding, and panics on
+/// a count greater than the block size. No data at all has no padding either, since that's what
+/// rust_crypto encrypts no data to.
+fn strip_padding(mut data: Vec<u8>) -> Result<Vec<u8>> {
+    let count = match data.last() {
+        Some(&count) => count as usize,
+        None => return Ok(data),
+    };
+    if count < 1 || count > 16 || count > data.len() {
+        return Err(Error::CryptoError(SymmetricCipherError::InvalidPadding));
+    }
+
+    let start = data.len() - count;
+    for i in start..data.len() {
+        if data[i] as usize != count {
+            return Err(Error::CryptoError(SymmetricCipherError::InvalidPadding));
+        }
+    }
+
+    data.truncate(start);
+    Ok(data)
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0

