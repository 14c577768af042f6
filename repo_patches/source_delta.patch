From 8c5c0bf9b2e616d859d57af709ca12b5ad76c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 1/9] fix: count the size varint in the bytes written by the
 async map header

---
 src/thrift/protocol/compact_stream_write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index d842eee..8479d56 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -244,7 +244,8 @@ where
         if identifier.size == 0 {
             self.write_byte(0).await
         } else {
-            self.transport.write_varint_async(identifier.size).await?;
+            let mut written = 0;
+            written += self.transport.write_varint_async(identifier.size).await?;
 
             let key_type = identifier
                 .key_type
@@ -257,7 +258,8 @@ where
             let val_type_byte = collection_type_to_u8(val_type);
 
             let map_type_header = key_type_byte | val_type_byte;
-            self.write_byte(map_type_header).await
+            written += self.write_byte(map_type_header).await?;
+            Ok(written)
         }
     }
 
-- 
2.43.0


From 8e10459562fb9ab4a5326aadfac06d200308fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 2/9] fix: report truncated byte strings as end of file instead
 of returning a short value

---
 src/thrift/protocol/compact.rs        | 10 +++++++++-
 src/thrift/protocol/compact_stream.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index ec6b329..2cfd7a3 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -4,7 +4,9 @@ use std::io::Read;
 
 use super::super::varint::VarIntReader;
 
-use super::super::{Error, ProtocolError, ProtocolErrorKind, Result};
+use super::super::{
+    Error, ProtocolError, ProtocolErrorKind, Result, TransportError, TransportErrorKind,
+};
 use super::{
     TFieldIdentifier, TInputProtocol, TListIdentifier, TMapIdentifier, TMessageIdentifier,
     TMessageType,
@@ -223,6 +225,12 @@ where
             .by_ref()
             .take(len.try_into()?)
             .read_to_end(&mut buf)?;
+        if buf.len() < len as usize {
+            return Err(Error::Transport(TransportError {
+                kind: TransportErrorKind::EndOfFile,
+                message: "unexpected end of file".to_string(),
+            }));
+        }
         Ok(buf)
     }
 
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 25e26be..0721353 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -14,7 +14,9 @@ use super::{
     TMessageType,
 };
 use super::{TSetIdentifier, TStructIdentifier, TType};
-use crate::thrift::{Error, ProtocolError, ProtocolErrorKind, Result};
+use crate::thrift::{
+    Error, ProtocolError, ProtocolErrorKind, Result, TransportError, TransportErrorKind,
+};
 
 #[derive(Debug)]
 pub struct TCompactInputStreamProtocol<R: Send> {
@@ -216,6 +218,12 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
             .take(len.try_into()?)
             .read_to_end(&mut buf)
             .await?;
+        if buf.len() < len as usize {
+            return Err(Error::Transport(TransportError {
+                kind: TransportErrorKind::EndOfFile,
+                message: "unexpected end of file".to_string(),
+            }));
+        }
         Ok(buf)
     }
 
-- 
2.43.0


From 46c172c7126d91620a69997e005d115bf57cd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 3/9] fix: do not drop a byte when the sink accepts none of it

---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index 8479d56..cb1e8d4 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -275,6 +275,7 @@ where
     //
 
     async fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).await.map_err(From::from)
+        self.transport.write_all(&[b]).await?;
+        Ok(1)
     }
 }
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index 906d579..f8330e1 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -244,7 +244,8 @@ where
     //
 
     fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).map_err(From::from)
+        self.transport.write_all(&[b])?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From c0b1f14632a8b6c81e6064efbf0052bc0eb46134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 4/9] fix: compute field id deltas without i16 overflow when
 writing field headers

---
 src/thrift/protocol/compact_stream_write.rs | 2 +-
 src/thrift/protocol/compact_write.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index cb1e8d4..8f983c7 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -51,7 +51,7 @@ where
     async fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self
                 .write_byte(((field_delta as u8) << 4) | field_type)
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index f8330e1..5e8a8ad 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -45,7 +45,7 @@ where
     fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self.write_byte(((field_delta as u8) << 4) | field_type)?;
         } else {
-- 
2.43.0


From 6a36486c2575c8736045f18804ec7cba4a28f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 5/9] fix: charge nested structs against the byte budget in the
 async reader

---
 src/thrift/protocol/compact_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 0721353..07948b3 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -125,6 +125,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
+        self.update_remaining::<i16>(1)?;
         self.read_field_id_stack.push(self.last_read_field_id);
         self.last_read_field_id = 0;
         Ok(None)
-- 
2.43.0


From 09d215c7a217ca624e9011eec55b2d05c10b3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 6/9] fix: retry interrupted reads while reading a varint

---
 src/thrift/varint/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thrift/varint/decode.rs b/src/thrift/varint/decode.rs
index ae032af..1dd23be 100644
--- a/src/thrift/varint/decode.rs
+++ b/src/thrift/varint/decode.rs
@@ -257,7 +257,10 @@ impl<R: io::Read> VarIntReader for R {
         let mut p = VarIntProcessor::new::<VI>();
 
         while !p.finished() {
-            let read = self.read(&mut buf)?;
+            let read = match self.read(&mut buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                read => read?,
+            };
 
             // EOF
             if read == 0 && p.i == 0 {
-- 
2.43.0


From 9959b8db6b84a9abd7300768cbf37da57a27537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 7/9] fix: count union fields in u64 so that hostile input
 cannot overflow the counter

---
 src/parquet_format.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parquet_format.rs b/src/parquet_format.rs
index 13c3cfb..c0da4f7 100644
--- a/src/parquet_format.rs
+++ b/src/parquet_format.rs
@@ -1988,7 +1988,7 @@ impl TimeUnit {
 impl ReadThrift for TimeUnit {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<TimeUnit> {
     let mut ret: Option<TimeUnit> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -2060,7 +2060,7 @@ impl ReadThrift for TimeUnit {
 impl AsyncReadThrift for TimeUnit {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<TimeUnit> {
     let mut ret: Option<TimeUnit> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -2890,7 +2890,7 @@ impl LogicalType {
 impl ReadThrift for LogicalType {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<LogicalType> {
     let mut ret: Option<LogicalType> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -3032,7 +3032,7 @@ impl ReadThrift for LogicalType {
 impl AsyncReadThrift for LogicalType {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<LogicalType> {
     let mut ret: Option<LogicalType> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -4400,7 +4400,7 @@ impl BloomFilterAlgorithm {
 impl ReadThrift for BloomFilterAlgorithm {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterAlgorithm> {
     let mut ret: Option<BloomFilterAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -4458,7 +4458,7 @@ impl ReadThrift for BloomFilterAlgorithm {
 impl AsyncReadThrift for BloomFilterAlgorithm {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterAlgorithm> {
     let mut ret: Option<BloomFilterAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -4647,7 +4647,7 @@ impl BloomFilterHash {
 impl ReadThrift for BloomFilterHash {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterHash> {
     let mut ret: Option<BloomFilterHash> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -4705,7 +4705,7 @@ impl ReadThrift for BloomFilterHash {
 impl AsyncReadThrift for BloomFilterHash {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterHash> {
     let mut ret: Option<BloomFilterHash> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -4893,7 +4893,7 @@ impl BloomFilterCompression {
 impl ReadThrift for BloomFilterCompression {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterCompression> {
     let mut ret: Option<BloomFilterCompression> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -4951,7 +4951,7 @@ impl ReadThrift for BloomFilterCompression {
 impl AsyncReadThrift for BloomFilterCompression {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterCompression> {
     let mut ret: Option<BloomFilterCompression> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -6703,7 +6703,7 @@ impl ColumnCryptoMetaData {
 impl ReadThrift for ColumnCryptoMetaData {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<ColumnCryptoMetaData> {
     let mut ret: Option<ColumnCryptoMetaData> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -6768,7 +6768,7 @@ impl ReadThrift for ColumnCryptoMetaData {
 impl AsyncReadThrift for ColumnCryptoMetaData {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<ColumnCryptoMetaData> {
     let mut ret: Option<ColumnCryptoMetaData> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -7560,7 +7560,7 @@ impl ColumnOrder {
 impl ReadThrift for ColumnOrder {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<ColumnOrder> {
     let mut ret: Option<ColumnOrder> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -7618,7 +7618,7 @@ impl ReadThrift for ColumnOrder {
 impl AsyncReadThrift for ColumnOrder {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<ColumnOrder> {
     let mut ret: Option<ColumnOrder> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -8605,7 +8605,7 @@ impl EncryptionAlgorithm {
 impl ReadThrift for EncryptionAlgorithm {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<EncryptionAlgorithm> {
     let mut ret: Option<EncryptionAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -8670,7 +8670,7 @@ impl ReadThrift for EncryptionAlgorithm {
 impl AsyncReadThrift for EncryptionAlgorithm {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<EncryptionAlgorithm> {
     let mut ret: Option<EncryptionAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count = 0_u64;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
-- 
2.43.0


From f6120070c47ac1c9595273624fc8b7892bfdf04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 8/9] fix: refuse to skip with a negative depth

---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 168aedd..a7352c5 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -148,7 +148,7 @@ pub trait TInputProtocol: Sized {
     }
     /// Skip a field with type `field_type` recursively up to `depth` levels.
     fn skip_till_depth(&mut self, field_type: TType, depth: i8) -> crate::thrift::Result<()> {
-        if depth == 0 {
+        if depth <= 0 {
             return Err(crate::thrift::Error::Protocol(ProtocolError {
                 kind: ProtocolErrorKind::DepthLimit,
                 message: format!("cannot parse past {:?}", field_type),
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ee04bd2..a606c60 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -134,7 +134,7 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     /// Skip a field with type `field_type` recursively up to `depth` levels.
     async fn skip_till_depth(&mut self, field_type: TType, depth: i8) -> Result<()> {
-        if depth == 0 {
+        if depth <= 0 {
             return Err(Error::Protocol(ProtocolError {
                 kind: ProtocolErrorKind::DepthLimit,
                 message: format!("cannot parse past {:?}", field_type),
-- 
2.43.0


From 5d7869e7af3c2dca7fb27a1ad9e9e289f0a7463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 9/9] fix: skip byte strings as bytes, not as UTF-8 text

---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index a7352c5..01c61c1 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -162,7 +162,7 @@ pub trait TInputProtocol: Sized {
             TType::I32 => self.read_i32().map(|_| ()),
             TType::I64 => self.read_i64().map(|_| ()),
             TType::Double => self.read_double().map(|_| ()),
-            TType::String => self.read_string().map(|_| ()),
+            TType::String => self.read_bytes().map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin()?;
                 loop {
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index a606c60..047894f 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -148,7 +148,7 @@ pub trait TInputStreamProtocol: Send + Sized {
             TType::I32 => self.read_i32().await.map(|_| ()),
             TType::I64 => self.read_i64().await.map(|_| ()),
             TType::Double => self.read_double().await.map(|_| ()),
-            TType::String => self.read_string().await.map(|_| ()),
+            TType::String => self.read_bytes().await.map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin().await?;
                 loop {
-- 
2.43.0

