From 14d880d07913c24b0891b5a3271aa80fd19c865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 01/38] fix: parse requests' key types, argument boundaries,
 and empty argument lists correctly

The request context took the key type from the command byte, ignored the length
prefix when locating arguments and deciding whether a request is complete,
cleared the argument positions of the request it returned, and never finished
requests without arguments.
---
 engine/src/command/request/context.rs | 122 +++++++++++++++++++++-----
 1 file changed, 98 insertions(+), 24 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..cc56c2b 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -28,6 +28,9 @@ impl TryFrom<u8> for ParseError {
 #[derive(Clone, Debug, Eq, PartialEq)]
 enum Stage {
     Init,
+    KeyType {
+        command_id: CommandId,
+    },
     Kind {
         command_id: CommandId,
         key_type: Option<KeyType>,
@@ -59,7 +62,33 @@ impl Context {
         Default::default()
     }
 
+    /// Feed a buffer to the context, returning a request if the buffer contains
+    /// a complete one.
+    ///
+    /// The buffer must always start at the beginning of a request. When `None`
+    /// is returned, feed the same buffer again once more data has been appended
+    /// to it. When a request is returned, [`Request::as_bytes`] contains the
+    /// bytes of the buffer that make up the request: anything past them is the
+    /// start of the next request.
+    ///
+    /// # Errors
+    ///
+    /// Returns [`ParseError::CommandIdInvalid`] if the ID of the command is
+    /// invalid.
+    ///
+    /// Returns [`ParseError::KeyTypeInvalid`] if the ID of the key type is
+    /// invalid.
+    ///
+    /// [`ParseError::CommandIdInvalid`]: enum.ParseError.html#variant.CommandIdInvalid
+    /// [`ParseError::KeyTypeInvalid`]: enum.ParseError.html#variant.KeyTypeInvalid
+    /// [`Request::as_bytes`]: struct.Request.html#method.as_bytes
     pub fn feed<'a>(&'a mut self, buf: &'a [u8]) -> Result<Option<Request<'a>>, ParseError> {
+        // The positions are borrowed by the request that was last returned, so
+        // they can only be cleared once the next one is being parsed.
+        if self.stage == Stage::Init {
+            self.positions.clear();
+        }
+
         loop {
             let conclusion = {
                 // We need to do this check on the first iteration to make sure we
@@ -71,26 +100,37 @@ impl Context {
                     return Ok(None);
                 }
 
-                match self.stage {
-                    Stage::Init => self.stage_init(buf)?,
+                let result = match self.stage {
+                    Stage::Init => self.stage_init(buf),
+                    Stage::KeyType { command_id } => self.stage_key_type(buf, command_id),
                     Stage::Kind {
                         command_id,
                         key_type,
-                    } => self.stage_kind(buf, key_type, command_id)?,
+                    } => self.stage_kind(buf, key_type, command_id),
                     Stage::ArgumentParsing {
                         argument_count,
                         command_id,
                         key_type,
-                    } => self.stage_argument_parsing(buf, command_id, key_type, argument_count)?,
+                    } => self.stage_argument_parsing(buf, command_id, key_type, argument_count),
+                };
+
+                match result {
+                    Ok(conclusion) => conclusion,
+                    Err(why) => {
+                        self.reset();
+
+                        return Err(why);
+                    }
                 }
             };
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
+                    let end = self.idx;
                     self.reset();
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        buf: Cow::Borrowed(&buf[..end]),
                         command_id,
                         key_type,
                         positions: Cow::Borrowed(&self.positions),
@@ -102,26 +142,29 @@ impl Context {
         }
     }
 
-    fn stage_init<'a>(&'a mut self, buf: &'a [u8]) -> Result<Conclusion<'a>, ParseError> {
+    fn stage_init(&mut self, buf: &[u8]) -> Result<Conclusion, ParseError> {
         let byte = match buf.first() {
             Some(byte) => *byte,
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        // If the first bit is flipped, then the next byte denotes the type of
+        // key to work with, and the byte after that is the argument length.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
-        let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+        // If the first bit is 0, then the next byte is the argument length, and
+        // the type of key to work with is not a requirement.
+        let has_key_type = byte >> 7 == 1;
 
-            Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
-        } else {
-            None
-        };
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        self.idx = self.idx.wrapping_add(1);
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        if has_key_type {
+            self.stage = Stage::KeyType { command_id };
+
+            return Ok(Conclusion::Next);
+        }
 
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
@@ -129,11 +172,36 @@ impl Context {
             return Ok(Conclusion::Finished((command_id, None)));
         }
 
+        self.stage = Stage::Kind {
+            command_id,
+            key_type: None,
+        };
+
+        Ok(Conclusion::Next)
+    }
+
+    fn stage_key_type(
+        &mut self,
+        buf: &[u8],
+        command_id: CommandId,
+    ) -> Result<Conclusion, ParseError> {
+        let byte = match buf.get(self.idx) {
+            Some(byte) => *byte,
+            None => return Ok(Conclusion::Incomplete),
+        };
+
+        let key_type = Some(KeyType::try_from(byte).map_err(|_| ParseError::KeyTypeInvalid)?);
+
+        self.idx = self.idx.saturating_add(1);
+
+        if command_id.is_simple() {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
         Ok(Conclusion::Next)
     }
@@ -149,12 +217,18 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
+        self.idx = self.idx.saturating_add(1);
+
+        // There are no arguments to parse, so the request is already complete.
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         self.stage = Stage::ArgumentParsing {
             argument_count,
             command_id,
             key_type,
         };
-        self.idx = self.idx.saturating_add(1);
 
         Ok(Conclusion::Next)
     }
@@ -172,14 +246,15 @@ impl Context {
         };
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
+        let arg_end = self.idx + Self::ARG_LEN_BYTES + arg_len;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        if buf.len() < arg_end {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // Positions are the index of the last byte of the argument.
+        self.positions.push(arg_end - 1);
+        self.idx = arg_end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
@@ -190,7 +265,6 @@ impl Context {
 
     fn reset(&mut self) {
         self.idx = 0;
-        self.positions.clear();
         self.stage = Stage::default();
     }
 }
-- 
2.43.0


From 635c3c6e8ac4ab9f903598b1cec7f27a94bee25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 02/38] fix: don't frame the server's requests by newlines

Requests containing no newline were never answered, and any requests pipelined
after the first one in the buffer were discarded.
---
 server/src/main.rs | 55 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..6344d0d 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,12 +14,15 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
 };
 
+/// The number of bytes to attempt to read from a socket at a time.
+const READ_SIZE: usize = 8 * 1024;
+
 struct Config {
     host: IpAddr,
     port: u16,
@@ -83,36 +86,52 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut input = Vec::new();
     let mut ctx = Context::new();
 
-    let (reader, mut writer) = socket.into_split();
-    let mut reader = BufReader::new(reader);
+    let (mut reader, mut writer) = socket.into_split();
+    let mut chunk = vec![0; READ_SIZE];
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    while let Ok(size) = reader.read(&mut chunk).await {
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        input.extend_from_slice(&chunk[..size]);
+
+        // There may be any number of complete requests in the input, with the
+        // last one potentially being incomplete.
+        let mut start = 0;
+
+        while start < input.len() {
+            match ctx.feed(&input[start..]) {
+                Ok(Some(req)) => {
+                    start += req.as_bytes().len();
+
+                    if let Err(why) = hop.dispatch(&req, &mut resp) {
+                        let res = Response::DispatchError(why);
+
+                        res.copy_to(&mut resp);
+                    }
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
 
-                res.copy_to(&mut resp);
+                    // There's no knowing where the next request would start, so
+                    // all that can be done is to throw away what was received.
+                    start = input.len();
+                }
             }
-        };
+        }
+
+        input.drain(..start);
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+        if !resp.is_empty() {
+            writer.write_all(&resp).await?;
+            resp.clear();
+        }
     }
 
     Ok(())
-- 
2.43.0


From 0f755e76cc9a05ee156d55df37eb5b6b7dd1d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 03/38] fix: read the server backend's responses

Reading into an empty buffer never read anything, so every command failed with
a closed connection error. Malformed responses no longer panic either.
---
 client/src/backend/server.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..d1b8511 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -15,7 +15,10 @@ use hop_engine::{
     },
     state::{KeyType, Value},
 };
-use std::{error::Error as StdError, io::Error as IoError};
+use std::{
+    error::Error as StdError,
+    io::{Error as IoError, ErrorKind as IoErrorKind},
+};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{
@@ -123,21 +126,12 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = Vec::new();
 
         let mut reader = self.reader.lock().await;
 
         loop {
-            let read_amount = reader
-                .read_exact(&mut resp)
-                .await
-                .map_err(|source| Error::ReadingMessage { source })?;
-
-            if read_amount == 0 {
-                return Err(Error::ConnectionClosed);
-            }
-
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
@@ -146,7 +140,16 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    let read = resp.len();
+                    resp.resize(read + bytes, 0);
+
+                    reader
+                        .read_exact(&mut resp[read..])
+                        .await
+                        .map_err(|source| match source.kind() {
+                            IoErrorKind::UnexpectedEof => Error::ConnectionClosed,
+                            _ => Error::ReadingMessage { source },
+                        })?;
                 }
             }
         }
-- 
2.43.0


From b36f7d659ea6452872db5b40760532490afb54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 04/38] fix: pair the server backend's responses with their own
 requests

The writer was unlocked before waiting for the reader, so concurrent requests
could read each other's responses.
---
 client/src/backend/server.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index d1b8511..2118df3 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -118,18 +118,21 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        self.writer
-            .lock()
-            .await
+        let mut writer = self.writer.lock().await;
+
+        writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
 
+        // Queue for the reader before allowing the next request to be written,
+        // so that responses are read in the same order as requests are written.
+        let mut reader = self.reader.lock().await;
+        drop(writer);
+
         let mut ctx = Context::new();
         let mut resp = Vec::new();
 
-        let mut reader = self.reader.lock().await;
-
         loop {
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
-- 
2.43.0


From 4dca6598ac7104148cc8c161460507a6a32e819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 05/38] fix: send the key type when incrementing via the server
 backend

---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 2118df3..14c7f51 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -293,8 +293,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From 104c5f109e49fc7892d93981c76b09d4f9be2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 06/38] fix: return an error instead of panicking when
 connecting fails

---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From f26e88936c724c68c1d4fb63350f64d75ea7de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 07/38] fix: error when getting a key as a type that it isn't
 instead of panicking

The typed get requests now specify their key type, so the engine rejects the
request when the key's value is of a different type.
---
 client/src/backend/memory.rs          | 4 ++--
 client/src/backend/mod.rs             | 2 +-
 client/src/backend/server.rs          | 4 ++--
 client/src/request/get/get_boolean.rs | 4 ++--
 client/src/request/get/get_bytes.rs   | 4 ++--
 client/src/request/get/get_float.rs   | 4 ++--
 client/src/request/get/get_integer.rs | 4 ++--
 client/src/request/get/get_list.rs    | 4 ++--
 client/src/request/get/get_map.rs     | 4 ++--
 client/src/request/get/get_set.rs     | 4 ++--
 client/src/request/get/get_string.rs  | 4 ++--
 client/src/request/get/mod.rs         | 2 +-
 12 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/client/src/backend/memory.rs b/client/src/backend/memory.rs
index 1d00a44..c216280 100644
--- a/client/src/backend/memory.rs
+++ b/client/src/backend/memory.rs
@@ -216,8 +216,8 @@ impl Backend for MemoryBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send(builder)
diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..3483158 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -52,7 +52,7 @@ pub trait Backend: Send + Sync {
     where
         Self: Sized;
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error>
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error>
     where
         Self: Sized;
 
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 14c7f51..d84dcd9 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -265,8 +265,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send_and_wait(builder).await
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..dfd34ce 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Boolean)).await?;
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..0f10cb3 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Bytes)).await?;
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..dc4c2f4 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Float)).await?;
 
                 match value {
                     Value::Float(float) => Ok(float),
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..cd09047 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Integer)).await?;
 
                 match value {
                     Value::Integer(int) => Ok(int),
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..5a0afc6 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::List)).await?;
 
                 match value {
                     Value::List(list) => Ok(list),
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..fddf6e3 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{dashmap::DashMap, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Map)).await?;
 
                 match value {
                     Value::Map(map) => Ok(map),
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..a2fee20 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{dashmap::DashSet, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Set)).await?;
 
                 match value {
                     Value::Set(set) => Ok(set),
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..fc7c444 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::String)).await?;
 
                 match value {
                     Value::String(string) => Ok(string),
diff --git a/client/src/request/get/mod.rs b/client/src/request/get/mod.rs
index 770d270..9819d4c 100644
--- a/client/src/request/get/mod.rs
+++ b/client/src/request/get/mod.rs
@@ -281,7 +281,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin + 'a>
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                backend.get(key).await
+                backend.get(key, None).await
             }));
         }
 
-- 
2.43.0


From 34f48822d0311a5d98edadb16de6eaf3196636e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 08/38] fix: support floats in the increment and decrement
 commands

Amounts were always interpreted as integers, a nonexistent key requested to be a
float was created as an integer, and float keys couldn't be incremented without
specifying their type. Integers no longer overflow with a panic either.
---
 engine/src/command/impl/decrement.rs    |  8 +--
 engine/src/command/impl/decrement_by.rs | 20 ++++---
 engine/src/command/impl/increment.rs    |  8 +--
 engine/src/command/impl/increment_by.rs | 78 ++++++++++++++-----------
 4 files changed, 60 insertions(+), 54 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..74ba169 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::{state::KeyType, Hop};
+use crate::Hop;
 use alloc::vec::Vec;
 
 pub struct Decrement;
@@ -11,11 +11,7 @@ impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
-            IncrementBy::increment_float_by(hop, key, -1f64, resp)
-        } else {
-            IncrementBy::increment_int_by(hop, key, -1, resp)
-        }
+        IncrementBy::increment(hop, key, req.key_type(), (-1, -1f64), resp)
     }
 }
 
diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..abe9037 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -10,14 +10,20 @@ pub struct DecrementBy;
 impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let int = req
+            .typed_arg::<i64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+        let float = req
+            .typed_arg::<f64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
-            IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
-        } else {
-            Err(DispatchError::ArgumentRetrieval)
-        }
+        IncrementBy::increment(
+            hop,
+            key,
+            req.key_type(),
+            (int.wrapping_neg(), 0f64 - float),
+            resp,
+        )
     }
 }
 
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..7ac4bf9 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::{state::KeyType, Hop};
+use crate::Hop;
 use alloc::vec::Vec;
 
 pub struct Increment;
@@ -11,11 +11,7 @@ impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
-            IncrementBy::increment_float_by(hop, key, 1f64, resp)
-        } else {
-            IncrementBy::increment_int_by(hop, key, 1, resp)
-        }
+        IncrementBy::increment(hop, key, req.key_type(), (1, 1f64), resp)
     }
 }
 
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..78684bb 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,40 +1,48 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
 
 impl IncrementBy {
-    pub fn increment_float_by(
+    /// Add to the number of a key, creating the key if it doesn't exist.
+    ///
+    /// The requested type of key determines whether the integer or the float is
+    /// added. If there isn't one then this is determined by the type of the
+    /// existing value, defaulting to an integer.
+    pub fn increment(
         hop: &Hop,
         key: &[u8],
-        amount: f64,
+        key_type: Option<KeyType>,
+        (int_amount, float_amount): (i64, f64),
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float += amount;
-
-        response::write_float(resp, *float);
-
-        Ok(())
-    }
-
-    pub fn increment_int_by(
-        hop: &Hop,
-        key: &[u8],
-        amount: i64,
-        resp: &mut Vec<u8>,
-    ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int += amount;
-
-        response::write_int(resp, *int);
+        let want_float = key_type == Some(KeyType::Float);
+
+        let mut key = hop.state().key_or_insert_with(key, || {
+            if want_float {
+                Value::float()
+            } else {
+                Value::integer()
+            }
+        });
+
+        match key.value_mut() {
+            Value::Float(float) if want_float || key_type.is_none() => {
+                *float += float_amount;
+
+                response::write_float(resp, *float);
+            }
+            Value::Integer(int) if !want_float => {
+                *int = int.wrapping_add(int_amount);
+
+                response::write_int(resp, *int);
+            }
+            _ => return Err(DispatchError::KeyTypeDifferent),
+        }
 
         Ok(())
     }
@@ -43,14 +51,14 @@ impl IncrementBy {
 impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
-
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
-            Self::increment_float_by(hop, key, float, resp)
-        } else {
-            Err(DispatchError::ArgumentRetrieval)
-        }
+        let int = req
+            .typed_arg::<i64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+        let float = req
+            .typed_arg::<f64>(1)
+            .ok_or(DispatchError::ArgumentRetrieval)?;
+
+        Self::increment(hop, key, req.key_type(), (int, float), resp)
     }
 }
 
-- 
2.43.0


From fce2e71deec40863d2450d3dc47a2f86183ce807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 09/38] fix: reject requests for empty and reserved keys
 instead of panicking

---
 engine/src/hop.rs       | 34 +++++++++++++++++++++++++++++++---
 engine/src/state/mod.rs |  9 ++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/engine/src/hop.rs b/engine/src/hop.rs
index 9d9e27e..3a89ac3 100644
--- a/engine/src/hop.rs
+++ b/engine/src/hop.rs
@@ -10,7 +10,10 @@
 //! [`Hop`]: struct.Hop.html
 
 use crate::{
-    command::{r#impl::*, CommandId, Dispatch, DispatchResult, Request},
+    command::{
+        command_id::KeyNotation, r#impl::*, CommandId, Dispatch, DispatchError, DispatchResult,
+        Request,
+    },
     metrics::{Metric, Metrics, Reader, Writer},
     pubsub::PubSubManager,
     session::SessionManager,
@@ -168,7 +171,7 @@ impl Hop {
     /// Dispatch a request to the engine, providing a response to write the
     /// response to on success.
     pub fn dispatch(&self, req: &Request, res: &mut Vec<u8>) -> DispatchResult<()> {
-        let res = match req.command_id() {
+        let res = Self::validate_keys(req).and_then(|_| match req.command_id() {
             CommandId::Append => Append::dispatch(self, req, res),
             CommandId::DecrementBy => DecrementBy::dispatch(self, req, res),
             CommandId::Decrement => Decrement::dispatch(self, req, res),
@@ -185,7 +188,7 @@ impl Hop {
             CommandId::Stats => Stats::dispatch(self, req, res),
             CommandId::Type => Type::dispatch(self, req, res),
             CommandId::Length => Length::dispatch(self, req, res),
-        };
+        });
 
         self.0.metrics_writer.increment(if res.is_ok() {
             Metric::CommandsSuccessful
@@ -196,6 +199,31 @@ impl Hop {
         res
     }
 
+    /// Validate that the keys a request operates on can be used.
+    ///
+    /// Keys can't be empty, and ones reserved for internal use can't be accessed
+    /// by requests. Commands which only check a number of keys don't need to be
+    /// validated, since neither of these can exist.
+    fn validate_keys(req: &Request) -> DispatchResult<()> {
+        let count = match req.command_id().key_notation() {
+            KeyNotation::Multiple | KeyNotation::None => 0,
+            KeyNotation::One => 1,
+            KeyNotation::Two => 2,
+        };
+
+        for key in (0..count).filter_map(|idx| req.arg(idx)) {
+            if key.is_empty() {
+                return Err(DispatchError::KeyUnspecified);
+            }
+
+            if key.starts_with(State::RESERVED_PREFIX) {
+                return Err(DispatchError::PreconditionFailed);
+            }
+        }
+
+        Ok(())
+    }
+
     /// Return an immutable reference to the configuration.
     pub fn config(&self) -> &Config {
         &self.0.config
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..5a75d08 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -49,6 +49,9 @@ impl TryFrom<u8> for KeyType {
 pub struct State(pub(crate) Arc<DashMap<Key, Value>>);
 
 impl State {
+    /// Prefix of the keys that are reserved for internal use.
+    pub(crate) const RESERVED_PREFIX: &'static [u8] = b"__hop__:";
+
     pub fn new() -> Self {
         Self::default()
     }
@@ -126,7 +129,7 @@ impl State {
     /// assert!(state.key_ref(b"foo").is_some());
     /// ```
     pub fn key_ref<'a>(&'a self, key: &[u8]) -> Option<Ref<'a, Key, Value>> {
-        if key.starts_with(b"__hop__:") {
+        if key.starts_with(Self::RESERVED_PREFIX) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
 
@@ -140,7 +143,7 @@ impl State {
     /// Returns `None` if the key does not exist.
     /// ```
     pub fn key_mut<'a>(&'a self, key: &[u8]) -> Option<RefMut<'a, Key, Value>> {
-        if key.starts_with(b"__hop__:") {
+        if key.starts_with(Self::RESERVED_PREFIX) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
 
@@ -171,7 +174,7 @@ impl State {
         key: &[u8],
         f: impl Fn() -> Value,
     ) -> RefMut<'a, Key, Value> {
-        if key.starts_with(b"__hop__:") {
+        if key.starts_with(Self::RESERVED_PREFIX) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
 
-- 
2.43.0


From bab2ec39100d0cdb6555371e06cf33f73686cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 10/38] fix: insert default values atomically

A value inserted by another thread between looking up the key and inserting the
default value was overwritten.
---
 engine/src/state/mod.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 5a75d08..771b85b 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -180,18 +180,7 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From ab5d6ab11ece62acc8cf68415ad86179aacaf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 11/38] fix: set values atomically

The key was removed before the new value was inserted, so other threads could see
the key as not existing or have their own value mixed up with the new one.
---
 engine/src/command/impl/set.rs | 52 ++++++----------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..ca986c8 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -10,13 +10,7 @@ pub struct Set;
 impl Set {
     fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *boolean = arg;
+        hop.state().insert(key.to_owned(), Value::Boolean(arg));
 
         response::write_bool(resp, arg);
 
@@ -27,11 +21,7 @@ impl Set {
         let arg = req
             .typed_arg::<&[u8]>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *bytes = arg.to_vec();
+        hop.state().insert(key.to_owned(), Value::Bytes(arg.to_vec()));
 
         response::write_bytes(resp, arg);
 
@@ -40,11 +30,7 @@ impl Set {
 
     fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float = arg;
+        hop.state().insert(key.to_owned(), Value::Float(arg));
 
         response::write_float(resp, arg);
 
@@ -53,13 +39,7 @@ impl Set {
 
     fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int = arg;
+        hop.state().insert(key.to_owned(), Value::Integer(arg));
 
         response::write_int(resp, arg);
 
@@ -68,11 +48,9 @@ impl Set {
 
     fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
+        let value = Value::List(args.map(ToOwned::to_owned).collect());
+        hop.state().insert(key.to_owned(), value);
 
-        *list = args.map(ToOwned::to_owned).collect();
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
 
         response::write_list(resp, args);
@@ -82,26 +60,18 @@ impl Set {
 
     fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
         response::write_map(resp, &args);
 
-        *map = args;
+        hop.state().insert(key.to_owned(), Value::Map(args));
 
         Ok(())
     }
 
     fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
         response::write_set(resp, &args);
 
-        *set = args;
+        hop.state().insert(key.to_owned(), Value::Set(args));
 
         Ok(())
     }
@@ -110,11 +80,7 @@ impl Set {
         let arg = req
             .typed_arg::<&str>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
-        let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *string = arg.to_owned();
+        hop.state().insert(key.to_owned(), Value::String(arg.to_owned()));
 
         response::write_str(resp, arg);
 
-- 
2.43.0


From f494450bf37d16199c0791a4a4f338d75a526920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 12/38] fix: don't overwrite keys created while renaming

---
 engine/src/command/impl/rename.rs | 11 +++++++++--
 engine/src/state/mod.rs           | 18 +++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index 45d6c8c..b743c1b 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -22,8 +22,15 @@ impl Dispatch for Rename {
             return Err(DispatchError::PreconditionFailed);
         }
 
-        let (_, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
-        state.insert(arg.to_vec(), v);
+        let (key, v) = state.remove(key).ok_or(DispatchError::KeyNonexistent)?;
+
+        // The new key may have been created by another thread in the meantime, in
+        // which case the value has to be put back.
+        if let Err(v) = state.insert_vacant(arg.to_vec(), v) {
+            let _ = state.insert_vacant(key, v);
+
+            return Err(DispatchError::PreconditionFailed);
+        }
 
         response::write_bytes(resp, arg);
 
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 771b85b..7f9621d 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -5,7 +5,10 @@ pub use self::value::Value;
 use alloc::{borrow::ToOwned, string::String, sync::Arc, vec::Vec};
 use core::convert::TryFrom;
 use dashmap::{
-    mapref::one::{Ref, RefMut},
+    mapref::{
+        entry::Entry,
+        one::{Ref, RefMut},
+    },
     DashMap,
 };
 
@@ -90,6 +93,19 @@ impl State {
         self.0.insert(key, value)
     }
 
+    /// Insert a value by key only if the key isn't taken, returning the provided
+    /// value if it is.
+    pub(crate) fn insert_vacant(&self, key: Vec<u8>, value: Value) -> Result<(), Value> {
+        match self.0.entry(key) {
+            Entry::Occupied(_) => Err(value),
+            Entry::Vacant(entry) => {
+                entry.insert(value);
+
+                Ok(())
+            }
+        }
+    }
+
     /// Remove a value by key, returning both the owned key and value if
     /// present.
     ///
-- 
2.43.0


From 826ada5a139c4455a8dcb505666e5ed88c59c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 13/38] fix: require at least one argument to append

A request without a value to append succeeded and created an empty value.
---
 engine/src/command/impl/append.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..3ae083f 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -61,6 +61,12 @@ impl Dispatch for Append {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
+
+        // All types require at least one argument.
+        if req.arg(1).is_none() {
+            return Err(DispatchError::ArgumentRetrieval);
+        }
+
         let key_type = req
             .key_type()
             .or_else(|| hop.state().key_type(key))
-- 
2.43.0


From 64c9f91e2834caf7e5ac706314e5b27f39053850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 14/38] fix: report the remaining amount of arguments as their
 length

Ranges past the end of the arguments are also constrained to them.
---
 engine/src/command/request/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..abc5ddb 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -99,11 +99,7 @@ pub struct Arguments<'a> {
     request: &'a Request<'a>,
 }
 
-impl ExactSizeIterator for Arguments<'_> {
-    fn len(&self) -> usize {
-        self.to
-    }
-}
+impl ExactSizeIterator for Arguments<'_> {}
 
 impl<'a> Iterator for Arguments<'a> {
     type Item = &'a [u8];
@@ -118,6 +114,12 @@ impl<'a> Iterator for Arguments<'a> {
 
         self.request.arg(idx)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.to - self.idx;
+
+        (len, Some(len))
+    }
 }
 
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -149,6 +151,10 @@ impl<'a> Request<'a> {
             Bound::Unbounded => self.arg_count(),
         };
 
+        // Constrain the range to the arguments that actually exist.
+        let end = end.min(self.arg_count());
+        let start = start.min(end);
+
         Some(Arguments {
             idx: start,
             request: self,
-- 
2.43.0


From 8ffe2d247fb093ff15b121b35b31cf17bd115da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 15/38] fix: reject values that can't be represented in a
 response

The lengths of long map keys and set items, and of lists with more than 65535
items, were truncated when responding with them, resulting in corrupt responses.
---
 engine/src/command/impl/append.rs |  5 +++++
 engine/src/command/request/mod.rs | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 3ae083f..5e68329 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -29,6 +29,11 @@ impl Append {
         let mut key = hop.state().key_or_insert_with(key, Value::list);
         let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
+        // Responses represent the number of items in two bytes.
+        if list.len() + args.len() > u16::MAX as usize {
+            return Err(DispatchError::PreconditionFailed);
+        }
+
         list.append(&mut args.map(ToOwned::to_owned).collect());
 
         response::write_list(resp, list.iter());
diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index abc5ddb..d11552f 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -67,6 +67,11 @@ impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
         let map = DashMap::new();
 
         while let (Some(k), Some(v)) = (args.next(), args.next()) {
+            // Responses represent the length of a key in a single byte.
+            if k.len() > u8::MAX as usize {
+                return None;
+            }
+
             map.insert(k.to_owned(), v.to_owned());
         }
 
@@ -79,6 +84,11 @@ impl MultiArgument<'_> for DashSet<Vec<u8>> {
         let set = DashSet::new();
 
         for arg in args {
+            // Responses represent the length of an item in two bytes.
+            if arg.len() > u16::MAX as usize {
+                return None;
+            }
+
             set.insert(arg.to_owned());
         }
 
-- 
2.43.0


From e612b6a414222a79457ab7aedfed4fe54c56a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 16/38] fix: enforce the argument limit when building requests

The amount of arguments overflowed instead of returning an error, and maps,
lists, and simple commands could exceed the limit. Empty lists are now rejected as
documented, and a rejected value no longer leaves some of its arguments behind.
Converting a request to a builder also retains its argument count.
---
 engine/src/command/request/builder.rs | 30 +++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..7f87b39 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,20 +171,20 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
+                if list.is_empty() || list.iter().any(Vec::is_empty) {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
 
+                for item in list {
                     self.push_argument(item)?;
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len() * 2) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,15 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        // Simple commands don't have any arguments.
+        let max = if self.command_id.is_simple() {
+            0
+        } else {
+            u8::MAX as usize
+        };
+
+        self.argument_count as usize + amount > max
     }
 
     fn update_count(&mut self) {
@@ -242,6 +249,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
@@ -279,6 +290,7 @@ impl From<Request<'_>> for RequestBuilder {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
+        builder.argument_count = builder.positions.len() as u8;
 
         builder
     }
-- 
2.43.0


From 8c1a4db8b9cb9525234284387baa99e277b414cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 17/38] fix: don't panic when parsing empty or malformed
 responses

Empty bytes, lists, and sets couldn't be parsed, unknown error variants panicked,
and the remaining amount of bytes to read was miscalculated. The context is also
reset after an error so that it can be re-used.
---
 engine/src/command/response/context.rs | 66 +++++++++++++++++---------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..535d450 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -96,20 +96,29 @@ impl Context {
 
     pub fn feed(&mut self, buf: &[u8]) -> Result<Instruction, ParseError> {
         loop {
-            let instruction = match self.stage {
-                Stage::Init => self.stage_init(buf)?,
-                Stage::DetermineType => self.stage_determine_type(buf)?,
-                Stage::Boolean => self.stage_boolean(buf)?,
-                Stage::Bytes { len } => self.stage_bytes(buf, len)?,
-                Stage::Float => self.stage_float(buf)?,
-                Stage::Integer => self.stage_integer(buf)?,
-                Stage::List { .. } => self.stage_list(buf)?,
-                Stage::Map { .. } => self.stage_map(buf)?,
-                Stage::Set { .. } => self.stage_set(buf)?,
-                Stage::String { len } => self.stage_string(buf, len)?,
-                Stage::TypeInit { kind, read_len } => self.stage_type_init(buf, kind, read_len)?,
-                Stage::DispatchError => self.stage_dispatch_error(buf)?,
-                Stage::ParseError => self.stage_parse_error(buf)?,
+            let result = match self.stage {
+                Stage::Init => self.stage_init(buf),
+                Stage::DetermineType => self.stage_determine_type(buf),
+                Stage::Boolean => self.stage_boolean(buf),
+                Stage::Bytes { len } => self.stage_bytes(buf, len),
+                Stage::Float => self.stage_float(buf),
+                Stage::Integer => self.stage_integer(buf),
+                Stage::List { .. } => self.stage_list(buf),
+                Stage::Map { .. } => self.stage_map(buf),
+                Stage::Set { .. } => self.stage_set(buf),
+                Stage::String { len } => self.stage_string(buf, len),
+                Stage::TypeInit { kind, read_len } => self.stage_type_init(buf, kind, read_len),
+                Stage::DispatchError => self.stage_dispatch_error(buf),
+                Stage::ParseError => self.stage_parse_error(buf),
+            };
+
+            let instruction = match result {
+                Ok(instruction) => instruction,
+                Err(why) => {
+                    self.reset();
+
+                    return Err(why);
+                }
             };
 
             match instruction {
@@ -192,7 +201,6 @@ impl Context {
 
     fn stage_bytes(&mut self, buf: &[u8], len: u32) -> Result<Option<Instruction>, ParseError> {
         debug_assert_eq!(self.idx, 9);
-        debug_assert_ne!(len, 0);
 
         let bytes = match buf.get(self.idx..self.idx + len as usize) {
             Some(bytes) => bytes,
@@ -215,7 +223,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant =
+            DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -311,7 +320,7 @@ impl Context {
         let key = match buf.get(key_size_end..key_value_end) {
             Some(key) => key,
             None => {
-                let remaining = remaining_bytes(key_size_end, buf.len(), key_value_end);
+                let remaining = remaining_bytes(key_size_end, buf.len(), key_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -322,7 +331,7 @@ impl Context {
         let value_len = match buf.get(key_value_end..value_size_end) {
             Some(value_len) => u32::from_be_bytes(value_len.try_into().unwrap()),
             None => {
-                let remaining = remaining_bytes(self.idx, buf.len(), value_size_end);
+                let remaining = remaining_bytes(key_value_end, buf.len(), 4);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -333,7 +342,7 @@ impl Context {
         let value = match buf.get(value_size_end..value_end) {
             Some(value) => value,
             None => {
-                let remaining = remaining_bytes(value_size_end, buf.len(), value_end);
+                let remaining = remaining_bytes(value_size_end, buf.len(), value_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -366,7 +375,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -381,7 +391,11 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => {
+                let remaining = remaining_bytes(self.idx, buf.len(), read_len);
+
+                return Ok(Some(Instruction::ReadBytes(remaining)));
+            }
         };
 
         debug_assert_eq!(bytes.len(), read_len);
@@ -395,6 +409,10 @@ impl Context {
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::list()))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +433,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::Value(Value::set()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
@@ -469,7 +491,7 @@ impl Context {
         let arg = match buf.get(arg_size_end..arg_value_end) {
             Some(arg) => arg,
             None => {
-                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_value_end);
+                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_len as usize);
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
-- 
2.43.0


From 8c192bd9f2f813322aaa83134afa7c3c3d268f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 18/38] fix: check for the correct variant in Value::is_string

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From 740b08d17cb9609fc6b5df624d4ee4109e5bb9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 19/38] fix: allocate session IDs atomically

Sessions added at the same time could be given the same ID, which panics.
---
 engine/src/session/manager.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..d3d7480 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,9 +27,10 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        let id = self.0.next_id.fetch_add(1, Ordering::SeqCst);
+        let session = Session::new(client_token, id);
 
-        let value = match self.0.sessions.entry(self.next_id()) {
+        let value = match self.0.sessions.entry(id) {
             Entry::Occupied(_) => {
                 unreachable!();
             }
@@ -38,20 +39,12 @@ impl SessionManager {
 
         self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
-
         value
     }
 
     pub fn remove(&self, id: u32) -> bool {
         self.0.sessions.remove(&id).is_some()
     }
-
-    fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From cb1457b1b4d38efe38d2064033b5e71e494c3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 20/38] fix: count ended sessions and include them in the stats

---
 engine/src/command/impl/stats.rs | 1 +
 engine/src/session/manager.rs    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index d3d7480..889ff09 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -43,7 +43,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 }
 
-- 
2.43.0


From 57c54fc3f4c8effb7a8cdeba789937a35f3fa9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 21/38] fix: allow multiple sessions to subscribe to the same
 key

Only the first session to subscribe to a key was registered and got its
subscription. Removing a session also removes it from its keys, and reports
whether it was actually subscribed to any.
---
 engine/src/pubsub/manager.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..14fce97 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
@@ -82,11 +80,19 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                let subscribed = !subscriptions.is_empty();
+
+                for (key, sub) in subscriptions.into_iter() {
                     sub.close();
+
+                    if let Some(sessions) = self.0.keys.get(&key) {
+                        sessions.remove(&session_id);
+                    }
                 }
+
+                subscribed
             })
-            .is_some()
+            .unwrap_or(false)
     }
 }
 
-- 
2.43.0


From 68b3f25090358fff9dc3c4538b715c1ddd9e7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 22/38] fix: don't specify a key type that the input didn't
 specify

Every request was given the bytes key type by default, including those of commands
which don't accept a key type and those which require one to be specified.
---
 cli/lib/src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..a6172b4 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,13 +69,12 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
 
     let mut arg_iter = split.peekable();
 
     if arg_iter.peek().is_some() {
-        for arg in input_args(arg_iter, cmd_id, key_type)? {
+        for arg in input_args(arg_iter, cmd_id, key_type.unwrap_or(KeyType::Bytes))? {
             builder.bytes(arg)?;
         }
     }
-- 
2.43.0


From 3f168c88ad80ed14b01b05e1f2a0c1036676ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 23/38] fix: error on incomplete maps instead of dropping their
 last key

---
 cli/lib/src/parse.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index a6172b4..005b425 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -156,13 +156,12 @@ fn input_args<'a>(
             }
             KeyType::List => args.push(arg.as_bytes().to_vec()),
             KeyType::Map => {
-                let value = match iter.next() {
-                    Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
-                };
+                let value = iter.next().ok_or_else(|| ParseError::MapIncomplete {
+                    key: arg.to_owned(),
+                })?;
 
                 args.push(arg.as_bytes().to_vec());
-                args.push(value);
+                args.push(value.as_bytes().to_vec());
             }
             KeyType::Set => {
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From 7ad3d13cabc7a88bda875514b8340aea99509f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 24/38] fix: print the whole of lists, maps, and sets

The last character was cut off and printing an empty value panicked.
---
 cli/lib/src/print.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..d212302 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,8 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    // Remove the trailing newline.
+    output.pop();
 
     output
 }
@@ -36,7 +37,8 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    // Remove the trailing newline.
+    output.pop();
 
     output
 }
-- 
2.43.0


From 4438af1971da0d935dfe8485b03ab687489cc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 25/38] fix: increment and decrement keys in the CLI as the
 requested type

---
 cli/lib/src/process.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..e6d5d3a 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -207,11 +210,19 @@ async fn process_inner<B: Backend + Send + Sync + 'static>(
 where
     B::Error: Error,
 {
+    let req_key_type = req.key_type();
+
     match req.command_id() {
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+            let req = client.decrement(key);
+            let v = match req_key_type {
+                Some(KeyType::Float) => req.float().await.map(Value::Float),
+                Some(KeyType::Integer) => req.int().await.map(Value::Integer),
+                _ => req.await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(v).into())
         }
@@ -267,7 +278,13 @@ where
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let req = client.increment(key);
+            let v = match req_key_type {
+                Some(KeyType::Float) => req.float().await.map(Value::Float),
+                Some(KeyType::Integer) => req.int().await.map(Value::Integer),
+                _ => req.await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(v).into())
         }
-- 
2.43.0


From 4c5539c5788ba17a7a130610a13df4890da76b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 26/38] Add verification hooks guarded by cfg(hop_verif)

State operations call an optional function so that the order in which threads
perform them can be controlled, and session IDs can be constructed.
---
 engine/src/lib.rs         |  2 ++
 engine/src/session/mod.rs |  8 +++++++
 engine/src/state/mod.rs   | 46 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 56 insertions(+)

diff --git a/engine/src/lib.rs b/engine/src/lib.rs
index c98a099..5f36012 100755
--- a/engine/src/lib.rs
+++ b/engine/src/lib.rs
@@ -2,6 +2,8 @@
 #![forbid(unsafe_code)]
 #![allow(clippy::multiple_crate_versions)]
 #![cfg_attr(not(test), no_std)]
+// The hooks for the verification harness are enabled by `--cfg hop_verif`.
+#![allow(unexpected_cfgs)]
 
 pub extern crate dashmap;
 
diff --git a/engine/src/session/mod.rs b/engine/src/session/mod.rs
index 9d81aeb..1530f09 100644
--- a/engine/src/session/mod.rs
+++ b/engine/src/session/mod.rs
@@ -5,6 +5,14 @@ pub use manager::SessionManager;
 #[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub struct SessionId(u32);
 
+#[cfg(hop_verif)]
+impl SessionId {
+    /// Verification-only constructor, since IDs can't be made outside the crate.
+    pub fn verif_new(id: u32) -> Self {
+        Self(id)
+    }
+}
+
 #[derive(Debug)]
 pub struct Session {
     pub client_token: [u8; 32],
diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7f9621d..a4dfccb 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -74,6 +74,9 @@ impl State {
     /// assert!(!state.contains_key(b"bar"));
     /// ```
     pub fn contains_key(&self, key: &[u8]) -> bool {
+        #[cfg(hop_verif)]
+        verif::reached("contains_key");
+
         self.0.contains_key(key)
     }
 
@@ -90,12 +93,18 @@ impl State {
     /// assert!(state.insert(b"foo".to_vec(), Value::boolean()).is_some());
     /// ```
     pub fn insert(&self, key: Vec<u8>, value: Value) -> Option<Value> {
+        #[cfg(hop_verif)]
+        verif::reached("insert");
+
         self.0.insert(key, value)
     }
 
     /// Insert a value by key only if the key isn't taken, returning the provided
     /// value if it is.
     pub(crate) fn insert_vacant(&self, key: Vec<u8>, value: Value) -> Result<(), Value> {
+        #[cfg(hop_verif)]
+        verif::reached("insert_vacant");
+
         match self.0.entry(key) {
             Entry::Occupied(_) => Err(value),
             Entry::Vacant(entry) => {
@@ -123,6 +132,9 @@ impl State {
     /// assert!(!state.contains_key(b"foo"));
     /// ```
     pub fn remove(&self, key: &[u8]) -> Option<(Vec<u8>, Value)> {
+        #[cfg(hop_verif)]
+        verif::reached("remove");
+
         self.0.remove(key)
     }
 
@@ -145,6 +157,9 @@ impl State {
     /// assert!(state.key_ref(b"foo").is_some());
     /// ```
     pub fn key_ref<'a>(&'a self, key: &[u8]) -> Option<Ref<'a, Key, Value>> {
+        #[cfg(hop_verif)]
+        verif::reached("key_ref");
+
         if key.starts_with(Self::RESERVED_PREFIX) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
@@ -159,6 +174,9 @@ impl State {
     /// Returns `None` if the key does not exist.
     /// ```
     pub fn key_mut<'a>(&'a self, key: &[u8]) -> Option<RefMut<'a, Key, Value>> {
+        #[cfg(hop_verif)]
+        verif::reached("key_mut");
+
         if key.starts_with(Self::RESERVED_PREFIX) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
@@ -190,6 +208,9 @@ impl State {
         key: &[u8],
         f: impl Fn() -> Value,
     ) -> RefMut<'a, Key, Value> {
+        #[cfg(hop_verif)]
+        verif::reached("key_or_insert_with");
+
         if key.starts_with(Self::RESERVED_PREFIX) {
             panic!("Accessed internal key: {}", String::from_utf8_lossy(key));
         }
@@ -213,10 +234,35 @@ impl State {
     /// assert_eq!(Some(KeyType::Boolean), state.key_type(b"foo"));
     /// ```
     pub fn key_type(&self, key: &[u8]) -> Option<KeyType> {
+        #[cfg(hop_verif)]
+        verif::reached("key_type");
+
         self.0.get(key).map(|r| r.value().kind())
     }
 }
 
+/// Verification-only hook, called at the start of every operation on a state so
+/// that a test harness can control the order that threads perform them in.
+#[cfg(hop_verif)]
+pub mod verif {
+    extern crate std;
+
+    use std::sync::OnceLock;
+
+    static HOOK: OnceLock<fn(&'static str)> = OnceLock::new();
+
+    /// Set the function to call, if there isn't one already.
+    pub fn set_hook(hook: fn(&'static str)) -> bool {
+        HOOK.set(hook).is_ok()
+    }
+
+    pub(super) fn reached(operation: &'static str) {
+        if let Some(hook) = HOOK.get() {
+            hook(operation);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{KeyType, State, Value};
-- 
2.43.0


From da4c10e84f4605462acd0c917f8a9fdee17ce2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 27/38] fix: error on responses of another type than the
 request's instead of panicking

---
 client/src/backend/server.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index d84dcd9..77c80a7 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -117,6 +117,14 @@ impl ServerBackend {
         })
     }
 
+    /// Error if the server's value isn't of the key type that was asked for.
+    fn expect_kind(value: Value, key_type: Option<KeyType>) -> Result<Value> {
+        match key_type {
+            Some(key_type) if value.kind() != key_type => Err(Error::BadResponse),
+            _ => Ok(value),
+        }
+    }
+
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
         let mut writer = self.writer.lock().await;
 
@@ -185,7 +193,9 @@ impl Backend for ServerBackend {
             _ => return Err(Error::KeyTypeUnsupported { key_type }),
         }
 
-        self.send_and_wait(builder).await
+        let value = self.send_and_wait(builder).await?;
+
+        Self::expect_kind(value, Some(key_type))
     }
 
     async fn decrement_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -203,11 +213,7 @@ impl Backend for ServerBackend {
 
         let value = self.send_and_wait(builder).await?;
 
-        match value {
-            Value::Float(float) => Ok(Value::Float(float)),
-            Value::Integer(int) => Ok(Value::Integer(int)),
-            _ => Err(Error::BadResponse),
-        }
+        Self::expect_kind(value, Some(key_type))
     }
 
     async fn decrement(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
@@ -269,7 +275,9 @@ impl Backend for ServerBackend {
         let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
-        self.send_and_wait(builder).await
+        let value = self.send_and_wait(builder).await?;
+
+        Self::expect_kind(value, key_type)
     }
 
     async fn increment_by<T: Into<Value> + Send>(&self, key: &[u8], value: T) -> Result<Value> {
@@ -286,11 +294,7 @@ impl Backend for ServerBackend {
 
         let value = self.send_and_wait(builder).await?;
 
-        match value {
-            Value::Float(float) => Ok(Value::Float(float)),
-            Value::Integer(int) => Ok(Value::Integer(int)),
-            _ => Err(Error::BadResponse),
-        }
+        Self::expect_kind(value, Some(key_type))
     }
 
     async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
@@ -333,7 +337,7 @@ impl Backend for ServerBackend {
 
         match value {
             Value::Integer(int) => {
-                let number = int as u8;
+                let number: u8 = int.try_into().map_err(|_| Error::BadResponse)?;
 
                 number
                     .try_into()
@@ -401,7 +405,9 @@ impl Backend for ServerBackend {
         builder.bytes(key)?;
         builder.value(value)?;
 
-        self.send_and_wait(builder).await
+        let value = self.send_and_wait(builder).await?;
+
+        Self::expect_kind(value, Some(key_type))
     }
 }
 
-- 
2.43.0


From 2f46c41578ae1f912081cf9f1a05d9bf46a82fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 28/38] fix: keep responses paired with requests when calls are
 dropped or responses are malformed

---
 client/src/backend/server.rs | 147 ++++++++++++++++++++++++++---------
 1 file changed, 112 insertions(+), 35 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 77c80a7..ceb344f 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -15,10 +15,7 @@ use hop_engine::{
     },
     state::{KeyType, Value},
 };
-use std::{
-    error::Error as StdError,
-    io::{Error as IoError, ErrorKind as IoErrorKind},
-};
+use std::{error::Error as StdError, io::Error as IoError};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{
@@ -97,10 +94,78 @@ impl From<RequestBuilderError> for Error {
     }
 }
 
+/// The number of bytes to attempt to read from the connection at a time.
+const READ_SIZE: usize = 1024;
+
+/// The half of the connection that requests are written to.
+#[derive(Debug)]
+struct Requests {
+    /// Whether a request may have only been written in part.
+    broken: bool,
+    /// The number of requests that have been written.
+    count: u64,
+    writer: OwnedWriteHalf,
+}
+
+/// The half of the connection that responses are read from.
+#[derive(Debug)]
+struct Responses {
+    /// Whether it's unknown where the next response starts.
+    broken: bool,
+    /// What has been received of the next response, which is kept here in case
+    /// the future that's reading it is dropped.
+    buf: Vec<u8>,
+    /// The number of responses that have been read.
+    count: u64,
+    reader: BufReader<OwnedReadHalf>,
+}
+
+impl Responses {
+    async fn next(&mut self) -> Result<Response> {
+        if self.broken {
+            return Err(Error::ConnectionClosed);
+        }
+
+        let mut ctx = Context::new();
+
+        loop {
+            match ctx.feed(&self.buf) {
+                Ok(Instruction::Concluded(response)) => {
+                    self.buf.clear();
+                    self.count += 1;
+
+                    return Ok(response);
+                }
+                Ok(Instruction::ReadBytes(bytes)) => {
+                    let mut chunk = [0; READ_SIZE];
+                    let chunk = &mut chunk[..bytes.min(READ_SIZE)];
+
+                    let size = self
+                        .reader
+                        .read(chunk)
+                        .await
+                        .map_err(|source| Error::ReadingMessage { source })?;
+
+                    if size == 0 {
+                        return Err(Error::ConnectionClosed);
+                    }
+
+                    self.buf.extend_from_slice(&chunk[..size]);
+                }
+                Err(_) => {
+                    self.broken = true;
+
+                    return Err(Error::BadResponse);
+                }
+            }
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct ServerBackend {
-    reader: Mutex<BufReader<OwnedReadHalf>>,
-    writer: Mutex<OwnedWriteHalf>,
+    requests: Mutex<Requests>,
+    responses: Mutex<Responses>,
 }
 
 impl ServerBackend {
@@ -112,8 +177,17 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
-            reader: Mutex::new(BufReader::new(reader)),
-            writer: Mutex::new(writer),
+            requests: Mutex::new(Requests {
+                broken: false,
+                count: 0,
+                writer,
+            }),
+            responses: Mutex::new(Responses {
+                broken: false,
+                buf: Vec::new(),
+                count: 0,
+                reader: BufReader::new(reader),
+            }),
         })
     }
 
@@ -126,43 +200,46 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
-        let mut writer = self.writer.lock().await;
+        let mut requests = self.requests.lock().await;
+
+        if requests.broken {
+            return Err(Error::ConnectionClosed);
+        }
 
-        writer
+        // If writing fails or this future is dropped while writing then the
+        // server would take further requests for the rest of this one.
+        requests.broken = true;
+        requests
+            .writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
+        requests.broken = false;
 
-        // Queue for the reader before allowing the next request to be written,
-        // so that responses are read in the same order as requests are written.
-        let mut reader = self.reader.lock().await;
-        drop(writer);
+        let id = requests.count;
+        requests.count += 1;
 
-        let mut ctx = Context::new();
-        let mut resp = Vec::new();
+        // Queue for the responses before allowing the next request to be
+        // written, so that responses are read in the same order as requests are
+        // written.
+        let mut responses = self.responses.lock().await;
+        drop(requests);
 
         loop {
-            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
-                Instruction::Concluded(response) => {
-                    return match response {
-                        Response::Value(value) => Ok(value),
-                        Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
-                        Response::ParseError(reason) => Err(Error::BadRequest { reason }),
-                    }
-                }
-                Instruction::ReadBytes(bytes) => {
-                    let read = resp.len();
-                    resp.resize(read + bytes, 0);
+            // The futures of earlier requests may have been dropped before they
+            // read their responses.
+            let abandoned = responses.count < id;
+            let response = responses.next().await?;
 
-                    reader
-                        .read_exact(&mut resp[read..])
-                        .await
-                        .map_err(|source| match source.kind() {
-                            IoErrorKind::UnexpectedEof => Error::ConnectionClosed,
-                            _ => Error::ReadingMessage { source },
-                        })?;
-                }
+            if abandoned {
+                continue;
             }
+
+            return match response {
+                Response::Value(value) => Ok(value),
+                Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
+                Response::ParseError(reason) => Err(Error::BadRequest { reason }),
+            };
         }
     }
 }
-- 
2.43.0


From 1414f5531e67db9edda8818e5382660820c7f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 29/38] fix: keep serving after failing to accept a connection

---
 server/src/main.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 6344d0d..13030d3 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -12,6 +12,8 @@ use std::{
     error::Error,
     net::{IpAddr, Ipv4Addr, SocketAddr},
     str::FromStr as _,
+    thread,
+    time::Duration,
 };
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
@@ -23,6 +25,9 @@ use tokio::{
 /// The number of bytes to attempt to read from a socket at a time.
 const READ_SIZE: usize = 8 * 1024;
 
+/// How long to wait before accepting connections again after failing to.
+const ACCEPT_ERROR_DELAY: Duration = Duration::from_millis(50);
+
 struct Config {
     host: IpAddr,
     port: u16,
@@ -64,8 +69,19 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(incoming) = incoming.next().await {
+        match incoming {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            Err(why) => {
+                warn!("Failed to accept a connection: {:?}", why);
+
+                // Such as when there are too many open connections, which isn't
+                // a reason to drop those. Nothing else runs on this thread.
+                thread::sleep(ACCEPT_ERROR_DELAY);
+            }
+        }
     }
 
     Ok(())
-- 
2.43.0


From 207c27e88324d5b78773a5695d8a23487aeecff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 30/38] fix: name the key that's missing when renaming in the
 CLI

---
 cli/lib/src/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index e6d5d3a..24a290f 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -311,10 +311,10 @@ where
         CommandId::Rename => {
             let from = req
                 .key()
-                .ok_or_else(|| InnerProcessError::KeyDestinationRequired)?;
+                .ok_or_else(|| InnerProcessError::KeySourceRequired)?;
             let to = req
                 .arg(1)
-                .ok_or_else(|| InnerProcessError::KeySourceRequired)?;
+                .ok_or_else(|| InnerProcessError::KeyDestinationRequired)?;
 
             let v = client.rename(from, to).await.map_err(backend_err)?;
 
-- 
2.43.0


From bad9ef1664876ef5848fd0cd1e7e73b18213aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 31/38] fix: heed key types in the CLI

---
 cli/lib/src/process.rs | 47 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index 24a290f..9404197 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -219,8 +219,8 @@ where
             let req = client.decrement(key);
             let v = match req_key_type {
                 Some(KeyType::Float) => req.float().await.map(Value::Float),
-                Some(KeyType::Integer) => req.int().await.map(Value::Integer),
-                _ => req.await,
+                Some(_) => req.int().await.map(Value::Integer),
+                None => req.await,
             }
             .map_err(backend_err)?;
 
@@ -229,6 +229,10 @@ where
         CommandId::Delete => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            if req_key_type.is_some() {
+                return Err(InnerProcessError::KeyTypeUnexpected);
+            }
+
             let v = client.delete(key).await.map_err(backend_err)?;
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
@@ -254,6 +258,10 @@ where
                 .args(..)
                 .ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            if req_key_type.is_some() {
+                return Err(InnerProcessError::KeyTypeUnexpected);
+            }
+
             let req = match client.exists().keys(args) {
                 Ok(req) => req,
                 Err(CommandConfigurationError::NoKeys) => {
@@ -271,7 +279,19 @@ where
         CommandId::Get => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let value = client.get(key).await.map_err(backend_err)?;
+            let req = client.get(key);
+            let value = match req_key_type {
+                Some(KeyType::Boolean) => req.bool().await.map(Value::Boolean),
+                Some(KeyType::Bytes) => req.bytes().await.map(Value::Bytes),
+                Some(KeyType::Float) => req.float().await.map(Value::Float),
+                Some(KeyType::Integer) => req.int().await.map(Value::Integer),
+                Some(KeyType::List) => req.list().await.map(Value::List),
+                Some(KeyType::Map) => req.map().await.map(Value::Map),
+                Some(KeyType::Set) => req.set().await.map(Value::Set),
+                Some(KeyType::String) => req.str().await.map(Value::String),
+                None => req.await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(value).into())
         }
@@ -281,8 +301,8 @@ where
             let req = client.increment(key);
             let v = match req_key_type {
                 Some(KeyType::Float) => req.float().await.map(Value::Float),
-                Some(KeyType::Integer) => req.int().await.map(Value::Integer),
-                _ => req.await,
+                Some(_) => req.int().await.map(Value::Integer),
+                None => req.await,
             }
             .map_err(backend_err)?;
 
@@ -304,6 +324,11 @@ where
         CommandId::Keys => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            match req_key_type {
+                Some(KeyType::Map) | None => {}
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+            }
+
             let v = client.keys(key).await.map_err(backend_err)?;
 
             Ok(print_list(v).into())
@@ -316,11 +341,19 @@ where
                 .arg(1)
                 .ok_or_else(|| InnerProcessError::KeyDestinationRequired)?;
 
+            if req_key_type.is_some() {
+                return Err(InnerProcessError::KeyTypeUnexpected);
+            }
+
             let v = client.rename(from, to).await.map_err(backend_err)?;
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
         }
         CommandId::Stats => {
+            if req_key_type.is_some() {
+                return Err(InnerProcessError::KeyTypeUnexpected);
+            }
+
             let stats = client.stats().await.map_err(backend_err)?;
 
             let mut output = String::new();
@@ -342,6 +375,10 @@ where
         CommandId::Type => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
+            if req_key_type.is_some() {
+                return Err(InnerProcessError::KeyTypeUnexpected);
+            }
+
             let key_type = client.key_type(key).await.map_err(backend_err)?;
 
             Ok(print::key_type_name(key_type).into())
-- 
2.43.0


From a283c17fd71d76d52a65640ab17e229a961a5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 32/38] fix: run all commands in the CLI instead of panicking

---
 cli/lib/src/process.rs | 141 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 139 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index 9404197..f233e5c 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -10,7 +10,10 @@ use hop::{
     Client,
 };
 use hop_engine::{
-    command::{CommandId, DispatchError, Request},
+    command::{
+        request::{Argument, MultiArgument},
+        CommandId, DispatchError, Request,
+    },
     state::{KeyType, Value},
 };
 use std::error::Error;
@@ -213,6 +216,46 @@ where
     let req_key_type = req.key_type();
 
     match req.command_id() {
+        CommandId::Append => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let args = args(&req)?;
+
+            let append = client.append(key);
+            let v = match key_type_or_stored(client, key, req_key_type).await {
+                Some(KeyType::Bytes) | None => append.bytes(args.concat()).await.map(Value::Bytes),
+                Some(KeyType::List) => append.list(args).await.map(Value::List),
+                Some(KeyType::String) => {
+                    let string = String::from_utf8_lossy(&args.concat()).into_owned();
+
+                    append.str(string).await.map(Value::String)
+                }
+                Some(_) => return Err(InnerProcessError::KeyTypeDifferent),
+            }
+            .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
+        CommandId::DecrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let decrement = client.decrement(key);
+            let v = match key_type_or_stored(client, key, req_key_type).await {
+                Some(KeyType::Float) => {
+                    let by = typed_arg(&req)?;
+
+                    decrement.float().by(by).await.map(Value::Float)
+                }
+                _ => {
+                    let by = typed_arg(&req)?;
+
+                    decrement.int().by(by).await.map(Value::Integer)
+                }
+            }
+            .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
@@ -295,6 +338,26 @@ where
 
             Ok(print::value(value).into())
         }
+        CommandId::IncrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let increment = client.increment(key);
+            let v = match key_type_or_stored(client, key, req_key_type).await {
+                Some(KeyType::Float) => {
+                    let by = typed_arg(&req)?;
+
+                    increment.float().by(by).await.map(Value::Float)
+                }
+                _ => {
+                    let by = typed_arg(&req)?;
+
+                    increment.int().by(by).await.map(Value::Integer)
+                }
+            }
+            .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
@@ -333,6 +396,24 @@ where
 
             Ok(print_list(v).into())
         }
+        CommandId::Length => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let length = client.length(key);
+            let length = match req_key_type {
+                Some(KeyType::Bytes) => length.bytes(),
+                Some(KeyType::List) => length.list(),
+                Some(KeyType::Map) => length.map(),
+                Some(KeyType::Set) => length.set(),
+                Some(KeyType::String) => length.str(),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => length,
+            };
+
+            let v = length.await.map_err(backend_err)?;
+
+            Ok(v.to_string().into())
+        }
         CommandId::Rename => {
             let from = req
                 .key()
@@ -349,6 +430,26 @@ where
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
         }
+        CommandId::Set => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let args = args(&req)?;
+
+            let value = match key_type_or_stored(client, key, req_key_type).await {
+                Some(KeyType::Boolean) => Value::Boolean(typed_arg(&req)?),
+                Some(KeyType::Bytes) | None => Value::Bytes(typed_arg::<B, &[u8]>(&req)?.to_vec()),
+                Some(KeyType::Float) => Value::Float(typed_arg(&req)?),
+                Some(KeyType::Integer) => Value::Integer(typed_arg(&req)?),
+                Some(KeyType::List) => Value::List(args),
+                Some(KeyType::Map) => Value::Map(typed_args(&req)?),
+                Some(KeyType::Set) => Value::Set(typed_args(&req)?),
+                Some(KeyType::String) => Value::String(typed_arg::<B, &str>(&req)?.to_owned()),
+            };
+
+            let v = client.set(key).value(value).await.map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Stats => {
             if req_key_type.is_some() {
                 return Err(InnerProcessError::KeyTypeUnexpected);
@@ -383,10 +484,46 @@ where
 
             Ok(print::key_type_name(key_type).into())
         }
-        _ => panic!(),
     }
 }
 
+/// The key type that was specified or otherwise the one of the stored key, if
+/// there's one.
+async fn key_type_or_stored<B: Backend + Send + Sync + 'static>(
+    client: &Client<B>,
+    key: &[u8],
+    key_type: Option<KeyType>,
+) -> Option<KeyType> {
+    match key_type {
+        Some(key_type) => Some(key_type),
+        None => client.key_type(key).await.ok(),
+    }
+}
+
+/// Retrieve the argument following the key.
+fn typed_arg<'a, B: Backend, T: Argument<'a>>(
+    req: &'a Request<'_>,
+) -> Result<T, InnerProcessError<B>> {
+    req.typed_arg(1)
+        .ok_or_else(|| InnerProcessError::TooFewArguments)
+}
+
+/// Retrieve all of the arguments following the key, of which there must be one.
+fn args<B: Backend>(req: &Request<'_>) -> Result<Vec<Vec<u8>>, InnerProcessError<B>> {
+    match req.args(1..) {
+        Some(args) if args.len() > 0 => Ok(args.map(ToOwned::to_owned).collect()),
+        _ => Err(InnerProcessError::TooFewArguments),
+    }
+}
+
+/// Retrieve all of the arguments following the key as a type.
+fn typed_args<'a, B: Backend, T: MultiArgument<'a>>(
+    req: &'a Request<'_>,
+) -> Result<T, InnerProcessError<B>> {
+    req.typed_args()
+        .ok_or_else(|| InnerProcessError::TooFewArguments)
+}
+
 fn print_list(list: Vec<Vec<u8>>) -> String {
     list.into_iter()
         .map(|item| String::from_utf8_lossy(&item).into_owned())
-- 
2.43.0


From ef44b843464ddc5312be5e5be20e7e618679895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 33/38] fix: carry on after a failing line and end at the end
 of the input in the CLI

---
 cli/bin/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/bin/src/main.rs b/cli/bin/src/main.rs
index 4851b5b..2dcf56c 100644
--- a/cli/bin/src/main.rs
+++ b/cli/bin/src/main.rs
@@ -28,9 +28,15 @@ async fn run(
     loop {
         writer.write_all(b"> ").await?;
         writer.flush().await?;
-        reader.read_line(&mut input).await?;
 
-        let mut output = hop_cli::process(&client, input.trim_end()).await?;
+        if reader.read_line(&mut input).await? == 0 {
+            return Ok(());
+        }
+
+        let mut output = match hop_cli::process(&client, input.trim_end()).await {
+            Ok(output) => output,
+            Err(why) => why.to_string().into(),
+        };
         output.to_mut().push('\n');
 
         writer.write_all(output.as_bytes()).await?;
-- 
2.43.0


From e1735923b95f21358b6e488dc5689179ff651f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:55 +0000
Subject: [PATCH 34/38] fix: error on responses that don't fit their message
 instead of waiting for more

---
 client/src/backend/server.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index ceb344f..851b558 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -121,6 +121,19 @@ struct Responses {
 }
 
 impl Responses {
+    /// Whether everything has been received that the length at the start of the
+    /// message says there is.
+    fn is_message_complete(&self) -> bool {
+        match self.buf.get(..4) {
+            Some(len) => {
+                let len = u32::from_be_bytes(len.try_into().unwrap()) as usize;
+
+                self.buf.len() - 4 >= len
+            }
+            None => false,
+        }
+    }
+
     async fn next(&mut self) -> Result<Response> {
         if self.broken {
             return Err(Error::ConnectionClosed);
@@ -136,6 +149,12 @@ impl Responses {
 
                     return Ok(response);
                 }
+                // The response would be longer than the message that it's in.
+                Ok(Instruction::ReadBytes(_)) if self.is_message_complete() => {
+                    self.broken = true;
+
+                    return Err(Error::BadResponse);
+                }
                 Ok(Instruction::ReadBytes(bytes)) => {
                     let mut chunk = [0; READ_SIZE];
                     let chunk = &mut chunk[..bytes.min(READ_SIZE)];
-- 
2.43.0


From 02ef63320e8741551621c14444fcaf9c8b0c2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 35/38] fix: keep subscriptions consistent when subscribing and
 unsubscribing concurrently

Unsubscribing while the session is subscribing left the session in the key's
set, after which unsubscribing reported a subscription that doesn't exist, and
two concurrent unsubscriptions of one subscription could both succeed.
---
 engine/src/pubsub/manager.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 14fce97..0a06b01 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -54,22 +54,22 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
+        // The session's subscriptions decide, and remain locked until the key
+        // is up to date, so that this can't interleave with subscribing.
+        let session = match self.0.sessions.get(&session_id) {
+            Some(session) => session,
+            None => return false,
+        };
+
+        if session.remove(object_key).is_none() {
+            return false;
+        }
+
+        if let Some(sessions) = self.0.keys.get(object_key) {
+            sessions.remove(&session_id);
+        }
 
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        true
     }
 
     /// Unsubscribes a session from all of its subscriptions.
-- 
2.43.0


From 54a7792ae15f40118c00f113b2db89ebc6c90e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:34 +0000
Subject: [PATCH 36/38] fix: fail on appending arguments to a string that
 aren't UTF-8

---
 engine/src/command/impl/append.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 5e68329..20a5e56 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -47,13 +47,16 @@ impl Append {
         resp: &mut Vec<u8>,
         key: &[u8],
     ) -> DispatchResult<()> {
+        // Nothing may be appended unless all of the arguments are valid.
+        let args = args
+            .map(str::from_utf8)
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| DispatchError::ArgumentRetrieval)?;
         let mut key = hop.state().key_or_insert_with(key, Value::string);
         let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         for arg in args {
-            if let Ok(arg) = str::from_utf8(arg) {
-                string.push_str(arg);
-            }
+            string.push_str(arg);
         }
 
         response::write_str(resp, &string);
-- 
2.43.0


From 56f10901efe5d24c5dee65a8071586028042595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:00 +0000
Subject: [PATCH 37/38] fix: read the responses to dropped calls while writing
 requests

With large requests and responses neither the client, which was writing,
nor the server, which was writing too, would ever have gone on reading.
---
 client/src/backend/server.rs | 59 ++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 851b558..e4d11ee 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -5,7 +5,10 @@ use async_trait::async_trait;
 use core::{
     convert::TryInto,
     fmt::{Display, Formatter, Result as FmtResult},
+    future::{pending, Future},
+    pin::Pin,
     result::Result as StdResult,
+    task::{Context as TaskContext, Poll},
 };
 use hop_engine::{
     command::{
@@ -181,6 +184,25 @@ impl Responses {
     }
 }
 
+/// Writes a request while reading the responses that precede its own.
+struct Write<'a> {
+    /// Only completes if reading fails.
+    reading: Pin<Box<dyn Future<Output = Error> + Send + 'a>>,
+    writing: Pin<Box<dyn Future<Output = Result<()>> + Send + 'a>>,
+}
+
+impl Future for Write<'_> {
+    type Output = Result<()>;
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<Self::Output> {
+        if let Poll::Ready(result) = self.writing.as_mut().poll(cx) {
+            return Poll::Ready(result);
+        }
+
+        self.reading.as_mut().poll(cx).map(Err)
+    }
+}
+
 #[derive(Debug)]
 pub struct ServerBackend {
     requests: Mutex<Requests>,
@@ -218,6 +240,22 @@ impl ServerBackend {
         }
     }
 
+    /// Read the responses to requests before the given one whose futures were
+    /// dropped, without which the server may never get to reading the request.
+    ///
+    /// Only completes if reading fails.
+    async fn skip_abandoned(&self, id: u64) -> Error {
+        let mut responses = self.responses.lock().await;
+
+        while responses.count < id {
+            if let Err(why) = responses.next().await {
+                return why;
+            }
+        }
+
+        pending().await
+    }
+
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
         let mut requests = self.requests.lock().await;
 
@@ -228,14 +266,23 @@ impl ServerBackend {
         // If writing fails or this future is dropped while writing then the
         // server would take further requests for the rest of this one.
         requests.broken = true;
-        requests
-            .writer
-            .write_all(request.into().as_bytes())
-            .await
-            .map_err(|source| Error::WritingMessage { source })?;
-        requests.broken = false;
 
         let id = requests.count;
+        let request = request.into();
+        let Requests { writer, .. } = &mut *requests;
+
+        Write {
+            reading: Box::pin(self.skip_abandoned(id)),
+            writing: Box::pin(async move {
+                writer
+                    .write_all(request.as_bytes())
+                    .await
+                    .map_err(|source| Error::WritingMessage { source })
+            }),
+        }
+        .await?;
+
+        requests.broken = false;
         requests.count += 1;
 
         // Queue for the responses before allowing the next request to be
-- 
2.43.0


From b08df3cfe34d0a0b2535cdf7010932db249eb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:34 +0000
Subject: [PATCH 38/38] fix: don't overflow in the bounds of ranges of
 arguments

---
 engine/src/command/request/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index d11552f..3b43255 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -151,13 +151,13 @@ impl<'a> Request<'a> {
         }
 
         let start = match range.start_bound() {
-            Bound::Excluded(amt) => *amt + 1,
+            Bound::Excluded(amt) => amt.saturating_add(1),
             Bound::Included(amt) => *amt,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
             Bound::Excluded(amt) => *amt,
-            Bound::Included(amt) => *amt + 1,
+            Bound::Included(amt) => amt.saturating_add(1),
             Bound::Unbounded => self.arg_count(),
         };
 
-- 
2.43.0

