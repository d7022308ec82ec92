From 2cc77784acdc8e54d2f67bf3c217ae2eeeccae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 01/20] fix: return the params of a custom request instead of
 its method

Request::params() bound the method name of Request::Custom and returned it
as the params.
---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..cb45ab1 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From 2fb94d827b96a58aafce33dc4c0b58a7fb2a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 02/20] fix: accept requests that omit params

The guard was always true, so build/shutdown, workspace/buildTargets,
workspace/reload and custom requests were rejected without params, although
that is how they are serialized.
---
 bsp-server/src/request.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index cb45ab1..267c82f 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -425,18 +425,9 @@ impl<'de> Deserialize<'de> for Request {
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                 let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // JSON-RPC allows params to be omitted. Methods with required params still fail to
+                // deserialize from null below.
+                let params = params.unwrap_or(Value::Null);
 
                 Ok(match method.as_str() {
                     "build/initialize" => Request::InitializeBuild(id, de(params)?),
-- 
2.43.0


From 89eb5a747cd8374baec191f58cfb9d5f6b7b327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 03/20] fix: accept custom notifications that omit params

A custom notification without params could not be decoded, which ended the
connection.
---
 bsp-server/src/notification.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..15b41e9 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -232,15 +232,9 @@ impl<'de> Deserialize<'de> for Notification {
                 }
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // JSON-RPC allows params to be omitted. Methods with required params still fail to
+                // deserialize from null below.
+                let params = params.unwrap_or(Value::Null);
 
                 fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
                     T::deserialize(p).map_err(DeError::custom)
-- 
2.43.0


From 9c2e2141937f98f82db86e0742a93188348b34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 04/20] fix: skip the value of unknown members in requests and
 notifications

The value of an unknown member such as jsonrpc was left unread, so decoding
a Request or Notification directly from text failed.
---
 bsp-server/src/notification.rs | 6 ++++--
 bsp-server/src/request.rs      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 15b41e9..8ec52d0 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -5,7 +5,7 @@ use bsp_types::{
     TaskStart,
 };
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 267c82f..ceb66e6 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -7,7 +7,7 @@ use bsp_types::*;
 pub use id::*;
 
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        Field::Other => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 41b8b91586de688a2cf630ccefc0a5b967fb598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 05/20] fix: stop leaking memory for every custom message
 received

The method name of each decoded custom request or notification was leaked.
Intern the names instead, so that memory is bounded by the distinct names.
---
 bsp-server/src/message.rs      | 16 ++++++++++++++++
 bsp-server/src/notification.rs |  3 ++-
 bsp-server/src/request.rs      |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..28ca7a1 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,9 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
+use std::collections::BTreeSet;
 use std::io;
+use std::sync::{Mutex, PoisonError};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -49,6 +51,20 @@ impl Message {
     }
 }
 
+/// Get a `'static` method name, allocating at most once per distinct name.
+pub(crate) fn intern_method(method: String) -> &'static str {
+    static METHODS: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
+    let mut methods = METHODS.lock().unwrap_or_else(PoisonError::into_inner);
+    match methods.get(method.as_str()) {
+        Some(it) => it,
+        None => {
+            let it: &'static str = Box::leak(method.into_boxed_str());
+            methods.insert(it);
+            it
+        }
+    }
+}
+
 fn invalid_data(error: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error {
     io::Error::new(io::ErrorKind::InvalidData, error)
 }
diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 8ec52d0..3ea77c6 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -11,6 +11,7 @@ use serde::{
 };
 use serde_json::Value;
 
+use crate::message::intern_method;
 use crate::Message;
 
 #[derive(Debug, Clone)]
@@ -253,7 +254,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/taskFinish" => TaskFinish(de(params)?),
                     "build/taskProgressing" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
-                    _ => Custom(Box::leak(method.into_boxed_str()), params),
+                    _ => Custom(intern_method(method), params),
                 })
             }
         }
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index ceb66e6..8c5254e 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -1,5 +1,6 @@
 mod id;
 
+use crate::message::intern_method;
 use crate::Message;
 use std::fmt;
 
@@ -452,7 +453,7 @@ impl<'de> Deserialize<'de> for Request {
                     "buildTarget/compile" => Request::BuildTargetCompile(id, de(params)?),
                     "buildTarget/test" => Request::BuildTargetTest(id, de(params)?),
                     "buildTarget/cleanCache" => Request::BuildTargetCleanCache(id, de(params)?),
-                    _ => Request::Custom(id, Box::leak(method.into_boxed_str()), params),
+                    _ => Request::Custom(id, intern_method(method), params),
                 })
             }
         }
-- 
2.43.0


From 285b2d819d51e3f129277106b003212961574dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 06/20] fix: tell requests, notifications and responses apart
 by their members

The kind was decided by whichever type happened to decode, so a request with
unexpected params was delivered as a response and one with an unsupported id
as a notification, and the client never got an answer.
---
 bsp-server/src/message.rs | 45 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 28ca7a1..22fb425 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -1,12 +1,15 @@
 use crate::Notification;
 use crate::Request;
+use crate::RequestId;
 use crate::Response;
-use serde::{Deserialize, Serialize};
+use serde::de::{DeserializeOwned, Error as DeError};
+use serde::{Deserialize, Deserializer, Serialize};
+use serde_json::Value;
 use std::collections::BTreeSet;
 use std::io;
 use std::sync::{Mutex, PoisonError};
 
-#[derive(Serialize, Deserialize, Debug, Clone)]
+#[derive(Serialize, Debug, Clone)]
 #[serde(untagged)]
 pub enum Message {
     Request(Request),
@@ -14,6 +17,44 @@ pub enum Message {
     Notification(Notification),
 }
 
+impl<'de> Deserialize<'de> for Message {
+    /// A message with a method is a request if it has an id and a notification otherwise, a
+    /// message without a method is a response.
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let mut members = serde_json::Map::deserialize(deserializer)?;
+        let is_set = |name| matches!(members.get(name), Some(it) if !it.is_null());
+        let (has_method, has_id) = (is_set("method"), is_set("id"));
+
+        if !has_method {
+            return from_members(members).map(Message::Response);
+        }
+        if !has_id {
+            return from_members(members).map(Message::Notification);
+        }
+        match Request::deserialize(Value::Object(members.clone())) {
+            Ok(req) => Ok(Message::Request(req)),
+            // The params do not fit the method, keep them as they are so that the request can
+            // still be answered.
+            Err(_) => {
+                let mut take = |name| members.remove(name).unwrap_or_default();
+                let id = RequestId::deserialize(take("id")).map_err(DeError::custom)?;
+                let method = String::deserialize(take("method")).map_err(DeError::custom)?;
+                let req = Request::Custom(id, intern_method(method), take("params"));
+                Ok(Message::Request(req))
+            }
+        }
+    }
+}
+
+fn from_members<T: DeserializeOwned, E: DeError>(
+    members: serde_json::Map<String, Value>,
+) -> Result<T, E> {
+    T::deserialize(Value::Object(members)).map_err(E::custom)
+}
+
 #[derive(Serialize)]
 struct JsonRpc {
     jsonrpc: &'static str,
-- 
2.43.0


From fcb8610423e38e5af093e7e80457c2a820695fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 07/20] fix: keep the null result of a decoded response

A response with a null result, such as the one to build/shutdown, decoded to
one with neither result nor error.
---
 bsp-server/src/response.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/response.rs b/bsp-server/src/response.rs
index 95023c2..edc5c0a 100644
--- a/bsp-server/src/response.rs
+++ b/bsp-server/src/response.rs
@@ -1,5 +1,5 @@
 use crate::{ErrorCode, Message, RequestId};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct Response {
@@ -7,7 +7,11 @@ pub struct Response {
     // to decode the request's id. Ignore this special case
     // and just die horribly.
     pub id: RequestId,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "present",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<ResponseError>,
@@ -21,6 +25,14 @@ pub struct ResponseError {
     pub data: Option<serde_json::Value>,
 }
 
+/// Keep a `null` result, which is a valid success response, apart from a missing one.
+fn present<'de, D>(deserializer: D) -> Result<Option<serde_json::Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    serde_json::Value::deserialize(deserializer).map(Some)
+}
+
 impl Response {
     pub fn ok<R: Serialize>(id: RequestId, result: R) -> Response {
         Response {
-- 
2.43.0


From f464b6e5914b1eda2b2339545c07bdd61f19219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 08/20] fix: do not allocate the announced size of a message up
 front

A large Content-Length made the reader abort the process.
---
 bsp-server/src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 22fb425..d7d3f67 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -6,7 +6,7 @@ use serde::de::{DeserializeOwned, Error as DeError};
 use serde::{Deserialize, Deserializer, Serialize};
 use serde_json::Value;
 use std::collections::BTreeSet;
-use std::io;
+use std::io::{self, Read};
 use std::sync::{Mutex, PoisonError};
 
 #[derive(Serialize, Debug, Clone)]
@@ -141,8 +141,11 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
     let mut buf = buf.into_bytes();
 
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // The peer picks the size, so only allocate for what it actually sends.
+    buf.clear();
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From 42d27ca5f71e7cc58e8596661a908bf23d700c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 09/20] fix: match the Content-Length header in any letter case

Header names follow HTTP, where they are case-insensitive.
---
 bsp-server/src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index d7d3f67..9e61898 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -133,7 +133,7 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
         let header_value = parts
             .next()
             .ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;
-        if header_name == "Content-Length" {
+        if header_name.eq_ignore_ascii_case("Content-Length") {
             size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
         }
     }
-- 
2.43.0


From c0808cd94f6b58a2485ea1ed0715fb0ec613ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 10/20] fix: report transport failures from IoThreads::join
 instead of panicking

Malformed input, a reset connection or a dropped receiver made the threads
panic, and join() raised that panic in the application although it returns an
io::Result.
---
 bsp-server/src/transporter.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..93b24ba 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -5,10 +5,14 @@ use std::thread;
 use crate::Notification;
 
 use super::{IoThreads, Message};
-use crossbeam_channel::{bounded, Receiver, Sender};
+use crossbeam_channel::{bounded, Receiver, SendError, Sender};
 
 pub struct Transporter(pub Sender<Message>, pub Receiver<Message>, pub IoThreads);
 
+fn closed(error: SendError<Message>) -> io::Error {
+    io::Error::new(io::ErrorKind::BrokenPipe, error)
+}
+
 impl Transporter {
     /// Creates an BSP connection via stdio.
     pub fn stdio() -> Self {
@@ -31,7 +35,7 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
+                reader_sender.send(msg).map_err(closed)?;
 
                 if is_exit {
                     break;
@@ -50,9 +54,9 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
+                    reader_sender.send(msg).map_err(closed)?;
                     if is_exit {
                         break;
                     }
@@ -68,8 +72,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From 0af526b383a640fa2aafc58ff5ad71eb4794f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 11/20] fix: return an error when the peer disconnects during
 initialization

Connection::initialize panicked when its response could not be sent.
---
 bsp-server/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..5a7ced2 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -33,6 +33,12 @@ use std::io;
 use std::net::{TcpListener, TcpStream, ToSocketAddrs};
 use std::time::{Duration, Instant};
 
+fn disconnected(error: SendError<Message>) -> ProtocolError {
+    let msg = format!("unable to respond during initialization: {}", error);
+    tracing::error!("{}", msg);
+    ProtocolError(msg)
+}
+
 /// Connection is just a pair of channels of LSP messages.
 pub struct Connection {
     pub sender: Sender<Message>,
@@ -133,7 +139,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(disconnected)?;
                 }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
@@ -157,7 +163,7 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender.send(resp.into()).map_err(disconnected)?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From 05a9cf5af4d89c6945d8c0e6c79d110fc596b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 12/20] fix: drop notifications received before
 build/initialize

As documented for InitializeBuild, only build/exit ends a server that is not
initialized; any notification did.
---
 bsp-server/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 5a7ced2..84c5136 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -141,6 +141,10 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .map_err(disconnected)?;
                 }
+                // Drop non-exit notifications
+                Ok(Message::Notification(notif)) if !matches!(notif, Notification::Exit) => {
+                    tracing::warn!("expected initialize request, got {:?}", notif);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From 31bd29b73e9411fc37540082c590d2bf99bde308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 13/20] fix: use the protocol's method name for task progress
 notifications

The specification, and the documentation of task, call it
build/taskProgress.
---
 bsp-server/src/notification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 3ea77c6..3c69743 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -39,7 +39,7 @@ impl Notification {
             PublishDiagnostics(_) => "build/publishDiagnostics",
             TaskStart(_) => "build/taskStart",
             TaskFinish(_) => "build/taskFinish",
-            TaskProgress(_) => "build/taskProgressing",
+            TaskProgress(_) => "build/taskProgress",
             BuildTargetDidChange(_) => "buildTarget/didChange",
             Custom(m, _) => m,
         }
@@ -252,7 +252,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/publishDiagnostics" => PublishDiagnostics(de(params)?),
                     "build/taskStart" => TaskStart(de(params)?),
                     "build/taskFinish" => TaskFinish(de(params)?),
-                    "build/taskProgressing" => TaskProgress(de(params)?),
+                    "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
                     _ => Custom(intern_method(method), params),
                 })
-- 
2.43.0


From d435bf899b75a253d2a5c6318eebbab4f649b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 14/20] fix: use the protocol's method name for inverse sources
 requests

The specification, and the documentation of ServerCapabilities, call it
buildTarget/inverseSources.
---
 bsp-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 8c5254e..99136ad 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -64,7 +64,7 @@ impl Request {
             BuildTargetDependencyModules(_, _) => "buildTarget/dependencyModules",
             DebugSessionStart(_, _) => "debugSession/start",
             BuildTargetSources(_, _) => "buildTarget/sources",
-            TextDocumentInverseSources(_, _) => "textDocument/inverseSources",
+            TextDocumentInverseSources(_, _) => "buildTarget/inverseSources",
             BuildTargetDependencySources(_, _) => "buildTarget/dependencySources",
             BuildTargetResources(_, _) => "buildTarget/resources",
             BuildTargetRun(_, _) => "buildTarget/run",
@@ -442,7 +442,7 @@ impl<'de> Deserialize<'de> for Request {
                     }
                     "debugSession/start" => Request::DebugSessionStart(id, de(params)?),
                     "buildTarget/sources" => Request::BuildTargetSources(id, de(params)?),
-                    "textDocument/inverseSources" => {
+                    "buildTarget/inverseSources" => {
                         Request::TextDocumentInverseSources(id, de(params)?)
                     }
                     "buildTarget/dependencySources" => {
-- 
2.43.0


From 17249ab3a6611386110de45e4501c458553aedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 15/20] fix: make the event time of tasks wide enough for a
 timestamp

Milliseconds since the epoch do not fit in 32 bits, so task notifications
with a real event time could not be decoded or created.
---
 bsp-types/src/task/finish.rs   | 2 +-
 bsp-types/src/task/progress.rs | 2 +-
 bsp-types/src/task/start.rs    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/task/finish.rs b/bsp-types/src/task/finish.rs
index c335286..88f2513 100644
--- a/bsp-types/src/task/finish.rs
+++ b/bsp-types/src/task/finish.rs
@@ -12,7 +12,7 @@ pub struct TaskFinish {
 
     /** Timestamp of the event in milliseconds. */
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..57c49f8 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -12,7 +12,7 @@ pub struct TaskProgress {
 
     /// Timestamp of when the progress event was generated in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task progress.
     ///  * Information about the state of the task at the time the event is sent.
diff --git a/bsp-types/src/task/start.rs b/bsp-types/src/task/start.rs
index dd2cfb6..8c93266 100644
--- a/bsp-types/src/task/start.rs
+++ b/bsp-types/src/task/start.rs
@@ -11,7 +11,7 @@ pub struct TaskStart {
 
     /// Timestamp of when the event started in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
-- 
2.43.0


From 548c282cfede2bc19591f00cac61249c4618453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 16/20] fix: decode the workspace root path

root_path() returned the percent-encoded path of the uri, which is a
different path if it has spaces or non-ASCII characters.
---
 bsp-types/src/initialize_params.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-types/src/initialize_params.rs b/bsp-types/src/initialize_params.rs
index f9ae093..dd2a7cf 100644
--- a/bsp-types/src/initialize_params.rs
+++ b/bsp-types/src/initialize_params.rs
@@ -99,9 +99,11 @@ impl InitializeBuild {
         &self.root_uri
     }
 
-    /// Get a reference to the bsp initialize build params's root uri.
+    /// Get the path of the bsp initialize build params's root uri.
     pub fn root_path(&self) -> PathBuf {
-        self.root_uri.path().into()
+        self.root_uri
+            .to_file_path()
+            .unwrap_or_else(|_| self.root_uri.path().into())
     }
 
     /// Set the bsp initialize build params's root uri.
-- 
2.43.0


From 70dd30c08a6bb5e315f5494a32b6d3634a832827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 17/20] fix: fail the default handlers of BuildServer instead
 of panicking

A server that does not implement an optional method is expected to reply with
an error, but its default handler was todo!().
---
 bsp-types/src/server.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/bsp-types/src/server.rs b/bsp-types/src/server.rs
index d02839a..fac24ee 100644
--- a/bsp-types/src/server.rs
+++ b/bsp-types/src/server.rs
@@ -1,6 +1,6 @@
 #![allow(unused_variables)]
 use super::*;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use serde_json::Value;
 
 pub trait BuildServer {
@@ -79,8 +79,7 @@ pub trait BuildServer {
         &self,
         params: BuildTargetDependencyModules,
     ) -> Result<BuildTargetDependencyModulesResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/dependencyModules"
@@ -89,8 +88,7 @@ pub trait BuildServer {
     /// launches a Microsoft DAP server and returns a connection URI for the client to interact with.
     // #[rpc(name = "debugSession/start")]
     fn debug_session_start(&self, params: DebugSessionStart) -> Result<DebugSessionStartResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/sources"
@@ -148,8 +146,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/run")]
     fn bt_run(&self, params: BuildTargetRun) -> Result<BuildTargetRunResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/compile"
@@ -158,8 +155,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/compile")]
     fn bt_compile(&self, params: BuildTargetCompile) -> Result<BuildTargetCompileResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/test"
@@ -169,8 +165,7 @@ pub trait BuildServer {
     /// supported or not.
     // #[rpc(name = "buildTarget/test")]
     fn bt_test(&self, params: BuildTargetTest) -> Result<BuildTargetTestResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 
     /// Invoked when client sends server "buildTarget/cleanCache"
@@ -185,7 +180,6 @@ pub trait BuildServer {
     /// results in a full compilation.
     // #[rpc(name = "buildTarget/cleanCache")]
     fn bt_clean_cache(&self, params: BuildTargetCleanCache) -> Result<BuildTargetCleanCacheResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(anyhow!("method not found"))
     }
 }
-- 
2.43.0


From 626b1d69bb77c801001b5456f20385300bc1ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 18/20] fix: encode build target tags as the protocol's strings

Tags are free-form strings, but library and no-ide were misspelled on the wire
and a custom tag was an object.
---
 bsp-types/src/bt_tag.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..0fe0e78 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +7,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -37,6 +37,37 @@ pub enum BuildTargetTag {
     Custom(String),
 }
 
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            BuildTargetTag::Libary => "library",
+            BuildTargetTag::Application => "application",
+            BuildTargetTag::Test => "test",
+            BuildTargetTag::IntegrationTest => "integration-test",
+            BuildTargetTag::Benchmark => "benchmark",
+            BuildTargetTag::NoIDE => "no-ide",
+            BuildTargetTag::Manual => "manual",
+            BuildTargetTag::Custom(x) => x.as_str(),
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let s = String::deserialize(de)?;
+        Ok(match s.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(s),
+        })
+    }
+}
+
 impl Default for BuildTargetTag {
     fn default() -> Self {
         Self::NoIDE
-- 
2.43.0


From efe4a95de71d003f9f588b974e2721851ba90ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:34 +0000
Subject: [PATCH 19/20] fix: report running out of file descriptors when a
 connection is opened

Connection::connect and Connection::listen panicked when the socket could
not be duplicated, although they return an io::Result.
---
 bsp-server/src/lib.rs         | 4 ++--
 bsp-server/src/transporter.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 84c5136..5e0c328 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -58,7 +58,7 @@ impl Connection {
     /// This call blocks until a connection is established.
     pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let stream = TcpStream::connect(addr)?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
@@ -67,7 +67,7 @@ impl Connection {
     pub fn listen<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let listener = TcpListener::bind(addr)?;
         let (stream, _) = listener.accept()?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 93b24ba..9d39ab2 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -48,9 +48,9 @@ impl Transporter {
     }
 
     /// Creates an BSP connection via socket.
-    pub fn socket(stream: TcpStream) -> Self {
+    pub fn socket(stream: TcpStream) -> io::Result<Self> {
         let (reader_receiver, reader) = {
-            let stream = stream.try_clone().unwrap();
+            let stream = stream.try_clone()?;
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
@@ -67,7 +67,7 @@ impl Transporter {
         };
 
         let (writer_sender, writer) = {
-            let mut stream = stream.try_clone().unwrap();
+            let mut stream = stream;
             let (writer_sender, writer_receiver) = bounded::<Message>(0);
             let writer = thread::spawn(move || {
                 writer_receiver
@@ -79,6 +79,6 @@ impl Transporter {
         };
 
         let io_threads = IoThreads::new(reader, writer);
-        Self(writer_sender, reader_receiver, io_threads)
+        Ok(Self(writer_sender, reader_receiver, io_threads))
     }
 }
-- 
2.43.0


From 8989e9dedf7fc782521c9acb7d084f7d294c2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:03 +0000
Subject: [PATCH 20/20] fix: send messages over TCP without waiting for
 acknowledgements

Every message is written in several small writes, so Nagle's algorithm held each
body back until the peer's delayed acknowledgement of its header: 40 ms and more.
---
 bsp-server/src/transporter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 9d39ab2..df99a63 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -49,6 +49,9 @@ impl Transporter {
 
     /// Creates an BSP connection via socket.
     pub fn socket(stream: TcpStream) -> io::Result<Self> {
+        // Every message is small writes, which must not wait for the peer to acknowledge earlier ones.
+        stream.set_nodelay(true)?;
+
         let (reader_receiver, reader) = {
             let stream = stream.try_clone()?;
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
-- 
2.43.0

