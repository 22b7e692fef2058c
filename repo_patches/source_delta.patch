From 8a0caf0b6e26073cfb2e68f6e49ff9390b77d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 01/21] fix: reject truncated and oversized varints

A varint whose continuation bytes run out was returned as if it were
complete, and one with more than ten bytes or more than 64 bits overflowed
the shift or the addition.
---
 spop/src/data/varint.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..95485b1 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -13,6 +13,8 @@
 use bytes::{Buf, BufMut};
 
 /// Get a varint from the buffer.
+///
+/// Returns `None` if the varint is truncated or does not fit in 64 bits.
 pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
     if !buf.has_remaining() {
         None
@@ -25,17 +27,24 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
             let mut n = b as u64;
             let mut r = 4;
 
-            while buf.has_remaining() {
+            // At most 10 bytes are needed to represent a 64-bit integer.
+            while buf.has_remaining() && r < u64::BITS {
                 let b = buf.get_u8();
-                n += (b as u64) << r;
+                let v = (b as u64) << r;
+
+                if v >> r != b as u64 {
+                    return None;
+                }
+
+                n = n.checked_add(v)?;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
 
-            Some(n)
+            None
         }
     }
 }
-- 
2.43.0


From e3103e52f35b7520a611383dbab8558d9e124ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 02/21] fix: refuse frames whose payload is malformed

A key-value pair, message or action that could not be decoded silently ended
the list it was part of, so a truncated or corrupted payload was accepted with
its tail missing, or with the rest of an unfinished message read as the next
one.
---
 spop/src/data/buf.rs     | 25 +++++++++++++------------
 spop/src/frame/decode.rs | 32 ++++++++++----------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..c56f0c1 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -18,8 +18,11 @@ pub trait BufExt {
     /// Get a string.
     fn string(&mut self) -> Option<String>;
 
-    /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Get a key-value pair.
+    fn kv(&mut self) -> Option<(String, Typed)>;
+
+    /// Get key-value list up to the end of the buffer.
+    fn kv_list<L: FromIterator<(String, Typed)>>(&mut self) -> Option<L>;
 }
 
 impl<T> BufExt for T
@@ -40,17 +43,15 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
-        iter::from_fn(move || {
-            if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
+    fn kv(&mut self) -> Option<(String, Typed)> {
+        let name = self.string()?;
+        let value = self.typed()?;
 
-                Some((name, value))
-            } else {
-                None
-            }
-        })
+        Some((name, value))
+    }
+
+    fn kv_list<L: FromIterator<(String, Typed)>>(&mut self) -> Option<L> {
+        iter::from_fn(|| self.has_remaining().then(|| self.kv())).collect()
     }
 }
 
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..25799ec 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list::<KVList>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list::<KVList>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,7 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf).ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +109,12 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf).ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list::<KVList>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,32 +122,20 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
-    iter::from_fn(move || {
-        if buf.has_remaining() {
-            message(&mut buf)
-        } else {
-            None
-        }
-    })
+fn list_of_messages<B: Buf>(mut buf: B) -> Option<Vec<Message>> {
+    iter::from_fn(|| buf.has_remaining().then(|| message(&mut buf))).collect()
 }
 
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = (0..nb).map(|_| buf.kv()).collect::<Option<Vec<_>>>()?;
 
     Some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
-    iter::from_fn(move || {
-        if buf.has_remaining() {
-            action(&mut buf)
-        } else {
-            None
-        }
-    })
+fn list_of_actions<B: Buf>(mut buf: B) -> Option<Vec<Action>> {
+    iter::from_fn(|| buf.has_remaining().then(|| action(&mut buf))).collect()
 }
 
 pub fn action<B: Buf>(mut buf: B) -> Option<Action> {
-- 
2.43.0


From c68eb46f38ad4c31b5010802346bb847c2003e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 03/21] fix: refuse 32-bit values that do not fit in 32 bits

The upper half of the number on the wire was dropped.
---
 spop/src/data/buf.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index c56f0c1..e3d5d13 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -65,8 +65,11 @@ fn typed_data<B: Buf>(mut buf: B) -> Option<Typed> {
     match ty {
         Type::Null => Some(Typed::Null),
         Type::Boolean => Some(Typed::Boolean(flags.contains(Flags::TRUE))),
-        Type::Int32 => buf.varint().map(|n| n as i32).map(Typed::Int32),
-        Type::Uint32 => buf.varint().map(|n| n as u32).map(Typed::Uint32),
+        Type::Int32 => buf.varint().and_then(int32).map(Typed::Int32),
+        Type::Uint32 => buf
+            .varint()
+            .and_then(|n| u32::try_from(n).ok())
+            .map(Typed::Uint32),
         Type::Int64 => buf.varint().map(|n| n as i64).map(Typed::Int64),
         Type::Uint64 => buf.varint().map(Typed::Uint64),
         Type::Ipv4 => get_bytes(buf, Typed::IPV4_ADDR_LEN)
@@ -85,6 +88,13 @@ fn typed_data<B: Buf>(mut buf: B) -> Option<Typed> {
     }
 }
 
+/// A 32-bit signed integer, sign-extended to 64 bits or not.
+fn int32(n: u64) -> Option<i32> {
+    i32::try_from(n as i64)
+        .or_else(|_| u32::try_from(n).map(|n| n as i32))
+        .ok()
+}
+
 fn typed_data_type<B: Buf>(mut buf: B) -> Option<(Type, Flags)> {
     let b = buf.has_remaining().then(|| buf.get_u8())?;
     let ty = Type::try_from_primitive(b & Type::MASK).ok()?;
-- 
2.43.0


From 1cc4b710cfc26a5e2e28bd36edc25920c1dda1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 04/21] fix: refuse frame sizes and status codes that do not
 fit in 32 bits

The upper half of the number on the wire was dropped, so a hello announcing
4294967296 was read as one announcing 0.
---
 spop/src/frame/decode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 25799ec..09882cf 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -117,7 +117,7 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     let mut kv = buf.kv_list::<KVList>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
-        status_code: kv.status_code(),
+        status_code: kv.status_code()?,
         message: kv.message(),
     })
 }
@@ -194,9 +194,9 @@ impl KVList {
     }
 
     pub fn max_frame_size(&mut self) -> Result<u32> {
-        self.uint(kv::MAX_FRAME_SIZE_KEY)
-            .map(|n| n as u32)
-            .ok_or(NoFrameSize)
+        let n = self.uint(kv::MAX_FRAME_SIZE_KEY).ok_or(NoFrameSize)?;
+
+        u32::try_from(n).map_err(|_| BadFrameSize)
     }
 
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
@@ -208,10 +208,10 @@ impl KVList {
             .map_err(|_| Invalid)
     }
 
-    pub fn status_code(&mut self) -> u32 {
-        self.uint(kv::STATUS_CODE_KEY)
-            .map(|n| n as u32)
-            .unwrap_or_default()
+    pub fn status_code(&mut self) -> Result<u32> {
+        let n = self.uint(kv::STATUS_CODE_KEY).unwrap_or_default();
+
+        u32::try_from(n).map_err(|_| Invalid)
     }
 
     pub fn message(&mut self) -> String {
-- 
2.43.0


From 71d6e627e0917d6f624581fb5f7fa13fe303ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 05/21] fix: accept blanks around a hello's version and an
 empty capability list

An empty capability list, which this crate itself writes when there is no
capability, was refused as an invalid frame, and blanks were ignored around
every entry but the agent's version.
---
 spop/src/frame/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 09882cf..0d633c5 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -189,6 +189,7 @@ impl KVList {
     pub fn version(&mut self) -> Result<Version> {
         self.string(kv::VERSION_KEY)
             .ok_or(NoVersion)?
+            .trim()
             .parse()
             .map_err(|_| BadVersion)
     }
@@ -202,6 +203,10 @@ impl KVList {
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
+        if s.trim().is_empty() {
+            return Ok(vec![]);
+        }
+
         s.split(',')
             .map(|s| s.trim().parse())
             .collect::<StdResult<Vec<_>, _>>()
-- 
2.43.0


From b60dda92907b5006c52ddac4ef9b0c538f5ce856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 06/21] fix: refuse to write a message with more than 255
 arguments

Its argument count was truncated to a byte, so the peer read the remaining
arguments as further messages.
---
 spop/src/frame/framer.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..6752d16 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -43,6 +43,10 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
+        if !is_encodable(&frame) {
+            return Err(Invalid);
+        }
+
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
 
         trace!(buf=%HexView::new(&buf[4..]));
@@ -67,6 +71,17 @@ where
     Ok(buf.freeze())
 }
 
+/// The number of arguments of a message is written in a single byte.
+fn is_encodable(frame: &Frame) -> bool {
+    match frame {
+        Frame::HaproxyNotify(notify) => notify
+            .messages
+            .iter()
+            .all(|message| message.args.len() <= u8::MAX as usize),
+        _ => true,
+    }
+}
+
 fn write_frame(mut buf: BytesMut, frame: Frame) -> Bytes {
     buf.put_u32(0);
     buf.put_frame(frame);
-- 
2.43.0


From 20ee3ef1dcf9ed45aafb26495a4c87d5c09ba6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 07/21] fix: never write a frame longer than the maximum frame
 size

---
 spop/src/frame/framer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6752d16..c501ef6 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -49,6 +49,10 @@ impl Framer {
 
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
 
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
+
         trace!(buf=%HexView::new(&buf[4..]));
 
         pin_mut!(w);
-- 
2.43.0


From 34e86d898e4bee23db15036c13b9dfa6eaddd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 08/21] fix: answer input that cannot be read as a frame with a
 disconnect

The connection was closed without telling the peer what was wrong.
---
 spoa/src/conn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..12003d4 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -74,7 +74,13 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let res = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        Err(err @ Status::Io) => return Err(err.into()),
+                        Err(err) => Err(err.into()),
+                    };
+
+                    match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
                                 self.codec.write_frame(frame).await?;
-- 
2.43.0


From 5c5f03dd36509ba7e36e7c024bffe2ba41d09b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 09/21] fix: do not truncate the agent's frame size in the
 handshake

An agent configured with 4294967296 bytes announced 0.
---
 spoa/src/state/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..bd68f62 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,7 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
-- 
2.43.0


From a790894514b148f2cdf267b18fb287c44bf357c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 10/21] fix: keep to the negotiated frame size

Frames were only limited by the agent's own maximum, even when the peer had
announced a smaller one. A reply that is too big is now answered with a
disconnect saying so.
---
 spoa/src/conn.rs        | 17 ++++++++++++++++-
 spop/src/frame/codec.rs |  5 +++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 12003d4..dd9e291 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -83,7 +83,22 @@ where
                     match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                let negotiated = match frame {
+                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
+                                    _ => None,
+                                };
+
+                                if let Err(err) = self.codec.write_frame(frame).await {
+                                    if err == Status::TooBig {
+                                        self.disconnect(err, err.to_string()).await?;
+                                    }
+
+                                    return Err(err.into());
+                                }
+
+                                if let Some(sz) = negotiated {
+                                    self.codec.set_max_frame_size(sz as usize);
+                                }
                             }
                             self.state = next;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..ff465c4 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,11 @@ where
         Self { stream, framer }
     }
 
+    /// Changes the maximum frame size, once both sides have agreed on it.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer = Framer::new(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
-- 
2.43.0


From 49eac5cf9dc01cc320a7e1a4498beb7b4af1f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 11/21] fix: refuse fragments when fragmentation was not
 negotiated

Every fragment was handed to the service and acknowledged as if it were a
complete notify.
---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..7347bb1 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation not negotiated");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From 644f28c48be7e5daabd3431fc20e7b3da1876069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 12/21] fix: wake tasks waiting for work or for messages

The streams reported that nothing was available without registering the waker
of the task, which then slept for ever.
---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..fb86f91 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|res| res.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From aacd948111dd2d84614fb5cd56221bc49c5bb2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 13/21] fix: decode header blocks with long or repeated headers

The lengths in a header block are varints, not single bytes, so a header of
240 bytes or more corrupted everything after it; only the last value of a
repeated header was kept; and a truncated block was accepted.
---
 spoa/src/req.rs | 36 ++++++++++++++++++++----------------
 spop/src/lib.rs |  2 +-
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..ea4b75b 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -1,31 +1,35 @@
-use std::iter;
-
-use bytes::Buf;
+use bytes::{Buf, Bytes};
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{
+    error::Result,
+    spop::{varint, Error::Invalid},
+};
 
+/// Decode the headers that HAProxy sends with `req.hdrs_bin`.
+///
+/// Every name and every value is described by its length, as a varint, followed by its bytes.
+/// The list ends with an empty name and an empty value.
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
-    let mut strs = iter::from_fn(|| {
-        if b.has_remaining() {
-            let len = b.get_u8() as usize;
-            if b.remaining() >= len {
-                return Some(b.copy_to_bytes(len));
-            }
-        }
-
-        None
-    });
+    while b.has_remaining() {
+        let k = string(&mut b).ok_or(Invalid)?;
+        let v = string(&mut b).ok_or(Invalid)?;
 
-    while let Some((k, v)) = strs.next().zip(strs.next()) {
         if k.is_empty() && v.is_empty() {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
 }
+
+fn string<T: Buf>(mut b: T) -> Option<Bytes> {
+    let len = varint::get(&mut b)?;
+
+    (b.remaining() as u64 >= len).then(|| b.copy_to_bytes(len as usize))
+}
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From 4424fb908c94e190fd362f2177c110093885dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 14/21] fix: keep accepting connections after an accept fails

A failed accept disabled its branch of the select, which then waited for the
shutdown only.
---
 spoa/src/agent.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..c31f1f4 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -2,11 +2,13 @@ use std::error::Error as StdError;
 use std::fmt;
 use std::net::TcpListener as StdTcpListener;
 use std::sync::Arc;
+use std::time::Duration;
 
 use tokio::{
     io::{AsyncRead, AsyncWrite},
     net::TcpListener,
     select,
+    time::sleep,
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
@@ -18,6 +20,9 @@ use crate::{
     Connection, Runtime,
 };
 
+/// How long to wait before accepting again, as most failures (too many open files) take time to clear.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
+
 #[derive(Debug)]
 pub struct Agent<S, T> {
     runtime: Arc<Runtime<S, T>>,
@@ -65,7 +70,16 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                res = self.listener.accept() => {
+                    let (stream, peer) = match res {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            debug!(%err, "accept failed");
+                            sleep(ACCEPT_RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
+
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From da394425a6892552aa6708343ee4a0d99ae4d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 15/21] fix: do not hold the service maker's lock while a
 service is being made

---
 spoa/src/runtime/runtime.rs | 10 +++++-----
 spoa/src/state/connect.rs   |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..cd7d07d 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::Future;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -17,16 +18,15 @@ pub struct ServiceMaker<S, T> {
 }
 
 impl<S, T> ServiceMaker<S, T> {
-    pub async fn make<REQ>(&mut self) -> Result<S::Service>
+    pub fn make<REQ>(&mut self) -> impl Future<Output = Result<S::Service>>
     where
         S: MakeService<T, REQ>,
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
-        self.maker
-            .make_service(self.state.clone())
-            .await
-            .context("make service")
+        let making = self.maker.make_service(self.state.clone());
+
+        async move { making.await.context("make service") }
     }
 }
 
diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index bd68f62..8cabf25 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -62,7 +62,9 @@ where
         let next = if is_healthcheck {
             State::Disconnecting
         } else {
-            let service = runtime.service_maker.write().await.make().await?;
+            // release the lock before waiting for the service, as others may need it
+            let making = runtime.service_maker.write().await.make();
+            let service = making.await?;
 
             Processing::new(
                 runtime,
-- 
2.43.0


From df0c7b1a95bc67d21c4bc94d58392b8682cef7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 16/21] fix: wait until the maker and the service are ready
 before calling them

---
 spoa/src/runtime/runtime.rs | 13 ++++++++++++-
 spoa/src/state/connect.rs   |  6 +++++-
 spoa/src/state/process.rs   |  9 ++++++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index cd7d07d..8c2aae2 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,5 +1,5 @@
 use std::error::Error as StdError;
-use std::future::Future;
+use std::future::{poll_fn, Future};
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -18,6 +18,17 @@ pub struct ServiceMaker<S, T> {
 }
 
 impl<S, T> ServiceMaker<S, T> {
+    /// Waits until the maker can be asked for a service.
+    pub async fn ready<REQ>(&mut self) -> Result<()>
+    where
+        S: MakeService<T, REQ>,
+        S::MakeError: StdError + Send + Sync + 'static,
+    {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")
+    }
+
     pub fn make<REQ>(&mut self) -> impl Future<Output = Result<S::Service>>
     where
         S: MakeService<T, REQ>,
diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 8cabf25..ee2edf7 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -63,7 +63,11 @@ where
             State::Disconnecting
         } else {
             // release the lock before waiting for the service, as others may need it
-            let making = runtime.service_maker.write().await.make();
+            let making = {
+                let mut maker = runtime.service_maker.write().await;
+                maker.ready().await?;
+                maker.make()
+            };
             let service = making.await?;
 
             Processing::new(
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index 7347bb1..db786b3 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,13 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let max_process_time = self.runtime.max_process_time;
+                    let process = async {
+                        poll_fn(|cx| self.service.poll_ready(cx)).await?;
+                        self.service.call(msgs).await
+                    };
+
+                    match timeout(max_process_time, process).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From b1a962732ae68180b0e7d184bc04a78a31d73183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 17/21] fix: send a disconnect without its message when the
 message does not fit

---
 spoa/src/conn.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index dd9e291..b1b309b 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -14,7 +14,7 @@ use tracing::instrument;
 use crate::runtime::Runtime;
 use crate::{
     error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
@@ -47,8 +47,25 @@ where
     where
         M: Into<String> + fmt::Debug,
     {
-        let disconnect = Frame::agent_disconnect(status, msg);
-        self.codec.write_frame(disconnect).await?;
+        self.write_disconnect(Disconnect::new(status, msg)).await
+    }
+
+    /// Writes a disconnect, without its message if that leaves it too big.
+    async fn write_disconnect(&mut self, disconnect: Disconnect) -> Result<()> {
+        let bare = Disconnect {
+            status_code: disconnect.status_code,
+            message: String::new(),
+        };
+
+        match self
+            .codec
+            .write_frame(Frame::AgentDisconnect(disconnect))
+            .await
+        {
+            Err(Status::TooBig) => self.codec.write_frame(Frame::AgentDisconnect(bare)).await?,
+            res => res?,
+        };
+
         Ok(())
     }
 }
@@ -103,8 +120,7 @@ where
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
+                            self.write_disconnect(err.into()).await?;
                             self.tok.cancel();
                             break;
                         }
-- 
2.43.0


From 5d9634b75f48b3b79be3e45afce10a6f472ade63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 18/21] fix: flush every frame that is written

---
 spop/src/frame/framer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index c501ef6..0a5aac1 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -58,6 +58,8 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        // the peer may be waiting for this frame, so don't leave it in a buffer
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From f56387c89d5dfb9d4761238cee33be78739d6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 19/21] fix: put the listener of an agent in non-blocking mode

---
 spoa/src/agent.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index c31f1f4..7726307 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -32,6 +32,9 @@ pub struct Agent<S, T> {
 
 impl<S, T> Agent<S, T> {
     pub fn new(runtime: Arc<Runtime<S, T>>, listener: StdTcpListener) -> Result<Self> {
+        // `TcpListener::from_std` expects the listener to be in non-blocking mode
+        listener.set_nonblocking(true)?;
+
         let listener = TcpListener::from_std(listener)?;
 
         Ok(Agent {
-- 
2.43.0


From 62526d8f7ce92cacbce231a9401f8f0d5b7bc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 20/21] fix: don't expect more fragments of a notify that was
 refused

---
 spoa/src/runtime/dispatch.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..5f665c2 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -34,14 +34,15 @@ impl Dispatcher {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
 
-                    if notify.fragmented {
-                        e.insert(sender.clone());
-                    }
-
                     let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
 
                     self.processing.send((acker, receiver))?;
 
+                    // only expect more fragments of a notify that somebody will process
+                    if notify.fragmented {
+                        e.insert(sender.clone());
+                    }
+
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From bec406446d2e9e075fcfc07fd6bc8424d2c2c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 21/21] fix: wait for the connections in every accept loop of
 an agent

---
 spoa/src/agent.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 7726307..d272051 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -94,7 +94,10 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        // another accept loop of this agent may have closed the tracker already
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0

