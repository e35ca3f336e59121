From 0e0714a5df606ffaccf8fc6eaf19b64fac8b883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:29 +0000
Subject: [PATCH 01/13] fix: resolve rpcs that were not yet in flight when the
 client connection ends

An rpc registered after the reactor's last batch stayed in the submission map,
which the completion itself keeps alive, so awaiting it never finished.
---
 .../src/client/reactor/completion_reactor.rs        |  2 ++
 .../src/client/reactor/completion_registry.rs       | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..4f7c1a1 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,8 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        // Rpcs that were registered but not yet taken up would otherwise wait forever.
+        self.rpc_registry.abandon_new_rpcs();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..d3b73b8 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,19 @@ where
         }
     }
 
+    /// Drop the completions of rpcs that have been registered but not yet taken as in-flight.
+    /// The clients' handles share the submission map, so it outlives this registry.
+    pub fn abandon_new_rpcs(&mut self) {
+        let abandoned = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        // completions wake their tasks when they are dropped, so do that outside of the lock
+        drop(abandoned);
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From 9bc6cacdbbadd95b0fee673a298fe555c71f255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:51 +0000
Subject: [PATCH 02/13] fix: a retired rpc no longer aborts a newer rpc that
 reuses its id

The end of a stream (or a cancelled rpc) is observed again later as Aborted. If
the client had already reused the id, that removed and aborted the new rpc.
---
 protosocket-rpc/src/server/connection_server.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..e945206 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -150,17 +150,13 @@ where
                         }
                         Some((id, AbortableState::Abort)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // The abort handle was removed when the rpc was aborted. A handle that is there now belongs to a newer rpc with this id.
                             log::debug!("{id} unary rpc abort");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.abort();
-                            }
                         }
                         Some((id, AbortableState::Aborted)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // The abort handle was removed when the rpc was aborted. A handle that is there now belongs to a newer rpc with this id.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -244,16 +240,12 @@ where
                         }
                         Some((id, AbortableState::Abort)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // The abort handle was removed when the rpc was aborted. A handle that is there now belongs to a newer rpc with this id.
                             log::debug!("{id} streaming rpc abort");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.abort();
-                            }
                         }
                         Some((id, AbortableState::Aborted)) => {
+                            // The abort handle was removed when the rpc was aborted. A handle that is there now belongs to a newer rpc with this id.
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0


From 0deb24eb2d3553bb411cd741a46885e10d231964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:23 +0000
Subject: [PATCH 03/13] fix: a stream that is cut off no longer looks like one
 that finished

A remote cancel or a lost connection ended a StreamingCompletion with
Error::Finished, just like the server's End, so truncated data looked complete.
Only End yields Finished now; anything else yields CancelledRemotely.
---
 .../src/client/reactor/completion_reactor.rs     |  9 +++++++--
 .../src/client/reactor/completion_registry.rs    |  6 +++---
 .../src/client/reactor/completion_streaming.rs   | 16 +++++++++++-----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index 4f7c1a1..6efdc18 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -101,14 +101,19 @@ where
                 }
                 ProtosocketControlCode::End => {
                     log::debug!("{message_id_from_the_network} command end of stream");
-                    self.rpc_registry.deregister(message_id_from_the_network);
+                    if let Some(Completion::RemoteStreaming(stream)) =
+                        self.rpc_registry.deregister(message_id_from_the_network)
+                    {
+                        // if the client lost interest in this stream there is nobody to tell
+                        let _ = stream.send(Err(crate::Error::Finished));
+                    }
                     continue;
                 }
             }
             match self.rpc_registry.entry(message_id_from_the_network) {
                 Entry::Occupied(mut registered_rpc) => {
                     if let Completion::RemoteStreaming(stream) = registered_rpc.get_mut() {
-                        if let Err(e) = stream.send(message_from_the_network) {
+                        if let Err(e) = stream.send(Ok(message_from_the_network)) {
                             log::debug!("{message_id_from_the_network} completion channel closed - did the client lose interest in this request? {e:?}");
                             registered_rpc.remove();
                         }
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index d3b73b8..5e80b76 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -77,8 +77,8 @@ where
         drop(abandoned);
     }
 
-    pub fn deregister(&mut self, message_id: u64) {
-        self.in_flight.remove(&message_id);
+    pub fn deregister(&mut self, message_id: u64) -> Option<Completion<Inbound>> {
+        self.in_flight.remove(&message_id)
     }
 
     pub fn entry(&mut self, message_id: u64) -> Entry<'_, u64, Completion<Inbound>> {
@@ -176,7 +176,7 @@ where
     Inbound: Message,
 {
     Unary(oneshot::Sender<crate::Result<Inbound>>),
-    RemoteStreaming(mpsc::UnboundedSender<Inbound>),
+    RemoteStreaming(mpsc::UnboundedSender<crate::Result<Inbound>>),
 }
 
 #[derive(Debug)]
diff --git a/protosocket-rpc/src/client/reactor/completion_streaming.rs b/protosocket-rpc/src/client/reactor/completion_streaming.rs
index aa2ece8..3af3a0b 100644
--- a/protosocket-rpc/src/client/reactor/completion_streaming.rs
+++ b/protosocket-rpc/src/client/reactor/completion_streaming.rs
@@ -18,10 +18,10 @@ where
     Response: Message,
     Request: Message,
 {
-    completion: mpsc::UnboundedReceiver<Response>,
+    completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
     completion_guard: CompletionGuard<Response, Request>,
     closed: bool,
-    nexts: Vec<Response>,
+    nexts: Vec<crate::Result<Response>>,
 }
 
 /// SAFETY: There is no unsafe code in this implementation
@@ -40,7 +40,7 @@ where
     Request: Message,
 {
     pub(crate) fn new(
-        completion: mpsc::UnboundedReceiver<Response>,
+        completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
         completion_guard: CompletionGuard<Response, Request>,
     ) -> Self {
         Self {
@@ -71,9 +71,10 @@ where
             match received {
                 Poll::Ready(count) => {
                     if count == 0 {
+                        // the stream was cut off before the server ended it
                         self.closed = true;
                         self.completion_guard.set_closed();
-                        return Poll::Ready(Some(Err(crate::Error::Finished)));
+                        return Poll::Ready(Some(Err(crate::Error::CancelledRemotely)));
                     }
                     // because it is a vector, we have to consume in reverse order. This is because
                     // of the poll_recv_many argument type.
@@ -83,7 +84,12 @@ where
             }
         }
         match self.nexts.pop() {
-            Some(next) => Poll::Ready(Some(Ok(next))),
+            Some(Ok(next)) => Poll::Ready(Some(Ok(next))),
+            Some(Err(end)) => {
+                self.closed = true;
+                self.completion_guard.set_closed();
+                Poll::Ready(Some(Err(end)))
+            }
             None => {
                 log::error!("unexpected empty nexts");
                 Poll::Ready(None)
-- 
2.43.0


From bf7c47f3314b60c72d276466fae4c0bd186b86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:25 +0000
Subject: [PATCH 04/13] fix: resume serializing outbound messages after a full
 send buffer drains

With a full send buffer the outbound channel is not polled, so it holds no waker.
When the socket then took everything, the task parked with messages still queued.
---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..1590e07 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -544,6 +544,7 @@ where
 
                         // Step 5a: write raw bytes to the stream
                         log::debug!("writing {self}");
+                        let send_was_full = self.room_in_send_buffer() == 0;
                         match self.writev_buffers() {
                             Ok(true) => {
                                 log::info!("write connection closed");
@@ -551,6 +552,11 @@ where
                             }
                             Ok(false) => {
                                 log::debug!("wrote {self}");
+                                if send_was_full && 0 < self.room_in_send_buffer() {
+                                    // Outbound messages are not polled while there is no room for them. Now there
+                                    // is some, and nothing else might wake the task to look for them.
+                                    context.waker().wake_by_ref();
+                                }
                             }
                             Err(e) => {
                                 log::warn!("error while writing to tcp stream: {e:?}");
-- 
2.43.0


From 9e331255d7c1a4f0957d6ebf37d3cb43b2b498fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 05/13] fix: never park with a full receive buffer

A full receive buffer is not polled for readability. If the pass that found it full
decoded no message (only made room, skipped, or waits for the rest of a message),
nothing woke the task again and the connection hung, even past the peer's close.
Make room and go around again, or disconnect if the message can not fit.
---
 protosocket-connection/src/connection.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 1590e07..051ebd9 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -488,10 +488,27 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
+                if receive_was_full {
+                    // The network is not polled while the buffer is full, so there is no wake to come from there. Make
+                    // room for the rest of the next message and go around again.
+                    let (start, end) = (
+                        self.receive_buffer_start_offset,
+                        self.receive_buffer_slice_end,
+                    );
+                    if start_len == new_len && self.max_buffer_length <= end - start {
+                        log::error!("received a full buffer that is not a whole message. Resetting connection {self}");
+                        return Some(Poll::Ready(()));
+                    }
+                    self.receive_buffer.copy_within(start..end, 0);
+                    self.receive_buffer_start_offset = 0;
+                    self.receive_buffer_slice_end = end - start;
+                    context.waker().wake_by_ref();
+                }
                 if start_len != new_len {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
-- 
2.43.0


From 462b59d685cfe8241118afb9420564e418eca4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:55 +0000
Subject: [PATCH 06/13] fix: deliver messages that arrived before the peer
 closed the stream

When data and end of stream were read in the same poll, the complete messages in the
receive buffer were dropped without being given to the reactor.
---
 protosocket-connection/src/connection.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 051ebd9..1c85bd6 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -461,6 +461,7 @@ where
                             }
                             ReadBufferState::Disconnected => {
                                 log::info!("read connection closed");
+                                self.react_to_remaining_messages();
                                 return Some(Poll::Ready(()));
                             }
                             ReadBufferState::Error(e) => {
@@ -548,6 +549,18 @@ where
         None
     }
 
+    /// The stream has ended. Hand over the messages that arrived ahead of the end.
+    fn react_to_remaining_messages(&mut self) {
+        loop {
+            let state = self.read_inbound_messages_into_read_queue();
+            let more = matches!(state, ReadBufferState::PartiallyConsumed)
+                && !self.inbound_messages.is_empty();
+            if self.poll_react().is_some() || !more {
+                break;
+            }
+        }
+    }
+
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
         loop {
             break if !self.send_buffer.is_empty() {
-- 
2.43.0


From 7d3fef0262a69358e51b07c3d084026ec56e8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:44 +0000
Subject: [PATCH 07/13] fix: send what was accepted before the outbound channel
 closed

Dropping the last sender ended the connection before serialized messages were
written, so a message sent right before the drop never reached the peer.
---
 protosocket-connection/src/connection.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 1c85bd6..02d2e19 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -26,6 +26,7 @@ pub struct Connection<Bindings: ConnectionBindings> {
     address: std::net::SocketAddr,
     outbound_messages: mpsc::Receiver<<Bindings::Serializer as Serializer>::Message>,
     outbound_message_buffer: Vec<<Bindings::Serializer as Serializer>::Message>,
+    outbound_closed: bool,
     inbound_messages: Vec<<Bindings::Deserializer as Deserializer>::Message>,
     serializer_buffers: Vec<Vec<u8>>,
     send_buffer: VecDeque<Vec<u8>>,
@@ -89,10 +90,15 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
         }
 
         // Step 5: Send outbound messages if the stream is ready for writing
-        if let Some(early_out) = self.poll_outbound(context) {
+        if let Some(early_out) = self.as_mut().poll_outbound(context) {
             return early_out;
         }
 
+        if self.outbound_closed && self.send_buffer.is_empty() {
+            log::debug!("outbound message channel was closed and everything is sent");
+            return Poll::Ready(());
+        }
+
         Poll::Pending
     }
 }
@@ -139,6 +145,7 @@ where
             address,
             outbound_messages,
             outbound_message_buffer: Vec::new(),
+            outbound_closed: false,
             inbound_messages: Vec::with_capacity(max_queued_send_messages),
             send_buffer: Default::default(),
             serializer_buffers: Vec::from_iter((0..1).map(|_| Vec::new())),
@@ -322,7 +329,9 @@ where
                                 None => {
                                     assert_eq!(0, count);
                                     log::info!("outbound message channel was closed");
-                                    return Poll::Ready(());
+                                    // what was already accepted still has to be sent
+                                    self.outbound_closed = true;
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From 857a92a495288002120aabc9039646a9054a5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:49 +0000
Subject: [PATCH 08/13] fix: a message that serializes to nothing no longer
 closes the connection

A vectored write of only empty buffers returns 0, which was taken for a closed stream.
---
 protosocket-connection/src/connection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 02d2e19..05b5c83 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -344,6 +344,13 @@ where
             };
             let mut buffer = self.serializer_buffers.pop().unwrap_or_default();
             self.serializer.encode(message, &mut buffer);
+            if buffer.is_empty() {
+                // Nothing to send. Writing only empty buffers would look just like a closed stream.
+                log::trace!("message serialized to nothing");
+                self.serializer_buffers.push(buffer);
+                context.waker().wake_by_ref();
+                continue;
+            }
             if self.max_buffer_length < buffer.len() {
                 log::error!(
                     "tried to send too large a message. Max {}, attempted: {}",
-- 
2.43.0


From 63e6d6e172d01a4ae1693767f9868020d2288205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:50 +0000
Subject: [PATCH 09/13] fix: account for the whole protobuf frame, whatever its
 length delimiter

A length near the integer limit overflowed (a panic with overflow checks). A delimiter
that is not minimally encoded was counted too short, so a message could be decoded before
its last bytes arrived, which broke the connection. The size hint left out the delimiter.
---
 protosocket-prost/src/prost_serializer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..bc94912 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -38,13 +38,14 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        let mut delimiter = buffer.chunk();
+        match prost::decode_length_delimiter(&mut delimiter) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
-                    return Err(DeserializeError::IncompleteBuffer {
-                        next_message_size: message_length,
-                    });
+                // The delimiter may not be minimally encoded, and the length can be anything.
+                let delimiter_length = buffer.chunk().len() - delimiter.len();
+                let next_message_size = message_length.saturating_add(delimiter_length);
+                if buffer.remaining() < next_message_size {
+                    return Err(DeserializeError::IncompleteBuffer { next_message_size });
                 }
             }
             Err(e) => {
-- 
2.43.0


From 2e2e9168207a065b8aa014e62ddf230cd7377e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:51 +0000
Subject: [PATCH 10/13] fix: reject a protobuf length delimiter that can never
 become valid

An overlong varint was reported as incomplete no matter how many bytes followed.
---
 protosocket-prost/src/prost_serializer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index bc94912..f02d7a6 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -2,6 +2,9 @@ use std::marker::PhantomData;
 
 use protosocket::{DeserializeError, Deserializer, Serializer};
 
+/// No varint is longer than this
+const MAX_DELIMITER_LENGTH: usize = 10;
+
 /// A stateless implementation of protosocket's `Serializer` and `Deserializer`
 /// traits using `prost` for encoding and decoding protocol buffers messages.
 #[derive(Default, Debug)]
@@ -48,6 +51,10 @@ where
                     return Err(DeserializeError::IncompleteBuffer { next_message_size });
                 }
             }
+            Err(e) if MAX_DELIMITER_LENGTH <= buffer.chunk().len() => {
+                log::warn!("invalid length delimiter {e:?}");
+                return Err(DeserializeError::InvalidBuffer);
+            }
             Err(e) => {
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-- 
2.43.0


From 1855257b8437e3465661710a6b282725de060402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:52 +0000
Subject: [PATCH 11/13] fix: honour the MessagePack length prefix

A length near the u32 limit overflowed: a panic with overflow checks, and otherwise a
message decoded without its bytes. A value longer or shorter than its frame was decoded
out of the next frame, or left the stream out of step with the frames.
---
 protosocket-messagepack/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..be1222d 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,23 +92,23 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = length as usize + 5;
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
+        // the message is what is in the frame: no more, and no less
+        rmp_serde::decode::from_read(reader.take(length as u64))
             .map_err(|e| {
                 log::error!("decode error length {length}: {e:?}");
                 protosocket::DeserializeError::InvalidBuffer
             })
             .map(|message| {
-                let buffer = reader.into_inner();
-                let length = start_remaining - buffer.remaining();
-                log::debug!("decoded {length}: {message:?}");
-                (length, message)
+                log::debug!("decoded {frame_length}: {message:?}");
+                (frame_length, message)
             })
     }
 }
-- 
2.43.0


From fb2922f8a71e63b41b964a971a5be7814964e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:06 +0000
Subject: [PATCH 12/13] fix: a connection that can not be configured no longer
 stops the server

An error from setting TCP_NODELAY on one accepted socket ended the accept loop.
---
 protosocket-rpc/src/server/socket_server.rs | 6 +++++-
 protosocket-server/src/connection_server.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/protosocket-rpc/src/server/socket_server.rs b/protosocket-rpc/src/server/socket_server.rs
index 3819a83..049e84e 100644
--- a/protosocket-rpc/src/server/socket_server.rs
+++ b/protosocket-rpc/src/server/socket_server.rs
@@ -70,7 +70,11 @@ where
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            // the peer might be gone already. That's no reason to stop serving everyone else
+                            log::warn!("failed to configure connection from {address}: {e:?}");
+                            continue;
+                        }
                         let (submitter, inbound_messages) = RpcSubmitter::new();
                         let (outbound_messages, outbound_messages_receiver) =
                             mpsc::channel(self.max_queued_outbound_messages);
diff --git a/protosocket-server/src/connection_server.rs b/protosocket-server/src/connection_server.rs
index 9eaed3c..2acc72e 100644
--- a/protosocket-server/src/connection_server.rs
+++ b/protosocket-server/src/connection_server.rs
@@ -96,7 +96,11 @@ impl<Connector: ServerConnector> Future for ProtosocketServer<Connector> {
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            // the peer might be gone already. That's no reason to stop serving everyone else
+                            log::warn!("failed to configure connection from {address}: {e:?}");
+                            continue;
+                        }
                         let (outbound_submission_queue, outbound_messages) =
                             mpsc::channel(self.max_queued_outbound_messages);
                         let reactor = self
-- 
2.43.0


From cebf09250730bbea20ca08f8741ad039b87996a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:58 +0000
Subject: [PATCH 13/13] fix: dropping a completed rpc no longer abandons a
 newer rpc with its id

The guard of a completed rpc marked its id as done when it was dropped. If the
id was in use again by then, the newer rpc lost its completion.
---
 .../src/client/reactor/completion_registry.rs | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 5e80b76..374cd55 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -115,20 +115,22 @@ where
     Outbound: Message,
 {
     fn drop(&mut self) {
+        if self.closed {
+            // A closed rpc is not in flight anymore. If there is one with this id, it is a newer one.
+            return;
+        }
         self.in_flight_submission
             .lock()
             .expect("brief internal mutex must work")
             // This doesn't result in a prompt wake of the reactor
             .insert(self.message_id, CompletionState::Done);
-        if !self.closed {
-            if let Err(e) = self
-                .raw_submission_queue
-                .try_send(Outbound::cancelled(self.message_id))
-            {
-                log::error!(
-                    "unable to send cancellation for message - this will abandon server rpcs {e:?}"
-                );
-            }
+        if let Err(e) = self
+            .raw_submission_queue
+            .try_send(Outbound::cancelled(self.message_id))
+        {
+            log::error!(
+                "unable to send cancellation for message - this will abandon server rpcs {e:?}"
+            );
         }
     }
 }
-- 
2.43.0

