From 299634ef8ba3a9857b7e81b6c5f56f01f3a700a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 01/12] broker: add feature-gated verif-hooks snapshot of
 internal state

---
 broker/Cargo.toml            |   1 +
 broker/src/broker.rs         |   9 ++
 broker/src/broker/handle.rs  |  13 ++-
 broker/src/broker/service.rs |  18 ++++
 broker/src/broker/verif.rs   | 169 +++++++++++++++++++++++++++++++++++
 broker/src/conn/event.rs     |   5 +-
 broker/src/lib.rs            |   2 +
 broker/src/serial_map.rs     |   5 ++
 8 files changed, 220 insertions(+), 2 deletions(-)
 create mode 100644 broker/src/broker/verif.rs

diff --git a/broker/Cargo.toml b/broker/Cargo.toml
index 74dccaf..2c2c0ea 100644
--- a/broker/Cargo.toml
+++ b/broker/Cargo.toml
@@ -28,6 +28,7 @@ introspection = [
 serde = ["aldrin-core/serde"]
 statistics = []
 tokio = ["aldrin-core/tokio"]
+verif-hooks = []
 
 [lints]
 workspace = true
diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index aeaaf01..0c23dbb 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -9,6 +9,8 @@ mod state;
 mod statistics;
 #[cfg(test)]
 mod test;
+#[cfg(feature = "verif-hooks")]
+mod verif;
 
 use crate::bus_listener::BusListener;
 use crate::conn::ConnectionEvent;
@@ -60,6 +62,8 @@ pub use error::BrokerShutdown;
 pub use handle::BrokerHandle;
 #[cfg(feature = "statistics")]
 pub use statistics::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+pub use verif::VerifSnapshot;
 
 const FIFO_SIZE: usize = 32;
 
@@ -263,6 +267,11 @@ impl Broker {
             ConnectionEvent::TakeStatistics(sender) => {
                 let _ = sender.send(self.statistics.take());
             }
+
+            #[cfg(feature = "verif-hooks")]
+            ConnectionEvent::VerifSnapshot(sender) => {
+                let _ = sender.send(self.verif_snapshot());
+            }
         }
     }
 
diff --git a/broker/src/broker/handle.rs b/broker/src/broker/handle.rs
index 84db3be..a6d1ac9 100644
--- a/broker/src/broker/handle.rs
+++ b/broker/src/broker/handle.rs
@@ -7,7 +7,7 @@ use crate::{AcceptError, Acceptor, Connection, ConnectionHandle};
 use aldrin_core::transport::{AsyncTransport, Buffered};
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 use futures_util::sink::SinkExt;
 
@@ -232,4 +232,15 @@ impl BrokerHandle {
             .map_err(|_| BrokerShutdown)?;
         recv.await.map_err(|_| BrokerShutdown)
     }
+
+    /// Takes a [`VerifSnapshot`](crate::VerifSnapshot) when this request is dequeued by the broker.
+    #[cfg(feature = "verif-hooks")]
+    pub async fn verif_snapshot(&mut self) -> Result<crate::VerifSnapshot, BrokerShutdown> {
+        let (send, recv) = oneshot::channel();
+        self.send
+            .send(ConnectionEvent::VerifSnapshot(send))
+            .await
+            .map_err(|_| BrokerShutdown)?;
+        recv.await.map_err(|_| BrokerShutdown)
+    }
 }
diff --git a/broker/src/broker/service.rs b/broker/src/broker/service.rs
index 456932e..b417fea 100644
--- a/broker/src/broker/service.rs
+++ b/broker/src/broker/service.rs
@@ -107,6 +107,24 @@ impl Service {
         self.subscriptions.remove(conn_id);
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_counts(&self) -> (usize, usize, usize) {
+        (
+            self.events.values().map(HashSet::len).sum(),
+            self.all_events.len(),
+            self.subscriptions.len(),
+        )
+    }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_conn_ids(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.events
+            .values()
+            .flatten()
+            .chain(&self.all_events)
+            .chain(&self.subscriptions)
+    }
+
     pub(crate) fn subscribed_conn_ids(&self) -> impl Iterator<Item = &ConnectionId> {
         #[allow(clippy::mutable_key_type)]
         let mut res = HashSet::new();
diff --git a/broker/src/broker/verif.rs b/broker/src/broker/verif.rs
new file mode 100644
index 0000000..df07d51
--- /dev/null
+++ b/broker/src/broker/verif.rs
@@ -0,0 +1,169 @@
+//! Read-only snapshot of the broker's internal state for verification purposes.
+//!
+//! Only compiled with the feature `verif-hooks`, which is off by default.
+
+use super::Broker;
+
+/// Sizes of the broker's internal maps and the result of a cross-reference check.
+#[derive(Debug, Clone, Default)]
+pub struct VerifSnapshot {
+    /// Named sizes.
+    pub counts: Vec<(&'static str, usize)>,
+
+    /// Description of every cross-reference between two maps that doesn't hold.
+    pub inconsistencies: Vec<String>,
+}
+
+impl Broker {
+    pub(super) fn verif_snapshot(&self) -> VerifSnapshot {
+        let mut bad = Vec::new();
+        let mut check = |ok: bool, what: &str| {
+            if !ok {
+                bad.push(what.to_owned());
+            }
+        };
+
+        for (cookie, uuid) in &self.obj_uuids {
+            let obj = self.objs.get(uuid);
+            check(
+                obj.is_some_and(|o| o.cookie() == *cookie),
+                "obj_uuids entry without matching object",
+            );
+        }
+
+        for (uuid, obj) in &self.objs {
+            check(
+                self.obj_uuids.get(&obj.cookie()) == Some(uuid),
+                "object without matching obj_uuids entry",
+            );
+
+            let conn = self.conns.get(obj.conn_id());
+            check(
+                conn.is_some_and(|c| c.objects().any(|o| o == obj.cookie())),
+                "object not registered with a live owner",
+            );
+
+            for svc in obj.services() {
+                check(
+                    self.svc_uuids
+                        .get(&svc)
+                        .is_some_and(|(id, _, _)| id.cookie == obj.cookie()),
+                    "object references unknown service",
+                );
+            }
+        }
+
+        for (cookie, (obj_id, svc_uuid, _)) in &self.svc_uuids {
+            let svc = self.svcs.get(&(obj_id.uuid, *svc_uuid));
+            check(
+                svc.is_some_and(|s| s.cookie() == *cookie && s.object_cookie() == obj_id.cookie),
+                "svc_uuids entry without matching service",
+            );
+
+            let obj = self.objs.get(&obj_id.uuid);
+            check(
+                obj.is_some_and(|o| {
+                    o.cookie() == obj_id.cookie && o.services().any(|s| s == *cookie)
+                }),
+                "service not registered with a live object",
+            );
+        }
+
+        let mut svc_calls = 0;
+        let mut svc_events = 0;
+        let mut svc_all_events = 0;
+        let mut svc_subs = 0;
+
+        for ((obj_uuid, svc_uuid), svc) in &self.svcs {
+            check(
+                self.svc_uuids
+                    .get(&svc.cookie())
+                    .is_some_and(|(o, s, _)| o.uuid == *obj_uuid && s == svc_uuid),
+                "service without matching svc_uuids entry",
+            );
+
+            svc_calls += svc.function_calls().count();
+            let (events, all_events, subs) = svc.verif_counts();
+            svc_events += events;
+            svc_all_events += all_events;
+            svc_subs += subs;
+
+            for conn_id in svc.verif_conn_ids() {
+                check(
+                    self.conns.contains_key(conn_id),
+                    "service subscribed by a connection that is gone",
+                );
+            }
+        }
+
+        for (cookie, bus_listener) in &self.bus_listeners {
+            let conn = self.conns.get(bus_listener.conn_id());
+            check(
+                conn.is_some_and(|c| c.bus_listeners().any(|b| b == *cookie)),
+                "bus listener not registered with a live owner",
+            );
+        }
+
+        let mut conn_counts = [0; 8];
+
+        for conn in self.conns.values() {
+            conn_counts[0] += conn.objects().count();
+            conn_counts[1] += conn.event_subscriptions().count();
+            conn_counts[2] += conn.all_event_subscriptions().count();
+            conn_counts[3] += conn.subscriptions().count();
+            conn_counts[4] += conn.senders().count();
+            conn_counts[5] += conn.receivers().count();
+            conn_counts[6] += conn.bus_listeners().count();
+            conn_counts[7] += conn.calls().count();
+
+            for obj in conn.objects() {
+                check(
+                    self.obj_uuids.contains_key(&obj),
+                    "connection owns an object that is gone",
+                );
+            }
+
+            for cookie in conn.senders().chain(conn.receivers()) {
+                check(
+                    self.channels.contains_key(&cookie),
+                    "connection owns an end of a channel that is gone",
+                );
+            }
+
+            for cookie in conn.bus_listeners() {
+                check(
+                    self.bus_listeners.contains_key(&cookie),
+                    "connection owns a bus listener that is gone",
+                );
+            }
+        }
+
+        VerifSnapshot {
+            counts: vec![
+                ("conns", self.conns.len()),
+                ("obj_uuids", self.obj_uuids.len()),
+                ("objs", self.objs.len()),
+                ("svc_uuids", self.svc_uuids.len()),
+                ("svcs", self.svcs.len()),
+                ("function_calls", self.function_calls.verif_len()),
+                ("channels", self.channels.len()),
+                ("bus_listeners", self.bus_listeners.len()),
+                ("svc.function_calls", svc_calls),
+                ("svc.events", svc_events),
+                ("svc.all_events", svc_all_events),
+                ("svc.subscriptions", svc_subs),
+                ("conn.objects", conn_counts[0]),
+                ("conn.events", conn_counts[1]),
+                ("conn.all_events", conn_counts[2]),
+                ("conn.subscriptions", conn_counts[3]),
+                ("conn.senders", conn_counts[4]),
+                ("conn.receivers", conn_counts[5]),
+                ("conn.bus_listeners", conn_counts[6]),
+                ("conn.calls", conn_counts[7]),
+                #[cfg(feature = "introspection")]
+                ("query_introspection", self.query_introspection.verif_len()),
+            ],
+            inconsistencies: bad,
+        }
+    }
+}
diff --git a/broker/src/conn/event.rs b/broker/src/conn/event.rs
index e165d88..f87e6b7 100644
--- a/broker/src/conn/event.rs
+++ b/broker/src/conn/event.rs
@@ -5,7 +5,7 @@ use crate::BrokerStatistics;
 use aldrin_core::message::Message;
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 
 #[derive(Debug)]
@@ -27,4 +27,7 @@ pub(crate) enum ConnectionEvent {
 
     #[cfg(feature = "statistics")]
     TakeStatistics(oneshot::Sender<BrokerStatistics>),
+
+    #[cfg(feature = "verif-hooks")]
+    VerifSnapshot(oneshot::Sender<crate::VerifSnapshot>),
 }
diff --git a/broker/src/lib.rs b/broker/src/lib.rs
index b4d9db1..100b2e5 100644
--- a/broker/src/lib.rs
+++ b/broker/src/lib.rs
@@ -66,5 +66,7 @@ pub use acceptor::{AcceptError, Acceptor};
 pub use aldrin_core as core;
 #[cfg(feature = "statistics")]
 pub use broker::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+pub use broker::VerifSnapshot;
 pub use broker::{Broker, BrokerHandle, BrokerShutdown};
 pub use conn::{Connection, ConnectionError, ConnectionHandle};
diff --git a/broker/src/serial_map.rs b/broker/src/serial_map.rs
index 5689689..590a3c9 100644
--- a/broker/src/serial_map.rs
+++ b/broker/src/serial_map.rs
@@ -34,6 +34,11 @@ impl<T> SerialMap<T> {
         self.elems.remove(&serial)
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_len(&self) -> usize {
+        self.elems.len()
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.elems.is_empty()
     }
-- 
2.43.0


From a075c5bb7d3f00cdf472064e32743b2d870da67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 02/12] fix: skip integer keys of maps and sets by the size of
 the key

The tag type itself is zero-sized, so a multi-byte varint key was skipped as
a single byte and skipping the map or set left the deserializer in the middle
of it.
---
 core/src/tags/key_impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/tags/key_impl.rs b/core/src/tags/key_impl.rs
index 8bafc8d..db605be 100644
--- a/core/src/tags/key_impl.rs
+++ b/core/src/tags/key_impl.rs
@@ -132,7 +132,7 @@ impl KeyTagImpl for U16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -162,7 +162,7 @@ impl KeyTagImpl for I16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -192,7 +192,7 @@ impl KeyTagImpl for U32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -222,7 +222,7 @@ impl KeyTagImpl for I32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -252,7 +252,7 @@ impl KeyTagImpl for U64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -282,7 +282,7 @@ impl KeyTagImpl for I64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
-- 
2.43.0


From 098d781af57cb953fcb8737c4fb4707d99a98d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 03/12] fix: create a channel only after its reply could be
 sent

If the connection was already gone, the channel existed without being counted
and removing it together with the connection made the counter wrong.
---
 broker/src/broker.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 0c23dbb..2326945 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -1040,6 +1040,15 @@ impl Broker {
 
         let cookie = ChannelCookie::new_v4();
 
+        send!(
+            self,
+            conn,
+            CreateChannelReply {
+                serial: req.serial,
+                cookie,
+            },
+        )?;
+
         let channel = match req.end {
             ChannelEndWithCapacity::Sender => {
                 conn.add_sender(cookie);
@@ -1054,15 +1063,6 @@ impl Broker {
 
         self.channels.insert(cookie, channel);
 
-        send!(
-            self,
-            conn,
-            CreateChannelReply {
-                serial: req.serial,
-                cookie,
-            },
-        )?;
-
         #[cfg(feature = "statistics")]
         {
             self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
-- 
2.43.0


From a9a7534e54174443f7c316f13521ecdb8fa84fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 04/12] fix: let connections shut down cleanly when the broker
 has just terminated

A connection that forwards a message, or the client's own shutdown, to a broker
that has just shut down failed and dropped the transport, although a shutdown
message was already queued for it. The client never got to see that message.
---
 broker/src/conn.rs | 49 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..745cb24 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -10,6 +10,7 @@ use aldrin_core::transport::{AsyncTransport, AsyncTransportExt, Buffered};
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc::{Sender, UnboundedReceiver};
 use futures_util::sink::SinkExt;
+use futures_util::stream::StreamExt;
 use select::{Select, Selected};
 
 pub(crate) use event::ConnectionEvent;
@@ -101,7 +102,7 @@ where
 
                 Selected::Broker(Some(msg)) => {
                     if let Err(e) = self.send_message(msg).await {
-                        self.client_error(id).await?;
+                        self.client_error(id).await;
                         break Err(e);
                     }
                 }
@@ -112,12 +113,16 @@ where
                     break self.client_shutdown(id).await;
                 }
 
-                Selected::Transport(Ok(msg)) => self.send_broker_msg(id.clone(), msg).await?,
+                Selected::Transport(Ok(msg)) => {
+                    if self.send_broker_msg(id.clone(), msg).await.is_err() {
+                        break self.broker_terminated().await;
+                    }
+                }
 
                 Selected::TransportFlushed(Ok(())) => self.flush_transport = false,
 
                 Selected::Transport(Err(e)) | Selected::TransportFlushed(Err(e)) => {
-                    self.client_error(id).await?;
+                    self.client_error(id).await;
                     break Err(ConnectionError::Transport(e));
                 }
             }
@@ -131,6 +136,24 @@ where
         Ok(())
     }
 
+    async fn broker_terminated(&mut self) -> Result<(), ConnectionError<T::Error>> {
+        // The broker sends a shutdown message before it terminates. That message, and possibly
+        // others before that, might not have been received yet.
+        while let Some(recv) = self.recv.as_mut() {
+            match recv.next().await {
+                Some(VersionedMessage {
+                    msg: Message::Shutdown(Shutdown),
+                    version: _,
+                }) => return self.broker_shutdown().await,
+
+                Some(msg) => self.send_message(msg).await?,
+                None => self.recv = None,
+            }
+        }
+
+        Err(ConnectionError::UnexpectedShutdown)
+    }
+
     async fn send_message(
         &mut self,
         msg: impl Into<VersionedMessage>,
@@ -150,21 +173,19 @@ where
     }
 
     async fn client_shutdown(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
-        self.send_broker_shutdown(id).await?;
+        self.send_broker_shutdown(id).await;
         self.send_message(Shutdown).await?;
         self.drain_broker_recv().await;
 
         Ok(())
     }
 
-    async fn client_error(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
+    async fn client_error(&mut self, id: ConnectionId) {
         self.transport = None;
         self.flush_transport = false;
 
-        self.send_broker_shutdown(id).await?;
+        self.send_broker_shutdown(id).await;
         self.drain_broker_recv().await;
-
-        Ok(())
     }
 
     async fn send_broker_msg(
@@ -178,14 +199,12 @@ where
             .map_err(|_| ConnectionError::UnexpectedShutdown)
     }
 
-    async fn send_broker_shutdown(
-        &mut self,
-        id: ConnectionId,
-    ) -> Result<(), ConnectionError<T::Error>> {
-        self.send
+    async fn send_broker_shutdown(&mut self, id: ConnectionId) {
+        // This fails only if the broker has terminated, in which case it doesn't need to know.
+        let _ = self
+            .send
             .send(ConnectionEvent::ConnectionShutdown(id))
-            .await
-            .map_err(|_| ConnectionError::UnexpectedShutdown)
+            .await;
     }
 
     async fn drain_broker_recv(&mut self) {
-- 
2.43.0


From 7a33282597c681b3d80e2db0ad32d2194aa23041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 05/12] fix: don't close connections because of values sent by
 other connections

Values are converted for connections with an older protocol version. If that
failed, then the receiving connection was closed instead of the sending one.
---
 broker/src/broker.rs | 94 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 80 insertions(+), 14 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 2326945..5eccf7d 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -30,9 +30,9 @@ use aldrin_core::message::{
     CreateObjectReply, CreateObjectResult, CreateService, CreateService2, CreateServiceReply,
     CreateServiceResult, DestroyBusListener, DestroyBusListenerReply, DestroyBusListenerResult,
     DestroyObject, DestroyObjectReply, DestroyObjectResult, DestroyService, DestroyServiceReply,
-    DestroyServiceResult, EmitBusEvent, EmitEvent, ItemReceived, Message, QueryIntrospection,
-    QueryIntrospectionReply, QueryIntrospectionResult, QueryServiceInfo, QueryServiceInfoReply,
-    QueryServiceInfoResult, QueryServiceVersion, QueryServiceVersionReply,
+    DestroyServiceResult, EmitBusEvent, EmitEvent, ItemReceived, Message, MessageOps,
+    QueryIntrospection, QueryIntrospectionReply, QueryIntrospectionResult, QueryServiceInfo,
+    QueryServiceInfoReply, QueryServiceInfoResult, QueryServiceVersion, QueryServiceVersionReply,
     QueryServiceVersionResult, RegisterIntrospection, RemoveBusListenerFilter, SendItem,
     ServiceDestroyed, Shutdown, StartBusListener, StartBusListenerReply, StartBusListenerResult,
     StopBusListener, StopBusListenerReply, StopBusListenerResult, SubscribeAllEvents,
@@ -760,7 +760,7 @@ impl Broker {
         &mut self,
         state: &mut State,
         id: &ConnectionId,
-        req: CallFunction2,
+        mut req: CallFunction2,
     ) -> Result<(), ()> {
         let Some(conn) = self.conns.get_mut(id) else {
             return Ok(());
@@ -783,6 +783,18 @@ impl Broker {
             .expect("inconsistent state")
             .conn_id();
 
+        // Convert the value before the call is forwarded. The callee must not be affected by values
+        // which cannot be converted.
+        let version = conn.version();
+        let callee_conn = self.conns.get(callee_id).expect("inconsistent state");
+        let callee_version = callee_conn.version();
+
+        req.value
+            .convert(Some(version), callee_version)
+            .map_err(|_| ())?;
+
+        let conn = self.conns.get_mut(id).expect("inconsistent state");
+
         let serial = self.function_calls.insert(PendingFunctionCall {
             caller_serial: req.serial,
             caller_conn_id: id.clone(),
@@ -796,7 +808,6 @@ impl Broker {
             return Err(());
         }
 
-        let version = conn.version();
         let callee_conn = self.conns.get(callee_id).expect("inconsistent state");
 
         self.svcs
@@ -804,7 +815,7 @@ impl Broker {
             .expect("inconsistent state")
             .add_function_call(serial);
 
-        let res = if callee_conn.version() >= ProtocolVersion::V1_19 {
+        let res = if callee_version >= ProtocolVersion::V1_19 {
             send!(
                 self,
                 callee_conn,
@@ -815,7 +826,7 @@ impl Broker {
                     version: req.version,
                     value: req.value,
                 },
-                version,
+                callee_version,
             )
         } else {
             send!(
@@ -827,7 +838,7 @@ impl Broker {
                     function: req.function,
                     value: req.value,
                 },
-                version,
+                callee_version,
             )
         };
 
@@ -842,7 +853,7 @@ impl Broker {
         &mut self,
         state: &mut State,
         id: &ConnectionId,
-        req: CallFunctionReply,
+        mut req: CallFunctionReply,
     ) {
         let Some(version) = self.conns.get(id).map(ConnectionState::version) else {
             return;
@@ -861,6 +872,27 @@ impl Broker {
             return;
         }
 
+        // Convert the value before the call is removed. The caller must not be affected by values
+        // which cannot be converted.
+        let caller_version = if call.get().aborted {
+            None
+        } else {
+            self.conns
+                .get(&call.get().caller_conn_id)
+                .map(ConnectionState::version)
+        };
+
+        if let (
+            CallFunctionResult::Ok(value) | CallFunctionResult::Err(value),
+            Some(caller_version),
+        ) = (&mut req.result, caller_version)
+        {
+            if value.convert(Some(version), caller_version).is_err() {
+                state.push_remove_conn(id.clone(), false);
+                return;
+            }
+        }
+
         let call = call.remove();
 
         let svc = self
@@ -887,7 +919,7 @@ impl Broker {
                 serial: call.caller_serial,
                 result: req.result,
             },
-            version,
+            caller_conn.version(),
         );
 
         if res.is_err() {
@@ -1001,9 +1033,23 @@ impl Broker {
         }
 
         for (conn_id, conn) in self.conns.iter() {
-            if conn.is_subscribed_to_event(req.service_cookie, req.event)
-                && send!(self, conn, req.clone(), emitter_conn.version()).is_err()
+            if !conn.is_subscribed_to_event(req.service_cookie, req.event) {
+                continue;
+            }
+
+            // Subscribers must not be affected by values which cannot be converted.
+            let mut req = req.clone();
+            let version = conn.version();
+
+            if req
+                .convert_value(Some(emitter_conn.version()), version)
+                .is_err()
             {
+                state.push_remove_conn(id.clone(), false);
+                continue;
+            }
+
+            if send!(self, conn, req, version).is_err() {
                 state.push_remove_conn(conn_id.clone(), false);
             }
         }
@@ -1226,7 +1272,12 @@ impl Broker {
         }
     }
 
-    fn send_item(&mut self, state: &mut State, id: &ConnectionId, req: SendItem) -> Result<(), ()> {
+    fn send_item(
+        &mut self,
+        state: &mut State,
+        id: &ConnectionId,
+        mut req: SendItem,
+    ) -> Result<(), ()> {
         let Some(sender) = self.conns.get(id) else {
             return Ok(());
         };
@@ -1265,6 +1316,12 @@ impl Broker {
             return Ok(());
         };
 
+        // The receiver must not be affected by values which cannot be converted.
+        let version = receiver.version();
+        req.value
+            .convert(Some(sender.version()), version)
+            .map_err(|_| ())?;
+
         let res = send!(
             self,
             receiver,
@@ -1272,7 +1329,7 @@ impl Broker {
                 cookie: req.cookie,
                 value: req.value,
             },
-            sender.version(),
+            version,
         );
 
         if res.is_err() {
@@ -1733,6 +1790,15 @@ impl Broker {
             return Err(());
         }
 
+        // Replies are cached and sent to other connections of any version. Those must not be affected
+        // by values which cannot be converted.
+        if let QueryIntrospectionResult::Ok(ref introspection) = req.result {
+            introspection
+                .clone()
+                .convert(None, ProtocolVersion::V1_14)
+                .map_err(|_| ())?;
+        }
+
         let serial = req.serial;
 
         let Some(type_id) = self.query_introspection.entry(serial) else {
-- 
2.43.0


From 0a80a101488a8d141accc005cbc7c9ed9ebab4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 06/12] fix: Packetizer::spare_capacity_mut() returned an empty
 slice when a complete message was pending

The slice is documented to be non-empty. With the length of the current
message known and that message complete, no capacity was reserved even if
none was left.
---
 core/src/message/packetizer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/message/packetizer.rs b/core/src/message/packetizer.rs
index 7a1fce3..bf6999c 100644
--- a/core/src/message/packetizer.rs
+++ b/core/src/message/packetizer.rs
@@ -30,14 +30,15 @@ impl Packetizer {
     ///
     /// The slice returned by this function is guaranteed to be non-empty.
     pub fn spare_capacity_mut(&mut self) -> &mut [MaybeUninit<u8>] {
-        if let Some(len) = self.len {
-            if self.buf.capacity() < len {
+        match self.len {
+            Some(len) if self.buf.capacity() < len => {
                 let reserve =
                     (len - self.buf.len()).clamp(MIN_RESERVE_CAPACITY, MAX_RESERVE_CAPACITY);
                 self.buf.reserve(reserve);
             }
-        } else if self.buf.capacity() == self.buf.len() {
-            self.buf.reserve(MIN_RESERVE_CAPACITY);
+
+            _ if self.buf.capacity() == self.buf.len() => self.buf.reserve(MIN_RESERVE_CAPACITY),
+            _ => {}
         }
 
         let slice = self.buf.spare_capacity_mut();
-- 
2.43.0


From 99f1f8d9b1d7fc2b5b8f21a199c0230b3acc0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 07/12] fix: don't close a channel end that could not be
 claimed

When claiming failed, dropping the unclaimed end still asked the broker to close it as
if it had been claimed. The client then panicked (debug) on the reply, because it had
never registered that end, or it closed an end claimed elsewhere in the same client.
---
 aldrin/src/client.rs                      | 19 ++++++++-----------
 aldrin/src/low_level/channel/raw.rs       |  8 ++++++++
 aldrin/src/low_level/channel/unclaimed.rs | 23 ++++++++++++++++-------
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index c3e44f9..4984f01 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -586,18 +586,15 @@ where
             return Err(RunError::UnexpectedMessageReceived(msg.into()));
         };
 
-        if req.claimed {
-            match req.end {
-                ChannelEnd::Sender => {
-                    let contained = self.senders.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
-                }
+        // Anything other than `Ok` means that this client doesn't own the channel end (anymore),
+        // e.g. because claiming it failed and that future was dropped.
+        if msg.result == CloseChannelEndResult::Ok {
+            let contained = match req.end {
+                ChannelEnd::Sender => self.senders.remove(&req.cookie).is_some(),
+                ChannelEnd::Receiver => self.receivers.remove(&req.cookie).is_some(),
+            };
 
-                ChannelEnd::Receiver => {
-                    let contained = self.receivers.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
-                }
-            }
+            debug_assert!(contained || !req.claimed);
         }
 
         let res = match msg.result {
diff --git a/aldrin/src/low_level/channel/raw.rs b/aldrin/src/low_level/channel/raw.rs
index cc832ab..2161908 100644
--- a/aldrin/src/low_level/channel/raw.rs
+++ b/aldrin/src/low_level/channel/raw.rs
@@ -76,6 +76,14 @@ impl<const SENDER: bool> RawChannel<SENDER> {
         self.claimed = true;
     }
 
+    /// Marks this end as closed without notifying the broker.
+    ///
+    /// This is used when claiming fails. The end is then either already closed or it belongs to
+    /// someone else.
+    pub(crate) fn set_closed(&mut self) {
+        self.state = State::Closed;
+    }
+
     fn begin_close(&mut self) -> Result<CloseChannelEndFuture, Error> {
         self.client
             .close_channel_end(self.cookie, Self::channel_end(), self.claimed)
diff --git a/aldrin/src/low_level/channel/unclaimed.rs b/aldrin/src/low_level/channel/unclaimed.rs
index a4755f5..d12fdf4 100644
--- a/aldrin/src/low_level/channel/unclaimed.rs
+++ b/aldrin/src/low_level/channel/unclaimed.rs
@@ -116,8 +116,15 @@ impl UnclaimedSender {
     /// ```
     pub async fn claim(mut self) -> Result<Sender, Error> {
         self.inner.set_claimed();
-        let (capacity_added, capacity) = self.client().claim_sender(self.cookie()).await?;
-        Ok(Sender::new(self.inner, capacity_added, capacity))
+
+        match self.client().claim_sender(self.cookie()).await {
+            Ok((capacity_added, capacity)) => Ok(Sender::new(self.inner, capacity_added, capacity)),
+
+            Err(e) => {
+                self.inner.set_closed();
+                Err(e)
+            }
+        }
     }
 }
 
@@ -235,11 +242,13 @@ impl UnclaimedReceiver {
     pub async fn claim(mut self, capacity: u32) -> Result<Receiver, Error> {
         self.inner.set_claimed();
 
-        let (items, max_capacity) = self
-            .client()
-            .claim_receiver(self.cookie(), capacity)
-            .await?;
+        match self.client().claim_receiver(self.cookie(), capacity).await {
+            Ok((items, max_capacity)) => Ok(Receiver::new(self.inner, items, max_capacity)),
 
-        Ok(Receiver::new(self.inner, items, max_capacity))
+            Err(e) => {
+                self.inner.set_closed();
+                Err(e)
+            }
+        }
     }
 }
-- 
2.43.0


From 3dd6e6479d786c3640ccfc32e5a88491fa500a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 08/12] fix: account for cancelled BusListener::start() and
 stop() futures

Dropping such a future after its request was sent left the pending counters at 0. The
resulting event then underflowed them: a panic with overflow checks, and a listener that
never finishes without.
---
 aldrin/src/bus_listener.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 3d803aa..23baf2f 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -346,21 +346,39 @@ impl BusListener {
     ///
     /// Bus listeners can only be started when they are stopped.
     pub async fn start(&mut self, scope: BusListenerScope) -> Result<(), Error> {
-        self.client.start_bus_listener(self.cookie, scope).await?;
+        // This must be accounted for before awaiting the reply. Otherwise, if this future is
+        // dropped early, the resulting events would be unexpected in `poll_next_event`.
         self.pending_started += 1;
 
         if scope.includes_current() {
             self.pending_current_finished += 1;
         }
 
-        Ok(())
+        let res = self.client.start_bus_listener(self.cookie, scope).await;
+
+        if res.is_err() {
+            self.pending_started -= 1;
+
+            if scope.includes_current() {
+                self.pending_current_finished -= 1;
+            }
+        }
+
+        res
     }
 
     /// Stops the bus listener.
     pub async fn stop(&mut self) -> Result<(), Error> {
-        self.client.stop_bus_listener(self.cookie).await?;
+        // See `start` for why this must be accounted for before awaiting the reply.
         self.pending_stopped += 1;
-        Ok(())
+
+        let res = self.client.stop_bus_listener(self.cookie).await;
+
+        if res.is_err() {
+            self.pending_stopped -= 1;
+        }
+
+        res
     }
 
     /// Returns the bus listener's active scope, if any.
-- 
2.43.0


From f92e36ad042c50f0ab019101cdae862aac84513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 09/12] fix: keep a destroyed bus listener's pending counters

The events which were already queued when the listener was destroyed are still polled
afterwards and underflowed the counters.
---
 aldrin/src/bus_listener.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 23baf2f..5b95a9a 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -132,10 +132,9 @@ impl BusListener {
     pub async fn destroy(&mut self) -> Result<(), Error> {
         self.client.destroy_bus_listener(self.cookie).await?;
 
+        // The events which have been received so far are still in the queue and match the number of
+        // pending ones.
         self.events.close();
-        self.pending_started = 0;
-        self.pending_stopped = 0;
-        self.pending_current_finished = 0;
 
         Ok(())
     }
-- 
2.43.0


From ad387c83b48a29921a9405c43579759e53d32f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 10/12] fix: don't spin on aborted calls while draining the
 transport

A call that was dropped while the client shuts down stayed selected forever. The client's
task then never yielded until the broker's Shutdown arrived, which on a single-threaded
executor is never.
---
 aldrin/src/client.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index 4984f01..00a2895 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -314,9 +314,11 @@ where
                     return Err(RunError::Transport(e))
                 }
 
-                Selected::Transport(Ok(_))
-                | Selected::Handle(_)
-                | Selected::AbortFunctionCall(_) => {}
+                // The call must be marked as aborted. It would otherwise be selected again and
+                // again, without ever yielding to the executor.
+                Selected::AbortFunctionCall(serial) => self.function_calls.abort(serial),
+
+                Selected::Transport(Ok(_)) | Selected::Handle(_) => {}
             }
         }
 
-- 
2.43.0


From 49e002606f5b06d300ba0f62347f56543582a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 11/12] fix: allow using a channel end that was closed through
 another handle

The broker lets a client close its own claimed channel end through a second, unclaimed
handle to it, or through a second claim that was dropped early. The first handle isn't
aware of that, so it can't be asserted that it refers to an open end.
---
 aldrin/src/client.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index 00a2895..3515502 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -1447,8 +1447,6 @@ where
     }
 
     async fn req_send_item(&mut self, req: SendItemRequest) -> Result<(), RunError<T::Error>> {
-        debug_assert!(self.senders.contains_key(&req.cookie));
-
         let msg = SendItem {
             cookie: req.cookie,
             value: req.value,
@@ -1461,7 +1459,6 @@ where
         &mut self,
         req: AddChannelCapacity,
     ) -> Result<(), RunError<T::Error>> {
-        debug_assert!(self.receivers.contains_key(&req.cookie));
         send!(self, req)
     }
 
-- 
2.43.0


From a79e3e6ffa15fb68141dd4731fcc79ccaa2bb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 12/12] serial maps: add feature-gated verif-hooks for serial
 numbers

---
 aldrin/Cargo.toml        |  1 +
 aldrin/src/lib.rs        |  2 ++
 aldrin/src/serial_map.rs | 32 ++++++++++++++++++++++++++++++++
 broker/src/lib.rs        |  2 ++
 broker/src/serial_map.rs | 16 ++++++++++++++++
 5 files changed, 53 insertions(+)

diff --git a/aldrin/Cargo.toml b/aldrin/Cargo.toml
index 5237dd8..a4badba 100644
--- a/aldrin/Cargo.toml
+++ b/aldrin/Cargo.toml
@@ -31,6 +31,7 @@ serde = [
 ]
 sink = ["dep:futures-sink"]
 tokio = ["aldrin-core/tokio"]
+verif-hooks = []
 
 [lints]
 workspace = true
diff --git a/aldrin/src/lib.rs b/aldrin/src/lib.rs
index 2769a2c..ae6ea19 100644
--- a/aldrin/src/lib.rs
+++ b/aldrin/src/lib.rs
@@ -117,5 +117,7 @@ pub use pending_reply::PendingReply;
 pub use promise::Promise;
 pub use property::Property;
 pub use reply::Reply;
+#[cfg(feature = "verif-hooks")]
+pub use serial_map::verif_set_serials;
 pub use unknown_call::UnknownCall;
 pub use unknown_event::UnknownEvent;
diff --git a/aldrin/src/serial_map.rs b/aldrin/src/serial_map.rs
index 018f251..25bb841 100644
--- a/aldrin/src/serial_map.rs
+++ b/aldrin/src/serial_map.rs
@@ -1,5 +1,29 @@
 use std::collections::hash_map::{Entry, HashMap};
 
+#[cfg(feature = "verif-hooks")]
+std::thread_local! {
+    static VERIF_FIRST_SERIAL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
+    static VERIF_SERIALS: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) };
+}
+
+/// Changes which serial numbers clients use that are created by the current thread.
+///
+/// They start at `first` and are taken from `max + 1` (a power of two) consecutive ones, or from
+/// more as long as that many are in use. Only for verification purposes.
+#[cfg(feature = "verif-hooks")]
+pub fn verif_set_serials(first: u32, max: u32) {
+    VERIF_FIRST_SERIAL.set(first);
+    VERIF_SERIALS.set(max);
+}
+
+#[cfg(feature = "verif-hooks")]
+fn verif_next(next: u32, used: usize) -> u32 {
+    let first = VERIF_FIRST_SERIAL.get();
+    let enough = (2 * used + 1).next_power_of_two() as u32;
+    let max = VERIF_SERIALS.get() | (enough - 1);
+    first.wrapping_add(next.wrapping_sub(first) & max)
+}
+
 #[derive(Debug)]
 pub(crate) struct SerialMap<T> {
     elems: HashMap<u32, T>,
@@ -9,13 +33,21 @@ pub(crate) struct SerialMap<T> {
 impl<T> SerialMap<T> {
     pub(crate) fn new() -> Self {
         Self {
+            #[cfg(not(feature = "verif-hooks"))]
             next: 0,
+            #[cfg(feature = "verif-hooks")]
+            next: VERIF_FIRST_SERIAL.get(),
             elems: HashMap::new(),
         }
     }
 
     pub(crate) fn insert(&mut self, obj: T) -> u32 {
         loop {
+            #[cfg(feature = "verif-hooks")]
+            {
+                self.next = verif_next(self.next, self.elems.len());
+            }
+
             let serial = self.next;
             self.next = self.next.wrapping_add(1);
 
diff --git a/broker/src/lib.rs b/broker/src/lib.rs
index 100b2e5..30e928f 100644
--- a/broker/src/lib.rs
+++ b/broker/src/lib.rs
@@ -70,3 +70,5 @@ pub use broker::BrokerStatistics;
 pub use broker::VerifSnapshot;
 pub use broker::{Broker, BrokerHandle, BrokerShutdown};
 pub use conn::{Connection, ConnectionError, ConnectionHandle};
+#[cfg(feature = "verif-hooks")]
+pub use serial_map::verif_set_first_serial;
diff --git a/broker/src/serial_map.rs b/broker/src/serial_map.rs
index 590a3c9..c99c47c 100644
--- a/broker/src/serial_map.rs
+++ b/broker/src/serial_map.rs
@@ -1,5 +1,18 @@
 use std::collections::hash_map::{Entry, HashMap, OccupiedEntry};
 
+#[cfg(feature = "verif-hooks")]
+std::thread_local! {
+    static VERIF_FIRST_SERIAL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
+}
+
+/// Changes the first serial number that brokers use which are created by the current thread.
+///
+/// Only for verification purposes.
+#[cfg(feature = "verif-hooks")]
+pub fn verif_set_first_serial(first: u32) {
+    VERIF_FIRST_SERIAL.set(first);
+}
+
 #[derive(Debug)]
 pub(crate) struct SerialMap<T> {
     elems: HashMap<u32, T>,
@@ -9,7 +22,10 @@ pub(crate) struct SerialMap<T> {
 impl<T> SerialMap<T> {
     pub(crate) fn new() -> Self {
         Self {
+            #[cfg(not(feature = "verif-hooks"))]
             next: 0,
+            #[cfg(feature = "verif-hooks")]
+            next: VERIF_FIRST_SERIAL.get(),
             elems: HashMap::new(),
         }
     }
-- 
2.43.0

