From aaef0d6e74264b469d904d5455303a5c51f03b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 01/26] fix: subscribing again to the same topic filter must
 not add a second subscription

A client that repeated a SUBSCRIBE got every message twice, and a later
UNSUBSCRIBE or disconnect removed only one of the two entries (MQTT-3.8.4-3).
---
 src/broker/messaging/subscriptions_repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..ba893c5 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,9 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From a87a8503bac1c94a83c24bac95c52db110607651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 02/26] fix: filters with a leading wildcard must not match
 topics beginning with $

MQTT-4.7.2-1.
---
 src/broker/messaging/subscriptions_repository.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ba893c5..d5e922c 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -83,7 +83,10 @@ impl SubscriptionsRepository {
 
         let mut nodes = vec![&self.root];
         let segments: Vec<&str> = topic.split("/").collect();
-        for segment in segments {
+        for (level, segment) in segments.into_iter().enumerate() {
+            // a leading wildcard does not match topics beginning with '$' - MQTT-4.7.2-1
+            let wildcards_match = level > 0 || !segment.starts_with('$');
+
             // nodes.iter().or itera
             let mut descendant_nodes = Vec::new();
             for node in nodes {
@@ -91,6 +94,10 @@ impl SubscriptionsRepository {
                     descendant_nodes.push(direct);
                 };
 
+                if !wildcards_match {
+                    continue;
+                }
+
                 if let Some(plus) = node.children.get("+") {
                     descendant_nodes.push(plus);
                 };
-- 
2.43.0


From 7125ed754de416655e458bfee1ae7780bf7b0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 03/26] fix: do not spin when the read buffer has been consumed
 exactly to its end

The capacity of a BytesMut shrinks as it is consumed. When a packet field ended
exactly at the end of the 4096-byte buffer the capacity was 0, so get_bytes
waited for 0 bytes again and again without ever yielding, burning a worker
thread of the runtime forever.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..6dca26a 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -76,7 +76,8 @@ impl MqttBytesStream {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
                 if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                    // a completely consumed buffer may have no capacity left
+                    self.read_buffer.capacity().max(1)
                 } else {
                     remaining_length
                 }
@@ -224,7 +225,8 @@ impl MqttBytesReadStream {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
                 if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                    // a completely consumed buffer may have no capacity left
+                    self.read_buffer.capacity().max(1)
                 } else {
                     remaining_length
                 }
-- 
2.43.0


From 864d2112d0724e27c481ef0fa54db2d2e62a0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 04/26] fix: write packets completely

finish_packet issued a single write, which may be partial when the socket buffer
is nearly full. The rest of the packet then stayed in the write buffer until the
next packet for that client.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 6dca26a..8f832c9 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -162,7 +162,7 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
@@ -318,7 +318,7 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
-- 
2.43.0


From 09faf033f7b29b45a4072957c344671376cf4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 05/26] fix: accept remaining lengths of four bytes

The limit was checked before the continuation bit, so every packet of 2 MiB and
more was rejected although MQTT allows four length bytes (MQTT 3.1.1, 2.2.3).
---
 src/mqtt/transport/packet_decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..86e7757 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -49,6 +49,12 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
     loop {
         let byte = buffer.get_u8().await?;
         remaining_length += (byte & 127) as u64 * multiplier;
+
+        let continuation_bit = byte & 128;
+        if continuation_bit == 0 {
+            break;
+        }
+
         multiplier *= 128;
 
         if multiplier > 128 * 128 * 128 {
@@ -57,11 +63,6 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
                 "Malformed remaining length multiplier",
             ));
         }
-
-        let continuation_bit = byte & 128;
-        if continuation_bit == 0 {
-            break;
-        }
     }
 
     Ok(remaining_length)
-- 
2.43.0


From 3d1352c6b9efa69660b86e801af92927833ad3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 06/26] fix: decode the will message of a CONNECT

The will topic and payload were not read, so the will topic was taken for the
user name and the will payload for the password, and the remaining bytes were
taken for the next packets.
---
 src/mqtt/transport/packet_decoder.rs | 29 +++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 86e7757..6da4197 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -126,6 +127,21 @@ async fn decode_connect(
     // payload
     let client_id = buffer.get_string().await?;
 
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        let topic = buffer.get_string().await?;
+        let payload_size = buffer.get_u16().await? as usize;
+        let payload = buffer.get_bytes(payload_size).await?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: decode_qos((connect_flags & ConnectFlags::WILL_QOS).bits >> 3)?,
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
+
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
         Some(buffer.get_string().await?)
     } else {
@@ -144,7 +160,7 @@ async fn decode_connect(
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
@@ -295,6 +311,17 @@ async fn decode_unsubscribe(
     Ok(ControlPacket::Unsubscribe(packet))
 }
 
+fn decode_qos(bits: u8) -> Result<QoS, Error> {
+    if bits > 2 {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed QoS",
+        ));
+    }
+
+    Ok(QoS::from_bits(bits))
+}
+
 async fn decode_packet_with_packet_id(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-- 
2.43.0


From c0ec3f479dbb99b74da2fa69f49fbcc0f1478874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 07/26] fix: return an error for QoS 3 and unsupported packet
 types instead of panicking

---
 src/mqtt/transport/packet_decoder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 6da4197..c2857de 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -89,7 +89,12 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Unsupported packet type",
+            ))
+        }
     };
 
     Ok(packet)
@@ -188,7 +193,7 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
-    let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
+    let qos = decode_qos((flags & FixedHeaderFlags::QOS).bits >> 1)?;
 
     // variable header
     let topic = buffer.get_string().await?;
-- 
2.43.0


From 61f8e6dbe1ed58dbdd589f0858f4bd05419201f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 08/26] fix: decode exactly the declared length of a packet

Fields that did not fit the remaining length made the decoder underflow (a panic,
or a wrong huge length without overflow checks), read bytes of the following
packets, or leave bytes behind that were then taken for the next packet.
Such a packet is malformed now.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 35 +++++++++++++++++++++++++
 src/mqtt/transport/packet_decoder.rs    |  7 ++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 8f832c9..c03e40e 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -18,6 +18,8 @@ pub struct MqttBytesWriteStream {
 pub struct MqttBytesReadStream {
     read_buffer: BytesMut,
     read_stream: OwnedReadHalf,
+    // bytes which still belong to the current packet, if its length is already known
+    packet_remaining: Option<u64>,
 }
 
 impl MqttBytesStream {
@@ -181,16 +183,47 @@ impl MqttBytesReadStream {
         MqttBytesReadStream {
             read_buffer: BytesMut::with_capacity(buffer_size),
             read_stream,
+            packet_remaining: None,
         }
     }
 
+    pub fn start_packet_body(&mut self, remaining_length: u64) {
+        self.packet_remaining = Some(remaining_length);
+    }
+
+    pub fn finish_packet_body(&mut self) -> Result<(), Error> {
+        match self.packet_remaining.take() {
+            Some(0) | None => Ok(()),
+            Some(_) => Err(Error::new(
+                ErrorKind::InvalidData,
+                "Packet is longer than its content",
+            )),
+        }
+    }
+
+    fn take_from_packet(&mut self, size: usize) -> Result<(), Error> {
+        if let Some(remaining) = self.packet_remaining {
+            let left = remaining.checked_sub(size as u64).ok_or_else(|| {
+                Error::new(
+                    ErrorKind::InvalidData,
+                    "Packet is shorter than its content",
+                )
+            })?;
+            self.packet_remaining = Some(left);
+        }
+
+        Ok(())
+    }
+
     pub async fn get_u8(&mut self) -> Result<u8, Error> {
+        self.take_from_packet(1)?;
         self.wait_for_data(1).await?;
 
         Ok(self.read_buffer.get_u8())
     }
 
     pub async fn get_u16(&mut self) -> Result<u16, Error> {
+        self.take_from_packet(2)?;
         self.wait_for_data(2).await?;
 
         Ok(self.read_buffer.get_u16())
@@ -217,6 +250,8 @@ impl MqttBytesReadStream {
     }
 
     pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
+        self.take_from_packet(size)?;
+
         let mut bytes = BytesMut::with_capacity(size);
 
         let mut remaining_length = size;
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index c2857de..c60a08d 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -74,6 +74,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
     let packet_type = first_byte >> 4;
     let remaining_length = decode_remaining_length(mqtt_stream).await?;
 
+    mqtt_stream.start_packet_body(remaining_length);
+
     let packet = match packet_type {
         PACKET_TYPE_CONNECT => decode_connect(mqtt_stream, first_byte, remaining_length).await?,
         PACKET_TYPE_PUBLISH => decode_publish(mqtt_stream, first_byte, remaining_length).await?,
@@ -97,6 +99,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
     };
 
+    mqtt_stream.finish_packet_body()?;
+
     Ok(packet)
 }
 
@@ -201,8 +205,9 @@ async fn decode_publish(
     remaining_length -= 2;
 
     let packet_id = if qos > QoS::AtMostOnce {
+        let packet_id = buffer.get_u16().await?;
         remaining_length -= 2;
-        Some(buffer.get_u16().await?)
+        Some(packet_id)
     } else {
         None
     };
-- 
2.43.0


From 32c13fb0dd226063557e7ceff8cdf47e6614bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 09/26] fix: reject topic names that are empty or contain
 wildcards

A message published on "a/+" was delivered twice to a subscriber of "a/+"
(MQTT-3.3.2-2, MQTT-4.7.3-1).
---
 src/mqtt/transport/packet_decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index c60a08d..485765c 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -204,6 +204,14 @@ async fn decode_publish(
     remaining_length -= topic.len() as u64;
     remaining_length -= 2;
 
+    // MQTT-3.3.2-2, MQTT-4.7.3-1
+    if topic.is_empty() || topic.contains(|c| c == '+' || c == '#') {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed topic name",
+        ));
+    }
+
     let packet_id = if qos > QoS::AtMostOnce {
         let packet_id = buffer.get_u16().await?;
         remaining_length -= 2;
-- 
2.43.0


From 597cdb00c8c27398f2a2533c69d58105ece0c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 10/26] fix: a CONNECT with a user name but no password must
 not stop the broker

The unwrap panicked in the one handler task that serves all clients.
---
 src/broker/client_packet_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..0ff5c8f 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -120,7 +120,7 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
+            let password = packet.password.unwrap_or_default();
             if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
-- 
2.43.0


From 722283695a7e20d00278465c22dd5ae5fd34739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 11/26] fix: a reply to a connection that is already closed
 must not stop the broker

Sending to the channel of a connection whose writer has ended fails; the unwrap
panicked in the one handler task that serves all clients, e.g. when a client sent
a packet after it had been refused.
---
 src/broker/client_packet_handler.rs | 31 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 0ff5c8f..be71bbe 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -125,11 +125,10 @@ impl ClientPacketHandler {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
+                let _ = sender
                     .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                    .await;
+                let _ = sender.send(ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -163,10 +162,9 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
+        let _ = sender
             .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+            .await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -223,7 +221,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            let _ = sender.send(event).await;
         }
     }
 
@@ -250,10 +248,9 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
+        let _ = sender
             .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+            .await;
     }
 
     async fn on_unsubscribe(
@@ -271,10 +268,9 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
+        let _ = sender
             .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+            .await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -303,16 +299,15 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
+            let _ = sender
                 .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+                .await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            let _ = sender.send(ServerEvent::Disconnect).await;
         }
     }
 }
-- 
2.43.0


From c6fcc93048ced4f0e7c4746a34d7d14d3de18354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 12/26] fix: process packets only of connections that own the
 session of their client

Packets of a connection whose CONNECT had been refused, or that had already sent
DISCONNECT, were processed like those of any other client: a client with a wrong
password could publish and subscribe.
---
 src/broker/client_packet_handler.rs       | 18 ++++++++++++++++++
 src/broker/messaging/messaging_service.rs | 19 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index be71bbe..f501c8b 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -89,6 +89,12 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        if !self.owns_session(&client_id, &tx).await {
+            info!("Connection of client {:?} has no session, ignoring {}", &client_id, &packet);
+            let _ = tx.try_send(ServerEvent::Disconnect);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
@@ -110,6 +116,18 @@ impl ClientPacketHandler {
         };
     }
 
+    async fn owns_session(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionOwned {
+            client_id: client_id.clone(),
+            sender: sender.clone(),
+            resp: tx,
+        };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
     async fn on_connect(
         &mut self,
         sender: Sender<ServerEvent>,
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..6fa633e 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -24,6 +24,11 @@ pub enum MessagingOperation {
         client_id: ClientId,
         resp: Responder<bool>,
     },
+    SessionOwned {
+        client_id: ClientId,
+        sender: mpsc::Sender<ServerEvent>,
+        resp: Responder<bool>,
+    },
     SessionInsert {
         session: Session,
         resp: Responder<()>,
@@ -90,6 +95,10 @@ impl MessagingService {
                     let result = self.session_exists(&client_id);
                     let _ = resp.send(result);
                 }
+                MessagingOperation::SessionOwned { client_id, sender, resp } => {
+                    let result = self.session_owned(&client_id, &sender);
+                    let _ = resp.send(result);
+                }
                 MessagingOperation::SessionInsert { session, resp } => {
                     self.session_insert(session);
                     let _ = resp.send(());
@@ -140,6 +149,16 @@ impl MessagingService {
         self.sessions.exists(client_id)
     }
 
+    pub fn session_owned(
+        &self,
+        client_id: &ClientId,
+        sender: &mpsc::Sender<ServerEvent>,
+    ) -> bool {
+        self.sessions
+            .get(client_id)
+            .map_or(false, |session| session.sender().same_channel(sender))
+    }
+
     pub fn session_insert(&mut self, session: Session) {
         // trace!()
         self.sessions.insert(session)
-- 
2.43.0


From 95ac391725b1e7fc80dfbd2344b240a7eedb676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 13/26] fix: end the session when the connection ends

Nothing reported the end of a connection. Session, subscriptions and socket of a
client that went away without DISCONNECT, or that sent a malformed packet, stayed
forever, and the next client with the same id inherited the subscriptions.
---
 src/broker/client_packet_handler.rs | 6 ++++--
 src/mqtt/events.rs                  | 2 +-
 src/mqtt/listener.rs                | 5 +++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index f501c8b..58f5fbe 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -69,8 +69,10 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                if self.owns_session(&client_id, &tx).await {
+                                    self.on_connection_lost(client_id).await;
+                                }
                             }
                         }
                     }
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..c134964 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -127,6 +127,11 @@ impl MqttListener {
                 error!("Error while sending client event to be processed: {}", &e);
             }
         }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
+        }
         trace!("Client read task ended");
     }
 
-- 
2.43.0


From 3487e61c6a3d527d9cad59a6ac668df94d8597bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 14/26] fix: close the connection after DISCONNECT and after a
 second CONNECT

MQTT-3.14.4-1, MQTT-3.1.0-2.
---
 src/broker/client_packet_handler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 58f5fbe..6c0ea99 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -113,7 +113,15 @@ impl ClientPacketHandler {
             // ControlPacket::UnsubAck(_) => {}
             ControlPacket::PingReq => self.on_ping_req(tx, &client_id).await,
             // ControlPacket::PingResp() => {}
-            ControlPacket::Disconnect(_) => self.on_disconnect(client_id).await,
+            ControlPacket::Disconnect(_) => {
+                self.on_disconnect(client_id).await;
+                let _ = tx.send(ServerEvent::Disconnect).await;
+            }
+            // a second CONNECT is a protocol violation - MQTT-3.1.0-2
+            ControlPacket::Connect(_) => {
+                self.on_connection_lost(client_id).await;
+                let _ = tx.send(ServerEvent::Disconnect).await;
+            }
             _ => error!("Packet {} not supported", &packet),
         };
     }
-- 
2.43.0


From d73fd81153801a85d0f502c798eadbc0e88b3463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 15/26] fix: disconnect the previous connection of a client
 that connects again

Both connections stayed and shared one session; the subscriptions of the old one
were delivered to the new one (MQTT-3.1.4-2).
---
 src/broker/client_packet_handler.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 6c0ea99..325a821 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -161,6 +161,18 @@ impl ClientPacketHandler {
             }
         };
 
+        // a client already connected with this id must be disconnected - MQTT-3.1.4-2
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::ConnectionLost { client_id: client_id.clone(), resp: tx };
+
+        self.messaging_tx.send(op).await.unwrap();
+        if let Some(previous) = rx.await.unwrap() {
+            info!("Client {:?} connected again, closing its previous connection", &client_id);
+            tokio::spawn(async move {
+                let _ = previous.sender().send(ServerEvent::Disconnect).await;
+            });
+        }
+
         let session_present = {
             let (tx, rx) = oneshot::channel();
             let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
-- 
2.43.0


From d07dd1340508524218c0db072adce327accb69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 16/26] fix: deliver messages at the granted QoS 0

Messages were forwarded with the QoS, packet identifier, DUP and RETAIN flags of
the publisher although every subscription is granted QoS 0 (MQTT-3.8.4-6,
MQTT-3.3.1-3, MQTT-3.3.1-9).
---
 src/broker/client_packet_handler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 325a821..ec30c1e 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -253,6 +253,14 @@ impl ClientPacketHandler {
             &client_id, &publish.message.topic
         );
 
+        // subscriptions are granted QoS 0 and delivered messages are not retained ones
+        // - MQTT-3.8.4-6, MQTT-3.3.1-9
+        let mut publish = publish;
+        publish.packet_id = None;
+        publish.dup = false;
+        publish.message.qos = QoS::AtMostOnce;
+        publish.message.retain = false;
+
         let (tx, rx) = oneshot::channel();
         let op = MessagingOperation::SendersToPublish { topic: publish.message.topic.clone(), resp: tx };
 
-- 
2.43.0


From 6780954d7df48d7512fdcc9164c518f2ca7f07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 17/26] fix: the password tool must change only the entry of
 the given user

The search matched the name anywhere and without regard to case, so setting the
password of "bob" overwrote the one of "jimbob" or "BOB"; and it did not find an
entry in a last line without newline.
---
 ratelmq-passwd/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..2a765c9 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,8 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
-- 
2.43.0


From d443a0ab85b1c8a2e5c68b412b0b131764b1ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 18/26] fix: the password tool must change all entries of the
 given user

The broker uses the last entry of a user, the tool changed the first one: after a
delete the user could still log in.
---
 ratelmq-passwd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 2a765c9..806b431 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -42,7 +42,7 @@ fn main() {
 
         Some(
             regexp
-                .replace(credentials.as_str(), text.as_str())
+                .replace_all(credentials.as_str(), text.as_str())
                 .into_owned(),
         )
     } else if !delete {
-- 
2.43.0


From 6b1fb9ff3fd96b29e81868c4901064ed07e34577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 19/26] fix: the password tool must not append an entry to an
 unterminated line

The new entry was glued to the last one, which broke both.
---
 ratelmq-passwd/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 806b431..f2e85f9 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -46,7 +46,11 @@ fn main() {
                 .into_owned(),
         )
     } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
+        let separator = match credentials.is_empty() || credentials.ends_with('\n') {
+            true => "",
+            false => "\n",
+        };
+        Some(credentials + separator + build_entry(user_name, password).as_str())
     } else {
         None
     };
-- 
2.43.0


From 0a4d73bd0b6c8f1f4ee5d1f81192b51a1b7fd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 20/26] fix: the password tool must reject user names that do
 not fit an entry

The name "a:b" created an entry that the broker reads as user "a" with an
unusable password, locking out "a".
---
 ratelmq-passwd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2e85f9..d26cc3b 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,6 +25,11 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
+    if user_name.contains(|c| c == ':' || c == '\n' || c == '\r') {
+        eprintln!("Invalid user name: ':' and line breaks are not allowed");
+        std::process::exit(1);
+    }
+
     let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
         .multi_line(true)
-- 
2.43.0


From 76308b2603ffcdb7e4584e437364c274e3ee755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 21/26] fix: subscriptions with many levels must not overflow
 the stack

---
 .../messaging/subscriptions_repository.rs     | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index d5e922c..23a18cf 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -120,15 +120,17 @@ impl SubscriptionsRepository {
         // None
     }
 
+    // not recursive: a client can subscribe to topics with thousands of levels
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+        let mut nodes = vec![node];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
@@ -147,6 +149,16 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    // not recursive, as above
+    fn drop(&mut self) {
+        let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|c| c.1).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|c| c.1));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0


From c856af76ba2c6436f8b9003d2151425fdc54d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:49 +0000
Subject: [PATCH 22/26] fix: subscriptions that ended must not stay in memory

---
 .../messaging/subscriptions_repository.rs     | 57 +++++++++++++++----
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 23a18cf..0e6ac33 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -7,12 +7,14 @@ use crate::mqtt::subscription::Subscription;
 
 pub struct SubscriptionsRepository {
     root: SubscriptionNode,
+    topics: HashMap<ClientId, Vec<String>>,
 }
 
 impl SubscriptionsRepository {
     pub fn new() -> SubscriptionsRepository {
         SubscriptionsRepository {
             root: SubscriptionNode::new(),
+            topics: HashMap::new(),
         }
     }
 
@@ -36,6 +38,10 @@ impl SubscriptionsRepository {
         }
         if !node.clients.contains(client_id) {
             node.clients.push(client_id.clone());
+            self.topics
+                .entry(client_id.clone())
+                .or_insert(Vec::new())
+                .push(subscription.topic().to_string());
         }
         // println!("Nodes: {:?}", &self.root);
 
@@ -67,15 +73,20 @@ impl SubscriptionsRepository {
                 .map(|p| node.clients.remove(p));
             // node.clients.(client_id.clone());
             // println!("Nodes: {:?}", &self.root);
+
+            if let Some(topics) = self.topics.get_mut(client_id) {
+                topics.retain(|t| t != topic);
+            }
+            self.remove_unused_nodes(topic);
         }
     }
 
     pub fn disconnected(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn connections_lost(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn subscribed_clients(&self, topic: &String) -> Option<Vec<ClientId>> {
@@ -120,17 +131,39 @@ impl SubscriptionsRepository {
         // None
     }
 
-    // not recursive: a client can subscribe to topics with thousands of levels
-    fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        let mut nodes = vec![node];
-        while let Some(node) = nodes.pop() {
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
+    fn remove_client(&mut self, client_id: &ClientId) {
+        if let Some(topics) = self.topics.remove(client_id) {
+            self.unsubscribe(client_id, &topics);
+        }
+    }
 
-            nodes.extend(node.children.values_mut());
+    fn remove_unused_nodes(&mut self, topic: &str) {
+        let segments: Vec<&str> = topic.split("/").collect();
+
+        // the last node on the path that is used besides for this topic
+        let mut last_used = 0;
+        let mut node = &self.root;
+        for (level, segment) in segments.iter().enumerate() {
+            if !node.clients.is_empty() || node.children.len() > 1 {
+                last_used = level;
+            }
+            match node.children.get(*segment) {
+                Some(child) => node = child,
+                None => return,
+            }
         }
+        if !node.clients.is_empty() || !node.children.is_empty() {
+            return;
+        }
+
+        let mut node = &mut self.root;
+        for segment in &segments[..last_used] {
+            match node.children.get_mut(*segment) {
+                Some(child) => node = child,
+                None => return,
+            }
+        }
+        node.children.remove(segments[last_used]);
     }
 }
 
@@ -150,7 +183,7 @@ impl SubscriptionNode {
 }
 
 impl Drop for SubscriptionNode {
-    // not recursive, as above
+    // not recursive: a client can subscribe to topics with thousands of levels
     fn drop(&mut self) {
         let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|c| c.1).collect();
         while let Some(mut node) = nodes.pop() {
-- 
2.43.0


From f92755358920df39105dfe7cccf6eb0e000831e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 23/26] fix: a missing password must not pass as an empty one

---
 src/broker/client_packet_handler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index ec30c1e..edab9bf 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -7,7 +7,9 @@ use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{broadcast, mpsc, oneshot};
 use uuid::Uuid;
 
-use crate::broker::authentication::{FileIdentityManager, IdentityProvider};
+use crate::broker::authentication::{
+    AuthenticationError, FileIdentityManager, IdentityProvider,
+};
 use crate::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
 use crate::broker::session::Session;
 use crate::mqtt::events::{ClientEvent, ServerEvent};
@@ -148,8 +150,11 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap_or_default();
-            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
+            let result = match packet.password {
+                Some(password) => self.identity_provider.authenticate(&user_name, &password),
+                None => Err(AuthenticationError::InvalidPassword),
+            };
+            if let Err(e) = result {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-- 
2.43.0


From fadcdbba6da0774f1dad5ef9f08998978280e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 24/26] fix: stop on an interrupt also while a client does not
 read

---
 src/broker/client_packet_handler.rs | 56 +++++++++++++++--------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index edab9bf..0e4ae27 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -24,7 +24,7 @@ use crate::settings::Settings;
 
 pub struct ClientPacketHandler {
     rx: mpsc::Receiver<ClientEvent>,
-    ctrl_c_rx: broadcast::Receiver<()>,
+    ctrl_c_rx: Option<broadcast::Receiver<()>>,
     // sessions: SessionService<InMemorySessionRepository>,
     // messaging: MessagingServiceSync,
     messaging_tx: MessagingTx,
@@ -45,7 +45,7 @@ impl ClientPacketHandler {
 
         ClientPacketHandler {
             rx,
-            ctrl_c_rx,
+            ctrl_c_rx: Some(ctrl_c_rx),
             // sessions: SessionService::default(),
             // messaging,
             messaging_tx,
@@ -54,37 +54,39 @@ impl ClientPacketHandler {
     }
 
     pub async fn run(mut self) {
-        loop {
-            select! {
-                _ = self.ctrl_c_rx.recv() => {
-                    debug!("Stopping manager...");
-                    break;
-                }
-                 maybe_event = self.rx.recv() => {
-                    if let Some(event) = maybe_event {
-                        trace!("Got event {:?}", &event);
-
-                        match event {
-
-                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
-                            ClientEvent::ControlPacket(client_id, packet, tx) => {
-                                self.on_packet(client_id, packet, tx).await;
-                            }
-                            ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id, tx) => {
-                                if self.owns_session(&client_id, &tx).await {
-                                    self.on_connection_lost(client_id).await;
-                                }
-                            }
-                        }
-                    }
-                 }
+        let mut ctrl_c_rx = self.ctrl_c_rx.take().unwrap();
+
+        // the handling of an event may be waiting for a client that does not read
+        select! {
+            _ = ctrl_c_rx.recv() => {
+                debug!("Stopping manager...");
             }
+            _ = self.handle_events() => {}
         }
 
         debug!("Stopped Manager");
     }
 
+    async fn handle_events(&mut self) {
+        while let Some(event) = self.rx.recv().await {
+            trace!("Got event {:?}", &event);
+
+            match event {
+
+                ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
+                ClientEvent::ControlPacket(client_id, packet, tx) => {
+                    self.on_packet(client_id, packet, tx).await;
+                }
+                ClientEvent::Disconnected(_client_id) => {}
+                ClientEvent::ConnectionLost(client_id, tx) => {
+                    if self.owns_session(&client_id, &tx).await {
+                        self.on_connection_lost(client_id).await;
+                    }
+                }
+            }
+        }
+    }
+
     async fn on_packet(
         &mut self,
         client_id: String,
-- 
2.43.0


From 2eb876f7d97f0440b31f9eceee492dfc569effc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 25/26] fix: let an environment variable set the list of
 listeners

---
 README.md           |  1 +
 src/settings/mod.rs | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 522acd1..533920c 100644
--- a/README.md
+++ b/README.md
@@ -34,6 +34,7 @@ When using environment variables:
 
 * add `RATELMQ_` prefix
 * separate nested items with `__`, e.g. `RATELMQ_MQTT__SOMETHING`
+* separate list items with commas, e.g. `RATELMQ_MQTT__LISTENERS_TCP=0.0.0.0:1883,0.0.0.0:1884`
 
 For the default values with description please see [config/ratelmq.toml](config/ratelmq.toml).
 
diff --git a/src/settings/mod.rs b/src/settings/mod.rs
index fac0357..130f56b 100644
--- a/src/settings/mod.rs
+++ b/src/settings/mod.rs
@@ -1,8 +1,9 @@
 use config::{Config, ConfigError, Environment, File, FileFormat};
-use serde::Deserialize;
+use serde::{Deserialize, Deserializer};
 
 #[derive(Debug, Deserialize)]
 pub struct MqttSettings {
+    #[serde(deserialize_with = "list_or_text")]
     pub listeners_tcp: Vec<String>,
 }
 
@@ -17,6 +18,24 @@ pub struct Settings {
     pub authentication: AuthenticationSettings,
 }
 
+/// An environment variable cannot hold a list, its items are separated by commas there
+fn list_or_text<'de, D>(deserializer: D) -> Result<Vec<String>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum ListOrText {
+        List(Vec<String>),
+        Text(String),
+    }
+
+    match ListOrText::deserialize(deserializer)? {
+        ListOrText::List(items) => Ok(items),
+        ListOrText::Text(text) => Ok(text.split(',').map(|s| s.trim().to_owned()).collect()),
+    }
+}
+
 impl Settings {
     pub fn new(config_filename: &str) -> Result<Self, ConfigError> {
         let mut config = Config::new();
-- 
2.43.0


From 704641c72116c6cf4bdfcb93c12a4222f8b1bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 26/26] fix: serve no client before the start is complete

---
 src/application.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/application.rs b/src/application.rs
index 7529075..9c4a38f 100644
--- a/src/application.rs
+++ b/src/application.rs
@@ -45,7 +45,7 @@ pub async fn run(config_filename: &str) {
     //     KeepAliveChecker::new(ctrl_c_tx.subscribe(), Arc::clone(&messaging_service));
     // let keep_alive_checker_future = tokio::spawn(keep_alive_checker.run());
 
-    let mut listeners = Vec::new();
+    let mut bound_listeners = Vec::new();
 
     for bind_address in settings.mqtt.listeners_tcp {
         let listener = MqttListener::bind(
@@ -56,6 +56,13 @@ pub async fn run(config_filename: &str) {
         .await
         .unwrap();
 
+        bound_listeners.push(listener);
+    }
+
+    // no client is served before everything that can fail has been done
+    let mut listeners = Vec::new();
+
+    for listener in bound_listeners {
         listeners.push(tokio::spawn(listener.start_accepting()));
     }
 
-- 
2.43.0

