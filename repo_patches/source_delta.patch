From e5c83a6095602d951e06ff2213861770170f3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 01/22] fix: reject packets shorter than the strings and
 lengths they announce

A string or payload cut short was accepted as if complete, and a remaining
length smaller than the fields it covers underflowed (a panic in debug
builds, an endless read in release builds).
---
 src/packets/mod.rs   | 22 ++++++++++++----------
 src/packets/utils.rs | 17 ++++++++++++++++-
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..f647c31 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,9 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{
+        encode_length, take_len, unpack_bytes, unpack_properties, unpack_string, unpack_u16,
+    },
 };
 
 #[repr(u8)]
@@ -483,13 +485,13 @@ impl VariableHeader {
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                     let id = Some(unpack_u16(iter)?);
-                    len -= size_of::<u16>();
+                    len = take_len(len, size_of::<u16>())?;
                     id
                 } else {
                     None
                 };
 
-                len -= size_of::<u16>() + topic.len();
+                len = take_len(len, size_of::<u16>() + topic.len())?;
 
                 let payload = unpack_bytes(iter, len)?;
 
@@ -551,7 +553,7 @@ impl VariableHeader {
                 // # Variable header
 
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = take_len(len, size_of::<u16>())?;
 
                 // # Payload
                 /*
@@ -563,13 +565,13 @@ impl VariableHeader {
                 let mut tuples = Vec::new();
                 while len > 0 {
                     let topic = unpack_string(iter)?;
-                    len -= topic.len() + size_of::<u16>();
+                    len = take_len(len, topic.len() + size_of::<u16>())?;
 
                     let qos = QosLevel::try_from(
                         *iter.next().ok_or_else(|| MqttError::MalformedHeader)?,
                     )?;
 
-                    len -= size_of::<u8>();
+                    len = take_len(len, size_of::<u8>())?;
 
                     tuples.push((topic, qos));
                 }
@@ -588,7 +590,7 @@ impl VariableHeader {
             PacketType::Suback => {
                 let packet_id = unpack_u16(iter)?;
 
-                let mut len = fixed.get_remaing_len() - size_of::<u16>();
+                let mut len = take_len(fixed.get_remaing_len(), size_of::<u16>())?;
 
                 let mut return_codes = Vec::new();
                 while len > 0 {
@@ -610,13 +612,13 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = take_len(len, size_of::<u16>())?;
 
                 while len > 0 {
-                    len -= size_of::<u16>();
+                    len = take_len(len, size_of::<u16>())?;
 
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len = take_len(len, topic.len())?;
 
                     tuples.push(topic);
                 }
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..f116490 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,18 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let data = Bytes::from_iter(iter.take(len).copied());
+
+    if data.len() != len {
+        return Err(MqttError::MissingByte);
+    }
+
+    Ok(data)
+}
+
+/// Take `used` bytes off what is left of a packet, failing when the packet is not that long
+pub fn take_len(len: usize, used: usize) -> Result<usize, MqttError> {
+    len.checked_sub(used).ok_or(MqttError::MissingByte)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -96,6 +107,10 @@ where
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
 
+    if chars.len() != len {
+        return Err(MqttError::MissingByte);
+    }
+
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
     Ok(result)
-- 
2.43.0


From e0b7e89b33539000410e6e19e5e5a50a18e3a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 02/22] fix: take packets off the stream by their own length,
 end at end of stream

The handler decoded whatever one read returned: packets split over reads or
larger than the read buffer were misread, fields could run into the next
packet, and at end of stream the loop spun without ever ending.
---
 src/handler.rs       | 46 +++++++++++++++++++++++++++++++++-----------
 src/packets/mod.rs   | 23 ++++++++++++++++++++++
 src/packets/utils.rs |  4 ++++
 3 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..e5abc8a 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
 
+use bytes::BytesMut;
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -21,6 +22,29 @@ use crate::{
     },
 };
 
+/// Read until `inbound` starts with a whole packet and take it, `None` at the end of the stream.
+///
+/// Cancel safe: bytes already read stay in `inbound`.
+async fn read_frame<R>(
+    reader: &mut R,
+    inbound: &mut BytesMut,
+) -> Result<Option<BytesMut>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        if let Some(len) = Packet::frame_len(inbound)? {
+            if inbound.len() >= len {
+                return Ok(Some(inbound.split_to(len)));
+            }
+        }
+
+        if reader.read_buf(inbound).await? == 0 {
+            return Ok(None);
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -39,6 +63,7 @@ where
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut inbound = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -51,26 +76,25 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
+            buffer = read_frame(&mut reader, &mut inbound) => {
                 let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            continue;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+                    Ok(Some(bytes)) => {
+                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
                         broker_info::sent_data(packet_size);
 
-                        reader.consume(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        debug!("Connection closed");
+                        break 'ctrl;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index f647c31..0c7f9c1 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -823,9 +823,32 @@ impl Packet {
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
+        // A packet ends where its remaining length says, whatever follows it in the buffer
+        let mut iter = bytes
+            .get(fixed.get_rl_len() + 1..len)
+            .ok_or(MqttError::MissingByte)?
+            .iter();
+
         let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
+
+        if iter.next().is_some() {
+            return Err(MqttError::ProtocolViolation);
+        }
+
         Ok((Self { fixed, variable }, len))
     }
+
+    /// The size of the packet that starts at the beginning of `bytes`,
+    /// or `None` when more bytes are needed to tell.
+    pub fn frame_len(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        let mut iter = bytes.iter();
+
+        match FixedHeader::from_bytes(&mut iter, None) {
+            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
+            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index f116490..a881e48 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -141,6 +141,10 @@ where
         if (byte & 128) == 0 {
             break;
         }
+
+        if bytes == MAX_ENCODED_BYTES {
+            return Err(MqttError::MalformedRemaingLength);
+        }
     }
 
     Ok((value, bytes))
-- 
2.43.0


From c9797f0f57260da53492d3d044949d3a38fb6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 03/22] fix: write packets whole and without blocking the
 connection on them

A write may take only part of a packet, the rest was dropped and the stream
corrupted. A client that stops reading blocked its handler for good, so that
neither shutdown nor the keep-alive could end the connection.
---
 src/handler.rs | 95 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 25 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index e5abc8a..38d399e 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,6 +1,6 @@
 use std::time::Duration;
 
-use bytes::BytesMut;
+use bytes::{BufMut, BytesMut};
 use log::{debug, error};
 use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
@@ -22,6 +22,11 @@ use crate::{
     },
 };
 
+/// How many bytes may wait to be written to a client before its packets and messages have to wait too
+const MAX_OUTBOUND: usize = 64 * 1024;
+/// How long a connection that ends may take to accept what is still to be written to it
+const FLUSH_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Read until `inbound` starts with a whole packet and take it, `None` at the end of the stream.
 ///
 /// Cancel safe: bytes already read stay in `inbound`.
@@ -57,6 +62,44 @@ where
 {
     broker_info::client_inc();
 
+    let mut outbound = BytesMut::new();
+    let result = serve_client(
+        read_stream,
+        &mut writer,
+        &mut outbound,
+        message_bridge,
+        &cancellation,
+    )
+    .await;
+
+    // What was answered before the connection ended still belongs to the client
+    select! {
+        () = cancellation.cancelled() => {}
+        res = tokio::time::timeout(FLUSH_TIMEOUT, writer.write_all(&outbound)) => {
+            if !matches!(res, Ok(Ok(()))) {
+                debug!("Client did not take the last {} bytes", outbound.len());
+            }
+        }
+    }
+
+    broker_info::client_dec();
+
+    debug!("Client: disconnect");
+
+    result
+}
+
+async fn serve_client<R, W>(
+    read_stream: R,
+    writer: &mut W,
+    outbound: &mut BytesMut,
+    message_bridge: Sender<Command>,
+    cancellation: &CancellationToken,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
@@ -64,11 +107,16 @@ where
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut inbound = BytesMut::new();
+    let mut writable = true;
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
 
     'ctrl: loop {
+        if !writable {
+            outbound.clear();
+        }
+
         select! {
             () = cancellation.cancelled() => {
                 break 'ctrl;
@@ -76,7 +124,17 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = read_frame(&mut reader, &mut inbound) => {
+            written = writer.write_buf(outbound), if writable && !outbound.is_empty() => {
+                match written {
+                    Ok(len) if len > 0 => debug!("Wrote {} bytes", len),
+                    _ => {
+                        // Nothing can be said to this client any more, what it sent before still counts
+                        debug!("Connection lost");
+                        writable = false;
+                    }
+                }
+            }
+            buffer = read_frame(&mut reader, &mut inbound), if !writable || outbound.len() < MAX_OUTBOUND => {
                 let packet = match buffer {
                     Ok(Some(bytes)) => {
                         let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
@@ -106,8 +164,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                outbound.put(resp);
 
                                 break 'ctrl;
                             }
@@ -137,8 +194,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
-                          debug!("Wrote {} bytes", len);
+                          outbound.put(resp);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -161,8 +217,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outbound.put(resp);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -185,8 +240,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outbound.put(resp);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             message_bridge
@@ -212,26 +266,22 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                outbound.put(resp);
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outbound.put(resp);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outbound.put(resp);
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outbound.put(resp);
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -252,12 +302,11 @@ where
                         }
                     }
             }
-            event = rx.recv() => {
+            event = rx.recv(), if writable && outbound.len() < MAX_OUTBOUND => {
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
-                            debug!("Wrote {} bytes",len);
+                            outbound.put(msg);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
@@ -267,9 +316,5 @@ where
         }
     }
 
-    broker_info::client_dec();
-
-    debug!("Client: disconnect");
-
     Ok(())
 }
-- 
2.43.0


From 0eacd66d59a2a7687e1a63c3a99b3cb3e46304f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 04/22] fix: encode remaining lengths of four bytes

The limit counted the fixed header byte already in the buffer, so the last
byte of a four byte length was left out.
---
 src/packets/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index a881e48..ae3b61b 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -151,9 +151,10 @@ where
 }
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
+    let start = bytes.len();
     let mut mlen = len;
     loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
+        if bytes.len() - start + 1 > MAX_ENCODED_BYTES {
             return;
         }
 
-- 
2.43.0


From 6587dfff47243f8e7874136764818200cba186bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 05/22] fix: refuse fixed header flags and packet identifiers
 the protocol forbids

---
 src/packets/headers/fixed_header.rs | 19 +++++++++++++++++++
 src/packets/mod.rs                  | 29 ++++++++++++++++++-----------
 src/packets/utils.rs                | 11 +++++++++++
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..95bf30f 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -141,6 +141,25 @@ impl FixedHeader {
     pub fn get_retain(&self) -> bool {
         self.flags & 0x01 == 1
     }
+    /// Check that the flags are the ones the packet type allows
+    pub fn validate(&self) -> Result<(), MqttError> {
+        let flags = self.flags & 0x0F;
+        let valid = match self.get_packet_type()? {
+            PacketType::Publish => {
+                let qos = self.get_qos()?;
+                // DUP must be 0 for all QoS 0 messages
+                qos != QosLevel::AtMost || !self.get_dup()
+            }
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => flags == 0x02,
+            _ => flags == 0,
+        };
+
+        if valid {
+            Ok(())
+        } else {
+            Err(MqttError::MalformedHeader)
+        }
+    }
     pub fn get_remaing_len(&self) -> usize {
         self.remaining_len
     }
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 0c7f9c1..b45b794 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,7 +12,8 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, take_len, unpack_bytes, unpack_properties, unpack_string, unpack_u16,
+        encode_length, take_len, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string,
+        unpack_u16,
     },
 };
 
@@ -344,6 +345,8 @@ impl VariableHeader {
     where
         I: Iterator<Item = &'a u8>,
     {
+        fixed.validate()?;
+
         match fixed.get_packet_type()? {
             PacketType::Connect => {
                 //  ===== Start Connect header =======
@@ -484,7 +487,7 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
-                    let id = Some(unpack_u16(iter)?);
+                    let id = Some(unpack_packet_id(iter)?);
                     len = take_len(len, size_of::<u16>())?;
                     id
                 } else {
@@ -510,7 +513,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Puback => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubAck {
                     packet_id: id,
                     reason_string: None,
@@ -518,7 +521,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrec => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubRec {
                     packet_id: id,
                     reason_code: PubRecReasonCode::Success,
@@ -527,7 +530,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrel => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubRel {
                     packet_id: id,
                     reason_code: PubReasonCode::Success,
@@ -536,7 +539,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubcomp => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubComp {
                     packet_id: id,
                     reason_code: PubReasonCode::Success,
@@ -545,14 +548,14 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
+                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
                     return Err(MqttError::MalformedHeader);
                 }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
 
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = take_len(len, size_of::<u16>())?;
 
                 // # Payload
@@ -588,7 +591,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Suback => {
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
 
                 let mut len = take_len(fixed.get_remaing_len(), size_of::<u16>())?;
 
@@ -611,7 +614,7 @@ impl VariableHeader {
             PacketType::Unsubscribe => {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = take_len(len, size_of::<u16>())?;
 
                 while len > 0 {
@@ -623,6 +626,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
@@ -630,7 +637,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Unsuback => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::UnsubAck {
                     packet_id: id,
                     reason_string: None,
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index ae3b61b..7ce1992 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -15,6 +15,17 @@ fn format_unpack_u16_error(e: Vec<u8>) -> MqttError {
     MqttError::RequiredByteMissing("Missing u16 byte(s)")
 }
 
+/// Unpack a packet identifier, which is never 0
+pub fn unpack_packet_id<'a, I>(iter: &mut I) -> Result<u16, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    match unpack_u16(iter)? {
+        0 => Err(MqttError::ProtocolViolation),
+        id => Ok(id),
+    }
+}
+
 /// Unpack a bytes into a u16
 ///
 /// Integer data values are 16 bits in big-endian order: the high order byte precedes the lower order byte.
-- 
2.43.0


From 1ade8d4e58e45bf861620f0e9d82dae8336904d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 06/22] fix: refuse topic names that are empty or hold
 wildcards, and null characters

---
 src/packets/mod.rs   | 4 ++++
 src/packets/utils.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index b45b794..c389ab4 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -480,6 +480,10 @@ impl VariableHeader {
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
 
+                if topic.is_empty() || topic.contains(['+', '#']) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 /*
                  * Message len is calculated subtracting the length of the variable header
                  * from the Remaining Length field that is in the Fixed Header
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 7ce1992..e1a2dac 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -122,6 +122,11 @@ where
         return Err(MqttError::MissingByte);
     }
 
+    // A string must not include the null character U+0000
+    if chars.contains(&0) {
+        return Err(MqttError::ProtocolViolation);
+    }
+
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
     Ok(result)
-- 
2.43.0


From 40b79cdd8b86fff014eedb684446fe35bed4bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 07/22] fix: take will message and password as the binary data
 they are

A will payload or password that is not UTF-8 made the broker drop the client.
---
 src/packets/mod.rs   | 16 ++++++++--------
 src/packets/utils.rs | 10 ++++++++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index c389ab4..c031f76 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,8 +12,8 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, take_len, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string,
-        unpack_u16,
+        encode_length, take_len, unpack_binary, unpack_bytes, unpack_packet_id, unpack_properties,
+        unpack_string, unpack_u16,
     },
 };
 
@@ -73,9 +73,9 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -251,7 +251,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -265,7 +265,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -409,7 +409,7 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    let will_payload = unpack_binary(iter)?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
@@ -423,7 +423,7 @@ impl VariableHeader {
                 };
 
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    Some(unpack_binary(iter)?)
                 } else {
                     None
                 };
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index e1a2dac..ead73c3 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -103,6 +103,16 @@ where
     Ok(data)
 }
 
+/// Read binary data that is prefixed with its length as a Two Byte Integer
+pub fn unpack_binary<'a, I>(iter: &mut I) -> Result<bytes::Bytes, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    let len = usize::from(unpack_u16(iter)?);
+
+    unpack_bytes(iter, len)
+}
+
 /// Take `used` bytes off what is left of a packet, failing when the packet is not that long
 pub fn take_len(len: usize, used: usize) -> Result<usize, MqttError> {
     len.checked_sub(used).ok_or(MqttError::MissingByte)
-- 
2.43.0


From 975f669c15a45d5521b5544b30dcad5c609c926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 08/22] fix: refuse connect flags that contradict each other

---
 src/packets/headers/connect.rs | 11 +++++++++++
 src/packets/mod.rs             |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/packets/headers/connect.rs b/src/packets/headers/connect.rs
index ac94af9..9d5352f 100644
--- a/src/packets/headers/connect.rs
+++ b/src/packets/headers/connect.rs
@@ -33,6 +33,17 @@ impl Flags {
         self.0 & 0x1 == 1
     }
 
+    /// Without a will there is neither a will QoS nor a will to retain,
+    /// and without a user name there is no password
+    pub fn consistent(&self) -> bool {
+        let will = match self.will_qos() {
+            Ok(qos) => self.will() || (qos == QosLevel::AtMost && !self.will_retain()),
+            Err(_) => false,
+        };
+
+        will && (self.has_username() || !self.has_password())
+    }
+
     /// #### Clean Start or Clean Session
     /// This bit specifies whether the Connection starts a new Session or is a continuation of an existing Session.
     pub fn clean_session(&self) -> bool {
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index c031f76..1796761 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -373,7 +373,7 @@ impl VariableHeader {
                         .ok_or_else(|| MqttError::RequiredByteMissing("Missing connect flags"))?,
                 );
 
-                if flags.validate_flags() {
+                if flags.validate_flags() || !flags.consistent() {
                     return Err(MqttError::MalformedHeader);
                 }
 
-- 
2.43.0


From aa3e6b4ba22667f775c374982e1b94d8a6d2c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 09/22] fix: answer CONNECT as specified and take nothing
 before it

Packets ahead of CONNECT were acted on, a refused CONNECT got no CONNACK with
the reason, and a second CONNECT got one more CONNACK.
---
 src/handler.rs     | 26 ++++++++++++++++++++++----
 src/packets/mod.rs | 13 +------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 38d399e..d39094d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -137,9 +137,20 @@ where
             buffer = read_frame(&mut reader, &mut inbound), if !writable || outbound.len() < MAX_OUTBOUND => {
                 let packet = match buffer {
                     Ok(Some(bytes)) => {
-                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
+                        let (packet, packet_size) = match Packet::unpack(&bytes, protocol) {
+                            Err(MqttError::UnacceptableProtocolLevel) if !has_connected => {
+                                outbound.put(Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal, false));
+                                break 'ctrl;
+                            }
+                            unpacked => unpacked?,
+                        };
                         broker_info::sent_data(packet_size);
 
+                        // The first packet a client sends must be a CONNECT
+                        if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                            return Err(MqttError::ProtocolViolation);
+                        }
+
                         packet
                     }
                     Ok(None) => {
@@ -162,13 +173,20 @@ where
                                 debug!("Seen connect packet two times!");
                                 //  Client can only send the CONNECT Packet once over a Network Connection.
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
-                                let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
-
-                                outbound.put(resp);
+                                break 'ctrl;
+                            }
 
+                            if client_id.is_empty() && !flags.clean_session() {
+                                outbound.put(Packet::make_connack(ConnectReturnCode::V4IdentifierRejected, false));
                                 break 'ctrl;
                             }
 
+                            let client_id = if client_id.is_empty() {
+                                uuid::Uuid::new_v4().to_string()
+                            } else {
+                                client_id
+                            };
+
                             protocol = protocol_version;
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 1796761..dd0706f 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -388,18 +388,7 @@ impl VariableHeader {
                 //  ===== End Connect header =======
                 //  ===== Start Connect Payload =====
 
-                let client_id = {
-                    let id = unpack_string(iter)?;
-
-                    if id.is_empty() {
-                        if !flags.clean_session() {
-                            return Err(MqttError::ClientIdentifierRejected);
-                        }
-                        uuid::Uuid::new_v4().to_string()
-                    } else {
-                        id
-                    }
-                };
+                let client_id = unpack_string(iter)?;
 
                 let (will_topic, will_message, will_props) = if flags.will() {
                     let props = if protocol_version == ProtocalVersion::Five {
-- 
2.43.0


From 45b84e1cf36524c404ebcedf37e8b45096d38516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 10/22] fix: measure the keep-alive as specified

Only PINGREQ counted as a sign of life, a keep-alive of 0 dropped the client
after four seconds instead of never, and the allowance was four seconds
instead of half the keep-alive.
---
 src/handler.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index d39094d..a4a190e 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -100,7 +100,7 @@ where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
 {
-    let mut keepalive_duration: u64 = 60;
+    let mut keepalive_duration: u64 = 60_000;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
@@ -121,7 +121,7 @@ where
             () = cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            () = &mut keepalive_timer, if keepalive_duration > 0 => {
                 break 'ctrl;
             }
             written = writer.write_buf(outbound), if writable && !outbound.is_empty() => {
@@ -151,6 +151,10 @@ where
                             return Err(MqttError::ProtocolViolation);
                         }
 
+                        if has_connected {
+                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_millis(keepalive_duration));
+                        }
+
                         packet
                     }
                     Ok(None) => {
@@ -207,8 +211,9 @@ where
 
                           r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // A client may be silent for one and a half times its keep alive, or forever when that is 0
+                          keepalive_duration = (keepalive as u64) * 1500;
+                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_millis(keepalive_duration));
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
@@ -297,7 +302,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             outbound.put(resp);
                         },
-- 
2.43.0


From e73581c19aabf2cceb0259a0b31ae14b95d25cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 11/22] fix: match the '+' branch against all remaining levels

The branch of the literal level had already advanced the shared iterator, so
'+' filters missed messages or matched the wrong ones when both exist.
---
 src/topic_heir.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..73d16e1 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -114,15 +114,16 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
-    pub fn get(
+    pub fn get<'a>(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        iter: &mut (impl std::iter::Iterator<Item = &'a String> + Clone),
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
         if let Some(topic) = iter.next() {
-            if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+            // Every branch has to match the rest of the levels on its own
+            if let Some(child) = self.children.get(topic) {
+                child.get(&mut iter.clone(), subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
@@ -208,11 +209,11 @@ impl SubscriptionTree {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
-        let mut iter = filter_list.into_iter();
+        let mut iter = filter_list.iter();
 
         if let Some(topic) = iter.next() {
-            if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+            if let Some(child) = self.0.get(topic) {
+                child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-- 
2.43.0


From 39c1b2fd018b649e1f8b43e02edb42141e71c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 12/22] fix: keep wildcards at the first level off topics
 starting with '$'

---
 src/topic_heir.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 73d16e1..9e8d9e0 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -215,6 +215,11 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(topic) {
                 child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
+            // A filter that starts with a wildcard does not match a topic that starts with '$'
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
+
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(&mut iter, &mut subscribers, &sharename);
-- 
2.43.0


From c2d3eedf457bbb4199a81f71ddc0c58395c0f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 13/22] fix: refuse topic filters that are not valid or too
 deep

Misplaced wildcards and the empty filter were granted, and a filter with
thousands of levels overflowed the stack, ending the broker.
---
 src/topic_heir.rs |  1 +
 src/utils.rs      | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 9e8d9e0..8dd6340 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -174,6 +174,7 @@ impl SubscriptionTree {
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
+        utils::validate_filter(&filter_list)?;
 
         let mut iter = filter_list.into_iter();
 
diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..81e7168 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,32 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// How many levels a topic filter may have
+const MAX_FILTER_LEVELS: usize = 200;
+
+/// Check the levels of a topic filter: wildcards have to take up a whole level, '#' the last one
+pub fn validate_filter(levels: &[String]) -> Result<(), u8> {
+    let last = levels.len().saturating_sub(1);
+
+    if levels.len() > MAX_FILTER_LEVELS || (last == 0 && levels.iter().all(|x| x.is_empty())) {
+        return Err(1);
+    }
+
+    for (idx, level) in levels.iter().enumerate() {
+        let valid = match level.as_str() {
+            "+" => true,
+            "#" => idx == last,
+            name => !name.contains(['+', '#']),
+        };
+
+        if !valid {
+            return Err(1);
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6b9e6f3bf139a624b10f653f144ce3ad48bad655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 14/22] fix: deliver at the highest qos of all matching
 subscriptions

---
 src/topic_heir.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 8dd6340..363a664 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -31,6 +31,15 @@ impl SubscriptionLeaf {
             //retain_as_published,
         }
     }
+
+    /// Add the subscriber once, at the highest qos of all its matching subscriptions
+    fn add_to(&self, subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>) {
+        if let Some(known) = subscribers.iter_mut().find(|e| e.0 == self.identifier) {
+            known.2 = known.2.max(self.qos);
+        } else {
+            subscribers.push((self.identifier, self.bridge.clone(), self.qos));
+        }
+    }
 }
 
 #[derive(Debug)]
@@ -132,16 +141,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    x.add_to(subscribers);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                x.add_to(subscribers);
             }
         }
 
@@ -149,16 +154,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        x.add_to(subscribers);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    x.add_to(subscribers);
                 }
             }
         }
@@ -232,16 +233,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        x.add_to(&mut subscribers);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    x.add_to(&mut subscribers);
                 }
             }
         }
-- 
2.43.0


From a60246ca52243940540c7b0cd9039926f5b4b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 15/22] fix: deliver at the qos of the message, with a packet
 identifier

Deliveries used the subscription's qos even for messages published at a lower
one, and above qos 0 they had no packet identifier, so that clients took the
first two payload bytes for it.
---
 src/core/enums.rs |  7 +++++-
 src/core/mod.rs   | 18 +++++++--------
 src/handler.rs    | 56 ++++++++++++++++++++++++++++++++++++++++++-----
 src/main.rs       |  6 ++++-
 4 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..37a952a 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -25,6 +25,7 @@ pub enum Command {
 
     Publish {
         topic: String,
+        qos: QosLevel,
         payload: Bytes,
     },
     Unsubscribe {
@@ -38,7 +39,11 @@ pub enum Command {
 
 #[derive(Debug)]
 pub enum ClientEvent {
-    Message(Bytes),
+    Message {
+        topic: String,
+        qos: QosLevel,
+        payload: Bytes,
+    },
     Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..ad2dcfd 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -6,10 +6,7 @@ use tokio::sync::mpsc::Sender;
 
 use crate::{
     error::MqttError,
-    packets::{
-        enums::{QosLevel, SubackReturnCode},
-        Packet,
-    },
+    packets::enums::{QosLevel, SubackReturnCode},
     topic_heir::{SubscriptionLeaf, SubscriptionTree},
 };
 
@@ -135,7 +132,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub async fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -143,10 +140,13 @@ impl App {
             }
         };
 
-        for (_, bridge, qos) in subs {
-            let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
+        for (_, bridge, max_qos) in subs {
+            let message = ClientEvent::Message {
+                topic: topic.clone(),
+                qos: qos.min(max_qos),
+                payload: payload.clone(),
+            };
+            if let Err(e) = bridge.send(message).await {
                 log::error!("receiver dropped: {}", e);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index a4a190e..ae01e68 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{collections::HashMap, time::Duration};
 
 use bytes::{BufMut, BytesMut};
 use log::{debug, error};
@@ -27,6 +27,41 @@ const MAX_OUTBOUND: usize = 64 * 1024;
 /// How long a connection that ends may take to accept what is still to be written to it
 const FLUSH_TIMEOUT: Duration = Duration::from_secs(1);
 
+/// The packet identifiers of the messages a client has not acknowledged yet
+#[derive(Default)]
+struct Inflight {
+    last_id: u16,
+    unacknowledged: HashMap<u16, QosLevel>,
+}
+
+impl Inflight {
+    fn is_full(&self) -> bool {
+        self.unacknowledged.len() == usize::from(u16::MAX)
+    }
+
+    /// Find a packet identifier that is not in use
+    fn acquire(&mut self, qos: QosLevel) -> Result<u16, MqttError> {
+        if self.is_full() {
+            return Err(MqttError::Unknown);
+        }
+
+        loop {
+            self.last_id = self.last_id.wrapping_add(1);
+            if self.last_id != 0 && !self.unacknowledged.contains_key(&self.last_id) {
+                self.unacknowledged.insert(self.last_id, qos);
+                return Ok(self.last_id);
+            }
+        }
+    }
+
+    /// A message sent with `qos` has been acknowledged
+    fn release(&mut self, packet_id: u16, qos: QosLevel) {
+        if self.unacknowledged.get(&packet_id) == Some(&qos) {
+            self.unacknowledged.remove(&packet_id);
+        }
+    }
+}
+
 /// Read until `inbound` starts with a whole packet and take it, `None` at the end of the stream.
 ///
 /// Cancel safe: bytes already read stay in `inbound`.
@@ -108,6 +143,7 @@ where
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut inbound = BytesMut::new();
     let mut writable = true;
+    let mut inflight = Inflight::default();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -266,15 +302,18 @@ where
                             outbound.put(resp);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            let qos = packet.fixed.get_qos()?;
+
                             message_bridge
                             .send(Command::Publish {
                                 topic,
+                                qos,
                                 payload,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
@@ -300,7 +339,8 @@ where
                             let resp = Packet::make_pubcomp(packet_id);
                             outbound.put(resp);
                         },
-                        VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
+                        VariableHeader::PubComp { packet_id, .. } => inflight.release(packet_id, QosLevel::Exactly),
+                        VariableHeader::PubAck { packet_id, .. } => inflight.release(packet_id, QosLevel::AtLeast),
                         VariableHeader::PingReq => {
                             let resp = Packet::make_ping_resp();
                             outbound.put(resp);
@@ -324,11 +364,15 @@ where
                         }
                     }
             }
-            event = rx.recv(), if writable && outbound.len() < MAX_OUTBOUND => {
+            event = rx.recv(), if writable && outbound.len() < MAX_OUTBOUND && !inflight.is_full() => {
                 if let Some(ev) = event {
                     match ev {
-                        ClientEvent::Message(msg) => {
-                            outbound.put(msg);
+                        ClientEvent::Message { topic, qos, payload } => {
+                            let packet_id = match qos {
+                                QosLevel::AtMost => None,
+                                qos => Some(inflight.acquire(qos)?),
+                            };
+                            outbound.put(Packet::make_publish(false, qos, false, topic, packet_id, payload));
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..94f8828 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    qos,
+                    payload,
+                } => context.publish(topic, qos, payload).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From da222240d6bd85c64230b5d4274bce3fca88b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 16/22] fix: pass a qos 2 message on once however often it is
 sent

---
 src/handler.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index ae01e68..fbd31d7 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, time::Duration};
+use std::{
+    collections::{HashMap, HashSet},
+    time::Duration,
+};
 
 use bytes::{BufMut, BytesMut};
 use log::{debug, error};
@@ -144,6 +147,7 @@ where
     let mut inbound = BytesMut::new();
     let mut writable = true;
     let mut inflight = Inflight::default();
+    let mut received = HashSet::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -304,14 +308,22 @@ where
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             let qos = packet.fixed.get_qos()?;
 
-                            message_bridge
-                            .send(Command::Publish {
-                                topic,
-                                qos,
-                                payload,
-                            })
-                            .await
-                            .map_err(MqttError::ChannelError)?;
+                            // A qos 2 message sent again before its PUBREL has been passed on already
+                            let repeated = match packet_id {
+                                Some(id) if qos == QosLevel::Exactly => !received.insert(id),
+                                _ => false,
+                            };
+
+                            if !repeated {
+                                message_bridge
+                                .send(Command::Publish {
+                                    topic,
+                                    qos,
+                                    payload,
+                                })
+                                .await
+                                .map_err(MqttError::ChannelError)?;
+                            }
 
                             let data = match qos {
                                 QosLevel::AtMost => None,
@@ -336,6 +348,7 @@ where
                             outbound.put(resp);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            received.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
                             outbound.put(resp);
                         },
-- 
2.43.0


From 654f5771df574222fdce1d79c88b3a2479e5f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 17/22] fix: end sessions with their connection, tell them
 apart by connection

Subscriptions outlived their client and went on under its id, a broken
connection left its session behind, and an old connection's end or requests
hit the session that had replaced it.
---
 src/core/enums.rs   | 11 ++++++--
 src/core/mod.rs     | 68 ++++++++++++++++++++++++++-------------------
 src/core/session.rs | 15 ++++++++--
 src/handler.rs      | 41 ++++++++++++++++++---------
 src/main.rs         | 22 +++++++++------
 5 files changed, 103 insertions(+), 54 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 37a952a..5b37d26 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -1,4 +1,5 @@
 use bytes::Bytes;
+use tokio_util::sync::CancellationToken;
 
 use crate::packets::enums::QosLevel;
 use crate::{error::MqttError, packets::enums::SubackReturnCode};
@@ -12,13 +13,17 @@ pub enum Command {
     RegisterClient {
         id: String,
         message_channel: Receiver<ClientEvent>,
+        /// Cancelled when another connection takes the client id over
+        cancellation: CancellationToken,
         protocol: ProtocalVersion,
         clean_session: bool,
-        callback: Responder<Result<(), MqttError>>,
+        /// Gets the id of the new session, which the client's further commands belong to
+        callback: Responder<Result<u128, MqttError>>,
     },
 
     Subscribe {
         client: String,
+        session: u128,
         topics: Vec<(String, QosLevel)>,
         callback: Responder<Result<Vec<SubackReturnCode>, MqttError>>,
     },
@@ -31,9 +36,10 @@ pub enum Command {
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
+        session: u128,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    DisconnectClient(String, u128),
     Exit,
 }
 
@@ -44,7 +50,6 @@ pub enum ClientEvent {
         qos: QosLevel,
         payload: Bytes,
     },
-    Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index ad2dcfd..b798be5 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use log::{debug, error};
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 
 use crate::{
     error::MqttError,
@@ -36,12 +37,13 @@ impl App {
     pub fn subscribe(
         &mut self,
         cid: String,
+        session: u128,
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
-        let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
-            None => {
+        let current = match self.sessions.get_mut(&cid) {
+            Some(current) if current.id == session => current,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -51,10 +53,11 @@ impl App {
         let codes = topics
             .into_iter()
             .map(|(topic, qos)| {
-                let leaf = SubscriptionLeaf::new(qos, id, bridge.clone());
-                if self.subscriptions.insert(topic, leaf).is_err() {
+                let leaf = SubscriptionLeaf::new(qos, current.id, current.bridge.clone());
+                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                     return SubackReturnCode::Failure;
                 }
+                current.filters.insert(topic);
                 match qos {
                     QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                     QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
@@ -72,12 +75,13 @@ impl App {
     pub fn unsubscribe(
         &mut self,
         cid: String,
+        session: u128,
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
-        let id = match self.sessions.get(&cid) {
-            Some(session) => session.id,
-            None => {
+        let current = match self.sessions.get_mut(&cid) {
+            Some(current) if current.id == session => current,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -86,7 +90,8 @@ impl App {
         };
 
         topics.into_iter().for_each(|topic| {
-            if self.subscriptions.delete(topic, id).is_err() {
+            current.filters.remove(&topic);
+            if self.subscriptions.delete(topic, current.id).is_err() {
                 error!("Failed to delete subscription from tree");
             }
         });
@@ -96,40 +101,47 @@ impl App {
         }
     }
 
-    pub async fn connect(
+    pub fn connect(
         &mut self,
         client_id: String,
         message_channel: Sender<ClientEvent>,
+        cancellation: CancellationToken,
         _protocol: ProtocalVersion,
         _clean_session: bool,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        callback: tokio::sync::oneshot::Sender<Result<u128, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
-        if self.sessions.contains_key(&client_id) {
-            if let Some(current_client) = self.sessions.get(&client_id) {
-                if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {
-                    error!("{}", err);
-                }
-            }
+        // Sessions are not kept: whoever used the id before is closed, the new session starts empty
+        if let Some(current_client) = self.sessions.remove(&client_id) {
+            current_client.cancellation.cancel();
+            self.forget(current_client);
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel));
-        }
+        let session = Session::new(message_channel, cancellation);
+        let id = session.id;
+        self.sessions.insert(client_id, session);
 
-        if callback.send(Ok(())).is_err() {
+        if callback.send(Ok(id)).is_err() {
             log::error!("Client no longer exists");
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
+    /// End a session, unless another one has replaced it
+    pub fn disconnect(&mut self, cid: String, session: u128) {
+        if self.sessions.get(&cid).is_some_and(|x| x.id == session) {
+            if let Some(client) = self.sessions.remove(&cid) {
+                self.forget(client);
+            }
+        }
+    }
 
-        }*/
-        self.sessions.remove(&cid);
+    /// Drop the subscriptions of a session that has ended
+    fn forget(&mut self, session: Session) {
+        session.filters.into_iter().for_each(|topic| {
+            if self.subscriptions.delete(topic, session.id).is_err() {
+                error!("Failed to delete subscription from tree");
+            }
+        });
     }
 
     pub async fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..0197c2a 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,4 +1,7 @@
+use std::collections::HashSet;
+
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 use uuid::Uuid;
 
 use super::enums::ClientEvent;
@@ -6,12 +9,20 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    pub cancellation: CancellationToken,
+    /// The topic filters the client is subscribed to
+    pub filters: HashSet<String>,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, cancellation: CancellationToken) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            cancellation,
+            filters: HashSet::new(),
+        }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index fbd31d7..e2cdf09 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -100,24 +100,37 @@ where
 {
     broker_info::client_inc();
 
+    // Ends this connection alone, when another one takes its client id over
+    let cancellation = cancellation.child_token();
     let mut outbound = BytesMut::new();
+    let mut session = None;
     let result = serve_client(
         read_stream,
         &mut writer,
         &mut outbound,
-        message_bridge,
+        &mut session,
+        &message_bridge,
         &cancellation,
     )
     .await;
 
+    // However the connection ended, its session ends with it
+    if let Some((cid, id)) = session {
+        let command = Command::DisconnectClient(cid, id);
+        if message_bridge.send(command).await.is_err() {
+            debug!("Receiver dropped!");
+        }
+    }
+
     // What was answered before the connection ended still belongs to the client
     select! {
-        () = cancellation.cancelled() => {}
+        biased;
         res = tokio::time::timeout(FLUSH_TIMEOUT, writer.write_all(&outbound)) => {
             if !matches!(res, Ok(Ok(()))) {
                 debug!("Client did not take the last {} bytes", outbound.len());
             }
         }
+        () = cancellation.cancelled() => {}
     }
 
     broker_info::client_dec();
@@ -131,7 +144,8 @@ async fn serve_client<R, W>(
     read_stream: R,
     writer: &mut W,
     outbound: &mut BytesMut,
-    message_bridge: Sender<Command>,
+    session: &mut Option<(String, u128)>,
+    message_bridge: &Sender<Command>,
     cancellation: &CancellationToken,
 ) -> Result<(), MqttError>
 where
@@ -141,7 +155,6 @@ where
     let mut keepalive_duration: u64 = 60_000;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
-    let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut inbound = BytesMut::new();
@@ -233,13 +246,13 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
-                            cid = Some(client_id.clone());
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<u128, MqttError>>();
 
                             if message_bridge
                             .send(Command::RegisterClient {
-                                id: client_id,
+                                id: client_id.clone(),
                                 message_channel: tx.clone(),
+                                cancellation: cancellation.clone(),
                                 protocol,
                                 clean_session: flags.clean_session(),
                                 callback: r_tx,
@@ -249,7 +262,8 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let session_id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          *session = Some((client_id, session_id));
                           has_connected = true;
                           // A client may be silent for one and a half times its keep alive, or forever when that is 0
                           keepalive_duration = (keepalive as u64) * 1500;
@@ -260,13 +274,14 @@ where
                           outbound.put(resp);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
+                            let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             let (r_tx, r_rx) =
                             tokio::sync::oneshot::channel::<Result<Vec<SubackReturnCode>, MqttError>>();
 
                             if message_bridge
                             .send(Command::Subscribe {
                                 client: id.clone(),
+                                session: *session,
                                 topics: tuples,
                                 callback: r_tx,
                             })
@@ -283,7 +298,7 @@ where
                             outbound.put(resp);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
+                            let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
 
@@ -291,6 +306,7 @@ where
                                 .send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
+                                    session: *session,
                                     callback: r_tx,
                                 })
                                 .await
@@ -360,9 +376,9 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
+                            let (id, session) = session.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
+                            .send(Command::DisconnectClient(id.clone(), *session))
                             .await
                             .is_err()
                             {
@@ -387,7 +403,6 @@ where
                             };
                             outbound.put(Packet::make_publish(false, qos, false, topic, packet_id, payload));
                         },
-                        ClientEvent::Disconnect => break 'ctrl,
                     }
                 }
 
diff --git a/src/main.rs b/src/main.rs
index 94f8828..b6d1d33 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -59,19 +59,24 @@ async fn main() -> Result<(), MqttError> {
                 Command::RegisterClient {
                     id,
                     message_channel,
+                    cancellation,
                     protocol,
                     clean_session,
                     callback,
-                } => {
-                    context
-                        .connect(id, message_channel, protocol, clean_session, callback)
-                        .await
-                }
+                } => context.connect(
+                    id,
+                    message_channel,
+                    cancellation,
+                    protocol,
+                    clean_session,
+                    callback,
+                ),
                 Command::Subscribe {
                     client,
+                    session,
                     topics,
                     callback,
-                } => context.subscribe(client, topics, callback),
+                } => context.subscribe(client, session, topics, callback),
 
                 Command::Publish {
                     topic,
@@ -81,9 +86,10 @@ async fn main() -> Result<(), MqttError> {
                 Command::Unsubscribe {
                     topics,
                     cid,
+                    session,
                     callback,
-                } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                } => context.unsubscribe(cid, session, topics, callback),
+                Command::DisconnectClient(cid, session) => context.disconnect(cid, session),
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From 9cf842821c0cc598ca228353d2b4b630d5575019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 18/22] fix: do not let a client that takes no messages stop
 the broker

The command loop waited for room in the client's queue; a client that stopped
reading, or published to itself, brought it to a standstill.
---
 src/core/mod.rs | 7 ++++---
 src/handler.rs  | 4 +++-
 src/main.rs     | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index b798be5..84b13e3 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -144,7 +144,7 @@ impl App {
         });
     }
 
-    pub async fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
+    pub fn publish(&self, topic: String, qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -158,8 +158,9 @@ impl App {
                 qos: qos.min(max_qos),
                 payload: payload.clone(),
             };
-            if let Err(e) = bridge.send(message).await {
-                log::error!("receiver dropped: {}", e);
+            // Waiting for one client would hold up all of them
+            if let Err(e) = bridge.try_send(message) {
+                log::error!("receiver dropped or not taking messages: {}", e);
             }
         }
     }
diff --git a/src/handler.rs b/src/handler.rs
index e2cdf09..c1c3fb1 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -27,6 +27,8 @@ use crate::{
 
 /// How many bytes may wait to be written to a client before its packets and messages have to wait too
 const MAX_OUTBOUND: usize = 64 * 1024;
+/// How many messages may wait for a client before further ones are dropped
+const MAX_QUEUED: usize = 65_536;
 /// How long a connection that ends may take to accept what is still to be written to it
 const FLUSH_TIMEOUT: Duration = Duration::from_secs(1);
 
@@ -161,7 +163,7 @@ where
     let mut writable = true;
     let mut inflight = Inflight::default();
     let mut received = HashSet::new();
-    let (tx, mut rx) = channel::<ClientEvent>(100);
+    let (tx, mut rx) = channel::<ClientEvent>(MAX_QUEUED);
 
     tokio::pin!(keepalive_timer);
 
diff --git a/src/main.rs b/src/main.rs
index b6d1d33..0b0c921 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -82,7 +82,7 @@ async fn main() -> Result<(), MqttError> {
                     topic,
                     qos,
                     payload,
-                } => context.publish(topic, qos, payload).await,
+                } => context.publish(topic, qos, payload),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From e23afc6ec50e41282dff01aca8b5c4ef4c1e8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 19/22] fix: listen for the interrupt all the time

Between two turns of the accept loop nobody listened, an interrupt arriving
just then was lost.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0b0c921..ceabe87 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,6 +97,10 @@ async fn main() -> Result<(), MqttError> {
         debug!("Exiting Command loop");
     });
 
+    // Kept over all turns of the loop, so that no interrupt goes unnoticed between two of them
+    let interrupt = tokio::signal::ctrl_c();
+    tokio::pin!(interrupt);
+
     loop {
         select! {
             res = listener.accept() => {
@@ -113,7 +117,7 @@ async fn main() -> Result<(), MqttError> {
                     });
                 }
             }
-            _ = tokio::signal::ctrl_c() => {
+            _ = &mut interrupt => {
                 break;
             }
         }
-- 
2.43.0


From 20f1fb9a11832b0c495d2698bbe0eb552bc54fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 20/22] hook: codec entry point for the verification machinery,
 under cfg(verif)

---
 src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ceabe87..a0fd49d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -134,3 +134,18 @@ async fn main() -> Result<(), MqttError> {
 
     Ok(())
 }
+
+/// Entry points for the verification machinery, compiled only with `--cfg verif`.
+#[cfg(verif)]
+pub mod verif_hook {
+    use crate::{core::enums::ProtocalVersion, packets::Packet};
+
+    /// Decode the packet at the start of `bytes` and encode it again,
+    /// giving the encoding and the number of bytes decoding used.
+    pub fn recode(bytes: &[u8]) -> Result<(Vec<u8>, usize), String> {
+        let (packet, used) =
+            Packet::unpack(bytes, ProtocalVersion::Four).map_err(|e| e.to_string())?;
+
+        Ok((packet.pack().to_vec(), used))
+    }
+}
-- 
2.43.0


From 0cfd1fdf29e9fdceb417d6b93750258807787d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 21/22] fix: do not spend kilobytes on every level of a
 subscription

Every node of the subscription tree held two DashMaps, each of which allocates
its shards up front: a SUBSCRIBE of 400 kB with 1000 filters of 199 levels took
820 MB. The tree belongs to one task, plain maps do (130 MB).
---
 src/topic_heir.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 363a664..661445d 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -1,5 +1,5 @@
 use crate::{core::enums::ClientEvent, packets::enums::QosLevel, utils};
-use dashmap::DashMap;
+use std::collections::HashMap;
 use tokio::sync::mpsc::Sender;
 // https://github.com/eclipse/mosquitto/blob/master/src/mosquitto_broker_internal.h#L327
 // https://github.com/eclipse/mosquitto/blob/master/src/subs.c#L551
@@ -44,16 +44,16 @@ impl SubscriptionLeaf {
 
 #[derive(Debug)]
 struct SubHier {
-    children: DashMap<String, SubHier>,
+    children: HashMap<String, SubHier>,
     subs: Vec<SubscriptionLeaf>,
-    shared: DashMap<String, Vec<SubscriptionLeaf>>,
+    shared: HashMap<String, Vec<SubscriptionLeaf>>,
 }
 impl SubHier {
     pub fn new() -> Self {
         Self {
-            children: DashMap::new(),
+            children: HashMap::new(),
             subs: Vec::default(),
-            shared: DashMap::new(),
+            shared: HashMap::new(),
         }
     }
 
@@ -68,7 +68,7 @@ impl SubHier {
                 self.children.insert(topic.clone(), Self::new());
             }
 
-            if let Some(mut child) = self.children.get_mut(&topic) {
+            if let Some(child) = self.children.get_mut(&topic) {
                 child.insert(iter, sub, share);
             }
         } else if let Some(sharename) = share {
@@ -76,7 +76,7 @@ impl SubHier {
                 self.shared.insert(sharename.clone(), Vec::new());
             }
 
-            if let Some(mut s) = self.shared.get_mut(&sharename) {
+            if let Some(s) = self.shared.get_mut(&sharename) {
                 if let Some(idx) = s.iter().position(|e| e.identifier == sub.identifier) {
                     s.remove(idx);
                 }
@@ -101,17 +101,14 @@ impl SubHier {
         share: Option<String>,
     ) -> bool {
         if let Some(topic) = iter.next() {
-            if let Some(mut child) = self.children.get_mut(&topic) {
+            if let Some(child) = self.children.get_mut(&topic) {
                 let can_remove = child.delete(iter, identifer, share);
-                // map can deadlock if holding any sort of reference into the map
-                // so drop child to prevent deadlock
-                drop(child);
                 if can_remove {
                     self.children.remove(&topic);
                 }
             }
         } else if let Some(sharename) = share {
-            if let Some(mut s) = self.shared.get_mut(&sharename) {
+            if let Some(s) = self.shared.get_mut(&sharename) {
                 if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                     s.remove(idx);
                 }
@@ -167,11 +164,11 @@ impl SubHier {
 }
 
 #[derive(Debug)]
-pub struct SubscriptionTree(DashMap<String, SubHier>);
+pub struct SubscriptionTree(HashMap<String, SubHier>);
 
 impl SubscriptionTree {
     pub fn new() -> Self {
-        Self(DashMap::new())
+        Self(HashMap::new())
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
@@ -184,7 +181,7 @@ impl SubscriptionTree {
                 self.0.insert(topic.clone(), SubHier::new());
             }
 
-            let mut child = self.0.get_mut(&topic).unwrap();
+            let child = self.0.get_mut(&topic).unwrap();
             child.insert(iter, sub, sharename);
         }
         Ok(())
@@ -194,11 +191,8 @@ impl SubscriptionTree {
         let mut iter = filter_list.into_iter();
 
         if let Some(topic) = iter.next() {
-            if let Some(mut child) = self.0.get_mut(&topic) {
+            if let Some(child) = self.0.get_mut(&topic) {
                 let can_drop = child.delete(iter, sub, sharename);
-                // Map can deadlock if holding any sort of reference into the map
-                // so drop child to prevent deadlock
-                drop(child);
                 if can_drop {
                     self.0.remove(&topic);
                 }
-- 
2.43.0


From aad49026421e1f28b041d50a57884655ff6f613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 22/22] fix: drop a share group with its last subscription

The emptied group stayed, and kept every level above it in the tree.
---
 src/topic_heir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 661445d..da92ae5 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -112,6 +112,9 @@ impl SubHier {
                 if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                     s.remove(idx);
                 }
+                if s.is_empty() {
+                    self.shared.remove(&sharename);
+                }
             }
         } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
             self.subs.remove(idx);
-- 
2.43.0

