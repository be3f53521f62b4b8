From 90090dee1a05facf03ff7e7a40949e3d773ad870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 01/36] fix: native sink: write whole frames to the socket and
 notice failures

CodedOutputStream buffers internally and was never flushed, so payloads
below its buffer size were dropped on the floor together with any write
error. Serialize prefix and payload once, write_all them, and resend the
whole frame on a new connection when that fails. Failed connects now back
off, and an empty buffer no longer produces an empty payload, which the
receiving side takes for end of stream.
---
 src/sink/native.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..d46c67e 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -7,10 +7,9 @@ use crate::source::flushes_per_second;
 use crate::time;
 use byteorder::{BigEndian, ByteOrder};
 use protobuf::repeated::RepeatedField;
-use protobuf::stream::CodedOutputStream;
 use protobuf::Message;
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::Write;
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -171,22 +170,28 @@ impl Sink<NativeConfig> for Native {
             }
         }
 
+        if points.is_empty() && lines.is_empty() {
+            return;
+        }
+
         let mut pyld = Payload::new();
         pyld.set_points(RepeatedField::from_vec(points));
         pyld.set_lines(RepeatedField::from_vec(lines));
 
+        // Length prefix and payload are serialized up front so that a batch
+        // whose delivery fails part way through can be resent in full.
+        let pyld = pyld
+            .write_to_bytes()
+            .expect("could not serialize native payload");
+        let mut frame = vec![0; 4];
+        BigEndian::write_u32(&mut frame, pyld.len() as u32);
+        frame.extend_from_slice(&pyld);
+
         loop {
             let mut delivery_failure = false;
             if let Some(ref mut stream) = self.stream {
-                let mut bufwrite = BufWriter::new(stream);
-                let mut stream = CodedOutputStream::new(&mut bufwrite);
-                let mut sz_buf = [0; 4];
-                let pyld_len = pyld.compute_size();
-                BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
-                if res.is_ok() {
-                    self.buffer.clear();
+                if stream.write_all(&frame).is_ok() {
+                    self.delivery_attempts = 0;
                     return;
                 } else {
                     self.delivery_attempts = self.delivery_attempts.saturating_add(1);
@@ -195,6 +200,9 @@ impl Sink<NativeConfig> for Native {
             } else {
                 time::delay(self.delivery_attempts);
                 self.stream = connect(&self.host, self.port);
+                if self.stream.is_none() {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                }
             }
             if delivery_failure {
                 self.stream = None
-- 
2.43.0


From 638c6c195bb173f0563de7acfd7f118a52ee4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 02/36] fix: statsd source: keep packets independent of each
 other and of socket errors

Metrics parsed from a packet that turns out malformed were left in the
result vector and sent along with the next good packet; a receive error
ended the read loop without rearming the edge-triggered registration, so
queued datagrams sat unread until new traffic arrived; datagrams beyond
16,250 bytes were truncated.
---
 src/source/statsd.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..af4c050 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -110,6 +110,9 @@ impl Statsd {
                             }
                             STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
                         } else {
+                            // Lines parsed ahead of the malformed one must not
+                            // leak into the next packet.
+                            metrics.clear();
                             STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                             error!("BAD PACKET: {:?}", val);
                         }
@@ -172,7 +175,8 @@ impl source::Source<StatsdConfig> for Statsd {
             }
         }
 
-        let mut buf = vec![0; 16_250];
+        // Large enough for any UDP datagram; anything smaller truncates.
+        let mut buf = vec![0; 65_536];
         loop {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
@@ -189,10 +193,21 @@ impl source::Source<StatsdConfig> for Statsd {
                                 if let Err(_e) =
                                     self.handle_datagrams(&mut chans, socket, &mut buf)
                                 {
-                                    error!(
-                                        "Deregistering {:?} due to unrecoverable error!",
-                                        *socket
-                                    );
+                                    // Datagrams may still be queued behind the
+                                    // error. The socket is registered for edge
+                                    // notifications, so rearm it or we will not
+                                    // hear about them again.
+                                    if let Err(e) = poller.reregister(
+                                        socket,
+                                        token,
+                                        mio::Ready::readable(),
+                                        mio::PollOpt::edge(),
+                                    ) {
+                                        error!(
+                                            "Failed to reregister {:?} - {:?}!",
+                                            *socket, e
+                                        );
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From e8f7b0f9fc14142a8423f799031f6abdd73b4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 03/36] fix: statsd: reject non-finite values and unusable
 sample rates

NaN and infinities parse as floats but make sinks downstream panic; a sample
rate of zero produces them.
---
 src/protocols/statsd.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/protocols/statsd.rs b/src/protocols/statsd.rs
index e3a8503..4b364b0 100644
--- a/src/protocols/statsd.rs
+++ b/src/protocols/statsd.rs
@@ -42,8 +42,10 @@ pub fn parse_statsd(
                     Some(pipe_idx) => {
                         let val =
                             match f64::from_str(&src[offset..(offset + pipe_idx)]) {
-                                Ok(f) => f,
-                                Err(_) => return false,
+                                // NaN and infinities have no place in an
+                                // aggregation.
+                                Ok(f) if f.is_finite() => f,
+                                _ => return false,
                             };
                         let mut metric =
                             sync::Arc::make_mut(&mut sync::Arc::clone(metric))
@@ -68,8 +70,8 @@ pub fn parse_statsd(
                                         let sample = match f64::from_str(
                                             &src[(offset + sample_idx + 1)..],
                                         ) {
-                                            Ok(f) => f,
-                                            Err(_) => return false,
+                                            Ok(f) if f > 0.0 && f.is_normal() => f,
+                                            _ => return false,
                                         };
                                         metric = metric.persist(true);
                                         metric = if signed {
@@ -83,8 +85,8 @@ pub fn parse_statsd(
                                         let sample = match f64::from_str(
                                             &src[(offset + sample_idx + 1)..],
                                         ) {
-                                            Ok(f) => f,
-                                            Err(_) => return false,
+                                            Ok(f) if f > 0.0 && f.is_normal() => f,
+                                            _ => return false,
                                         };
                                         metric = metric
                                             .kind(AggregationMethod::Sum)
@@ -95,8 +97,8 @@ pub fn parse_statsd(
                                         let sample = match f64::from_str(
                                             &src[(offset + sample_idx + 1)..],
                                         ) {
-                                            Ok(f) => f,
-                                            Err(_) => return false,
+                                            Ok(f) if f > 0.0 && f.is_normal() => f,
+                                            _ => return false,
                                         };
                                         metric = metric.persist(false);
                                         metric = metric
-- 
2.43.0


From 90a2d2ee503576947cff0dfe08d44f94c3b1bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 04/36] fix: framed TCP sources: keep a length prefix that
 arrives in pieces

---
 src/source/nonblocking.rs | 54 ++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..159c097 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -75,6 +75,13 @@ pub struct BufferedPayload {
     /// off the underlying stream as a big-endian u32.
     payload_size: Option<usize>,
 
+    /// Bytes of the length prefix received so far. The prefix may come in
+    /// over several reads, just like the payload.
+    length: [u8; 4],
+
+    /// Position in the length prefix receiving.
+    length_pos: usize,
+
     /// The maximum allowable payload size. If a payload_size comes in over the
     /// wire that is greater than this limit we close the connection.
     max_payload_size: usize,
@@ -94,6 +101,8 @@ impl BufferedPayload {
     pub fn new(stream: mio::net::TcpStream, max_payload_size: usize) -> Self {
         BufferedPayload {
             payload_size: None,
+            length: [0; 4],
+            length_pos: 0,
             max_payload_size: max_payload_size,
             payload_pos: 0,
             payload: Vec::new(),
@@ -130,9 +139,21 @@ impl BufferedPayload {
     ///
     /// If a cached value already exists, this function noops.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
-        if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
-        };
+        while self.payload_size.is_none() {
+            match self.buffer.read(&mut self.length[self.length_pos..]) {
+                Ok(0) => return Err(PayloadErr::EOF),
+                Ok(bytes_read) => {
+                    self.length_pos += bytes_read;
+                    if self.length_pos == self.length.len() {
+                        self.length_pos = 0;
+                        self.payload_size =
+                            Some(BigEndian::read_u32(&self.length) as usize);
+                    }
+                }
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
         Ok(())
     }
 
@@ -149,30 +170,27 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
-        loop {
+        while self.payload_pos < payload_size {
             match self
                 .buffer
                 .read(&mut self.payload[self.payload_pos..payload_size])
             {
                 Ok(0) => return Err(PayloadErr::EOF),
 
-                Ok(bytes_read) if (self.payload_pos + bytes_read) == payload_size => {
-                    // We successfully pulled a payload off the wire.
-                    // Reset bytes remaining for the next payload.
-                    self.payload_size = None;
-                    self.payload_pos = 0;
-                    return Ok(());
-                }
+                // We may have read some data, but not yet enough. Store the
+                // difference and carry on.
+                Ok(bytes_read) => self.payload_pos += bytes_read,
 
-                Ok(bytes_read) => {
-                    // We read some data, but not yet enough.
-                    // Store the difference and try again later.
-                    self.payload_pos += bytes_read;
-                    continue;
-                }
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
 
                 Err(e) => return Err(e.into()),
             }
         }
+
+        // We successfully pulled a payload off the wire.
+        // Reset bytes remaining for the next payload.
+        self.payload_size = None;
+        self.payload_pos = 0;
+        Ok(())
     }
 }
-- 
2.43.0


From 29712f6d7778200a7c5a297c3eb8d8ade29d2172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 05/36] fix: kafka sink: treat a lost broker connection as
 recoverable

---
 src/sink/kafka.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..609e29d 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -407,6 +407,7 @@ impl Kafka {
                         Err((err, message)) => match err {
                             KafkaError::MessageProduction(err) => match err {
                                 RDKafkaError::InvalidMessage
+                                | RDKafkaError::BrokerTransportFailure
                                 | RDKafkaError::UnknownTopicOrPartition
                                 | RDKafkaError::LeaderNotAvailable
                                 | RDKafkaError::NotLeaderForPartition
-- 
2.43.0


From a35899ea888f1eb8e85582d4873d7501599c2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 06/36] fix: kafka sink: retry when a connection is lost during
 version negotiation

---
 src/sink/kafka.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 609e29d..ddf803d 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -408,6 +408,9 @@ impl Kafka {
                             KafkaError::MessageProduction(err) => match err {
                                 RDKafkaError::InvalidMessage
                                 | RDKafkaError::BrokerTransportFailure
+                                // The connection was lost while the client asked
+                                // the broker for its API versions.
+                                | RDKafkaError::UnsupportedFeature
                                 | RDKafkaError::UnknownTopicOrPartition
                                 | RDKafkaError::LeaderNotAvailable
                                 | RDKafkaError::NotLeaderForPartition
-- 
2.43.0


From 34080eaf65f0e709b06cd58a3af6924ccb062766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 07/36] fix: avro source: do not let one payload's conclusion
 acknowledge another

---
 src/source/avro.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..0f4a505 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -172,7 +172,6 @@ impl TCPStreamHandler for AvroStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let connection_id = Uuid::new_v4();
         let mut streaming = true;
         let mut reader = BufferedPayload::new(stream.try_clone().unwrap(), 1_048_576);
         while streaming {
@@ -193,7 +192,6 @@ impl TCPStreamHandler for AvroStreamHandler {
                                             let handle_res = self.handle_avro_payload(
                                                 chans.clone(),
                                                 payload,
-                                                connection_id,
                                             );
                                             if handle_res.is_err() {
                                                 AVRO_PAYLOAD_PARSE_FAILURE_SUM
@@ -303,7 +301,6 @@ impl AvroStreamHandler {
         &mut self,
         mut chans: util::Channel,
         payload: Vec<u8>,
-        connection_id: Uuid,
     ) -> Result<Option<u64>, PayloadErr> {
         match payload.into() {
             Payload::Valid {
@@ -312,9 +309,16 @@ impl AvroStreamHandler {
                 avro_blob,
             } => {
                 let ackbag = metric::global_ack_bag();
-                if header.sync() {
-                    ackbag.prepare_wait(connection_id)
-                }
+                // Each synchronous publish waits under an id of its own: were
+                // the id shared by all the payloads of a connection, the
+                // conclusion of an earlier payload would acknowledge this one.
+                let ack_id = if header.sync() {
+                    let id = Uuid::new_v4();
+                    ackbag.prepare_wait(id);
+                    Some(id)
+                } else {
+                    None
+                };
 
                 util::send(
                     &mut chans,
@@ -323,13 +327,13 @@ impl AvroStreamHandler {
                         encoding: metric::Encoding::Avro,
                         bytes: avro_blob,
                         metadata: metadata,
-                        connection_id: Some(connection_id),
+                        connection_id: ack_id,
                     },
                 );
 
-                if header.sync() {
-                    ackbag.wait_for(connection_id);
-                    ackbag.remove(connection_id);
+                if let Some(id) = ack_id {
+                    ackbag.wait_for(id);
+                    ackbag.remove(id);
                     Ok(Some(header.id))
                 } else {
                     Ok(None)
-- 
2.43.0


From db4b4eedc4885e3a6e2fe9933c807e123b31137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 08/36] fix: avro source: reject malformed payloads instead of
 crashing

---
 src/source/avro.rs | 95 ++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 0f4a505..2c9e514 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,8 +7,9 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use std::net;
+use std::str;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
 
@@ -31,7 +32,7 @@ pub struct Header {
     pub order_by: u64,
 }
 
-impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
+impl Header {
     // Parses payload headers from raw bytes.
     // All values assumed to be big endian.
     // Diagram below describes packet layout.
@@ -77,17 +78,17 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
     //    * Value Length - Length of Value data (max 65535)
     //    * Value - N Bytes of Value data, no encoding enforced (max 65535 bytes)
 
-    fn from(cursor: &'a mut Cursor<Vec<u8>>) -> Self {
-        let version = cursor.read_u32::<BigEndian>().unwrap();
-        let control = cursor.read_u32::<BigEndian>().unwrap();
-        let id = cursor.read_u64::<BigEndian>().unwrap();
-        let order_by = cursor.read_u64::<BigEndian>().unwrap();
-        Header {
+    fn read(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Self> {
+        let version = cursor.read_u32::<BigEndian>()?;
+        let control = cursor.read_u32::<BigEndian>()?;
+        let id = cursor.read_u64::<BigEndian>()?;
+        let order_by = cursor.read_u64::<BigEndian>()?;
+        Ok(Header {
             version: version,
             control: control,
             id: id,
             order_by: order_by,
-        }
+        })
     }
 }
 
@@ -111,30 +112,49 @@ enum Payload {
     },
 }
 
+/// Reads the key/value pairs which follow the header from version 2 on.
+fn read_metadata(
+    header: Header,
+    cursor: &mut Cursor<Vec<u8>>,
+) -> io::Result<Option<Metadata>> {
+    if header.version < 2 {
+        return Ok(None);
+    }
+    let num_kv = cursor.read_u8()?;
+    if num_kv < 1 {
+        return Ok(None);
+    }
+    let mut m: Metadata = Metadata::default();
+    for _ in 0..num_kv {
+        let key_len = cursor.read_u8()?;
+        let mut key = vec![0; key_len as usize];
+        cursor.read_exact(&mut key)?;
+        // Keys are text, and Kafka clients cannot carry a NUL in them.
+        if str::from_utf8(&key).is_err() || key.contains(&0) {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "invalid key"));
+        }
+        let val_len = cursor.read_u16::<BigEndian>()?;
+        let mut val = vec![0; val_len as usize];
+        cursor.read_exact(&mut val)?;
+        m.insert(key, val);
+    }
+    Ok(Some(m))
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
         let mut cursor = Cursor::new(vec);
-        let header: Header = (&mut cursor).into();
-
-        let metadata = if header.version < 2 {
-            None
-        } else {
-            let num_kv = cursor.read_u8().unwrap();
-            if num_kv < 1 {
-                None
-            } else {
-                let mut m: Metadata = Metadata::default();
-                for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
-                    let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
-                    let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
-                    m.insert(key, val);
-                }
-                Some(m)
+        let header = match Header::read(&mut cursor) {
+            Ok(header) => header,
+            Err(e) => {
+                return Payload::Invalid(format!("Failed to read header - {:?}.", e))
+            }
+        };
+        let metadata = match read_metadata(header, &mut cursor) {
+            Ok(metadata) => metadata,
+            Err(e) => {
+                return Payload::Invalid(format!("Failed to read metadata - {:?}.", e))
             }
         };
 
@@ -211,10 +231,19 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                write_all(&stream, resp.get_ref())
-                                                    .expect(
-                                                        "Failed to write response!",
-                                                    );
+                                                if write_all(&stream, resp.get_ref())
+                                                    .is_err()
+                                                {
+                                                    // Client went away before it
+                                                    // got its answer.
+                                                    AVRO_PAYLOAD_IO_FAILURE_SUM
+                                                        .fetch_add(
+                                                            1,
+                                                            Ordering::Relaxed,
+                                                        );
+                                                    streaming = false;
+                                                    break;
+                                                }
                                                 trace!("Acked {:?}", id);
                                             }
                                         }
-- 
2.43.0


From f6dd0190756bc669cb1a45a499682bdd08cfaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 09/36] fix: threads: joining one that panicked is no reason to
 panic

---
 src/thread.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..e02695a 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -33,7 +33,11 @@ pub trait Stoppable {
 impl Stoppable for ThreadHandle {
     /// Join the given Thread, blocking until it exits.
     fn join(self) {
-        self.handle.join().expect("Failed to join child thread!");
+        // A thread which panicked has nothing left to stop. Whoever waits for
+        // it carries on.
+        if self.handle.join().is_err() {
+            error!("Child thread panicked!");
+        }
     }
 
     /// Gracefully shutdown the given Thread, blocking until it exists.
-- 
2.43.0


From 810daf45d71582ee6201153360740d202b0e675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 10/36] fix: graphite and native sources: leave out values that
 are not numbers

---
 src/protocols/graphite.rs | 4 ++--
 src/source/native.rs      | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/protocols/graphite.rs b/src/protocols/graphite.rs
index 81da657..a441259 100644
--- a/src/protocols/graphite.rs
+++ b/src/protocols/graphite.rs
@@ -17,8 +17,8 @@ pub fn parse_graphite(
             Some(val) => match iter.next() {
                 Some(time) => {
                     let parsed_val = match f64::from_str(val) {
-                        Ok(f) => f,
-                        Err(_) => return false,
+                        Ok(f) if f.is_finite() => f,
+                        _ => return false,
                     };
                     let parsed_time = match i64::from_str(time) {
                         Ok(t) => t,
diff --git a/src/source/native.rs b/src/source/native.rs
index 6dcec1e..72c7e2c 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -148,7 +148,9 @@ impl NativeStreamHandler {
                     // FIXME #166
                     let ts: i64 = (point.get_timestamp_ms() as f64 * 0.001) as i64;
 
-                    if smpls.is_empty() {
+                    // There is no order among samples with NaN in them, nothing
+                    // that summarizes or caches values copes.
+                    if smpls.is_empty() || smpls.iter().any(|s| s.is_nan()) {
                         continue;
                     }
                     let mut metric = metric::Telemetry::new().name(name);
-- 
2.43.0


From bf930625ec7fce60796bcd738ea3914848ec8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 11/36] fix: graphite source: read lines as bytes, drop bad
 ones whole, leave on EOF

---
 src/source/graphite.rs | 82 +++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..2c01269 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -6,7 +6,7 @@ use crate::util;
 use crate::util::send;
 use mio;
 use std::io::prelude::*;
-use std::io::BufReader;
+use std::io::{BufReader, ErrorKind};
 use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -62,7 +62,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
@@ -75,37 +75,38 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => return,
-                            _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
-                                            assert!(!res.is_empty());
-                                            GRAPHITE_GOOD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            GRAPHITE_TELEM
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            for m in res.drain(..) {
-                                                send(
-                                                    &mut chans,
-                                                    metric::Event::Telemetry(m),
-                                                );
-                                            }
-                                            line.clear();
-                                        } else {
-                                            GRAPHITE_BAD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            error!("bad packet: {:?}", line);
+                            _stream_token => loop {
+                                // Lines are collected as bytes: what has come in
+                                // so far may end anywhere, even inside of a
+                                // character.
+                                match line_reader.read_until(b'\n', &mut line) {
+                                    Ok(len) => {
+                                        if len > 0 || !line.is_empty() {
+                                            handle_line(
+                                                &mut chans,
+                                                &line,
+                                                &mut res,
+                                                &basic_metric,
+                                            );
                                             line.clear();
                                         }
-                                    } else {
+                                        if len == 0 {
+                                            // Client went away.
+                                            trace!("TCP stream closed.");
+                                            return;
+                                        }
+                                    }
+                                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
+                                        // Not enough data on the wire. Try again
+                                        // later.
                                         break;
                                     }
+                                    Err(e) => {
+                                        error!("Failed to read graphite line: {:?}", e);
+                                        return;
+                                    }
                                 }
-                            }
+                            },
                         }
                     }
                 }
@@ -114,6 +115,31 @@ impl TCPStreamHandler for GraphiteStreamHandler {
     }
 }
 
+fn handle_line(
+    chans: &mut util::Channel,
+    line: &[u8],
+    res: &mut Vec<metric::Telemetry>,
+    basic_metric: &sync::Arc<Option<metric::Telemetry>>,
+) {
+    let good = match str::from_utf8(line) {
+        Ok(text) => parse_graphite(text, res, basic_metric),
+        Err(_) => false,
+    };
+    if good {
+        assert!(!res.is_empty());
+        GRAPHITE_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
+        GRAPHITE_TELEM.fetch_add(1, Ordering::Relaxed);
+        for m in res.drain(..) {
+            send(chans, metric::Event::Telemetry(m));
+        }
+    } else {
+        GRAPHITE_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
+        error!("bad packet: {:?}", String::from_utf8_lossy(line));
+        // Nothing of a bad line may show up with the next good one.
+        res.clear();
+    }
+}
+
 /// Graphite protocol source
 ///
 /// This source produces `metric::Telemetry` from the graphite protocol.
-- 
2.43.0


From 83afadcd32f6de66949c482ffb9ae00a42810797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 12/36] fix: TCP sources: keep listening after accept errors

---
 src/source/tcp.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/source/tcp.rs b/src/source/tcp.rs
index d6eb9ec..6b3cecc 100644
--- a/src/source/tcp.rs
+++ b/src/source/tcp.rs
@@ -2,6 +2,7 @@ use crate::constants;
 use crate::metric;
 use crate::source::Source;
 use crate::thread;
+use crate::time;
 use crate::util;
 use hopper;
 use mio;
@@ -163,10 +164,23 @@ where
                                 } else if let Err(e) =
                                     self.spawn_stream_handlers(&chans, listener_token)
                                 {
+                                    // Out of descriptors or memory, most likely.
+                                    // Both come back, and registering anew
+                                    // reports the connections still waiting.
                                     let listener = &self.listeners[listener_token];
                                     error!("Failed to spawn stream handlers! {:?}", e);
-                                    error!("Deregistering listener for {:?} due to unrecoverable error!", *listener);
-                                    let _ = poll.deregister(listener);
+                                    time::delay(5);
+                                    if let Err(e) = poll.reregister(
+                                        listener,
+                                        listener_token,
+                                        mio::Ready::readable(),
+                                        mio::PollOpt::edge(),
+                                    ) {
+                                        error!(
+                                            "Failed to register {:?} - {:?}!",
+                                            listener, e
+                                        );
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 56e076e0d69cf112dae8ab1e72cf6ee17dc0eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 13/36] fix: count one shutdown per upstream and forward it
 only once all have stopped

---
 src/filter/mod.rs | 4 +++-
 src/sink/mod.rs   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..e58ce5b 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,9 +81,11 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
+                    // Downstream expects a single Shutdown from this filter,
+                    // sent once nothing more will come through it.
                     if total_shutdowns >= sources.len() {
+                        util::send(&mut chans, metric::Event::Shutdown);
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From b9c1cbfdea588ee4d9aab9ed9f87df15ab3db4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 14/36] fix: flush boundary filter: pass raw events on, age
 once per pulse, release all at shutdown

---
 src/filter/flush_boundary_filter.rs | 22 +++++++++++++++++++---
 src/filter/mod.rs                   | 10 ++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..e97e538 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -10,6 +10,7 @@ use std::mem;
 pub struct FlushBoundaryFilter {
     tolerance: usize,
     holds: Vec<Hold>,
+    last_flush_idx: u64,
 }
 
 /// Configuration for `FlushBoundaryFilter`
@@ -49,6 +50,7 @@ impl FlushBoundaryFilter {
         FlushBoundaryFilter {
             tolerance: config.tolerance,
             holds: Vec::new(),
+            last_flush_idx: 0,
         }
     }
 }
@@ -59,9 +61,14 @@ impl filter::Filter for FlushBoundaryFilter {
         event: metric::Event,
         res: &mut Vec<metric::Event>,
     ) -> Result<(), filter::FilterError> {
-        if event.is_timer_flush() {
-            for hold in &mut self.holds {
-                hold.age += 1;
+        if let metric::Event::TimerFlush(idx) = event {
+            // With more than one upstream the same pulse comes in several
+            // times. It ages the holds only once.
+            if idx > self.last_flush_idx {
+                self.last_flush_idx = idx;
+                for hold in &mut self.holds {
+                    hold.age += 1;
+                }
             }
             let holds = mem::replace(&mut self.holds, Vec::new());
             let mut too_new = Vec::new();
@@ -84,8 +91,17 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                // Events without a timestamp do not belong to any flush.
+                res.push(event);
             }
         }
         Ok(())
     }
+
+    fn shutdown(&mut self, res: &mut Vec<metric::Event>) {
+        for mut hold in self.holds.drain(..) {
+            res.append(&mut hold.events);
+        }
+    }
 }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e58ce5b..768e939 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -61,6 +61,12 @@ pub trait Filter {
         res: &mut Vec<metric::Event>,
     ) -> Result<(), FilterError>;
 
+    /// Give up what the Filter still holds on to
+    ///
+    /// Called once, after every upstream has shut down. Filters that keep events
+    /// back must put them into `res`, there will be no later occasion.
+    fn shutdown(&mut self, _res: &mut Vec<metric::Event>) {}
+
     /// Run the Filter
     ///
     /// It is not expected that most Filters will re-implement this. If this is
@@ -85,6 +91,10 @@ pub trait Filter {
                     // Downstream expects a single Shutdown from this filter,
                     // sent once nothing more will come through it.
                     if total_shutdowns >= sources.len() {
+                        self.shutdown(&mut events);
+                        for ev in events.drain(..) {
+                            util::send(&mut chans, ev)
+                        }
                         util::send(&mut chans, metric::Event::Shutdown);
                         trace!(
                             "Received shutdown from every configured source: {:?}",
-- 
2.43.0


From a0e4f050bb83ce382638c90ab542e1ad74fb140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 15/36] fix: shut down filters and sinks which have no upstream

---
 src/bin/cernan.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..b2b5149 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -344,6 +344,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
@@ -779,6 +780,14 @@ fn main() {
         }
     }
 
+    // Filters and sinks no one forwards to have no upstream that could tell them
+    // to shut down. It's on us to do that.
+    let mut orphan_sends: Vec<hopper::Sender<metric::Event>> = senders
+        .iter()
+        .filter(|&(id, _)| !config_topology.values().any(|fwds| fwds.contains(id)))
+        .map(|(_, snd)| snd.clone())
+        .collect();
+
     drop(flush_sends);
     drop(senders);
     cernan::source::FlushTimer::new(flush_channels, cernan::source::FlushTimerConfig)
@@ -801,6 +810,7 @@ fn main() {
         info!("Signaling shutdown to {:?}", id);
         source_worker.shutdown();
     }
+    cernan::util::send(&mut orphan_sends, metric::Event::Shutdown);
 
     join_all(sinks);
     join_all(filters);
-- 
2.43.0


From 14ab866ce7e6d061da5bb5e2c29a909cc7d85af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 16/36] fix: survive absurd timestamps in filters and sinks

---
 src/filter/delay_filter.rs       |  4 ++--
 src/filter/json_encode_filter.rs |  7 ++-----
 src/sink/console.rs              |  6 ++----
 src/sink/elasticsearch.rs        | 10 +++-------
 src/sink/native.rs               |  4 ++--
 src/sink/prometheus.rs           |  4 ++--
 src/sink/wavefront.rs            | 10 +++++-----
 src/time.rs                      | 26 ++++++++++++++++++++++++++
 8 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..804c00f 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -57,7 +57,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if time::distance(telem.timestamp, time::now()) < self.tolerance {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +65,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if time::distance(log.time, time::now()) < self.tolerance {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..4d60088 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,9 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use rand::random;
 use serde_json;
 use serde_json::map::Map;
@@ -72,8 +70,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
-                let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+                let utc_time = time::to_date(log.time);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
                     "path": log.path.clone(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..589a4f7 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,9 +4,8 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time::to_date;
 use chrono::offset::Utc;
-use chrono::DateTime;
 
 /// The 'console' sink exists for development convenience. The sink will
 /// aggregate according to [buckets](../buckets/struct.Buckets.html) method and
@@ -202,7 +201,6 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = to_date(time);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..8511f81 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,9 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time::to_date;
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
@@ -358,15 +356,13 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = to_date(time);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = to_date(time);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
         None => format!("{}", utc_time.format("%Y-%m-%d")),
diff --git a/src/sink/native.rs b/src/sink/native.rs
index d46c67e..fbc8bf8 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -142,7 +142,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -162,7 +162,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..0aa7de4 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -135,7 +135,7 @@ impl Accumulator {
                 let mut purged = 0;
                 let mut i = 0;
                 while i != samples.len() {
-                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
+                    if time::distance(samples[i].timestamp, time::now()) > (cap as i64) {
                         samples.remove(i);
                         purged += 1;
                     } else {
@@ -660,7 +660,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if time::distance(telem.timestamp, time::now()) <= (age_threshold as i64) {
                 self.aggrs.lock().unwrap().insert(telem);
             }
         } else {
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..7d0d345 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -261,7 +261,7 @@ impl<'a> Iterator for Padding<'a> {
                         if let Some(ts) = self.last_seen.get(&x.hash()) {
                             if x.timestamp() > *ts {
                                 self.flush_padded.insert(x.hash());
-                                if (x.timestamp() - ts) / self.span > 1 {
+                                if x.timestamp().saturating_sub(*ts) / self.span > 1 {
                                     let sub_x = x
                                         .clone()
                                         .zero_at(x.timestamp().saturating_sub(1));
@@ -278,7 +278,7 @@ impl<'a> Iterator for Padding<'a> {
                             }
                         }
                     }
-                    match (x.timestamp() - y.timestamp()).abs() / self.span {
+                    match time::distance(x.timestamp(), y.timestamp()) / self.span {
                         0 | 1 => {
                             // In this case the next point, y, is within the
                             // span configured by the user. We stash it into
@@ -323,7 +323,7 @@ impl<'a> Iterator for Padding<'a> {
                     if let Some(ts) = self.last_seen.get(&x.hash()) {
                         if x.timestamp() > *ts {
                             self.flush_padded.insert(x.hash());
-                            if (x.timestamp() - ts) / self.span > 1 {
+                            if x.timestamp().saturating_sub(*ts) / self.span > 1 {
                                 let sub_x =
                                     x.clone().zero_at(x.timestamp().saturating_sub(1));
                                 let post_x = x.clone().zero_at(ts.saturating_add(1));
@@ -422,7 +422,7 @@ impl Wavefront {
                 Pad::Telem(value) => {
                     if value.persist {
                         let new_val = value.clone();
-                        self.aggrs.add(new_val.timestamp(value.timestamp + 1));
+                        self.aggrs.add(new_val.timestamp(value.timestamp.saturating_add(1)));
                     }
 
                     match value.kind() {
@@ -642,7 +642,7 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if time::distance(telem.timestamp, time::now()) <= (age_threshold as i64) {
                 self.aggrs.add(telem);
             }
         } else {
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..c4256de 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,7 +4,9 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
 use chrono::offset::Utc;
+use chrono::DateTime;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
 
@@ -17,6 +19,30 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// Return the distance between two times in seconds
+///
+/// Times come from the outside and may be absurd. Distances which do not fit are
+/// as large as it gets.
+pub fn distance(left: i64, right: i64) -> i64 {
+    left.saturating_sub(right)
+        .checked_abs()
+        .unwrap_or_else(i64::max_value)
+}
+
+/// Convert epoch seconds into a date
+///
+/// Times beyond the range of `chrono` become the nearest date it can represent.
+pub fn to_date(seconds: i64) -> DateTime<Utc> {
+    let naive = NaiveDateTime::from_timestamp_opt(seconds, 0).unwrap_or_else(|| {
+        if seconds < 0 {
+            MIN_DATE.and_hms(0, 0, 0)
+        } else {
+            MAX_DATE.and_hms(23, 59, 59)
+        }
+    });
+    DateTime::from_utc(naive, Utc)
+}
+
 /// Update cernan's view of time every 500ms. Time is in UTC.
 pub fn update_time() {
     let dur = time::Duration::from_millis(500);
-- 
2.43.0


From 33e00b46d50b1f5e84d3a3852587f72483843ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 17/36] fix: programmable filter: contain script errors

---
 src/filter/mod.rs                 |  3 ++
 src/filter/programmable_filter.rs | 72 +++++++++++++++++++++----------
 2 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 768e939..12a184e 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -116,6 +116,9 @@ pub trait Filter {
                                 "Failed to run filter with error: {:?}",
                                 msg_in_fe(&fe)
                             );
+                            for ev in events.drain(..) {
+                                util::send(&mut chans, ev)
+                            }
                             let event = event_in_fe(fe);
                             util::send(&mut chans, event);
                         }
diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..5aa6bbd 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -13,11 +13,17 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
-    } else {
+/// Translate a script's index, which counts from one or, when negative, from the
+/// end. An index out of range is an error of the script.
+fn idx(state: &mut State, n: i64, top: usize) -> usize {
+    let top = top as i64;
+    if 0 < n && n <= top {
         (n - 1) as usize
+    } else if -top <= n && n < 0 {
+        (top + n) as usize
+    } else {
+        state.push_string("payload index out of range");
+        state.error()
     }
 }
 
@@ -61,7 +67,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -70,7 +77,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -79,7 +87,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -88,8 +97,16 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
-        (*pyld).metrics[idx].name = state.check_string(3).into();
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
+        match state.to_str(3).map(|n| n.to_owned()) {
+            Some(name) => {
+                (*pyld).metrics[idx].name = name;
+            }
+            None => {
+                error!("[set_metric_name] no name provided");
+            }
+        }
         0
     }
 
@@ -168,7 +185,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -192,7 +210,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
@@ -214,7 +233,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -238,7 +258,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
@@ -266,7 +287,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
@@ -294,7 +316,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
@@ -322,7 +345,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
@@ -339,7 +363,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -361,7 +386,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -384,7 +410,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let prcnt = state.to_number(2);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
@@ -551,9 +578,7 @@ impl filter::Filter for ProgrammableFilter {
             metric::Event::TimerFlush(flush_idx) => {
                 let pyld = Payload::blank(&self.global_tags, self.path.as_str());
                 let result = run_lua_func(&mut self.state, "tick", res, pyld);
-                if result.is_ok() {
-                    self.last_flush_idx = flush_idx;
-                }
+                self.last_flush_idx = flush_idx;
                 res.push(event);
                 result
             }
@@ -587,6 +612,9 @@ fn run_lua_func(
         .unwrap();
     let fail = metric::Event::Telemetry(filter_telem);
 
+    // Whatever an earlier call left behind, be it an error or a global that is
+    // no function, must not pile up.
+    state.set_top(0);
     state.get_global(func_name);
     if !state.is_fn(-1) {
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
-- 
2.43.0


From c5328dfaefe622533d5464a8983991f8ae574d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 18/36] fix: wavefront sink: survive NaN

---
 src/sink/wavefront.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 7d0d345..ad94740 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -346,6 +346,10 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
+    if val.partial_cmp(&val).is_none() {
+        // The only value that has no place in the order is not a number.
+        return "NaN";
+    }
     match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
-- 
2.43.0


From 804f0d76b9d7c5a61c3fa1fa2df945d71df2899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 19/36] fix: never drop the shutdown event of a full queue

---
 src/util.rs | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c12d585..8eefa26 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,6 +1,7 @@
 //! Utility module, a grab-bag of functionality
 use crate::constants;
 use crate::metric;
+use crate::time;
 use hopper;
 use mio;
 use seahash::SeaHasher;
@@ -25,7 +26,7 @@ pub type HashMap<K, V> =
 pub type Channel = Vec<hopper::Sender<metric::Event>>;
 
 /// Send a `metric::Event` into a `Channel`.
-pub fn send(chans: &mut Channel, mut event: metric::Event) {
+pub fn send(chans: &mut Channel, event: metric::Event) {
     if chans.is_empty() {
         // Nothing to send to.
         return;
@@ -34,34 +35,33 @@ pub fn send(chans: &mut Channel, mut event: metric::Event) {
     let max: usize = chans.len().saturating_sub(1);
     if max != 0 {
         for chan in &mut chans[1..] {
-            let mut snd_event = event.clone();
-            while let Err(res) = chan.send(snd_event) {
-                // The are a variety of errors that hopper will signal back up
-                // when we do a send. The only one we care about is
-                // `Error::Full`, meaning that all disk and memory buffer space
-                // is consumed. We drop the event on the floor in that case.
-                match res.1 {
-                    hopper::Error::Full => {
-                        UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
-                        break;
-                    }
-                    _ => {
-                        snd_event = res.0;
-                        continue;
-                    }
-                }
-            }
+            send_one(chan, event.clone());
         }
     }
-    while let Err(res) = chans[0].send(event) {
-        match res.1 {
-            hopper::Error::Full => {
+    send_one(&mut chans[0], event);
+}
+
+fn send_one(chan: &mut hopper::Sender<metric::Event>, mut event: metric::Event) {
+    let mut attempts = 0;
+    while let Err(res) = chan.send(event) {
+        // The are a variety of errors that hopper will signal back up
+        // when we do a send. The only one we care about is
+        // `Error::Full`, meaning that all disk and memory buffer space
+        // is consumed. We drop the event on the floor in that case. The
+        // exception is Shutdown, without which the receiver would never
+        // stop.
+        match (res.1, res.0) {
+            (hopper::Error::Full, metric::Event::Shutdown) => {
+                attempts += 1;
+                time::delay(attempts);
+                event = metric::Event::Shutdown;
+            }
+            (hopper::Error::Full, _) => {
                 UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                 break;
             }
-            _ => {
-                event = res.0;
-                continue;
+            (_, snd_event) => {
+                event = snd_event;
             }
         }
     }
-- 
2.43.0


From c4cea951d2dd011c5ce9afbeed1616532da2e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 20/36] fix: make sure the shutdown event leaves the disk queue

---
 src/util.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 8eefa26..8212d30 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -43,6 +43,10 @@ pub fn send(chans: &mut Channel, event: metric::Event) {
 
 fn send_one(chan: &mut hopper::Sender<metric::Event>, mut event: metric::Event) {
     let mut attempts = 0;
+    let is_last = match event {
+        metric::Event::Shutdown => true,
+        _ => false,
+    };
     while let Err(res) = chan.send(event) {
         // The are a variety of errors that hopper will signal back up
         // when we do a send. The only one we care about is
@@ -65,6 +69,14 @@ fn send_one(chan: &mut hopper::Sender<metric::Event>, mut event: metric::Event)
             }
         }
     }
+    if is_last {
+        // Events that went to disk reach the receiver with the sends that follow
+        // them. Nothing follows Shutdown.
+        while chan.flush().is_err() {
+            attempts += 1;
+            time::delay(attempts);
+        }
+    }
 }
 
 /// Determine the state of a buffering queue, whether open or closed.
-- 
2.43.0


From 7420112317a63f7cda0efde159e73e712f16118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 21/36] fix: do not wait for the flush of a Shutdown

A receiver that has got its Shutdown reads no more. If the flush timer
filled the queue again before the sender came to flush it, the flush could
never succeed and the shutdown hung.
---
 src/util.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8212d30..06cd79c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -10,6 +10,7 @@ use std::collections;
 use std::hash;
 use std::ops::{Index, IndexMut};
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread;
 
 /// Number of dropped events due to channel being totally full
 pub static UTIL_SEND_HOPPER_ERROR_FULL: AtomicUsize = AtomicUsize::new(0);
@@ -71,10 +72,17 @@ fn send_one(chan: &mut hopper::Sender<metric::Event>, mut event: metric::Event)
     }
     if is_last {
         // Events that went to disk reach the receiver with the sends that follow
-        // them. Nothing follows Shutdown.
-        while chan.flush().is_err() {
-            attempts += 1;
-            time::delay(attempts);
+        // them. Nothing may follow Shutdown. It is not waited for: a receiver that
+        // has got its Shutdown makes no more room for what others, like the flush
+        // timer, still send to it.
+        if chan.flush().is_err() {
+            let mut chan = chan.clone();
+            thread::spawn(move || {
+                while chan.flush().is_err() {
+                    attempts += 1;
+                    time::delay(attempts);
+                }
+            });
         }
     }
 }
-- 
2.43.0


From ab3657142c646687c0277c4774896a324894846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 22/36] fix: length of packed samples in native payloads

The size of the length prefix of the samples was computed from their number,
not from their bytes. 16 samples or more made the payload longer than the
length announced for it, which the receiver could not decode.
---
 src/protocols/native.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/native.rs b/src/protocols/native.rs
index 002f250..31ddaf6 100644
--- a/src/protocols/native.rs
+++ b/src/protocols/native.rs
@@ -915,7 +915,7 @@ impl ::protobuf::Message for Telemetry {
             my_size += ::protobuf::rt::string_size(1, &v);
         }
         if !self.samples.is_empty() {
-            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(self.samples.len() as u32) + (self.samples.len() * 8) as u32;
+            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size((self.samples.len() * 8) as u32) + (self.samples.len() * 8) as u32;
         }
         if let Some(v) = self.persisted {
             my_size += 2;
-- 
2.43.0


From 48b39a706891859c7a634f22b50ee75466d8775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 23/36] fix: native sink sends no payload larger than a native
 source takes

A native source drops a connection that announces more than 1 MiB. A flush
with more than that was lost as a whole, and was taken for delivered.
---
 src/sink/native.rs | 112 +++++++++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 39 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index fbc8bf8..fde2213 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -13,6 +13,9 @@ use std::io::Write;
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
+/// The largest payload a native source takes in, in bytes
+const MAX_PAYLOAD_SIZE: usize = 1_048_576;
+
 /// The native sink
 ///
 /// This sink is the pair to the native source. The native source/sink use or
@@ -87,6 +90,69 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
+impl Native {
+    /// Send what is there already if the payload would become too large for the
+    /// receiver with a message of `added` bytes more.
+    fn make_room(
+        &mut self,
+        points: &mut Vec<Telemetry>,
+        lines: &mut Vec<LogLine>,
+        size: &mut usize,
+        added: u32,
+    ) {
+        // tag and length of the message
+        let added = added as usize + 6;
+        if *size + added > MAX_PAYLOAD_SIZE {
+            self.send(points, lines);
+            *size = 0;
+        }
+        *size += added;
+    }
+
+    /// Send points and lines as one payload. Returns when all of its bytes were
+    /// accepted by a connection.
+    fn send(&mut self, points: &mut Vec<Telemetry>, lines: &mut Vec<LogLine>) {
+        if points.is_empty() && lines.is_empty() {
+            return;
+        }
+
+        let mut pyld = Payload::new();
+        pyld.set_points(RepeatedField::from_vec(replace(points, Vec::new())));
+        pyld.set_lines(RepeatedField::from_vec(replace(lines, Vec::new())));
+
+        // Length prefix and payload are serialized up front so that a batch
+        // whose delivery fails part way through can be resent in full.
+        let pyld = pyld
+            .write_to_bytes()
+            .expect("could not serialize native payload");
+        let mut frame = vec![0; 4];
+        BigEndian::write_u32(&mut frame, pyld.len() as u32);
+        frame.extend_from_slice(&pyld);
+
+        loop {
+            let mut delivery_failure = false;
+            if let Some(ref mut stream) = self.stream {
+                if stream.write_all(&frame).is_ok() {
+                    self.delivery_attempts = 0;
+                    return;
+                } else {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                    delivery_failure = true;
+                }
+            } else {
+                time::delay(self.delivery_attempts);
+                self.stream = connect(&self.host, self.port);
+                if self.stream.is_none() {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                }
+            }
+            if delivery_failure {
+                self.stream = None
+            }
+        }
+    }
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -116,8 +182,9 @@ impl Sink<NativeConfig> for Native {
     fn flush(&mut self) {
         let mut points = Vec::with_capacity(1024);
         let mut lines = Vec::with_capacity(1024);
+        let mut size = 0;
 
-        for ev in self.buffer.drain(..) {
+        for ev in replace(&mut self.buffer, Vec::new()) {
             match ev {
                 metric::Event::Telemetry(mut m) => {
                     let mut telem = Telemetry::new();
@@ -147,6 +214,8 @@ impl Sink<NativeConfig> for Native {
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
                     // elsewhere
+                    let telem_size = telem.compute_size();
+                    self.make_room(&mut points, &mut lines, &mut size, telem_size);
                     points.push(telem);
                 }
                 metric::Event::Log(l) => {
@@ -164,50 +233,15 @@ impl Sink<NativeConfig> for Native {
                     ll.set_metadata(meta);
                     ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
+                    let ll_size = ll.compute_size();
+                    self.make_room(&mut points, &mut lines, &mut size, ll_size);
                     lines.push(ll);
                 }
                 _ => {}
             }
         }
 
-        if points.is_empty() && lines.is_empty() {
-            return;
-        }
-
-        let mut pyld = Payload::new();
-        pyld.set_points(RepeatedField::from_vec(points));
-        pyld.set_lines(RepeatedField::from_vec(lines));
-
-        // Length prefix and payload are serialized up front so that a batch
-        // whose delivery fails part way through can be resent in full.
-        let pyld = pyld
-            .write_to_bytes()
-            .expect("could not serialize native payload");
-        let mut frame = vec![0; 4];
-        BigEndian::write_u32(&mut frame, pyld.len() as u32);
-        frame.extend_from_slice(&pyld);
-
-        loop {
-            let mut delivery_failure = false;
-            if let Some(ref mut stream) = self.stream {
-                if stream.write_all(&frame).is_ok() {
-                    self.delivery_attempts = 0;
-                    return;
-                } else {
-                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-                    delivery_failure = true;
-                }
-            } else {
-                time::delay(self.delivery_attempts);
-                self.stream = connect(&self.host, self.port);
-                if self.stream.is_none() {
-                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-                }
-            }
-            if delivery_failure {
-                self.stream = None
-            }
-        }
+        self.send(&mut points, &mut lines);
     }
 
     fn shutdown(mut self) {
-- 
2.43.0


From a281529334ce854e4bbc30804e13c67861cc17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 24/36] fix: influxdb and wavefront sinks pause between
 attempts to connect

---
 src/sink/influxdb.rs  | 5 ++++-
 src/sink/wavefront.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..bd1dae8 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -252,7 +252,10 @@ impl Sink<InfluxDBConfig> for InfluxDB {
                 .body(buffer.clone())
                 .send()
             {
-                Err(e) => debug!("hyper error doing POST: {:?}", e),
+                Err(e) => {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                    debug!("hyper error doing POST: {:?}", e)
+                }
                 Ok(resp) => {
                     // https://docs.influxdata.com/influxdb/v1.
                     // 2/guides/writing_data/#http-response-summary
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index ad94740..60cb35e 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -633,6 +633,9 @@ impl Sink<WavefrontConfig> for Wavefront {
                 time::delay(self.delivery_attempts);
                 WAVEFRONT_CONNECT_ATTEMPTS.fetch_add(1, Ordering::Relaxed);
                 self.stream = connect(&self.host, self.port);
+                if self.stream.is_none() {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                }
             }
             if delivery_failure {
                 self.stream = None
-- 
2.43.0


From 3fba3211d4d86ee1aaac0a532cc1f5ca934e10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 25/36] fix: influxdb sink writes timestamps before 1970 as
 they are

---
 src/sink/influxdb.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index bd1dae8..6a92eb1 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -103,7 +103,7 @@ impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
-        let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
+        let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
@@ -120,7 +120,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -137,7 +137,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -163,7 +163,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
@@ -183,7 +183,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
-- 
2.43.0


From 68e445211bdcbc70722dcfb4cfbe697cf17cd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 26/36] fix: influxdb sink escapes spaces, commas and equals
 signs

---
 src/sink/influxdb.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 6a92eb1..a79925c 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -74,13 +74,29 @@ impl Default for InfluxDBConfig {
     }
 }
 
+/// Push `val` onto `s`, escaping what separates the parts of a line
+#[inline]
+fn push_escaped(val: &str, special: &[char], s: &mut String) {
+    for c in val.chars() {
+        if special.contains(&c) {
+            s.push('\\');
+        }
+        s.push(c);
+    }
+}
+
+#[inline]
+fn fmt_name(name: &str, s: &mut String) {
+    push_escaped(name, &[',', ' '], s)
+}
+
 #[inline]
 fn fmt_tags(tags: TagIter, s: &mut String) {
     for (k, v) in tags {
         s.push_str(",");
-        s.push_str(k);
+        push_escaped(k, &[',', '=', ' '], s);
         s.push_str("=");
-        s.push_str(v);
+        push_escaped(v, &[',', '=', ' '], s);
     }
 }
 
@@ -111,7 +127,7 @@ impl InfluxDB {
             match telem.kind() {
                 AggregationMethod::Sum => {
                     if let Some(val) = telem.sum() {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -128,7 +144,7 @@ impl InfluxDB {
                 }
                 AggregationMethod::Set => {
                     if let Some(val) = telem.set() {
-                        buffer.push_str(&telem.name);
+                        fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -150,8 +166,8 @@ impl InfluxDB {
                                 Bound::Finite(x) => format!("le_{}", x),
                                 Bound::PosInf => "le_inf".to_string(),
                             };
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, bound_name));
+                            fmt_name(&telem.name, buffer);
+                            buffer.push_str(&format!(".{}", bound_name));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
@@ -173,8 +189,8 @@ impl InfluxDB {
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
                         if let Some(val) = telem.query(*percentile) {
-                            buffer
-                                .push_str(&format!("{}.{}", &telem.name, percentile));
+                            fmt_name(&telem.name, buffer);
+                            buffer.push_str(&format!(".{}", percentile));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
-- 
2.43.0


From 62df180a1fa55af8412ef84f3b4683628303dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 27/36] fix: influxdb sink leaves out what InfluxDB refuses a
 whole write for

---
 src/sink/influxdb.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index a79925c..e8335a9 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -93,6 +93,11 @@ fn fmt_name(name: &str, s: &mut String) {
 #[inline]
 fn fmt_tags(tags: TagIter, s: &mut String) {
     for (k, v) in tags {
+        // InfluxDB refuses a line that has a tag without a value, and with it
+        // the whole write.
+        if k.is_empty() || v.is_empty() {
+            continue;
+        }
         s.push_str(",");
         push_escaped(k, &[',', '=', ' '], s);
         s.push_str("=");
@@ -117,6 +122,9 @@ where
 
 impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
+    ///
+    /// InfluxDB has no values that are not finite numbers and refuses the whole
+    /// write in which it finds one. They are left out.
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
         let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
@@ -126,7 +134,7 @@ impl InfluxDB {
         for telem in telems.iter() {
             match telem.kind() {
                 AggregationMethod::Sum => {
-                    if let Some(val) = telem.sum() {
+                    if let Some(val) = telem.sum().filter(|v| v.is_finite()) {
                         fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -143,7 +151,7 @@ impl InfluxDB {
                     }
                 }
                 AggregationMethod::Set => {
-                    if let Some(val) = telem.set() {
+                    if let Some(val) = telem.set().filter(|v| v.is_finite()) {
                         fmt_name(&telem.name, buffer);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -188,7 +196,9 @@ impl InfluxDB {
                 }
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
-                        if let Some(val) = telem.query(*percentile) {
+                        if let Some(val) =
+                            telem.query(*percentile).filter(|v| v.is_finite())
+                        {
                             fmt_name(&telem.name, buffer);
                             buffer.push_str(&format!(".{}", percentile));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
-- 
2.43.0


From 4115ba6b76448c62b4c472ac79c9cd7f7f9f54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 28/36] fix: elasticsearch sink does not die of unknown ids,
 nor leave lines behind at shutdown

---
 src/sink/elasticsearch.rs | 58 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index 8511f81..eef7c6b 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,12 +3,11 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use crate::time::to_date;
+use crate::time::{self, to_date};
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
 use elastic::prelude::*;
-use std::cmp;
 use std::error::Error;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid;
@@ -121,6 +120,12 @@ pub struct Elasticsearch {
 }
 
 impl Elasticsearch {
+    /// Where in the buffer the line of this document id is, if it is
+    fn position(&self, id: &str) -> Option<usize> {
+        let uuid = uuid::Uuid::parse_str(id).ok()?;
+        self.buffer.iter().position(|line| line.uuid == uuid)
+    }
+
     fn bulk_body(&self, buffer: &mut String) {
         assert!(!self.buffer.is_empty());
         use serde_json::{to_string, Value};
@@ -196,39 +201,24 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                     for item in bulk.iter() {
                         match item {
                             Ok(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
+                                // An id which is not, or no longer, ours is
+                                // none of our business.
+                                if let Some(idx) = self.position(item.id()) {
+                                    self.buffer.remove(idx);
+                                    ELASTIC_RECORDS_TOTAL_DELIVERED
+                                        .fetch_add(1, Ordering::Relaxed);
                                 }
-                                self.buffer.remove(idx);
-                                ELASTIC_RECORDS_TOTAL_DELIVERED
-                                    .fetch_add(1, Ordering::Relaxed);
                             }
                             Err(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
+                                if let Some(idx) = self.position(item.id()) {
+                                    if self.buffer[idx].attempts
+                                        >= self.delivery_attempt_limit
+                                    {
+                                        self.buffer.remove(idx);
+                                    } else {
+                                        self.buffer[idx].attempts += 1;
                                     }
                                 }
-                                self.buffer[idx].attempts += 1;
-                                if self.buffer[idx].attempts
-                                    > self.delivery_attempt_limit
-                                {
-                                    self.buffer.remove(idx);
-                                }
                                 ELASTIC_RECORDS_TOTAL_FAILED
                                     .fetch_add(1, Ordering::Relaxed);
                                 if let Some(source) = item.source() {
@@ -333,7 +323,15 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
     }
 
     fn shutdown(mut self) {
+        // There is no later flush to make good a failed one: go on until every
+        // line is delivered or has used up its attempts.
+        let mut attempts: u32 = 0;
         self.flush();
+        while !self.buffer.is_empty() {
+            attempts += 1;
+            time::delay(attempts);
+            self.flush();
+        }
     }
 
     fn deliver_line(&mut self, line: LogLine) {
-- 
2.43.0


From 92da96142314df55b3a623ebacda8f92f0213521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 29/36] fix: avro source checks the lengths in a container's
 header before it trusts them

---
 src/source/avro.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 2c9e514..86da939 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -141,6 +141,55 @@ fn read_metadata(
     Ok(Some(m))
 }
 
+/// Reads a variable-length zig-zag integer, the way Avro encodes lengths
+fn read_long(blob: &mut &[u8]) -> Option<i64> {
+    let mut num: u64 = 0;
+    for i in 0..10 {
+        let byte = blob.read_u8().ok()?;
+        num |= u64::from(byte & 0b0111_1111) << (i * 7);
+        if byte & 0b1000_0000 == 0 {
+            return Some((num >> 1) as i64 ^ -((num & 1) as i64));
+        }
+    }
+    None
+}
+
+/// Skips a length-prefixed string of bytes
+fn skip_bytes(blob: &mut &[u8]) -> Option<()> {
+    let len = read_long(blob)?;
+    if len < 0 || len as u64 > blob.len() as u64 {
+        return None;
+    }
+    *blob = &blob[len as usize..];
+    Some(())
+}
+
+/// Does the header of the container hold what it says it holds?
+///
+/// The decoder makes room for whatever length it comes across in the header
+/// before it looks for the bytes, however large. Running out of memory that
+/// way takes the whole process down.
+fn is_header_complete(mut blob: &[u8]) -> bool {
+    fn skip_header(blob: &mut &[u8]) -> Option<()> {
+        *blob = blob.get(4..)?;
+        loop {
+            let count = match read_long(blob)? {
+                0 => return Some(()),
+                n if n < 0 => {
+                    let _size = read_long(blob)?;
+                    n.checked_neg()?
+                }
+                n => n,
+            };
+            for _ in 0..count {
+                skip_bytes(blob)?;
+                skip_bytes(blob)?;
+            }
+        }
+    }
+    skip_header(&mut blob).is_some()
+}
+
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
@@ -164,6 +213,10 @@ impl From<Vec<u8>> for Payload {
             return Payload::Invalid("Failed to read avro payload!".to_string());
         }
 
+        if !is_header_complete(&avro_blob) {
+            return Payload::Invalid("Failed to read container header.".to_string());
+        }
+
         // TODO - Enforce configurable type naming requirements.
         // Check that the blob provided is valid Avro.
         if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {
-- 
2.43.0


From 3c52af06781c15fb2974b427c3de87cfb7f3e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 30/36] fix: avro source does not spin for a client which reads
 no acknowledgements

---
 src/source/avro.rs        |  8 ++++++--
 src/source/nonblocking.rs | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 86da939..82f0577 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -284,8 +284,12 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                if write_all(&stream, resp.get_ref())
-                                                    .is_err()
+                                                if write_all(
+                                                    &stream,
+                                                    poller,
+                                                    resp.get_ref(),
+                                                )
+                                                .is_err()
                                                 {
                                                     // Client went away before it
                                                     // got its answer.
diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 159c097..f954ddb 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,13 +1,18 @@
 //! Handy interfaces for nonblocking streams.
 
+use crate::constants;
 use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
-use std::{io, mem};
+use std::{io, mem, time};
 
 /// Like `std::net::TcpStream::write_all`, except it handles `WouldBlock` too.
+///
+/// The peer may take its time to read what it is sent, or never do it. Gives up
+/// when the thread is asked to shut down in the meantime.
 pub fn write_all(
     mut stream: &mio::net::TcpStream,
+    poller: &mio::Poll,
     bytes: &[u8],
 ) -> Result<(), io::Error> {
     let mut written = 0;
@@ -19,10 +24,18 @@ pub fn write_all(
             }
 
             Err(e) => match e.kind() {
-                io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted => {
+                io::ErrorKind::Interrupted => {
                     continue;
                 }
 
+                io::ErrorKind::WouldBlock => {
+                    let mut events = mio::Events::with_capacity(1024);
+                    poller.poll(&mut events, Some(time::Duration::from_millis(10)))?;
+                    if events.iter().any(|e| e.token() == constants::SYSTEM) {
+                        return Err(e);
+                    }
+                }
+
                 _ => {
                     error!("Failed to write bytes onto stream! {:?}", e);
                     return Err(e);
-- 
2.43.0


From 83b9cdc99ad2b7b4e478250864e833ae62fc273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 31/36] fix: file source delivers lines written in pieces, not
 UTF-8, or just before a rotation

---
 src/source/file/file_watcher.rs | 107 ++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..a96ff2d 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -1,4 +1,5 @@
 use crate::source::internal::report_full_telemetry;
+use std::cmp;
 use std::fs;
 use std::io;
 use std::io::BufRead;
@@ -18,6 +19,8 @@ pub struct FileWatcher {
     reader: Option<io::BufReader<fs::File>>,
     file_id: Option<(u64, u64)>,
     previous_size: u64,
+    position: u64,
+    partial: Vec<u8>,
     reopen: bool,
 }
 
@@ -49,12 +52,14 @@ impl FileWatcher {
                 let dev = metadata.dev();
                 let ino = metadata.ino();
                 let mut rdr = io::BufReader::new(f);
-                assert!(rdr.seek(io::SeekFrom::End(0)).is_ok());
+                let position = rdr.seek(io::SeekFrom::End(0))?;
                 Ok(FileWatcher {
                     path: path.clone(),
                     reader: Some(rdr),
                     file_id: Some((dev, ino)),
                     previous_size: 0,
+                    position: position,
+                    partial: Vec::new(),
                     reopen: false,
                 })
             }
@@ -66,6 +71,8 @@ impl FileWatcher {
                             reader: None,
                             file_id: None,
                             previous_size: 0,
+                            position: 0,
+                            partial: Vec::new(),
                             reopen: false,
                         }
                     };
@@ -77,19 +84,21 @@ impl FileWatcher {
     }
 
     fn open_at_start(&mut self) {
-        if let Ok(f) = fs::File::open(&self.path) {
-            let metadata = f.metadata().unwrap(); // we _must_ be able to read the metadata
-            let dev = metadata.dev();
-            let ino = metadata.ino();
-            self.file_id = Some((dev, ino));
-            self.previous_size = metadata.size();
-            self.reader = Some(io::BufReader::new(f));
-            if self.file_id.is_none() {
-                // It's possible that between opening the file and reading its
-                // ID the file will have been deleted. This is that branch.
-                self.file_id = None;
-                self.reader = None;
-            } else {
+        self.reopen = false;
+        let opened =
+            fs::File::open(&self.path).and_then(|f| f.metadata().map(|m| (f, m)));
+        match opened {
+            Ok((f, metadata)) => {
+                let id = Some((metadata.dev(), metadata.ino()));
+                if self.reader.is_some() && self.file_id == id {
+                    // It is the very file being read, after all.
+                    return;
+                }
+                self.file_id = id;
+                self.previous_size = metadata.size();
+                self.position = 0;
+                self.partial.clear();
+                self.reader = Some(io::BufReader::new(f));
                 report_full_telemetry(
                     "cernan.sources.file.switch",
                     1.0,
@@ -99,11 +108,15 @@ impl FileWatcher {
                     )]),
                 );
             }
-        } else {
-            self.reader = None;
-            self.file_id = None;
+            Err(ref e) if e.kind() == io::ErrorKind::NotFound => {
+                self.reader = None;
+                self.file_id = None;
+            }
+            Err(e) => {
+                // There is a file to read, it only cannot be opened now.
+                warn!("could not open {:?}: {:?}", self.path, e);
+            }
         }
-        self.reopen = false;
     }
 
     pub fn dead(&self) -> bool {
@@ -115,7 +128,7 @@ impl FileWatcher {
     /// This function will attempt to read a new line from its file, blocking,
     /// up to some maximum but unspecified amount of time. `read_line` will open
     /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
         if self.reopen {
             self.open_at_start();
         }
@@ -143,12 +156,18 @@ impl FileWatcher {
             // we will be UNABLE to determine the proper start index of this
             // write and we WILL return a partial write of length
             // absolute_write_idx - previous_size.
-            let current_size = reader.get_ref().metadata().unwrap().size();
-            if self.previous_size > current_size {
-                assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());
+            //
+            // More may have been read than previous_size tells, it is taken
+            // before the read.
+            let current_size = reader.get_ref().metadata()?.size();
+            let seen_size = cmp::max(self.previous_size, self.position);
+            if seen_size > current_size {
+                reader.seek(io::SeekFrom::Start(0))?;
+                self.position = 0;
+                self.partial.clear();
                 report_full_telemetry(
                     "cernan.sources.file.truncation",
-                    (self.previous_size - current_size) as f64,
+                    (seen_size - current_size) as f64,
                     Some(vec![(
                         "file_path",
                         self.path.to_str().expect("could not make path"),
@@ -156,25 +175,37 @@ impl FileWatcher {
                 );
             }
             self.previous_size = current_size;
-            // match here on error, if metadata doesn't match up open_at_start
-            // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
-                Ok(0) => {
-                    if file_id(&self.path) != self.file_id {
+            // What there is of a line which is still being written is kept in
+            // 'partial' until the rest comes in.
+            let mut rotated = false;
+            loop {
+                let start = self.partial.len();
+                let res = reader.read_until(b'\n', &mut self.partial);
+                self.position += (self.partial.len() - start) as u64;
+                if let Err(e) = res {
+                    if let io::ErrorKind::NotFound = e.kind() {
                         self.reopen = true;
                     }
-                    Ok(0)
+                    return Err(e);
                 }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
-                    Ok(buffer.len())
-                }
-                Err(e) => {
-                    if let io::ErrorKind::NotFound = e.kind() {
-                        self.reopen = true;
+                if self.partial.ends_with(b"\n") {
+                    self.partial.pop();
+                    buffer.push_str(&String::from_utf8_lossy(&self.partial));
+                    self.partial.clear();
+                    if !buffer.is_empty() {
+                        return Ok(buffer.len());
                     }
-                    Err(e)
+                } else if rotated {
+                    self.reopen = true;
+                    return Ok(0);
+                } else if file_id(&self.path) != self.file_id {
+                    // The path leads elsewhere by now. What came into our file
+                    // before it did may not have been read yet: switch on the
+                    // next looparound, but not before this file's end is seen
+                    // once more.
+                    rotated = true;
+                } else {
+                    return Ok(0);
                 }
             }
         } else {
-- 
2.43.0


From 56d4288d044018aa538c01b5ba097149690db60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 32/36] fix: prometheus endpoint survives a failing accept and
 a scraper which does not read its response

---
 src/http.rs            | 43 +++++++++++++++++++++++++++++++++++++-----
 src/sink/prometheus.rs | 43 +++++++++++++++++++++++++-----------------
 2 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 8e1c2de..c2cd2c5 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -28,18 +28,25 @@ pub struct Server {
     thread: thread::ThreadHandle,
 }
 
+/// How long to wait before listening again, in milliseconds.
+const RELISTEN_PAUSE: u64 = 100;
+
+/// Serve requests until told to stop or until the server can no longer accept.
+///
+/// Returns false in the latter case.
 fn http_server<H>(
     poller: &thread::Poll,
     tiny_http_server: &tiny_http::Server,
     handler: &H,
-) where
+) -> bool
+where
     H: Handler,
 {
     loop {
         let mut events = thread::Events::with_capacity(1024);
         match poller.poll(&mut events, Some(std::time::Duration::from_millis(5))) {
             Ok(num_events) if num_events > 0 => {
-                break;
+                return true;
             }
 
             Ok(_) => match tiny_http_server
@@ -52,7 +59,10 @@ fn http_server<H>(
                 }
 
                 Err(e) => {
-                    panic!(format!("Failed during recv_timeout {:?}", e));
+                    // tiny_http stops listening when a connection cannot be
+                    // accepted.
+                    warn!("Failed during recv_timeout {:?}", e);
+                    return false;
                 }
             },
 
@@ -63,14 +73,37 @@ fn http_server<H>(
     }
 }
 
+/// Listen again, unless told to stop.
+fn relisten(poller: &thread::Poll, host_port: &str) -> Option<tiny_http::Server> {
+    loop {
+        let mut events = thread::Events::with_capacity(1024);
+        let pause = std::time::Duration::from_millis(RELISTEN_PAUSE);
+        match poller.poll(&mut events, Some(pause)) {
+            Ok(num_events) if num_events > 0 => return None,
+            Ok(_) => match tiny_http::Server::http(host_port) {
+                Ok(server) => return Some(server),
+                Err(e) => warn!("Unable to listen on {}: {:?}", host_port, e),
+            },
+            Err(e) => panic!(format!("Failed during poll {:?}", e)),
+        }
+    }
+}
+
 /// Single threaded HTTP server implementation.
 impl Server {
     /// Create and start an HTTP server on the given host and port.
     pub fn new<H: Handler + 'static>(host_port: String, handler: H) -> Self {
         Server {
             thread: thread::spawn(move |poller| {
-                let tiny_http_server = tiny_http::Server::http(host_port).unwrap();
-                http_server(&poller, &tiny_http_server, &handler)
+                let mut server =
+                    Some(tiny_http::Server::http(host_port.as_str()).unwrap());
+                while let Some(tiny_http_server) = server {
+                    if http_server(&poller, &tiny_http_server, &handler) {
+                        return;
+                    }
+                    drop(tiny_http_server);
+                    server = relisten(&poller, &host_port);
+                }
             }),
         }
     }
diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 0aa7de4..6293499 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -26,6 +26,7 @@ use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Mutex;
+use std::thread;
 use std::time::Instant;
 
 /// Total reportable metrics
@@ -422,23 +423,31 @@ impl Handler for PrometheusHandler {
                 )
             };
 
-            let response = Response::new(
-                StatusCode::from(200),
-                headers.to_vec(),
-                &buffer[..],
-                Some(buffer.len()),
-                None,
-            );
-
-            match request.respond(response) {
-                Ok(_) => {
-                    PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);
-                }
-                Err(e) => {
-                    PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
-                    warn!("Failed to send prometheus response! {:?}", e);
-                }
-            };
+            // A client may take as long as it likes to read its response, or
+            // never do so. Nobody else should have to wait for that.
+            let responder = thread::Builder::new().spawn(move || {
+                let response = Response::new(
+                    StatusCode::from(200),
+                    headers,
+                    &buffer[..],
+                    Some(buffer.len()),
+                    None,
+                );
+
+                match request.respond(response) {
+                    Ok(_) => {
+                        PROMETHEUS_REPORT_SUCCESS.fetch_add(1, Ordering::Relaxed);
+                    }
+                    Err(e) => {
+                        PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
+                        warn!("Failed to send prometheus response! {:?}", e);
+                    }
+                };
+            });
+            if let Err(e) = responder {
+                PROMETHEUS_REPORT_ERROR.fetch_add(1, Ordering::Relaxed);
+                warn!("Failed to send prometheus response! {:?}", e);
+            }
         }
     }
 }
-- 
2.43.0


From 3cbb6d69d347b0a9af10d34d1a80bf7e12375ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 33/36] fix: prometheus summaries count and add up every sample
 of a point

---
 src/sink/prometheus.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 6293499..a76caa1 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -159,14 +159,16 @@ impl Accumulator {
             } => {
                 use std::u64;
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
+                // A single telemetry may carry many samples.
+                let cnt = telem.count() as u64;
                 // u64::wrapping_add makes a new u64. We need this to be
                 // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
+                if (u64::MAX - *count) <= cnt {
+                    *count = cnt;
                 } else {
-                    *count += 1;
+                    *count += cnt;
                 }
-                let val = telem.query(1.0).unwrap();
+                let val = telem.samples_sum().unwrap_or(0.0);
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -295,11 +297,12 @@ impl PrometheusAggr {
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
+                        let sum = telem.samples_sum().unwrap_or(0.0);
+                        let count = telem.count() as u64;
                         samples.push(telem);
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
+                            count,
                             sum,
                             samples,
                         }
-- 
2.43.0


From 44accbb0d73ab01e657b12fb3ab67f413639bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 34/36] fix: prometheus label values are escaped and names
 never start with a digit

---
 src/sink/prometheus.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index a76caa1..2771b01 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -462,6 +462,11 @@ where
 {
     s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
+    // The text format wants these three characters escaped in label values.
+    let v = v
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n");
     s.write_all(v.as_bytes())?;
     s.write_all(b"\"")
 }
@@ -627,9 +632,16 @@ where
 /// Metrics coming into cernan can have full utf8 names, save for some ingestion
 /// protocols that special-case certain characters. To cope with this we just
 /// mangle the mess out of names and hope for forgiveness in the hereafter.
+///
+/// A name may not be empty or start with a digit: one which does gets an
+/// underscore in front.
 fn sanitize(name: &str) -> String {
     let name: String = name.to_string();
     let mut new_name: Vec<u8> = Vec::with_capacity(128);
+    match name.as_bytes().first() {
+        None | Some(b'0'...b'9') => new_name.push(b'_'),
+        _ => {}
+    }
     for c in name.as_bytes() {
         match *c {
             b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b':' | b'_' => new_name.push(*c),
-- 
2.43.0


From 61f031bfa26d4d1e13050556460de289c8535586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 35/36] fix: the receiver of a full queue is told what waits
 for it on disk

---
 src/util.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 06cd79c..57e0577 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -57,11 +57,16 @@ fn send_one(chan: &mut hopper::Sender<metric::Event>, mut event: metric::Event)
         // stop.
         match (res.1, res.0) {
             (hopper::Error::Full, metric::Event::Shutdown) => {
+                let _ = chan.flush();
                 attempts += 1;
                 time::delay(attempts);
                 event = metric::Event::Shutdown;
             }
             (hopper::Error::Full, _) => {
+                // The receiver learns of what is on disk with the sends that
+                // follow. As long as these fail it would wait for them, and
+                // make no room.
+                let _ = chan.flush();
                 UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);
                 break;
             }
-- 
2.43.0


From 26ced7f8c9c105dfdcbeceefe7f990919fce9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 36/36] fix: counters of graphite connections, undecodable
 statsd packets and purged prometheus windows add up

---
 src/sink/prometheus.rs | 2 +-
 src/source/graphite.rs | 1 +
 src/source/statsd.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 2771b01..17ac6bc 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -679,7 +679,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn flush(&mut self) {
         let total_purged = self.aggrs.lock().unwrap().purge();
-        PROMETHEUS_AGGR_WINDOWED_PURGED.store(total_purged, Ordering::Relaxed);
+        PROMETHEUS_AGGR_WINDOWED_PURGED.fetch_add(total_purged, Ordering::Relaxed);
     }
 
     fn deliver(&mut self, telem: Telemetry) {
diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 2c01269..6fb15a9 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -67,6 +67,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
 
+        GRAPHITE_NEW_PEER.fetch_add(1, Ordering::Relaxed);
         loop {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index af4c050..4c57a12 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -118,6 +118,7 @@ impl Statsd {
                         }
                     }
                     Err(e) => {
+                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                         error!("Payload not valid UTF-8: {:?}", e);
                     }
                 },
-- 
2.43.0

