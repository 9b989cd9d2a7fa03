From e2fbf4c59a5d95b7f26280e062ec6dfe5f3e0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 01/12] fix: recognise decoys by the ignore bit alone

BIP-324 defines only the top bit of the header byte; the other bits are
to be ignored, but a packet with any of them set next to the ignore bit
was treated as genuine.
---
 protocol/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..34e6d21 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,7 +396,7 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From 41bdc16209ecebdf99750300cca9cd64f82e3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 02/12] fix: report short ciphertexts in decrypt_to_vec as too
 small

The buffer length computation underflowed for fewer than 16 bytes: a
panic with overflow checks, a misleading PacketTooBig without.
---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 34e6d21..e6ef6b9 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -572,6 +572,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From b13df5b973091c51498dacb26cffe9f69e6d8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 03/12] fix: refuse to seal contents the 3-byte length cannot
 represent

The length was silently truncated, which desynchronised the stream for
the receiver while the sender was told the write succeeded.
---
 protocol/src/io.rs  | 11 ++++++++---
 protocol/src/lib.rs | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..b3ecdae 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -564,9 +564,14 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index e6ef6b9..4753f49 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -163,6 +163,8 @@ const NUM_GARBAGE_TERMINTOR_BYTES: usize = 16;
 const NUM_TAG_BYTES: usize = 16;
 // Number of bytes per packet for static layout, everything not including contents.
 const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + NUM_TAG_BYTES;
+// Maximum length of contents which can be represented in the length prefix of a packet.
+const MAX_CONTENTS_LEN: usize = (1 << (8 * NUM_LENGTH_BYTES)) - 1;
 // Maximum packet size for automatic allocation.
 // Bitcoin Core's MAX_PROTOCOL_MESSAGE_LENGTH is 4,000,000 bytes (~4 MiB).
 // 14 extra bytes are for the BIP-324 header byte and 13 serialization header bytes (message type).
@@ -614,6 +616,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext length does not fit the 3-byte length encoding.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -621,6 +624,11 @@ impl OutboundCipher {
         packet_type: PacketType,
         aad: Option<&[u8]>,
     ) -> Result<(), Error> {
+        // The length prefix is only three bytes on the wire.
+        if plaintext.len() > MAX_CONTENTS_LEN {
+            return Err(Error::PacketTooBig);
+        }
+
         // Validate buffer capacity.
         if ciphertext_buffer.len() < Self::encryption_buffer_len(plaintext.len()) {
             return Err(Error::BufferTooSmall {
@@ -671,6 +679,10 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext length does not fit the 3-byte length encoding.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -681,9 +693,9 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // The buffer is exactly the required size, so only an oversized plaintext can fail.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
-            .expect("encrypt should never fail with correctly sized buffer");
+            .expect("plaintext length to fit in the 3-byte length encoding");
 
         ciphertext_buffer
     }
-- 
2.43.0


From 183c88b97676a5c7a19a0907ec1107dae6d49752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 04/12] fix: end the writer task once its handle is dropped

The else branch of a select only runs when every other branch is
disabled, and the interval never is. The task, and with it the transport
writer, lived on and kept sending decoys.
---
 traffic/src/futures.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..a1ae30b 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,12 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let cmd = match cmd {
+                    Some(cmd) => cmd,
+                    None => break,
+                };
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +248,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From 2bc457727b5020a9828c1534dc3f4c93977a81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 05/12] fix: surface background decoy write failures

A failed decoy write leaves the stream torn with the cipher already
advanced. It was ignored, so that later writes reported success for
packets the peer can never decrypt.
---
 traffic/src/futures.rs |  7 +++++--
 traffic/src/io.rs      | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index a1ae30b..404d95c 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -244,8 +244,11 @@ async fn writer_task<W, R>(
             // Concurrently send decoys.
             _ = decoy_interval.tick() => {
                 if let Some(decoy) = shaper.decoy(&stats) {
-                    // Ignore write errors for decoys - they're best-effort.
-                    let _ = writer.write(&decoy).await;
+                    // A failed write may leave a partial packet on the wire, nothing
+                    // can follow it. Writers see the task terminate.
+                    if writer.write(&decoy).await.is_err() {
+                        break;
+                    }
                 }
             }
         }
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..bec4b0d 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -19,6 +19,8 @@ use crate::{
 struct WriterState<W, R = rand::rngs::StdRng> {
     writer: ProtocolWriter<W>,
     shaper: TrafficShaper<R>,
+    /// Failure of a background decoy write, to be reported by the next write.
+    decoy_error: Option<ProtocolError>,
 }
 
 /// Traffic-shaped protocol reader half.
@@ -124,6 +126,7 @@ where
         let writer_state = Arc::new(Mutex::new(WriterState {
             writer: protocol_writer,
             shaper,
+            decoy_error: None,
         }));
 
         // Create shutdown flag and spawn decoy thread.
@@ -184,6 +187,9 @@ where
     /// Write a payload with traffic shaping.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
         let mut state = self.writer_state.lock().unwrap();
+        if let Some(e) = state.decoy_error.take() {
+            return Err(e);
+        }
         if let Some(decoy) = state.shaper.pad(payload, &self.stats) {
             state.writer.write(&decoy)?;
         }
@@ -227,7 +233,12 @@ fn decoy_thread<W, R>(
         };
 
         if let Some(decoy) = state.shaper.decoy(&stats) {
-            let _ = state.writer.write(&decoy);
+            // A failed write may leave a partial packet on the wire, nothing
+            // can follow it. The next writer picks up the error.
+            if let Err(e) = state.writer.write(&decoy) {
+                state.decoy_error = Some(e);
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From e97fe43d457eec088b116c5732069f0e10dca8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 06/12] fix: stop the writer task after a failed write

If the caller had dropped the write by the time it failed, nobody learned
of the failure and the next write reported success on a torn stream.
---
 traffic/src/futures.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index 404d95c..abdbbdf 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -237,8 +237,16 @@ async fn writer_task<W, R>(
                     }
                 }
 
+                // A failed write may leave a partial packet on the wire, nothing
+                // can follow it.
+                let torn = matches!(result, Err(ProtocolError::Io(..)));
+
                 // Send result back (ignore if receiver dropped).
                 let _ = cmd.result_tx.send(result);
+
+                if torn {
+                    break;
+                }
             }
 
             // Concurrently send decoys.
-- 
2.43.0


From c02d566ef79e15a90f347c1ca52acbb5d65174f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 07/12] fix: retry interrupted reads while looking for the
 garbage terminator

read_exact and write_all retry everywhere else in the handshake.
---
 protocol/src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b3ecdae..1ab341b 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -379,6 +379,7 @@ where
                     Ok(n) => {
                         garbage_buffer.extend_from_slice(&temp[..n]);
                     }
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                     Err(e) => return Err(ProtocolError::from(e)),
                 }
             }
-- 
2.43.0


From 2382af91da942160f8ed59c4e02bfa735ad24ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 08/12] fix: apply the allocation limit in the asynchronous
 reader as well

The blocking reader refuses packets above the limit, the asynchronous one
delivered them.
---
 protocol/src/futures.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dd6af62..08ad61e 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -436,10 +436,8 @@ where
                         *bytes_read += len;
                     }
 
-                    let plaintext_len = InboundCipher::decryption_buffer_len(packet_bytes.len());
-                    let mut plaintext_buffer = vec![0u8; plaintext_len];
-                    self.inbound_cipher
-                        .decrypt(packet_bytes, &mut plaintext_buffer, None)?;
+                    let (_, plaintext_buffer) =
+                        self.inbound_cipher.decrypt_to_vec(packet_bytes, None)?;
                     self.state = DecryptState::init_reading_length();
                     return Ok(Payload::decrypted(plaintext_buffer));
                 }
-- 
2.43.0


From 6d000b932d765ad51acd7ca478fa04fc1484fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 09/12] fix: compare the plaintext size with the allocation
 limit in the handshake

The limit is on the plaintext, as in the session readers, but here it was
compared with the size including the tag.
---
 protocol/src/futures.rs | 2 +-
 protocol/src/io.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index 08ad61e..cf42b5a 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -228,7 +228,7 @@ where
         // Decrypt packet length.
         session_reader.read_exact(&mut length_bytes).await?;
         let packet_len = handshake.decrypt_packet_len(length_bytes)?;
-        if packet_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
+        if InboundCipher::decryption_buffer_len(packet_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
             return Err(ProtocolError::Internal(Error::PacketTooBig));
         }
 
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index 1ab341b..4bf9007 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -395,7 +395,7 @@ where
         // Decrypt packet length.
         session_reader.read_exact(&mut length_bytes)?;
         let packet_len = handshake.decrypt_packet_len(length_bytes)?;
-        if packet_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
+        if InboundCipher::decryption_buffer_len(packet_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
             return Err(ProtocolError::Internal(Error::PacketTooBig));
         }
 
-- 
2.43.0


From 0224b2d70c16a263741fa918eccba8fd3c2aab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 10/12] fix: count length chunks with 64 bits

As the packet cipher does. The 32-bit counter overflowed after 2^32
packets, a panic with overflow checks and a repeated nonce without.
---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..a87ed8f 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_div = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_div);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From c9a17a963118966886741d62d40935167a549600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 11/12] fix: start default traffic statistics at the time of
 creation

The derived default put the last activity at the epoch.
---
 traffic/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index d7be82a..6f4e7be 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -241,7 +241,7 @@ pub trait TrafficStats: Send + Sync {
 ///
 /// All methods on this struct are safe to call from multiple threads concurrently.
 /// The statistics use atomic operations to ensure consistency without locks.
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct AtomicTrafficStats {
     /// Total bytes read from the connection.
     bytes_read: AtomicU64,
@@ -255,6 +255,12 @@ pub struct AtomicTrafficStats {
     last_activity_ms: AtomicU64,
 }
 
+impl Default for AtomicTrafficStats {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl AtomicTrafficStats {
     /// Create a new traffic statistics tracker with all counters at zero.
     pub fn new() -> Self {
-- 
2.43.0


From 3a67f9bc55e5b992ab1c31900d39b3f7fddaf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 12/12] fix: draw ephemeral keys from the operating system

---
 protocol/src/handshake.rs | 3 ++-
 protocol/src/lib.rs       | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol/src/handshake.rs b/protocol/src/handshake.rs
index 2bcc693..faf59c0 100644
--- a/protocol/src/handshake.rs
+++ b/protocol/src/handshake.rs
@@ -113,7 +113,8 @@ impl Handshake<Initialized> {
     /// Initialize a V2 transport handshake with a remote peer.
     #[cfg(feature = "std")]
     pub fn new(magic: impl Borrow<[u8; 4]>, role: Role) -> Result<Self, Error> {
-        let mut rng = secp256k1::rand::thread_rng();
+        // Thread local generators are copied by a fork, parent and child would then share keys.
+        let mut rng = secp256k1::rand::rngs::OsRng;
         let curve = Secp256k1::signing_only();
         Self::new_with_rng(magic, role, &mut rng, &curve)
     }
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 4753f49..9145c27 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -797,11 +797,13 @@ macro_rules! impl_fill_bytes {
 }
 
 #[cfg(feature = "std")]
-use secp256k1::rand::rngs::{StdRng, ThreadRng};
+use secp256k1::rand::rngs::{OsRng, StdRng, ThreadRng};
 #[cfg(feature = "std")]
 impl_fill_bytes!(StdRng);
 #[cfg(feature = "std")]
 impl_fill_bytes!(ThreadRng);
+#[cfg(feature = "std")]
+impl_fill_bytes!(OsRng);
 
 #[cfg(all(test, feature = "std"))]
 mod tests {
-- 
2.43.0

