From 730e98212c6c2d0a3a3509e166ded5f82ae4aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 01/33] fix: advance multipart offset to the end of the sent
 part

build_part_message added the end position of the part to the offset, which
skipped bytes of every message that needs more than two parts.
---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..af03dcb 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -157,7 +157,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 7feac5d7de0f24d84e481c6395a76be70f28cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 02/33] fix: never replace accepted transfer parts and ignore
 empty ones

A repeated offset replaced the accepted data, and an empty part could make
the assembly loop spin forever.
---
 src/adnl/transfer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..55771c0 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -48,11 +48,21 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
+        // Ignore empty parts, they can't make any progress
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
+        if len == 0 {
             return Ok(None);
         }
 
+        match self.parts.entry(offset) {
+            Entry::Vacant(entry) => {
+                entry.insert(data);
+            }
+            Entry::Occupied(_) => return Ok(None),
+        }
+
         // Increase received length.
         // This part heavily relies on ordering, so hope that it works as expected
         self.received_len.fetch_add(len, Ordering::Release);
-- 
2.43.0


From d924a05960b78e61ab46d562832e723fb0852352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 03/33] fix: don't register a tag for a rejected key

---
 src/adnl/keystore.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index 6181295..3418d98 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -51,16 +51,14 @@ impl Keystore {
         let (_, short_id) = secret_key.compute_node_ids();
 
         match self.tags.entry(tag) {
-            hash_map::Entry::Vacant(entry) => {
-                entry.insert(short_id);
-                match self.keys.entry(short_id) {
-                    hash_map::Entry::Vacant(entry) => {
-                        entry.insert(Arc::new(secret_key.into()));
-                        Ok(short_id)
-                    }
-                    hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            hash_map::Entry::Vacant(tag_entry) => match self.keys.entry(short_id) {
+                hash_map::Entry::Vacant(entry) => {
+                    entry.insert(Arc::new(secret_key.into()));
+                    tag_entry.insert(short_id);
+                    Ok(short_id)
                 }
-            }
+                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            },
             hash_map::Entry::Occupied(entry) => {
                 if entry.get() == &short_id {
                     Ok(short_id)
-- 
2.43.0


From ff39dd496c116512b94e6b2438f2aa96ca30d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 04/33] fix: require signature for handshake packets with a
 short source id

---
 src/adnl/node/receiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..8d146d1 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -450,7 +450,7 @@ impl Node {
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                !from_channel && self.options.packet_signature_required,
             )?;
         }
 
-- 
2.43.0


From 6b936fb22dfc233b4a8f0f0b9c124780a87b1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 05/33] fix: advance packets history window and record the
 packet which opened it

The window never moved, so packets beyond the first one were neither
recorded nor rejected. Also don't overflow on a huge seqno and don't accept
the same packet twice when it is delivered concurrently.
---
 src/util/packets_history.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..2ecfdf4 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -91,7 +91,7 @@ impl PacketsHistory {
             let index_masked = index & INDEX_MASK;
             let index_normalized = index & !INDEX_MASK;
 
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
+            if index_normalized.saturating_sub(seqno_normalized) > INDEX_MASK + 1 {
                 tracing::debug!(seqno, index_normalized, "peer packet is too old");
                 return false;
             }
@@ -125,7 +125,12 @@ impl PacketsHistory {
                         continue;
                     }
 
-                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+                    // Other thread could have delivered the same packet before the index was locked
+                    let bits = mask.bits[mask_offset].fetch_or(mask_bit, Ordering::AcqRel);
+                    if bits & mask_bit != 0 {
+                        mask.index.store(index, Ordering::Release);
+                        return false;
+                    }
 
                     index
                 }
@@ -155,7 +160,11 @@ impl PacketsHistory {
                         }
                     }
 
-                    index_normalized
+                    // Mark packet as delivered in the new window
+                    mask.bits[HISTORY_SIZE / 2 + seqno_masked as usize / 64]
+                        .fetch_or(mask_bit, Ordering::Release);
+
+                    seqno_normalized
                 }
             };
 
-- 
2.43.0


From 39c9d17da46620632c32e1ce41e1cf90ed52f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 06/33] fix: never move peer reinit date back on concurrent
 updates

---
 src/adnl/peer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 6c5cb7c..5782c69 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -39,11 +39,10 @@ impl Peer {
     /// It is only allowed to update peer reinit date if it is greater or equal to the known one
     #[inline(always)]
     pub fn try_reinit_sender(&self, reinit_date: u32) -> bool {
-        let sender_reinit_date = self.sender_state.reinit_date();
+        let sender_reinit_date = self.sender_state.advance_reinit_date(reinit_date);
         match reinit_date.cmp(&sender_reinit_date) {
             std::cmp::Ordering::Equal => true,
             std::cmp::Ordering::Greater => {
-                self.sender_state.set_reinit_date(reinit_date);
                 if sender_reinit_date != 0 {
                     self.sender_state.history(false).reset();
                     self.sender_state.history(true).reset();
@@ -159,8 +158,11 @@ impl PeerState {
         self.reinit_date.load(Ordering::Acquire)
     }
 
-    pub fn set_reinit_date(&self, reinit_date: u32) {
-        self.reinit_date.store(reinit_date, Ordering::Release)
+    /// Moves reinit date forward and returns the previous one.
+    ///
+    /// NOTE: The date never goes back, even when it is updated concurrently
+    pub fn advance_reinit_date(&self, reinit_date: u32) -> u32 {
+        self.reinit_date.fetch_max(reinit_date, Ordering::AcqRel)
     }
 }
 
-- 
2.43.0


From 7b467580ce9f31116b82ccb1482601da8b77258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 07/33] fix: verify that DHT lookup results belong to the
 requested key and satisfy their update rule

---
 src/dht/entry.rs   |  2 +-
 src/dht/node.rs    | 61 +++++++++++++++++++++++++++++++++++++++++++---
 src/dht/streams.rs |  6 ++++-
 3 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..f4cdda8 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..15ca041 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -346,6 +346,11 @@ impl Node {
     ) -> Result<(SocketAddrV4, adnl::NodeIdFull)> {
         let mut values = self.entry(peer_id, KEY_ADDRESS).values();
         while let Some((key, BoxedWrapper(value))) = values.next().await {
+            // Only signed address lists can be trusted
+            if key.update_rule != proto::dht::UpdateRule::Signature {
+                continue;
+            }
+
             match (
                 parse_address_list(&value, self.adnl.options().clock_tolerance_sec),
                 adnl::NodeIdFull::try_from(key.id.as_equivalent_ref()),
@@ -495,6 +500,7 @@ impl Node {
 
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -502,9 +508,10 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
-                if value.key.update_rule == proto::dht::UpdateRule::Signature {
-                    verify_signed_dht_value(&mut value)?;
+                if key_id != &tl_proto::hash_as_boxed(value.key.key) {
+                    return Err(DhtNodeError::InvalidValueKey.into());
                 }
+                verify_dht_value(&mut value)?;
 
                 let parsed = tl_proto::deserialize(value.value)?;
                 Ok(Some((value.key.as_equivalent_owned(), parsed)))
@@ -726,17 +733,32 @@ impl QuerySubscriber for NodeState {
     }
 }
 
-fn verify_signed_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
+/// Verifies that the received value satisfies its update rule
+fn verify_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
     if value.key.key.id != &tl_proto::hash(value.key.id) {
         return Err(DhtNodeError::InvalidValueKey.into());
     }
 
+    match value.key.update_rule {
+        proto::dht::UpdateRule::Signature => verify_signed_dht_value(value),
+        proto::dht::UpdateRule::Anybody => verify_unsigned_dht_value(value),
+        proto::dht::UpdateRule::OverlayNodes => verify_overlay_nodes(value),
+    }
+}
+
+fn verify_dht_value_key(value: &mut proto::dht::Value<'_>) -> Result<adnl::NodeIdFull> {
     let full_id = adnl::NodeIdFull::try_from(value.key.id)?;
 
     let key_signature = std::mem::take(&mut value.key.signature);
     full_id.verify(value.key.as_boxed(), key_signature)?;
     value.key.signature = key_signature;
 
+    Ok(full_id)
+}
+
+fn verify_signed_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
+    let full_id = verify_dht_value_key(value)?;
+
     let value_signature = std::mem::take(&mut value.signature);
     full_id.verify(value.as_boxed(), value_signature)?;
     value.signature = value_signature;
@@ -744,6 +766,35 @@ fn verify_signed_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
     Ok(())
 }
 
+fn verify_unsigned_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
+    verify_dht_value_key(value)?;
+
+    if !value.signature.is_empty() {
+        return Err(DhtNodeError::InvalidValueSignature.into());
+    }
+    Ok(())
+}
+
+fn verify_overlay_nodes(value: &proto::dht::Value<'_>) -> Result<()> {
+    if !value.signature.is_empty() || !value.key.signature.is_empty() {
+        return Err(DhtNodeError::InvalidValueSignature.into());
+    }
+
+    let overlay_id = match value.key.id {
+        everscale_crypto::tl::PublicKey::Overlay { .. } => {
+            overlay::IdShort::from(tl_proto::hash(value.key.id))
+        }
+        _ => return Err(DhtNodeError::InvalidValueKey.into()),
+    };
+
+    let proto::overlay::Nodes { nodes } = tl_proto::deserialize_as_boxed(value.value)?;
+    for node in &nodes {
+        overlay_id.verify_overlay_node(node)?;
+    }
+
+    Ok(())
+}
+
 /// Instant DHT node metrics
 #[derive(Debug, Copy, Clone)]
 pub struct NodeMetrics {
@@ -765,4 +816,6 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Invalid value signature")]
+    InvalidValueSignature,
 }
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..a250e6b 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From b6054502b174062faffd0aaffb5809ee3c160608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 08/33] fix: reject nested DHT query prefixes

---
 src/dht/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 15ca041..2a63191 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -712,7 +712,8 @@ impl QuerySubscriber for NodeState {
                 let proto::rpc::DhtQuery { node } = <_>::read_from(&query, &mut offset)?;
                 let constructor = u32::read_from(&query, &mut std::convert::identity(offset))?;
 
-                if offset >= query.len() {
+                // Nested prefixes are not allowed
+                if offset >= query.len() || constructor == proto::rpc::DhtQuery::TL_ID {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-- 
2.43.0


From 9f1eba8ae66cc8d236996c57dfc958108c19d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 09/33] fix: count timed out DHT queries and the first failure
 against the peer

---
 src/dht/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 2a63191..c0b2aee 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -459,7 +459,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(result, Ok(Some(_))));
         result
     }
 
@@ -477,7 +478,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(result, Ok(Some(_))));
         result
     }
 
@@ -494,7 +496,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(result, Ok(Some(_))));
         result
     }
 
@@ -629,7 +632,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From d677eb02f5f886553dbe2e6a8b115851f1d2174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 10/33] fix: stop DHT storage gc when the node is dropped

---
 src/dht/node.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index c0b2aee..37e2303 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -147,8 +147,9 @@ impl Node {
         tokio::spawn(async move {
             loop {
                 tokio::time::sleep(interval).await;
-                if let Some(state) = state.upgrade() {
-                    state.storage.gc();
+                match state.upgrade() {
+                    Some(state) => state.storage.gc(),
+                    None => break,
                 }
             }
         });
-- 
2.43.0


From be9da94d2a8991f920118a76b8327bddcc3dbe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 11/33] fix: stop overlay nodes search when there are no new
 candidates

---
 src/dht/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 37e2303..d695645 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -321,6 +321,11 @@ impl Node {
                 });
             }
 
+            // Stop searching when there are no new candidates
+            if futures.is_empty() {
+                break;
+            }
+
             // Wait all results
             while let Some((ip, node)) = futures.next().await {
                 match ip {
-- 
2.43.0


From 8c5fac80542266243c1119408f250a0ceedd0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 12/33] fix: validate FEC parameters and packets before
 decoding them

---
 src/overlay/overlay.rs        |  7 +++++--
 src/rldp/decoder.rs           | 32 ++++++++++++++++++++++++++++----
 src/rldp/incoming_transfer.rs | 16 +++++++++++++---
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..0119617 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -964,6 +964,9 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder =
+            RaptorQDecoder::with_params(fec_type).ok_or(OverlayError::InvalidFecParameters)?;
+
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -979,8 +982,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
@@ -1417,6 +1418,8 @@ type BroadcastId = [u8; 32];
 enum OverlayError {
     #[error("Unsupported signature")]
     UnsupportedSignature,
+    #[error("Invalid FEC parameters")]
+    InvalidFecParameters,
     #[error("Data size mismatch")]
     DataSizeMismatch,
     #[error("Data hash mismatch")]
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..98787c4 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use everscale_raptorq::{Decoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
 
 use crate::proto::rldp::RaptorQFecType;
@@ -9,18 +11,32 @@ pub struct RaptorQDecoder {
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    /// Creates a decoder. Returns `None` if it is impossible to decode anything with these params
+    pub fn with_params(params: RaptorQFecType) -> Option<Self> {
+        let packet_len = u16::try_from(params.packet_len).ok()?;
+        if params.total_len == 0
+            || packet_len < MIN_PACKET_LEN
+            || packet_len % PACKET_ALIGNMENT != 0
+            || (params.total_len - 1) / params.packet_len >= MAX_SOURCE_PACKETS
+        {
+            return None;
+        }
+
+        Some(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
-                params.packet_len as u16,
+                packet_len,
             )),
             params,
             seqno: 0,
-        }
+        })
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+        if seqno > MAX_SEQNO || data.len() != self.params.packet_len as usize {
+            return None;
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
         self.engine.decode(packet)
@@ -34,3 +50,11 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+/// Encoding symbol id is a 24-bit unsigned integer
+const MAX_SEQNO: u32 = 0xffffff;
+/// Symbols are split into 8 byte sub-symbols and there must be at least 8 of them
+const PACKET_ALIGNMENT: u16 = 8;
+const MIN_PACKET_LEN: u16 = 64;
+/// Max number of source symbols per one source block
+const MAX_SOURCE_PACKETS: u32 = 56403;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..2a0278f 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -78,9 +78,17 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None => {
+                    // Part size must not exceed the remaining size of the transfer
+                    if fec_type.total_len as usize > total_size.saturating_sub(self.data.len()) {
+                        return Err(IncomingTransferError::TooBigTransferSize.into());
+                    }
+
+                    match RaptorQDecoder::with_params(fec_type) {
+                        Some(decoder) => self.decoder.insert(decoder),
+                        None => return Err(IncomingTransferError::InvalidFecParameters.into()),
+                    }
+                }
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
@@ -172,6 +180,8 @@ enum IncomingTransferError {
     TotalSizeMismatch,
     #[error("Packet parameters mismatch")]
     PacketParametersMismatch,
+    #[error("Invalid FEC parameters")]
+    InvalidFecParameters,
     #[error("Too big size for RLDP transfer")]
     TooBigTransferSize,
 }
-- 
2.43.0


From d6e335700d10ac32b7595760eb8f065d0d4d1b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 13/33] fix: ignore overflowing part in RLDP complete message

---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..aee93ff 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -256,7 +256,9 @@ impl TransfersCache {
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
                     if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                        if let Some(next_part) = part.checked_add(1) {
+                            state.set_part(next_part);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 20eeb777df9d052ca783355ad10a773044d98b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 14/33] fix: avoid underflow of RLDP sender window on the next
 parts

---
 src/rldp/outgoing_transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..40f2216 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -78,7 +78,7 @@ impl OutgoingTransfer {
         let seqno_in = self.state.seqno_in();
 
         let mut next_seqno_out = seqno_out;
-        if seqno_out - seqno_in <= WINDOW {
+        if seqno_out.saturating_sub(seqno_in) <= WINDOW {
             if previous_seqno_out == seqno_out {
                 next_seqno_out += 1;
             }
-- 
2.43.0


From 356abe0f799db98d8281c497f87eb1bc19ffbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 15/33] fix: don't restore removed RLDP transfers on timeout

---
 src/rldp/transfers_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index aee93ff..9014c64 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -333,7 +333,10 @@ impl TransfersCache {
         let interval = self.query_options.completion_interval();
         tokio::spawn(async move {
             tokio::time::sleep(interval).await;
-            transfers.insert(transfer_id, RldpTransfer::Done);
+            // NOTE: entry could already be removed, so it must not be created again
+            if let Some(mut transfer) = transfers.get_mut(&transfer_id) {
+                *transfer = RldpTransfer::Done;
+            }
         });
 
         // Done
-- 
2.43.0


From 524adaa6cb7cb962422ef1d6681cbcdaf9c1fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 16/33] fix: remove outgoing RLDP transfer when sending an
 answer fails

---
 src/rldp/transfers_cache.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 9014c64..78915ec 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -450,9 +450,11 @@ impl IncomingContext {
         };
 
         // Send answer
-        outgoing_context.send(query_options, None).await?;
+        if let Err(e) = outgoing_context.send(query_options, None).await {
+            tracing::warn!("failed to send RLDP answer: {e:?}");
+        }
 
-        // Done
+        // NOTE: transfer id must always be returned here so the transfer entry will be removed
         Ok(Some(outgoing_transfer_id))
     }
 }
-- 
2.43.0


From 2e3b4391979678bb467c998dd68174e09bee1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 17/33] fix: avoid overflow when checking broadcast date

---
 src/overlay/overlay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 0119617..6f413e7 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1131,7 +1131,7 @@ impl Overlay {
     }
 
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        date.saturating_add(self.options.broadcast_timeout_sec as u32) < now()
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
-- 
2.43.0


From e0564f0dec61894a4b34384f29f736b727450834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 18/33] fix: don't process incomplete RLDP transfers

---
 src/rldp/transfers_cache.rs | 45 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 78915ec..5adfa40 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -90,10 +90,12 @@ impl TransfersCache {
         tokio::spawn({
             let barrier = barrier.clone();
             async move {
-                incoming_context
+                if incoming_context
                     .receive(Some(outgoing_transfer_state))
-                    .await;
-                *barrier.lock() = Some(incoming_context.transfer);
+                    .await
+                {
+                    *barrier.lock() = Some(incoming_context.transfer);
+                }
             }
         });
 
@@ -306,19 +308,23 @@ impl TransfersCache {
         let force_compression = self.force_compression;
         tokio::spawn(async move {
             // Wait until incoming query is received
-            incoming_context.receive(None).await;
+            let is_complete = incoming_context.receive(None).await;
             transfers.insert(transfer_id, RldpTransfer::Done);
 
-            // Process query
-            let outgoing_transfer_id = incoming_context
-                .answer(
-                    transfers.clone(),
-                    subscribers,
-                    query_options,
-                    force_compression,
-                )
-                .await
-                .unwrap_or_default();
+            // Process query (only if it was fully received)
+            let outgoing_transfer_id = if is_complete {
+                incoming_context
+                    .answer(
+                        transfers.clone(),
+                        subscribers,
+                        query_options,
+                        force_compression,
+                    )
+                    .await
+                    .unwrap_or_default()
+            } else {
+                None
+            };
 
             // Clear transfers in background
             tokio::time::sleep(query_options.completion_interval()).await;
@@ -360,8 +366,14 @@ struct IncomingContext {
 }
 
 impl IncomingContext {
+    /// Receives message parts. Returns `true` only if all bytes were received
     #[tracing::instrument(level = "debug", skip_all)]
-    async fn receive(&mut self, mut outgoing_transfer_state: Option<Arc<OutgoingTransferState>>) {
+    async fn receive(
+        &mut self,
+        mut outgoing_transfer_state: Option<Arc<OutgoingTransferState>>,
+    ) -> bool {
+        let mut is_complete = false;
+
         // For each incoming message part
         while let Some(message) = self.parts_rx.recv().await {
             // Trying to process its data
@@ -391,6 +403,7 @@ impl IncomingContext {
             // Exit loop if all bytes were received
             match self.transfer.total_size() {
                 Some(total_size) if self.transfer.data().len() >= total_size => {
+                    is_complete = true;
                     break;
                 }
                 None => {
@@ -403,6 +416,8 @@ impl IncomingContext {
         // Close and clear parts channel
         self.parts_rx.close();
         while self.parts_rx.recv().await.is_some() {}
+
+        is_complete
     }
 
     #[tracing::instrument(level = "debug", skip_all)]
-- 
2.43.0


From f21823c1777c0b24c3b86086d163c5090cd1adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 19/33] fix: remove RLDP transfers when the query future is
 dropped

---
 src/rldp/transfers_cache.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 5adfa40..960df4a 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -66,6 +66,13 @@ impl TransfersCache {
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Incoming(parts_tx));
 
+        // Remove transfers if this future is dropped before completion
+        let mut cancellation_guard = TransfersGuard {
+            transfers: &self.transfers,
+            transfer_ids: [outgoing_transfer_id, incoming_transfer_id],
+            completed: false,
+        };
+
         // Prepare contexts
         let outgoing_context = OutgoingContext {
             adnl: adnl.clone(),
@@ -145,6 +152,7 @@ impl TransfersCache {
 
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Done);
+        cancellation_guard.completed = true;
 
         // Clear transfers in background
         tokio::spawn({
@@ -350,6 +358,23 @@ impl TransfersCache {
     }
 }
 
+/// Removes query transfers on drop if the query was not completed
+struct TransfersGuard<'a> {
+    transfers: &'a FastDashMap<TransferId, RldpTransfer>,
+    transfer_ids: [TransferId; 2],
+    completed: bool,
+}
+
+impl Drop for TransfersGuard<'_> {
+    fn drop(&mut self) {
+        if !self.completed {
+            for transfer_id in &self.transfer_ids {
+                self.transfers.remove(transfer_id);
+            }
+        }
+    }
+}
+
 enum RldpTransfer {
     Incoming(MessagePartsTx),
     Outgoing(Arc<OutgoingTransferState>),
-- 
2.43.0


From 515d7cd2aa32011b6a5126658c717db69e008eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 20/33] fix: verify FEC broadcast parts before storing and
 redistributing them

---
 src/overlay/overlay.rs | 50 +++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 6f413e7..04297c8 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -626,10 +626,26 @@ impl Overlay {
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
 
-        let signature = match broadcast.signature.len() {
-            64 => broadcast.signature.try_into().unwrap(),
-            _ => return Err(OverlayError::UnsupportedSignature.into()),
-        };
+        if broadcast.signature.len() != 64 {
+            return Err(OverlayError::UnsupportedSignature.into());
+        }
+
+        // Verify the part before it can affect anything
+        let broadcast_to_sign = &make_fec_part_to_sign(
+            &broadcast_id,
+            broadcast.data_size,
+            broadcast.date,
+            broadcast.flags,
+            &broadcast.fec,
+            broadcast.data,
+            broadcast.seqno,
+            if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
+                Some(source)
+            } else {
+                None
+            },
+        );
+        node_id.verify(broadcast_to_sign, broadcast.signature)?;
 
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
             // First packet of the broadcast
@@ -662,15 +678,11 @@ impl Overlay {
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
             transfer.broadcast_tx.send(BroadcastFec {
-                node_id,
                 data_hash: broadcast_id,
                 data_size: broadcast.data_size,
-                flags: broadcast.flags,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
                 fec_type: broadcast.fec,
-                date: broadcast.date,
-                signature,
             })?;
         }
 
@@ -1228,24 +1240,6 @@ fn process_fec_broadcast(
 ) -> Result<Option<Vec<u8>>> {
     let broadcast_id = &broadcast.data_hash;
 
-    let broadcast_to_sign = &make_fec_part_to_sign(
-        broadcast_id,
-        broadcast.data_size,
-        broadcast.date,
-        broadcast.flags,
-        &broadcast.fec_type,
-        &broadcast.data,
-        broadcast.seqno,
-        if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
-            Some(broadcast.node_id.compute_short_id())
-        } else {
-            None
-        },
-    );
-    broadcast
-        .node_id
-        .verify(broadcast_to_sign, &broadcast.signature)?;
-
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
@@ -1378,15 +1372,11 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    node_id: adnl::NodeIdFull,
     data_hash: BroadcastId,
     data_size: u32,
-    flags: u32,
     data: Vec<u8>,
     seqno: u32,
     fec_type: proto::rldp::RaptorQFecType,
-    date: u32,
-    signature: [u8; 64],
 }
 
 type VacantBroadcastEntry<'a> =
-- 
2.43.0


From de996ffa33b400f0f670e9793ba5fa93103fd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 21/33] fix: ignore FEC broadcast parts with a different
 description

---
 src/overlay/overlay.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 04297c8..88003e8 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1240,6 +1240,13 @@ fn process_fec_broadcast(
 ) -> Result<Option<Vec<u8>>> {
     let broadcast_id = &broadcast.data_hash;
 
+    // Ignore parts with a different description
+    if &broadcast.fec_type != decoder.params()
+        || broadcast.data_size != broadcast.fec_type.total_len
+    {
+        return Ok(None);
+    }
+
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
-- 
2.43.0


From fdd865c0c6d02ae3df77bf53f96754b190988492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 22/33] fix: don't keep overlay alive by incomplete FEC
 broadcasts

---
 src/overlay/overlay.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 88003e8..96c33f1 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -992,7 +992,10 @@ impl Overlay {
             .clone();
 
         // Spawn packets receiver
-        let overlay = self.clone();
+        //
+        // NOTE: It must not own the overlay because the overlay owns the other side of the channel
+        let overlay_id = self.id;
+        let overlay = Arc::downgrade(self);
         tokio::spawn(async move {
             // For each fec broadcast packet
             let mut packets = 0;
@@ -1008,7 +1011,9 @@ impl Overlay {
                             data,
                             from: peer_id,
                         };
-                        overlay.received_broadcasts.push(data);
+                        if let Some(overlay) = overlay.upgrade() {
+                            overlay.received_broadcasts.push(data);
+                        }
                         break;
                     }
                     // Broadcast is not complete yet
@@ -1016,7 +1021,7 @@ impl Overlay {
                     // Error during decoding
                     Err(e) => {
                         tracing::warn!(
-                            overlay_id = %overlay.id,
+                            %overlay_id,
                             broadcast_id = %DisplayBroadcastId(&broadcast_id),
                             "error when receiving overlay broadcast: {e}"
                         );
@@ -1025,6 +1030,11 @@ impl Overlay {
                 }
             }
 
+            let overlay = match overlay.upgrade() {
+                Some(overlay) => overlay,
+                None => return,
+            };
+
             // Mark broadcast as completed
             if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
                 match broadcast.value().as_ref() {
@@ -1039,7 +1049,7 @@ impl Overlay {
                         );
                     }
                 }
-            }
+            };
         });
 
         // Spawn broadcast cleanup task
-- 
2.43.0


From 33d0405b90cec1f568a5274b11310a561034d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 23/33] fix: don't advertise removed public overlay peers

---
 src/overlay/overlay.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 96c33f1..ba1a10a 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -915,7 +915,11 @@ impl Overlay {
         nodes.push(self.sign_local_node());
 
         let peers = adnl::PeersSet::with_capacity(MAX_PEERS_IN_RESPONSE);
-        peers.randomly_fill_from(&self.neighbours, MAX_PEERS_IN_RESPONSE, None);
+        peers.randomly_fill_from(
+            &self.neighbours,
+            MAX_PEERS_IN_RESPONSE,
+            Some(&self.ignored_peers),
+        );
         for peer_id in &peers {
             if let Some(node) = self.nodes.get(peer_id) {
                 nodes.push(node.clone());
-- 
2.43.0


From e2a1bdcc5aaabab1357a999bbb301ac5938f9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 24/33] fix: don't lose wake-ups when waiting for a broadcast
 is cancelled

---
 src/overlay/broadcast_receiver.rs | 58 +++++++++++++++----------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..9121675 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,13 +1,14 @@
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crossbeam_queue::SegQueue;
-use tokio::sync::Barrier;
+use tokio::sync::Semaphore;
 
 pub struct BroadcastReceiver<T> {
     data: SegQueue<T>,
-    barriers: SegQueue<Arc<Barrier>>,
-    sync_lock: AtomicU32,
+    /// Holds one permit for each item in the queue
+    ready: Semaphore,
+    waiting: AtomicUsize,
 }
 
 impl<T: Send + 'static> BroadcastReceiver<T> {
@@ -16,37 +17,36 @@ impl<T: Send + 'static> BroadcastReceiver<T> {
     }
 
     pub fn barriers_len(&self) -> usize {
-        self.barriers.len()
+        self.waiting.load(Ordering::Acquire)
     }
 
     pub fn push(self: &Arc<Self>, data: T) {
         self.data.push(data);
-        let receiver = self.clone();
-        tokio::spawn(async move {
-            while receiver.sync_lock.load(Ordering::Acquire) > 0 {
-                if let Some(barrier) = receiver.barriers.pop() {
-                    barrier.wait().await;
-                    break;
-                } else {
-                    tokio::task::yield_now().await;
-                }
-            }
-        });
+        self.ready.add_permits(1);
     }
 
     pub async fn pop(&self) -> T {
-        self.sync_lock.fetch_add(1, Ordering::Release);
+        struct WaitingGuard<'a>(&'a AtomicUsize);
+
+        impl Drop for WaitingGuard<'_> {
+            fn drop(&mut self) {
+                self.0.fetch_sub(1, Ordering::Release);
+            }
+        }
+
+        self.waiting.fetch_add(1, Ordering::Release);
+        let _guard = WaitingGuard(&self.waiting);
+
         loop {
-            match self.data.pop() {
-                Some(data) => {
-                    self.sync_lock.fetch_sub(1, Ordering::Release);
-                    return data;
-                }
-                None => {
-                    let barrier = Arc::new(Barrier::new(2));
-                    self.barriers.push(barrier.clone());
-                    barrier.wait().await;
-                }
+            match self.ready.acquire().await {
+                // NOTE: permit is returned back if this future is dropped before that
+                Ok(permit) => permit.forget(),
+                // The semaphore is never closed
+                Err(_) => unreachable!(),
+            }
+
+            if let Some(data) = self.data.pop() {
+                break data;
             }
         }
     }
@@ -56,8 +56,8 @@ impl<T> Default for BroadcastReceiver<T> {
     fn default() -> Self {
         Self {
             data: Default::default(),
-            barriers: Default::default(),
-            sync_lock: Default::default(),
+            ready: Semaphore::new(0),
+            waiting: Default::default(),
         }
     }
 }
-- 
2.43.0


From 982be3860d9c131867389c415e67428a7ecdbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 25/33] fix: don't drop RLDP semaphores which are about to be
 used

---
 src/rldp/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 40e0da0..fa083bb 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -118,8 +118,10 @@ impl Node {
     /// Clears semaphores table
     pub fn gc(&self) {
         let max_permits = self.options.max_peer_queries;
-        self.semaphores
-            .retain(|_, semaphore| semaphore.available_permits() < max_permits);
+        // NOTE: semaphore can be already in use even if no permits were acquired yet
+        self.semaphores.retain(|_, semaphore| {
+            Arc::strong_count(semaphore) > 1 || semaphore.available_permits() < max_permits
+        });
     }
 
     #[tracing::instrument(level = "debug", name = "rldp_query", skip_all, fields(%local_id, %peer_id, ?roundtrip))]
-- 
2.43.0


From 083f037e81d1067b4d1a420f650ed9e94768d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 26/33] fix: ignore ADNL channel confirmations for other keys

---
 src/adnl/node/receiver.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 8d146d1..59a3ec9 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -265,13 +265,17 @@ impl Node {
                 self.process_message_answer(query_id, answer);
                 Ok(())
             }
-            proto::adnl::Message::ConfirmChannel { key, date, .. } => self
-                .process_message_confirm_channel(
-                    local_id,
-                    peer_id,
-                    ed25519::PublicKey::from_bytes(*key).ok_or(AdnlReceiverError::InvalidPacket)?,
-                    date,
-                ),
+            proto::adnl::Message::ConfirmChannel {
+                key,
+                peer_key,
+                date,
+            } => self.process_message_confirm_channel(
+                local_id,
+                peer_id,
+                ed25519::PublicKey::from_bytes(*key).ok_or(AdnlReceiverError::InvalidPacket)?,
+                peer_key,
+                date,
+            ),
             proto::adnl::Message::CreateChannel { key, date } => self
                 .process_message_create_channel(
                     local_id,
@@ -327,8 +331,18 @@ impl Node {
         local_id: &NodeIdShort,
         peer_id: &NodeIdShort,
         peer_channel_public_key: ed25519::PublicKey,
+        own_channel_public_key: &[u8; 32],
         peer_channel_date: u32,
     ) -> Result<()> {
+        // Ignore confirmations for the channel key which is not used anymore
+        match self.get_peers(local_id)?.get(peer_id) {
+            Some(peer) if peer.channel_key().public_key.as_bytes() != own_channel_public_key => {
+                return Ok(())
+            }
+            Some(_) => {}
+            None => return Err(AdnlReceiverError::UnknownPeerInChannel.into()),
+        }
+
         self.create_channel(
             local_id,
             peer_id,
@@ -524,7 +538,9 @@ impl Node {
                 let channel = entry.get();
 
                 if channel.is_still_valid(&peer_channel_public_key, peer_channel_date) {
-                    if context == ChannelCreationContext::ConfirmChannel {
+                    if context == ChannelCreationContext::ConfirmChannel
+                        && channel.peer_channel_public_key() == &peer_channel_public_key
+                    {
                         channel.set_ready();
                     }
                     return Ok(());
-- 
2.43.0


From 1c9c5dd11f1cf58292dfed29f9f4257b9633a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 27/33] fix: announce the reinit date of the peer state so that
 a reset peer is heard again

Resetting a peer restarts its sequence numbers and increments its reinit date,
but packets always carried the start time of the node, so the other side never
reset its packets history and dropped everything as repeated. The recorded date
is now the one that is sent and expected, and a peer which is added again gets
a newer date than the entry that was removed.
---
 src/adnl/node/mod.rs      | 2 +-
 src/adnl/node/receiver.rs | 3 ++-
 src/adnl/node/sender.rs   | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..127edec 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -340,7 +340,7 @@ impl Node {
             Entry::Occupied(entry) => entry.get().set_addr(addr),
             // Create new peer state otherwise
             Entry::Vacant(entry) => {
-                entry.insert(Peer::new(self.start_time, addr, peer_id_full));
+                entry.insert(Peer::new(now(), addr, peer_id_full));
                 tracing::trace!(%local_id, %peer_id, %addr, "added ADNL peer");
             }
         };
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 59a3ec9..2d32754 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -473,7 +473,8 @@ impl Node {
             target: local_reinit_date,
         }) = packet.reinit_dates
         {
-            let expected_local_reinit_date = local_reinit_date.cmp(&self.start_time);
+            let expected_local_reinit_date =
+                local_reinit_date.cmp(&peer.receiver_state().reinit_date());
             if expected_local_reinit_date == Ordering::Greater {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index af03dcb..6009204 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -261,7 +261,7 @@ impl Node {
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
-                    local: self.start_time,
+                    local: peer.receiver_state().reinit_date(),
                     target: peer.sender_state().reinit_date(),
                 }),
             },
-- 
2.43.0


From 9a63e6e8ee7e124f0975b464c700d60e45733846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 28/33] fix: remove only the finished or expired ADNL transfer
 itself

The expiration task of a transfer (or a part which arrived late) removed the
table entry by its hash even when it already belonged to the next transfer of
the same data, so that this transfer could never complete.
---
 src/adnl/node/receiver.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 2d32754..4039ac8 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -219,7 +219,10 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_id).is_some() {
+                                if incoming_transfers
+                                    .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer))
+                                    .is_some()
+                                {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
@@ -242,11 +245,13 @@ impl Node {
             // Update transfer
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers
+                        .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer));
                     Some(message)
                 }
                 Err(error) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers
+                        .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer));
                     return Err(error.into());
                 }
                 _ => return Ok(()),
-- 
2.43.0


From 4b2a94baba0d3854ca9fe58218e5fe06688593f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 29/33] fix: reset a silent peer only together with its silent
 channel

When several queries through the same channel time out, only the first one
must reset the peer. Others could drop a new channel which was created and
confirmed in the meantime.
---
 src/adnl/node/mod.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 127edec..5572e90 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -488,7 +488,7 @@ impl Node {
         if answer.is_none() {
             if let Some(channel) = channel {
                 if channel.update_drop_timeout(now(), self.options.channel_reset_timeout_sec) {
-                    self.reset_peer(local_id, peer_id)?;
+                    self.reset_peer(local_id, peer_id, &channel)?;
                 }
             }
         }
@@ -519,20 +519,29 @@ impl Node {
         }
     }
 
-    fn reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
+    /// Drops the channel and resets the peer state.
+    ///
+    /// NOTE: does nothing if the specified channel is not used anymore
+    fn reset_peer(
+        &self,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        channel: &Arc<Channel>,
+    ) -> Result<()> {
         let peers = self.get_peers(local_id)?;
         let mut peer = peers.get_mut(peer_id).ok_or(NodeError::UnknownPeer)?;
 
-        tracing::trace!(%local_id, %peer_id, "resetting peer pair");
+        if let Some((_, removed)) = self
+            .channels_by_peers
+            .remove_if(peer_id, |_, current| Arc::ptr_eq(current, channel))
+        {
+            tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
-        self.channels_by_peers
-            .remove(peer_id)
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+            self.channels_by_id.remove(removed.ordinary_channel_in_id());
+            self.channels_by_id.remove(removed.priority_channel_in_id());
 
-        peer.reset();
+            peer.reset();
+        }
 
         Ok(())
     }
-- 
2.43.0


From bbd130d7979a8c76ad1677033d42c27510c58594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 30/33] fix: don't update peer address from outdated address
 lists

The address of a known peer was updated before the session dates and the
packets history were checked, so a delayed or replayed handshake packet could
return the peer to an old address. Address lists are now applied only if they
are newer than all lists which were received from this peer.
---
 src/adnl/node/mod.rs      | 25 +++++++++++++++++++++++--
 src/adnl/node/receiver.rs |  3 ++-
 src/adnl/peer.rs          | 11 +++++++++++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 5572e90..ce692d9 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -319,6 +319,20 @@ impl Node {
         peer_id: &NodeIdShort,
         addr: SocketAddrV4,
         peer_id_full: NodeIdFull,
+    ) -> Result<bool> {
+        self.add_peer_with_version(ctx, local_id, peer_id, addr, None, peer_id_full)
+    }
+
+    /// Adds new remote peer. If the version of the address list is known,
+    /// an existing peer is updated only when this version is newer
+    fn add_peer_with_version(
+        &self,
+        ctx: NewPeerContext,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        addr: SocketAddrV4,
+        addr_version: Option<u32>,
+        peer_id_full: NodeIdFull,
     ) -> Result<bool> {
         use dashmap::mapref::entry::Entry;
 
@@ -337,10 +351,17 @@ impl Node {
         // Search remove peer in known peers
         match self.get_peers(local_id)?.entry(*peer_id) {
             // Update ip if peer is already known
-            Entry::Occupied(entry) => entry.get().set_addr(addr),
+            Entry::Occupied(mut entry) => match addr_version {
+                Some(version) => entry.get_mut().update_addr(addr, version),
+                None => entry.get().set_addr(addr),
+            },
             // Create new peer state otherwise
             Entry::Vacant(entry) => {
-                entry.insert(Peer::new(now(), addr, peer_id_full));
+                let mut peer = Peer::new(now(), addr, peer_id_full);
+                if let Some(version) = addr_version {
+                    peer.update_addr(addr, version);
+                }
+                entry.insert(peer);
                 tracing::trace!(%local_id, %peer_id, %addr, "added ADNL peer");
             }
         };
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 4039ac8..c08e31c 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -434,11 +434,12 @@ impl Node {
 
             if let Some(list) = &packet.address {
                 let addr = parse_address_list(list, self.options.clock_tolerance_sec)?;
-                self.add_peer(
+                self.add_peer_with_version(
                     NewPeerContext::AdnlPacket,
                     local_id,
                     &peer_id,
                     addr,
+                    Some(list.version),
                     full_id,
                 )?;
             }
diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 5782c69..8ff7cac 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -14,6 +14,8 @@ pub struct Peer {
     id: NodeIdFull,
     /// IPv4 address
     addr: AtomicU64,
+    /// The newest known version of the address list
+    addr_version: u32,
     /// Adnl channel key pair to encrypt messages from our side
     channel_key: ed25519::KeyPair,
     /// Packets receiver state
@@ -28,6 +30,7 @@ impl Peer {
         Self {
             id,
             addr: AtomicU64::new(pack_socket_addr(&addr)),
+            addr_version: 0,
             channel_key: ed25519::KeyPair::generate(&mut rand::thread_rng()),
             receiver_state: PeerState::for_receive_with_reinit_date(local_reinit_date),
             sender_state: PeerState::for_send(),
@@ -71,6 +74,14 @@ impl Peer {
         self.addr.store(pack_socket_addr(&addr), Ordering::Release);
     }
 
+    /// Sets peer address if the address list version is newer than all known versions
+    pub fn update_addr(&mut self, addr: SocketAddrV4, version: u32) {
+        if version > self.addr_version {
+            self.addr_version = version;
+            self.set_addr(addr);
+        }
+    }
+
     /// Adnl channel key pair to encrypt messages from our side
     #[inline(always)]
     pub fn channel_key(&self) -> &ed25519::KeyPair {
-- 
2.43.0


From 80cacc1f91cc64f065f7809db3f803f48abf0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 31/33] fix: don't update peer address from outdated DHT node
 records

---
 src/adnl/node/mod.rs | 4 ++--
 src/adnl/peer.rs     | 4 ++--
 src/dht/node.rs      | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ce692d9..bf5176d 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -324,8 +324,8 @@ impl Node {
     }
 
     /// Adds new remote peer. If the version of the address list is known,
-    /// an existing peer is updated only when this version is newer
-    fn add_peer_with_version(
+    /// an existing peer is updated only when this version is not outdated
+    pub(crate) fn add_peer_with_version(
         &self,
         ctx: NewPeerContext,
         local_id: &NodeIdShort,
diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 8ff7cac..06432a3 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -74,9 +74,9 @@ impl Peer {
         self.addr.store(pack_socket_addr(&addr), Ordering::Release);
     }
 
-    /// Sets peer address if the address list version is newer than all known versions
+    /// Sets peer address if the address list version is not older than all known versions
     pub fn update_addr(&mut self, addr: SocketAddrV4, version: u32) {
-        if version > self.addr_version {
+        if version >= self.addr_version {
             self.addr_version = version;
             self.set_addr(addr);
         }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index d695645..9791f83 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -606,11 +606,12 @@ impl NodeState {
         let peer_addr = parse_address_list(&peer.addr_list, adnl.options().clock_tolerance_sec)?;
 
         // Add new ADNL peer
-        let is_new_peer = adnl.add_peer(
+        let is_new_peer = adnl.add_peer_with_version(
             adnl::NewPeerContext::Dht,
             self.key.id(),
             &peer_id,
             peer_addr,
+            Some(peer.addr_list.version),
             peer_id_full,
         )?;
         if !is_new_peer {
-- 
2.43.0


From 4af42108c7a37779b3bf86d4eb8b615ae29d5347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 32/33] fix: don't mix up channels of different local ids with
 the same peer

---
 src/adnl/node/mod.rs      | 10 ++++++----
 src/adnl/node/receiver.rs |  4 ++--
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index bf5176d..f1dae02 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -128,7 +128,7 @@ pub struct Node {
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
     /// Channels table used to fast search when sending messages
-    channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
+    channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
     incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
@@ -379,7 +379,7 @@ impl Node {
         let peers = self.get_peers(local_id)?;
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
@@ -497,7 +497,7 @@ impl Node {
 
         let channel = self
             .channels_by_peers
-            .get(peer_id)
+            .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
         let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
@@ -554,7 +554,9 @@ impl Node {
 
         if let Some((_, removed)) = self
             .channels_by_peers
-            .remove_if(peer_id, |_, current| Arc::ptr_eq(current, channel))
+            .remove_if(&(*local_id, *peer_id), |_, current| {
+                Arc::ptr_eq(current, channel)
+            })
         {
             tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index c08e31c..acbd94e 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -455,7 +455,7 @@ impl Node {
 
         let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
-            if self.channels_by_peers.contains_key(&peer_id) {
+            if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
             } else {
                 return Err(AdnlPacketError::UnknownChannel.into());
@@ -540,7 +540,7 @@ impl Node {
         };
         let peer = peer.value();
 
-        match self.channels_by_peers.entry(*peer_id) {
+        match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 6009204..b38f210 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -74,7 +74,7 @@ impl Node {
 
         // Get local key
         let local_key = self.keystore.key_by_id(local_id)?;
-        let channel = self.channels_by_peers.get(peer_id);
+        let channel = self.channels_by_peers.get(&(*local_id, *peer_id));
         let mut force_handshake = false;
         let (additional_size, additional_message) = match &channel {
             Some(channel) if channel.ready() => (0, None),
-- 
2.43.0


From 16b44a601f3a1f716467af69dd8d0435d50ec533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:45 +0000
Subject: [PATCH 33/33] fix: one invalid record no longer ends the discovery of
 DHT nodes

---
 src/dht/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 9791f83..515c34e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -259,7 +259,10 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count += self.add_dht_peer(node)?.is_some() as usize;
+                        match self.add_dht_peer(node) {
+                            Ok(new_peer) => node_count += new_peer.is_some() as usize,
+                            Err(e) => tracing::warn!(%peer_id, "failed to add DHT peer: {e:?}"),
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0

