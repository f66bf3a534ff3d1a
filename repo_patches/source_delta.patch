From a0c925b7cae93d9c9d074401a9c7560466989918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:03:30 +0000
Subject: [PATCH 01/37] fix: report malformed bridge block ranges as errors
 instead of panicking

Parsing "single:r10", "single:rx-5" or a mode value starting with a
multi-byte character aborted the process. These inputs now return a
parse error.
---
 bin/portal-bridge/src/types/mode.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bin/portal-bridge/src/types/mode.rs b/bin/portal-bridge/src/types/mode.rs
index 4c8dc49..ba55f59 100644
--- a/bin/portal-bridge/src/types/mode.rs
+++ b/bin/portal-bridge/src/types/mode.rs
@@ -60,16 +60,17 @@ impl FromStr for ModeType {
         if s.is_empty() {
             return Err("Invalid bridge mode arg: empty string".to_string());
         }
-        match &s[..1] {
-            "r" => {
-                let range_vec = s[1..]
+        match s.strip_prefix('r') {
+            Some(range) => {
+                let range_vec = range
                     .split('-')
                     .map(|range_input| {
-                        range_input.parse().expect(
-                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)",
-                        )
+                        range_input.parse().map_err(|_| {
+                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)"
+                                .to_string()
+                        })
                     })
-                    .collect::<Vec<u64>>();
+                    .collect::<Result<Vec<u64>, ParseError>>()?;
 
                 if range_vec.len() != 2 {
                     return Err("Invalid bridge mode arg: expected 2 numbers in range".to_string());
@@ -86,7 +87,7 @@ impl FromStr for ModeType {
 
                 Ok(ModeType::BlockRange(start_block, end_block))
             }
-            _ => Err("Invalid bridge mode arg: type prefix".to_string()),
+            None => Err("Invalid bridge mode arg: type prefix".to_string()),
         }
     }
 }
-- 
2.43.0


From d03fd21ccd444fae26c81ee0ee728ace9067c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:03:30 +0000
Subject: [PATCH 02/37] fix: avoid overflow when splitting a block range that
 ends in the last epoch

The last block of an epoch was computed as first + 8192 - 1, which
overflows for the last epoch of the u64 space although the result fits.
---
 bin/portal-bridge/src/types/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/portal-bridge/src/types/range.rs b/bin/portal-bridge/src/types/range.rs
index bd279d6..9620601 100644
--- a/bin/portal-bridge/src/types/range.rs
+++ b/bin/portal-bridge/src/types/range.rs
@@ -23,7 +23,7 @@ pub fn block_range_to_epochs(start_block: u64, end_block: u64) -> HashMap<u64, O
     for epoch in start_epoch..=end_epoch {
         // Calculate the first and last block of the current epoch
         let epoch_first_block = epoch * SLOTS_PER_HISTORICAL_ROOT;
-        let epoch_last_block = epoch_first_block + SLOTS_PER_HISTORICAL_ROOT - 1;
+        let epoch_last_block = epoch_first_block + (SLOTS_PER_HISTORICAL_ROOT - 1);
 
         // Determine if the epoch is fully or partially covered
         if epoch_first_block >= start_block && epoch_last_block <= end_block {
-- 
2.43.0


From f5b3c9e5b2409e87b62c5baa837d7594bb4d564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:29:03 +0000
Subject: [PATCH 03/37] fix: refuse ping and pong payloads above the size limit
 instead of cutting them

---
 crates/ethportal-api/src/types/portal_wire.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ethportal-api/src/types/portal_wire.rs b/crates/ethportal-api/src/types/portal_wire.rs
index d4b484f..f0f8e58 100644
--- a/crates/ethportal-api/src/types/portal_wire.rs
+++ b/crates/ethportal-api/src/types/portal_wire.rs
@@ -107,7 +107,7 @@ impl ssz::Decode for CustomPayload {
 
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         Ok(Self {
-            payload: ByteList1100::from(bytes.to_vec()),
+            payload: ByteList1100::from_ssz_bytes(bytes)?,
         })
     }
 }
-- 
2.43.0


From 13d620a4bef031c9b5dd2ab20f411479399c2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:29:03 +0000
Subject: [PATCH 04/37] fix: refuse node records with surplus bytes in nodes
 and content messages

---
 crates/ethportal-api/src/types/enr.rs         | 10 +++++++---
 crates/ethportal-api/src/types/portal_wire.rs |  3 +--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/ethportal-api/src/types/enr.rs b/crates/ethportal-api/src/types/enr.rs
index 5e84bcb..1e49123 100644
--- a/crates/ethportal-api/src/types/enr.rs
+++ b/crates/ethportal-api/src/types/enr.rs
@@ -67,9 +67,13 @@ impl ssz::Decode for SszEnr {
 
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let string = URL_SAFE_NO_PAD.encode(bytes);
-        Ok(SszEnr(
-            Enr::from_str(&string).map_err(DecodeError::BytesInvalid)?,
-        ))
+        let enr = Enr::from_str(&string).map_err(DecodeError::BytesInvalid)?;
+        if enr.length() != bytes.len() {
+            return Err(DecodeError::BytesInvalid(
+                "ENR is followed by surplus bytes".to_string(),
+            ));
+        }
+        Ok(SszEnr(enr))
     }
 }
 
diff --git a/crates/ethportal-api/src/types/portal_wire.rs b/crates/ethportal-api/src/types/portal_wire.rs
index f0f8e58..d8c4378 100644
--- a/crates/ethportal-api/src/types/portal_wire.rs
+++ b/crates/ethportal-api/src/types/portal_wire.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use alloy::primitives::{Bytes, U256};
-use alloy_rlp::Decodable;
 use discv5::Enr;
 use serde::{Deserialize, Serialize};
 use serde_json::{Map, Value};
@@ -361,7 +360,7 @@ impl TryFrom<NodesHelper> for Nodes {
             .enrs
             .into_iter()
             .map(|bytes| {
-                Decodable::decode(&mut bytes.as_slice())
+                alloy_rlp::decode_exact(bytes)
                     .map_err(|e| DecodeError::BytesInvalid(format!("rlp decoding failed: {e}")))
             })
             .collect::<Result<_, _>>()?;
-- 
2.43.0


From 6b67d316507c180686df52c22203798212a00342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:12 +0000
Subject: [PATCH 05/37] fix: refuse beacon content values too short for a fork
 digest instead of panicking

---
 .../src/types/content_value/beacon.rs             | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/ethportal-api/src/types/content_value/beacon.rs b/crates/ethportal-api/src/types/content_value/beacon.rs
index d85941a..8553c06 100644
--- a/crates/ethportal-api/src/types/content_value/beacon.rs
+++ b/crates/ethportal-api/src/types/content_value/beacon.rs
@@ -39,6 +39,17 @@ use crate::{
     BeaconContentKey, ContentValueError, RawContentValue,
 };
 
+/// Refuses bytes that are too short to start with a fork digest.
+fn ensure_has_fork_digest(bytes: &[u8]) -> Result<(), DecodeError> {
+    if bytes.len() < FORK_DIGEST_LEN {
+        return Err(DecodeError::InvalidByteLength {
+            len: bytes.len(),
+            expected: FORK_DIGEST_LEN,
+        });
+    }
+    Ok(())
+}
+
 /// A wrapper type including a `ForkName` and `LightClientBootstrap`
 #[derive(Clone, Debug, PartialEq)]
 pub struct ForkVersionedLightClientBootstrap {
@@ -65,6 +76,7 @@ impl ForkVersionedLightClientBootstrap {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<Self, DecodeError> {
+        ensure_has_fork_digest(bytes)?;
         let fork_digest = ForkDigest::try_from(&bytes[0..4]).map_err(|err| {
             DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
         })?;
@@ -145,6 +157,7 @@ impl ForkVersionedLightClientUpdate {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<Self, DecodeError> {
+        ensure_has_fork_digest(bytes)?;
         let fork_digest = ForkDigest::try_from(&bytes[0..4]).map_err(|err| {
             DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
         })?;
@@ -287,6 +300,7 @@ impl ForkVersionedLightClientOptimisticUpdate {
     }
 
     fn decode(buf: &[u8]) -> Result<Self, DecodeError> {
+        ensure_has_fork_digest(buf)?;
         let fork_digest = ForkDigest::try_from(&buf[0..4]).map_err(|err| {
             DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
         })?;
@@ -367,6 +381,7 @@ impl ForkVersionedLightClientFinalityUpdate {
     }
 
     fn decode(buf: &[u8]) -> Result<Self, DecodeError> {
+        ensure_has_fork_digest(buf)?;
         let fork_digest = ForkDigest::try_from(&buf[0..4]).map_err(|err| {
             DecodeError::BytesInvalid(format!("Unable to decode fork digest: {err:?}"))
         })?;
-- 
2.43.0


From 3fd26ff8a06eda779aa3ef096957aa867a589657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:12 +0000
Subject: [PATCH 06/37] fix: refuse surplus bytes after headers, transactions,
 withdrawals and receipts

---
 .../src/types/execution/block_body.rs         | 26 ++++++++++++++-----
 .../src/types/execution/receipts.rs           | 10 ++++++-
 .../src/types/execution/ssz_header.rs         |  3 +--
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/crates/ethportal-api/src/types/execution/block_body.rs b/crates/ethportal-api/src/types/execution/block_body.rs
index 142e695..f32c7ec 100644
--- a/crates/ethportal-api/src/types/execution/block_body.rs
+++ b/crates/ethportal-api/src/types/execution/block_body.rs
@@ -12,7 +12,7 @@ use alloy::{
     rlp::Decodable,
 };
 use alloy_rlp::{RlpDecodableWrapper, RlpEncodableWrapper};
-use anyhow::{anyhow, bail};
+use anyhow::{anyhow, bail, ensure};
 use serde::Deserialize;
 use ssz::{Encode, SszDecoderBuilder, SszEncoder};
 
@@ -27,6 +27,20 @@ impl Deref for BlockBody {
     }
 }
 
+/// Decodes a transaction that has to take up all of the given bytes.
+fn decode_transaction(mut bytes: &[u8]) -> anyhow::Result<TxEnvelope> {
+    let transaction = TxEnvelope::decode_2718(&mut bytes).map_err(|e| anyhow!("{e:?}"))?;
+    ensure!(bytes.is_empty(), "{} surplus bytes", bytes.len());
+    Ok(transaction)
+}
+
+/// Decodes an RLP item that has to take up all of the given bytes.
+fn decode_rlp<T: Decodable>(mut bytes: &[u8]) -> anyhow::Result<T> {
+    let item = T::decode(&mut bytes).map_err(|e| anyhow!("{e:?}"))?;
+    ensure!(bytes.is_empty(), "{} surplus bytes", bytes.len());
+    Ok(item)
+}
+
 impl Encode for BlockBody {
     fn is_ssz_fixed_len() -> bool {
         false
@@ -125,14 +139,14 @@ impl BlockBody {
         let ommers: Vec<u8> = decoder.decode_next()?;
         let transactions: Vec<TxEnvelope> = transactions
             .iter()
-            .map(|bytes| TxEnvelope::decode_2718(&mut bytes.as_slice()))
+            .map(|bytes| decode_transaction(bytes))
             .collect::<Result<Vec<TxEnvelope>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
                     "Legacy block body contains invalid txs: {e:?}",
                 ))
             })?;
-        let ommers: Vec<Header> = Decodable::decode(&mut ommers.as_slice()).map_err(|e| {
+        let ommers: Vec<Header> = decode_rlp(&ommers).map_err(|e| {
             ssz::DecodeError::BytesInvalid(format!("Legacy block body contains invalid txs: {e:?}"))
         })?;
         Ok(Self(AlloyBlockBody {
@@ -174,7 +188,7 @@ impl BlockBody {
         let withdrawals: Vec<Vec<u8>> = decoder.decode_next()?;
         let transactions: Vec<TxEnvelope> = transactions
             .iter()
-            .map(|bytes| TxEnvelope::decode_2718(&mut bytes.as_slice()))
+            .map(|bytes| decode_transaction(bytes))
             .collect::<Result<Vec<TxEnvelope>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
@@ -182,7 +196,7 @@ impl BlockBody {
                 ))
             })?;
         // shanghai block bodies are expected to have empty uncles
-        let ommers: Vec<Header> = Decodable::decode(&mut ommers.as_slice()).map_err(|e| {
+        let ommers: Vec<Header> = decode_rlp(&ommers).map_err(|e| {
             ssz::DecodeError::BytesInvalid(format!(
                 "Shanghai block body contains invalid txs: {e:?}",
             ))
@@ -194,7 +208,7 @@ impl BlockBody {
         }
         let withdrawals: Vec<Withdrawal> = withdrawals
             .iter()
-            .map(|bytes| Decodable::decode(&mut bytes.as_slice()))
+            .map(|bytes| decode_rlp(bytes))
             .collect::<Result<Vec<Withdrawal>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
diff --git a/crates/ethportal-api/src/types/execution/receipts.rs b/crates/ethportal-api/src/types/execution/receipts.rs
index 02da2ad..c182309 100644
--- a/crates/ethportal-api/src/types/execution/receipts.rs
+++ b/crates/ethportal-api/src/types/execution/receipts.rs
@@ -4,6 +4,7 @@ use alloy::{
     primitives::B256,
 };
 use alloy_rlp::{RlpDecodableWrapper, RlpEncodableWrapper};
+use anyhow::{anyhow, ensure};
 use serde::{Deserialize, Deserializer};
 use serde_json::Value;
 
@@ -20,6 +21,13 @@ impl Receipts {
     }
 }
 
+/// Decodes a receipt that has to take up all of the given bytes.
+fn decode_receipt(mut bytes: &[u8]) -> anyhow::Result<ReceiptEnvelope> {
+    let receipt = ReceiptEnvelope::decode_2718(&mut bytes).map_err(|e| anyhow!("{e:?}"))?;
+    ensure!(bytes.is_empty(), "{} surplus bytes", bytes.len());
+    Ok(receipt)
+}
+
 impl ssz::Encode for Receipts {
     // note: MAX_LENGTH attributes (defined in portal history spec) are not currently enforced
     fn is_ssz_fixed_len() -> bool {
@@ -50,7 +58,7 @@ impl ssz::Decode for Receipts {
             ssz::decode_list_of_variable_length_items(bytes, Some(MAX_TRANSACTION_COUNT))?;
         let receipts: Vec<ReceiptEnvelope> = encoded_receipts
             .iter()
-            .map(|bytes| ReceiptEnvelope::decode_2718(&mut bytes.as_slice()))
+            .map(|bytes| decode_receipt(bytes))
             .collect::<Result<Vec<ReceiptEnvelope>, _>>()
             .map_err(|e| {
                 ssz::DecodeError::BytesInvalid(format!(
diff --git a/crates/ethportal-api/src/types/execution/ssz_header.rs b/crates/ethportal-api/src/types/execution/ssz_header.rs
index c0a9c02..e0943b4 100644
--- a/crates/ethportal-api/src/types/execution/ssz_header.rs
+++ b/crates/ethportal-api/src/types/execution/ssz_header.rs
@@ -27,7 +27,6 @@ pub mod encode {
 
 pub mod decode {
     use alloy::consensus::Header;
-    use alloy_rlp::Decodable;
     use ssz::Decode;
 
     use super::*;
@@ -42,7 +41,7 @@ pub mod decode {
 
     pub fn from_ssz_bytes(bytes: &[u8]) -> Result<Header, ssz::DecodeError> {
         let rlp_encoded_header = ByteList2048::from_ssz_bytes(bytes)?;
-        Header::decode(&mut &*rlp_encoded_header).map_err(|_| {
+        alloy_rlp::decode_exact(&*rlp_encoded_header).map_err(|_| {
             ssz::DecodeError::BytesInvalid("Unable to decode bytes into header.".to_string())
         })
     }
-- 
2.43.0


From 251f1ad329442616fe95a14b64ce9b72fe4eec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:21:49 +0000
Subject: [PATCH 07/37] fix: don't count already stored content again

The insert statement ignores content that is already in the table, but the
usage counters were increased regardless. The store then believed that it
holds more than it does, and pruned content too early.
---
 crates/storage/src/versioned/ephemeral_v1/store.rs  | 9 ++++++---
 crates/storage/src/versioned/id_indexed_v1/store.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/storage/src/versioned/ephemeral_v1/store.rs b/crates/storage/src/versioned/ephemeral_v1/store.rs
index 75a0921..b1450d4 100644
--- a/crates/storage/src/versioned/ephemeral_v1/store.rs
+++ b/crates/storage/src/versioned/ephemeral_v1/store.rs
@@ -155,7 +155,7 @@ impl<TContentKey: OverlayContentKey> EphemeralV1Store<TContentKey> {
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -168,8 +168,11 @@ impl<TContentKey: OverlayContentKey> EphemeralV1Store<TContentKey> {
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
-        self.usage_stats.report_metrics(&self.metrics);
+        // Content that is already stored is ignored, and it shouldn't be counted again.
+        if inserted > 0 {
+            self.usage_stats.on_store(content_size);
+            self.usage_stats.report_metrics(&self.metrics);
+        }
 
         Ok(())
     }
diff --git a/crates/storage/src/versioned/id_indexed_v1/store.rs b/crates/storage/src/versioned/id_indexed_v1/store.rs
index f848597..ac9ddf9 100644
--- a/crates/storage/src/versioned/id_indexed_v1/store.rs
+++ b/crates/storage/src/versioned/id_indexed_v1/store.rs
@@ -268,7 +268,7 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -280,8 +280,11 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
-        self.usage_stats.report_metrics(&self.metrics);
+        // Content that is already stored is ignored, and it shouldn't be counted again.
+        if inserted > 0 {
+            self.usage_stats.on_store(content_size);
+            self.usage_stats.report_metrics(&self.metrics);
+        }
 
         let dropped_content = if self.pruning_strategy.should_prune(&self.usage_stats) {
             self.prune()?
-- 
2.43.0


From 55956811f9339d4dbd793c5686ff799f4bb7bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:21:49 +0000
Subject: [PATCH 08/37] fix: refuse ranges of light client updates that can't
 exist

A content key can name any start period and count. The end of the range
could overflow, and a huge count kept the store busy looking up periods
one by one.
---
 crates/subnetworks/beacon/src/storage.rs | 31 ++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/subnetworks/beacon/src/storage.rs b/crates/subnetworks/beacon/src/storage.rs
index c891e58..d68651e 100644
--- a/crates/subnetworks/beacon/src/storage.rs
+++ b/crates/subnetworks/beacon/src/storage.rs
@@ -1,9 +1,10 @@
-use std::{path::PathBuf, time::Duration};
+use std::{ops::Range, path::PathBuf, time::Duration};
 
 use alloy::primitives::B256;
 use ethportal_api::{
     consensus::fork::ForkName,
     types::{
+        content_key::beacon::LightClientUpdatesByRangeKey,
         content_value::beacon::{
             ForkVersionedHistoricalSummariesWithProof, ForkVersionedLightClientBootstrap,
             ForkVersionedLightClientFinalityUpdate, ForkVersionedLightClientOptimisticUpdate,
@@ -20,7 +21,10 @@ use r2d2::Pool;
 use r2d2_sqlite::{rusqlite, SqliteConnectionManager};
 use rusqlite::{params, OptionalExtension};
 use ssz::{Decode, Encode};
-use ssz_types::{typenum::U128, VariableList};
+use ssz_types::{
+    typenum::{Unsigned, U128},
+    VariableList,
+};
 use tracing::{debug, error, info};
 use tree_hash::TreeHash;
 use trin_metrics::storage::StorageMetricsReporter;
@@ -133,8 +137,7 @@ impl ContentStore for BeaconStorage {
                     ))
                 }),
             BeaconContentKey::LightClientUpdatesByRange(content_key) => {
-                let periods =
-                    content_key.start_period..(content_key.start_period + content_key.count);
+                let periods = light_client_update_periods(content_key)?;
 
                 let mut content: Vec<ForkVersionedLightClientUpdate> = Vec::new();
 
@@ -218,8 +221,7 @@ impl ContentStore for BeaconStorage {
             BeaconContentKey::LightClientUpdatesByRange(content_key) => {
                 // Check if any of the periods are available, return AlreadyStored if so otherwise
                 // Store
-                let periods =
-                    content_key.start_period..(content_key.start_period + content_key.count);
+                let periods = light_client_update_periods(content_key)?;
 
                 for period in periods {
                     let is_period_available = self
@@ -473,7 +475,7 @@ impl BeaconStorage {
             BeaconContentKey::LightClientUpdatesByRange(update) => {
                 // Build a range of values starting with update.start_period and len
                 // update.count
-                let periods = update.start_period..(update.start_period + update.count);
+                let periods = light_client_update_periods(update)?;
                 let update_values =
                     LightClientUpdatesByRange::from_ssz_bytes(value).map_err(|err| {
                         ContentStoreError::InvalidData {
@@ -721,6 +723,21 @@ impl BeaconStorage {
     }
 }
 
+/// Returns the periods of the light client updates that the key refers to.
+///
+/// It returns an error if content with that many updates can't exist.
+fn light_client_update_periods(
+    key: &LightClientUpdatesByRangeKey,
+) -> Result<Range<u64>, ContentStoreError> {
+    key.start_period
+        .checked_add(key.count)
+        .filter(|_| key.count <= U128::to_u64())
+        .map(|end_period| key.start_period..end_period)
+        .ok_or_else(|| ContentStoreError::InvalidData {
+            message: format!("Invalid range of light client updates: {key:?}"),
+        })
+}
+
 /// Prune old bootstrap data from the database
 fn prune_old_bootstrap_data(
     sql_connection_pool: &Pool<SqliteConnectionManager>,
-- 
2.43.0


From 7ba852f9a83fa45698138f80695044eeca0f2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:10 +0000
Subject: [PATCH 09/37] fix: Refuse header proofs whose slot is beyond the
 historical roots

The slot of a proof comes from the peer. A slot beyond the last historical
root made the lookup panic instead of failing validation.
---
 crates/validation/src/header_validator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/validation/src/header_validator.rs b/crates/validation/src/header_validator.rs
index c1dc9c9..a27fb02 100644
--- a/crates/validation/src/header_validator.rs
+++ b/crates/validation/src/header_validator.rs
@@ -308,15 +308,20 @@ impl HeaderValidator {
         let block_root_index = slot % SLOTS_PER_HISTORICAL_ROOT;
         let gen_index = 2 * SLOTS_PER_HISTORICAL_ROOT + block_root_index;
         let historical_root_index = slot / SLOTS_PER_HISTORICAL_ROOT;
-        let historical_root =
-            self.historical_roots_acc.historical_roots[historical_root_index as usize];
+        let Some(historical_root) = self
+            .historical_roots_acc
+            .historical_roots
+            .get(historical_root_index as usize)
+        else {
+            return false;
+        };
 
         verify_merkle_proof(
             beacon_block_root,
             beacon_block_proof,
             14,
             gen_index as usize,
-            historical_root,
+            *historical_root,
         )
     }
 
-- 
2.43.0


From 739c3b4f260d8ac5452803fda155c504b2476b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:10 +0000
Subject: [PATCH 10/37] fix: Refuse block bodies that lack the withdrawals of
 their header

A body without withdrawals was accepted for a header with a withdrawals
root as long as transactions and uncles matched.
---
 crates/ethportal-api/src/types/execution/block_body.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ethportal-api/src/types/execution/block_body.rs b/crates/ethportal-api/src/types/execution/block_body.rs
index f32c7ec..debd164 100644
--- a/crates/ethportal-api/src/types/execution/block_body.rs
+++ b/crates/ethportal-api/src/types/execution/block_body.rs
@@ -108,6 +108,8 @@ impl BlockBody {
                     "Block body withdrawals root doesn't match header withdrawals root: {actual:?} - {expected:?}",
                 );
             }
+        } else if header.withdrawals_root.is_some() {
+            bail!("Block body does not have withdrawals");
         }
         Ok(())
     }
-- 
2.43.0


From 5616a962da9f39ebad15be3a060ff194fe5a03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:10 +0000
Subject: [PATCH 11/37] fix: Compute the age of a checkpoint without wrapping

A bootstrap header with a slot ahead of the clock made the subtraction
wrap, and a huge slot made the multiplication wrap. Both happened before
the header was compared with the checkpoint.
---
 crates/light-client/src/consensus/consensus_client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index 52e907a..f0c9ab3 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -513,13 +513,14 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
         let current_slot_timestamp = self.slot_timestamp(current_slot);
         let blockhash_slot_timestamp = self.slot_timestamp(blockhash_slot);
 
-        let slot_age = current_slot_timestamp - blockhash_slot_timestamp;
+        let slot_age = current_slot_timestamp.saturating_sub(blockhash_slot_timestamp);
 
         slot_age < self.config.max_checkpoint_age
     }
 
     fn slot_timestamp(&self, slot: u64) -> u64 {
-        slot * 12 + self.config.chain.genesis_time
+        slot.saturating_mul(12)
+            .saturating_add(self.config.chain.genesis_time)
     }
 }
 
-- 
2.43.0


From 208d8bac2d033e048ec48474d77d4a4dd25e8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:24 +0000
Subject: [PATCH 12/37] fix: do not allocate the announced size of a content
 item before checking that it is present

---
 crates/portalnet/src/utils/portal_wire.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/portalnet/src/utils/portal_wire.rs b/crates/portalnet/src/utils/portal_wire.rs
index 3f524bc..75751e2 100644
--- a/crates/portalnet/src/utils/portal_wire.rs
+++ b/crates/portalnet/src/utils/portal_wire.rs
@@ -12,6 +12,11 @@ fn decode_next_content_item(reader: &mut Reader<Bytes>) -> io::Result<Option<Byt
     // Read LEB128 index
     let varint = read_varint(reader)?;
 
+    // The content item has to be present in full, otherwise we would allocate whatever is announced
+    if varint as usize > reader.get_ref().remaining() {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+    }
+
     // Read the content item
     let mut buf = BytesMut::zeroed(varint as usize);
     reader.read_exact(&mut buf)?;
-- 
2.43.0


From c40d9377b387a3c1bc97a45fd99a7f17f0856cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:24 +0000
Subject: [PATCH 13/37] fix: let keys of the accept queue expire although they
 are offered again

---
 crates/portalnet/src/accept_queue.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/portalnet/src/accept_queue.rs b/crates/portalnet/src/accept_queue.rs
index c8c33fd..a5d939e 100644
--- a/crates/portalnet/src/accept_queue.rs
+++ b/crates/portalnet/src/accept_queue.rs
@@ -55,8 +55,10 @@ where
     /// Also polls for expired items, which will remove them from the queue.
     pub fn add_key_to_queue(&mut self, content_key: &TContentKey, peer: &Enr) -> bool {
         // poll for expired items, which will remove them from the queue
-        let _ = future::poll_fn(|cx| self.content_key_map.poll_expired(cx)).now_or_never();
-        if let Some(mut seen_peers) = self.content_key_map.remove(content_key) {
+        while let Some(Some(_)) =
+            future::poll_fn(|cx| self.content_key_map.poll_expired(cx)).now_or_never()
+        {}
+        if let Some(seen_peers) = self.content_key_map.get_mut(content_key) {
             if seen_peers.origin == *peer || seen_peers.fallback.contains(peer) {
                 debug!(
                     "Received multiple offers containing the same content key: {content_key} from peer: {peer}"
@@ -67,7 +69,6 @@ where
                 );
                 seen_peers.fallback.push(peer.clone());
             }
-            self.content_key_map.insert(content_key.clone(), seen_peers);
             return false;
         }
         self.content_key_map.insert(
-- 
2.43.0


From de18cb73cc9959a461bec431e825c8b2fe073cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:24 +0000
Subject: [PATCH 14/37] fix: stop waiting on unresponsive peers that are
 farther than an uncontacted one

---
 .../src/find/iterators/findcontent.rs         | 28 +++++++++++--------
 .../portalnet/src/find/iterators/findnodes.rs | 26 ++++++++++-------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/crates/portalnet/src/find/iterators/findcontent.rs b/crates/portalnet/src/find/iterators/findcontent.rs
index dd311ff..1000a84 100644
--- a/crates/portalnet/src/find/iterators/findcontent.rs
+++ b/crates/portalnet/src/find/iterators/findcontent.rs
@@ -296,6 +296,21 @@ where
             return QueryState::Validating(peer);
         }
 
+        // Peers that don't respond within timeout are set to `Unresponsive`. This has to be done for
+        // all peers before checking the capacity. Otherwise, unresponsive peers could be waited on
+        // indefinitely, if they are farther from the target than a peer that is not contacted yet.
+        for peer in self.closest_peers.values_mut() {
+            if matches!(peer.state(), QueryPeerState::Waiting(timeout) if now >= *timeout) {
+                // Assert that the following subtraction will not overflow.
+                assert!(
+                    self.num_waiting > 0,
+                    "Query (poll) reached invalid number of waiting peers"
+                );
+                self.num_waiting -= 1;
+                peer.set_state(QueryPeerState::Unresponsive);
+            }
+        }
+
         // Check if the query is at capacity w.r.t. the allowed parallelism.
         let at_capacity = self.at_capacity();
 
@@ -314,17 +329,8 @@ where
                     }
                 }
 
-                QueryPeerState::Waiting(timeout) => {
-                    if now >= *timeout {
-                        // Peers that don't respond within timeout are set to `Unresponsive`.
-                        // Assert that the following subtraction will not overflow.
-                        assert!(
-                            self.num_waiting > 0,
-                            "Query (poll) reached invalid number of waiting peers"
-                        );
-                        self.num_waiting -= 1;
-                        peer.set_state(QueryPeerState::Unresponsive);
-                    } else if at_capacity {
+                QueryPeerState::Waiting(..) => {
+                    if at_capacity {
                         // The query is still waiting for a result from a peer and is
                         // at capacity w.r.t. the maximum number of peers being waited on.
                         return QueryState::WaitingAtCapacity;
diff --git a/crates/portalnet/src/find/iterators/findnodes.rs b/crates/portalnet/src/find/iterators/findnodes.rs
index 4053fc2..b803a29 100644
--- a/crates/portalnet/src/find/iterators/findnodes.rs
+++ b/crates/portalnet/src/find/iterators/findnodes.rs
@@ -189,6 +189,20 @@ where
         // peers to contact, see `active_counter`).
         let mut result_counter = Some(0);
 
+        // Peers that don't respond within timeout are set to `Unresponsive`. This has to be done for
+        // all peers before checking the capacity. Otherwise, unresponsive peers could be waited on
+        // indefinitely, if they are farther from the target than a peer that is not contacted yet.
+        for peer in self.closest_peers.values_mut() {
+            if matches!(peer.state(), QueryPeerState::Waiting(timeout) if now >= *timeout) {
+                assert!(
+                    self.num_waiting > 0,
+                    "Query reached invalid number of waiting queries"
+                );
+                self.num_waiting -= 1;
+                peer.set_state(QueryPeerState::Unresponsive);
+            }
+        }
+
         // Check if the query is at capacity w.r.t. the allowed parallelism.
         let at_capacity = self.at_capacity();
 
@@ -206,16 +220,8 @@ where
                         return QueryState::WaitingAtCapacity;
                     }
                 }
-                QueryPeerState::Waiting(timeout) => {
-                    if now >= *timeout {
-                        // Peers that don't respond within timeout are set to `Failed`.
-                        assert!(
-                            self.num_waiting > 0,
-                            "Query reached invalid number of waiting queries"
-                        );
-                        self.num_waiting -= 1;
-                        peer.set_state(QueryPeerState::Unresponsive);
-                    } else if at_capacity {
+                QueryPeerState::Waiting(..) => {
+                    if at_capacity {
                         // The query is still waiting for a result from a peer and is
                         // at capacity w.r.t. the maximum number of peers being waited on.
                         return QueryState::WaitingAtCapacity;
-- 
2.43.0


From 6a3868d657d54d54a492a2187070ce2dfb3af31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:43:52 +0000
Subject: [PATCH 15/37] fix: release accepted keys that have no fallback

A key of content not affected by radius stayed in the accept queue when its
transfer failed, so that it was declined for two minutes from every other
peer.
---
 crates/portalnet/src/overlay/service/offer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/portalnet/src/overlay/service/offer.rs b/crates/portalnet/src/overlay/service/offer.rs
index 0eab081..d33e21e 100644
--- a/crates/portalnet/src/overlay/service/offer.rs
+++ b/crates/portalnet/src/overlay/service/offer.rs
@@ -445,6 +445,7 @@ impl<
                 content_key = content_key.to_hex(),
                 "Not using fallback logic, content not affected by radius"
             );
+            utp_processing.accept_queue.write().remove_key(&content_key);
             return Ok(());
         }
 
-- 
2.43.0


From d7df27e599c090cd97edb9aed7c9ce511148a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:57:08 +0000
Subject: [PATCH 16/37] fix: continue a content lookup when a peer's transfer
 cannot be started

A peer that announced a transfer but shares no protocol version with us
left the lookup waiting for its content until the overall timeout, even
if other peers had the content.
---
 crates/portalnet/src/overlay/service/find_content.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/portalnet/src/overlay/service/find_content.rs b/crates/portalnet/src/overlay/service/find_content.rs
index bd5ab66..e91c0e8 100644
--- a/crates/portalnet/src/overlay/service/find_content.rs
+++ b/crates/portalnet/src/overlay/service/find_content.rs
@@ -356,6 +356,8 @@ impl<
                             Some(enr) => enr,
                             _ => {
                                 debug!("Received uTP payload from unknown {peer}");
+                                // Indicate to the query that there is no content from this peer
+                                let _ = valid_content_tx.send(None);
                                 return;
                             }
                         };
@@ -374,6 +376,8 @@ impl<
                                 Ok(protocol_version) => protocol_version,
                                 Err(err) => {
                                     debug!(?err, "Unable to get latest common protocol version");
+                                    // Indicate to the query that there is no content from this peer
+                                    let _ = valid_content_tx.send(None);
                                     return;
                                 }
                             };
-- 
2.43.0


From 590eb7fd2e5040ea2e1ecd85a487f3026ac95a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:58:46 +0000
Subject: [PATCH 17/37] fix: return only records of the requested node from an
 ENR lookup

A peer could answer with a record of another node, or the lookup could
return the closest other node, and that record was reported as the one
of the requested node. An older record than the known one was also
preferred.
---
 crates/portalnet/src/overlay/protocol.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index 7d1f1ad..279f762 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -330,11 +330,19 @@ impl<
 
         // try to find more up to date enr
         if let Ok(enr) = enr.clone() {
-            if let Ok(nodes) = self.send_find_nodes(enr, vec![0]).await {
-                let enr_highest_seq = nodes.enrs.into_iter().max_by(|a, b| a.seq().cmp(&b.seq()));
+            if let Ok(nodes) = self.send_find_nodes(enr.clone(), vec![0]).await {
+                let enr_highest_seq = nodes
+                    .enrs
+                    .into_iter()
+                    .map(Enr::from)
+                    .filter(|found| found.node_id() == node_id)
+                    .max_by(|a, b| a.seq().cmp(&b.seq()));
 
                 if let Some(enr_highest_seq) = enr_highest_seq {
-                    return Ok(enr_highest_seq.into());
+                    if enr_highest_seq.seq() >= enr.seq() {
+                        return Ok(enr_highest_seq);
+                    }
+                    return Ok(enr);
                 }
             }
         }
@@ -342,6 +350,7 @@ impl<
         let lookup_node_enr = self.lookup_node(node_id).await;
         let lookup_node_enr = lookup_node_enr
             .into_iter()
+            .filter(|found| found.node_id() == node_id)
             .max_by(|a, b| a.seq().cmp(&b.seq()));
         if let Some(lookup_node_enr) = lookup_node_enr {
             let mut enr_seq = 0;
-- 
2.43.0


From 09235b1014434ab83f0dfeaaf916e91547a9fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:59:04 +0000
Subject: [PATCH 18/37] fix: find connected nodes of the routing table that
 discovery does not know

Looking up a connected node whose record was only in the overlay's
routing table returned nothing.
---
 crates/portalnet/src/overlay/protocol.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index 279f762..b1b2d08 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -681,20 +681,9 @@ impl<
         if target == self.local_enr().node_id() {
             return vec![self.local_enr()];
         }
-        let is_connected = match self.kbuckets.entry(target) {
-            Entry::Present(_, node_status) => node_status.is_connected(),
-            _ => false,
-        };
-        if is_connected {
-            match self.discovery.find_enr(&target) {
-                Some(enr) => return vec![enr],
-                None => {
-                    warn!(
-                        protocol = %self.protocol,
-                        "Error finding ENR for node expected to exist in local routing table",
-                    );
-                    return vec![];
-                }
+        if let Entry::Present(node, node_status) = self.kbuckets.entry(target) {
+            if node_status.is_connected() {
+                return vec![self.discovery.find_enr(&target).unwrap_or(node.enr)];
             }
         };
         let (tx, rx) = oneshot::channel();
-- 
2.43.0


From fa965b3ac21645ea3d1d1ef120369fbd6468f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:29:36 +0000
Subject: [PATCH 19/37] fix: refuse archives that end inside an entry header or
 announce oversized entries

---
 crates/e2store/src/e2store/memory.rs | 14 +++++++++++---
 crates/e2store/src/e2store/types.rs  |  6 ++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/e2store/src/e2store/memory.rs b/crates/e2store/src/e2store/memory.rs
index 5eca438..fce45b4 100644
--- a/crates/e2store/src/e2store/memory.rs
+++ b/crates/e2store/src/e2store/memory.rs
@@ -42,13 +42,21 @@ impl E2StoreMemory {
         let mut entries = Vec::new();
         let mut offset = 0;
         while offset < bytes.len() {
+            if bytes.len() - offset < Header::SERIALIZED_SIZE as usize {
+                return Err(anyhow!(
+                    "invalid buf length: {} - expected {}",
+                    bytes.len(),
+                    offset + Header::SERIALIZED_SIZE as usize
+                ));
+            }
             let entry_length = u32::from_le_bytes([
                 bytes[offset + 2],
                 bytes[offset + 3],
                 bytes[offset + 4],
                 bytes[offset + 5],
-            ]) + Header::SERIALIZED_SIZE as u32;
-            let terminating_entry_index = offset + entry_length as usize;
+            ]) as usize
+                + Header::SERIALIZED_SIZE as usize;
+            let terminating_entry_index = offset + entry_length;
             if bytes.len() < terminating_entry_index {
                 return Err(anyhow!(
                     "invalid buf length: {} - expected {}",
@@ -57,7 +65,7 @@ impl E2StoreMemory {
                 ));
             }
             let entry = Entry::deserialize(&bytes[offset..terminating_entry_index])?;
-            offset += entry_length as usize;
+            offset += entry_length;
             entries.push(entry);
         }
         Ok(Self { entries })
diff --git a/crates/e2store/src/e2store/types.rs b/crates/e2store/src/e2store/types.rs
index b41becd..a272a29 100644
--- a/crates/e2store/src/e2store/types.rs
+++ b/crates/e2store/src/e2store/types.rs
@@ -57,6 +57,12 @@ impl Entry {
 
     /// Deserialize from a byte slice.
     pub fn deserialize(bytes: &[u8]) -> anyhow::Result<Self> {
+        ensure!(
+            bytes.len() >= Header::SERIALIZED_SIZE as usize,
+            "found invalid buf length for entry: {} - expected at least {}",
+            bytes.len(),
+            Header::SERIALIZED_SIZE
+        );
         let header = Header::deserialize(&bytes[0..8])?;
         if header.length as usize + Header::SERIALIZED_SIZE as usize != bytes.len() {
             return Err(anyhow!(
-- 
2.43.0


From 24c1db036cfcf94da2223b3cd71b8058fca207fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:30:11 +0000
Subject: [PATCH 20/37] fix: refuse block archives whose index or entry count
 does not match instead of panicking

---
 crates/e2store/src/e2hs.rs | 15 +++++++++++++--
 crates/e2store/src/era.rs  | 12 ++++++++++--
 crates/e2store/src/era1.rs | 14 +++++++++++---
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/crates/e2store/src/e2hs.rs b/crates/e2store/src/e2hs.rs
index b20409a..18ac684 100644
--- a/crates/e2store/src/e2hs.rs
+++ b/crates/e2store/src/e2hs.rs
@@ -164,6 +164,10 @@ impl E2HSMemory {
             "invalid e2hs file found during iter: missing block index entry"
         ))?;
         let block_index = E2HSBlockIndexEntry::try_from(last_entry)?.block_index;
+        ensure!(
+            block_index.count <= (file.entries.len() as u64 - 1) / 3,
+            "invalid e2hs file found during iter: block index count exceeds number of entries"
+        );
         Ok((0..block_index.count).map(move |i| {
             BlockTuple::try_from(&file.entries[i as usize * 3 + 1..i as usize * 3 + 4])
                 .expect("invalid block tuple")
@@ -185,9 +189,16 @@ impl E2HSMemory {
             "invalid e2hs file found during iter: missing block index entry"
         ))?;
         let block_index = E2HSBlockIndexEntry::try_from(last_entry)?;
+        ensure!(
+            block_index.block_index.count == BLOCKS_PER_E2HS as u64,
+            format!(
+                "invalid e2hs file found during deser: incorrect block index count: found {}, expected {}",
+                block_index.block_index.count,
+                BLOCKS_PER_E2HS
+            )
+        );
         let mut block_tuples = vec![];
-        let block_tuple_count = block_index.block_index.count as usize;
-        for count in 0..block_tuple_count {
+        for count in 0..BLOCKS_PER_E2HS {
             let block_tuple = BlockTuple::try_from(&file.entries[count * 3 + 1..count * 3 + 4])?;
             block_tuples.push(block_tuple);
         }
diff --git a/crates/e2store/src/era.rs b/crates/e2store/src/era.rs
index 606acb0..f51b1db 100644
--- a/crates/e2store/src/era.rs
+++ b/crates/e2store/src/era.rs
@@ -46,15 +46,19 @@ impl Era {
     pub fn deserialize(buf: &[u8]) -> anyhow::Result<Self> {
         let file_length = buf.len();
         let file = E2StoreMemory::deserialize(buf)?;
-        let version = VersionEntry::try_from(&file.entries[0])?;
         let entries_length = file.entries.len();
+        // an era file has 4 entries which are not blocks
+        ensure!(
+            entries_length >= 4,
+            "invalid era file: incorrect entry count {entries_length}"
+        );
+        let version = VersionEntry::try_from(&file.entries[0])?;
         let mut blocks = vec![];
 
         let slot_index_block = SlotIndexBlockEntry::try_from(&file.entries[entries_length - 2])?;
         let slot_index_state = SlotIndexStateEntry::try_from(&file.entries[entries_length - 1])?;
         let slot_indexes = Era::get_block_slot_indexes(file_length, &slot_index_block);
 
-        // an era file has 4 entries which are not blocks
         ensure!(
             slot_indexes.len() == entries_length - 4,
             "invalid slot index block: incorrect count {} {}",
@@ -84,6 +88,10 @@ impl Era {
         let file = E2StoreMemory::deserialize(buf)?;
         // The compressed `BeaconState` is the second to last entry in the file.
         let entries_length = file.entries.len();
+        ensure!(
+            entries_length >= 4,
+            "invalid era file: incorrect entry count {entries_length}"
+        );
         let slot_index_state = SlotIndexStateEntry::try_from(&file.entries[entries_length - 1])?;
         let fork = get_beacon_fork(slot_index_state.slot_index.starting_slot);
         let era_state = CompressedBeaconState::try_from(&file.entries[entries_length - 3], fork)?;
diff --git a/crates/e2store/src/era1.rs b/crates/e2store/src/era1.rs
index e345ca1..ac96080 100644
--- a/crates/e2store/src/era1.rs
+++ b/crates/e2store/src/era1.rs
@@ -57,9 +57,12 @@ impl Era1 {
             file.entries
                 .last()
                 .ok_or(anyhow!("missing block index entry"))?,
-        )
-        .expect("invalid block index entry")
+        )?
         .block_index;
+        ensure!(
+            block_index.count <= (file.entries.len() as u64 - 1) / 4,
+            "invalid era1 file: block index count exceeds number of entries"
+        );
         Ok((0..block_index.count).map(move |i| {
             BlockTuple::try_from(&file.entries[i as usize * 4 + 1..i as usize * 4 + 5])
                 .expect("invalid block tuple")
@@ -77,7 +80,12 @@ impl Era1 {
         let block_index =
             Era1BlockIndexEntry::try_from(file.entries.last().expect("missing block index entry"))?;
         let mut block_tuples = vec![];
-        let block_tuple_count = block_index.block_index.count as usize;
+        let block_tuple_count = (file.entries.len() - 3) / 4;
+        ensure!(
+            block_index.block_index.count == block_tuple_count as u64
+                && block_index.block_index.indices.len() == block_tuple_count,
+            "invalid era1 file: block index doesn't match number of entries"
+        );
         for count in 0..block_tuple_count {
             let block_tuple = BlockTuple::try_from(&file.entries[count * 4 + 1..count * 4 + 5])?;
             block_tuples.push(block_tuple);
-- 
2.43.0


From e92e69e299a8eb662e4b50f1d793c64955322821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:32:45 +0000
Subject: [PATCH 21/37] fix: do not treat a state snapshot cut inside an entry
 as complete

---
 crates/e2store/src/e2ss.rs           | 22 +++++++++-------------
 crates/e2store/src/e2store/stream.rs |  7 ++++++-
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/e2store/src/e2ss.rs b/crates/e2store/src/e2ss.rs
index 105a78c..455eee6 100644
--- a/crates/e2store/src/e2ss.rs
+++ b/crates/e2store/src/e2ss.rs
@@ -27,7 +27,7 @@
 
 use std::{
     fs::{self, File},
-    io::{ErrorKind, Read, Write},
+    io::{Read, Write},
     ops::Deref,
     path::{Path, PathBuf},
 };
@@ -47,7 +47,6 @@ use crate::{
     },
     entry_types,
     types::HeaderEntry,
-    utils::underlying_io_error_kind,
 };
 
 pub const MAX_STORAGE_ITEMS: usize = 10_000_000;
@@ -189,19 +188,16 @@ impl Iterator for E2SSReader {
             return Some(AccountOrStorageEntry::Storage(storage_entry));
         }
 
+        match self.reader.is_finished() {
+            Ok(true) => return None,
+            Ok(false) => {}
+            Err(err) => panic!("Failed reading next account entry: {:?}", err),
+        }
+
+        // A file that ends inside of an entry is truncated
         let raw_account_entry = match self.reader.next_entry() {
             Ok(raw_account_entry) => raw_account_entry,
-            Err(err) => match err {
-                // If we read to the end of the error file we should get this
-                err if underlying_io_error_kind(&err).is_some()
-                    && underlying_io_error_kind(&err)
-                        .expect("We already checked there is some")
-                        == ErrorKind::UnexpectedEof =>
-                {
-                    return None
-                }
-                err => panic!("Failed reading next account entry: {:?}", err),
-            },
+            Err(err) => panic!("Failed reading next account entry: {:?}", err),
         };
 
         let account_entry = match AccountEntry::try_from(&raw_account_entry) {
diff --git a/crates/e2store/src/e2store/stream.rs b/crates/e2store/src/e2store/stream.rs
index 2cff192..f86fbe2 100644
--- a/crates/e2store/src/e2store/stream.rs
+++ b/crates/e2store/src/e2store/stream.rs
@@ -1,6 +1,6 @@
 use std::{
     fs::File,
-    io::{BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufReader, BufWriter, Read, Write},
     path::Path,
 };
 
@@ -16,6 +16,11 @@ impl<R: Read> E2StoreStreamReader<R> {
         Ok(Self { reader })
     }
 
+    /// Returns whether all entries have been read.
+    pub fn is_finished(&mut self) -> anyhow::Result<bool> {
+        Ok(self.reader.fill_buf()?.is_empty())
+    }
+
     pub fn next_entry(&mut self) -> anyhow::Result<Entry> {
         let mut buf = vec![0; 8];
         self.reader.read_exact(&mut buf)?;
-- 
2.43.0


From 3162ebcaa997e14bc3fd5babdc45c4e37b6bd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:05:57 +0000
Subject: [PATCH 22/37] fix: count a liveness check answered with an unexpected
 ping extension as failed

The peer stayed known without another check being scheduled, so it was
never checked again and never dropped.
---
 bin/portal-bridge/src/census/network.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/portal-bridge/src/census/network.rs b/bin/portal-bridge/src/census/network.rs
index abaa9b0..742e8e4 100644
--- a/bin/portal-bridge/src/census/network.rs
+++ b/bin/portal-bridge/src/census/network.rs
@@ -263,6 +263,7 @@ impl Network {
                     subnetwork = %self.subnetwork,
                     "liveness_check: received unexpected ping extension: {}", pong_info.payload_type,
                 );
+                self.peers.record_failed_liveness_check(enr);
                 return LivenessResult::Fail;
             }
         };
-- 
2.43.0


From 643e52185937e65f557726d854e37631c6dfdcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:41 +0000
Subject: [PATCH 23/37] fix: try again to serve historical summaries after a
 failed attempt

A failed download of the finalized state left the download marked as in
progress, so no historical summaries were offered until a restart.
---
 bin/portal-bridge/src/bridge/beacon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/portal-bridge/src/bridge/beacon.rs b/bin/portal-bridge/src/bridge/beacon.rs
index dabd925..ec2f818 100644
--- a/bin/portal-bridge/src/bridge/beacon.rs
+++ b/bin/portal-bridge/src/bridge/beacon.rs
@@ -244,6 +244,7 @@ impl BeaconBridge {
             .in_current_span()
             .await
             {
+                finalized_state_root.lock().await.in_progress = false;
                 warn!("Failed to serve HistoricalSummariesWithProof: {err}");
             }
         });
-- 
2.43.0


From 9a2c8ef6e7a55fbd0adc2a5005647a2982929667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:27 +0000
Subject: [PATCH 24/37] fix: offer only receipts that belong to the block

The bridge cached receipts by block number. After a reorg, or when the
execution client follows another fork, a block was offered with the
receipts of its competitor.
---
 .../src/bridge/ephemeral_history/mod.rs       | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
index f8c63e6..93ff5f9 100644
--- a/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
+++ b/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs
@@ -48,7 +48,7 @@ pub struct EphemeralHistoryBridge {
     consensus_api: ConsensusApi,
     execution_api: ExecutionApi,
     beacon_blocks: BTreeMap<B256, BeaconBlockElectra>,
-    receipts: LruCache<u64, Receipts>,
+    receipts: LruCache<B256, Receipts>,
 }
 
 impl EphemeralHistoryBridge {
@@ -241,13 +241,20 @@ impl EphemeralHistoryBridge {
                     .await?
                     .message;
 
+                let payload = &beacon_block.body.execution_payload;
                 let receipts = self
                     .execution_api
-                    .get_receipts(beacon_block.body.execution_payload.block_number)
+                    .get_receipts(payload.block_number)
                     .await?;
+                // The execution client can follow a different fork than the consensus client.
+                ensure!(
+                    receipts.root() == payload.receipts_root,
+                    "Receipts for block number {} don't belong to block {}",
+                    payload.block_number,
+                    payload.block_hash,
+                );
 
-                self.receipts
-                    .push(beacon_block.body.execution_payload.block_number, receipts);
+                self.receipts.push(payload.block_hash, receipts);
                 Ok(vacant_beacon_block.insert(beacon_block))
             }
         }
@@ -270,12 +277,12 @@ impl EphemeralHistoryBridge {
 
         let Some(receipts) = self
             .receipts
-            .get(&beacon_block.body.execution_payload.block_number)
+            .get(&beacon_block.body.execution_payload.block_hash)
             .cloned()
         else {
             bail!(
-                "Receipts not found for block number: {}",
-                beacon_block.body.execution_payload.block_number
+                "Receipts not found for block hash: {}",
+                beacon_block.body.execution_payload.block_hash
             );
         };
 
-- 
2.43.0


From fb567d2803f0317c3f82976e70f98a4d3706eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:49 +0000
Subject: [PATCH 25/37] fix: give up when the provider keeps returning earlier
 states

The search for the state at the start of a period never ended if the
provider returned the state of an earlier slot for every slot asked for.
---
 crates/ethereum-rpc-client/src/consensus/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ethereum-rpc-client/src/consensus/mod.rs b/crates/ethereum-rpc-client/src/consensus/mod.rs
index 2feac65..7d6fa21 100644
--- a/crates/ethereum-rpc-client/src/consensus/mod.rs
+++ b/crates/ethereum-rpc-client/src/consensus/mod.rs
@@ -181,8 +181,9 @@ impl ConsensusApi {
                     // we requested if the requested slot is skipped
                     if state.slot < slot {
                         warn!("The slot {slot} is skipped, and the CL for some reason gave us the state for a previous slot, trying the next slot");
-                        slot += 1;
                         tries += 1;
+                        ensure!(tries <= 5, "Failed to find a valid state for slot {slot}");
+                        slot += 1;
                         continue;
                     }
                     ensure!(
-- 
2.43.0


From 70971fb424f76b1e43003eba2be634b8e46d8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:49 +0000
Subject: [PATCH 26/37] fix: match responses of a batch by their ids

JSON-RPC responses of a batch can come in any order, so receipts could be
taken for those of another block, and missing ones went unnoticed.
---
 crates/ethereum-rpc-client/src/execution.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/ethereum-rpc-client/src/execution.rs b/crates/ethereum-rpc-client/src/execution.rs
index b786e46..d3d4c72 100644
--- a/crates/ethereum-rpc-client/src/execution.rs
+++ b/crates/ethereum-rpc-client/src/execution.rs
@@ -157,7 +157,15 @@ impl ExecutionApi {
                 .try_batch_request(chunk.to_vec())
                 .await
                 .map_err(|err| anyhow!("Batch request failed: {err:?}"))?;
-            for (res, block_number) in responses.into_iter().zip(block_numbers.iter()) {
+            // Responses of a batch can come in any order, only their ids tell them apart.
+            let mut responses: HashMap<u64, Value> = responses
+                .into_iter()
+                .filter_map(|res| Some((res.get("id")?.as_u64()?, res)))
+                .collect();
+            for (request, block_number) in chunk.iter().zip(block_numbers.iter()) {
+                let res = responses.remove(&request.id.into()).ok_or_else(|| {
+                    anyhow!("No receipts for block {block_number} in provider response")
+                })?;
                 let receipt: Receipts = serde_json::from_value(res).map_err(|err| {
                     anyhow!("Unable to parse receipts for block {block_number} from provider response: {err:?}")
                 })?;
-- 
2.43.0


From bc1224c48730e201af9e6bb2c9c0d6fc5b079c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:59 +0000
Subject: [PATCH 27/37] fix: report put content as stored only if the store
 kept it

---
 crates/portalnet/src/overlay/protocol.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index b1b2d08..89db831 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -239,12 +239,12 @@ impl<
             }
         };
 
-        if should_we_store {
-            let _ = self
+        let stored_locally = should_we_store
+            && self
                 .store
                 .lock()
-                .put(content_key.clone(), content_value.clone());
-        }
+                .put(content_key.clone(), content_value.clone())
+                .is_ok();
 
         PutContentInfo {
             peer_count: propagate_put_content_cross_thread::<_, TMetric>(
@@ -253,7 +253,7 @@ impl<
                 self.command_tx.clone(),
                 None,
             ) as u32,
-            stored_locally: should_we_store,
+            stored_locally,
         }
     }
 
-- 
2.43.0


From 3210737d4b9b90b81027520e31443d0d78a26faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:46 +0000
Subject: [PATCH 28/37] fix: let enr lookups return a record that only the
 network knew

---
 crates/portalnet/src/overlay/protocol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/portalnet/src/overlay/protocol.rs b/crates/portalnet/src/overlay/protocol.rs
index 89db831..c4563ff 100644
--- a/crates/portalnet/src/overlay/protocol.rs
+++ b/crates/portalnet/src/overlay/protocol.rs
@@ -362,7 +362,8 @@ impl<
             }
         }
 
-        enr
+        // The query never contacts its target, but adds discovered nodes to the routing table.
+        self.get_enr(node_id).or(enr)
     }
 
     /// Generate a default ping extension for a respective type.
-- 
2.43.0


From b863f478da0aa6c539c12bc7febf7bdf68f16b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:47 +0000
Subject: [PATCH 29/37] fix: go on with a discv5 record lookup when a peer does
 not answer

---
 crates/rpc/src/discv5_rpc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rpc/src/discv5_rpc.rs b/crates/rpc/src/discv5_rpc.rs
index 62dbc9e..d52e284 100644
--- a/crates/rpc/src/discv5_rpc.rs
+++ b/crates/rpc/src/discv5_rpc.rs
@@ -75,7 +75,8 @@ impl Discv5ApiServer for Discv5Api {
                 return Ok(enr);
             } else if let Some(enr) = self
                 .find_node(enr, vec![256])
-                .await?
+                .await
+                .unwrap_or_default()
                 .into_iter()
                 .find(|enr| enr.node_id() == node_id)
             {
-- 
2.43.0


From 55cf1d87e4303c298023b1d77e48fc02fee7acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:32 +0000
Subject: [PATCH 30/37] fix: read zero from the storage of accounts that have
 none

---
 crates/rpc/src/evm_state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rpc/src/evm_state.rs b/crates/rpc/src/evm_state.rs
index c98f1d0..7e9e753 100644
--- a/crates/rpc/src/evm_state.rs
+++ b/crates/rpc/src/evm_state.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use alloy::{
-    consensus::Header,
+    consensus::{Header, EMPTY_ROOT_HASH},
     primitives::{keccak256, Address, Bytes, B256, U256},
     rlp::Decodable,
 };
@@ -121,6 +121,11 @@ impl EvmBlockState {
         address_hash: B256,
         storage_slot: U256,
     ) -> Result<B256, EvmStateError> {
+        // Empty trie has no nodes that can be fetched
+        if storage_root == EMPTY_ROOT_HASH {
+            return Ok(B256::ZERO);
+        }
+
         let path = keccak256(storage_slot.to_be_bytes::<32>());
         let value = self
             .traverse_trie::<Bytes>(storage_root, path, |path, node_hash| {
-- 
2.43.0


From 1f118f8c9aa6b00c7ba6b352d0b06cc4b0d1919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:41 +0000
Subject: [PATCH 31/37] fix: keep old block hashes until the blocks that need
 them are committed

Executing a block removed the hash of the block 256 before it at once.
Blocks that were executed but not committed are executed again after a
restart, and then could not find the hashes they ask for.
---
 bin/trin-execution/src/evm/block_executor.rs | 18 ++++++------------
 bin/trin-execution/src/execution.rs          | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/bin/trin-execution/src/evm/block_executor.rs b/bin/trin-execution/src/evm/block_executor.rs
index 29719ec..b77a7f8 100644
--- a/bin/trin-execution/src/evm/block_executor.rs
+++ b/bin/trin-execution/src/evm/block_executor.rs
@@ -204,7 +204,7 @@ impl BlockExecutor {
         let _ = self.increment_balances(beneficiaries);
         stop_timer(beneficiary_timer);
 
-        self.manage_block_hash_serve_window(&block.header)?;
+        self.insert_block_hash(&block.header)?;
 
         stop_timer(execute_block_timer);
         set_int_gauge_vec(&BLOCK_HEIGHT, block.header.number as i64, &[]);
@@ -237,22 +237,16 @@ impl BlockExecutor {
         Ok(result)
     }
 
-    /// insert block hash into database and remove old one
-    fn manage_block_hash_serve_window(&mut self, header: &Header) -> anyhow::Result<()> {
+    /// Insert block hash into database.
+    ///
+    /// Old block hashes have to stay until changes of this block are committed, because blocks
+    /// that weren't committed might have to be executed again.
+    fn insert_block_hash(&mut self, header: &Header) -> anyhow::Result<()> {
         let timer = start_timer_vec(&BLOCK_PROCESSING_TIMES, &["insert_blockhash"]);
         self.evm.db().database.db.put(
             keccak256(B256::from(U256::from(header.number))),
             header.hash_slow(),
         )?;
-        if header.number >= BLOCKHASH_SERVE_WINDOW {
-            self.evm
-                .db()
-                .database
-                .db
-                .delete(keccak256(B256::from(U256::from(
-                    header.number - BLOCKHASH_SERVE_WINDOW,
-                ))))?;
-        }
         stop_timer(timer);
         Ok(())
     }
diff --git a/bin/trin-execution/src/execution.rs b/bin/trin-execution/src/execution.rs
index 963703f..fe78d72 100644
--- a/bin/trin-execution/src/execution.rs
+++ b/bin/trin-execution/src/execution.rs
@@ -5,7 +5,7 @@ use std::{
 
 use alloy::{
     consensus::{Header, TxEnvelope},
-    primitives::B256,
+    primitives::{keccak256, B256, U256},
 };
 use anyhow::ensure;
 use eth_trie::{RootWithTrieDiff, Trie};
@@ -16,7 +16,7 @@ use tracing::{info, warn};
 use super::config::StateConfig;
 use crate::{
     e2hs::manager::E2HSManager,
-    evm::block_executor::BlockExecutor,
+    evm::block_executor::{BlockExecutor, BLOCKHASH_SERVE_WINDOW},
     metrics::{start_timer_vec, stop_timer, BLOCK_PROCESSING_TIMES},
     storage::{evm_db::EvmDB, execution_position::ExecutionPosition, utils::setup_rocksdb},
 };
@@ -141,15 +141,30 @@ impl TrinExecution {
             header.state_root
         );
 
+        let first_committed_block = self.execution_position.next_block_number();
+
         let update_execution_position_timer =
             start_timer_vec(&BLOCK_PROCESSING_TIMES, &["set_block_execution_number"]);
         self.execution_position
             .update_position(self.database.db.clone(), header)?;
         stop_timer(update_execution_position_timer);
 
+        self.remove_old_block_hashes(first_committed_block, header.number)?;
+
         Ok(root_with_trie_diff)
     }
 
+    /// Removes block hashes that are no longer needed, once given blocks are committed.
+    fn remove_old_block_hashes(&self, first_block: u64, last_block: u64) -> anyhow::Result<()> {
+        for block_number in first_block.max(BLOCKHASH_SERVE_WINDOW)..=last_block {
+            let old_block_number = block_number - BLOCKHASH_SERVE_WINDOW;
+            self.database
+                .db
+                .delete(keccak256(B256::from(U256::from(old_block_number))))?;
+        }
+        Ok(())
+    }
+
     fn create_tracer(&self, header: &Header, tx: &TxEnvelope) -> Option<TracerEip3155> {
         self.config
             .block_to_trace
-- 
2.43.0


From fad35f6c558a4516db48c0060be9834da245c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:35 +0000
Subject: [PATCH 32/37] fix: save the execution position at the end of a state
 import

The position was saved before the block hashes were imported. When those
could not be fetched, the database looked complete but had no block
hashes, and the import could not be repeated.
---
 bin/trin-execution/src/subcommands/e2ss/import.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/trin-execution/src/subcommands/e2ss/import.rs b/bin/trin-execution/src/subcommands/e2ss/import.rs
index 3c53d6b..1210324 100644
--- a/bin/trin-execution/src/subcommands/e2ss/import.rs
+++ b/bin/trin-execution/src/subcommands/e2ss/import.rs
@@ -44,13 +44,14 @@ impl StateImporter {
         // Import state from e2ss file
         let header = self.import_state()?;
 
-        // Save execution position
-        let mut execution_position = ExecutionPosition::default();
-        execution_position.update_position(self.evm_db.db.clone(), &header)?;
-
         // Import last 256 block hashes
         self.import_last_256_block_hashes(header.number).await?;
 
+        // Save execution position. This has to be last, because database with execution position
+        // is considered complete.
+        let mut execution_position = ExecutionPosition::default();
+        execution_position.update_position(self.evm_db.db.clone(), &header)?;
+
         Ok(header)
     }
 
-- 
2.43.0


From 8f9bd18764711feba9522db55aebf9dde79b9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:19 +0000
Subject: [PATCH 33/37] fix: wait for the last offers before the state bridge
 ends

---
 bin/portal-bridge/src/bridge/state.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bin/portal-bridge/src/bridge/state.rs b/bin/portal-bridge/src/bridge/state.rs
index 359afb9..106db46 100644
--- a/bin/portal-bridge/src/bridge/state.rs
+++ b/bin/portal-bridge/src/bridge/state.rs
@@ -68,6 +68,8 @@ pub struct StateBridge {
     /// Semaphore used to limit the amount of active offer transfers
     /// to make sure we don't overwhelm the trin client
     offer_semaphore: Arc<Semaphore>,
+    /// Number of permits of the semaphore
+    offer_limit: usize,
     /// Used to request all interested enrs in the network.
     census: Census,
     /// Global offer report for tallying total performance of state bridge
@@ -94,6 +96,7 @@ impl StateBridge {
             state_network,
             metrics,
             offer_semaphore,
+            offer_limit,
             census,
             global_offer_report,
             bridge_id,
@@ -110,6 +113,7 @@ impl StateBridge {
                 self.launch_snapshot(snapshot_block)
                     .await
                     .expect("State bridge failed");
+                self.wait_for_active_offers().await;
                 return;
             },
             _ => panic!("State bridge only supports 'single' and `snapshot` mode, for single block (implies 0..=block range) or range of blocks, for snapshot mode provide the desired state snapshot to gossip"),
@@ -125,6 +129,7 @@ impl StateBridge {
         self.launch_state(start_block, end_block)
             .await
             .expect("State bridge failed");
+        self.wait_for_active_offers().await;
         info!("Bridge mode: {:?} complete.", self.mode);
     }
 
@@ -599,4 +604,14 @@ impl StateBridge {
             .await
             .expect("to be able to acquire semaphore")
     }
+
+    /// Waits until all offers that were started are done, otherwise they would be dropped when the
+    /// bridge exits.
+    async fn wait_for_active_offers(&self) {
+        let _permits = self
+            .offer_semaphore
+            .acquire_many(self.offer_limit as u32)
+            .await
+            .expect("to be able to acquire semaphore");
+    }
 }
-- 
2.43.0


From 79fac9bd0fa73aac3fe5eaf8ee41c970c5701727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:42 +0000
Subject: [PATCH 34/37] fix: report an error when a checkpoint service returns
 no slots

The light client panicked on an empty slot list from a checkpoint service.
---
 crates/light-client/src/config/checkpoints.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/light-client/src/config/checkpoints.rs b/crates/light-client/src/config/checkpoints.rs
index 0ccf2d0..8bb508f 100644
--- a/crates/light-client/src/config/checkpoints.rs
+++ b/crates/light-client/src/config/checkpoints.rs
@@ -209,7 +209,11 @@ impl CheckpointFallback {
         let constructed_url = Self::construct_url(url);
         let res = Self::send_request(&constructed_url).await?;
         let raw: RawSlotResponse = res.json().await?;
-        let slot = raw.data.slots[0].clone();
+        let slot = raw
+            .data
+            .slots
+            .first()
+            .ok_or_else(|| anyhow!("No slots returned"))?;
         slot.block_root
             .ok_or_else(|| anyhow!("Checkpoint not in returned slot"))
     }
-- 
2.43.0


From 88cdadd701d57ad21d89abc40fb884e12498ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:31 +0000
Subject: [PATCH 35/37] fix: report a failing page of the bucket listing
 instead of ending there

---
 .../src/subcommands/head_generator/s3_bucket.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs b/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs
index 0964f75..cc8ef2d 100644
--- a/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs
+++ b/bin/e2hs-writer/src/subcommands/head_generator/s3_bucket.rs
@@ -133,14 +133,15 @@ impl S3Bucket {
         let mut continuation_token: Option<String> = None;
         let mut last_key: Option<String> = None;
 
-        while let Ok(response) = self
-            .aws_client
-            .list_objects_v2()
-            .bucket(&self.bucket_name)
-            .set_continuation_token(continuation_token.clone())
-            .send()
-            .await
-        {
+        loop {
+            let response = self
+                .aws_client
+                .list_objects_v2()
+                .bucket(&self.bucket_name)
+                .set_continuation_token(continuation_token.clone())
+                .send()
+                .await?;
+
             for object in response.contents() {
                 if let Some(key) = object.key() {
                     last_key = Some(key.to_string());
-- 
2.43.0


From 2f76999ef92fc11116a2586b2443b1b16981104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:53 +0000
Subject: [PATCH 36/37] fix: judge sync committee signatures under the fork of
 the signed slot

A sync committee signs the block of the slot before its signature slot.
The domain therefore belongs to the fork of that earlier slot.
Updates signed in the first slot of a fork were refused.
---
 crates/light-client/src/consensus/consensus_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index f0c9ab3..1eaf0ba 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -263,7 +263,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
@@ -275,7 +276,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
@@ -287,7 +289,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
-- 
2.43.0


From 3ec9665335f5a42ed3c4e7c58598c73e75e91181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:04 +0000
Subject: [PATCH 37/37] fix: refuse keys and signatures of a wrong length

A signature text or encoding that was not 96 bytes long made the reader panic.
A public key that was not 48 bytes long was padded or cut without notice.
Both are errors now.
---
 crates/ethportal-api/src/types/consensus/pubkey.rs  |  9 +++++----
 .../ethportal-api/src/types/consensus/signature.rs  | 13 ++++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/ethportal-api/src/types/consensus/pubkey.rs b/crates/ethportal-api/src/types/consensus/pubkey.rs
index d08b853..32d2173 100644
--- a/crates/ethportal-api/src/types/consensus/pubkey.rs
+++ b/crates/ethportal-api/src/types/consensus/pubkey.rs
@@ -36,8 +36,8 @@ impl Decode for PubKey {
     }
 
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
-        let key = FixedVector::from(Vec::from(bytes));
-        Ok(Self { inner: key })
+        let inner = FixedVector::from_ssz_bytes(bytes)?;
+        Ok(Self { inner })
     }
     fn ssz_fixed_len() -> usize {
         48
@@ -67,8 +67,9 @@ impl<'de> Deserialize<'de> for PubKey {
     {
         let result: String = Deserialize::deserialize(deserializer)?;
         let result = hex_decode(&result).map_err(serde::de::Error::custom)?;
-        let key = FixedVector::from(result);
-        Ok(Self { inner: key })
+        let inner = FixedVector::from_ssz_bytes(&result)
+            .map_err(|err| serde::de::Error::custom(format!("Invalid public key: {err:?}")))?;
+        Ok(Self { inner })
     }
 }
 
diff --git a/crates/ethportal-api/src/types/consensus/signature.rs b/crates/ethportal-api/src/types/consensus/signature.rs
index 28eb200..88785d9 100644
--- a/crates/ethportal-api/src/types/consensus/signature.rs
+++ b/crates/ethportal-api/src/types/consensus/signature.rs
@@ -29,8 +29,12 @@ impl Decode for BlsSignature {
     }
 
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
-        let mut signature = [0u8; 96];
-        signature.copy_from_slice(bytes);
+        let signature = bytes
+            .try_into()
+            .map_err(|_| ssz::DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: 96,
+            })?;
         Ok(Self { signature })
     }
 }
@@ -57,9 +61,8 @@ impl<'de> Deserialize<'de> for BlsSignature {
     {
         let result: String = Deserialize::deserialize(deserializer)?;
         let result = hex_decode(&result).map_err(serde::de::Error::custom)?;
-        let mut signature = [0u8; 96];
-        signature.copy_from_slice(&result);
-        Ok(Self { signature })
+        Self::from_ssz_bytes(&result)
+            .map_err(|err| serde::de::Error::custom(format!("Invalid signature: {err:?}")))
     }
 }
 
-- 
2.43.0

