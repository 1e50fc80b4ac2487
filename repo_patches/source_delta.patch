From 254c19b5909fc813ba61350d8049ae501f9e7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:34 +0000
Subject: [PATCH 1/3] fix: late timeout of a previous channel's packet closed
 the current ordered channel

---
 src/ibc/relay.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..48e1cc4 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -54,9 +54,10 @@ pub fn ibc_packet_timeout(
     _env: Env,
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
-    // If the channel is ordered, close it.
+    // If the channel is ordered, close it. A late timeout of a packet that was sent
+    // over a previous channel must not close the current one.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From dc7c31803db40e3b51dec7d23f6fbb0e3c6ec08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:34 +0000
Subject: [PATCH 2/3] fix: a second in-flight handshake could replace the
 active open channel

---
 src/ibc/handshake.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..fba8313 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -46,6 +46,7 @@ pub fn ibc_channel_open(
 /// - The host port is invalid.
 /// - The version metadata is invalid.
 /// - The ICA address is empty.
+/// - Another channel is already open.
 #[entry_point]
 #[allow(clippy::needless_pass_by_value)] // entry point needs this signature
 pub fn ibc_channel_connect(
@@ -156,6 +157,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidControllerPort);
         }
 
+        // this contract can only have one active channel, another handshake may have been
+        // completed since the corresponding `OpenInit`
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // serde::Deserialize the metadata
         let metadata: IcaMetadata =
             serde_json_wasm::from_str(&counterparty_version).map_err(|_| {
-- 
2.43.0


From 61bd76379027f1efd8ca64ef05d67a2957dfa4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:34 +0000
Subject: [PATCH 3/3] fix: error acknowledgements leaked pending queries and
 reported query results for packets without queries

---
 src/ibc/relay.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index 48e1cc4..1dc5292 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -140,15 +140,22 @@ mod ibc_packet_ack {
         relayer: Addr,
         err: String,
     ) -> Result<IbcBasicResponse, ContractError> {
-        let state = state::STATE.load(deps.storage)?;
+        let contract_state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
 
-        if let Some(contract_addr) = state.callback_address {
+        // the query result is only present if the packet contained queries
+        let query_result = state::PENDING_QUERIES
+            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
+            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
+
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
+
+        if let Some(contract_addr) = contract_state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0

