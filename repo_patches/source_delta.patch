From 9e968ae7d05c24997b04dbf8b648aaff502ef83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 01/12] fix: refuse a proposal that carries no block on the
 block shard

BlockProposer::add_proposed_value answered Valid for a full proposal whose
value is a shard chunk (or missing). Such a value is not remembered, so once
decided every validator panics in decide().
---
 src/consensus/proposer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/consensus/proposer.rs b/src/consensus/proposer.rs
index 3f3df9a..f9292e9 100644
--- a/src/consensus/proposer.rs
+++ b/src/consensus/proposer.rs
@@ -646,8 +646,10 @@ impl Proposer for BlockProposer {
 
             self.proposed_blocks
                 .add_proposed_value(full_proposal.clone());
+            return Validity::Valid;
         }
-        Validity::Valid // TODO: Validate proposer signature?
+        error!("Invalid proposed value: {:?}", full_proposal.proposed_value);
+        Validity::Invalid // TODO: Validate proposer signature?
     }
 
     fn get_proposed_value(&self, shard_hash: &ShardHash) -> Option<FullProposal> {
-- 
2.43.0


From 9263e0c0df5a47d7865b3431a7a554e5b1c8b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 02/12] fix: bound the allocation made for a trie page token by
 the token's size

The segment count comes from the client; a 4-byte token could ask for 100 GB
and abort the process.
---
 src/storage/trie/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/util.rs b/src/storage/trie/util.rs
index 3a4c207..1d13897 100644
--- a/src/storage/trie/util.rs
+++ b/src/storage/trie/util.rs
@@ -62,7 +62,8 @@ pub fn decode_trie_page_token(encoded: &str) -> Result<Option<Vec<Vec<u8>>>, Tri
     let mut offset = 0usize;
     let count = u32::from_be_bytes(bytes[offset..offset + 4].try_into().unwrap()) as usize;
     offset += 4;
-    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count);
+    // Each segment takes at least its 4-byte length, so do not trust `count` for more than that.
+    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count.min((bytes.len() - offset) / 4));
     for _ in 0..count {
         if offset + 4 > bytes.len() {
             return Err(TrieError::TokenDecodeError(
-- 
2.43.0


From 527aa26c83353fc970aa49e5d3ade3909cb4b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 03/12] fix: do not consult the local clock when reading a
 name's proof during replay

---
 src/storage/store/engine.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 31845aa..0dc5c44 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2233,16 +2233,11 @@ impl ShardEngine {
     ) -> Result<Option<UserNameProof>, MessageValidationError> {
         // TODO(aditi): The fnames proofs should live in the username proof store.
         if name.ends_with(".eth") {
-            let version = EngineVersion::current(self.network);
-            let batch_txn = if version.is_enabled(ProtocolFeature::DependentMessagesInBulkSubmit) {
-                txn
-            } else {
-                &RocksDbTransactionBatch::new()
-            };
+            // `txn` is already the read view the block's version prescribes.
             let proof_message = UsernameProofStore::get_username_proof(
                 &self.stores.username_proof_store,
                 &name.as_bytes().to_vec(),
-                batch_txn,
+                txn,
             )
             .map_err(|e| MessageValidationError::StoreError(e))?;
             match proof_message {
-- 
2.43.0


From b1ca1db85c242c2bdfbd5ace9aee7652416a968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 04/12] fix: replay a transaction's revocations and prunes in
 one order on every node

---
 src/storage/store/engine.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 0dc5c44..87cecec 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -36,7 +36,7 @@ use informalsystems_malachitebft_core_types::Round;
 use itertools::Itertools;
 use merkle_trie::TrieKey;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 use std::str;
 use std::string::ToString;
 use std::sync::Arc;
@@ -1243,8 +1243,8 @@ impl ShardEngine {
         let mut pruned_messages_count = 0;
         let mut revoked_messages_count = 0;
         let mut events = vec![];
-        let mut message_types_to_prune = HashSet::new();
-        let mut revoked_signers = HashSet::new();
+        let mut message_types_to_prune = BTreeSet::new();
+        let mut revoked_signers = BTreeSet::new();
 
         let mut validation_errors = vec![];
 
-- 
2.43.0


From 68d0b884fb3d53eaf5ef8a0c71343937d274a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 05/12] fix: refuse malformed consensus messages from peers
 instead of panicking in the codec

---
 src/consensus/malachite/snapchain_codec.rs | 55 ++++++++++++++++++----
 src/core/types.rs                          | 29 ++++++++++++
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/src/consensus/malachite/snapchain_codec.rs b/src/consensus/malachite/snapchain_codec.rs
index 2b0472d..d5847a9 100644
--- a/src/consensus/malachite/snapchain_codec.rs
+++ b/src/consensus/malachite/snapchain_codec.rs
@@ -1,4 +1,6 @@
-use crate::core::types::{CommitsExt, Proposal, Signature, SnapchainValidatorContext, Vote};
+use crate::core::types::{
+    CommitsExt, FullProposalExt, Proposal, Signature, SnapchainValidatorContext, Vote,
+};
 use crate::proto::sync_request::SyncRequest;
 use crate::proto::{self};
 use crate::proto::{consensus_message, ConsensusMessage, FullProposal, StatusMessage};
@@ -28,6 +30,28 @@ pub enum SnapchainCodecError {
     InvalidField(String),
 }
 
+// Votes and proposals come from peers, so their fields can't be assumed to be there.
+fn decode_vote(vote: proto::Vote) -> Result<Vote, SnapchainCodecError> {
+    if vote.height.is_none()
+        || proto::VoteType::try_from(vote.r#type).is_err()
+        || vote.voter.len() != 32
+    {
+        return Err(SnapchainCodecError::InvalidField(
+            "Malformed vote".to_string(),
+        ));
+    }
+    Ok(Vote::from_proto(vote))
+}
+
+fn decode_proposal(proposal: proto::Proposal) -> Result<Proposal, SnapchainCodecError> {
+    if proposal.height.is_none() || proposal.value.is_none() || proposal.proposer.len() != 32 {
+        return Err(SnapchainCodecError::InvalidField(
+            "Malformed proposal".to_string(),
+        ));
+    }
+    Ok(Proposal::from_proto(proposal))
+}
+
 impl Codec<SignedConsensusMsg<SnapchainValidatorContext>> for SnapchainCodec {
     type Error = SnapchainCodecError;
 
@@ -39,13 +63,13 @@ impl Codec<SignedConsensusMsg<SnapchainValidatorContext>> for SnapchainCodec {
         match message.consensus_message {
             Some(consensus_message::ConsensusMessage::Vote(vote)) => {
                 Ok(SignedConsensusMsg::Vote(SignedVote {
-                    message: Vote::from_proto(vote),
+                    message: decode_vote(vote)?,
                     signature: Signature(message.signature),
                 }))
             }
             Some(consensus_message::ConsensusMessage::Proposal(proposal)) => {
                 Ok(SignedConsensusMsg::Proposal(SignedProposal {
-                    message: Proposal::from_proto(proposal),
+                    message: decode_proposal(proposal)?,
                     signature: Signature(message.signature),
                 }))
             }
@@ -88,7 +112,13 @@ impl Codec<FullProposal> for SnapchainCodec {
     type Error = SnapchainCodecError;
 
     fn decode(&self, bytes: Bytes) -> Result<FullProposal, Self::Error> {
-        FullProposal::decode(bytes).map_err(SnapchainCodecError::Decode)
+        let proposal = FullProposal::decode(bytes)?;
+        if !proposal.is_well_formed() {
+            return Err(SnapchainCodecError::InvalidField(
+                "Malformed full proposal".to_string(),
+            ));
+        }
+        Ok(proposal)
     }
 
     fn encode(&self, msg: &FullProposal) -> Result<Bytes, Self::Error> {
@@ -103,7 +133,7 @@ impl Codec<StreamMessage<FullProposal>> for SnapchainCodec {
     fn decode(&self, bytes: Bytes) -> Result<StreamMessage<FullProposal>, Self::Error> {
         let proposal: FullProposal = Self.decode(bytes)?;
         let mut bytes = Vec::new();
-        bytes.extend_from_slice(&proposal.height.unwrap().as_u64().to_be_bytes());
+        bytes.extend_from_slice(&proposal.height().as_u64().to_be_bytes());
         bytes.extend_from_slice(&proposal.round.to_be_bytes());
         let stream_id = StreamId::new(bytes.into());
 
@@ -229,6 +259,11 @@ impl Codec<sync::Response<SnapchainValidatorContext>> for SnapchainCodec {
                         "Missing commits in ValueResponse".to_string(),
                     )
                 })?;
+                if !commits.is_well_formed() {
+                    return Err(SnapchainCodecError::InvalidField(
+                        "Malformed commits in ValueResponse".to_string(),
+                    ));
+                }
                 let commit_certificate = commits.to_commit_certificate();
                 Ok(sync::Response::ValueResponse(sync::ValueResponse {
                     height: value.height.ok_or_else(|| {
@@ -247,11 +282,13 @@ impl Codec<sync::Response<SnapchainValidatorContext>> for SnapchainCodec {
                     .votes
                     .into_iter()
                     .zip(vote_set.signatures)
-                    .map(|(vote, signature)| SignedVote {
-                        message: Vote::from_proto(vote),
-                        signature: Signature(signature),
+                    .map(|(vote, signature)| {
+                        Ok(SignedVote {
+                            message: decode_vote(vote)?,
+                            signature: Signature(signature),
+                        })
                     })
-                    .collect();
+                    .collect::<Result<Vec<_>, SnapchainCodecError>>()?;
                 Ok(sync::Response::VoteSetResponse(sync::VoteSetResponse {
                     height: vote_set.height.ok_or_else(|| {
                         SnapchainCodecError::InvalidField(
diff --git a/src/core/types.rs b/src/core/types.rs
index 0291bbd..6e4ef39 100644
--- a/src/core/types.rs
+++ b/src/core/types.rs
@@ -281,12 +281,30 @@ impl Display for Hash {
 // Extension trait for FullProposal that depends on main crate types (Address)
 pub trait FullProposalExt {
     fn proposer_address(&self) -> Address;
+    /// Whether the proposal carries every field that processing it relies on.
+    fn is_well_formed(&self) -> bool;
 }
 
 impl FullProposalExt for FullProposal {
     fn proposer_address(&self) -> Address {
         Address::from_vec(self.proposer.clone())
     }
+
+    fn is_well_formed(&self) -> bool {
+        let header_height = match &self.proposed_value {
+            Some(proto::full_proposal::ProposedValue::Block(block)) => {
+                block.header.as_ref().and_then(|header| header.height)
+            }
+            Some(proto::full_proposal::ProposedValue::Shard(chunk)) => {
+                chunk.header.as_ref().and_then(|header| header.height)
+            }
+            None => None,
+        };
+        self.height.is_some()
+            && header_height.is_some()
+            && u32::try_from(self.round).is_ok()
+            && self.proposer.len() == 32
+    }
 }
 
 #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
@@ -695,6 +713,8 @@ impl informalsystems_malachitebft_core_types::Validator<SnapchainValidatorContex
 
 // Extension trait for Commits that depends on main crate types
 pub trait CommitsExt {
+    /// Whether the commits can be turned into a certificate.
+    fn is_well_formed(&self) -> bool;
     fn to_commit_certificate(
         &self,
     ) -> informalsystems_malachitebft_core_types::CommitCertificate<SnapchainValidatorContext>;
@@ -706,6 +726,15 @@ pub trait CommitsExt {
 }
 
 impl CommitsExt for Commits {
+    fn is_well_formed(&self) -> bool {
+        self.height.is_some()
+            && self.value.is_some()
+            && self
+                .signatures
+                .iter()
+                .all(|commit| commit.signer.len() == 32)
+    }
+
     fn to_commit_certificate(
         &self,
     ) -> informalsystems_malachitebft_core_types::CommitCertificate<SnapchainValidatorContext> {
-- 
2.43.0


From ba72bce0e4e7003276703a5ddad2e9c3ed96758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 06/12] fix: drop gossip from peers that names no valid peer id
 or carries a proposal without height

---
 src/network/gossip.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/network/gossip.rs b/src/network/gossip.rs
index c0f6f0d..fb16750 100644
--- a/src/network/gossip.rs
+++ b/src/network/gossip.rs
@@ -1099,14 +1099,19 @@ impl SnapchainGossip {
             return;
         }
         let contact_info_body = contact_info.body.unwrap();
+        let Ok(contact_peer_id) = PeerId::from_bytes(&contact_info_body.peer_id) else {
+            warn!(
+                "Received contact info with an invalid peer id from peer: {}",
+                peer_id
+            );
+            return;
+        };
         info!(
             peer_id = peer_id.to_string(),
             ip = contact_info_body.gossip_address,
             "Received contact info from peer"
         );
 
-        let contact_peer_id = PeerId::from_bytes(&contact_info_body.peer_id).unwrap();
-
         self.peers
             .insert(contact_peer_id, contact_info_body.clone());
 
@@ -1174,7 +1179,10 @@ impl SnapchainGossip {
                 }
 
                 Some(proto::gossip_message::GossipMessage::FullProposal(full_proposal)) => {
-                    let height = full_proposal.height();
+                    let Some(height) = full_proposal.height else {
+                        warn!("Received proposal without height from peer: {}", peer_id);
+                        return None;
+                    };
                     debug!(
                         "Received block with height {} from peer: {}",
                         height, peer_id
-- 
2.43.0


From b5014af70a93097a07b05c6514c86c936a9da386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 07/12] fix: report undecodable synced values instead of
 panicking

---
 src/consensus/malachite/host.rs      |  8 ++++++--
 src/consensus/malachite/read_sync.rs | 23 +++++++++++++----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/consensus/malachite/host.rs b/src/consensus/malachite/host.rs
index 687bc49..98da45d 100644
--- a/src/consensus/malachite/host.rs
+++ b/src/consensus/malachite/host.rs
@@ -353,7 +353,7 @@ impl Host {
                     .statsd
                     .count_with_shard(height.shard_index, "sync.process_value", 1, vec![]);
                 let proposal = if height.shard_index == 0 {
-                    let decoded_block = Block::decode(value_bytes.as_ref()).unwrap();
+                    let decoded_block = Block::decode(value_bytes.as_ref())?;
                     FullProposal {
                         height: Some(height),
                         round: round.as_i64(),
@@ -361,7 +361,7 @@ impl Host {
                         proposed_value: Some(full_proposal::ProposedValue::Block(decoded_block)),
                     }
                 } else {
-                    let chunk = ShardChunk::decode(value_bytes.as_ref()).unwrap();
+                    let chunk = ShardChunk::decode(value_bytes.as_ref())?;
                     FullProposal {
                         height: Some(height),
                         round: round.as_i64(),
@@ -369,6 +369,10 @@ impl Host {
                         proposed_value: Some(full_proposal::ProposedValue::Shard(chunk)),
                     }
                 };
+                if !proposal.is_well_formed() {
+                    error!(height = %height, "Received invalid value via sync");
+                    return Ok(());
+                }
                 let proposed_value = state
                     .shard_validator
                     .add_proposed_value(&proposal, ProposalSource::Sync);
diff --git a/src/consensus/malachite/read_sync.rs b/src/consensus/malachite/read_sync.rs
index 78814d3..65b1a7e 100644
--- a/src/consensus/malachite/read_sync.rs
+++ b/src/consensus/malachite/read_sync.rs
@@ -346,19 +346,22 @@ impl ReadSync {
                         let value_bytes =
                             value_response.value.as_ref().unwrap().value_bytes.as_ref();
                         let value = if decided_value.certificate.value_id.shard_index == 0 {
-                            proto::decided_value::Value::Block(
-                                proto::Block::decode(value_bytes).unwrap(),
-                            )
+                            proto::Block::decode(value_bytes)
+                                .map(proto::decided_value::Value::Block)
                         } else {
-                            proto::decided_value::Value::Shard(
-                                proto::ShardChunk::decode(value_bytes).unwrap(),
-                            )
+                            proto::ShardChunk::decode(value_bytes)
+                                .map(proto::decided_value::Value::Shard)
                         };
                         debug!(peer_id = %peer, height = %decided_value.certificate.height, "Received sync value response");
-                        self.host.cast(ReadHostMsg::ProcessDecidedValue {
-                            value: proto::DecidedValue { value: Some(value) },
-                            sync: myself.clone(),
-                        })?;
+                        match value {
+                            Ok(value) => self.host.cast(ReadHostMsg::ProcessDecidedValue {
+                                value: proto::DecidedValue { value: Some(value) },
+                                sync: myself.clone(),
+                            })?,
+                            Err(e) => {
+                                error!(peer_id = %peer, "Failed to decode sync value: {e}")
+                            }
+                        }
                         self.process_input(
                             &myself,
                             state,
-- 
2.43.0


From cc203859476db36d0be3bd411f6557a01cde7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 08/12] fix: refuse malformed decided values and unknown chain
 ids on read nodes

---
 src/consensus/read_validator.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/consensus/read_validator.rs b/src/consensus/read_validator.rs
index d9aa5c7..4bc6528 100644
--- a/src/consensus/read_validator.rs
+++ b/src/consensus/read_validator.rs
@@ -106,6 +106,22 @@ impl ReadValidator {
         }
     }
 
+    // Decided values come from peers, so their fields can't be assumed to be there.
+    fn is_well_formed(value: &proto::DecidedValue) -> bool {
+        let (height, commits) = match value.value.as_ref() {
+            Some(proto::decided_value::Value::Shard(shard_chunk)) => (
+                shard_chunk.header.as_ref().and_then(|header| header.height),
+                shard_chunk.commits.as_ref(),
+            ),
+            Some(proto::decided_value::Value::Block(block)) => (
+                block.header.as_ref().and_then(|header| header.height),
+                block.commits.as_ref(),
+            ),
+            None => (None, None),
+        };
+        height.is_some() && commits.is_some_and(|commits| commits.is_well_formed())
+    }
+
     fn verify_signatures(&self, value: &proto::DecidedValue) -> bool {
         let commits = match value.value.as_ref().unwrap() {
             proto::decided_value::Value::Shard(shard_chunk) => {
@@ -122,7 +138,10 @@ impl ReadValidator {
         match &value.value {
             Some(proto::decided_value::Value::Block(block)) => {
                 let header = block.header.as_ref().unwrap();
-                let network = FarcasterNetwork::try_from(header.chain_id).unwrap();
+                let Ok(network) = FarcasterNetwork::try_from(header.chain_id) else {
+                    error!(%self.last_height, "Unknown network in decided block");
+                    return false;
+                };
                 let timestamp = FarcasterTime::new(header.timestamp);
                 let expected_version =
                     EngineVersion::version_for(&timestamp, network).protocol_version();
@@ -150,6 +169,10 @@ impl ReadValidator {
     }
 
     pub async fn process_decided_value(&mut self, value: DecidedValue) -> u64 {
+        if !Self::is_well_formed(&value) {
+            error!(last_height = %self.last_height, "Dropping malformed decided value");
+            return 0;
+        }
         let height = Self::get_decided_value_height(&value);
         let verified = self.verify_signatures(&value);
         if !verified {
-- 
2.43.0


From 5ac22137d244b0bf4ee791a113b7d21bd2b5ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 09/12] fix: skip replicated messages whose signer is not a
 32-byte key

---
 src/bootstrap/replication/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 73ae846..f601928 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -1190,7 +1190,7 @@ impl ReplicatorBootstrap {
 
                 if let (Ok(sig), Ok(key)) = (
                     Signature::from_slice(&m.signature),
-                    VerifyingKey::from_bytes(m.signer.as_slice().try_into().unwrap()),
+                    VerifyingKey::try_from(m.signer.as_slice()),
                 ) {
                     signatures.push(sig);
                     verifying_keys.push(key);
-- 
2.43.0


From e6f43d60fd86fb0eb8b77335306fc3d4efbee7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 10/12] fix: drop gossiped user messages without data or with a
 malformed hash, which panicked the mempool

---
 src/network/gossip.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/network/gossip.rs b/src/network/gossip.rs
index fb16750..6e342cd 100644
--- a/src/network/gossip.rs
+++ b/src/network/gossip.rs
@@ -10,7 +10,7 @@ use crate::proto::{
     gossip_message, read_node_message, ContactInfo, ContactInfoBody, FarcasterNetwork,
     GossipMessage,
 };
-use crate::storage::store::account::message_bytes_decode;
+use crate::storage::store::account::{message_bytes_decode, HASH_LENGTH};
 use crate::storage::store::mempool_poller::MempoolMessage;
 use crate::utils::statsd_wrapper::StatsdClientWrapper;
 use crate::version::version::EngineVersion;
@@ -1242,6 +1242,13 @@ impl SnapchainGossip {
                             proto::mempool_message::MempoolMessage::UserMessage(message) => {
                                 let mut message_with_data = message.clone();
                                 message_bytes_decode(&mut message_with_data);
+                                // The mempool keys messages by their data and hash.
+                                if message_with_data.data.is_none()
+                                    || message_with_data.hash.len() != HASH_LENGTH
+                                {
+                                    warn!("Malformed user message from peer: {}", peer_id);
+                                    return None;
+                                }
                                 MempoolMessage::UserMessage(message_with_data)
                             }
                         };
-- 
2.43.0


From 25b021f68d68deb4e66d0c90ca2bbc5d84b1c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 11/12] fix: claim the prune lock under a single guard

prune_events_until and prune_shard_chunks_until tested the flag under a read
guard and set it under a later write guard, so two concurrent runs could both
find it clear and both prune.
---
 src/storage/store/stores.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/storage/store/stores.rs b/src/storage/store/stores.rs
index 450a57c..093a42b 100644
--- a/src/storage/store/stores.rs
+++ b/src/storage/store/stores.rs
@@ -702,15 +702,16 @@ impl Stores {
         throttle: Duration,
         page_options: Option<PageOptions>,
     ) -> Result<u32, HubError> {
-        if *(self.prune_lock.read().await) {
-            info!(
-                "Prune lock is already held for shard {}. Skipping prune.",
-                self.shard_id
-            );
-            return Err(HubError::internal_db_error("pruning already running"));
-        }
         {
+            // Test and set under one guard, so that two concurrent runs cannot both claim the lock.
             let mut prune_lock = self.prune_lock.write().await;
+            if *prune_lock {
+                info!(
+                    "Prune lock is already held for shard {}. Skipping prune.",
+                    self.shard_id
+                );
+                return Err(HubError::internal_db_error("pruning already running"));
+            }
             *prune_lock = true;
         }
         let stop_height = self.get_next_height_by_timestamp(timestamp);
@@ -764,15 +765,16 @@ impl Stores {
         throttle: Duration,
         page_options: Option<PageOptions>,
     ) -> Result<u32, HubError> {
-        if *(self.prune_lock.read().await) {
-            info!(
-                "Prune lock is already held for shard {}. Skipping prune.",
-                self.shard_id
-            );
-            return Err(HubError::internal_db_error("pruning already running"));
-        }
         {
+            // Test and set under one guard, so that two concurrent runs cannot both claim the lock.
             let mut prune_lock = self.prune_lock.write().await;
+            if *prune_lock {
+                info!(
+                    "Prune lock is already held for shard {}. Skipping prune.",
+                    self.shard_id
+                );
+                return Err(HubError::internal_db_error("pruning already running"));
+            }
             *prune_lock = true;
         }
 
-- 
2.43.0


From 6eb42337f521a1cb254d1a756b273a30124e64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 12/12] fix: re-check the peer list before appending a
 bootstrap peer

add_new_peer releases the lock while it fetches the peer's metadata; two
concurrent discoveries of one peer both found it missing and both appended it.
---
 src/bootstrap/replication/rpc_client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bootstrap/replication/rpc_client.rs b/src/bootstrap/replication/rpc_client.rs
index 0f6addc..6ca0b20 100644
--- a/src/bootstrap/replication/rpc_client.rs
+++ b/src/bootstrap/replication/rpc_client.rs
@@ -189,7 +189,13 @@ impl RpcClientsManager {
             Ok(snapshots) => {
                 if snapshots.snapshots.iter().any(|s| s.height == height) {
                     let mut data = self.inner.lock().await;
-                    data.peer_manager.peer_addresses.push(peer_address);
+                    // The lock was released while fetching the metadata; the same peer may have
+                    // been added in the meantime.
+                    let peer_addresses = &mut data.peer_manager.peer_addresses;
+                    if peer_addresses.contains(&peer_address) {
+                        return Ok(false);
+                    }
+                    peer_addresses.push(peer_address);
 
                     Ok(true)
                 } else {
-- 
2.43.0

