From 860e968b64b4f381f75111b5c2b43c77a1677143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 1/8] fix: reject multiproof descriptors whose gindices
 overflow

The gindex computation wrapped around in builds without overflow checks, so
that a node below depth 63 could alias the gindex of a different node.
---
 ssz-multiproofs/src/multiproof.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..962e4f9 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -163,7 +163,11 @@ impl Iterator for GIndexIterator<'_> {
             self.descriptor_index += 1;
             if !bit {
                 self.stack.push(self.current_gindex);
-                self.current_gindex *= 2;
+                // a wrapped gindex would alias the gindex of a different node
+                self.current_gindex = self
+                    .current_gindex
+                    .checked_mul(2)
+                    .expect("gindex overflow");
             } else {
                 let result = self.current_gindex;
                 self.current_gindex = self.stack.pop()? * 2 + 1;
-- 
2.43.0


From 92f396a5f15025a992b2acbaeddcbfafa5aac2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 2/8] fix: reconstruct the first link from the genesis
 consensus state

state_transition accepts the link from the all-zero state to epoch 1, but
transition_link reported it as an invalid transition.
---
 core/src/consensus_state.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..7eaaf82 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -157,16 +157,17 @@ impl ConsensusState {
         let target = other.current_justified_checkpoint;
 
         // Case 1: Finality was advanced
+        // 1-finality: the new finalized must be our previous `current_justified_checkpoint`
+        // At genesis, this does not change the finalized checkpoint.
+        if other.finalized_checkpoint == self.current_justified_checkpoint
+            && target.epoch() - other.finalized_checkpoint.epoch() == 1
+        {
+            return Ok(Some(Link {
+                source: other.finalized_checkpoint,
+                target,
+            }));
+        }
         if self.finalized_checkpoint != other.finalized_checkpoint {
-            // 1-finality: the new finalized must be our previous `current_justified_checkpoint`
-            if other.finalized_checkpoint == self.current_justified_checkpoint
-                && target.epoch() - other.finalized_checkpoint.epoch() == 1
-            {
-                return Ok(Some(Link {
-                    source: other.finalized_checkpoint,
-                    target,
-                }));
-            }
             // A jump of 2 epochs would imply 2-finality, which is unsupported.
             if target.epoch() - other.finalized_checkpoint.epoch() == 2 {
                 return Err(ConsensusError::TwoFinality);
-- 
2.43.0


From 556cb2e13789876c2c6a652d49b9ee1d9d8ae4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 3/8] fix: decoding an invalid consensus state returns an error

The conversion called the panicking constructor before the validity check.
---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 7eaaf82..0c3b2f3 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -56,12 +56,23 @@ impl ConsensusState {
     #[inline]
     #[must_use]
     pub fn new(current_justified_checkpoint: Checkpoint, finalized_checkpoint: Checkpoint) -> Self {
+        Self::try_new(current_justified_checkpoint, finalized_checkpoint)
+            .expect("invalid consensus state")
+    }
+
+    /// Constructs a new `ConsensusState` or returns an error if the provided checkpoints form an
+    /// invalid state.
+    #[inline]
+    pub fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
         let state = Self {
             current_justified_checkpoint,
             finalized_checkpoint,
         };
-        assert!(state.is_valid());
-        state
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
     }
 
     /// Returns the finalized checkpoint of the consensus state.
-- 
2.43.0


From bc574061c3555295960ea18eca6735281e01e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 4/8] fix: do not compare a state patch at epoch 0 with itself

Epoch subtraction saturates, so the exits of a patch at epoch 0 were treated
as unchanged and skipped the churn checks.
---
 core/src/input_reader/guest_input_reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..682ff01 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,9 +285,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
-                let &prev_exit_epoch = self
-                    .patches
-                    .get(&(patch_epoch - 1))
+                // there is no previous patch at epoch 0; a saturating subtraction would compare the
+                // patch with itself
+                let &prev_exit_epoch = patch_epoch
+                    .safe_sub(1)
+                    .ok()
+                    .and_then(|prev_epoch| self.patches.get(&prev_epoch))
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
-- 
2.43.0


From ecb17c656671d89a1dea56cc3f11c4cc6194a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 5/8] add a cfg-guarded constructor hook for verification
 harnesses

---
 core/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index e904eb3..83ec42f 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -211,3 +211,21 @@ macro_rules! ensure {
         }
     };
 }
+
+/// Access to private constructors for the verification harnesses; never part of a normal build.
+#[cfg(signal_verif)]
+pub mod verif_hooks {
+    use crate::{Root, ShuffleData, ValidatorIndex};
+
+    pub fn shuffle_data(
+        seed: Root,
+        indices: Vec<ValidatorIndex>,
+        committees_per_slot: usize,
+    ) -> ShuffleData {
+        ShuffleData {
+            seed,
+            indices,
+            committees_per_slot,
+        }
+    }
+}
-- 
2.43.0


From d7c8e6ae5fc63280c8822e9e49a5217c8bb3cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 6/8] fix: a wrong stack depth hint no longer aborts root
 computation

calculate_compact_multi_merkle_root reserved the stack from the caller's
max_stack_depth hint unchecked; a proof carrying a huge hint panicked with a
capacity overflow instead of being verified.
---
 ssz-multiproofs/src/multiproof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index 962e4f9..2e9908d 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -201,7 +201,8 @@ fn calculate_compact_multi_merkle_root(
     descriptor: &Descriptor,
     stack_depth_hint: usize,
 ) -> Result<[u8; CHUNK_SIZE]> {
-    let mut stack = Vec::with_capacity(stack_depth_hint);
+    // the stack never holds more nodes than the shape has, whatever the (unverified) hint says
+    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));
     let mut node_index = 0;
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
-- 
2.43.0


From 237eb59bcc62e3706f36269cf1636e7d518f6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 7/8] fix: an interrupted save of a beacon state must not leave
 a partial file under its name

---
 host/src/state_provider/file_provider.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..80e1d0b 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -48,7 +48,12 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
+        // an interrupted write must not leave a partial state under the name of the state
+        let partial = self
+            .directory
+            .join(format!("{slot}_beacon_state.ssz.partial"));
+        fs::write(&partial, ssz_rs::serialize(state)?)?;
+        fs::rename(&partial, &file)?;
         Ok(())
     }
 
-- 
2.43.0


From 693979a1b5b1012d08aae7506eba2490b6b71aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 8/8] fix: to_input keeps the recorded queries

PreflightInputReader::to_input took the recorded mixes and validator epochs
out of the reader. A second call, also one after an error such as a failed
request for a block header, built an input without the state patches of the
epochs that were queried, which the guest then cannot use.
---
 host/src/input_reader/preflight_input_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/preflight_input_reader.rs b/host/src/input_reader/preflight_input_reader.rs
index c4b600b..c9849e0 100644
--- a/host/src/input_reader/preflight_input_reader.rs
+++ b/host/src/input_reader/preflight_input_reader.rs
@@ -134,7 +134,7 @@ where
 
         info!("Building state patches");
         let mut patch_builder: BTreeMap<Epoch, StatePatchBuilder> = BTreeMap::new();
-        for (epoch, indices) in self.mix_epochs.take() {
+        for (epoch, indices) in self.mix_epochs.borrow().clone() {
             let patch = patch_builder
                 .entry(epoch)
                 .or_insert(self.patch_builder(epoch)?);
@@ -142,7 +142,7 @@ where
                 patch.randao_mix(idx)?;
             }
         }
-        for epoch in self.validator_epochs.take() {
+        for epoch in self.validator_epochs.borrow().clone() {
             if epoch != self.trusted_checkpoint.epoch() {
                 let patch = patch_builder
                     .entry(epoch)
-- 
2.43.0

