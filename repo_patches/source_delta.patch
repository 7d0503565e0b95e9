From 1a3eb16cb5abb253d28b76cb161cfa4c147f8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 01/20] fix: compute basis point fees without overflow

---
 elusiv/src/state/fee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..38565c2 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -17,7 +17,7 @@ pub struct BasisPointFee(pub u64);
 
 impl BasisPointFee {
     pub fn calc(&self, amount: u64) -> u64 {
-        self.0 * amount / 10_000
+        (self.0 as u128 * amount as u128 / 10_000) as u64
     }
 }
 
-- 
2.43.0


From e3df2901793fa6ebb9a283a52a308d77ecb317f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 02/20] fix: reject fee tables that subsidize the largest
 batches or overflow

---
 elusiv/src/state/fee.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 38565c2..80a23b9 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -74,9 +74,25 @@ impl ProgramFee {
         }
     }
 
-    /// Verifies that possible subventions are not too high
+    /// Verifies that possible subventions are not too high and that no fee computation can overflow
     pub fn is_valid(&self) -> bool {
-        for min_batching_rate in 0..MAX_COMMITMENT_BATCHING_RATE as u32 {
+        if self.base_commitment_network_fee.0 > 10_000 || self.proof_network_fee.0 > 10_000 {
+            return false;
+        }
+
+        if [
+            self.lamports_per_tx.0,
+            self.warden_hash_tx_reward.0,
+            self.warden_proof_reward.0,
+            self.proof_base_tx_count,
+        ]
+        .iter()
+        .any(|v| *v > u32::MAX as u64)
+        {
+            return false;
+        }
+
+        for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
                 return false;
-- 
2.43.0


From 5b2b9b092a5a0b9c205a452e1a722167c3db7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 03/20] fix: keep the queues unchanged if a batch can not be
 started

---
 elusiv/src/processor/commitment.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..781a297 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -410,13 +410,6 @@ fn init_commitment_hash_inner(
 
     let mut commitment_queue = CommitmentQueue::new(commitment_queue);
     let (batch, batching_rate) = commitment_queue.next_batch()?;
-    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
-
-    let mut metadata_queue = MetadataQueue::new(metadata_queue);
-    for _ in 0..batch.len() {
-        let metadata = metadata_queue.dequeue_first()?;
-        metadata_account.add_commitment_metadata(&metadata)?;
-    }
 
     // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
     let fee_version = batch.first().unwrap().fee_version;
@@ -427,6 +420,23 @@ fn init_commitment_hash_inner(
         ElusivError::NoRoomForCommitment
     );
 
+    // Nothing is removed from the queues before all fallible steps succeeded (the caller may tolerate the failure)
+    let mut metadata_queue = MetadataQueue::new(metadata_queue);
+    let metadata_ptr = metadata_account.get_next_metadata_ptr();
+    for i in 0..batch.len() {
+        let result = metadata_queue
+            .view(i)
+            .and_then(|metadata| metadata_account.add_commitment_metadata(&metadata));
+
+        if let Err(e) = result {
+            metadata_account.set_next_metadata_ptr(&metadata_ptr);
+            return Err(e);
+        }
+    }
+
+    metadata_queue.remove(usize_as_u32_safe(batch.len()))?;
+    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
+
     let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
     for i in 0..batch.len() {
         commitments[i] = batch[i].commitment;
-- 
2.43.0


From d9dade630dc251059f39d7fedaa51293d38fee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 04/20] fix: do not finalize a commitment batch in a tree it
 was not hashed for

---
 elusiv/src/processor/commitment.rs | 19 ++++++++++++++++---
 elusiv/src/state/commitment.rs     | 12 ++++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index 781a297..424a1e3 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -355,15 +355,22 @@ fn init_commitment_hash_setup_inner(
     hashing_account: &mut CommitmentHashingAccount,
     storage_account: &StorageAccount,
 ) -> ProgramResult {
+    let ordering = storage_account.get_next_commitment_ptr();
+    let is_active = hashing_account.get_is_active();
+
+    // An active computation is only restarted if the MT has been reset in the meantime
     guard!(
-        !hashing_account.get_is_active(),
+        !is_active || hashing_account.get_ordering() != ordering,
         ElusivError::ComputationIsNotYetFinished
     );
 
-    let ordering = storage_account.get_next_commitment_ptr();
     let siblings = storage_account.get_mt_opening(ordering as usize)?;
 
-    hashing_account.setup(ordering, &siblings)
+    if is_active {
+        hashing_account.restart(ordering, &siblings)
+    } else {
+        hashing_account.setup(ordering, &siblings)
+    }
 }
 
 /// Places the next batch from the commitment queue in the [`CommitmentHashingAccount`]
@@ -503,6 +510,12 @@ pub fn finalize_commitment_hash(
         ElusivError::NoRoomForCommitment
     );
 
+    // The computation has to be restarted if the MT has been reset in the meantime
+    guard!(
+        hashing_account.get_ordering() == storage_account.get_next_commitment_ptr(),
+        ElusivError::InvalidAccountState
+    );
+
     hashing_account.update_mt(storage_account, finalization_ix);
     hashing_account.set_finalization_ix(&(finalization_ix + 1));
     if finalization_ix == batching_rate {
diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..b924d0c 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -115,6 +115,18 @@ impl<'a> CommitmentHashingAccount<'a> {
         Ok(())
     }
 
+    /// Restarts an active computation (with its commitments) for a new ordering and siblings
+    pub fn restart(&mut self, ordering: u32, siblings: &[U256]) -> Result<(), ProgramError> {
+        guard!(self.get_is_active(), ElusivError::InvalidAccountState);
+
+        self.set_is_active(&false);
+        self.setup(ordering, siblings)?;
+        self.set_is_active(&true);
+        self.set_state(&self.next_hashing_state(0));
+
+        Ok(())
+    }
+
     /// Called after setup, sets the commitments and batching rate
     pub fn reset(
         &mut self,
-- 
2.43.0


From a917fe08c90e97a23510eaae9365d7334b4c8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 05/20] fix: reject a verification whose amount and fee
 overflow

---
 elusiv/src/processor/proof.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..bd6ba6d 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1138,6 +1138,14 @@ fn check_join_split_public_inputs(
         public_inputs.amount >= public_inputs.optional_fee.amount,
         ElusivError::InvalidAmount
     );
+    // The proof only asserts the sum of amount and fee, so the sum is not allowed to overflow
+    guard!(
+        public_inputs
+            .amount
+            .checked_add(public_inputs.fee)
+            .is_some(),
+        ElusivError::InvalidAmount
+    );
 
     let active_tree_index = storage_account.get_trees_count();
 
-- 
2.43.0


From c7a053a7aeaf9ebffd689c8ea85446e7089dcd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 06/20] fix: add token account rent and optional fee without
 overflow

---
 elusiv/src/processor/proof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index bd6ba6d..aba7857 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -299,7 +299,8 @@ pub fn init_verification_transfer_fee<'a>(
             guard!(
                 public_inputs.join_split.amount
                     >= associated_token_account_rent_token
-                        + public_inputs.join_split.optional_fee.amount,
+                        .checked_add(public_inputs.join_split.optional_fee.amount)
+                        .ok_or(ElusivError::InvalidAmount)?,
                 ElusivError::InvalidAmount
             );
         }
-- 
2.43.0


From 1564c1a4f5d7aa140c62c074dff3a9eb3cbacb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 07/20] fix: only pay out token account rent that has been
 prepaid

---
 elusiv/src/processor/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index aba7857..7e85ef8 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -885,11 +885,19 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
-        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
+        // `pool` transfers `commitment_hash_fee` and (if prepaid) `associated_token_account_rent` to `fee_collector` (lamports)
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From f495057ddf365a592f1443d8b7b3d98abdfb40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 08/20] fix: do not pay the optional fee twice for Solana Pay
 transfers

---
 elusiv/src/processor/proof.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 7e85ef8..32ba2b9 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,12 +736,8 @@ pub fn finalize_verification_transfer_lamports<'a>(
                 .ok_or(ElusivError::InvalidAmount)?;
 
             if public_inputs.solana_pay_transfer {
-                // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                // `pool` transfers `amount` (without the optional fee) to `original_fee_payer` (lamports)
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From 4f45f7eb477a43a9c621d5ee1b6c8965f39b105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 09/20] fix: store the roots of batches of any size gaplessly
 in the root history

---
 elusiv/src/state/commitment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index b924d0c..a9c0471 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -272,7 +272,7 @@ impl<'a> CommitmentHashingAccount<'a> {
 
             // This inserts the new root into the `active_mt_root_history`
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                storage_account.get_mt_roots_count() as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
             storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
-- 
2.43.0


From a9775f2b85221760f89e88b4b5c6aa561adaffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:40 +0000
Subject: [PATCH 10/20] fix: keep a key that becomes the new max of a full map

---
 elusiv/src/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..f86e8c9 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -238,15 +238,18 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
             let next = self.get_next(&prev);
 
             // Insert `new_ptr` between `prev` and `next`
+            // (if the new key replaces the max, `new_ptr` already is the last ptr)
             self.link_ptrs(&prev, &new_ptr);
-            self.link_ptrs(&new_ptr, &next);
+            if next != new_ptr {
+                self.link_ptrs(&new_ptr, &next);
+            }
         }
 
         self.update_mid_ptrs(index);
 
         if is_full {
             // Update `max_ptr`
-            let prev = if index == self.len.get() {
+            let prev = if index == self.len.get() - 1 {
                 new_ptr
             } else {
                 max_ptr_predecessor
-- 
2.43.0


From f6abf4b35c7582025ce41860b5b18515741b5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:40 +0000
Subject: [PATCH 11/20] fix: reset all ptrs of a map

---
 elusiv/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index f86e8c9..3fdda4c 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -427,7 +427,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
     pub fn reset(&mut self) {
         self.len.set(0);
+        self.min_ptr.set(ElusivMapPtr(0));
         self.max_ptr.set(ElusivMapPtr(0));
+        for i in 0..MID_PTR_COUNT {
+            self.mid_ptr.set(i, ElusivMapPtr(0));
+        }
 
         // The first ptr points to itself
         self.next.set(0, &ElusivMapPtr(0));
-- 
2.43.0


From ef1ded8051bd9ac291410f80d087401668d1ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:27 +0000
Subject: [PATCH 12/20] fix: declare the full serialized size of Wrap<G2A>

---
 elusiv/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/fields.rs b/elusiv/src/fields.rs
index bff385a..cfdda7a 100644
--- a/elusiv/src/fields.rs
+++ b/elusiv/src/fields.rs
@@ -302,7 +302,7 @@ impl BorshDeserialize for G2A {
     }
 }
 impl BorshSerDeSized for Wrap<G2A> {
-    const SIZE: usize = 65;
+    const SIZE: usize = G2A::SIZE;
 }
 impl BorshSerialize for Wrap<G2A> {
     fn serialize<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
-- 
2.43.0


From 27f6df75bccd78e895c0994fce21ceb40d8a9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:27 +0000
Subject: [PATCH 13/20] fix: close the replaced, program-owned vkey account
 without the system program

---
 elusiv/src/processor/vkey.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..6b9b212 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,7 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From 4cd9ff47887bc1da20dd83be74daf8a0f3fcdefe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 14/20] fix: store attested warden metadata

---
 elusiv-warden-network/src/processor/basic_warden.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..3a71c7b 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -236,6 +236,7 @@ pub fn attest_basic_warden_metadata(
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
 
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
+    warden_account.set_warden(&warden);
 
     Ok(())
 }
-- 
2.43.0


From 267703ce0c24ff065b678d9d291e5a8ae0d0d1ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 15/20] fix: count tracked warden activity, on the right day
 and for the right kind

---
 .../src/processor/basic_warden.rs               | 10 ++++++++--
 elusiv-warden-network/src/warden.rs             | 17 ++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 3a71c7b..31304e8 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -274,10 +274,12 @@ pub struct TrackableElusivInstruction {
     pub warden_index: u8,
 }
 
+const FINALIZE_BASE_COMMITMENT_HASH_INSTRUCTION: u8 = 2;
+
 pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeBaseCommitmentHash
     TrackableElusivInstruction {
-        instruction_id: 2,
+        instruction_id: FINALIZE_BASE_COMMITMENT_HASH_INSTRUCTION,
         warden_index: 0,
     },
     // FinalizeVerificationTransferLamports
@@ -354,7 +356,11 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        if ix.instruction_id == FINALIZE_BASE_COMMITMENT_HASH_INSTRUCTION {
+            stats_account.set_store(stats_account.get_store().inc(day)?);
+        } else {
+            stats_account.set_send(stats_account.get_send().inc(day)?);
+        }
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..c847001 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,16 +197,23 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
-        guard!(day < 366, ElusivWardenNetworkError::StatsError);
-
-        self.total
+    /// Counts a single activity on the (one-based) `day` of the year
+    pub fn inc(&mut self, day: u32) -> Result<&Self, ProgramError> {
+        guard!(
+            (1..=366).contains(&day),
+            ElusivWardenNetworkError::StatsError
+        );
+
+        let total = self
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        let index = day as usize - 1;
+        self.activity[index] = self.activity[index]
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
+        self.total = total;
 
         Ok(self)
     }
-- 
2.43.0


From aceabbf07f7c66228c809afdfc3d858459736f5f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 16/20] fix: store a completed application in the slot of its
 warden

---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..208038e 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -162,10 +162,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .find(|i| self.get_members(*i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From 7bc8f4c29a6b2af91848ebcf4515a05789700587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 17/20] fix: require a token for proposals by a freezing
 authority

---
 elusiv-warden-network/src/processor/apa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..4c6c351 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -62,6 +62,12 @@ pub fn propose_apa_proposal<'b>(
                 }
             }
         }
+    } else {
+        // The freezing authority is specific to a single token
+        guard!(
+            matches!(proposal.proponent_role, ApaProponentRole::Default),
+            ElusivWardenNetworkError::ProposalError
+        );
     }
 
     open_pda_account_with_offset::<ApaProposalAccount>(
-- 
2.43.0


From 4347adbfbdde2739d5dae097883ce7c78f51b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 18/20] fix: refuse unused member slots when updating a
 warden's region

---
 elusiv-warden-network/src/network.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index 208038e..2f9298e 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -80,7 +80,8 @@ impl<'a> BasicWardenNetworkAccount<'a> {
         region: &WardenRegion,
     ) -> ProgramResult {
         guard!(
-            self.get_members(member_index) == warden_id,
+            member_index < self.get_members_count() as usize
+                && self.get_members(member_index) == warden_id,
             ElusivWardenNetworkError::InvalidInstructionData
         );
 
-- 
2.43.0


From bad621538ac6a039d214b412b760b4e77a6fdd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:21 +0000
Subject: [PATCH 19/20] fix: F01 check the proof transaction count before using
 it in the fee bounds, where it could overflow

---
 elusiv/src/state/fee.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 80a23b9..58a4632 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -84,7 +84,6 @@ impl ProgramFee {
             self.lamports_per_tx.0,
             self.warden_hash_tx_reward.0,
             self.warden_proof_reward.0,
-            self.proof_base_tx_count,
         ]
         .iter()
         .any(|v| *v > u32::MAX as u64)
@@ -92,6 +91,10 @@ impl ProgramFee {
             return false;
         }
 
+        if self.proof_base_tx_count != Self::proof_base_tx_count() {
+            return false;
+        }
+
         for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
-- 
2.43.0


From db3fb09ecd900906385a8248035693d980924486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 20/20] fix: apply the last line functions of the Miller loop
 when the prepared inputs are the zero point

---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0

