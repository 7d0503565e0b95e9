//@include common.rs
use ElusivError::*;
verus! {
//@include procbase.inc.rs
pub mod acc { use super::*; broadcast use super::ax_u256_eq;
//@trust proc.inc.rs
//@trust nextbatch.inc.rs
//@py accessors elusiv/src/state/nullifier.rs "struct NullifierAccount" "" "" "" "pubkeys max_values moved_values moved_values_target"
impl PDAAccount for FeeAccount { open spec fn kind() -> int { 6 } }
//@include unver.inc.rs
//@fn elusiv/src/processor/accounts.rs is_mt_full
//@props G04
//@ret r
//@spec
    requires qinv(queue)
    ensures r is Ok && r->Ok_0 ==> full(storage_account, queue), r is Ok && !r->Ok_0 ==> storage_account.next_commitment_ptr < MT_COMMITMENT_COUNT
        && exists|n: int, rate: u32| #[trigger] is_batch(qview(queue), n, rate) && storage_account.next_commitment_ptr + n < MT_COMMITMENT_COUNT,
        r is Err ==> storage_account.next_commitment_ptr < MT_COMMITMENT_COUNT && no_batch(qview(queue))
//@top
    proof { lemma2_to64(); queue.lem(); }
//@end
/// the tree is full, or the next batch of the queue would fill it
pub open spec fn full(s: &StorageAccount, q: &CommitmentQueue) -> bool {
    s.next_commitment_ptr >= MT_COMMITMENT_COUNT || exists|n: int, rate: u32| #[trigger] is_batch(qview(q), n, rate) && s.next_commitment_ptr + n >= MT_COMMITMENT_COUNT
}
//@fn elusiv/src/processor/accounts.rs reset_active_merkle_tree
//@props G04
//@sig pub fn reset_active_merkle_tree(storage_account: &mut StorageAccount, queue: &mut CommitmentQueue, active_nullifier_account: &mut NullifierAccount, active_merkle_tree_index: u32) -> ProgramResult
//@rw let queue = CommitmentQueue::new\(queue\); => 
//@rw is_mt_full\(storage_account, &queue\) => is_mt_full(storage_account, queue)
//@rw \.ok_or\(MATH_ERR\) => .or_math()
//@ret r
//@spec
    requires swf(old(storage_account)), qinv(old(queue))
    ensures r is Ok ==> active_merkle_tree_index == old(storage_account).trees_count && full(old(storage_account), old(queue)),
        r is Ok ==> final(active_nullifier_account).root@ == node_val(old(storage_account), 0, 0) && *final(active_nullifier_account) == (NullifierAccount { root: final(active_nullifier_account).root, ..*old(active_nullifier_account) }),
        r is Ok ==> swf(final(storage_account)) && final(storage_account).trees_count == old(storage_account).trees_count + 1 && final(storage_account).next_commitment_ptr == 0 && final(storage_account).mt_roots_count == 0,
        *final(queue) == *old(queue)
//@end
//@note an account that open_pda_account_* has just created is all zero, and creation fails where an account exists (system program)
//@fn elusiv/src/processor/accounts.rs init_new_fee_version
//@world
//@props G06
//@sig pub fn init_new_fee_version<'b>(payer: &AccountInfo<'b>, governor: &mut GovernorAccount, mut new_fee_account: UnverifiedAccountInfo<'_, 'b>, fee_version: u32, program_fee: ProgramFee, fee_data: &mut FeeAccount) -> ProgramResult
//@rw pda_account!\(\s*mut fee_account,\s*FeeAccount,\s*(.*?)\); => let _ = \1; let fee_account = fee_data;
//@ret r
//@spec
    ensures r is Ok ==> fee_version == old(governor).fee_version && accepted(program_fee),
        r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 6, acc: *new_fee_account.account_info.key, payer: *payer.key, pubkey: None, offset: Some(fee_version), bump: None }),
        r is Ok ==> final(fee_data).program_fee == program_fee && final(governor).program_fee == program_fee,
        r is Ok ==> *final(fee_data) == (FeeAccount { program_fee, ..*old(fee_data) }) && *final(governor) == (GovernorAccount { program_fee, ..*old(governor) }),
//@end
}
fn main(){}
}
