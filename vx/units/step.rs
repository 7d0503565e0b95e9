//@include common.rs
use ElusivError::*;
verus! {
//@include procbase.inc.rs
pub mod stp { use super::*; broadcast use super::ax_u256_eq;
//@include proc.inc.rs
//@trust hash.inc.rs
//@fn elusiv/src/processor/commitment.rs compute_commitment_hash
//@world
//@props C01 H01
//@ret r
//@spec
    requires ainv(old(hashing_account)), accepted(fee.program_fee)
    ensures
        r is Ok ==> /*@C01 H01*/ old(hashing_account).is_active && old(hashing_account).batching_rate <= MAX_COMMITMENT_BATCHING_RATE && old(hashing_account).instruction < ctable(rt(old(hashing_account))).len(),
        r is Ok ==> /*@C01*/ old(hashing_account).fee_version == fee_version
            && final(w).ev@ =~= old(w).ev@.insert(Ev::Pda { from: *pool.key, to: *fee_payer.key, n: comp(fee.program_fee) }),
        r is Ok ==> /*@C01 H01*/ ainv(final(hashing_account)) && final(hashing_account).instruction == old(hashing_account).instruction + 1,
        r is Ok ==> /*@H01 C01*/ *final(hashing_account) == (CommitmentHashingAccount { instruction: final(hashing_account).instruction, round: final(hashing_account).round, state: final(hashing_account).state, hash_tree: final(hashing_account).hash_tree, above_hashes: final(hashing_account).above_hashes, ..*old(hashing_account) }),
//@end
}
fn main(){}
}
