//@include common.rs
use vstd::arithmetic::power2::*;
verus! {
// the schedules the compute-unit macros generate for hashing, and their accessors
//@const elusiv/src/commitment/poseidon_hash.rs TOTAL_POSEIDON_ROUNDS
//@const elusiv/src/state/storage.rs MT_HEIGHT
//@py intsas elusiv/src/commitment/mod.rs MAX_COMMITMENT_BATCHING_RATE
pub const MT_H: usize = MT_HEIGHT as usize;
pub open spec fn psum(t: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(t, n - 1) + t[n - 1] } }
//@py schedules rac/elusiv (Base)?CommitmentHashComputation
/// hashes of a batch of 2^r commitments: inside its subtree, and on the path from its root to the tree's root
pub open spec fn hcount(r: nat) -> int { pow2(r) - 1 + MT_H - r }
pub open spec fn ctable(r: nat) -> Seq<u8> { if r == 0 { tab_CommitmentHashComputation_0() } else if r == 1 { tab_CommitmentHashComputation_1() } else if r == 2 { tab_CommitmentHashComputation_2() } else if r == 3 { tab_CommitmentHashComputation_3() } else { tab_CommitmentHashComputation_4() } }
pub open spec fn btable() -> Seq<u8> { tab_BaseCommitmentHashComputation() }
/// what the units hash (H01, M01, Q03) and fee (F02) use of the schedules of a batch
pub proof fn table_ok(r: nat) requires r <= MAX_COMMITMENT_BATCHING_RATE ensures psum(ctable(r), ctable(r).len() as int) == hcount(r) * (TOTAL_POSEIDON_ROUNDS as int), 0 < ctable(r).len() < 0x1000
{
    vstd::arithmetic::power2::lemma2_to64();
    lemma_tab_CommitmentHashComputation_0(); lemma_tab_CommitmentHashComputation_1(); lemma_tab_CommitmentHashComputation_2(); lemma_tab_CommitmentHashComputation_3(); lemma_tab_CommitmentHashComputation_4();
}
/// what the unit deposit uses of the schedule of a deposit
pub proof fn btable_ok() ensures psum(btable(), btable().len() as int) == TOTAL_POSEIDON_ROUNDS, 0 < btable().len() < 0x1000, IX_BaseCommitmentHashComputation == btable().len(), TOTAL_BaseCommitmentHashComputation == TOTAL_POSEIDON_ROUNDS
{ lemma_tab_BaseCommitmentHashComputation(); }
//@fn expanded:rac/elusiv commitment_hash_computation_instructions
//@props H01 M01 F02
//@sig pub fn commitment_hash_computation_instructions(batching_rate: u32) -> Vec<u8>
//@rw \{ ::core::panicking::panic\("explicit panic"\) \} => { abort() }
//@rw &CommitmentHashComputation::<(\d+)>::INSTRUCTION_ROUNDS => x_tab_CommitmentHashComputation_\1()
//@ret r
//@spec
    ensures batching_rate <= MAX_COMMITMENT_BATCHING_RATE, r@ == ctable(batching_rate as nat)
//@end
//@fn expanded:rac/elusiv commitment_hash_computation_rounds
//@props H01 M01
//@rw \{ ::core::panicking::panic\("explicit panic"\) \} => { abort() }
//@rw \*match => match
//@rw &CommitmentHashComputation::<(\d+)>::TOTAL_ROUNDS => TOTAL_CommitmentHashComputation_\1
//@ret r
//@spec
    ensures batching_rate <= MAX_COMMITMENT_BATCHING_RATE, r == hcount(batching_rate as nat) * (TOTAL_POSEIDON_ROUNDS as int)
//@top
    proof { vstd::arithmetic::power2::lemma2_to64(); lemma_tab_CommitmentHashComputation_0(); lemma_tab_CommitmentHashComputation_1(); lemma_tab_CommitmentHashComputation_2(); lemma_tab_CommitmentHashComputation_3(); lemma_tab_CommitmentHashComputation_4(); }
//@end
fn main(){}
}
