//@include common.rs
use ElusivError::*;
verus! {
//@include storage.inc.rs
//@include commit.inc.rs
//@include hash.inc.rs
//@include mt.inc.rs
//@include mtproof.inc.rs
/// storage invariant
pub open spec fn twf(s: &StorageAccount) -> bool { swf(s) && s.mt_roots_count <= s.next_commitment_ptr <= MT_COMMITMENT_COUNT }
//@fn elusiv/src/processor/commitment.rs init_commitment_hash_setup_inner
//@props M01 H01
//@ret r
//@spec
    requires ainv(old(hashing_account)), twf(storage_account)
    ensures ainv(final(hashing_account)),
        r is Err ==> *final(hashing_account) == *old(hashing_account),
        r is Ok ==> final(hashing_account).ordering == storage_account.next_commitment_ptr && final(hashing_account).round == 0 && final(hashing_account).instruction == 0 && final(hashing_account).finalization_ix == 0
            && final(hashing_account).setup && final(hashing_account).is_active == old(hashing_account).is_active
            && (old(hashing_account).is_active ==> old(hashing_account).ordering != storage_account.next_commitment_ptr)
            && final(hashing_account).hash_tree == old(hashing_account).hash_tree && final(hashing_account).batching_rate == old(hashing_account).batching_rate && final(hashing_account).fee_version == old(hashing_account).fee_version
            && forall|k: int| 0 <= k < MT_H ==> (#[trigger] final(hashing_account).siblings[k])@ == node_val(storage_account, sib(storage_account.next_commitment_ptr as int / (pow2(k as nat) as int)), MT_H - k)
//@top
    proof { lemma_psum0(); lemma_rate(20); }
    let ghost a0 = *hashing_account;
//@end
//@fn elusiv/src/processor/commitment.rs init_commitment_hash_setup
//@props M01 H01
//@ret r
//@spec
    requires ainv(old(hashing_account)), twf(storage_account)
    ensures ainv(final(hashing_account)),
        r is Err ==> *final(hashing_account) == *old(hashing_account) && !insertion_can_fail,
        r is Ok && *final(hashing_account) != *old(hashing_account) ==> final(hashing_account).ordering == storage_account.next_commitment_ptr && final(hashing_account).round == 0 && final(hashing_account).instruction == 0 && final(hashing_account).finalization_ix == 0
            && forall|k: int| 0 <= k < MT_H ==> (#[trigger] final(hashing_account).siblings[k])@ == node_val(storage_account, sib(storage_account.next_commitment_ptr as int / (pow2(k as nat) as int)), MT_H - k)
//@end
pub proof fn lemma_psum0() ensures forall|t: Seq<u8>| #[trigger] psum(t, 0) == 0, forall|s: BinarySpongeHashingState| #[trigger] rounds_of(0, s) == s {}
//@fn elusiv/src/processor/commitment.rs finalize_commitment_hash
//@props M01 M04 H01
//@ret r
//@spec
    requires ainv(old(hashing_account)), twf(old(storage_account))
    ensures ainv(final(hashing_account)), twf(final(storage_account)),
        r is Err ==> *final(hashing_account) == *old(hashing_account) && *final(storage_account) == *old(storage_account),
        r is Ok ==> old(hashing_account).is_active && old(hashing_account).batching_rate <= MAX_COMMITMENT_BATCHING_RATE && old(hashing_account).finalization_ix <= old(hashing_account).batching_rate
            && all_done(old(hashing_account)) && old(hashing_account).instruction == ctable(rt(old(hashing_account))).len()
            && old(hashing_account).ordering == old(storage_account).next_commitment_ptr
            && upd(old(hashing_account), old(storage_account), final(storage_account), old(hashing_account).finalization_ix as int)
            && ({ let last = old(hashing_account).finalization_ix == old(hashing_account).batching_rate;
                *final(hashing_account) == (CommitmentHashingAccount { finalization_ix: final(hashing_account).finalization_ix, is_active: !last, setup: if last { false } else { old(hashing_account).setup }, ..*old(hashing_account) })
                && final(hashing_account).finalization_ix == old(hashing_account).finalization_ix + 1 })
//@top
    let ghost a0 = *hashing_account;
    proof { lemma_rate(20); lemma_rate(a0.batching_rate as nat); if a0.batching_rate <= MAX_COMMITMENT_BATCHING_RATE { table_ok(rt(&a0)); } }
//@after hashing_account\.update_mt\(storage_account, finalization_ix\);
    proof {
        table_ok(rt(&a0));
        assert forall|h: int| 0 <= h < hcount(rt(&a0)) implies #[trigger] done(&a0, h) by { assert(a0.round as int / 65 == hcount(rt(&a0))); }
    }
//@before Ok\(\(\)\)\s*$
    proof {
        assert forall|h: int| start(hashing_account, h) == start(&a0, h) by {}
        assert forall|h: int| 0 <= h < hashing_account.round as int / 65 implies #[trigger] done(hashing_account, h) by { assert(done(&a0, h)); }
        assert(a0.is_active && progress(&a0));
        assert(progress(hashing_account));
    }
//@end
fn main(){}
}
