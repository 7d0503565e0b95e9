//@include common.rs
use ElusivError::*;
verus! {
//@include storage.inc.rs
//@include commit.inc.rs
//@include hash.inc.rs
//@include queue.inc.rs
//@py metadata_size
//@py queue_instances real
pub mod md { use super::*;
//@include metadata.inc.rs
}
use md::{MetadataAccount, mwf, at, total, child_of};
//@include nextbatch.inc.rs
/// a batch was moved from the queues into the computation: exactly the first n commitments and their metadata
pub open spec fn taken(q0: &CommitmentQueue, q1: &CommitmentQueue, m0: &MetadataQueue, m1: &MetadataQueue, h0: &CommitmentHashingAccount, h1: &CommitmentHashingAccount, a0: &MetadataAccount, a1: &MetadataAccount, n: int) -> bool {
    &&& is_batch(qview(q0), n, h1.batching_rate) && n <= qview(m0).len() && !h0.is_active && h0.setup
    &&& h0.ordering + n <= MT_COMMITMENT_COUNT
    &&& qview(q1) == qview(q0).subrange(n, qview(q0).len() as int) && qview(m1) == qview(m0).subrange(n, qview(m0).len() as int)
    &&& a1.next_metadata_ptr == a0.next_metadata_ptr + n
    &&& (forall|i: int| 0 <= i < n ==> at(a1, a0.next_metadata_ptr + i) == (#[trigger] qview(m0)[i])@)
    &&& h1.is_active && h1.fee_version == qview(q0)[0].fee_version
    &&& (forall|i: int| 0 <= i < n ==> #[trigger] h1.hash_tree[i] == qview(q0)[i].commitment)
    &&& *h1 == (CommitmentHashingAccount { is_active: true, batching_rate: h1.batching_rate, fee_version: h1.fee_version, hash_tree: h1.hash_tree, state: h1.state, ..*h0 })
}
pub open spec fn minv(a: &MetadataAccount) -> bool { mwf(a) && a.next_metadata_ptr <= total() }
/// the metadata recorded so far is untouched
pub open spec fn kept(a0: &MetadataAccount, a1: &MetadataAccount) -> bool { forall|p: int| 0 <= p < a0.next_metadata_ptr && a0.children@[child_of(p)] is Some ==> #[trigger] at(a1, p) == at(a0, p) }
//@fn elusiv/src/processor/commitment.rs init_commitment_hash_inner
//@props Q03
//@sig fn init_commitment_hash_inner(commitment_queue: &mut CommitmentQueue, metadata_queue: &mut MetadataQueue, hashing_account: &mut CommitmentHashingAccount, metadata_account: &mut MetadataAccount) -> ProgramResult
//@rw let mut (commitment|metadata)_queue = (Commitment|Metadata)Queue::new\(\1_queue\); =>
//@rw batch\.first\(\) => vec_first(&batch)
//@rw metadata_queue\s*\.view\(i\)\s*\.and_then\(\|metadata\| metadata_account\.add_commitment_metadata\(&metadata\)\) => match metadata_queue.view(i) { Ok(metadata) => metadata_account.add_commitment_metadata(&metadata), Err(e) => Err(e) }
//@rw commitments\[i\] = => if i >= MAX_HT_COMMITMENTS { abort() } commitments[i] =
//@desugar 1
//@desugar 2
//@ret r
//@spec
    requires qinv(old(commitment_queue)), qinv(old(metadata_queue)), ainv(old(hashing_account)), minv(old(metadata_account))
    ensures qinv(final(commitment_queue)), qinv(final(metadata_queue)), ainv(final(hashing_account)), minv(final(metadata_account)), kept(old(metadata_account), final(metadata_account)),
        r is Err ==> *final(commitment_queue) == *old(commitment_queue) && *final(metadata_queue) == *old(metadata_queue) && *final(hashing_account) == *old(hashing_account) && final(metadata_account).next_metadata_ptr == old(metadata_account).next_metadata_ptr,
        r is Ok ==> exists|n: int| #[trigger] taken(old(commitment_queue), final(commitment_queue), old(metadata_queue), final(metadata_queue), old(hashing_account), final(hashing_account), old(metadata_account), final(metadata_account), n)
//@top
    let ghost q0 = *commitment_queue; let ghost m0 = *metadata_queue; let ghost a0 = *metadata_account; let ghost h0 = *hashing_account;
    proof { commitment_queue.lem(); metadata_queue.lem(); lemma2_to64(); }
//@loop 1
    invariant
        i_end == batch@.len(), i_next <= i_end, i_end <= MT_COMMITMENT_COUNT, *metadata_queue == m0, *commitment_queue == q0, *hashing_account == h0, q0 == *old(commitment_queue), m0 == *old(metadata_queue), a0 == *old(metadata_account), h0 == *old(hashing_account), qinv(&q0), ainv(&h0), qinv(&m0), minv(metadata_account), minv(&a0), metadata_ptr == a0.next_metadata_ptr,
        i_next <= qview(&m0).len(), metadata_account.next_metadata_ptr == a0.next_metadata_ptr + i_next,
        forall|k: int| 0 <= k < ACCOUNTS() ==> (#[trigger] metadata_account.children@[k] is Some <==> a0.children@[k] is Some),
        kept(&a0, metadata_account), a0.children@.len() == ACCOUNTS(),
        forall|k: int| 0 <= k < i_next ==> at(metadata_account, a0.next_metadata_ptr + k) == (#[trigger] qview(&m0)[k])@ && a0.children@[child_of(a0.next_metadata_ptr + k)] is Some,
    decreases i_end - i_next
//@looptop 1
    let ghost ab = *metadata_account;
    proof { lem_child(metadata_account.next_metadata_ptr as int); }
//@before if let Err\(e\) = result
    proof {
        assert forall|p: int| 0 <= p < a0.next_metadata_ptr && a0.children@[child_of(p)] is Some implies #[trigger] at(metadata_account, p) == at(&a0, p) by { lem_child(p); assert(at(&ab, p) == at(&a0, p)); }
        assert forall|k: int| 0 <= k < i implies at(metadata_account, a0.next_metadata_ptr + k) == (#[trigger] qview(&m0)[k])@ by {
            let p = a0.next_metadata_ptr + k;
            lem_child(p);
            assert(at(&ab, p) == qview(&m0)[k]@);
        }
    }
//@before metadata_account\.set_next_metadata_ptr\(
    let ghost ac = *metadata_account;
//@before return Err\(e\);
    proof { assert forall|p: int| 0 <= p < a0.next_metadata_ptr && a0.children@[child_of(p)] is Some implies #[trigger] at(metadata_account, p) == at(&a0, p) by { assert(at(&ac, p) == at(&a0, p)); } }
//@loop 2
    invariant
        i_end == batch@.len(), i_next <= i_end, i_next <= MAX_HT_COMMITMENTS, batch@.len() <= qview(&q0).len(), batch@ == qview(&q0).subrange(0, batch@.len() as int),
        forall|k: int| 0 <= k < i_next ==> #[trigger] commitments[k] == qview(&q0)[k].commitment,
    decreases i_end - i_next
//@before let res =
    let ghost hb = *hashing_account; let ghost n = batch@.len() as int;
    proof { lemma_rate(batching_rate as nat); lemma_psum0(); }
//@rw hashing_account\.reset\(batching_rate, fee_version, &commitments\)\s*$ => let commitments_slice: &[U256] = vstd::array::array_as_slice(&commitments); let res = hashing_account.reset(batching_rate, fee_version, commitments_slice); /*END*/ res
//@after /\*END\*/
    proof {
        if res is Ok {
            assert(is_batch(qview(&q0), n, hashing_account.batching_rate));
            assert forall|i: int| 0 <= i < n implies #[trigger] hashing_account.hash_tree[i] == qview(&q0)[i].commitment by { assert(hashing_account.hash_tree[i] == commitments[i]); }
            assert(taken(&q0, commitment_queue, &m0, metadata_queue, &h0, hashing_account, &a0, metadata_account, n));
        }
    }
//@end
//@fn elusiv/src/processor/commitment.rs init_commitment_hash
//@props Q03
//@sig fn init_commitment_hash(commitment_queue: &mut CommitmentQueue, metadata_queue: &mut MetadataQueue, hashing_account: &mut CommitmentHashingAccount, metadata_account: &mut MetadataAccount, insertion_can_fail: bool) -> ProgramResult
//@ret r
//@spec
    requires qinv(old(commitment_queue)), qinv(old(metadata_queue)), ainv(old(hashing_account)), minv(old(metadata_account))
    ensures qinv(final(commitment_queue)), qinv(final(metadata_queue)), ainv(final(hashing_account)), minv(final(metadata_account)), kept(old(metadata_account), final(metadata_account)),
        (*final(commitment_queue) == *old(commitment_queue) && *final(metadata_queue) == *old(metadata_queue) && *final(hashing_account) == *old(hashing_account) && final(metadata_account).next_metadata_ptr == old(metadata_account).next_metadata_ptr && (r is Err || insertion_can_fail))
        || (r is Ok && exists|n: int| #[trigger] taken(old(commitment_queue), final(commitment_queue), old(metadata_queue), final(metadata_queue), old(hashing_account), final(hashing_account), old(metadata_account), final(metadata_account), n))
//@end
pub proof fn lemma_psum0() ensures forall|t: Seq<u8>| #[trigger] psum(t, 0) == 0, forall|s: BinarySpongeHashingState| #[trigger] rounds_of(0, s) == s {}
pub open spec fn ACCOUNTS() -> int { md::ACCOUNTS_COUNT as int }
proof fn lem_child(p: int) ensures 0 <= p < total() ==> 0 <= child_of(p) < ACCOUNTS() { if 0 <= p < total() { md::lemma_slot(p); } }
fn main(){}
}
