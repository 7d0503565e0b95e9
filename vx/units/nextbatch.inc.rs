pub fn vec_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r is Some ==> *r->Some_0 == v@[0] { if v.len() > 0 { Some(&v[0]) } else { None } }
pub open spec fn max_rate(q: Seq<CommitmentHashRequest>, n: int) -> u32 decreases n { if n <= 0 { 0 } else { let m = max_rate(q, n - 1); if m >= q[n - 1].min_batching_rate { m } else { q[n - 1].min_batching_rate } } }
/// the first n queued commitments are a complete batch
pub open spec fn is_batch(q: Seq<CommitmentHashRequest>, n: int, rate: u32) -> bool {
    &&& 0 < n <= q.len() &&& rate == max_rate(q, n) &&& n == pow2(rate as nat) &&& rate < 64
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] q[i]).fee_version == q[0].fee_version
}
/// no complete batch is queued: all n queued commitments are fewer than a batch, or commitment n has another fee version
pub open spec fn no_batch(q: Seq<CommitmentHashRequest>) -> bool {
    exists|n: int| 0 <= n <= q.len() && (n == 0 || n < pow2((#[trigger] max_rate(q, n)) as nat) || max_rate(q, n) >= 64) && (n == q.len() || q[n].fee_version != q[0].fee_version)
}
impl CommitmentQueue {
//@fn elusiv/src/state/commitment.rs in "impl<'a, 'b> CommitmentQueue" next_batch
//@props Q03
//@rw \b(\w+)\.max\(([^()]*)\) => cmp_max(\1, \2)
//@rw (?<!\.)\bmax\( => cmp_max(
//@ret r
//@spec
    requires qinv(self)
    ensures r is Ok ==> is_batch(qview(self), r->Ok_0.0@.len() as int, r->Ok_0.1) && r->Ok_0.0@ == qview(self).subrange(0, r->Ok_0.0@.len() as int) && r->Ok_0.1 <= 20,
        r is Err ==> no_batch(qview(self)),
//@top
    let ghost q = qview(self);
    proof { self.lem(); }
//@loop 1
    invariant
        qinv(self), q == qview(self), q.len() < 0x4000_0000, requests@.len() <= q.len(), requests@ == q.subrange(0, requests@.len() as int),
        highest_batching_rate == max_rate(q, requests@.len() as int), requests@.len() <= commitment_count,
        requests@.len() == 0 ==> fee_version is None && commitment_count == u32::MAX,
        requests@.len() > 0 ==> fee_version == Some(q[0].fee_version) && highest_batching_rate < 64 && commitment_count == pow2(highest_batching_rate as nat),
        forall|i: int| 0 <= i < requests@.len() ==> (#[trigger] q[i]).fee_version == q[0].fee_version,
    decreases q.len() - requests@.len()
//@looptop 1
    let ghost n = requests@.len() as int;
    let ghost h0 = highest_batching_rate as nat;
    proof { assert(highest_batching_rate == max_rate(q, n)); if n == q.len() { assert(no_batch(q)); } }
//@after let request = [^;]*;
    proof {
        assert(request == q[n]);
        lemma_pow2_pos(h0);
        if n > 0 && q[n].fee_version != q[0].fee_version { assert(no_batch(q)); }
    }
//@before requests\.push\(
    proof {
        assert(max_rate(q, n + 1) == highest_batching_rate);
        if n > 0 { if h0 < highest_batching_rate { lemma_pow2_strictly_increases(h0, highest_batching_rate as nat); } }
        lemma_pow2_pos(highest_batching_rate as nat);
    }
//@loopend 1
    proof { assert(requests@ =~= q.subrange(0, n + 1)); }
//@afterloop 1
    proof {
        lemma2_to64();
        if highest_batching_rate > 30 { lemma_pow2_strictly_increases(30, highest_batching_rate as nat); }
    }
//@end
}
