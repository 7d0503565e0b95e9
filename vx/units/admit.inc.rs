impl vstd::std_specs::cmp::PartialEqSpecImpl for RawU256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for RawU256 { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
/// indexing: aborts out of range
pub fn aat<T, const N: usize>(v: &[T; N], i: usize) -> (r: &T) ensures i < N, *r == v@[i as int] { if i < N { &v[i] } else { abort() } }
pub fn vix<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i < v.len() { &v[i] } else { abort() } }
#[verifier::external_body] pub fn append_arr<T: Copy, const N: usize>(v: &mut Vec<T>, a: [T; N]) ensures final(v)@ == old(v)@ + a@ { unimplemented!() }
#[verifier::external_body] pub fn push_first<T>(v: &mut Vec<Vec<T>>, x: T) { v[0].push(x) }
#[verifier::external_body] pub fn one_of<T>(x: T) -> Vec<T> { vec![x] }
#[verifier::external_body] pub fn vec_of(a: &[u32; MAX_MT]) -> (r: Vec<u32>) ensures r@ == a@ { a.to_vec() }
//@note is_vec_duplicate_free: true iff no two elements are equal (proved in unit basics over a set of the standard library)
#[verifier::external_body] pub fn is_vec_duplicate_free(v: &Vec<u32>) -> (r: bool) ensures r == forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] != v@[j] { unimplemented!() }
pub uninterp spec fn zero_raw() -> U256;
#[verifier::external_body] pub fn zero_commitment_raw() -> (r: U256) ensures r == zero_raw() { unimplemented!() }
//@note u64_to_u256_skip_mr: the little endian bytes of the number, injective (its contract is proved in unit fields)
pub uninterp spec fn num32(v: u64) -> U256;
pub axiom fn num32_ax(a: u64, b: u64) ensures num32(a) == num32(b) ==> a == b;
#[verifier::external_body] pub fn u64_to_u256_skip_mr(v: u64) -> (r: U256) ensures r == num32(v) { unimplemented!() }
//@py vkey_infos
// public signals
pub open spec fn at_or_zero(s: Seq<RawU256>, i: int) -> U256 { if i < s.len() { s[i].0 } else { zero32_s() } }
pub open spec fn raw(x: U256) -> RawU256 { RawU256(x) }
pub open spec fn nh_at(p: &SendPublicInputs, i: int) -> RawU256 { let c = p.join_split.input_commitments@; if i < c.len() { c[i].nullifier_hash } else { RawU256(zero32_s()) } }
pub open spec fn root_at(p: &SendPublicInputs, i: int) -> RawU256 { let c = p.join_split.input_commitments@; if i < c.len() && c[i].root is Some { c[i].root->Some_0 } else { RawU256(zero32_s()) } }
pub open spec fn total(p: &SendPublicInputs) -> int { p.join_split.amount + p.join_split.fee }
/// the public signals in the order of the circuit
pub open spec fn signals(p: &SendPublicInputs) -> Seq<RawU256> {
    Seq::new(14, |i: int| if i < 4 { nh_at(p, i) } else if i < 8 { root_at(p, i - 4) } else if i == 8 { RawU256(num32(total(p) as u64)) } else if i == 9 { p.join_split.output_commitment }
        else if i == 10 { RawU256(num32(p.join_split.recent_commitment_index as u64)) } else if i == 11 { RawU256(num32(p.join_split.fee_version as u64)) } else if i == 12 { RawU256(num32(p.join_split.token_id as u64)) } else { RawU256(p.hashed_inputs) })
}
pub proof fn sig_parts(p: &SendPublicInputs) ensures forall|i: int| 0 <= i < 4 ==> #[trigger] signals(p)[i] == nh_at(p, i) , forall|i: int| 0 <= i < 4 ==> signals(p)[i + 4] == #[trigger] root_at(p, i),
    signals(p)[8].0 == num32(total(p) as u64), signals(p)[9] == p.join_split.output_commitment, signals(p)[10].0 == num32(p.join_split.recent_commitment_index as u64),
    signals(p)[11].0 == num32(p.join_split.fee_version as u64), signals(p)[12].0 == num32(p.join_split.token_id as u64), signals(p)[13].0 == p.hashed_inputs {}
/// no two requests that differ in one of the signalled values have the same signals
pub proof fn signals_unambiguous(a: &SendPublicInputs, b: &SendPublicInputs)
    requires signals(a) == signals(b), total(a) <= u64::MAX, total(b) <= u64::MAX
    ensures forall|i: int| 0 <= i < 4 ==> nh_at(a, i) == nh_at(b, i) && root_at(a, i) == root_at(b, i), total(a) == total(b), a.join_split.output_commitment == b.join_split.output_commitment,
        a.join_split.recent_commitment_index == b.join_split.recent_commitment_index, a.join_split.fee_version == b.join_split.fee_version, a.join_split.token_id == b.join_split.token_id, a.hashed_inputs == b.hashed_inputs
{
    sig_parts(a); sig_parts(b);
    assert forall|i: int| 0 <= i < 4 implies nh_at(a, i) == nh_at(b, i) && root_at(a, i) == root_at(b, i) by { assert(signals(a)[i] == nh_at(a, i)); assert(signals(a)[i + 4] == root_at(a, i)); }
    num32_ax(total(a) as u64, total(b) as u64); num32_ax(a.join_split.recent_commitment_index as u64, b.join_split.recent_commitment_index as u64);
    num32_ax(a.join_split.fee_version as u64, b.join_split.fee_version as u64); num32_ax(a.join_split.token_id as u64, b.join_split.token_id as u64);
}
#[verifier::external_body] pub fn skip_all(v: &Vec<RawU256>) -> (r: Vec<U256>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> r@[i] == (#[trigger] v@[i]).0 { unimplemented!() }
pub open spec fn unwrapped(s: Seq<RawU256>) -> Seq<U256> { Seq::new(s.len(), |i: int| s[i].0) }
impl SendPublicInputs {
//@const elusiv/src/types.rs in "impl PublicInputs for SendPublicInputs" PUBLIC_INPUTS_COUNT
//@fn elusiv/src/types.rs in "impl PublicInputs for SendPublicInputs" public_signals
//@props V11 V03
//@rw RawU256::ZERO => RawU256(zero32())
//@rw public_signals\.extend\(vec!\[(.*?)\]\); => append_arr(&mut public_signals, [\1]);
//@desugar 1
//@desugar 2
//@desugar 3
//@desugar 4
//@ret r
//@spec
    ensures self.join_split.input_commitments@.len() <= 4, total(self) <= u64::MAX ==> r@ == signals(self)
//@loop 1
    invariant it1@ == self.join_split.input_commitments@, it1_i_next <= it1@.len(), public_signals@.len() == it1_i_next,
        forall|i: int| 0 <= i < it1_i_next ==> #[trigger] public_signals@[i] == it1@[i].nullifier_hash
    decreases it1@.len() - it1_i_next
//@loop 2
    invariant __end == 4, n0 == self.join_split.input_commitments@.len(), n0 <= __next, __next <= __end || __next == n0, public_signals@.len() == __next, forall|i: int| 0 <= i < __next ==> #[trigger] public_signals@[i] == nh_at(self, i)
    decreases __end - __next
//@beforeloop 2
    let ghost n0 = self.join_split.input_commitments@.len();
//@beforeloop 3
    let ghost n1 = public_signals@.len();
    let ghost n0 = self.join_split.input_commitments@.len();
//@loop 3
    invariant n1 == (if n0 > 4 { n0 } else { 4 }), n0 == it3@.len(), it3@ == self.join_split.input_commitments@, it3_i_next <= it3@.len(), public_signals@.len() == n1 + it3_i_next,
        forall|i: int| 0 <= i < n1 ==> #[trigger] public_signals@[i] == nh_at(self, i),
        forall|i: int| n1 <= i < n1 + it3_i_next ==> #[trigger] public_signals@[i] == root_at(self, i - n1)
    decreases it3@.len() - it3_i_next
//@loop 4
    invariant __end == 4, n0 == self.join_split.input_commitments@.len(), n0 <= __next, __next <= __end || __next == n0, n1 == (if n0 > 4 { n0 } else { 4 }), public_signals@.len() == n1 + __next,
        forall|i: int| 0 <= i < n1 ==> #[trigger] public_signals@[i] == nh_at(self, i),
        forall|i: int| n1 <= i < n1 + __next ==> #[trigger] public_signals@[i] == root_at(self, i - n1)
    decreases __end - __next
//@before public_signals\s*$
    proof { assert(self.join_split.input_commitments@.len() <= 4); if total(self) <= u64::MAX { assert(public_signals@ =~= signals(self)); } }
//@end
//@fn elusiv/src/types.rs in "trait PublicInputs" public_signals_skip_mr
//@props V11 V03
//@rw (self\.public_signals\(\))\.iter\(\)\.map\(\|&(\w+)\| \2\.skip_mr\(\)\)\.collect\(\) => skip_all(&\1)
//@ret r
//@spec
    ensures total(self) <= u64::MAX ==> r@ =~= unwrapped(signals(self))
//@end
}
// admission
pub open spec fn nroots(c: Seq<InputCommitment>, i: int) -> int decreases i { if i <= 0 { 0 } else { nroots(c, i - 1) + if c[i - 1].root is Some { 1int } else { 0 } } }
/// the tree (0 or 1) input i belongs to: inputs without a root of their own belong to the first
pub open spec fn tree_of(c: Seq<InputCommitment>, i: int) -> int { if c[i].root is Some { nroots(c, i) } else { 0 } }
/// v is accepted as a root of the active tree
pub open spec fn active_root(s: &StorageAccount, v: U256) -> bool {
    if !has_leaf(s, 0, 0) || present(s, 0, 0) { v@ == node_val(s, 0, 0) } else {
        exists|k: int| 0 <= k < (if s.mt_roots_count < HISTORY_ARRAY_SIZE { s.mt_roots_count as int } else { HISTORY_ARRAY_SIZE as int }) && #[trigger] win(s.active_mt_root_history@, k, 32) == v@ }
}
pub open spec fn nacc(n: Seq<&NullifierAccount>, i: int) -> NullifierAccount { *n[i] }
pub open spec fn root_fits(c: Seq<InputCommitment>, i: int, s: &StorageAccount, n: Seq<&NullifierAccount>, t: Seq<u32>) -> bool {
    c[i].root is Some ==> tree_of(c, i) < MAX_MT && (if t[tree_of(c, i)] == s.trees_count { active_root(s, red(c[i].root->Some_0.0)) } else { red(c[i].root->Some_0.0) == nacc(n, tree_of(c, i)).root })
}
pub open spec fn all_wf(n: Seq<&NullifierAccount>) -> bool { forall|i: int| 0 <= i < n.len() ==> #[trigger] nacc(n, i).wf() }
pub open spec fn unspent(c: Seq<InputCommitment>, i: int, n: Seq<&NullifierAccount>) -> bool { !nacc(n, tree_of(c, i)).spent().contains(red(c[i].nullifier_hash.0)) }
pub open spec fn differ(c: Seq<InputCommitment>, i: int, j: int) -> bool { c[i].nullifier_hash == c[j].nullifier_hash ==> tree_of(c, i) != tree_of(c, j) }
pub open spec fn admitted(j: &JoinSplitPublicInputs, s: &StorageAccount, n: Seq<&NullifierAccount>, t: Seq<u32>) -> bool {
    let c = j.input_commitments@; let l = c.len() as int;
    &&& j.output_commitment.0 != zero_raw()
    &&& 1 <= l <= JOIN_SPLIT_MAX_N_ARITY && c[0].root is Some && nroots(c, l) <= MAX_MT
    &&& j.recent_commitment_index <= s.next_commitment_ptr && s.next_commitment_ptr - j.recent_commitment_index < COMMITMENT_BUFFER_LEN
    &&& j.amount >= j.optional_fee.amount && j.amount + j.fee <= u64::MAX
    &&& nroots(c, l) == 2 ==> t[0] != t[1]
    &&& forall|i: int| 0 <= i < l ==> #[trigger] root_fits(c, i, s, n, t)
    &&& forall|i: int| 0 <= i < l ==> #[trigger] unspent(c, i, n)
    &&& forall|i: int, k: int| 0 <= i < l && 0 <= k < l && i != k ==> #[trigger] differ(c, i, k)
}
//@fn elusiv/src/processor/proof.rs check_join_split_public_inputs
//@props V02
//@rw ZERO_COMMITMENT_RAW => zero_commitment_raw()
//@rw vec!\[nullifier_hash\] => one_of(nullifier_hash)
//@rw nullifier_hashes\[0\]\.push\(nullifier_hash\) => push_first(&mut nullifier_hashes, nullifier_hash)
//@rw tree_indices\[index\] => *aat(tree_indices, index)
//@rw nullifier_accounts\[([^\[\]]*(?:\[[^\[\]]*\])?)\] => aat(&nullifier_accounts, \1)
//@rw public_inputs\.input_commitments\[([^\[\]]*)\] => vix(&public_inputs.input_commitments, \1)
//@rw tree_indices\.to_vec\(\) => vec_of(tree_indices)
//@desugar 1
//@desugar 2
//@desugar 3
//@ret r
//@spec
    requires swf(storage_account), all_wf(nullifier_accounts@)
    ensures r is Ok ==> admitted(public_inputs, storage_account, nullifier_accounts@, tree_indices@)
//@beforeloop 1
    let ghost c = public_inputs.input_commitments@;
    proof { assert forall|i: int| 0 <= i < 2 implies (#[trigger] nullifier_accounts@[i]).wf() by { assert(nacc(nullifier_accounts@, i).wf()); } }
//@loop 1
    invariant (forall|i: int| 0 <= i < 2 ==> (#[trigger] nullifier_accounts@[i]).wf()), c == public_inputs.input_commitments@, it1@ == c, it1_i_next <= c.len(), swf(storage_account), active_tree_index == storage_account.trees_count, c.len() <= 4,
        roots@.len() == nroots(c, it1_i_next as int), roots@.len() <= it1_i_next, tree_index@.len() == it1_i_next,
        forall|i: int| 0 <= i < it1_i_next ==> #[trigger] tree_index@[i] == tree_of(c, i),
        forall|i: int| 0 <= i < it1_i_next ==> #[trigger] root_fits(c, i, storage_account, nullifier_accounts@, tree_indices@)
    decreases c.len() - it1_i_next
//@loop 2
    invariant (forall|i: int| 0 <= i < 2 ==> (#[trigger] nullifier_accounts@[i]).wf()), c == public_inputs.input_commitments@, it2@ == c, i_next <= c.len(), c.len() <= 4, tree_index@.len() == c.len(), roots@.len() == nroots(c, c.len() as int),
        forall|i: int| 0 <= i < c.len() ==> #[trigger] tree_index@[i] == tree_of(c, i),
        forall|i: int| 0 <= i < i_next ==> #[trigger] unspent(c, i, nullifier_accounts@),
        forall|i: int, k: int| 0 <= i < i_next && 0 <= k < c.len() && i != k ==> #[trigger] differ(c, i, k)
    decreases c.len() - i_next
//@loop 3
    invariant c == public_inputs.input_commitments@, it2@ == c, i < c.len(), j_next <= j_end, j_end == c.len(), tree_index@.len() == c.len(), input_commitment == c[i as int],
        forall|i: int| 0 <= i < c.len() ==> #[trigger] tree_index@[i] == tree_of(c, i),
        forall|k: int| 0 <= k < j_next && i != k ==> #[trigger] differ(c, i as int, k)
    decreases j_end - j_next
//@end
