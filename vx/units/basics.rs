//@include common.rs
use vstd::seq_lib::*; use vstd::set::*;
verus! {
pub type U256 = [u8; 32];
pub open spec fn all_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
//@note u128::from_be_bytes of 16 bytes is 0 iff every byte is 0 (standard library)
#[verifier::external_body] pub fn be16(s: &[u8], i: usize) -> (r: u128) ensures i + 16 <= s@.len(), r == 0 <==> all_zero(s@.subrange(i as int, i + 16)) { unimplemented!() }
/// the next value of a stepped range
pub fn stepped(i: usize, k: usize, n: usize) -> (r: usize) requires i < n, k >= 1 ensures r == (if i + k < n { (i + k) as int } else { n as int }) { if n - i > k { i + k } else { n } }
//@fn elusiv/src/bytes.rs is_zero
//@props G02
//@rw for i in \(0\.\.s\.len\(\)\)\.step_by\((\d+)\) \{ => let mut at: usize = 0; while at < s.len() { let i = at; at = stepped(at, \1, s.len());
//@rw let arr: \[u8; 16\] = s\[i\.\.i \+ 16\]\.try_into\(\)\.ok_or_abort\(\); =>
//@rw u128::from_be_bytes\(arr\) => be16(s, i)
//@rw for &bit in s\.iter\(\)\.skip\(i\) \{ => let mut k: usize = i; while k < s.len() { let bit = s[k]; k = k + 1;
//@ret r
//@spec
    ensures r == all_zero(s@)
//@loop 1
    invariant at <= s@.len(), forall|x: int| 0 <= x < at ==> s@[x] == 0
    decreases s@.len() - at
//@before if u128|if be16
    proof { if i + 16 <= s@.len() { let w = s@.subrange(i as int, i + 16); assert(forall|x: int| 0 <= x < 16 ==> w[x] == s@[i + x]); assert(all_zero(w) ==> forall|x: int| i <= x < i + 16 ==> s@[x] == w[x - i]); } }
//@loop 2
    invariant i <= k <= s@.len(), forall|x: int| 0 <= x < k ==> s@[x] == 0
    decreases s@.len() - k
//@end
//@note a HashSet collected from a vector has the elements of the vector, each once (standard library; Eq and Hash of u32)
#[verifier::external_body] pub fn count_distinct(v: &Vec<u32>) -> (r: usize) ensures r == v@.to_set().len() { unimplemented!() }
//@fn elusiv/src/processor/proof.rs is_vec_duplicate_free
//@props V02
//@sig pub fn is_vec_duplicate_free(v: &Vec<u32>) -> bool
//@rw \(\*v\)\.clone\(\)\.drain\(\.\.\)\.collect::<HashSet<T>>\(\)\.len\(\) => count_distinct(v)
//@ret r
//@spec
    ensures r == forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] != v@[j]
//@top
    proof {
        if v@.no_duplicates() { v@.unique_seq_to_set(); }
        if v@.to_set().len() == v@.len() { v@.lemma_no_dup_set_cardinality(); }
        assert(v@.no_duplicates() <==> forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] != v@[j]);
    }
//@end
//@fn expanded:rac/elusiv usize_as_u32_safe
//@rw \{\s*::core::panicking::panic\("explicit panic"\)\s*\} => { abort() }
//@props V02 V13
//@ret r
//@spec
    ensures r == u
//@end
//@fn expanded:rac/elusiv usize_as_u8_safe
//@rw \{\s*::core::panicking::panic\("explicit panic"\)\s*\} => { abort() }
//@props V13
//@ret r
//@spec
    ensures r == u
//@end
//@fn expanded:rac/elusiv u64_as_u32_safe
//@rw \{\s*::core::panicking::panic\("explicit panic"\)\s*\} => { abort() }
//@props F01
//@ret r
//@spec
    ensures r == u
//@end
#[derive(Clone, Copy)]
pub struct Pubkey { pub b: [u8; 32] }
impl Pubkey { pub fn new_from_array(b: [u8; 32]) -> (r: Pubkey) ensures r.b == b { Pubkey { b } } }
#[derive(Clone, Copy)]
pub struct RawU256(pub U256);
impl RawU256 {
//@fn elusiv/src/types.rs in "impl RawU256" skip_mr
//@props V03
//@ret r
//@spec
    ensures r == self.0
//@end
}
pub struct Hash { pub b: [u8; 32] }
impl Hash { pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.b { self.b } }
pub uninterp spec fn sha256(s: Seq<u8>) -> [u8; 32];
/// the values one after the other
pub open spec fn concat(v: Seq<U256>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { concat(v.drop_last()) + v.last()@ } }
//@note hashv of slices is the sha256 of their concatenation (external)
#[verifier::external_body] pub fn hashv_all(v: &Vec<U256>) -> (r: Hash) ensures r.b == sha256(concat(v@)) { unimplemented!() }
pub struct NullifierDuplicateAccount { x: u8 }
pub open spec fn raws(h: Seq<&RawU256>) -> Seq<U256> { Seq::new(h.len(), |i: int| h[i].0) }
impl NullifierDuplicateAccount {
//@fn elusiv/src/state/proof.rs in "impl<'a> NullifierDuplicateAccount<'a>" associated_pubkey
//@props V03
//@iters U256
//@rw solana_program::hash::hashv\(&(\w+)\.iter\(\)\.map\(\|b\| &b\[\.\.\]\)\.collect::<Vec<_>>\(\)\) => hashv_all(&\1)
//@ret r
//@spec
    ensures r.b == sha256(concat(raws(nullifier_hashes@)))
//@loop 1
    invariant c1_src@ == nullifier_hashes@, c1_end == nullifier_hashes@.len(), c1_next <= c1_end, c1@ == raws(nullifier_hashes@).subrange(0, c1_next as int)
    decreases c1_end - c1_next
//@before let hash\b
    proof { assert(hashes@ =~= raws(nullifier_hashes@)); }
//@end
}
pub struct InputCommitment { pub root: Option<RawU256>, pub nullifier_hash: RawU256 }
pub struct JoinSplitPublicInputs { pub input_commitments: Vec<InputCommitment> }
impl JoinSplitPublicInputs {
//@fn elusiv/src/types.rs in "impl JoinSplitPublicInputs" associated_nullifier_duplicate_pda_pubkey
//@props V03
//@iters &RawU256
//@ret r
//@spec
    ensures r.b == sha256(concat(Seq::new(self.input_commitments@.len(), |i: int| self.input_commitments@[i].nullifier_hash.0)))
//@loop 1
    invariant c1_src@ == self.input_commitments@, c1_end == c1_src@.len(), c1_next <= c1_end, c1@.len() == c1_next, forall|k: int| 0 <= k < c1_next ==> *(#[trigger] c1@[k]) == self.input_commitments@[k].nullifier_hash
    decreases c1_end - c1_next
//@before NullifierDuplicateAccount::associated_pubkey
    proof { assert(raws(nullifier_hashes@) =~= Seq::new(self.input_commitments@.len(), |i: int| self.input_commitments@[i].nullifier_hash.0)); }
//@end
}
/// different sequences of nullifier hashes of one length never have one concatenation
pub proof fn lemma_concat(a: Seq<U256>, b: Seq<U256>) requires a.len() == b.len(), concat(a) == concat(b) ensures a == b decreases a.len()
{
    if a.len() > 0 {
        let (x, y) = (concat(a.drop_last()), concat(b.drop_last()));
        lemma_len(a.drop_last()); lemma_len(b.drop_last());
        assert(x =~= concat(a).subrange(0, x.len() as int) && y =~= concat(b).subrange(0, y.len() as int));
        lemma_concat(a.drop_last(), b.drop_last());
        assert(a.last()@ =~= concat(a).skip(x.len() as int) && b.last()@ =~= concat(b).skip(y.len() as int));
        assert(a.last() =~= b.last());
        assert(a =~= a.drop_last().push(a.last()) && b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lemma_len(a: Seq<U256>) ensures concat(a).len() == 32 * a.len() decreases a.len() { if a.len() > 0 { lemma_len(a.drop_last()); } }
pub struct AccountInfo<'a> { pub key: &'a Pubkey, pub owner: &'a Pubkey }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Pubkey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Pubkey { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn spl_id_s() -> Pubkey;
#[verifier::external_body] pub fn spl_id() -> (r: Pubkey) ensures r == spl_id_s() { unimplemented!() }
//@note unpack reads the mint of an initialized token account from its data (spl-token, external)
pub uninterp spec fn mint_in(account: Pubkey) -> Option<Pubkey>;
pub struct TokenAccount { pub mint: Pubkey }
#[verifier::external_body] pub fn unpack_account(a: &AccountInfo) -> (r: Result<TokenAccount, ProgramError>) ensures r is Ok <==> mint_in(*a.key) is Some, r is Ok ==> Some(r->Ok_0.mint) == mint_in(*a.key) { unimplemented!() }
//@note the token table has the length TOKENS.len(), which stays uninterpreted; SPL_TOKEN_COUNT is one less by its definition
pub uninterp spec fn count_s() -> usize;
#[verifier::external_body] pub fn count() -> (r: usize) ensures r == count_s() { unimplemented!() }
#[derive(Clone, Copy)]
pub struct ElusivToken { pub mint: Pubkey }
pub uninterp spec fn token_s(i: int) -> ElusivToken;
#[verifier::external_body] pub fn token_at(i: usize) -> (r: ElusivToken) ensures r == token_s(i as int) { unimplemented!() }
//@fn shared/elusiv-types/src/tokens.rs elusiv_token
//@props V09 D02
//@sig pub fn elusiv_token(token_id: u16) -> Result<ElusivToken, TokenError>
//@rw TOKENS\[token_id\] => token_at(token_id)
//@rw SPL_TOKEN_COUNT => count()
//@ret r
//@spec
    ensures r is Ok <==> token_id <= count_s(), r is Ok ==> r->Ok_0 == token_s(token_id as int)
//@end
//@fn shared/elusiv-types/src/tokens.rs verify_token_account
//@props V09
//@sig pub fn verify_token_account(account: &AccountInfo, token_id: u16) -> Result<bool, ProgramError>
//@rw spl_token::ID => spl_id()
//@rw let data = &account\.data\.borrow\(\)\[\.\.\]; =>
//@rw spl_token::state::Account::unpack\(data\) => unpack_account(account)
//@ret r
//@spec
    ensures r is Ok && r->Ok_0 ==> if token_id == 0 { *account.owner != spl_id_s() } else { *account.owner == spl_id_s() && token_id <= count_s() && mint_in(*account.key) == Some(token_s(token_id as int).mint) },
        token_id == 0 ==> r is Ok && r->Ok_0 == (*account.owner != spl_id_s()),
        0 < token_id <= count_s() && *account.owner == spl_id_s() && mint_in(*account.key) == Some(token_s(token_id as int).mint) ==> r is Ok && r->Ok_0
//@end
pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<u8>, pub data: Vec<u8> }
pub uninterp spec fn memo_program() -> Pubkey;
#[verifier::external_body] pub fn memo_program_x() -> (r: Pubkey) ensures r == memo_program() { unimplemented!() }
#[verifier::external_body] pub fn vec_of(x: &[u8]) -> (r: Vec<u8>) ensures r@ == x@ { unimplemented!() }
//@fn elusiv/src/processor/proof.rs memo_instruction
//@props V10
//@rw SPL_MEMO_PROGRAM_ID => memo_program_x()
//@rw memo\.to_vec\(\) => vec_of(memo)
//@ret r
//@spec
    ensures r.program_id == memo_program(), r.accounts@.len() == 0, r.data@ == memo@
//@end
pub struct Ram { pub dirty: bool }
impl Ram { #[verifier::external_body] pub fn serialize(&mut self) -> (r: Result<(), ProgramError>) ensures r is Ok ==> !final(self).dirty { unimplemented!() } }
pub struct VerificationAccount { pub ram_fq: Ram, pub ram_fq2: Ram, pub ram_fq6: Ram, pub ram_fq12: Ram }
impl VerificationAccount {
//@fn elusiv/src/state/proof.rs in "impl<'a> VerificationAccount<'a>" serialize_rams
//@props V13 E03
//@sig pub fn serialize_rams(&mut self) -> Result<(), ProgramError>
//@ret r
//@spec
    ensures r is Ok ==> !final(self).ram_fq.dirty && !final(self).ram_fq2.dirty && !final(self).ram_fq6.dirty && !final(self).ram_fq12.dirty
//@end
}
fn main(){}
}
