//@include world.inc.rs
//@py accessors elusiv/src/state/governor.rs "struct GovernorAccount"
//@py accessors elusiv/src/state/fee.rs "struct FeeAccount"
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Fr { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
//@note RawU256::reduce (Montgomery reduction) and the field test are uninterpreted functions here; their meaning is E02
pub uninterp spec fn red(u: U256) -> U256;
pub uninterp spec fn in_field(u: U256) -> bool;
pub uninterp spec fn zero_base() -> Fr;
#[verifier::external_body] pub fn zero_base_commitment() -> (r: Fr) ensures r == zero_base() { unimplemented!() }
pub struct BigU { pub u: Ghost<U256> }
#[verifier::external_body] pub fn u256_to_big_uint(u: &U256) -> (r: BigU) ensures r.u@ == *u { unimplemented!() }
#[verifier::external_body] pub fn is_element_scalar_field(b: BigU) -> (r: bool) ensures r == in_field(b.u@) { unimplemented!() }
pub uninterp spec fn fr_limbs(a: u64, b: u64, c: u64, d: u64) -> Fr;
#[verifier::external_body] pub fn fr_from_limbs(l: [u64; 4]) -> (r: Option<Fr>) ensures r is Some ==> r->Some_0 == fr_limbs(l[0], l[1], l[2], l[3]) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct RawU256(pub U256);
impl RawU256 {
    #[verifier::external_body] pub fn reduce(&self) -> (r: U256) ensures r == red(self.0) { unimplemented!() }
//@fn elusiv/src/types.rs in "impl RawU256" new as new
//@ret x
//@spec
    ensures x.0 == r
//@end
//@fn elusiv/src/types.rs in "impl RawU256" skip_mr
//@ret r
//@spec
    ensures r == self.0
//@end
}
pub uninterp spec fn price_of(sol: Pubkey, token: Pubkey, id: int) -> TokenPrice;
impl TokenPrice {
    // reads the two oracle accounts (pyth, external): F04
    #[verifier::external_body] pub fn new(sol: &AccountInfo, token: &AccountInfo, token_id: u16) -> (r: Result<TokenPrice, ProgramError>) ensures r is Ok ==> r->Ok_0 == price_of(*sol.key, *token.key, token_id as int) && r->Ok_0.token_id == token_id { unimplemented!() }
}
//@const elusiv/src/state/commitment.rs COMMITMENT_BUFFER_LEN
//@fn elusiv/src/processor/commitment.rs verify_recent_commitment_index
//@props D02 V02
//@ret r
//@spec
    ensures r == (recent_commitment_index <= storage_account.next_commitment_ptr && storage_account.next_commitment_ptr - recent_commitment_index < COMMITMENT_BUFFER_LEN)
//@end
//@fn elusiv/src/processor/commitment.rs enqueue_commitment
//@props D03 V08 V09
//@ret r
//@spec
    requires qinv(old(commitment_queue)), qinv(old(metadata_queue))
    ensures r is Ok ==> qinv(final(commitment_queue)) && qinv(final(metadata_queue))
        && qview(final(commitment_queue)) == qview(old(commitment_queue)).push(CommitmentHashRequest { commitment, fee_version, min_batching_rate })
        && qview(final(metadata_queue)) == qview(old(metadata_queue)).push(metadata)
//@end
/// the queues before and after one commitment was queued
pub open spec fn queued(c0: &CommitmentQueue, c1: &CommitmentQueue, m0: &MetadataQueue, m1: &MetadataQueue, commitment: U256, metadata: CommitmentMetadata, fee_version: u32, min_batching_rate: u32) -> bool {
    qinv(c1) && qinv(m1) && qview(c1) == qview(c0).push(CommitmentHashRequest { commitment, fee_version, min_batching_rate }) && qview(m1) == qview(m0).push(metadata)
}
