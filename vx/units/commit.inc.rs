//@py intsas elusiv/src/commitment/mod.rs MAX_COMMITMENT_BATCHING_RATE MAX_HT_SIZE MAX_HT_COMMITMENTS
pub const MT_H: usize = MT_HEIGHT as usize;
//@item elusiv/src/processor/commitment.rs "struct CommitmentHashRequest"
impl Clone for CommitmentHashRequest { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for CommitmentHashRequest {}
//@note Fr is an abstract type: fr_of/u_of name the conversions of U256 to and from a field element (their meaning is E02), zfr() is zero, pround(i, s) is Poseidon round i (binary_poseidon_hash_partial, proved against the algorithm in unit poseidon)
#[verifier::external_body] pub struct Fr { x: u8 }
impl Clone for Fr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Fr {}
pub uninterp spec fn zfr() -> Fr;
impl Fr { #[verifier::external_body] pub fn zero() -> (r: Fr) ensures r == zfr() { unimplemented!() } }
pub uninterp spec fn fr_of(u: U256) -> Fr;
pub uninterp spec fn u_of(f: Fr) -> U256;
#[verifier::external_body] pub fn u256_to_fr_skip_mr(u: &U256) -> (r: Fr) ensures r == fr_of(*u) { unimplemented!() }
#[verifier::external_body] pub fn fr_to_u256_le(f: &Fr) -> (r: U256) ensures r == u_of(*f) { unimplemented!() }
//@item elusiv/src/commitment/poseidon_hash.rs "struct BinarySpongeHashingState"
impl BinarySpongeHashingState {
//@fn elusiv/src/commitment/poseidon_hash.rs in "impl BinarySpongeHashingState" new
//@ret s
//@spec
    ensures s == BinarySpongeHashingState(if invert { [zfr(), r, l] } else { [zfr(), l, r] })
//@end
//@fn elusiv/src/commitment/poseidon_hash.rs in "impl BinarySpongeHashingState" result
//@ret r
//@spec
    ensures r == self.0[0]
//@end
}
pub open spec fn hstate(l: Fr, r: Fr, inv: bool) -> BinarySpongeHashingState { BinarySpongeHashingState(if inv { [zfr(), r, l] } else { [zfr(), l, r] }) }
pub uninterp spec fn pround(i: int, s: BinarySpongeHashingState) -> BinarySpongeHashingState;
#[verifier::external_body] pub fn binary_poseidon_hash_partial(round: u32, hashing_state: &mut BinarySpongeHashingState)
    ensures round < TOTAL_POSEIDON_ROUNDS, *final(hashing_state) == pround(round as int, *old(hashing_state)) { unimplemented!() }
//@const elusiv/src/commitment/poseidon_hash.rs TOTAL_POSEIDON_ROUNDS
/// the state after the first n rounds, each executed once, in order
pub open spec fn rounds_of(n: nat, s: BinarySpongeHashingState) -> BinarySpongeHashingState decreases n { if n == 0 { s } else { pround(n - 1, rounds_of((n - 1) as nat, s)) } }
/// the Poseidon hash of two values
pub open spec fn h2(a: U256, b: U256) -> U256 { u_of(rounds_of(TOTAL_POSEIDON_ROUNDS as nat, hstate(fr_of(a), fr_of(b), false)).0[0]) }
//@fn elusiv/src/commitment/mod.rs commitments_per_batch
//@props Q03 M01
//@rw two_pow!\( => two_pow_fn(
//@ret r
//@spec
    ensures r == pow2(batching_rate as nat), batching_rate < 64
//@end
//@py commitment_hashing_model
