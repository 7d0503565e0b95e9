//@include zero.inc.rs
//@note VerificationAccount: lazily decoded proof points are their values; the decoding of the stored request is E01
pub const MAX_MT: usize = 2;
//@const elusiv/src/processor/proof.rs MAX_MT_COUNT
//@const elusiv/src/types.rs JOIN_SPLIT_MAX_N_ARITY
//@const elusiv/src/state/proof.rs MAX_PUBLIC_INPUTS_COUNT
//@const elusiv/src/state/proof.rs MAX_PREPARE_INPUTS_INSTRUCTIONS
//@item elusiv/src/types.rs "struct InputCommitment"
//@item elusiv/src/types.rs "struct OptionalFee"
//@item elusiv/src/types.rs "struct JoinSplitPublicInputs"
//@item elusiv/src/types.rs "struct SendPublicInputs"
//@item elusiv/src/types.rs "struct MigratePublicInputs"
//@item elusiv/src/processor/proof.rs "enum ProofRequest"
//@note curve and field arithmetic (ark_bn254, ark_ec, ark_ff) is uninterpreted
#[derive(Clone, Copy)] pub struct Fq { x: u64 }
#[derive(Clone, Copy)] pub struct Fq12 { x: u64 }
#[derive(Clone, Copy)] pub struct G1Affine { x: u64 }
#[derive(Clone, Copy)] pub struct G2Affine { x: u64 }
#[derive(Clone, Copy)] pub struct G1Projective { pub x: Fq, pub y: Fq, pub z: Fq }
#[derive(Clone, Copy)] pub struct G2HomProjective { x: u64 }
#[derive(Clone, Copy)] pub struct G1A(pub G1Affine);
#[derive(Clone, Copy)] pub struct G2A(pub G2Affine);
#[derive(Clone, Copy)] pub struct Wrap<N>(pub N);
/// scratch memory of field elements: its slots and whether there are writes that are not saved yet (see E03)
/// state between two rounds of the Miller loop
pub ghost struct MState { pub ram: Map<int, Fq>, pub r: G2HomProjective, pub coeff: int, pub alt_b: G2A }
/// an executed round: its number, operands, the state it was run on, the state it left and its result
pub ghost struct MRound { pub n: int, pub a: G1Affine, pub b: G2Affine, pub c: G1Affine, pub pi: G1Affine, pub i: MState, pub o: MState, pub out: Option<Fq12> }
pub ghost struct FRound { pub n: int, pub f: Fq12, pub i: Map<int, Fq>, pub o: Map<int, Fq>, pub out: Option<Fq12> }
pub struct Ram { pub slots: Ghost<Map<int, Fq>>, pub dirty: Ghost<bool> }
//@item elusiv/src/types.rs "struct Proof"
#[verifier::reject_recursive_types(N)]
pub struct LazyF<N> { pub val: Ghost<Option<N>> }
impl<N> LazyF<N> { #[verifier::external_body] pub fn set(&mut self, v: N) ensures final(self).val@ == Some(v) { unimplemented!() } }
//@macro elusiv/src/processor/proof.rs proof_request
impl<N: Copy> ElusivOption<N> {
//@fn shared/elusiv-types/src/bytes.rs in "impl<N: Clone> ElusivOption<N>" option
//@rw v\.clone\(\) => *v
//@ret r
//@spec
    ensures r == (match *self { ElusivOption::Some(v) => Some(v), ElusivOption::None => None::<N> })
//@end
}
/// the hashes a verification spends
pub open spec fn nhs(j: &JoinSplitPublicInputs) -> Seq<RawU256> { Seq::new(j.input_commitments@.len(), |i: int| j.input_commitments@[i].nullifier_hash) }
//@note the address of the guard account is a function of the nullifier hashes (sha256 over their concatenation, injective for a number of hashes: proved in unit basics) and the bump stored in the account
pub uninterp spec fn guard_key(h: Seq<RawU256>) -> Pubkey;
pub uninterp spec fn guard_pda(h: Pubkey, account: Pubkey) -> Pubkey;
impl JoinSplitPublicInputs {
    #[verifier::external_body] pub fn associated_nullifier_duplicate_pda_pubkey(&self) -> (r: Pubkey) ensures r == guard_key(nhs(self)) { unimplemented!() }
    #[verifier::external_body] pub fn create_nullifier_duplicate_pda(&self, account: &AccountInfo) -> (r: Result<Pubkey, ProgramError>) ensures r is Ok ==> r->Ok_0 == guard_pda(guard_key(nhs(self)), *account.key) { unimplemented!() }
//@fn elusiv/src/types.rs in "impl JoinSplitPublicInputs" total_amount
//@rw self\.amount \+ self\.fee => self.amount.wrapping_add(self.fee)
//@props V02 V05 V11
//@ret r
//@spec
    ensures self.amount + self.fee <= u64::MAX ==> r == self.amount + self.fee
//@end
}
impl SendPublicInputs {
//@fn elusiv/src/types.rs in "impl PublicInputs for SendPublicInputs" join_split_inputs
//@ret r
//@spec
    ensures r == self.join_split
//@end
//@fn elusiv/src/types.rs in "impl PublicInputs for SendPublicInputs" verify_additional_constraints
//@props V02
//@ret r
//@spec
    ensures r == (1 <= self.join_split.input_commitments@.len() <= JOIN_SPLIT_MAX_N_ARITY && self.join_split.input_commitments@[0].root is Some)
//@end
}
impl MigratePublicInputs {
//@fn elusiv/src/types.rs in "impl PublicInputs for MigratePublicInputs" join_split_inputs
//@ret r
//@spec
    ensures r == self.join_split
//@end
}
pub open spec fn js(r: &ProofRequest) -> JoinSplitPublicInputs { match *r { ProofRequest::Send(p) => p.join_split, ProofRequest::Migrate(p) => p.join_split } }
impl ProofRequest {
//@fn elusiv/src/processor/proof.rs in "impl ProofRequest" fee_version
//@ret r
//@spec
    ensures r == js(self).fee_version
//@end
}
//@item elusiv/src/state/proof.rs "struct VerificationAccountData"
//@py verification_model
/// what holds of every stored request (established by init_verification)
pub open spec fn admissible(r: &ProofRequest) -> bool {
    *r is Send && js(r).amount + js(r).fee <= u64::MAX && js(r).amount >= js(r).optional_fee.amount
    && 1 <= js(r).input_commitments@.len() <= JOIN_SPLIT_MAX_N_ARITY && js(r).input_commitments@[0].root is Some
}
pub open spec fn ninputs(a: &VerificationAccount) -> nat { js(&a.request).input_commitments@.len() }
/// invariant of an open verification
pub open spec fn vinv(a: &VerificationAccount) -> bool {
    admissible(&a.request) && a.prepare_inputs_instructions_count <= MAX_PREPARE_INPUTS_INSTRUCTIONS
    && (a.state == VerificationState::InsertNullifiers ==> a.instruction <= ninputs(a))
    && ((a.state == VerificationState::InsertNullifiers || a.state == VerificationState::Finalized) ==> (a.is_verified is Some && a.other_data.recipient_wallet is Some))
    && (a.state == VerificationState::InsertNullifiers ==> a.is_verified == ElusivOption::Some(true))
    && (a.state == VerificationState::Finalized && a.is_verified == ElusivOption::Some(true) ==> a.instruction == ninputs(a))
}
