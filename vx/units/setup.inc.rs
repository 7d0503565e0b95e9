pub struct NullifierDuplicateAccount; impl PDAAccount for NullifierDuplicateAccount { open spec fn kind() -> int { 3 } }
impl PDAAccount for VerificationAccount { open spec fn kind() -> int { 4 } }
//@py accessors elusiv/src/state/vkey.rs "struct VKeyAccount"
impl VKeyAccount {
//@fn elusiv/src/state/vkey.rs in "impl<'a, 'b, 't> VKeyAccount" is_setup
//@ret r
//@spec
    ensures r == (self.version != 0)
//@end
}
impl ProofRequest {
//@fn elusiv/src/processor/proof.rs in "impl ProofRequest" vkey_id
//@props V03
//@ret r
//@spec
    ensures *self is Send ==> r == SendQuadraVKey::VKEY_ID, *self is Migrate ==> r == MigrateUnaryVKey::VKEY_ID
//@end
}
impl MigratePublicInputs {
    // a migrate request is refused before its signals are used
    #[verifier::external_body] pub fn public_signals(&self) -> Vec<RawU256> { unimplemented!() }
    #[verifier::external_body] pub fn public_signals_skip_mr(&self) -> Vec<U256> { unimplemented!() }
}
impl VerificationAccountData {
    /// derive(Default)
    pub fn default() -> (r: Self) ensures r == vad0() { VerificationAccountData { fee_payer: RawU256(zero32()), fee_payer_account: RawU256(zero32()), recipient_wallet: ElusivOption::None, skip_nullifier_pda: false, min_batching_rate: 0, token_id: 0, subvention: 0, network_fee: 0, commitment_hash_fee: Lamports(0), commitment_hash_fee_token: 0, proof_verification_fee: 0, associated_token_account_rent: 0 } }
}
pub open spec fn vad0() -> VerificationAccountData { VerificationAccountData { fee_payer: RawU256(zero32_s()), fee_payer_account: RawU256(zero32_s()), recipient_wallet: ElusivOption::None, skip_nullifier_pda: false, min_batching_rate: 0, token_id: 0, subvention: 0, network_fee: 0, commitment_hash_fee: Lamports(0), commitment_hash_fee_token: 0, proof_verification_fee: 0, associated_token_account_rent: 0 } }
impl RawU256 {
//@fn elusiv/src/types.rs in "impl RawU256" skip_mr_ref
//@ret r
//@spec
    ensures *r == self.0
//@end
}
//@note copy_from_slice into a range of a byte array: writes the bytes there, nothing else, aborts out of range
#[verifier::external_body] pub fn put32(v: &mut Vec<u8>, o: usize, x: &U256) ensures o + 32 <= old(v)@.len(), final(v)@ == splice(old(v)@, o as int, x@) { v[o..o + 32].copy_from_slice(x) }
/// the stored schedule and signals
pub open spec fn stored(a: &VerificationAccount, sig: Seq<RawU256>, ins: Seq<u32>) -> bool {
    &&& a.prepare_inputs_instructions_count == ins.len() <= MAX_PREPARE_INPUTS_INSTRUCTIONS && forall|i: int| 0 <= i < ins.len() ==> (#[trigger] a.prepare_inputs_instructions@[i]) == ins[i] as u16
    &&& forall|i: int| 0 <= i < sig.len() ==> #[trigger] win(a.public_input@, i, 32) == sig[i].0@
}
pub open spec fn fits(ins: Seq<u32>) -> bool { forall|k: int| 0 <= k < ins.len() ==> #[trigger] ins[k] <= 462 }
pub open spec fn only_set(o: &VerificationAccount, n: &VerificationAccount, vkey_id: u32, request: ProofRequest, tree_indices: Seq<u32>, d: VerificationAccountData) -> bool {
    *n == (VerificationAccount { vkey_id, request, tree_indices: n.tree_indices, public_input: n.public_input, prepare_inputs_instructions_count: n.prepare_inputs_instructions_count, prepare_inputs_instructions: n.prepare_inputs_instructions, other_data: d, ..*o })
    && n.tree_indices@ == tree_indices
}
impl VerificationAccount {
//@fn elusiv/src/state/proof.rs in "impl<'a> VerificationAccount<'a>" setup_public_inputs_instructions
//@props V03
//@desugar 1
//@sig pub fn setup_public_inputs_instructions(&mut self, instructions: &Vec<u32>) -> Result<(), ProgramError>
//@ret r
//@spec
    ensures r is Ok ==> final(self).prepare_inputs_instructions_count == instructions@.len() <= MAX_PREPARE_INPUTS_INSTRUCTIONS
        && (forall|i: int| 0 <= i < instructions@.len() ==> (#[trigger] final(self).prepare_inputs_instructions@[i]) == instructions@[i] as u16)
        && *final(self) == (VerificationAccount { prepare_inputs_instructions_count: final(self).prepare_inputs_instructions_count, prepare_inputs_instructions: final(self).prepare_inputs_instructions, ..*old(self) })
//@loop 1
    invariant it1@ == instructions@, i_next <= it1@.len(), it1@.len() <= MAX_PREPARE_INPUTS_INSTRUCTIONS, self.prepare_inputs_instructions_count == it1@.len(),
        forall|i: int| 0 <= i < i_next ==> (#[trigger] self.prepare_inputs_instructions@[i]) == it1@[i] as u16,
        *self == (VerificationAccount { prepare_inputs_instructions_count: self.prepare_inputs_instructions_count, prepare_inputs_instructions: self.prepare_inputs_instructions, ..*old(self) })
    decreases it1@.len() - i_next
//@end
//@fn elusiv/src/state/proof.rs in "impl<'a> VerificationAccount<'a>" setup
//@props V03
//@rw self\.public_input\[(\w+)\.\.\(?[^\]]*\]\s*\.copy_from_slice\(&(\w+)\.skip_mr_ref\(\)\[\.\.32\]\); => put32(&mut self.public_input, \1, \2.skip_mr_ref());
//@rw Default::default\(\) => VerificationAccountData::default()
//@desugar 1
//@desugar 2
//@ret r
//@spec
    requires public_inputs@.len() <= 0x1000, tree_indices@.len() == MAX_MT
    ensures r is Ok ==> stored(final(self), public_inputs@, instructions@)
        && only_set(old(self), final(self), vkey_id, request, tree_indices@, VerificationAccountData { fee_payer: signer, skip_nullifier_pda, ..vad0() })
//@beforeloop 1
    let ghost a1 = *self;
//@loop 1
    invariant it1@ == tree_indices@, i_next <= it1@.len(), it1@.len() == MAX_MT, a1 == (VerificationAccount { vkey_id, request, ..*old(self) }), *self == (VerificationAccount { tree_indices: self.tree_indices, ..a1 }),
        forall|i: int| 0 <= i < i_next ==> #[trigger] self.tree_indices@[i] == it1@[i]
    decreases it1@.len() - i_next
//@beforeloop 2
    proof { assert(self.tree_indices@ =~= tree_indices@); }
    let ghost a2 = *self;
//@loop 2
    invariant it2@ == public_inputs@, i_next <= it2@.len(), it2@.len() <= 0x1000, *self == (VerificationAccount { public_input: self.public_input, ..a2 }),
        i_next * 32 <= self.public_input@.len(),
        forall|i: int| 0 <= i < i_next ==> #[trigger] win(self.public_input@, i, 32) == it2@[i].0@
    decreases it2@.len() - i_next
//@looptop 2
    let ghost d0 = self.public_input@;
//@loopend 2
    proof {
        assert forall|k: int| 0 <= k < i_next implies #[trigger] win(self.public_input@, k, 32) == it2@[k].0@ by {
            if k < i { assert(win(d0, k, 32) == it2@[k].0@); assert(win(self.public_input@, k, 32) =~= win(d0, k, 32)); } else { assert(win(self.public_input@, k, 32) =~= it2@[k].0@); }
        }
    }
//@end
}
/// a program account that was just created is all zero
pub open spec fn fresh(a: &VerificationAccount) -> bool { a.state == VerificationState::None && a.is_verified is None && a.instruction == 0 && a.round == 0 && a.coeff_index == 0 && a.step == VerificationStep::PublicInputPreparation && !a.ram_fq.dirty@ && a.mlog@.len() == 0 && a.flog@.len() == 0 }
//@const elusiv/src/processor/proof.rs RESERVED_VERIFICATION_ACCOUNT_IDS
//@note a created account is zeroed and creation fails if the account exists (system program)
//@fn elusiv/src/processor/proof.rs init_verification
//@world
//@props V02 V03 V01
//@rw pda_account!\(\s*mut verification_account,\s*VerificationAccount,\s*verification_account\s*\); => let verification_account = verification_state;
//@sig pub fn init_verification<'a>(fee_payer: &AccountInfo<'a>, verification_account: &AccountInfo<'a>, vkey_account: &VKeyAccount, nullifier_duplicate_account: &AccountInfo<'a>, _identifier_account: &AccountInfo, storage_account: &StorageAccount, commitment_buffer: &mut CommitmentBufferAccount, nullifier_account0: &NullifierAccount, nullifier_account1: &NullifierAccount, verification_account_index: u8, vkey_id: u32, tree_indices: [u32; MAX_MT_COUNT], request: ProofRequest, skip_nullifier_pda: bool, verification_state: &mut VerificationAccount) -> ProgramResult
//@ret r
//@spec
    requires fresh(old(verification_state)), swf(storage_account), nullifier_account0.wf(), nullifier_account1.wf(), binv(old(commitment_buffer)), vkey_account.public_inputs_count <= MAX_PUBLIC_INPUTS_COUNT
    ensures
        r is Ok ==> /*@V02*/ request is Send && admitted(&js(&request), storage_account, seq![nullifier_account0, nullifier_account1], tree_indices@),
        r is Ok ==> /*@V01*/ vinv(final(verification_state)) && final(verification_state).state == VerificationState::None,
        r is Ok ==> /*@V03*/ vkey_account.version != 0 && vkey_id == SendQuadraVKey::VKEY_ID && verification_account_index <= RESERVED_VERIFICATION_ACCOUNT_IDS,
        r is Ok ==> /*@V03*/ only_set(old(verification_state), final(verification_state), vkey_id, request, tree_indices@, VerificationAccountData { fee_payer: RawU256(fee_payer.key.b), skip_nullifier_pda, ..vad0() }),
        r is Ok ==> /*@V03*/ exists|ins: Seq<u32>| vkey_account.public_inputs_count == 14 && #[trigger] schedule_of(unwrapped(signals(&request->Send_0)), ins) && fits(ins) && stored(final(verification_state), signals(&request->Send_0), ins),
        r is Ok ==> /*@V03*/ !held(old(commitment_buffer)).contains(red(js(&request).output_commitment.0)@) && held(final(commitment_buffer)).len() > 0 && held(final(commitment_buffer)).last() == red(js(&request).output_commitment.0)@,
        r is Ok && skip_nullifier_pda ==> /*@V03*/ old(w).lam@[*nullifier_duplicate_account.key] != 0 && *nullifier_duplicate_account.key == guard_pda(guard_key(nhs(&js(&request))), *nullifier_duplicate_account.key),
        r is Ok ==> /*@V03*/ final(w).ev@ =~= (if skip_nullifier_pda { old(w).ev@ } else { old(w).ev@.insert(Ev::Open { kind: 3, acc: *nullifier_duplicate_account.key, payer: *fee_payer.key, pubkey: Some(guard_key(nhs(&js(&request)))), offset: None, bump: None }) })
            .insert(Ev::Open { kind: 4, acc: *verification_account.key, payer: *fee_payer.key, pubkey: Some(*fee_payer.key), offset: Some(verification_account_index as u32), bump: None }),
//@end
