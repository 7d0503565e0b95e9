impl VerificationAccountData {
    /// derive(Default)
    pub fn default() -> (r: Self) ensures r == vad0() { VerificationAccountData { fee_payer: RawU256(zero32()), fee_payer_account: RawU256(zero32()), recipient_wallet: ElusivOption::None, skip_nullifier_pda: false, min_batching_rate: 0, token_id: 0, subvention: 0, network_fee: 0, commitment_hash_fee: Lamports(0), commitment_hash_fee_token: 0, proof_verification_fee: 0, associated_token_account_rent: 0 } }
}
pub open spec fn vad0() -> VerificationAccountData { VerificationAccountData { fee_payer: RawU256(zero32_s()), fee_payer_account: RawU256(zero32_s()), recipient_wallet: ElusivOption::None, skip_nullifier_pda: false, min_batching_rate: 0, token_id: 0, subvention: 0, network_fee: 0, commitment_hash_fee: Lamports(0), commitment_hash_fee_token: 0, proof_verification_fee: 0, associated_token_account_rent: 0 } }
pub open spec fn same_but_state(a: &VerificationAccount, b: &VerificationAccount) -> bool { *b == (VerificationAccount { state: b.state, ..*a }) }
/// the account may hold tokens of this kind (spl account data, external)
pub uninterp spec fn usable(account: Pubkey, token_id: int) -> Option<bool>;
#[verifier::external_body] pub fn verify_token_account(account: &AccountInfo, token_id: u16) -> (r: Result<bool, ProgramError>) ensures r is Ok <==> usable(*account.key, token_id as int) is Some, r is Ok ==> Some(r->Ok_0) == usable(*account.key, token_id as int) { unimplemented!() }
pub fn not_ok_true(r: Result<bool, ProgramError>) -> (b: bool) ensures b == !(r is Ok && r->Ok_0) { match r { Ok(x) => !x, Err(_) => true } }
//@fn shared/elusiv-types/src/tokens.rs verify_associated_token_account
//@props V09
//@ret r
//@spec
    ensures r is Ok && r->Ok_0 && token_id != 0 ==> token_id < TOKENS_LEN && *token_account_address == ata_of(*wallet_address, token_spec(token_id as int).mint)
//@end
//@fn elusiv/src/processor/proof.rs init_verification_transfer_fee
//@world
//@props V04 V01
//@ret r
//@spec
    requires accepted(governor.program_fee), vinv(old(verification_account))
    ensures
        r is Ok ==> /*@V01*/ old(verification_account).state == VerificationState::None && final(verification_account).state == VerificationState::FeeTransferred && old(verification_account).other_data.fee_payer.0 == fee_payer.key.b && vinv(final(verification_account)),
        r is Ok ==> /*@V04*/ ({
            let q = old(verification_account).request;
            let j = js(&q); let id = j.token_id as int;
            let f = governor.program_fee; let rate = governor.commitment_batching_rate;
            let price = price_of(*sol_usd_price_account.key, *token_usd_price_account.key, id);
            let ata = q is Send && q->Send_0.recipient_is_associated_token_account;
            let sub = convert(&price, f.proof_subvention.0 as int, id);
            let pv = convert(&price, proof_fee(f, old(verification_account).prepare_inputs_instructions_count as int), id);
            let ch = convert(&price, commitment_fee(f, rate as int), id);
            let net = f.proof_network_fee.0 * j.amount / 10_000;
            let rent = if ata { rent_of(165) as int } else { 0 };
            let rent_t = convert(&price, rent, id);
            &&& j.fee_version == governor.fee_version && *fee_collector.owner == id_s()
            &&& sub is Some && pv is Some && ch is Some
            &&& j.fee >= ch->Some_0.am_s() + pv->Some_0.am_s() + net - sub->Some_0.am_s() >= 0
            &&& (ata ==> id != 0 && rent_t is Some && j.amount >= rent_t->Some_0.am_s() + j.optional_fee.amount)
            &&& (id == 0 && j.amount != 0 ==> j.amount >= rent_of(0))
            &&& (if id == 0 { *pool.key == *pool_account.key && *fee_collector.key == *fee_collector_account.key } else {
                *pool_account.key == ata_of(*pool.key, token_spec(id).mint) && *fee_collector_account.key == ata_of(*fee_collector.key, token_spec(id).mint) })
            &&& usable(*fee_payer_token_account.key, id) == Some(true)
            &&& final(w).ev@ =~= old(w).ev@
                .insert(Ev::Sys { from: *fee_payer.key, to: *pool.key, n: commitment_fee(f, rate as int) + rent })
                .insert(pda_pay(fee_collector, fee_collector_account, pool_account, sub->Some_0, 1))
            &&& final(verification_account).other_data == (VerificationAccountData {
                fee_payer: RawU256(fee_payer.key.b), fee_payer_account: RawU256(fee_payer_token_account.key.b), recipient_wallet: ElusivOption::None,
                skip_nullifier_pda: old(verification_account).other_data.skip_nullifier_pda, min_batching_rate: rate, token_id: j.token_id,
                subvention: sub->Some_0.am_s() as u64, network_fee: net as u64, commitment_hash_fee: Lamports(commitment_fee(f, rate as int) as u64), commitment_hash_fee_token: ch->Some_0.am_s() as u64,
                proof_verification_fee: pv->Some_0.am_s() as u64, associated_token_account_rent: if ata { rent_t->Some_0.am_s() as u64 } else { 0 } })
            &&& *final(verification_account) == (VerificationAccount { state: VerificationState::FeeTransferred, other_data: final(verification_account).other_data, ..*old(verification_account) })
        }),
//@end
//@fn elusiv/src/processor/proof.rs init_verification_proof
//@props V01
//@ret r
//@spec
    requires vinv(old(verification_account))
    ensures
        r is Err ==> *final(verification_account) == *old(verification_account),
        r is Ok ==> old(verification_account).state == VerificationState::FeeTransferred && final(verification_account).state == VerificationState::ProofSetup
            && old(verification_account).is_verified is None && old(verification_account).other_data.fee_payer.0 == fee_payer.key.b && vinv(final(verification_account))
            && *final(verification_account) == (VerificationAccount { state: VerificationState::ProofSetup, a: final(verification_account).a, b: final(verification_account).b, c: final(verification_account).c, ..*old(verification_account) })
            && final(verification_account).a.val@ == Some(proof.a) && final(verification_account).b.val@ == Some(proof.b) && final(verification_account).c.val@ == Some(proof.c)
//@end
pub open spec fn followed<I: InstructionsSysvar>(s: &I, lamports: bool, v: u8) -> bool { exists|n: int| sequence(s, n, lamports, v) }
//@item elusiv/src/processor/proof.rs "struct FinalizeSendData"
/// the memo of a finalization is the data of the memo instruction at the required place
pub open spec fn memo_at<I: InstructionsSysvar>(s: &I, uses: bool, pay: bool, m: Seq<u8>) -> bool {
    if uses { exists|c: int| #[trigger] memo_place(s, c, pay, m) } else { m == Seq::<u8>::empty() }
}
//@fn elusiv/src/processor/proof.rs finalize_verification_send
//@props V01 V05 V07 V10
//@rw CommitmentQueue::new\(commitment_hash_queue\) => commitment_hash_queue
//@rw verification_account\.set_other_data\(&mutate\(&verification_account\.get_other_data\(\), \|data\| \{(.*?)\}\)\); => { let mut data = verification_account.get_other_data(); \1; verification_account.set_other_data(&data); }
//@rw \[0; 32\] => zero32()
//@after buffer\.set_value\(index, &zero32\(\)\);
    proof { bufm::lemma_held(old(buffer), red(js(&old(verification_account).request).output_commitment.0)@); assert(freed(old(buffer), buffer, red(js(&old(verification_account).request).output_commitment.0), index as int)); }
//@before return Ok\(\(\)\);
    proof { let v = red(js(&old(verification_account).request).output_commitment.0); bufm::lemma_held(old(buffer), v@); if !held(old(buffer)).contains(v@) { assert(freed(old(buffer), buffer, v, 0)); } }
//@before \{ let mut data = verification_account\.get_other_data
    proof { 
        let p = public_inputs; let m = memo_of(memo);
        assert(memo_at(&DefaultInstructionsSysvar(instructions_account), uses_memo, p.solana_pay_transfer, m));
        assert(p.hashed_inputs == input_hash(SendData {
                recipient: recipient.key.b, identifier: identifier_account.key.b, iv: data.iv, owner: data.encrypted_owner,
                reference: if transaction_reference.key == instructions_account.key { zero32_s() } else { transaction_reference.key.b },
                ata: p.recipient_is_associated_token_account, metadata: p.join_split.metadata, fee: p.join_split.optional_fee, memo: m }));
    }
//@sig pub fn finalize_verification_send(recipient: &AccountInfo, identifier_account: &AccountInfo, transaction_reference: &AccountInfo, commitment_hash_queue: &mut CommitmentQueue, verification_account: &mut VerificationAccount, storage_account: &StorageAccount, buffer: &mut CommitmentBufferAccount, instructions_account: &AccountInfo, verification_account_index: u8, data: FinalizeSendData, uses_memo: bool) -> ProgramResult
//@ret r
//@spec
    requires vinv(old(verification_account)), binv(old(buffer)), qinv(old(commitment_hash_queue)), storage_account.next_commitment_ptr <= MT_COMMITMENT_COUNT, storage_account.trees_count < u32::MAX - 1
    ensures
        *final(commitment_hash_queue) == *old(commitment_hash_queue),
        r is Ok ==> /*@V01*/ old(verification_account).state == VerificationState::ProofSetup && old(verification_account).is_verified is Some && vinv(final(verification_account))
            && final(verification_account).state == (if old(verification_account).is_verified == ElusivOption::Some(true) { VerificationState::InsertNullifiers } else { VerificationState::Finalized }),
        r is Ok ==> /*@V05*/ ({
            let p = old(verification_account).request->Send_0;
            &&& exists|m: Seq<u8>| #[trigger] memo_at(&DefaultInstructionsSysvar(instructions_account), uses_memo, p.solana_pay_transfer, m) && p.hashed_inputs == input_hash(SendData {
                recipient: recipient.key.b, identifier: identifier_account.key.b, iv: data.iv, owner: data.encrypted_owner,
                reference: if transaction_reference.key == instructions_account.key { zero32_s() } else { transaction_reference.key.b },
                ata: p.recipient_is_associated_token_account, metadata: p.join_split.metadata, fee: p.join_split.optional_fee, memo: m })
            &&& final(verification_account).other_data == (VerificationAccountData { recipient_wallet: ElusivOption::Some(RawU256(recipient.key.b)), ..old(verification_account).other_data })
            &&& *final(verification_account) == (VerificationAccount { state: final(verification_account).state, other_data: final(verification_account).other_data, instruction: final(verification_account).instruction, ..*old(verification_account) })
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) ==> /*@V05*/ ({
            let j = js(&old(verification_account).request);
            let n = storage_account.next_commitment_ptr + qview(old(commitment_hash_queue)).len();
            &&& data.total_amount == j.amount + j.fee && data.token_id == j.token_id
            &&& data.mt_index == storage_account.trees_count + n / (MT_COMMITMENT_COUNT as int)
            &&& data.commitment_index <= n % (MT_COMMITMENT_COUNT as int)
            &&& final(verification_account).instruction == 0
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) ==> /*@V07*/ *final(buffer) == *old(buffer),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) ==> /*@V10*/ followed(&DefaultInstructionsSysvar(instructions_account), js(&old(verification_account).request).token_id == 0, verification_account_index),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(false) ==> /*@V07*/ released(old(buffer), final(buffer), red(js(&old(verification_account).request).output_commitment.0)),
//@end
/// a value was taken out of the recent values (its slot zeroed), every other slot is as before
pub open spec fn released(a: &CommitmentBufferAccount, b: &CommitmentBufferAccount, v: U256) -> bool {
    b.l() == a.l() && b.p() == a.p() && binv(b)
    && exists|i: int| (forall|k: int| 0 <= k < <CommitmentBufferAccount as RawBuf>::CAPACITY && k != i ==> #[trigger] bufm::slot(b, k) == bufm::slot(a, k))
        && #[trigger] freed(a, b, v, i)
}
pub open spec fn freed(a: &CommitmentBufferAccount, b: &CommitmentBufferAccount, v: U256, i: int) -> bool {
    if held(a).contains(v@) { 0 <= i < a.l() && bufm::slot(a, i) == v@ && bufm::slot(b, i) == zero32_s()@ } else { *a == *b }
}

/// the number of inputs before i that name a root (each a tree of its own, an input without one is in the first)
pub open spec fn named(s: Seq<InputCommitment>, i: int) -> int decreases i { if i <= 0 { 0 } else { named(s, i - 1) + (if s[i - 1].root is Some { 1int } else { 0int }) } }
pub open spec fn tree_of(s: Seq<InputCommitment>, i: int) -> int { if s[i].root is Some { named(s, i) } else { 0 } }
//@fn elusiv/src/processor/proof.rs finalize_verification_insert_nullifier
//@props V06 V01
//@desugar 1
//@ret r
//@spec
    requires vinv(old(verification_account)), old(nullifier_account).wf()
    ensures
        r is Ok ==> /*@V06*/ final(nullifier_account).wf(),
        r is Err ==> /*@V06*/ *final(verification_account) == *old(verification_account),
        r is Ok ==> /*@V01 V06*/ old(verification_account).state == VerificationState::InsertNullifiers && vinv(final(verification_account))
            && *final(verification_account) == (VerificationAccount { state: final(verification_account).state, instruction: final(verification_account).instruction, ..*old(verification_account) }),
        r is Ok ==> /*@V06*/ ({
            let j = js(&old(verification_account).request);
            let i = old(verification_account).instruction as int;
            let n = j.input_commitments@.len() as int;
            // the account is the one of the verification's first tree (dispatch)
            &&& (i < n ==> tree_of(j.input_commitments@, i) == 0)
            &&& (i < n ==> final(verification_account).instruction == i + 1 && !old(nullifier_account).spent().contains(red(j.input_commitments@[i].nullifier_hash.0))
                && final(nullifier_account).spent() == old(nullifier_account).spent().insert(red(j.input_commitments@[i].nullifier_hash.0)))
            &&& (i >= n ==> final(verification_account).instruction == i && final(nullifier_account).spent() == old(nullifier_account).spent())
            &&& (final(verification_account).state == VerificationState::Finalized && final(verification_account).instruction == n && final(nullifier_account).waits().len() == 0
                || final(verification_account).state == VerificationState::InsertNullifiers)
        }),
//@loop 1
    invariant_except_break *nullifier_account == *old(nullifier_account), index_next <= input_commitment_index
    invariant old(nullifier_account).wf(), *verification_account == *old(verification_account), it1@ == public_inputs.join_split.input_commitments@, 0 <= input_commitment_index < it1@.len(), index_next <= it1@.len(), it1@.len() <= 4,
        tree_index <= index_next, tree_index == named(it1@, index_next as int),
        public_inputs == old(verification_account).request->Send_0
    ensures nullifier_account.wf(), tree_of(it1@, input_commitment_index as int) == 0, !old(nullifier_account).spent().contains(red(it1@[input_commitment_index as int].nullifier_hash.0)),
        nullifier_account.spent() == old(nullifier_account).spent().insert(red(it1@[input_commitment_index as int].nullifier_hash.0))
    decreases it1@.len() - index_next
//@end
/// what a lamports payout moves
pub open spec fn lamports_out(b: Bag, a: &VerificationAccount, payer: Pubkey, recipient: Pubkey, pool: Pubkey, fc: Pubkey, opt: Pubkey, va: Pubkey, nda: Pubkey) -> Bag {
    let j = js(&a.request); let d = a.other_data;
    let b1 = if a.request is Send && j.amount > 0 { b.insert(Ev::Pda { from: pool, to: if a.request->Send_0.solana_pay_transfer { payer } else { recipient }, n: j.amount - j.optional_fee.amount }) } else { b };
    let b2 = if a.request is Send && j.amount > 0 && j.optional_fee.amount > 0 { b1.insert(Ev::Pda { from: pool, to: opt, n: j.optional_fee.amount as int }) } else { b1 };
    closed(b2.insert(Ev::Pda { from: pool, to: payer, n: d.commitment_hash_fee_token + d.proof_verification_fee }).insert(Ev::Pda { from: pool, to: fc, n: d.network_fee as int }), va, nda, d.skip_nullifier_pda, payer)
}
pub uninterp spec fn sys_transfer_instr(from: Pubkey, to: Pubkey, n: u64) -> Instruction;
#[verifier::external_body] pub fn sys_transfer_instruction(from: &Pubkey, to: &Pubkey, n: u64) -> (r: Instruction) ensures r == sys_transfer_instr(*from, *to, n) { unimplemented!() }
/// the last instruction of the transaction is e
pub open spec fn last_is<I: InstructionsSysvar>(s: &I, e: Instruction) -> bool { exists|c: int| last_ix(s, c) && #[trigger] s.at(c) is Some && same_ix(s.at(c)->Some_0, e, false) }
//@fn elusiv/src/processor/proof.rs finalize_verification_transfer_lamports
//@world
//@props V01 V07 V08 V10
//@rw pda_account!\(\s*mut verification_account,\s*VerificationAccount,\s*verification_account_info\s*\); =>
//@rw let mut commitment_queue = CommitmentQueue::new\(commitment_hash_queue\); => let commitment_queue = commitment_hash_queue;
//@rw let mut metadata_queue = MetadataQueue::new\(metadata_queue\); =>
//@rw &mut commitment_queue, => commitment_queue,
//@rw &mut metadata_queue, => metadata_queue,
//@rw &system_instruction::transfer\( => &sys_transfer_instruction(
//@sig pub fn finalize_verification_transfer_lamports<'a>(original_fee_payer: &AccountInfo<'a>, recipient: &AccountInfo<'a>, pool: &AccountInfo<'a>, fee_collector: &AccountInfo<'a>, optional_fee_collector: &AccountInfo<'a>, commitment_hash_queue: &mut CommitmentQueue, metadata_queue: &mut MetadataQueue, verification_account_info: &AccountInfo<'a>, nullifier_duplicate_account: &AccountInfo<'a>, instructions_account: &AccountInfo, _verification_account_index: u8, verification_account: &mut VerificationAccount) -> ProgramResult
//@ret r
//@spec
    requires vinv(old(verification_account)), qinv(old(commitment_hash_queue)), qinv(old(metadata_queue))
    ensures
        r is Ok ==> /*@V01*/ old(verification_account).state == VerificationState::Finalized && final(verification_account).state == VerificationState::Closed && same_but_state(old(verification_account), final(verification_account))
            && old(verification_account).other_data.fee_payer.0 == original_fee_payer.key.b,
        r is Ok ==> /*@V08*/ js(&old(verification_account).request).token_id == 0 && *nullifier_duplicate_account.key == guard_pda(guard_key(nhs(&js(&old(verification_account).request))), *nullifier_duplicate_account.key),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(false) ==> /*@V07*/ ({
            let d = old(verification_account).other_data;
            &&& *final(commitment_hash_queue) == *old(commitment_hash_queue) && *final(metadata_queue) == *old(metadata_queue)
            &&& final(w).ev@ =~= closed(old(w).ev@, *verification_account_info.key, *nullifier_duplicate_account.key, d.skip_nullifier_pda, *fee_collector.key)
                .insert(Ev::Pda { from: *pool.key, to: *fee_collector.key, n: d.subvention as int })
                .insert(Ev::Pda { from: *pool.key, to: *fee_collector.key, n: d.commitment_hash_fee.0 as int })
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) ==> /*@V08*/ ({
            let a = old(verification_account); let j = js(&a.request); let d = a.other_data;
            &&& final(w).ev@ =~= lamports_out(old(w).ev@, a, *original_fee_payer.key, *recipient.key, *pool.key, *fee_collector.key, *optional_fee_collector.key, *verification_account_info.key, *nullifier_duplicate_account.key)
            &&& (j.amount > 0 ==> d.recipient_wallet == ElusivOption::Some(RawU256(recipient.key.b)))
            &&& (j.amount > 0 && j.optional_fee.amount > 0 ==> *optional_fee_collector.key == j.optional_fee.collector)
            &&& queued(old(commitment_hash_queue), final(commitment_hash_queue), old(metadata_queue), final(metadata_queue), red(j.output_commitment.0), j.metadata, j.fee_version, d.min_batching_rate)
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) && old(verification_account).request->Send_0.solana_pay_transfer && js(&old(verification_account).request).amount > 0 ==> /*@V08 V10*/
            last_is(&DefaultInstructionsSysvar(instructions_account), sys_transfer_instr(*original_fee_payer.key, *recipient.key, (js(&old(verification_account).request).amount - js(&old(verification_account).request).optional_fee.amount) as u64)),
//@end
pub uninterp spec fn spl_transfer_instr(program: Pubkey, from: Pubkey, to: Pubkey, auth: Pubkey, n: u64) -> Instruction;
#[verifier::external_body] pub fn spl_transfer_instruction(program: &Pubkey, from: &Pubkey, to: &Pubkey, auth: &Pubkey, n: u64) -> (r: Result<Instruction, ProgramError>) ensures r is Ok ==> r->Ok_0 == spl_transfer_instr(*program, *from, *to, *auth, n) { unimplemented!() }
/// the accounts of a token payout
pub struct Tp { pub payer: Pubkey, pub payer_account: Pubkey, pub recipient: Pubkey, pub wallet: Pubkey, pub pool: Pubkey, pub pool_account: Pubkey, pub fc: Pubkey, pub fc_account: Pubkey, pub opt: Pubkey, pub va: Pubkey, pub nda: Pubkey }
pub open spec fn is_ata(a: &VerificationAccount) -> bool { a.request is Send && a.request->Send_0.recipient_is_associated_token_account }
pub open spec fn pays(a: &VerificationAccount) -> bool { a.request is Send && js(&a.request).amount > 0 }
/// the account created for the recipient is paid for out of the amount
pub open spec fn rent_kept(a: &VerificationAccount, created: bool) -> int { if pays(a) && is_ata(a) && created { a.other_data.associated_token_account_rent as int } else { 0 } }
/// the account that receives the amount
pub open spec fn receiver(a: &VerificationAccount, t: Tp) -> Pubkey { if is_ata(a) || usable(t.recipient, js(&a.request).token_id as int) == Some(true) { t.recipient } else { t.fc_account } }
pub open spec fn from_pool(t: Tp, to: Pubkey, n: int) -> Ev { Ev::Spl { auth: t.pool, from: t.pool_account, to, n, pda: Some(2) } }
pub open spec fn paid(a: &VerificationAccount, created: bool) -> int { js(&a.request).amount - rent_kept(a, created) - js(&a.request).optional_fee.amount }
/// what a token payout moves
pub open spec fn tokens_out(b: Bag, a: &VerificationAccount, t: Tp, created: bool) -> Bag {
    let j = js(&a.request); let d = a.other_data;
    let b0 = if pays(a) && is_ata(a) && created { b.insert(Ev::Ata { payer: t.payer, wallet: t.wallet, ata: t.recipient, mint: token_spec(j.token_id as int).mint }) } else { b };
    let b1 = if pays(a) { b0.insert(from_pool(t, if a.request->Send_0.solana_pay_transfer { t.payer_account } else { receiver(a, t) }, paid(a, created))) } else { b0 };
    let b2 = if pays(a) && j.optional_fee.amount > 0 { b1.insert(from_pool(t, t.opt, j.optional_fee.amount as int)) } else { b1 };
    let b3 = b2.insert(from_pool(t, t.payer_account, d.commitment_hash_fee_token + d.proof_verification_fee + rent_kept(a, created))).insert(from_pool(t, t.fc_account, d.network_fee as int));
    let b4 = closed(b3, t.va, t.nda, d.skip_nullifier_pda, t.payer);
    if pays(a) && is_ata(a) { b4.insert(Ev::Pda { from: t.pool, to: t.payer, n: rent_of(165) as int }) } else { b4 }
}
//@fn elusiv/src/processor/proof.rs finalize_verification_transfer_token
//@world
//@props V01 V07 V09 V10
//@rw pda_account!\(\s*mut verification_account,\s*VerificationAccount,\s*verification_account_info\s*\); =>
//@rw let mut commitment_queue = CommitmentQueue::new\(commitment_hash_queue\); => let commitment_queue = commitment_hash_queue;
//@rw let mut metadata_queue = MetadataQueue::new\(metadata_queue\); =>
//@rw &mut commitment_queue, => commitment_queue,
//@rw &mut metadata_queue, => metadata_queue,
//@rw verify_token_account\(([^()]*)\) != Ok\(true\) => not_ok_true(verify_token_account(\1))
//@rw spl_token::instruction::transfer\(([^;]*?)&\[original_fee_payer\.key\], => spl_transfer_instruction(\1
//@sig pub fn finalize_verification_transfer_token<'a>(original_fee_payer: &AccountInfo<'a>, original_fee_payer_account: &AccountInfo<'a>, recipient: &AccountInfo<'a>, recipient_wallet: &AccountInfo<'a>, pool: &AccountInfo<'a>, pool_account: &AccountInfo<'a>, fee_collector: &AccountInfo<'a>, fee_collector_account: &AccountInfo<'a>, optional_fee_collector: &AccountInfo<'a>, commitment_hash_queue: &mut CommitmentQueue, metadata_queue: &mut MetadataQueue, verification_account_info: &AccountInfo<'a>, nullifier_duplicate_account: &AccountInfo<'a>, token_program: &AccountInfo<'a>, mint_account: &AccountInfo<'a>, instructions_account: &AccountInfo, _verification_account_index: u8, verification_account: &mut VerificationAccount) -> ProgramResult
//@ret r
//@spec
    requires vinv(old(verification_account)), qinv(old(commitment_hash_queue)), qinv(old(metadata_queue))
    ensures
        r is Ok ==> /*@V01*/ old(verification_account).state == VerificationState::Finalized && final(verification_account).state == VerificationState::Closed && same_but_state(old(verification_account), final(verification_account))
            && old(verification_account).other_data.fee_payer.0 == original_fee_payer.key.b && old(verification_account).other_data.fee_payer_account.0 == original_fee_payer_account.key.b,
        r is Ok ==> /*@V09*/ ({
            let id = js(&old(verification_account).request).token_id as int;
            &&& 0 < id < TOKENS_LEN && *pool_account.key == ata_of(*pool.key, token_spec(id).mint) && *fee_collector_account.key == ata_of(*fee_collector.key, token_spec(id).mint)
            &&& *nullifier_duplicate_account.key == guard_pda(guard_key(nhs(&js(&old(verification_account).request))), *nullifier_duplicate_account.key)
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(false) ==> /*@V07*/ ({
            let a = old(verification_account); let d = a.other_data;
            let t = Tp { payer: *original_fee_payer.key, payer_account: *original_fee_payer_account.key, recipient: *recipient.key, wallet: *recipient_wallet.key, pool: *pool.key, pool_account: *pool_account.key, fc: *fee_collector.key, fc_account: *fee_collector_account.key, opt: *optional_fee_collector.key, va: *verification_account_info.key, nda: *nullifier_duplicate_account.key };
            &&& *final(commitment_hash_queue) == *old(commitment_hash_queue) && *final(metadata_queue) == *old(metadata_queue)
            &&& final(w).ev@ =~= closed(old(w).ev@, t.va, t.nda, d.skip_nullifier_pda, t.fc)
                .insert(from_pool(t, t.fc_account, d.subvention as int))
                .insert(Ev::Pda { from: t.pool, to: t.fc, n: d.commitment_hash_fee.0 + if is_ata(a) { rent_of(165) as int } else { 0 } })
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) ==> /*@V09*/ ({
            let a = old(verification_account); let j = js(&a.request); let d = a.other_data; let id = j.token_id as int;
            let t = Tp { payer: *original_fee_payer.key, payer_account: *original_fee_payer_account.key, recipient: *recipient.key, wallet: *recipient_wallet.key, pool: *pool.key, pool_account: *pool_account.key, fc: *fee_collector.key, fc_account: *fee_collector_account.key, opt: *optional_fee_collector.key, va: *verification_account_info.key, nda: *nullifier_duplicate_account.key };
            let created = old(w).lam@[t.recipient] == 0;
            &&& final(w).ev@ =~= tokens_out(old(w).ev@, a, t, created)
            &&& (pays(a) ==> paid(a, created) >= 0)
            &&& (pays(a) ==> d.recipient_wallet == ElusivOption::Some(RawU256(if is_ata(a) { t.wallet.b } else { t.recipient.b })))
            &&& (pays(a) && is_ata(a) ==> t.recipient == ata_of(t.wallet, token_spec(id).mint))
            &&& (pays(a) && j.optional_fee.amount > 0 ==> t.opt == j.optional_fee.collector)
            &&& queued(old(commitment_hash_queue), final(commitment_hash_queue), old(metadata_queue), final(metadata_queue), red(j.output_commitment.0), j.metadata, j.fee_version, d.min_batching_rate)
        }),
        r is Ok && old(verification_account).is_verified == ElusivOption::Some(true) && old(verification_account).request->Send_0.solana_pay_transfer && js(&old(verification_account).request).amount > 0 ==> /*@V09 V10*/ ({
            let a = old(verification_account);
            let t = Tp { payer: *original_fee_payer.key, payer_account: *original_fee_payer_account.key, recipient: *recipient.key, wallet: *recipient_wallet.key, pool: *pool.key, pool_account: *pool_account.key, fc: *fee_collector.key, fc_account: *fee_collector_account.key, opt: *optional_fee_collector.key, va: *verification_account_info.key, nda: *nullifier_duplicate_account.key };
            last_is(&DefaultInstructionsSysvar(instructions_account), spl_transfer_instr(*token_program.key, t.payer_account, receiver(a, t), t.payer, paid(a, old(w).lam@[t.recipient] == 0) as u64))
        }),
//@end
