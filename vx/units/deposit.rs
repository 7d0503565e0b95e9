//@include common.rs
use ElusivError::*;
verus! {
//@include procbase.inc.rs
pub mod dep { use super::*; broadcast use super::ax_u256_eq;
//@include proc.inc.rs
//@py accessors elusiv/src/state/commitment.rs "struct BaseCommitmentHashingAccount"
impl PDAAccount for BaseCommitmentHashingAccount { open spec fn kind() -> int { 3 } }
//@item elusiv/src/processor/commitment.rs "struct BaseCommitmentHashRequest"
pub struct UnverifiedAccountInfo<'a, 'b> { pub account_info: &'a AccountInfo<'b>, pub is_verified: bool }
impl<'a, 'b> UnverifiedAccountInfo<'a, 'b> {
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" get_unsafe
//@ret r
//@spec
    ensures r == self.account_info
//@end
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" get_safe
//@ret r
//@spec
    ensures r is Ok <==> self.is_verified, r is Ok ==> r->Ok_0 == self.account_info
//@end
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" set_is_verified
//@spec
    ensures final(self).is_verified, final(self).account_info == old(self).account_info
//@end
}
/// the sponge a deposit starts with: base commitment, then amount, token and recent index packed into one element
pub open spec fn start(q: BaseCommitmentHashRequest) -> BinarySpongeHashingState {
    hstate(fr_of(red(q.base_commitment.0)), fr_limbs(q.amount, (q.token_id + q.recent_commitment_index * 0x1_0000) as u64, 0, 0), false)
}
pub open spec fn recorded(a: &BaseCommitmentHashingAccount, q: BaseCommitmentHashRequest, m: CommitmentMetadata, fee_payer: U256) -> bool {
    a.is_active && a.instruction == 0 && a.round == 0 && a.fee_payer == fee_payer && a.fee_version == q.fee_version && a.min_batching_rate == q.min_batching_rate
    && a.token_id == q.token_id && a.metadata == m && a.state == start(q)
}
pub uninterp spec fn btable() -> Seq<u8>;
pub open spec fn psum(t: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(t, n - 1) + t[n - 1] } }
pub proof fn lemma_psum(t: Seq<u8>, i: int, n: int) requires 0 <= i <= n ensures 0 <= psum(t, i) <= psum(t, n), psum(t, n) <= 255 * n decreases n { if i < n { lemma_psum(t, i, n - 1); } else if n > 0 { lemma_psum(t, n - 1, n - 1); } }
//@note the schedule generated by elusiv_hash_compute_units for a deposit: its steps add up to the 65 rounds of one hash (proved of the table in unit tables)
#[verifier::external_body] pub proof fn btable_ok() ensures psum(btable(), btable().len() as int) == TOTAL_POSEIDON_ROUNDS, 0 < btable().len() < 0x1000 {}
#[verifier::external_body] pub fn base_ix_count() -> (r: usize) ensures r == btable().len() { unimplemented!() }
#[verifier::external_body] pub fn base_total_rounds() -> (r: u32) ensures r == TOTAL_POSEIDON_ROUNDS { unimplemented!() }
#[verifier::external_body] pub fn base_rounds(i: usize) -> (r: u8) ensures i < btable().len(), r == btable()[i as int] { unimplemented!() }
/// progress invariant of a deposit's computation: the first `round` rounds have been executed on the recorded start state s, each once and in order
pub open spec fn binvt(a: &BaseCommitmentHashingAccount, s: BinarySpongeHashingState) -> bool {
    a.instruction <= btable().len() && a.round == psum(btable(), a.instruction as int) && a.state == rounds_of(a.round as nat, s)
}
impl BaseCommitmentHashingAccount {
//@fn elusiv/src/state/commitment.rs in "impl<'a> BaseCommitmentHashingAccount" setup
//@props D01 H01
//@rw Fr::from_repr\(BigInteger256\( => fr_from_limbs((
//@ret r
//@spec
    ensures r is Ok, recorded(final(self), request, metadata, fee_payer), binvt(final(self), start(request))
//@top
    proof {
        let t = request.token_id; let x = request.recent_commitment_index;
        assert(t as u64 + ((x as u64) << 16) == (t + x * 0x1_0000) as u64) by {
            assert(((x as u64) << 16) == (x as u64) * 0x1_0000) by(bit_vector) requires x <= 0xffff_ffff;
        }
        reveal_with_fuel(psum, 1); reveal_with_fuel(rounds_of, 1);
    }
//@end
}
//@fn elusiv/src/processor/commitment.rs store_base_commitment
//@world
//@props D01 D02
//@rw crate::id\(\) => id()
//@rw ZERO_BASE_COMMITMENT => zero_base_commitment()
//@rw pda_account!\(\s*mut hashing_account,\s*BaseCommitmentHashingAccount,\s*hashing_account\.get_safe\(\)\?\s*\); => hashing_account.get_safe()?; let hashing_account = hashing_data;
//@sig pub fn store_base_commitment<'a, 'b>(sender: &AccountInfo<'a>, sender_account: &AccountInfo<'a>, fee_payer: &AccountInfo<'a>, fee_payer_account: &AccountInfo<'a>, pool: &AccountInfo<'a>, pool_account: &AccountInfo<'a>, fee_collector: &AccountInfo<'a>, fee_collector_account: &AccountInfo<'a>, sol_usd_price_account: &AccountInfo, token_usd_price_account: &AccountInfo, governor: &GovernorAccount, storage: &StorageAccount, mut hashing_account: UnverifiedAccountInfo<'b, 'a>, base_commitment_buffer: &mut BaseCommitmentBufferAccount, token_program: &AccountInfo<'a>, system_program: &AccountInfo<'a>, hash_account_index: u32, hash_account_bump: u8, request: BaseCommitmentHashRequest, metadata: CommitmentMetadata, hashing_data: &mut BaseCommitmentHashingAccount) -> ProgramResult
//@ret r
//@spec
    requires accepted(governor.program_fee), binv(old(base_commitment_buffer))
    ensures
        r is Ok ==> /*@D02*/ ({
            let id = request.token_id as int;
            let f = governor.program_fee;
            let t = token_spec(id);
            &&& request.token_id < TOKENS_LEN && t.min <= request.amount <= t.max
            &&& in_field(request.base_commitment.0) && in_field(request.commitment.0)
            &&& request.recent_commitment_index <= storage.next_commitment_ptr && storage.next_commitment_ptr - request.recent_commitment_index < COMMITMENT_BUFFER_LEN
            &&& fr_of(red(request.base_commitment.0)) != zero_base()
            &&& request.fee_version == governor.fee_version && request.min_batching_rate == governor.commitment_batching_rate
            &&& !held(old(base_commitment_buffer)).contains(request.base_commitment.0@)
        }),
        r is Ok ==> /*@D01*/ ({
            let f = governor.program_fee;
            let id = request.token_id as int;
            let price = price_of(*sol_usd_price_account.key, *token_usd_price_account.key, id);
            let fee = base_fee(f) + commitment_fee(f, request.min_batching_rate as int);
            let fee_t = convert(&price, fee, id)->Some_0;
            let subvention = convert(&price, f.base_commitment_subvention.0 as int, id)->Some_0;
            let network_fee = f.base_commitment_network_fee.0 * request.amount / 10_000;
            &&& convert(&price, fee, id) is Some && convert(&price, f.base_commitment_subvention.0 as int, id) is Some
            &&& fee_t.am_s() >= subvention.am_s()
            &&& (if id == 0 { *pool.key == *pool_account.key && *fee_collector.key == *fee_collector_account.key } else {
                *pool_account.key == ata_of(*pool.key, token_spec(id).mint) && *fee_collector_account.key == ata_of(*fee_collector.key, token_spec(id).mint) })
            &&& *fee_collector.owner == id_s()
            &&& final(w).ev@ =~= old(w).ev@
                .insert(pay(sender, sender_account, fee_payer_account, tok(id, fee_t.am_s() - subvention.am_s())))
                .insert(Ev::Sys { from: *fee_payer.key, to: *pool.key, n: fee })
                .insert(pay(sender, sender_account, fee_collector_account, tok(id, network_fee)))
                .insert(pay(sender, sender_account, pool_account, tok(id, request.amount as int)))
                .insert(Ev::Open { kind: 3, acc: *hashing_account.account_info.key, payer: *fee_payer.key, pubkey: None, offset: Some(hash_account_index), bump: Some(hash_account_bump) })
                .insert(pda_pay(fee_collector, fee_collector_account, fee_payer_account, subvention, 1))
        }),
        r is Ok ==> /*@D01*/ recorded(final(hashing_data), request, metadata, fee_payer.key.b) && binvt(final(hashing_data), start(request)),
        r is Ok ==> /*@D01*/ binv(final(base_commitment_buffer)) && held(final(base_commitment_buffer)).last() == request.base_commitment.0@
            && (forall|v: Seq<u8>| held(final(base_commitment_buffer)).contains(v) ==> v == request.base_commitment.0@ || held(old(base_commitment_buffer)).contains(v)),
//@end
//@fn elusiv/src/commitment/mod.rs compute_base_commitment_hash_partial
//@props H01
//@rw BaseCommitmentHashComputation::IX_COUNT => base_ix_count()
//@rw BaseCommitmentHashComputation::TOTAL_ROUNDS => base_total_rounds()
//@rw BaseCommitmentHashComputation::INSTRUCTION_ROUNDS\[([^\]]*)\] => base_rounds(\1)
//@desugar 1
//@ret r
//@spec
    requires exists|s: BinarySpongeHashingState| binvt(old(hashing_account), s)
    ensures r is Err ==> *final(hashing_account) == *old(hashing_account),
        r is Err <==> old(hashing_account).instruction >= btable().len(),
        r is Ok ==> *final(hashing_account) == (BaseCommitmentHashingAccount { instruction: final(hashing_account).instruction, round: final(hashing_account).round, state: final(hashing_account).state, ..*old(hashing_account) })
            && final(hashing_account).instruction == old(hashing_account).instruction + 1
            && forall|s: BinarySpongeHashingState| binvt(old(hashing_account), s) ==> binvt(final(hashing_account), s)
//@top
    proof { btable_ok(); lemma_psum(btable(), hashing_account.instruction as int, btable().len() as int); if hashing_account.instruction < btable().len() { lemma_psum(btable(), hashing_account.instruction + 1, btable().len() as int); } }
    let ghost a0 = *hashing_account;
    let ghost st0 = hashing_account.state;
//@loop 1
    invariant round_end == start_round + rounds, start_round <= round_next <= round_end <= TOTAL_POSEIDON_ROUNDS, start_round == a0.round,
        *hashing_account == a0, forall|s: BinarySpongeHashingState| binvt(&a0, s) ==> state == rounds_of(round_next as nat, s)
    decreases round_end - round_next
//@end
//@fn elusiv/src/processor/commitment.rs compute_base_commitment_hash
//@props H01
//@ret r
//@spec
    requires old(hashing_account).is_active ==> exists|s: BinarySpongeHashingState| binvt(old(hashing_account), s)
    ensures r is Err ==> *final(hashing_account) == *old(hashing_account),
        r is Ok ==> old(hashing_account).is_active && old(hashing_account).instruction < btable().len() && final(hashing_account).instruction == old(hashing_account).instruction + 1
            && *final(hashing_account) == (BaseCommitmentHashingAccount { instruction: final(hashing_account).instruction, round: final(hashing_account).round, state: final(hashing_account).state, ..*old(hashing_account) })
            && forall|s: BinarySpongeHashingState| binvt(old(hashing_account), s) ==> binvt(final(hashing_account), s)
//@end
//@fn elusiv/src/processor/commitment.rs finalize_base_commitment_hash
//@world
//@props D03 H01
//@rw BaseCommitmentHashComputation::IX_COUNT => base_ix_count()
//@rw pda_account!\([^;]*\); => 
//@rw let mut commitment_queue = CommitmentQueue::new\(commitment_hash_queue\); => let commitment_queue = commitment_hash_queue;
//@rw let mut metadata_queue = MetadataQueue::new\(metadata_queue\); => 
//@rw &mut commitment_queue, => commitment_queue,
//@rw &mut metadata_queue, => metadata_queue,
//@sig pub fn finalize_base_commitment_hash<'a>(original_fee_payer: &AccountInfo<'a>, pool: &AccountInfo<'a>, fee: &FeeAccount, hashing_account_info: &AccountInfo<'a>, commitment_hash_queue: &mut CommitmentQueue, metadata_queue: &mut MetadataQueue, _hash_account_index: u32, fee_version: u32, hashing_account: &mut BaseCommitmentHashingAccount) -> ProgramResult
//@ret r
//@spec
    requires qinv(old(commitment_hash_queue)), qinv(old(metadata_queue)), accepted(fee.program_fee), old(hashing_account).is_active ==> exists|s: BinarySpongeHashingState| binvt(old(hashing_account), s)
    ensures r is Ok ==> ({
        let a = old(hashing_account);
        &&& a.is_active && a.fee_version == fee_version && a.fee_payer == original_fee_payer.key.b && a.instruction == btable().len()
        &&& !final(hashing_account).is_active
        &&& (forall|s: BinarySpongeHashingState| binvt(a, s) ==> #[trigger] rounds_of(TOTAL_POSEIDON_ROUNDS as nat, s) == a.state)
        &&& queued(old(commitment_hash_queue), final(commitment_hash_queue), old(metadata_queue), final(metadata_queue), u_of(a.state.0[0]), a.metadata, fee_version, a.min_batching_rate)
        &&& final(w).ev@ =~= old(w).ev@.insert(Ev::Pda { from: *pool.key, to: *original_fee_payer.key, n: base_fee(fee.program_fee) }).insert(Ev::Close { acc: *hashing_account_info.key, to: *original_fee_payer.key })
    })
//@top
    proof { btable_ok(); }
//@end
}
fn main(){}
}
