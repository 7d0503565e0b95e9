pub struct AccountMeta { pub pubkey: Pubkey, pub is_signer: bool, pub is_writable: bool }
pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<AccountMeta>, pub data: Vec<u8> }
/// indexing: aborts out of range
pub fn vat<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i < v.len() { &v[i] } else { abort() } }
//@note solana_program::sysvar::instructions: load_current_index_checked / load_instruction_at_checked read the transaction (uninterpreted functions of the sysvar account)
pub uninterp spec fn sv_cur(k: Pubkey) -> Option<u16>;
pub uninterp spec fn sv_at(k: Pubkey, i: int) -> Option<Instruction>;
pub mod instructions { use super::*;
    #[verifier::external_body] pub fn load_current_index_checked(a: &AccountInfo) -> (r: Result<u16, ProgramError>) ensures r is Ok <==> sv_cur(*a.key) is Some, r is Ok ==> r->Ok_0 == sv_cur(*a.key)->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn load_instruction_at_checked(i: usize, a: &AccountInfo) -> (r: Result<Instruction, ProgramError>) ensures r is Ok <==> sv_at(*a.key, i as int) is Some, r is Ok ==> r->Ok_0 == sv_at(*a.key, i as int)->Some_0 { unimplemented!() }
}
pub uninterp spec fn elusiv_id_s() -> Pubkey;
#[verifier::external_body] pub fn elusiv_id() -> (r: Pubkey) ensures r == elusiv_id_s() { unimplemented!() }
pub fn in_range(a: u32, b: u32, x: &u32) -> (r: bool) ensures r == (a <= *x <= b) { a <= *x && *x <= b }
pub open spec fn can_inc(s: WardenStatistics, day: int) -> bool { 1 <= day <= 366 && s.total < u32::MAX && s.activity@[day - 1] < u32::MAX }
/// one more activity on the day
pub open spec fn inced(o: WardenStatistics, n: WardenStatistics, day: int) -> bool { n.total == o.total + 1 && n.activity@ =~= o.activity@.update(day - 1, (o.activity@[day - 1] + 1) as u32) }
impl WardenStatistics {
//@fn elusiv-warden-network/src/warden.rs in "impl WardenStatistics" inc
//@props W03
//@rw \((\w+)\.\.=(\w+)\)\.contains\(&(\w+)\) => in_range(\1, \2, &\3)
//@ret r
//@spec
    ensures r is Ok <==> can_inc(*old(self), day as int), r is Ok ==> inced(*old(self), *final(self), day as int) && *r->Ok_0 == *final(self)
//@end
}
//@item elusiv-warden-network/src/processor/basic_warden.rs "struct TrackableElusivInstruction"
//@const elusiv-warden-network/src/processor/basic_warden.rs FINALIZE_BASE_COMMITMENT_HASH_INSTRUCTION
//@py instruction_indices
//@py account_positions elusiv/src/instruction.rs ElusivInstruction "STORE_PAYER=FinalizeBaseCommitmentHash.original_fee_payer" "SEND_RECIPIENT=FinalizeVerificationTransferLamports.recipient" "TOKEN_WALLET=FinalizeVerificationTransferToken.recipient_wallet"
//@const elusiv-warden-network/src/processor/basic_warden.rs TRACKABLE_ELUSIV_INSTRUCTIONS
/// the kind of activity of a tracked instruction: Some(true) a store, Some(false) a send
pub open spec fn act_kind(ix: Instruction, k: Pubkey) -> Option<bool> {
    if ix.data@.len() == 0 || ix.program_id != elusiv_id_s() { None } else {
        let b = ix.data@[0];
        let p = if b == ElusivInstruction::FINALIZE_BASE_COMMITMENT_HASH_INDEX { STORE_PAYER } else if b == ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX { SEND_RECIPIENT } else { TOKEN_WALLET };
        if (b == ElusivInstruction::FINALIZE_BASE_COMMITMENT_HASH_INDEX || b == ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX || b == ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX)
            && p < ix.accounts@.len() && ix.accounts@[p as int].pubkey == k { Some(b == ElusivInstruction::FINALIZE_BASE_COMMITMENT_HASH_INDEX) } else { None }
    }
}
pub open spec fn prev_ix(a: &AccountInfo) -> Option<Instruction> { if sv_cur(*a.key) is Some && sv_cur(*a.key)->Some_0 > 0 { sv_at(*a.key, sv_cur(*a.key)->Some_0 - 1) } else { None } }
pub open spec fn in_year(y: int, d: int) -> bool { 2000 <= y < 2100 && year_start(y) <= d < year_start(y + 1) }
/// the day (one-based) of the year, if the time is in that year
pub open spec fn day_in(year: int) -> Option<int> { let d = now() as int / 86400; if now() >= 0 && in_year(year, d) { Some(d - year_start(year) + 1) } else { None } }
pub proof fn lemma_mono(a: int, b: int) requires 1970 <= a <= b ensures year_start(a) + 365 * (b - a) <= year_start(b) decreases b - a { if a < b { lemma_mono(a, b - 1); } }
pub open spec fn countable(k: &AccountInfo, a: &BasicWardenStatsAccount, i: &AccountInfo, year: int) -> bool {
    &&& clock_ok() && day_in(year) is Some && a.year == year && prev_ix(i) is Some && act_kind(prev_ix(i)->Some_0, *k.key) is Some
    &&& can_inc(if act_kind(prev_ix(i)->Some_0, *k.key)->Some_0 { a.store } else { a.send }, day_in(year)->Some_0)
}
pub open spec fn counted(o: &BasicWardenStatsAccount, n: &BasicWardenStatsAccount, store: bool, day: int) -> bool {
    if store { *n == (BasicWardenStatsAccount { store: n.store, last_activity_timestamp: now() as u64, ..*o }) && inced(o.store, n.store, day) }
    else { *n == (BasicWardenStatsAccount { send: n.send, last_activity_timestamp: now() as u64, ..*o }) && inced(o.send, n.send, day) }
}
//@fn elusiv-warden-network/src/processor/basic_warden.rs track_basic_warden_stats_inner
//@props W03
//@rw (\w+)\.data\[(\w+)\] => *vat(&\1.data, \2)
//@rw (\w+)\.accounts\[([^\]]*)\] => vat(&\1.accounts, \2)
//@rw \bELUSIV_PROGRAM_ID\b => elusiv_id()
//@rw \bTRACKABLE_ELUSIV_INSTRUCTIONS\b => tracked_table
//@rw (\w+)\s*\.iter\(\)\s*\.find\(\|(\w+)\|\s*(.*?)\) => find_first(&\1, |\2: &TrackableElusivInstruction| -> (b: bool) ensures b == (\3) { \3 })
//@rw (\w+)\.set_(\w+)\((\w+\.get_\w+\(\))\.inc\((\w+)\)\?\); => { let mut s = \3; let t = s.inc(\4)?; \1.set_\2(t); }
//@ret r
//@spec
    ensures r is Ok ==> countable(warden, old(stats_account), instructions_account, year as int)
            && counted(old(stats_account), final(stats_account), act_kind(prev_ix(instructions_account)->Some_0, *warden.key)->Some_0, day_in(year as int)->Some_0),
        r is Err ==> *final(stats_account) == *old(stats_account) && !countable(warden, old(stats_account), instructions_account, year as int)
//@top
    let tracked_table = TRACKABLE_ELUSIV_INSTRUCTIONS;
    proof { let d = now() as int / 86400; lemma_quad(0); lemma_quad(25);
        assert forall|y: int| in_year(y, d) implies year_start(2000) * 86400 <= d * 86400 < year_start(2100) * 86400 by { lemma_mono(2000, y); lemma_mono(y + 1, 2100); }
        assert forall|y: int, z: int| in_year(y, d) && in_year(z, d) implies y == z by { if y < z { lemma_mono(y + 1, z); } else if z < y { lemma_mono(z + 1, y); } }
    }
//@before guard!
    proof { assert(in_year(y as int, now() as int / 86400)); }
//@end
pub fn find_first<'a, F: Fn(&TrackableElusivInstruction) -> bool>(a: &'a [TrackableElusivInstruction; 3], f: F) -> (r: Option<&'a TrackableElusivInstruction>)
    requires forall|x: &TrackableElusivInstruction| #[trigger] f.requires((x,)), forall|x: &TrackableElusivInstruction, p: bool, q: bool| #[trigger] f.ensures((x,), p) && #[trigger] f.ensures((x,), q) ==> p == q
    ensures r is Some ==> exists|k: int| 0 <= k < 3 && *r->Some_0 == #[trigger] a@[k] && f.ensures((&a@[k],), true) && forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] a@[j],), false),
        r is None ==> forall|j: int| 0 <= j < 3 ==> f.ensures((&#[trigger] a@[j],), false)
{
    let mut i: usize = 0;
    while i < 3 invariant i <= 3, forall|x: &TrackableElusivInstruction| #[trigger] f.requires((x,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] a@[j],), false) decreases 3 - i
    { let b = f(&a[i]); if b { return Some(&a[i]); } i = i + 1; }
    None
}
//@fn elusiv-warden-network/src/processor/basic_warden.rs track_basic_warden_stats
//@props W03
//@rw #\[cfg\(not\(feature = "mainnet"\)\)\] => 
//@ret r
//@spec
    ensures countable(warden, old(stats_account), instructions_account, year as int) ==> r is Ok
            && counted(old(stats_account), final(stats_account), act_kind(prev_ix(instructions_account)->Some_0, *warden.key)->Some_0, day_in(year as int)->Some_0),
        !countable(warden, old(stats_account), instructions_account, year as int) ==> *final(stats_account) == *old(stats_account) && (can_fail ==> r is Err)
//@end
//@fn elusiv-warden-network/src/processor/basic_warden.rs open_basic_warden_stats_account
//@world
//@props W03
//@sig pub fn open_basic_warden_stats_account<'b>(warden: &AccountInfo, payer: &AccountInfo<'b>, mut stats_account: UnverifiedAccountInfo<'_, 'b>, year: u16, stats_account_d: &mut BasicWardenStatsAccount) -> ProgramResult
//@rw pda_account!\(\s*mut (\w+),\s*\w+,\s*(.*?)\s*\); => let _ = \2; let \1 = \1_d;
//@ret r
//@spec
    ensures r is Ok ==> *final(stats_account_d) == (BasicWardenStatsAccount { year, ..*old(stats_account_d) }),
        r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 25, acc: *stats_account.account_info.key, payer: *payer.key, pubkey: Some(*warden.key), offset: Some(year as u32), bump: None })
//@end
