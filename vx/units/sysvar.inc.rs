//@note the instructions sysvar: a transaction has fewer than 2^16 instructions and contains the instruction being executed
pub struct AccountMeta { pub pubkey: Pubkey, pub is_signer: bool, pub is_writable: bool }
pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<AccountMeta>, pub data: Vec<u8> }
#[verifier::external_body] pub fn veq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// indexing: aborts out of range
pub fn vat<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i < v.len() { &v[i] } else { abort() } }
pub trait InstructionsSysvar {
    spec fn cur(&self) -> Option<u16>;
    spec fn at(&self, i: int) -> Option<Instruction>;
    proof fn lem(&self, i: int) ensures self.at(i) is Some ==> 0 <= i < 0x1_0000, self.cur() is Some ==> self.at(self.cur()->Some_0 as int) is Some;
    fn current_index(&self) -> (r: Result<u16, ProgramError>) ensures r is Ok <==> self.cur() is Some, r is Ok ==> r->Ok_0 == self.cur()->Some_0;
    fn instruction_at_index(&self, index: usize) -> (r: Result<Instruction, ProgramError>) ensures r is Ok <==> self.at(index as int) is Some, r is Ok ==> r->Ok_0 == self.at(index as int)->Some_0;
//@fn elusiv/src/processor/utils.rs in "trait InstructionsSysvar" find_instruction_count
//@props V10
//@ret r
//@spec
    ensures r is Ok <==> self.cur() is Some,
        r is Ok ==> self.cur()->Some_0 < r->Ok_0 <= 0x1_0000 && self.at(r->Ok_0 as int) is None && forall|i: int| self.cur()->Some_0 <= i < r->Ok_0 ==> (#[trigger] self.at(i)) is Some
//@loop 1
    invariant_except_break self.cur() is Some, self.cur()->Some_0 <= index <= 0x1_0000, forall|i: int| self.cur()->Some_0 <= i < index ==> (#[trigger] self.at(i)) is Some
    ensures self.cur()->Some_0 <= index <= 0x1_0000, self.at(index as int) is None, forall|i: int| self.cur()->Some_0 <= i < index ==> (#[trigger] self.at(i)) is Some
    decreases 0x1_0000 - index
//@looptop 1
    proof { self.lem(index as int); }
//@afterloop 1
    proof { self.lem(index as int); }
//@end
}
pub uninterp spec fn sv_cur(k: Pubkey) -> Option<u16>;
pub uninterp spec fn sv_at(k: Pubkey, i: int) -> Option<Instruction>;
pub struct DefaultInstructionsSysvar<'a, 'b>(pub &'a AccountInfo<'b>);
impl<'a, 'b> InstructionsSysvar for DefaultInstructionsSysvar<'a, 'b> {
    open spec fn cur(&self) -> Option<u16> { sv_cur(*self.0.key) }
    open spec fn at(&self, i: int) -> Option<Instruction> { sv_at(*self.0.key, i) }
    #[verifier::external_body] proof fn lem(&self, i: int) {}
    #[verifier::external_body] fn current_index(&self) -> (r: Result<u16, ProgramError>) { unimplemented!() }
    #[verifier::external_body] fn instruction_at_index(&self, index: usize) -> (r: Result<Instruction, ProgramError>) { unimplemented!() }
}
/// instruction i is the named instruction of this program for verification v
pub open spec fn is_ix<I: InstructionsSysvar>(s: &I, i: int, variant: u8, v: u8) -> bool {
    s.at(i) is Some && s.at(i)->Some_0.program_id == id_s() && s.at(i)->Some_0.data@.len() >= 2 && s.at(i)->Some_0.data@[0] == variant && s.at(i)->Some_0.data@[1] == v
}
/// a finalization followed by n nullifier insertions and the payout, in one transaction
pub open spec fn sequence<I: InstructionsSysvar>(s: &I, n: int, lamports: bool, v: u8) -> bool {
    s.cur() is Some && n >= 0 && {
        let c = s.cur()->Some_0 as int;
        &&& is_ix(s, c, ElusivInstruction::FINALIZE_VERIFICATION_SEND_INDEX, v)
        &&& forall|k: int| 0 < k <= n ==> #[trigger] is_ix(s, c + k, ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX, v)
        &&& is_ix(s, c + n + 1, if lamports { ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX } else { ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX }, v)
    }
}
//@fn elusiv/src/processor/proof.rs verify_finalize_send_instruction
//@props V10
//@rw ix\.data\[(\d+)\] => *vat(&ix.data, \1)
//@ret r
//@spec
    ensures r is Ok ==> is_ix(instruction_sysvar, ix_index as int, expected_variant_index, verification_account_index),
        r is Err ==> !is_ix(instruction_sysvar, ix_index as int, expected_variant_index, verification_account_index)
//@end
//@fn elusiv/src/processor/proof.rs enforce_finalize_send_instructions_inner
//@props V10
//@ret r
//@spec
    ensures r is Ok ==> exists|n: int| sequence(instruction_sysvar, n, uses_lamports, verification_account_index)
//@loop 1
    invariant_except_break insertion_ix_count <= 0x1_0000,
        is_ix(instruction_sysvar, current_ix_index as int, ElusivInstruction::FINALIZE_VERIFICATION_SEND_INDEX, verification_account_index),
        instruction_sysvar.cur() is Some, current_ix_index == instruction_sysvar.cur()->Some_0,
        forall|k: int| 0 < k <= insertion_ix_count ==> #[trigger] is_ix(instruction_sysvar, current_ix_index + k, ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX, verification_account_index)
    ensures insertion_ix_count <= 0x1_0000,
        is_ix(instruction_sysvar, current_ix_index as int, ElusivInstruction::FINALIZE_VERIFICATION_SEND_INDEX, verification_account_index),
        instruction_sysvar.cur() is Some, current_ix_index == instruction_sysvar.cur()->Some_0,
        forall|k: int| 0 < k <= insertion_ix_count ==> #[trigger] is_ix(instruction_sysvar, current_ix_index + k, ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX, verification_account_index),
        !is_ix(instruction_sysvar, current_ix_index + insertion_ix_count + 1, ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX, verification_account_index)
    decreases 0x1_0000 - insertion_ix_count
//@looptop 1
    proof { instruction_sysvar.lem(current_ix_index + insertion_ix_count + 1); }
//@before Ok\(\(\)\)\s*$
    proof { assert(sequence(instruction_sysvar, insertion_ix_count as int, uses_lamports, verification_account_index)); }
//@end
//@fn elusiv/src/processor/proof.rs enforce_finalize_send_instructions
//@props V10
//@rw cfg!\(test\) => false
//@ret r
//@spec
    ensures r is Ok ==> followed(&DefaultInstructionsSysvar(instructions_account), uses_lamports, verification_account_index)
//@end
/// the instruction at `index` is `e` (its data possibly excepted): same program, same accounts, at least the expected privileges
pub open spec fn same_ix(a: Instruction, e: Instruction, ignore_data: bool) -> bool {
    a.program_id == e.program_id && (ignore_data || a.data@ == e.data@) && a.accounts@.len() >= e.accounts@.len()
    && forall|i: int| 0 <= i < e.accounts@.len() ==> (#[trigger] a.accounts@[i]).pubkey == e.accounts@[i].pubkey && (e.accounts@[i].is_signer ==> a.accounts@[i].is_signer) && (e.accounts@[i].is_writable ==> a.accounts@[i].is_writable)
}
//@fn elusiv/src/processor/proof.rs enforce_instruction
//@props V10 V08 V09
//@rw instruction\.data == expected\.data => veq(&instruction.data, &expected.data)
//@rw instruction\.accounts\[i\] => vat(&instruction.accounts, i)
//@desugar 1
//@ret r
//@spec
    ensures r is Ok ==> instruction_sysvar.at(index as int) == Some(r->Ok_0) && same_ix(r->Ok_0, *expected, ignore_data)
//@loop 1
    invariant it1@ == expected.accounts@, i_next <= expected.accounts@.len(), instruction_sysvar.at(index as int) == Some(instruction), instruction.program_id == expected.program_id, ignore_data || instruction.data@ == expected.data@,
        instruction.accounts@.len() >= i_next,
        forall|i: int| 0 <= i < i_next ==> (#[trigger] instruction.accounts@[i]).pubkey == expected.accounts@[i].pubkey && (expected.accounts@[i].is_signer ==> instruction.accounts@[i].is_signer) && (expected.accounts@[i].is_writable ==> instruction.accounts@[i].is_writable)
    decreases expected.accounts@.len() - i_next
//@end
pub uninterp spec fn memo_program() -> Pubkey;
/// i is the last instruction of the transaction (from the current one on)
pub open spec fn last_ix<I: InstructionsSysvar>(s: &I, i: int) -> bool { s.cur() is Some && s.cur()->Some_0 <= i && s.at(i + 1) is None && forall|k: int| s.cur()->Some_0 <= k <= i ==> (#[trigger] s.at(k)) is Some }
/// m is the data of the memo that precedes the last instruction c (if that is the forwarded payment) or is the last instruction
pub open spec fn memo_place<I: InstructionsSysvar>(s: &I, c: int, pay: bool, m: Seq<u8>) -> bool {
    let x = s.at(if pay { c - 1 } else { c });
    last_ix(s, c) && x is Some && x->Some_0.program_id == memo_program() && m == x->Some_0.data@
}
//@note memo_instruction is proved in unit basics
#[verifier::external_body] pub fn memo_instruction(memo: &[u8]) -> (r: Instruction) ensures r.program_id == memo_program(), r.accounts@.len() == 0, r.data@ == memo@ { unimplemented!() }
//@fn elusiv/src/processor/proof.rs get_memo_from_instructions
//@props V10
//@rw instruction_count - (\d) => instruction_count.wrapping_sub(\1)
//@rw memo_instruction\(&\[\]\) => memo_instruction(empty_slice())
//@ret r
//@spec
    ensures r is Ok ==> memo_at(instruction_sysvar, true, solana_pay_transfer, r->Ok_0@)
//@before Ok\(instruction\.data\)
    let ghost m = instruction.data@; proof { assert(instruction_sysvar.at(memo_index as int) is Some); instruction_sysvar.lem(memo_index as int); let c = instruction_count - 1; assert(last_ix(instruction_sysvar, c)); assert(memo_place(instruction_sysvar, c, solana_pay_transfer, m)); }
//@end
#[verifier::external_body] pub fn empty_slice() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
