//@note the ledger: World records every movement of funds the real primitives perform (a bag of events) and the lamports of every account; a CPI that returns Ok performed the instruction it was given; an instruction that fails is rolled back by the runtime
#[derive(Clone)]
pub struct AccountInfo<'a> { pub key: &'a Pubkey, pub owner: &'a Pubkey, pub is_signer: bool, pub is_writable: bool, pub x: &'a Pubkey }
impl<'a> AccountInfo<'a> { #[verifier::external_body] pub fn data_len(&self) -> usize { unimplemented!() } }
pub enum Ev {
    /// lamports moved by the system program, authorized by the signature of `from`
    Sys { from: Pubkey, to: Pubkey, n: int },
    /// tokens moved by the token program; pda: authorized by the seeds of this kind of account
    Spl { auth: Pubkey, from: Pubkey, to: Pubkey, n: int, pda: Option<int> },
    /// lamports of an account of this program moved directly
    Pda { from: Pubkey, to: Pubkey, n: int },
    /// all lamports of an account moved
    Close { acc: Pubkey, to: Pubkey },
    Open { kind: int, acc: Pubkey, payer: Pubkey, pubkey: Option<Pubkey>, offset: Option<u32>, bump: Option<u8> },
    Ata { payer: Pubkey, wallet: Pubkey, ata: Pubkey, mint: Pubkey },
}
pub type Bag = vstd::multiset::Multiset<Ev>;
pub struct World { pub ev: Ghost<Bag>, pub lam: Ghost<Map<Pubkey, u64>>, pub dat: Ghost<Map<Pubkey, Seq<u8>>> }
pub open spec fn mv(m: Map<Pubkey, u64>, a: Pubkey, b: Pubkey, n: u64) -> Map<Pubkey, u64> { let x = m.insert(a, (m[a] - n) as u64); x.insert(b, (x[b] + n) as u64) }
impl World {
    #[verifier::external_body] pub fn lamports(&self, a: &AccountInfo) -> (r: u64) ensures r == self.lam@[*a.key] { unimplemented!() }
    #[verifier::external_body] pub fn set_lamports(&mut self, a: &AccountInfo, n: u64) -> (r: Result<(), ProgramError>) ensures final(self).ev == old(self).ev, final(self).dat == old(self).dat, r is Ok ==> final(self).lam@ == old(self).lam@.insert(*a.key, n) { unimplemented!() }
}
pub struct Rent { x: u8 }
pub uninterp spec fn rent_of(n: int) -> u64;
impl Rent {
    #[verifier::external_body] pub fn get() -> Result<Rent, ProgramError> { unimplemented!() }
    #[verifier::external_body] pub fn minimum_balance(&self, n: usize) -> (r: u64) ensures r == rent_of(n as int) { unimplemented!() }
}
pub uninterp spec fn id_s() -> Pubkey;
#[verifier::external_body] pub fn id() -> (r: Pubkey) ensures r == id_s() { unimplemented!() }
pub uninterp spec fn spl_id_s() -> Pubkey;
#[verifier::external_body] pub fn spl_id() -> (r: Pubkey) ensures r == spl_id_s() { unimplemented!() }
pub uninterp spec fn sys_id_s() -> Pubkey;
#[verifier::external_body] pub fn sys_id() -> (r: Pubkey) ensures r == sys_id_s() { unimplemented!() }
pub const MATH_ERR: ProgramError = ProgramError::Other(222);
pub const SPL_ACCOUNT_LEN: usize = 165;
pub type PDAOffset = Option<u32>;
/// kinds of program derived accounts
pub trait PDAAccount { spec fn kind() -> int; }
pub struct FeeCollectorAccount; impl PDAAccount for FeeCollectorAccount { open spec fn kind() -> int { 1 } }
pub struct PoolAccount; impl PDAAccount for PoolAccount { open spec fn kind() -> int { 2 } }

// cross program invocations: an instruction and what it does
pub enum Ix { Sys { from: Pubkey, to: Pubkey, n: int }, Spl { auth: Pubkey, from: Pubkey, to: Pubkey, n: int }, Ata { payer: Pubkey, wallet: Pubkey, mint: Pubkey } }
pub struct Instr { pub ix: Ghost<Ix> }
#[verifier::external_body] pub fn sys_transfer_ix(from: &Pubkey, to: &Pubkey, n: u64) -> (r: Instr) ensures r.ix@ == (Ix::Sys { from: *from, to: *to, n: n as int }) { unimplemented!() }
#[verifier::external_body] pub fn spl_transfer_ix(program: &Pubkey, from: &Pubkey, to: &Pubkey, auth: &Pubkey, n: u64) -> (r: Result<Instr, ProgramError>) ensures r is Ok ==> r->Ok_0.ix@ == (Ix::Spl { auth: *auth, from: *from, to: *to, n: n as int }) { unimplemented!() }
pub uninterp spec fn ata_of(wallet: Pubkey, mint: Pubkey) -> Pubkey;
#[verifier::external_body] pub fn get_associated_token_address(wallet: &Pubkey, mint: &Pubkey) -> (r: Pubkey) ensures r == ata_of(*wallet, *mint) { unimplemented!() }
#[verifier::external_body] pub fn create_ata_ix(payer: &Pubkey, wallet: &Pubkey, mint: &Pubkey) -> (r: Instr) ensures r.ix@ == (Ix::Ata { payer: *payer, wallet: *wallet, mint: *mint }) { unimplemented!() }
pub open spec fn effect(i: Ix, pda: Option<int>) -> Ev { match i { Ix::Sys { from, to, n } => Ev::Sys { from, to, n }, Ix::Spl { auth, from, to, n } => Ev::Spl { auth, from, to, n, pda }, Ix::Ata { payer, wallet, mint } => Ev::Ata { payer, wallet, ata: ata_of(wallet, mint), mint } } }
pub struct Seeds { pub kind: Ghost<int> }
#[verifier::external_body] pub fn invoke(w: &mut World, i: &Instr) -> (r: ProgramResult) ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(effect(i.ix@, None)) { unimplemented!() }
#[verifier::external_body] pub fn invoke_signed(w: &mut World, i: &Instr, seeds: Seeds) -> (r: ProgramResult) ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(effect(i.ix@, Some(seeds.kind@))) { unimplemented!() }
#[verifier::external_body] pub fn pda_seeds<T: PDAAccount>(source: &AccountInfo, pda_pubkey: Option<Pubkey>, pda_offset: PDAOffset) -> (r: Seeds) ensures r.kind@ == T::kind() { unimplemented!() }
//@note open_pda_account_*: creation of the account at the derived address and its bump is one event; the functions themselves are under contract in unit open (G03)
#[verifier::external_body] pub fn open_pda_account_with_offset<'a, T: PDAAccount>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, acc: &AccountInfo<'a>, pda_offset: u32, bump: Option<u8>) -> (r: ProgramResult)
    requires *program_id == id_s() ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: T::kind(), acc: *acc.key, payer: *payer.key, pubkey: None, offset: Some(pda_offset), bump }) { unimplemented!() }
#[verifier::external_body] pub fn open_pda_account_with_associated_pubkey<'a, T: PDAAccount>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, acc: &AccountInfo<'a>, pubkey: &Pubkey, pda_offset: PDAOffset, bump: Option<u8>) -> (r: ProgramResult)
    requires *program_id == id_s() ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: T::kind(), acc: *acc.key, payer: *payer.key, pubkey: Some(*pubkey), offset: pda_offset, bump }) { unimplemented!() }

pub open spec fn pay(source: &AccountInfo, source_acc: &AccountInfo, dest: &AccountInfo, t: Token) -> Ev {
    match t { Token::Lamports(l) => Ev::Sys { from: *source.key, to: *dest.key, n: l.0 as int }, Token::SPLToken(s) => Ev::Spl { auth: *source.key, from: *source_acc.key, to: *dest.key, n: s.amount as int, pda: None } }
}
pub open spec fn pda_pay(source: &AccountInfo, source_acc: &AccountInfo, dest: &AccountInfo, t: Token, kind: int) -> Ev {
    match t { Token::Lamports(l) => Ev::Pda { from: *source.key, to: *dest.key, n: l.0 as int }, Token::SPLToken(s) => Ev::Spl { auth: *source.key, from: *source_acc.key, to: *dest.key, n: s.amount as int, pda: Some(kind) } }
}
//@fn shared/elusiv-utils/src/lib.rs transfer_with_system_program
//@world
//@props D01 V04
//@rw solana_program::system_program::ID => sys_id()
//@rw solana_program::system_instruction::transfer\( => sys_transfer_ix(
//@rw solana_program::program::invoke\((.*?),\s*&\[[^\]]*\],?\s*\) => invoke(\1)
//@ret r
//@spec
    ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Sys { from: *source.key, to: *destination.key, n: lamports as int })
//@end
//@fn shared/elusiv-utils/src/lib.rs transfer_lamports_from_pda
//@world
//@rw \.ok_or\(MATH_ERR\) => .or_math()
//@sig pub fn transfer_lamports_from_pda<'a>(pda: &AccountInfo<'a>, recipient: &AccountInfo<'a>, lamports: u64) -> ProgramResult
//@ret r
//@spec
    ensures final(w).ev == old(w).ev, final(w).dat == old(w).dat, r is Ok ==> final(w).lam@ == mv(old(w).lam@, *pda.key, *recipient.key, lamports) && old(w).lam@[*pda.key] >= lamports && (*pda.key != *recipient.key ==> old(w).lam@[*recipient.key] + lamports <= u64::MAX)
//@end
pub trait OrMath: Sized { type X; spec fn ov(self) -> Option<Self::X>; fn or_math(self) -> (r: Result<Self::X, ProgramError>) ensures r is Ok <==> self.ov() is Some, r is Ok ==> Some(r->Ok_0) == self.ov(); }
impl<X> OrMath for Option<X> { type X = X; open spec fn ov(self) -> Option<X> { self } fn or_math(self) -> (r: Result<X, ProgramError>) { match self { Some(x) => Ok(x), None => Err(ProgramError::Other(222)) } } }
//@fn shared/elusiv-utils/src/lib.rs transfer_lamports_from_pda_checked
//@world
//@props C01 D03 V07 V08 V09
//@rw \.ok_or\(MATH_ERR\) => .or_math()
//@rw cfg!\([^()]*\) => false
//@rw unsafe \{(.*)\} => let r = { \1 }; /*END*/ r
//@ret r
//@spec
    ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Pda { from: *pda.key, to: *recipient.key, n: lamports as int })
        && final(w).lam@ == mv(old(w).lam@, *pda.key, *recipient.key, lamports) && old(w).lam@[*pda.key] >= lamports
//@before /\*END\*/
    proof { if r is Ok { w.ev@ = w.ev@.insert(Ev::Pda { from: *pda.key, to: *recipient.key, n: lamports as int }); } }
//@end
//@fn shared/elusiv-utils/src/lib.rs close_account
//@world
//@props D03 V07 V08 V09
//@rw unsafe \{(.*)\} => let r = { \1 }; /*END*/ r
//@rw transfer_lamports_from_pda\(w, account, payer, w\.lamports\(account\)\) => let l = w.lamports(account); transfer_lamports_from_pda(w, account, payer, l)
//@ret r
//@spec
    ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Close { acc: *account.key, to: *payer.key })
        && final(w).lam@ == mv(old(w).lam@, *account.key, *payer.key, old(w).lam@[*account.key]) && final(w).dat == old(w).dat
//@before /\*END\*/
    proof { if r is Ok { w.ev@ = w.ev@.insert(Ev::Close { acc: *account.key, to: *payer.key }); } }
//@end
//@fn elusiv/src/processor/utils.rs transfer_with_token_program
//@world
//@props D01 V04 V09
//@sig fn transfer_with_token_program<'a>(source: &AccountInfo<'a>, source_token_account: &AccountInfo<'a>, destination_token_account: &AccountInfo<'a>, token_program: &AccountInfo<'a>, amount: u64, signers_seeds: Option<Seeds>) -> ProgramResult
//@rw spl_token::ID => spl_id()
//@rw spl_token::instruction::transfer\(\s*&spl_token::id\(\), => spl_transfer_ix(&spl_id(),
//@rw &\[source\.key\],\s* => 
//@rw solana_program::program::invoke(\w*)\(w, (.*?),\s*&\[[^\]]*\] => invoke\1(w, \2
//@ret r
//@spec
    ensures r is Ok ==> *token_program.key == spl_id_s()
        && final(w).ev@ == old(w).ev@.insert(Ev::Spl { auth: *source.key, from: *source_token_account.key, to: *destination_token_account.key, n: amount as int, pda: match signers_seeds { Some(s) => Some(s.kind@), None => None } })
//@end
//@fn elusiv/src/processor/utils.rs transfer_token
//@world
//@props D01 V04
//@ret r
//@spec
    ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(pay(source, source_token_account, destination, token))
//@end
//@fn elusiv/src/processor/utils.rs transfer_token_from_pda
//@world
//@props D01 V04 V07 V08 V09
//@rw let bump = T::get_bump\(source\);\s*let seeds = T::signers_seeds\(pda_pubkey, pda_offset, bump\);\s*let signers_seeds = signers_seeds!\(seeds\); => let signers_seeds = pda_seeds::<T>(source, pda_pubkey, pda_offset);
//@rw Some\(&\[&signers_seeds\]\) => Some(signers_seeds)
//@ret r
//@spec
    ensures r is Ok ==> *source.owner == id_s() && final(w).ev@ == old(w).ev@.insert(pda_pay(source, source_token_account, destination, token, T::kind()))
//@end
//@fn elusiv/src/processor/utils.rs verify_program_token_account
//@props D01 V04 V09
//@ret r
//@spec
    ensures r is Ok ==> (token_id == 0 ==> *owner_pda.key == *token_account.key) && (token_id != 0 ==> token_id < TOKENS_LEN && *token_account.key == ata_of(*owner_pda.key, token_spec(token_id as int).mint))
//@end
//@fn elusiv/src/processor/utils.rs create_associated_token_account
//@world
//@props V09
//@rw &spl_associated_token_account::instruction::create_associated_token_account\((.*?),\s*&spl_token::ID,\s*\),\s*&\[[^\]]*\], => &create_ata_ix(\1)
//@ret r
//@spec
    ensures r is Ok ==> token_id < TOKENS_LEN && final(w).ev@ == old(w).ev@.insert(Ev::Ata { payer: *payer.key, wallet: *wallet_account.key, ata: ata_of(*wallet_account.key, token_spec(token_id as int).mint), mint: token_spec(token_id as int).mint })
//@end
//@fn elusiv/src/processor/utils.rs system_program_account_rent
//@props D03 V04 V08 V09
//@rw #\[cfg\(test\)\]\s*\{[^{}]*\} =>
//@rw #\[cfg\(not\(test\)\)\] =>
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.0 == rent_of(0)
//@end
//@fn elusiv/src/processor/utils.rs spl_token_account_rent
//@rw spl_token::state::Account::LEN => SPL_ACCOUNT_LEN
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.0 == rent_of(165)
//@end
