//@include common.rs
verus! {
//@include pda.inc.rs
//@note create_account succeeds only on an account without lamports; the payer and the new account have signed, the latter by the signer seeds of the calling program; the new data are zero
//@note BorshSerialize of PDAAccountData writes the bump and the version at the start of the data (E01)
pub enum Ev { Create { payer: Pubkey, acc: Pubkey, lamports: u64, space: u64, owner: Pubkey } }
pub struct World { pub ev: Ghost<Seq<Ev>>, pub lam: Ghost<Map<Pubkey, u64>>, pub dat: Ghost<Map<Pubkey, Seq<u8>>> }
pub struct PDAAccountData { pub bump_seed: u8, pub version: u8 }
pub struct Instr { pub ev: Ghost<Ev> }
#[verifier::external_body] pub fn create_account_ix(payer: &Pubkey, acc: &Pubkey, lamports: u64, space: u64, owner: &Pubkey) -> (r: Instr) ensures r.ev@ == (Ev::Create { payer: *payer, acc: *acc, lamports, space, owner: *owner }) { unimplemented!() }
#[verifier::external_body] pub fn invoke_signed(w: &mut World, i: &Instr, seeds: &Vec<Vec<u8>>) -> (r: ProgramResult)
    ensures r is Ok ==> final(w).ev@ == old(w).ev@.push(i.ev@) && cpa(dv(seeds@), pid()) == Some(i.ev@->acc) && old(w).lam@[i.ev@->acc] == 0
            && final(w).dat@ == old(w).dat@.insert(i.ev@->acc, Seq::new(i.ev@->space as nat, |k: int| 0u8)),
        r is Err ==> final(w).dat@ == old(w).dat@ { unimplemented!() }
impl World {
    #[verifier::external_body] pub fn lamports(&self, a: &AccountInfo) -> (r: u64) ensures r == self.lam@[*a.key] { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, a: &AccountInfo, x: PDAAccountData) -> (r: Result<(), ProgramError>)
        ensures final(self).ev == old(self).ev, final(self).lam == old(self).lam, r is Ok ==> old(self).dat@[*a.key].len() >= 2 && final(self).dat@ == old(self).dat@.insert(*a.key, seq![x.bump_seed, x.version] + old(self).dat@[*a.key].skip(2)) { unimplemented!() }
}
pub struct Rent { x: u8 }
pub uninterp spec fn rent_of(n: int) -> u64;
impl Rent {
    #[verifier::external_body] pub fn get() -> Result<Rent, ProgramError> { unimplemented!() }
    #[verifier::external_body] pub fn minimum_balance(&self, n: usize) -> (r: u64) ensures r == rent_of(n as int) { unimplemented!() }
}
#[verifier::external_body] pub fn usize_to_u64(n: usize) -> (r: u64) ensures r == n { unimplemented!() }
pub trait SizedAccount { spec fn size() -> int; fn size_x() -> (r: usize) ensures r == Self::size(); }
/// the account now exists: rent exempt, of this size and owner, the bump stored, everything else zero, paid by the payer
pub open spec fn opened(a: &World, b: &World, owner: Pubkey, payer: &AccountInfo, acc: &AccountInfo, size: int, bump: u8) -> bool {
    &&& a.lam@[*acc.key] == 0
    &&& b.ev@ == a.ev@.push(Ev::Create { payer: *payer.key, acc: *acc.key, lamports: rent_of(size), space: size as u64, owner })
    &&& size >= 2 && b.dat@ == a.dat@.insert(*acc.key, seq![bump, 0u8] + Seq::new((size - 2) as nat, |k: int| 0u8))
}
/// for a role: at the address that the signer seeds of the role give, the canonical one unless a bump is given
pub open spec fn opened_as<T: Seeded>(a: &World, b: &World, owner: Pubkey, payer: &AccountInfo, acc: &AccountInfo, key: Option<Pubkey>, off: PDAOffset, bump: Option<u8>, size: int) -> bool {
    let n = match bump { Some(x) => x, None => canon::<T>(key, off).1 };
    &&& role::<T>(*acc.key, key, off) && cpa(seeds_s(T::seed(), key, off).push(seq![n]), pid()) == Some(*acc.key)
    &&& bump is None ==> frole::<T>(*acc.key, key, off)
    &&& opened(a, b, owner, payer, acc, size, n)
}
//@fn shared/elusiv-utils/src/lib.rs create_pda_account
//@props G03
//@sig pub fn create_pda_account<'a>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, pda_account: &AccountInfo<'a>, account_size: usize, bump: u8, signers_seeds: &Vec<Vec<u8>>) -> ProgramResult
//@rw if cfg!\(feature = "test-unit"\) \{\s*return Ok\(\(\)\);\s*\} =>
//@rw account_size\.try_into\(\)\.ok_or_abort\(\) => usize_to_u64(account_size)
//@rw payer\.lamports\(\) => w.lamports(payer)
//@rw &system_instruction::create_account\( => &create_account_ix(
//@rw invoke_signed\( => invoke_signed(w,
//@rw &\[payer\.clone\(\), pda_account\.clone\(\)\],\s*&\[signers_seeds\] => signers_seeds
//@rw let mut data = &mut pda_account\.data\.borrow_mut\(\)\[\.\.\]; => let ghost mid = *w;
//@rw borsh::BorshSerialize::serialize\(\s*&PDAAccountData \{(.*?)\},\s*&mut data,?\s*\) => w.put(pda_account, PDAAccountData {\1})
//@ret r
//@spec
    ensures r is Ok ==> opened(old(w), final(w), *program_id, payer, pda_account, account_size as int, bump) && cpa(dv(signers_seeds@), pid()) == Some(*pda_account.key) && old(w).lam@[*payer.key] >= rent_of(account_size as int)
//@before Ok\(\(\)\)\s*\}?\s*$
    proof {
        let z = Seq::new(account_size as nat, |k: int| 0u8); let k = *pda_account.key; let q = seq![bump, 0u8] + Seq::new((account_size - 2) as nat, |k: int| 0u8);
        assert(account_size as u64 as nat == account_size as nat);
        assert(seq![bump, 0u8] + z.skip(2) =~= q);
        assert(mid.dat@ =~= old(w).dat@.insert(k, z));
        assert(mid.dat@[k] == z);
        assert(w.dat@ =~= mid.dat@.insert(k, q));
        assert(w.dat@ =~= old(w).dat@.insert(k, q));
    }
//@end
//@fn shared/elusiv-utils/src/lib.rs open_pda_account
//@props G03
//@sig pub fn open_pda_account<'a, T: PDAAccount>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, pda_account: &AccountInfo<'a>, pda_pubkey: Option<Pubkey>, pda_offset: PDAOffset, bump: Option<u8>, account_size: usize) -> ProgramResult
//@rw let signers_seeds = signers_seeds!\(seeds\); => let signers_seeds = seeds;
//@rw create_pda_account\( => create_pda_account(w,
//@ret r
//@spec
    ensures r is Ok ==> opened_as::<T>(old(w), final(w), *program_id, payer, pda_account, pda_pubkey, pda_offset, bump, account_size as int)
//@top
    proof { reveal(role); }
//@end
//@fn shared/elusiv-utils/src/lib.rs open_pda_account_with_offset
//@props G03
//@sig pub fn open_pda_account_with_offset<'a, T: PDAAccount + SizedAccount>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, pda_account: &AccountInfo<'a>, pda_offset: u32, bump: Option<u8>) -> ProgramResult
//@rw open_pda_account::<T>\( => open_pda_account::<T>(w,
//@rw T::SIZE => T::size_x()
//@ret r
//@spec
    ensures r is Ok ==> opened_as::<T>(old(w), final(w), *program_id, payer, pda_account, None, Some(pda_offset), bump, T::size())
//@end
//@fn shared/elusiv-utils/src/lib.rs open_pda_account_without_offset
//@props G03
//@sig pub fn open_pda_account_without_offset<'a, T: PDAAccount + SizedAccount>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, pda_account: &AccountInfo<'a>, bump: Option<u8>) -> ProgramResult
//@rw open_pda_account::<T>\( => open_pda_account::<T>(w,
//@rw T::SIZE => T::size_x()
//@ret r
//@spec
    ensures r is Ok ==> opened_as::<T>(old(w), final(w), *program_id, payer, pda_account, None, None, bump, T::size())
//@end
//@fn shared/elusiv-utils/src/lib.rs open_pda_account_with_associated_pubkey
//@props G03
//@sig pub fn open_pda_account_with_associated_pubkey<'a, T: PDAAccount + SizedAccount>(w: &mut World, program_id: &Pubkey, payer: &AccountInfo<'a>, pda_account: &AccountInfo<'a>, pubkey: &Pubkey, pda_offset: PDAOffset, bump: Option<u8>) -> ProgramResult
//@rw open_pda_account::<T>\( => open_pda_account::<T>(w,
//@rw T::SIZE => T::size_x()
//@ret r
//@spec
    ensures r is Ok ==> opened_as::<T>(old(w), final(w), *program_id, payer, pda_account, Some(*pubkey), pda_offset, bump, T::size())
//@end
fn main(){}
}
