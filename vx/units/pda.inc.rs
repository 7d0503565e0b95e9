#[derive(Clone, Copy)]
pub struct Pubkey { pub b: [u8; 32] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Pubkey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Pubkey { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[derive(Clone)]
pub struct AccountInfo<'a> { pub key: &'a Pubkey, pub owner: &'a Pubkey, pub is_signer: bool, pub is_writable: bool, pub x: &'a Pubkey }
impl<'a> AccountInfo<'a> { pub fn pubkey(&self) -> (r: Pubkey) ensures r == *self.key { *self.key } }
pub uninterp spec fn id_s() -> Pubkey;
#[verifier::external_body] pub fn id() -> (r: Pubkey) ensures r == id_s() { unimplemented!() }
pub type PDAOffset = Option<u32>;
//@note Pubkey::find_program_address / create_program_address: uninterpreted functions of the seeds and the program; a found address is created by its bump. The address derived from the seed alone is recomputed at every run and compared with the generated constant
pub uninterp spec fn fpa(seeds: Seq<Seq<u8>>, p: Pubkey) -> (Pubkey, u8);
pub uninterp spec fn cpa(seeds: Seq<Seq<u8>>, p: Pubkey) -> Option<Pubkey>;
pub open spec fn dv(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn find_program_address(seeds: &Vec<Vec<u8>>, p: &Pubkey) -> (r: (Pubkey, u8)) ensures r == fpa(dv(seeds@), *p) { unimplemented!() }
#[verifier::external_body] pub fn create_program_address(seeds: &Vec<Vec<u8>>, p: &Pubkey) -> (r: Result<Pubkey, ProgramError>) ensures r is Ok <==> cpa(dv(seeds@), *p) is Some, r is Ok ==> r->Ok_0 == cpa(dv(seeds@), *p)->Some_0 { unimplemented!() }
pub fn vec1(b: u8) -> (r: Vec<u8>) ensures r@ == seq![b] { let mut v = Vec::new(); v.push(b); proof { assert(v@ =~= seq![b]); } v }
pub fn vvec1(x: Vec<u8>) -> (r: Vec<Vec<u8>>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
#[verifier::external_body] pub fn vec_of(x: &[u8]) -> (r: Vec<u8>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn key_vec(k: Pubkey) -> (r: Vec<u8>) ensures r@ == k.b@ { unimplemented!() }
pub open spec fn le4(n: u32) -> Seq<u8> { seq![(n % 256) as u8, (n / 256 % 256) as u8, (n / 65536 % 256) as u8, (n / 16777216) as u8] }
#[verifier::external_body] pub fn le_vec(n: u32) -> (r: Vec<u8>) ensures r@ == le4(n) { unimplemented!() }
pub trait Seeded: Sized {
    spec fn seed() -> Seq<u8>;
    spec fn first() -> (Pubkey, u8);
    fn seed_x() -> (r: &'static [u8]) ensures r@ == Self::seed();
    fn first_x() -> (r: (Pubkey, u8)) ensures r == Self::first();
}
/// the seeds of a role: its name, the associated key, the offset
pub open spec fn seeds_s(seed: Seq<u8>, k: Option<Pubkey>, off: PDAOffset) -> Seq<Seq<u8>> {
    let a = seq![seed]; let b = match k { Some(k) => a.push(k.b@), None => a }; match off { Some(o) => b.push(le4(o)), None => b }
}
/// the address is derived for this role, key and offset
#[verifier::opaque]
pub open spec fn role<T: Seeded>(key: Pubkey, k: Option<Pubkey>, off: PDAOffset) -> bool {
    if k is None && off is None { key == T::first().0 } else { exists|bump: u8| cpa(#[trigger] seeds_s(T::seed(), k, off).push(seq![bump]), pid()) == Some(key) }
}
/// the canonical address of the role
#[verifier::opaque]
pub open spec fn frole<T: Seeded>(key: Pubkey, k: Option<Pubkey>, off: PDAOffset) -> bool {
    key == (if k is None && off is None { T::first().0 } else { fpa(seeds_s(T::seed(), k, off), pid()).0 })
}
/// the canonical address of the role and its bump
pub open spec fn canon<T: Seeded>(k: Option<Pubkey>, off: PDAOffset) -> (Pubkey, u8) { if k is None && off is None { T::first() } else { fpa(seeds_s(T::seed(), k, off), pid()) } }
/// the address that this bump gives the role
pub open spec fn with_bump<T: Seeded>(key: Pubkey, k: Option<Pubkey>, off: PDAOffset, bump: u8) -> bool { if k is None && off is None { key == T::first().0 } else { cpa(seeds_s(T::seed(), k, off).push(seq![bump]), pid()) == Some(key) } }
pub uninterp spec fn pid() -> Pubkey;
#[verifier::external_body] pub fn pid_x() -> (r: Pubkey) ensures r == pid() { unimplemented!() }
pub struct ErrOr { x: u8 }
pub trait OrInvalid: Sized { fn or_invalid(self) -> Self; }
impl OrInvalid for Result<Pubkey, ProgramError> { fn or_invalid(self) -> (r: Self) ensures r is Ok <==> self is Ok, r is Ok ==> r == self { match self { Ok(x) => Ok(x), Err(_) => Err(ProgramError::InvalidSeeds) } } }
//@note the first byte of an account's data; aborts where the account has none (the program has not created it)
pub uninterp spec fn has_data(key: Pubkey) -> bool;
#[verifier::external_body] pub fn first_byte(a: &AccountInfo) -> (r: u8) ensures has_data(*a.key) { unimplemented!() }
pub trait PDAAccount: Seeded {
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" seeds
//@props G03
//@rw vec!\[seed\.to_vec\(\)\] => vvec1(vec_of(seed))
//@rw (\w+)\.to_bytes\(\)\.to_vec\(\) => key_vec(\1)
//@rw (\w+)\.to_le_bytes\(\)\.to_vec\(\) => le_vec(\1)
//@ret r
//@spec
    ensures dv(r@) == seeds_s(seed@, pubkey, offset)
//@top
    let ghost s0 = seed@;
//@before seed\s*\}?\s*$
    proof { assert(dv(seed@) =~= seeds_s(s0, pubkey, offset)); }
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" signers_seeds
//@props G03
//@rw Self::SEED => Self::seed_x()
//@rw vec!\[bump\] => vec1(bump)
//@ret r
//@spec
    ensures dv(r@) == seeds_s(Self::seed(), pubkey, offset).push(seq![bump])
//@before seed\s*\}?\s*$
    proof { assert(dv(seed@) =~= seeds_s(Self::seed(), pubkey, offset).push(seq![bump])); }
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" find
//@props G03
//@rw Self::FIRST_PDA => Self::first_x()
//@rw Self::SEED => Self::seed_x()
//@rw let seed: Vec<&\[u8\]> = seed\.iter\(\)\.map\(\|x\| &x\[\.\.\]\)\.collect\(\); => 
//@rw Pubkey::find_program_address\(&seed, &Self::PROGRAM_ID\) => find_program_address(&seed, &pid_x())
//@ret r
//@spec
    ensures frole::<Self>(r.0, None, offset), r == canon::<Self>(None, offset)
//@top
    proof { reveal(frole); }
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" find_with_pubkey
//@props G03
//@rw Self::SEED => Self::seed_x()
//@rw let seed: Vec<&\[u8\]> = seed\.iter\(\)\.map\(\|x\| &x\[\.\.\]\)\.collect\(\); => 
//@rw Pubkey::find_program_address\(&seed, &Self::PROGRAM_ID\) => find_program_address(&seed, &pid_x())
//@ret r
//@spec
    ensures frole::<Self>(r.0, Some(pubkey), offset), r == canon::<Self>(Some(pubkey), offset)
//@top
    proof { reveal(frole); }
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" create
//@props G03
//@rw Self::FIRST_PDA => Self::first_x()
//@rw let seed: Vec<&\[u8\]> = seed\.iter\(\)\.map\(\|x\| &x\[\.\.\]\)\.collect\(\); => 
//@rw Pubkey::create_program_address\(&seed, &Self::PROGRAM_ID\) => create_program_address(&seed, &pid_x())
//@rw \.or\(Err\(ProgramError::InvalidSeeds\)\) => .or_invalid()
//@ret r
//@spec
    ensures r is Ok ==> role::<Self>(r->Ok_0, None, offset) && with_bump::<Self>(r->Ok_0, None, offset, bump)
//@top
    proof { reveal(role); }
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" create_with_pubkey
//@props G03
//@rw let seed: Vec<&\[u8\]> = seed\.iter\(\)\.map\(\|x\| &x\[\.\.\]\)\.collect\(\); => 
//@rw Pubkey::create_program_address\(&seed, &Self::PROGRAM_ID\) => create_program_address(&seed, &pid_x())
//@rw \.or\(Err\(ProgramError::InvalidSeeds\)\) => .or_invalid()
//@ret r
//@spec
    ensures r is Ok ==> role::<Self>(r->Ok_0, Some(pubkey), offset) && with_bump::<Self>(r->Ok_0, Some(pubkey), offset, bump)
//@top
    proof { reveal(role); }
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" get_bump
//@props G03
//@rw account\.data\.borrow\(\)\[0\] => first_byte(account)
//@ret r
//@spec
    ensures has_data(*account.key)
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" verify_account
//@props G03
//@ret r
//@spec
    ensures r is Ok ==> role::<Self>(*account.key, None, offset) && has_data(*account.key)
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait PDAAccount" verify_account_with_pubkey
//@props G03
//@ret r
//@spec
    ensures r is Ok ==> role::<Self>(*account.key, Some(pubkey), offset) && has_data(*account.key)
//@end
}
//@note ProgramAccount::new over the account's bytes and ParentAccount::find_child_accounts / set_child_accounts (proved in unit child, G02)
pub struct DataRef { pub of: Pubkey }
#[verifier::external_body] pub fn data_of(a: &AccountInfo) -> (r: DataRef) ensures r.of == *a.key { unimplemented!() }
pub struct Kids { pub of: Pubkey, pub owner: Pubkey, pub writable: bool }
pub struct Rest { x: u8 }
pub struct Accounts { x: u8 }
#[verifier::external_body] pub fn accounts_iter() -> Rest { unimplemented!() }
#[verifier::external_body] pub fn next<'a>(i: &mut Rest) -> (r: Result<&'a AccountInfo<'a>, ProgramError>) { unimplemented!() }
pub trait Acct: Sized {
    spec fn at(self) -> Pubkey; spec fn kids_s(self) -> Option<Kids>;
    fn new(d: DataRef) -> (r: Result<Self, ProgramError>) ensures r is Ok ==> r->Ok_0.at() == d.of && r->Ok_0.kids_s() is None;
    fn find_child_accounts(p: &Self, id: &Pubkey, writable: bool, i: &mut Rest) -> (r: Result<Kids, ProgramError>) ensures r is Ok ==> r->Ok_0 == (Kids { of: p.at(), owner: *id, writable });
    fn set_child_accounts(p: &mut Self, k: Kids) ensures final(p).at() == old(p).at(), final(p).kids_s() == Some(k);
}
pub struct UnverifiedAccountInfo<'a, 'b> { pub account_info: &'a AccountInfo<'b>, pub is_verified: bool }
impl<'a, 'b> UnverifiedAccountInfo<'a, 'b> {
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" new
//@props G03
//@ret r
//@spec
    ensures !r.is_verified && r.account_info == account_info
//@end
}
pub uninterp spec fn sys_id() -> Pubkey; pub uninterp spec fn ixs_id() -> Pubkey; pub uninterp spec fn spl_id() -> Pubkey; pub uninterp spec fn ata_id() -> Pubkey;
#[verifier::external_body] pub fn system_program_id() -> (r: Pubkey) ensures r == sys_id() { unimplemented!() }
#[verifier::external_body] pub fn instructions_id() -> (r: Pubkey) ensures r == ixs_id() { unimplemented!() }
#[verifier::external_body] pub fn spl_token_id() -> (r: Pubkey) ensures r == spl_id() { unimplemented!() }
#[verifier::external_body] pub fn spl_associated_token_account_id() -> (r: Pubkey) ensures r == ata_id() { unimplemented!() }
