//@note the bytes of every account are a ghost map of the world; borrowing an account's data gives exactly its bytes, and its length never changes
impl World {
    #[verifier::external_body] pub fn data_mut<'x>(&'x mut self, a: &AccountInfo) -> (r: &'x mut [u8])
        ensures r@ == old(self).dat@[*a.key], final(r)@.len() == r@.len(), final(self).dat@ == old(self).dat@.insert(*a.key, final(r)@), final(self).ev == old(self).ev, final(self).lam == old(self).lam { unimplemented!() }
    #[verifier::external_body] pub fn data_of<'x>(&'x self, a: &AccountInfo) -> (r: &'x [u8]) ensures r@ == self.dat@[*a.key] { unimplemented!() }
    #[verifier::external_body] pub fn data_len(&self, a: &AccountInfo) -> (r: usize) ensures r == self.dat@[*a.key].len() { unimplemented!() }
}
impl<'a> AccountInfo<'a> { #[verifier::external_body] pub fn signer_key(&self) -> (r: Option<&'a Pubkey>) ensures r == (if self.is_signer { Some(self.key) } else { None }) { unimplemented!() } }
//@note slice::split_at(_mut), copy_from_slice into a range and borsh of a bool have their documented meaning (abort out of range)
#[verifier::external_body] pub fn split_at(d: &[u8], n: usize) -> (r: (&[u8], &[u8])) ensures n <= d@.len(), r.0@ == d@.take(n as int), r.1@ == d@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn split_at_mut(d: &mut [u8], n: usize) -> (r: (&mut [u8], &mut [u8])) ensures n <= old(d)@.len(), r.0@ == old(d)@.take(n as int), r.1@ == old(d)@.skip(n as int),
    final(r.0)@.len() == n, final(r.1)@.len() == old(d)@.len() - n, final(d)@ == final(r.0)@ + final(r.1)@ { unimplemented!() }
/// d with the bytes from o replaced by x
pub open spec fn put(d: Seq<u8>, o: int, x: Seq<u8>) -> Seq<u8> { d.take(o) + x + d.skip(o + x.len()) }
#[verifier::external_body] pub fn put_range(d: &mut [u8], a: usize, b: usize, x: &[u8], n: usize) ensures a <= b <= old(d)@.len(), b - a == n, n <= x@.len(), final(d)@ == put(old(d)@, a as int, x@.take(n as int)) { unimplemented!() }
//@item shared/elusiv-types/src/accounts.rs "struct ChildAccountConfig"
impl ChildAccountConfig {
    pub const SIZE: usize = 1;
    #[verifier::external_body] pub fn try_from_slice(d: &[u8]) -> (r: Result<Self, ProgramError>) ensures r is Ok ==> d@.len() == 1 && d@[0] <= 1 && r->Ok_0.is_in_use == (d@[0] == 1) { unimplemented!() }
    #[verifier::external_body] pub fn put(&self, d: &mut [u8], n: usize) -> (r: Result<(), ProgramError>) ensures n <= old(d)@.len(), r is Ok <==> n >= 1, r is Ok ==> final(d)@ == old(d)@.update(0, if self.is_in_use { 1 } else { 0 }) { unimplemented!() }
}
/// the payload of a child account, and whether it is in use
pub open spec fn payload(d: Seq<u8>) -> Seq<u8> { d.skip(1) }
pub open spec fn used(d: Seq<u8>) -> bool { d.len() >= 1 && d[0] == 1 }
pub open spec fn opt<N>(o: ElusivOption<N>) -> Option<N> { match o { ElusivOption::Some(v) => Some(v), ElusivOption::None => None } }
impl<N: Copy> ElusivOption<N> {
//@fn shared/elusiv-types/src/bytes.rs in "impl<N: Clone> ElusivOption<N>" option
//@rw v\.clone\(\) => *v
//@ret r
//@spec
    ensures r == opt(*self)
//@end
    // From<Option<N>>
//@fn shared/elusiv-types/src/bytes.rs in "impl<N> From<Option<N>> for ElusivOption<N>" from
//@ret r
//@spec
    ensures opt(r) == o
//@end
}
//@fn shared/elusiv-types/src/accounts.rs child_account_size
//@props G02
//@ret r
//@spec
    requires inner_size < usize::MAX
    ensures r == inner_size + 1
//@end
//@fn shared/elusiv-types/src/accounts.rs split_child_account_data
//@props G02
//@rw data\.split_at\( => split_at(data, 
//@ret r
//@spec
    ensures r is Ok ==> data@.len() >= 1 && r->Ok_0.0@ == data@.take(1) && r->Ok_0.1@ == payload(data@)
//@end
//@fn shared/elusiv-types/src/accounts.rs split_child_account_data_mut
//@props G02
//@rw data\.split_at_mut\( => split_at_mut(data, 
//@ret r
//@spec
    ensures r is Ok ==> old(data)@.len() >= 1 && r->Ok_0.0@ == old(data)@.take(1) && r->Ok_0.1@ == payload(old(data)@)
        && final(r->Ok_0.0)@.len() == 1 && final(r->Ok_0.1)@.len() == old(data)@.len() - 1 && final(data)@ == final(r->Ok_0.0)@ + final(r->Ok_0.1)@
//@end
pub trait ChildAccount: Sized {
    const INNER_SIZE: usize;
//@fn shared/elusiv-types/src/accounts.rs in "trait ChildAccount" try_start_using_account
//@world
//@props G02
//@rw &mut account\.data\.borrow_mut\(\)\[\.\.\] => w.data_mut(account)
//@rw \((\w+), _\) = split => (\1, _rest) = split
//@before Ok\(\(\)\)\s*\}?\s*$
        proof { assert(w.dat@[*account.key] =~= old(w).dat@[*account.key].update(0, 1)); }
//@rw let mut slice = &mut (\w+)\[\.\.([^\]]*)\];\s*borsh::BorshSerialize::serialize\(&(\w+), &mut slice\) => \3.put(\1, \2)
//@ret r
//@spec
    ensures r is Ok ==> old(w).dat@[*account.key].len() >= 1 && !used(old(w).dat@[*account.key]) && final(w).dat@ == old(w).dat@.insert(*account.key, old(w).dat@[*account.key].update(0, 1)), final(w).ev == old(w).ev, final(w).lam == old(w).lam
//@end
}
/// the accounts passed to an instruction that were not taken yet
pub struct Rest<'c, 'd> { pub a: Ghost<Seq<&'c AccountInfo<'d>>> }
impl<'c, 'd> Rest<'c, 'd> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.a == self.a { unimplemented!() } }
#[verifier::external_body] pub fn next_account_info<'c, 'd>(i: &mut Rest<'c, 'd>) -> (r: Result<&'c AccountInfo<'d>, ProgramError>)
    ensures r is Ok <==> old(i).a@.len() > 0, r is Ok ==> r->Ok_0 == old(i).a@[0] && final(i).a@ == old(i).a@.skip(1), r is Err ==> final(i).a == old(i).a { unimplemented!() }
pub fn nones<T>(n: usize) -> (r: Vec<Option<T>>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]) is None {
    let mut v: Vec<Option<T>> = Vec::new(); let mut i: usize = 0;
    while i < n invariant v@.len() == i, i <= n, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]) is None decreases n - i { v.push(None); i = i + 1; }
    v
}
/// every child handed to a parent is the account its slot is registered for
pub open spec fn bound<'c, 'd: 'c, P: ParentAccount<'c, 'd>>(p: &P) -> bool { forall|i: int| 0 <= i < p.ch().len() && (#[trigger] p.ch()[i]) is Some ==> opt(p.pk()[i]) == p.ch()[i] }
pub trait ParentAccount<'c, 'd: 'c>: Sized {
    type Child: ChildAccount;
    const COUNT: usize;
    /// registered keys; the keys of the child accounts at hand
    spec fn pk(&self) -> Seq<ElusivOption<Pubkey>>;
    spec fn ch(&self) -> Seq<Option<Pubkey>>;
    /// everything but the registered keys
    spec fn same(&self, o: &Self) -> bool;
    proof fn lem(&self) ensures self.pk().len() == Self::COUNT, self.same(self), Self::COUNT < 0x1000_0000;
    fn set_child_pubkey(&mut self, index: usize, pubkey: ElusivOption<Pubkey>) ensures index < Self::COUNT, final(self).pk() == old(self).pk().update(index as int, pubkey), final(self).ch() == old(self).ch(), final(self).same(old(self));
    fn get_child_pubkey(&self, index: usize) -> (r: Option<Pubkey>) ensures index < Self::COUNT, r == opt(self.pk()[index as int]);
    fn get_child_account_unsafe(&self, child_index: usize) -> (r: Result<&'c AccountInfo<'d>, ProgramError>) ensures child_index < self.ch().len(), r is Ok ==> self.ch()[child_index as int] == Some(*r->Ok_0.key);
//@fn shared/elusiv-types/src/accounts.rs in "trait ParentAccount" find_child_accounts
//@props G02 G03
//@sig fn find_child_accounts(parent: &Self, program_id: &Pubkey, writable: bool, account_info_iter: &mut Rest<'c, 'd>) -> Result<Vec<Option<&'c AccountInfo<'d>>>, ProgramError>
//@rw vec!\[None; Self::COUNT\] => nones::<&'c AccountInfo<'d>>(Self::COUNT)
//@rw \(0\.\.Self::COUNT\)\s*\.map\(\|(\w+)\| (parent\.get_child_pubkey\(\w+\))\)\s*\.collect\(\) => { let mut v: Vec<Option<Pubkey>> = Vec::new(); for \1 in 0..Self::COUNT { let x = \2; v.push(x); } v }
//@rw account\.owner != program_id => *account.owner != *program_id
//@desugar 1
//@desugar 3
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0@.len() == Self::COUNT && (forall|k: int| 0 <= k < Self::COUNT && (#[trigger] r->Ok_0@[k]) is Some ==>
        opt(parent.pk()[k]) == Some(*r->Ok_0@[k]->Some_0.key) && *r->Ok_0@[k]->Some_0.owner == *program_id && (writable ==> r->Ok_0@[k]->Some_0.is_writable))
//@loop 1
    invariant v@.len() == i_next, i_next <= i_end, i_end == Self::COUNT, forall|k: int| 0 <= k < i_next ==> #[trigger] v@[k] == opt(parent.pk()[k])
    decreases i_end - i_next
//@loop 2
    invariant child_pubkeys@.len() == Self::COUNT, accounts@.len() == Self::COUNT, i <= Self::COUNT, Self::COUNT < 0x1000_0000,
        forall|k: int| 0 <= k < Self::COUNT ==> #[trigger] child_pubkeys@[k] == opt(parent.pk()[k]),
        forall|k: int| 0 <= k < Self::COUNT && (#[trigger] accounts@[k]) is Some ==> opt(parent.pk()[k]) == Some(*accounts@[k]->Some_0.key) && *accounts@[k]->Some_0.owner == *program_id && (writable ==> accounts@[k]->Some_0.is_writable)
    decreases Self::COUNT - i
//@beforeloop 2
    proof { parent.lem(); }
//@looptop 2
    let ghost i0 = i;
//@loop 3
    invariant_except_break i == i0
    invariant child_pubkeys@.len() == Self::COUNT, accounts@.len() == Self::COUNT, i0 <= i < Self::COUNT, i <= child_index_next <= child_index_end + (if i > i0 { 1int } else { 0int }), child_index_end == Self::COUNT, Self::COUNT < 0x1000_0000,
        forall|k: int| 0 <= k < Self::COUNT ==> #[trigger] child_pubkeys@[k] == opt(parent.pk()[k]),
        forall|k: int| 0 <= k < Self::COUNT && (#[trigger] accounts@[k]) is Some ==> opt(parent.pk()[k]) == Some(*accounts@[k]->Some_0.key) && *accounts@[k]->Some_0.owner == *program_id && (writable ==> accounts@[k]->Some_0.is_writable)
    decreases child_index_end - child_index_next
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait ParentAccount" execute_on_child_account
//@world
//@props G02
//@rw unsafe \{ (self\.get_child_account_unsafe\(child_index\)) \} => \1
//@rw account: &AccountInfo<'t> => account: &AccountInfo
//@rw &account\.data\.borrow\(\)\[\.\.\] => w.data_of(account)
//@rw \(_, (\w+)\) = split => (_rest, \1) = split
//@sig fn execute_on_child_account<T, C: FnOnce(&[u8]) -> T>(&self, w: &mut World, child_index: usize, closure: C) -> Result<T, ProgramError>
//@ret r
//@spec
    requires forall|x: &[u8]| call_requires(closure, (x,))
    ensures r is Ok ==> child_index < self.ch().len() && self.ch()[child_index as int] is Some,
        r is Ok ==> exists|x: &[u8], t: T| #[trigger] call_ensures(closure, (x,), t) && r->Ok_0 == t && x@ == payload(old(w).dat@[self.ch()[child_index as int]->Some_0]),
        *final(w) == *old(w)
//@end
//@fn shared/elusiv-types/src/accounts.rs in "trait ParentAccount" execute_on_child_account_mut
//@world
//@props G02
//@rw unsafe \{ (self\.get_child_account_unsafe\(child_index\)) \} => \1
//@rw account: &AccountInfo<'t> => account: &AccountInfo
//@rw &mut account\.data\.borrow_mut\(\)\[\.\.\] => w.data_mut(account)
//@rw \(_, (\w+)\) = split => (_rest, \1) = split
//@sig fn execute_on_child_account_mut<T, C: FnOnce(&mut [u8]) -> T>(&self, w: &mut World, child_index: usize, closure: C) -> Result<T, ProgramError>
//@ret r
//@spec
    requires forall|x: &mut [u8]| call_requires(closure, (x,))
    ensures r is Ok ==> child_index < self.ch().len() && self.ch()[child_index as int] is Some,
        r is Ok ==> ({
        let k = self.ch()[child_index as int]->Some_0; let d = old(w).dat@[k];
        exists|x: &mut [u8], t: T| #[trigger] call_ensures(closure, (x,), t) && r->Ok_0 == t && x@ == payload(d) && final(w).dat@ == old(w).dat@.insert(k, d.take(1) + final(x)@) && final(x)@.len() == d.len() - 1
    }),
        final(w).ev == old(w).ev, final(w).lam == old(w).lam
//@end
}
//@fn elusiv/src/processor/accounts.rs verify_extern_data_account
//@world
//@props G02
//@rw account\.data_len\(\) => w.data_len(account)
//@rw &account\.data\.borrow\(\)\[\.\.\] => w.data_of(account)
//@rw cfg!\(test\) => false
//@ret r
//@spec
    ensures *final(w) == *old(w), r is Ok ==> valid_child(old(w), account, data_len as int) && (check_zeroness ==> all_zero(old(w).dat@[*account.key]))
//@end
pub open spec fn all_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
//@note is_zero is proved in unit basics
#[verifier::external_body] pub fn is_zero(s: &[u8]) -> (r: bool) ensures r == all_zero(s@) { unimplemented!() }
/// an account that may become a child of n bytes
pub open spec fn valid_child(w: &World, a: &AccountInfo, n: int) -> bool { w.dat@[*a.key].len() == n && n >= 1 && w.lam@[*a.key] >= rent_of(n) && *a.owner == id_s() }
/// a became child i of p: it was valid, not in use, and the slot was free; nothing else changed
pub open spec fn registered<'c, 'd: 'c, P: ParentAccount<'c, 'd>>(p0: &P, p1: &P, w0: &World, w1: &World, a: &AccountInfo, i: int, n: int) -> bool {
    &&& 0 <= i < P::COUNT && opt(p0.pk()[i]) is None && valid_child(w0, a, n) && !used(w0.dat@[*a.key])
    &&& p1.pk() == p0.pk().update(i, ElusivOption::Some(*a.key)) && p1.same(p0)
    &&& w1.dat@ == w0.dat@.insert(*a.key, w0.dat@[*a.key].update(0, 1)) && w1.ev == w0.ev && w1.lam == w0.lam
}
//@fn elusiv/src/processor/accounts.rs setup_child_account
//@world
//@props G02
//@sig pub fn setup_child_account<'c, 'd: 'c, P: ParentAccount<'c, 'd>>(parent_account: &mut P, child_account: &AccountInfo, child_index: usize, check_zeroness: bool, size: Option<usize>) -> ProgramResult
//@rw verify_extern_data_account\( => verify_extern_data_account(w, 
//@rw try_start_using_account\( => try_start_using_account(w, 
//@rw <P::Child as SizedAccount>::SIZE => child_account_size(P::Child::INNER_SIZE)
//@ret r
//@spec
    requires P::Child::INNER_SIZE < usize::MAX
    ensures r is Ok ==> registered(old(parent_account), final(parent_account), old(w), final(w), child_account, child_index as int, match size { Some(n) => n as int, None => P::Child::INNER_SIZE + 1 })
        && (check_zeroness ==> all_zero(old(w).dat@[*child_account.key]))
//@end
/// the empty map in a payload: reset of the map in place (N01)
pub uninterp spec fn map_reset(d: Seq<u8>) -> Seq<u8>;
//@note reset_map_child_account: ElusivMap::<(), (), 1>::new over the leading bytes of the payload and reset (N01) is map_reset, and keeps the length
#[verifier::external_body] pub fn reset_map_bytes(d: &mut [u8]) ensures final(d)@ == map_reset(old(d)@), final(d)@.len() == old(d)@.len() { unimplemented!() }
//@fn elusiv/src/processor/accounts.rs reset_map_child_account
//@world
//@props G02
//@sig fn reset_map_child_account(child_account: &AccountInfo) -> ProgramResult
//@rw &mut child_account\.data\.borrow_mut\(\)\[\.\.\] => w.data_mut(child_account)
//@rw let mut (\w+) = ElusivMap::<\(\), \(\), 1>::new\(&mut (\w+)\[\.\.ElusivMap::<\(\), \(\), 1>::SIZE\]\);\s*\1\.reset\(\); => reset_map_bytes(\2);
//@ret r
//@spec
    ensures r is Ok ==> old(w).dat@[*child_account.key].len() >= 1 && final(w).dat@ == old(w).dat@.insert(*child_account.key, old(w).dat@[*child_account.key].take(1) + map_reset(payload(old(w).dat@[*child_account.key])))
//@end
//@note the three enable functions are proved for every parent type, hence for the account types they are called with
//@fn elusiv/src/processor/accounts.rs enable_storage_child_account
//@world
//@props G02
//@sig pub fn enable_storage_child_account<'c, 'd: 'c, P: ParentAccount<'c, 'd>>(storage_account: &mut P, child_account: &AccountInfo, child_index: u32) -> ProgramResult
//@rw \bsetup_child_account\( => setup_child_account(w, 
//@ret r
//@spec
    requires P::Child::INNER_SIZE < usize::MAX
    ensures r is Ok ==> registered(old(storage_account), final(storage_account), old(w), final(w), child_account, child_index as int, P::Child::INNER_SIZE + 1)
//@end
//@fn elusiv/src/processor/accounts.rs enable_metadata_child_account
//@world
//@props G02
//@sig pub fn enable_metadata_child_account<'c, 'd: 'c, P: ParentAccount<'c, 'd>>(metadata_account: &mut P, child_account: &AccountInfo, child_index: u32) -> ProgramResult
//@rw \bsetup_child_account\( => setup_child_account(w, 
//@ret r
//@spec
    requires P::Child::INNER_SIZE < usize::MAX
    ensures r is Ok ==> registered(old(metadata_account), final(metadata_account), old(w), final(w), child_account, child_index as int, P::Child::INNER_SIZE + 1)
//@end
//@fn elusiv/src/processor/accounts.rs enable_nullifier_child_account
//@world
//@props G02
//@sig pub fn enable_nullifier_child_account<'c, 'd: 'c, P: ParentAccount<'c, 'd>>(nullifier_account: &mut P, child_account: &AccountInfo, _merkle_tree_index: u32, child_index: u32) -> ProgramResult
//@rw \bsetup_child_account\( => setup_child_account(w, 
//@rw reset_map_child_account::<NullifierChildAccount>\( => reset_map_child_account(w, 
//@ret r
//@spec
    requires P::Child::INNER_SIZE < usize::MAX
    ensures r is Ok ==> exists|v: World| #[trigger] registered(old(nullifier_account), final(nullifier_account), old(w), &v, child_account, child_index as int, P::Child::INNER_SIZE + 1)
        && final(w).dat@ == v.dat@.insert(*child_account.key, v.dat@[*child_account.key].take(1) + map_reset(payload(v.dat@[*child_account.key])))
//@end
