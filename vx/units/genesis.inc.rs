/// the slots are filled in order; a slot without a warden has no completion
pub open spec fn ninv(a: &ApaWardenNetworkAccount) -> bool { a.members_count <= 6 && forall|i: int| 0 <= i < 6 && opt(#[trigger] a.quote_ends@[i]) is Some ==> i < a.members_count }
pub open spec fn complete(a: &ApaWardenNetworkAccount) -> bool { forall|i: int| 0 <= i < 6 ==> opt(#[trigger] a.quote_ends@[i]) is Some }
pub open spec fn confirmed(a: &ApaWardenNetworkAccount) -> bool { complete(a) && forall|i: int| 0 <= i < 6 ==> #[trigger] a.confirmations@[i] }
pub open spec fn full_quote(s: QuoteStart, e: QuoteEnd) -> Seq<u8> { s.0@ + e.0@ }
/// the quotes of the first n slots in order, those not complete skipped
pub open spec fn gq(a: &ApaWardenNetworkAccount, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { seq![] } else if opt(a.quote_ends@[n - 1]) is Some { gq(a, n - 1).push(full_quote(a.quote_starts@[n - 1], opt(a.quote_ends@[n - 1])->Some_0)) } else { gq(a, n - 1) }
}
//@note solana_program::hash::hashv: an uninterpreted function of the list of byte strings
pub uninterp spec fn hashv_s(x: Seq<Seq<u8>>) -> [u8; 32];
pub struct Hash(pub [u8; 32]);
impl Hash { pub fn to_bytes(self) -> (r: [u8; 32]) ensures r == self.0 { self.0 } }
pub open spec fn views(v: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn hashv(v: &Vec<&[u8]>) -> (r: Hash) ensures r.0 == hashv_s(views(v@)) { unimplemented!() }
#[verifier::external_body] pub fn eq_bytes(a: [u8; 32], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@note array[a..b].copy_from_slice and try_into of a subslice have their documented meaning (abort out of range)
#[verifier::external_body] pub fn put_arr<const N: usize>(d: &mut [u8; N], a: usize, b: usize, x: &[u8]) ensures a <= b <= N, b - a == x@.len(), final(d)@ == old(d)@.take(a as int) + x@ + old(d)@.skip(b as int) { unimplemented!() }
#[verifier::external_body] pub fn take32<const N: usize>(d: &[u8; N], a: usize, b: usize) -> (r: [u8; 32]) ensures a <= b <= N, b - a == 32, r@ == d@.subrange(a as int, b as int) { unimplemented!() }
pub const QSTART: usize = 400;
pub open spec fn key_of(q: QuoteStart) -> Seq<u8> { q.0@.subrange(400, 432) }
impl QuoteStart {
//@fn elusiv-warden-network/src/warden.rs in "impl QuoteStart" user_data_bytes
//@props W05
//@rw self\.0\[(.*?)\.\.(.*?)\]\.try_into\(\)\.ok_or_abort\(\) => take32(&self.0, \1, \2)
//@ret r
//@spec
    ensures r@ == key_of(*self)
//@end
//@fn elusiv-warden-network/src/warden.rs in "impl QuoteStart" join
//@props W05
//@rw full_quote\[\.\.(\w+)\]\.copy_from_slice\((.*?)\); => put_arr(&mut full_quote, 0, \1, \2);
//@rw full_quote\[(\w+)\.\.\]\.copy_from_slice\((.*?)\); => put_arr(&mut full_quote, \1, FULL_QUOTE_SIZE, \2);
//@ret r
//@spec
    ensures r.0@ =~= full_quote(*self, *end)
//@end
}
impl ApaWardenNetworkAccount {
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" is_application_phase
//@props W05
//@rw (\w+)::SIZE\.max\(\) => \1_MAX
//@iters
//@ret r
//@spec
    ensures r == !complete(self)
//@loop 1
    invariant c1_next <= c1_end, c1_end == 6, c1 ==> forall|k: int| 0 <= k < c1_next ==> opt(#[trigger] self.quote_ends@[k]) is Some, !c1 ==> !complete(self)
    decreases c1_end - c1_next
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" is_confirmation_phase
//@props W05
//@ret r
//@spec
    requires ninv(self)
    ensures r == (complete(self) && !confirmed(self))
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" is_confirmed
//@props W05
//@iters
//@ret r
//@spec
    requires ninv(self)
    ensures r == confirmed(self)
//@top
    proof { if complete(self) { assert(opt(self.quote_ends@[5]) is Some); } }
//@loop 1
    invariant complete(self), c1_next <= c1_end, c1_end == 6, c1 ==> forall|k: int| 0 <= k < c1_next ==> #[trigger] self.confirmations@[k], !c1 ==> !confirmed(self)
    decreases c1_end - c1_next
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" start_application
//@props W05
//@ret r
//@spec
    requires ninv(old(self))
    ensures r is Ok ==> ({ let c = old(self).members_count as int;
            &&& r->Ok_0 == c && c < 6 && !complete(old(self)) && final(self).members_count == c + 1
            &&& final(self).members@ == old(self).members@.update(c, warden_id) && final(self).quote_starts@ == old(self).quote_starts@.update(c, *quote_start)
            &&& final(self).exchange_keys@.len() == old(self).exchange_keys@.len() && final(self).exchange_keys@[c].b@ == key_of(*quote_start) && final(self).exchange_keys@ == old(self).exchange_keys@.update(c, final(self).exchange_keys@[c])
            &&& final(self).quote_ends == old(self).quote_ends && final(self).confirmations == old(self).confirmations && final(self).apa_key == old(self).apa_key
        }) && ninv(final(self)),
        r is Err ==> *final(self) == *old(self)
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" complete_application
//@props W05
//@iters usize
//@rw (Some\(\w+\))\.into\(\) => \1.eo()
//@ret r
//@spec
    requires ninv(old(self))
    ensures r is Ok ==> !complete(old(self)) && ninv(final(self)) && (exists|i: int| 0 <= i < old(self).members_count && #[trigger] old(self).members@[i] == warden_id
            && (forall|j: int| 0 <= j < i ==> #[trigger] old(self).members@[j] != warden_id)
            && opt(final(self).quote_ends@[i]) == Some(quote_end) && final(self).quote_ends@ == old(self).quote_ends@.update(i, final(self).quote_ends@[i])
            && *final(self) == (ApaWardenNetworkAccount { quote_ends: final(self).quote_ends, ..*old(self) })),
        r is Err ==> *final(self) == *old(self) && (complete(old(self)) || forall|i: int| 0 <= i < old(self).members_count ==> #[trigger] old(self).members@[i] != warden_id)
//@loop 1
    invariant *self == *old(self), ninv(self), c1_next <= c1_end, c1_end == self.members_count,
        c1 is None ==> forall|j: int| 0 <= j < c1_next ==> #[trigger] self.members@[j] != warden_id,
        c1 is Some ==> c1->Some_0 < c1_end && self.members@[c1->Some_0 as int] == warden_id && forall|j: int| 0 <= j < c1->Some_0 ==> #[trigger] self.members@[j] != warden_id
    decreases c1_end - c1_next
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" get_all_quotes
//@props W05
//@rw end\.map\(\|end\| (.*?)\)(\s*\}) => match end { Some(end) => Some(\1), None => None }\2
//@iters Quote
//@ret r
//@spec
    requires ninv(self)
    ensures r@.len() == gq(self, self.members_count as int).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0@ == gq(self, self.members_count as int)[k]
//@loop 1
    invariant ninv(self), c1_next <= c1_end, c1_end == self.members_count, c1@.len() == gq(self, c1_next as int).len(), forall|k: int| 0 <= k < c1@.len() ==> (#[trigger] c1@[k]).0@ == gq(self, c1_next as int)[k]
    decreases c1_end - c1_next
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" confirmation_message
//@props W05
//@rw solana_program::hash::hashv\( => hashv(
//@iters &[u8]
//@ret r
//@spec
    requires ninv(self)
    ensures r == hashv_s(gq(self, self.members_count as int))
//@loop 1
    invariant c1_next <= c1_end, c1_end == quotes@.len(), c1_src@ == quotes@, c1@.len() == c1_next, forall|k: int| 0 <= k < c1_next ==> (#[trigger] c1@[k])@ == quotes@[k].0@
    decreases c1_end - c1_next
//@before let hash
    proof { assert(views(quote_bytes@) =~= gq(self, self.members_count as int)); }
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> ApaWardenNetworkAccount<'a>" confirm_others
//@props W05
//@rw (self\.confirmation_message\(\)) == (\w+) => eq_bytes(\1, \2)
//@ret r
//@spec
    requires ninv(old(self))
    ensures r is Ok ==> ({ let i = member_index as int;
            &&& complete(old(self)) && i < 6 && old(self).exchange_keys@[i] == *signer && !old(self).confirmations@[i]
            &&& confirmation_message@ == hashv_s(gq(old(self), 6))@
            &&& final(self).confirmations@ == old(self).confirmations@.update(i, true) && *final(self) == (ApaWardenNetworkAccount { confirmations: final(self).confirmations, ..*old(self) })
        }) && ninv(final(self)),
        r is Err ==> *final(self) == *old(self)
//@top
    proof { if complete(self) { assert(opt(self.quote_ends@[5]) is Some); } }
//@end
}
//@fn elusiv-warden-network/src/processor/apa_warden.rs start_apa_genesis_warden_application
//@world
//@props W05
//@sig pub fn start_apa_genesis_warden_application<'b>(warden: &AccountInfo<'b>, warden_map_account: &BasicWardenMapAccount, mut apa_warden_account: UnverifiedAccountInfo<'_, 'b>, apa_network_account: &mut ApaWardenNetworkAccount, _warden_id: ElusivWardenID, quote_start: QuoteStart, apa_warden_account_d: &mut ApaWardenAccount) -> ProgramResult
//@rw pda_account!\(\s*mut (\w+),\s*\w+,\s*(.*?)\s*\); => let _ = \2; let \1 = \1_d;
//@ret r
//@spec
    requires ninv(old(apa_network_account))
    ensures r is Ok ==> ({ let c = old(apa_network_account).members_count as int; let id = warden_map_account.warden_id;
            &&& c < 6 && !complete(old(apa_network_account)) && final(apa_network_account).members_count == c + 1 && ninv(final(apa_network_account))
            &&& final(apa_network_account).members@ == old(apa_network_account).members@.update(c, id) && final(apa_network_account).quote_starts@ == old(apa_network_account).quote_starts@.update(c, quote_start)
            &&& final(apa_network_account).exchange_keys@[c].b@ == key_of(quote_start) && final(apa_network_account).exchange_keys@ == old(apa_network_account).exchange_keys@.update(c, final(apa_network_account).exchange_keys@[c])
            &&& final(apa_network_account).quote_ends == old(apa_network_account).quote_ends && final(apa_network_account).confirmations == old(apa_network_account).confirmations
            &&& final(apa_warden_account_d).warden_id == id && final(apa_warden_account_d).network_member_index == c
            &&& final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 23, acc: *apa_warden_account.account_info.key, payer: *warden.key, pubkey: None, offset: Some(id), bump: None })
        })
//@end
//@fn elusiv-warden-network/src/processor/apa_warden.rs complete_apa_genesis_warden_application
//@props W05
//@ret r
//@spec
    requires ninv(old(apa_network_account))
    ensures r is Ok ==> provided_warden_id == warden_map_account.warden_id && !complete(old(apa_network_account)) && ninv(final(apa_network_account)) && (exists|i: int| 0 <= i < old(apa_network_account).members_count && #[trigger] old(apa_network_account).members@[i] == provided_warden_id
            && (forall|j: int| 0 <= j < i ==> #[trigger] old(apa_network_account).members@[j] != provided_warden_id)
            && opt(final(apa_network_account).quote_ends@[i]) == Some(quote_end) && final(apa_network_account).quote_ends@ == old(apa_network_account).quote_ends@.update(i, final(apa_network_account).quote_ends@[i])
            && *final(apa_network_account) == (ApaWardenNetworkAccount { quote_ends: final(apa_network_account).quote_ends, ..*old(apa_network_account) }))
//@end
//@fn elusiv-warden-network/src/processor/apa_warden.rs confirm_apa_genesis_network
//@props W05
//@rw &confirmation_message => confirmation_message.as_slice()
//@ret r
//@spec
    requires ninv(old(apa_network_account))
    ensures r is Ok ==> ({ let i = apa_warden_account.network_member_index as int; let o = old(apa_network_account); let n = *final(apa_network_account);
            &&& complete(o) && i < 6 && o.exchange_keys@[i] == *exchange_key_account.key && !o.confirmations@[i]
            &&& confirmation_message@ == hashv_s(gq(o, 6))@
            &&& n.confirmations@ == o.confirmations@.update(i, true) && n == (ApaWardenNetworkAccount { confirmations: n.confirmations, ..*o })
        }) && ninv(final(apa_network_account))
//@end
