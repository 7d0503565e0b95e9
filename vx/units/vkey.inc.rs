pub struct VKeyChildAccount;
impl ChildAccount for VKeyChildAccount {
    const INNER_SIZE: usize = 0;
}
//@py accessors elusiv/src/state/vkey.rs "struct VKeyAccount" "" "" "pub child_accounts: Ghost<Seq<Option<Pubkey>>>,"
impl<'c, 'd: 'c> ParentAccount<'c, 'd> for VKeyAccount {
    type Child = VKeyChildAccount;
    const COUNT: usize = 2;
    open spec fn pk(&self) -> Seq<ElusivOption<Pubkey>> { self.pubkeys@ }
    open spec fn ch(&self) -> Seq<Option<Pubkey>> { self.child_accounts@ }
    open spec fn same(&self, o: &Self) -> bool { *self == (VKeyAccount { pubkeys: self.pubkeys, ..*o }) }
    proof fn lem(&self) {}
    #[verifier::external_body] fn set_child_pubkey(&mut self, index: usize, pubkey: ElusivOption<Pubkey>) { unimplemented!() }
    #[verifier::external_body] fn get_child_pubkey(&self, index: usize) -> (r: Option<Pubkey>) { unimplemented!() }
    #[verifier::external_body] fn get_child_account_unsafe(&self, child_index: usize) -> (r: Result<&'c AccountInfo<'d>, ProgramError>) { unimplemented!() }
}
impl PDAAccount for VKeyAccount { open spec fn kind() -> int { 5 } }
impl VKeyAccount {
//@fn elusiv/src/state/vkey.rs in "impl<'a, 'b, 't> VKeyAccount" is_setup
//@props G01
//@ret r
//@spec
    ensures r == (self.version != 0)
//@end
}
//@const elusiv/src/processor/vkey.rs VKEY_ACCOUNT_DATA_PACKET_SIZE
//@const elusiv/src/processor/vkey.rs MAX_NUMBER_OF_VKEYS
//@item elusiv/src/processor/vkey.rs "struct VKeyAccountDataPacket"
//@py sizes elusiv/src/fields.rs "S_WFQ2=impl BorshSerDeSized for Wrap<Fq2>" "S_WFQ12=impl BorshSerDeSized for Wrap<Fq12>" "S_G1A=impl BorshSerDeSized for G1A" "S_G2A=impl BorshSerDeSized for G2A"
pub struct VerifyingKey;
/// the number of bytes of a verifying key for n public inputs
pub open spec fn key_len(n: int) -> int { S_WFQ12 + 2 * S_G1A + n * 32 * 255 * S_G1A + 2 * 91 * 3 * S_WFQ2 + 3 * S_G2A }
impl VerifyingKey {
    pub const COEFFS_ARRAY_SIZE: usize = 91 * 3 * S_WFQ2;
//@fn elusiv/src/proof/vkey.rs in "impl<'a> VerifyingKey<'a>" gamma_abc_size
//@props G01
//@rw G1A::SIZE => S_G1A
//@ret r
//@spec
    requires public_inputs_count <= u32::MAX
    ensures r == public_inputs_count * 32 * 255 * S_G1A
//@top
    assert(public_inputs_count * 32 * 255 * S_G1A <= u32::MAX * 32 * 255 * S_G1A) by (nonlinear_arith) requires 0 <= public_inputs_count <= u32::MAX;
//@end
//@fn elusiv/src/proof/vkey.rs in "impl<'a> VerifyingKey<'a>" source_size
//@props G01
//@rw G1A::SIZE => S_G1A
//@rw G2A::SIZE => S_G2A
//@rw Wrap::<Fq12>::SIZE => S_WFQ12
//@ret r
//@spec
    requires public_inputs_count <= u32::MAX
    ensures r == key_len(public_inputs_count as int), r <= 0x10_0000_0000_0000
//@top
    assert(public_inputs_count * 32 * 255 * S_G1A <= u32::MAX * 32 * 255 * S_G1A) by (nonlinear_arith) requires 0 <= public_inputs_count <= u32::MAX;
//@end
}
pub open spec fn act(a: &VKeyAccount) -> Option<Pubkey> { opt(a.pubkeys@[0]) }
pub open spec fn pend(a: &VKeyAccount) -> Option<Pubkey> { opt(a.pubkeys@[1]) }
/// only the authority, if one is set, changes a key, and no one a frozen one
pub open spec fn may(signer: &AccountInfo, a: &VKeyAccount) -> bool { !a.is_frozen && (opt(a.authority) is Some ==> signer.is_signer && opt(a.authority) == Some(*signer.key)) }
/// the active and the pending data accounts are different accounts in use
pub open spec fn kinv(a: &VKeyAccount, w: &World) -> bool {
    &&& act(a) is Some ==> used(w.dat@[act(a)->Some_0])
    &&& pend(a) is Some ==> used(w.dat@[pend(a)->Some_0])
    &&& act(a) is Some && pend(a) is Some ==> act(a) != pend(a)
}
//@fn elusiv/src/processor/vkey.rs verify_vkey_modification
//@props G01
//@ret r
//@spec
    ensures r is Ok <==> may(signer, vkey_account)
//@end
//@note an account that open_pda_account_* has just created is all zero, and creation fails where an account exists (system program)
//@fn elusiv/src/processor/vkey.rs create_vkey_account
//@world
//@props G01
//@sig pub fn create_vkey_account<'a>(signer: &AccountInfo<'a>, vkey_account: &AccountInfo<'a>, vkey_id: u32, public_inputs_count: u32, authority: ElusivOption<Pubkey>, vkey_data: &mut VKeyAccount) -> ProgramResult
//@rw pda_account!\(mut vkey_account, VKeyAccount, vkey_account\); => let vkey_account = vkey_data;
//@ret r
//@spec
    ensures r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 5, acc: *vkey_account.key, payer: *signer.key, pubkey: None, offset: Some(vkey_id), bump: None }),
        r is Ok ==> *final(vkey_data) == (VKeyAccount { authority, public_inputs_count, ..*old(vkey_data) })
//@end
//@fn elusiv/src/processor/vkey.rs create_new_vkey_version
//@world
//@props G01
//@rw \bsetup_child_account\( => setup_child_account(w, 
//@ret r
//@spec
    requires kinv(old(vkey_account), old(w))
    ensures r is Ok ==> may(signer, old(vkey_account)),
        r is Ok ==> pend(old(vkey_account)) is None && registered(old(vkey_account), final(vkey_account), old(w), final(w), vkey_binary_data_account, 1, key_len(old(vkey_account).public_inputs_count as int) + 1),
        r is Ok ==> kinv(final(vkey_account), final(w)) && act(final(vkey_account)) == act(old(vkey_account)) && final(vkey_account).version == old(vkey_account).version,
        r is Ok && act(old(vkey_account)) is Some ==> final(w).dat@[act(old(vkey_account))->Some_0] == old(w).dat@[act(old(vkey_account))->Some_0],
//@end
//@fn elusiv/src/processor/vkey.rs set_vkey_data
//@world
//@props G01
//@rw vkey_account\.execute_on_child_account_mut\( => vkey_account.execute_on_child_account_mut(w, 
//@rw \|data\| \{ => |data: &mut [u8]| -> (u: ()) ensures start <= end - cutoff <= old(data)@.len(), end - cutoff - start == 964 - cutoff <= packet.0@.len(), final(data)@ == put(old(data)@, start as int, packet.0@.take(964 - cutoff)) {
//@rw (\w+)\[([^\]]*?)\.\.([^\]]*)\]\s*\.copy_from_slice\(&(\S+?)\[\.\.([^\]]*)\]\) => put_range(\1, \2, \3, \4.as_slice(), \5)
//@ret r
//@spec
    requires kinv(old(vkey_account), old(w)), bound(old(vkey_account)), old(vkey_account).ch().len() == 2
    ensures r is Ok ==> may(signer, old(vkey_account)) && *final(vkey_account) == *old(vkey_account),
        r is Ok ==> pend(old(vkey_account)) is Some && ({
            let k = pend(old(vkey_account))->Some_0; let d = old(w).dat@[k]; let len = key_len(old(vkey_account).public_inputs_count as int);
            let s = data_position * 964; let n = if s + 964 <= len { 964 } else { len - s };
            &&& 0 < n && s + n <= payload(d).len() && n <= packet.0@.len()
            &&& final(w).dat@ =~= old(w).dat@.insert(k, d.take(1) + put(payload(d), s, packet.0@.take(n)))
            &&& kinv(final(vkey_account), final(w))
        }),
        r is Ok && act(old(vkey_account)) is Some ==> final(w).dat@[act(old(vkey_account))->Some_0] == old(w).dat@[act(old(vkey_account))->Some_0],
        final(w).ev == old(w).ev, final(w).lam == old(w).lam
//@end
//@fn elusiv/src/processor/vkey.rs update_vkey_version
//@world
//@props G01
//@rw vkey_account\.get_child_pubkey\(1\)\.into\(\) => ElusivOption::from(vkey_account.get_child_pubkey(1))
//@rw None\.into\(\) => ElusivOption::from(None)
//@ret r
//@spec
    requires kinv(old(vkey_account), old(w))
    ensures r is Ok ==> may(signer, old(vkey_account)),
        r is Ok ==> pend(old(vkey_account)) is Some && act(final(vkey_account)) == pend(old(vkey_account)) && pend(final(vkey_account)) is None && final(vkey_account).version == old(vkey_account).version + 1
            && *final(vkey_account) == (VKeyAccount { pubkeys: final(vkey_account).pubkeys, version: final(vkey_account).version, ..*old(vkey_account) }),
        r is Ok ==> kinv(final(vkey_account), final(w)) && final(w).dat == old(w).dat,
        r is Ok ==> final(w).ev@ == (if act(old(vkey_account)) is Some { old(w).ev@.insert(Ev::Close { acc: act(old(vkey_account))->Some_0, to: *signer.key }) } else { old(w).ev@ }),
//@end
//@fn elusiv/src/processor/vkey.rs freeze_vkey
//@props G01
//@ret r
//@spec
    ensures r is Ok ==> may(signer, old(vkey_account)) && *final(vkey_account) == (VKeyAccount { is_frozen: true, ..*old(vkey_account) })
//@end
//@fn elusiv/src/processor/vkey.rs change_vkey_authority
//@props G01
//@rw Some\(authority\)\.into\(\) => ElusivOption::from(Some(authority))
//@ret r
//@spec
    ensures r is Ok ==> may(signer, old(vkey_account)) && opt(final(vkey_account).authority) == Some(authority) && *final(vkey_account) == (VKeyAccount { authority: final(vkey_account).authority, ..*old(vkey_account) })
//@end
