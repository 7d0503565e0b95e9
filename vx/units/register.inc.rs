/// n is o with one more member in the next slot
pub open spec fn added(o: &BasicWardenNetworkAccount, n: &BasicWardenNetworkAccount, id: u32, f: BasicWardenFeatures, g: WardenRegion, t: [bool; TOKENS_LEN]) -> bool {
    let c = o.members_count as int;
    &&& c < ElusivBasicWardenNetwork_MAX && n.members_count == c + 1
    &&& n.members@ =~= o.members@.update(c, id) && n.features@ =~= o.features@.update(c, f) && n.region@ =~= o.region@.update(c, g) && n.tokens@ =~= o.tokens@.update(c, t)
}
impl BasicWardenNetworkAccount {
//@fn elusiv-warden-network/src/network.rs in "impl<'a> BasicWardenNetworkAccount<'a>" try_add_member
//@props W01
//@sig pub fn try_add_member(&mut self, warden_id: ElusivWardenID, features: &BasicWardenFeatures, region: &WardenRegion, supported_tokens: &[bool; TOKENS_LEN]) -> ProgramResult
//@rw (\w+)::SIZE\.max\(\) => \1_MAX
//@ret r
//@spec
    ensures r is Ok ==> added(old(self), final(self), warden_id, *features, *region, *supported_tokens),
        r is Err ==> *final(self) == *old(self) && old(self).members_count >= ElusivBasicWardenNetwork_MAX
//@end
//@fn elusiv-warden-network/src/network.rs in "impl<'a> BasicWardenNetworkAccount<'a>" update_region
//@props W02
//@ret r
//@spec
    ensures r is Ok ==> member_index < old(self).members_count && old(self).members@[member_index as int] == warden_id && final(self).region@ == old(self).region@.update(member_index as int, *region)
        && *final(self) == (BasicWardenNetworkAccount { region: final(self).region, ..*old(self) })
//@end
}
//@note an account that open_pda_account_* has just created is all zero, and creation fails where an account exists (system program)
//@fn elusiv-warden-network/src/processor/basic_warden.rs register_basic_warden
//@world
//@props W01
//@sig pub fn register_basic_warden<'a, 'b>(warden: &AccountInfo<'b>, mut warden_account: UnverifiedAccountInfo<'a, 'b>, mut warden_map_account: UnverifiedAccountInfo<'a, 'b>, wardens_account: &mut WardensAccount, basic_network_account: &mut BasicWardenNetworkAccount, warden_id: ElusivWardenID, config: ElusivBasicWardenConfig, warden_account_d: &mut BasicWardenAccount, warden_map_account_d: &mut BasicWardenMapAccount) -> ProgramResult
//@rw pda_account!\(\s*mut (\w+),\s*\w+,\s*(.*?)\s*\); => let _ = \2; let \1 = \1_d;
//@rw \.ok_or_else\(\|\|.*?\)\) => .ok_or(MATH_ERR)
//@rw \.into\(\) => .eo()
//@rw None\.eo\(\) => ElusivOption::None
//@ret r
//@spec
    ensures r is Ok ==> config.key == *warden.key && warden_id == old(wardens_account).next_warden_id && final(wardens_account).next_warden_id == warden_id + 1,
        r is Ok ==> added(old(basic_network_account), final(basic_network_account), warden_id, config.basic_warden_features, config.region, config.tokens),
        r is Ok ==> ({ let x = final(warden_account_d).warden; now() >= 0 && x == (ElusivBasicWarden { config, lut: x.lut, asn: ElusivOption::None, is_active: false, is_operator_confirmed: false, is_metadata_valid: ElusivOption::None, activation_timestamp: now() as u64, join_timestamp: now() as u64 }) && x.lut.b@ =~= Seq::new(32, |i: int| 0u8) }),
        r is Ok ==> final(warden_map_account_d).warden_id == warden_id,
        r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 20, acc: *warden_account.account_info.key, payer: *warden.key, pubkey: None, offset: Some(warden_id), bump: None })
            .insert(Ev::Open { kind: 21, acc: *warden_map_account.account_info.key, payer: *warden.key, pubkey: Some(*warden.key), offset: None, bump: None })
//@end
