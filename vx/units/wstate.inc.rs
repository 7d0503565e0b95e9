pub uninterp spec fn attester_authority() -> Pubkey;
#[verifier::external_body] pub fn metadata_attester_authority() -> (r: Pubkey) ensures r == attester_authority() { unimplemented!() }
pub open spec fn owns(k: &AccountInfo, a: &BasicWardenAccount) -> bool { *k.key == a.warden.config.key }
//@fn elusiv-warden-network/src/processor/basic_warden.rs update_basic_warden_state
//@props W02
//@ret r
//@spec
    ensures r is Ok ==> owns(warden, old(warden_account)) && ({ let o = old(warden_account).warden;
        final(warden_account).warden == (ElusivBasicWarden { is_active, activation_timestamp: if is_active == o.is_active { o.activation_timestamp } else { now() as u64 }, ..o }) && (is_active != o.is_active ==> now() >= 0) })
//@end
//@fn elusiv-warden-network/src/processor/basic_warden.rs update_basic_warden_lut
//@props W02
//@ret r
//@spec
    ensures r is Ok ==> owns(warden, old(warden_account)) && final(warden_account).warden == (ElusivBasicWarden { lut: *lut_account.key, ..old(warden_account).warden })
//@end
pub open spec fn attesting(o: ElusivBasicWarden, b: bool) -> ElusivBasicWarden { ElusivBasicWarden { config: ElusivBasicWardenConfig { warden_features: WardenFeatures { attestation: b, ..o.config.warden_features }, ..o.config }, ..o } }
//@fn elusiv-warden-network/src/processor/basic_warden.rs add_metadata_attester
//@world
//@props W02
//@sig pub fn add_metadata_attester<'b>(signer: &AccountInfo<'b>, mut attester_account: UnverifiedAccountInfo<'_, 'b>, warden_account: &mut BasicWardenAccount, warden_id: ElusivWardenID, attester: Pubkey, attester_account_d: &mut BasicWardenAttesterMapAccount) -> ProgramResult
//@rw pda_account!\(\s*mut (\w+),\s*\w+,\s*(.*?)\s*\); => let _ = \2; let \1 = \1_d;
//@rw METADATA_ATTESTER_AUTHORITY => metadata_attester_authority()
//@ret r
//@spec
    ensures r is Ok ==> *signer.key == attester_authority() && final(warden_account).warden == attesting(old(warden_account).warden, true) && final(attester_account_d).warden_id == warden_id,
        r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 22, acc: *attester_account.account_info.key, payer: *signer.key, pubkey: Some(attester), offset: None, bump: None })
//@end
//@fn elusiv-warden-network/src/processor/basic_warden.rs revoke_metadata_attester
//@world
//@props W02
//@rw METADATA_ATTESTER_AUTHORITY => metadata_attester_authority()
//@ret r
//@spec
    ensures r is Ok ==> *signer.key == attester_authority() && final(warden_account).warden == attesting(old(warden_account).warden, false),
        r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Close { acc: *attester_account.key, to: *signer.key })
//@end
//@fn elusiv-warden-network/src/processor/basic_warden.rs attest_basic_warden_metadata
//@props W02
//@rw \.into\(\) => .eo()
//@ret r
//@spec
    ensures r is Ok ==> owns(attester, attester_warden_account) && attester_warden_account.warden.config.warden_features.attestation,
        r is Ok ==> ({ let o = old(warden_account).warden; let n = final(warden_account).warden;
            &&& n == (ElusivBasicWarden { asn: n.asn, is_metadata_valid: n.is_metadata_valid, config: ElusivBasicWardenConfig { timezone, uses_proxy, region, ..o.config }, ..o })
            &&& opt(n.asn) == asn && opt(n.is_metadata_valid) == Some(o.config.timezone == timezone && o.config.uses_proxy == uses_proxy && o.config.region == region)
        }),
        r is Ok ==> member_index < old(basic_network_account).members_count && old(basic_network_account).members@[member_index as int] == warden_id
            && final(basic_network_account).region@ == old(basic_network_account).region@.update(member_index as int, region)
            && *final(basic_network_account) == (BasicWardenNetworkAccount { region: final(basic_network_account).region, ..*old(basic_network_account) })
//@end
//@fn elusiv-warden-network/src/processor/operator.rs register_warden_operator
//@world
//@props W02
//@sig pub fn register_warden_operator<'b>(operator: &AccountInfo<'b>, mut operator_account: UnverifiedAccountInfo<'_, 'b>, ident: Identifier, url: Identifier, jurisdiction: Option<u16>, operator_account_d: &mut WardenOperatorAccount) -> ProgramResult
//@rw pda_account!\(\s*mut (\w+),\s*\w+,\s*(.*?)\s*\); => let _ = \2; let \1 = \1_d;
//@rw \.into\(\) => .eo()
//@ret r
//@spec
    ensures r is Ok ==> final(operator_account_d).ident == ident && final(operator_account_d).url == url && opt(final(operator_account_d).jurisdiction) == jurisdiction,
        r is Ok ==> final(w).ev@ == old(w).ev@.insert(Ev::Open { kind: 24, acc: *operator_account.account_info.key, payer: *operator.key, pubkey: Some(*operator.key), offset: None, bump: None })
//@end
//@fn elusiv-warden-network/src/processor/operator.rs confirm_basic_warden_operation
//@props W02
//@rw \.into\(\) => .eo()
//@ret r
//@spec
    ensures r is Ok ==> ({ let o = old(warden_account).warden; let n = final(warden_account).warden;
        &&& opt(o.config.operator) is Some ==> opt(o.config.operator) == Some(*operator.key)
        &&& opt(n.config.operator) == Some(*operator.key)
        &&& n == (ElusivBasicWarden { is_operator_confirmed: true, config: ElusivBasicWardenConfig { operator: n.config.operator, ..o.config }, ..o })
    })
//@end
