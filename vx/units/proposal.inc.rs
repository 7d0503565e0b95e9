//@note spl_token Mint::unpack: the mint's freeze authority is an uninterpreted function of the mint account
pub enum COption<T> { None, Some(T) }
pub struct Mint { pub freeze_authority: COption<Pubkey> }
pub uninterp spec fn freeze_of(mint: Pubkey) -> Option<Pubkey>;
#[verifier::external_body] pub fn unpack_mint(a: &AccountInfo) -> (r: Result<Mint, ProgramError>) ensures r is Ok ==> freeze_of(*a.key) == (match r->Ok_0.freeze_authority { COption::Some(k) => Some(k), COption::None => None }) { unimplemented!() }
/// the claimed role is proven
pub open spec fn role_ok(p: ApaProposal, proponent: Pubkey, mint: Pubkey) -> bool {
    &&& opt(p.token_constraint) is Some ==> opt(p.token_constraint)->Some_0 <= SPL_TOKEN_COUNT
    &&& p.proponent_role is TokenFreezingAuthority ==> opt(p.token_constraint) is Some && opt(p.token_constraint)->Some_0 > 0 && opt(p.token_constraint)->Some_0 < TOKENS_LEN
            && mint == token_spec(opt(p.token_constraint)->Some_0 as int).mint && freeze_of(mint) == Some(proponent)
}
//@fn elusiv-warden-network/src/processor/apa.rs propose_apa_proposal
//@world
//@props W06
//@sig pub fn propose_apa_proposal<'b>(proponent: &AccountInfo<'b>, mut proposal_account: UnverifiedAccountInfo<'_, 'b>, proposals_account: &mut ApaProposalsAccount, target_map_account: &AccountInfo<'b>, token_mint: &AccountInfo, proposal_id: u32, proposal: ApaProposal, proposal_account_d: &mut ApaProposalAccount) -> ProgramResult
//@rw let data = &token_mint\.data\.borrow\(\)\[\.\.\]; => 
//@rw spl_token::state::Mint::unpack\(data\) => unpack_mint(token_mint)
//@rw pda_account!\(\s*mut (\w+),\s*\w+,\s*(.*?)\s*\); => let _ = \2; let \1 = \1_d;
//@rw \.ok_or_else\(\|\|.*?\)\) => .ok_or(MATH_ERR)
//@ret r
//@spec
    ensures r is Ok ==> proposal_id == old(proposals_account).number_of_proposals && final(proposals_account).number_of_proposals == proposal_id + 1,
        r is Ok ==> now() >= 0 && final(proposal_account_d).proposal == (ApaProposal { timestamp: now() as u64, proponent: *proponent.key, ..proposal }),
        r is Ok ==> role_ok(proposal, *proponent.key, *token_mint.key),
        r is Ok ==> ({ let e = old(w).ev@.insert(Ev::Open { kind: 26, acc: *proposal_account.account_info.key, payer: *proponent.key, pubkey: None, offset: Some(proposal_id), bump: None });
            final(w).ev@ == e || final(w).ev@ == e.insert(Ev::Open { kind: 27, acc: *target_map_account.key, payer: *proponent.key, pubkey: Some(proposal.target), offset: None, bump: None }) })
//@end
