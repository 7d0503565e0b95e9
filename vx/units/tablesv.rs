//@include common.rs
verus! {
// the schedules the computation macros generate for the two parts of a verification
//@const elusiv/src/proof/verifier.rs COMBINED_MILLER_LOOP_IXS
//@const elusiv/src/proof/verifier.rs FINAL_EXPONENTIATION_IXS
pub open spec fn psum(t: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(t, n - 1) + t[n - 1] } }
//@py schedules rac/elusiv CombinedMillerLoop|FinalExponentiation
/// what the unit compute uses: the rounds of the instructions add up to the total, so the last instruction of each part runs its last round
pub proof fn parts_ok() ensures
    psum(tab_CombinedMillerLoop(), COMBINED_MILLER_LOOP_IXS as int) == TOTAL_CombinedMillerLoop, tab_CombinedMillerLoop().len() == COMBINED_MILLER_LOOP_IXS == IX_CombinedMillerLoop,
    psum(tab_FinalExponentiation(), FINAL_EXPONENTIATION_IXS as int) == TOTAL_FinalExponentiation, tab_FinalExponentiation().len() == FINAL_EXPONENTIATION_IXS == IX_FinalExponentiation,
{ lemma_tab_CombinedMillerLoop(); lemma_tab_FinalExponentiation(); }
fn main(){}
}
