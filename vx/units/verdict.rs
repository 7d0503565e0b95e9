//@include common.rs
verus! {
//@trust pairing.inc.rs
// the verdict over the contracts of the rounds (unit pairing): whatever the transactions are, it is the unsplit computation's
//@const elusiv/src/proof/verifier.rs COMBINED_MILLER_LOOP_IXS
//@const elusiv/src/proof/verifier.rs FINAL_EXPONENTIATION_IXS
//@const elusiv/src/processor/proof.rs COMPUTE_VERIFICATION_IX_COUNT
pub open spec fn psum(t: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(t, n - 1) + t[n - 1] } }
//@py schedules rac/elusiv CombinedMillerLoop|FinalExponentiation
pub type ElusivResult = Result<(), ElusivError>;
pub open spec fn mt() -> Seq<u8> { tab_CombinedMillerLoop() }
pub open spec fn ft() -> Seq<u8> { tab_FinalExponentiation() }
pub proof fn lemma_psum(t: Seq<u8>, a: int, b: int) requires 0 <= a <= b ensures 0 <= psum(t, a) <= psum(t, b) decreases b { if b > a { lemma_psum(t, a, b - 1); } else if a > 0 { lemma_psum(t, a - 1, a - 1); } }
/// the schedules cover exactly the rounds there are
pub proof fn lemma_tables() ensures mt().len() == COMBINED_MILLER_LOOP_IXS, ft().len() == FINAL_EXPONENTIATION_IXS, psum(mt(), COMBINED_MILLER_LOOP_IXS as int) == 2020 == TOTAL_CombinedMillerLoop, psum(ft(), FINAL_EXPONENTIATION_IXS as int) == 408 == TOTAL_FinalExponentiation,
    forall|i: int| 0 <= i < COMBINED_MILLER_LOOP_IXS ==> #[trigger] psum(mt(), i + 1) <= 2020, forall|i: int| 0 <= i < FINAL_EXPONENTIATION_IXS ==> #[trigger] psum(ft(), i + 1) <= 408,
    psum(mt(), 1) > 0, psum(ft(), 1) > 0
{
    lemma_tab_CombinedMillerLoop(); lemma_tab_FinalExponentiation();
    assert forall|i: int| 0 <= i < COMBINED_MILLER_LOOP_IXS implies #[trigger] psum(mt(), i + 1) <= 2020 by { lemma_psum(mt(), i + 1, COMBINED_MILLER_LOOP_IXS as int); }
    assert forall|i: int| 0 <= i < FINAL_EXPONENTIATION_IXS implies #[trigger] psum(ft(), i + 1) <= 408 by { lemma_psum(ft(), i + 1, FINAL_EXPONENTIATION_IXS as int); }
    assert(psum(mt(), 1) > 0 && psum(ft(), 1) > 0) by(compute_only);
}
pub fn miller_rounds(i: usize) -> (r: u8) ensures i < mt().len(), r == mt()[i as int] { let t = x_tab_CombinedMillerLoop(); if i >= t.len() { abort() } t[i] }
pub fn final_rounds(i: usize) -> (r: u8) ensures i < ft().len(), r == ft()[i as int] { let t = x_tab_FinalExponentiation(); if i >= t.len() { abort() } t[i] }
//@note usize_as_u32_safe and usize_as_u8_safe are proved in unit basics
#[verifier::external_body] pub fn usize_as_u32_safe(x: usize) -> (r: u32) ensures r == x { unimplemented!() }
#[verifier::external_body] pub fn usize_as_u8_safe(x: usize) -> (r: u8) ensures r == x { unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fq12 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Fq12 { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn alphabeta(k: VerifyingKey) -> Fq12;
impl VerifyingKey { #[verifier::external_body] pub fn alpha_beta(&self) -> (r: Fq12) ensures r == alphabeta(*self) { unimplemented!() } }
impl VerificationAccount { #[verifier::external_body] pub fn serialize_rams(&mut self) -> (r: Result<(), ElusivError>) ensures r is Ok, *final(self) == *old(self) { unimplemented!() } }
/// the frames are at the bottom of the scratch memories
pub open spec fn ground(s: &VerificationAccount) -> bool { s.ram_fq2.fr@ == 0 && s.ram_fq6.fr@ == 0 && s.ram_fq12.fr@ == 0 && s.ram_fq2.cap@ == CAP_FQ2 && s.ram_fq6.cap@ == CAP_FQ6 && s.ram_fq12.cap@ == CAP_FQ12 }
pub open spec fn proof_set(c: &Core) -> bool { c.state == VerificationState::ProofSetup && c.a.val@ is Some && c.b.val@ is Some && c.c.val@ is Some }
/// the operands: the verifying key, the proof points and the prepared inputs
pub open spec fn operands(c: &Core, k: VerifyingKey) -> In { In { k, a: c.a.val@->Some_0.0, b: c.b.val@->Some_0.0, c: c.c.val@->Some_0.0, p: c.prepared_inputs.val@->Some_0.0 } }
/// the Groth16 equation: e(A, B) e(inputs, gamma)^-1 e(C, delta)^-1 = e(alpha, beta), the left side as the unsplit algorithm computes it
pub open spec fn equation(i: In) -> bool { alphabeta(i.k) == fexp(miller(i)) }
pub open spec fn progress(s: &VerificationAccount, k: VerifyingKey) -> bool {
    let c = s.core;
    &&& ground(s) && (c.state == VerificationState::ProofSetup ==> proof_set(&c))
    &&& match c.step {
        VerificationStep::PublicInputPreparation => c.coeff_index == 0,
        VerificationStep::CombinedMillerLoop => c.prepared_inputs.val@ is Some && c.instruction < COMBINED_MILLER_LOOP_IXS && c.round == psum(mt(), c.instruction as int)
            && (if c.round == 0 { c.coeff_index == 0 } else { proof_set(&c) && c.r.val@ is Some && c.alt_b.val@ is Some && miller_inv(operands(&c, k), c.round as int, s, c.r.val@->Some_0, c.coeff_index as int, c.alt_b.val@->Some_0.0) }),
        VerificationStep::FinalExponentiation => proof_set(&c) && c.prepared_inputs.val@ is Some && c.instruction < FINAL_EXPONENTIATION_IXS && c.round == psum(ft(), c.instruction as int)
            && c.f.val@ == Some(Wrap(miller(operands(&c, k)))) && fe_inv(c.round as int, s, miller(operands(&c, k))),
    }
}
//@fn elusiv/src/proof/verifier.rs combined_miller_loop
//@props V12 V13
//@rw CombinedMillerLoop::INSTRUCTION_ROUNDS\[(\w+)\] => miller_rounds(\1)
//@rw CombinedMillerLoop::TOTAL_ROUNDS => TOTAL_CombinedMillerLoop
//@rw verification_account\s*\.\s*(get_|set_|r\b|alt_b\b|a\b|b\b|c\b|f\b|prepared_inputs\b) => verification_account.core.\1
//@desugar 1
//@ret r
//@spec
    requires progress(old(verification_account), *vkey), old(verification_account).core.step is CombinedMillerLoop, proof_set(&old(verification_account).core), instruction == old(verification_account).core.instruction, round == old(verification_account).core.round
    ensures r is Ok ==> progress(final(verification_account), *vkey)
//@top
    let ghost c0 = verification_account.core; let ghost i0 = operands(&c0, *vkey);
    proof { lemma_tables(); assert(psum(mt(), instruction as int + 1) == psum(mt(), instruction as int) + mt()[instruction as int]); }
//@loop 1
    invariant verification_account.core == c0, ground(verification_account), i0 == operands(&c0, *vkey), a == i0.a, b == i0.b, c == i0.c, prepared_inputs == i0.p, round <= round_next <= round_end, round_end == round + rounds <= 2020,
        round_next < 2020 ==> miller_inv(i0, round_next as int, verification_account, r, coeff_index as int, alt_b.0),
        round_next < 2020 ==> result is None, round_next == 2020 && round < 2020 ==> result == Some(miller(i0)),
    decreases round_end - round_next
//@end
//@fn elusiv/src/proof/verifier.rs final_exponentiation
//@props V12 V13
//@rw FinalExponentiation::INSTRUCTION_ROUNDS\[(\w+)\] => final_rounds(\1)
//@rw FinalExponentiation::TOTAL_ROUNDS => TOTAL_FinalExponentiation
//@rw FinalExponentiation::IX_COUNT => FINAL_EXPONENTIATION_IXS
//@rw verification_account\s*\.\s*(get_|set_|r\b|alt_b\b|a\b|b\b|c\b|f\b|prepared_inputs\b) => verification_account.core.\1
//@desugar 1
//@ret r
//@spec
    requires progress(old(verification_account), *vkey), old(verification_account).core.step is FinalExponentiation, instruction == old(verification_account).core.instruction, round == old(verification_account).core.round
    ensures r is Ok && r->Ok_0 is None ==> progress(final(verification_account), *vkey),
        r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0 == equation(operands(&old(verification_account).core, *vkey)),
//@top
    let ghost c0 = verification_account.core; let ghost i0 = operands(&c0, *vkey);
    proof { lemma_tables(); assert(psum(ft(), instruction as int + 1) == psum(ft(), instruction as int) + ft()[instruction as int]); }
//@loop 1
    invariant verification_account.core == c0, ground(verification_account), i0 == operands(&c0, *vkey), f == miller(i0), round <= round_next <= round_end, round_end == round + rounds <= 408,
        round_next < 408 ==> fe_inv(round_next as int, verification_account, f),
        round_next < 408 ==> result is None, round_next == 408 && round < 408 ==> result == Some(fexp(f)),
    decreases round_end - round_next
//@end
//@note prepare_public_inputs is proved in unit compute: it leaves the later phases' state alone and ends with the prepared inputs set, at round 0 of the Miller loop
#[verifier::external_body] pub fn prepare_public_inputs(s: &mut VerificationAccount, vkey: &VerifyingKey, instruction: usize, round: usize) -> (r: Result<(), ElusivError>)
    requires old(s).core.step is PublicInputPreparation
    ensures final(s).ram_fq2 == old(s).ram_fq2, final(s).ram_fq6 == old(s).ram_fq6, final(s).ram_fq12 == old(s).ram_fq12,
        final(s).core == (Core { step: final(s).core.step, round: final(s).core.round, instruction: final(s).core.instruction, prepared_inputs: final(s).core.prepared_inputs, rest: final(s).core.rest, ..old(s).core }),
        r is Ok ==> final(s).core.step is PublicInputPreparation || final(s).core.step is CombinedMillerLoop && final(s).core.round == 0 && final(s).core.instruction == 0 && final(s).core.prepared_inputs.val@ is Some { unimplemented!() }
//@fn elusiv/src/proof/verifier.rs verify_partial
//@props V12 V13
//@rw verification_account\s*\.\s*get_ => verification_account.core.get_
//@ret r
//@spec
    requires progress(old(verification_account), *vkey)
    ensures r is Ok && r->Ok_0 is None ==> progress(final(verification_account), *vkey),
        r is Ok && r->Ok_0 is Some ==> proof_set(&old(verification_account).core) && r->Ok_0->Some_0 == equation(operands(&old(verification_account).core, *vkey)),
//@end
/// the stages around the computation keep its progress: an account that was just opened is at the first round; the fee transfer and the setup of the proof come before the Miller loop
pub proof fn lemma_opened(s: VerificationAccount, k: VerifyingKey) requires ground(&s), s.core.coeff_index == 0, s.core.step is PublicInputPreparation, s.core.state == VerificationState::None ensures progress(&s, k) {}
pub proof fn lemma_stages(o: VerificationAccount, n: VerificationAccount, k: VerifyingKey)
    requires progress(&o, k), o.core.state != VerificationState::ProofSetup,
        n == (VerificationAccount { core: Core { state: n.core.state, rest: n.core.rest, ..o.core }, ..o }) && n.core.state != VerificationState::ProofSetup
        || n == (VerificationAccount { core: Core { state: n.core.state, a: n.core.a, b: n.core.b, c: n.core.c, ..o.core }, ..o }) && proof_set(&n.core),
    ensures progress(&n, k)
{}
} // verus!
fn main() {}
