pub type ElusivResult = Result<(), ElusivError>;
pub uninterp spec fn current_index_of(k: Pubkey) -> u16;
#[verifier::external_body] pub fn load_current_index_checked<'a>(a: &AccountInfo<'a>) -> (r: Result<u16, ProgramError>) ensures r is Ok ==> r->Ok_0 == current_index_of(*a.key) { unimplemented!() }
impl<N> LazyF<N> { #[verifier::external_body] pub fn get(&mut self) -> (r: N) ensures *final(self) == *old(self), old(self).val@ is Some ==> r == old(self).val@->Some_0 { unimplemented!() } }
impl Ram {
    #[verifier::external_body] pub fn read(&mut self, i: usize) -> (r: Fq) ensures *final(self) == *old(self), old(self).slots@.contains_key(i as int) ==> r == old(self).slots@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, v: Fq, i: usize) ensures final(self).slots@ == old(self).slots@.insert(i as int, v), final(self).dirty@ { unimplemented!() }
}
pub uninterp spec fn g1_zero() -> G1Projective;
pub uninterp spec fn g1_add(a: G1Projective, b: G1Projective) -> G1Projective;
pub uninterp spec fn g1_madd(a: G1Projective, b: G1Affine) -> G1Projective;
pub uninterp spec fn g1_affine(a: G1Projective) -> G1Affine;
impl G1Projective {
    pub fn new(x: Fq, y: Fq, z: Fq) -> (r: Self) ensures r == (G1Projective { x, y, z }) { G1Projective { x, y, z } }
    #[verifier::external_body] pub fn zero() -> (r: Self) ensures r == g1_zero() { unimplemented!() }
    #[verifier::external_body] pub fn add_assign_mixed(&mut self, o: &G1Affine) ensures *final(self) == g1_madd(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, o: G1Projective) ensures *final(self) == g1_add(*old(self), o) { unimplemented!() }
    #[verifier::external_body] pub fn into_affine(self) -> (r: G1Affine) ensures r == g1_affine(self) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fq12 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Fq12 { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
//@note the verifying key read from the key account's child accounts is a function of their content (decoding is not modelled)
#[derive(Clone, Copy)] pub struct ChildData { x: u64 }
#[derive(Clone, Copy)] pub struct VerifyingKey { pub public_inputs_count: usize, pub data: ChildData }
pub uninterp spec fn gabc(k: ChildData, i: int, j: int, b: u8) -> G1Affine;
pub uninterp spec fn gbase(k: ChildData) -> G1Projective;
pub uninterp spec fn alphabeta(k: ChildData) -> Fq12;
impl VerifyingKey {
    #[verifier::external_body] pub fn new(data: ChildData, n: usize) -> (r: Option<Self>) ensures r is Some ==> r->Some_0 == (VerifyingKey { public_inputs_count: n, data }) { unimplemented!() }
    #[verifier::external_body] pub fn gamma_abc(&self, i: usize, j: usize, b: u8) -> (r: G1Affine) ensures r == gabc(self.data, i as int, j as int, b) { unimplemented!() }
    #[verifier::external_body] pub fn gamma_abc_base(&self) -> (r: G1Projective) ensures r == gbase(self.data) { unimplemented!() }
    #[verifier::external_body] pub fn alpha_beta(&self) -> (r: Fq12) ensures r == alphabeta(self.data) { unimplemented!() }
}
pub uninterp spec fn key_child(a: &VKeyAccount, i: int) -> ChildData;
impl VKeyAccount { #[verifier::external_body] pub fn child(&self, i: usize) -> (r: Result<ChildData, ProgramError>) ensures r is Ok ==> r->Ok_0 == key_child(self, i as int) { unimplemented!() } }
pub open spec fn the_key(a: &VKeyAccount) -> VerifyingKey { VerifyingKey { public_inputs_count: a.public_inputs_count as usize, data: key_child(a, 0) } }

// --- the public inputs, prepared round by round -------------------------------------------------
/// the accumulated point of the current input after r rounds
pub open spec fn facc(k: ChildData, v: Seq<U256>, r: int) -> G1Projective decreases r {
    if r <= 0 { g1_zero() } else { let i = (r - 1) / 33; let b = (r - 1) % 33;
        if b == 32 { facc(k, v, r - 1) } else { g1_madd(if b == 0 { g1_zero() } else { facc(k, v, r - 1) }, gabc(k, i, b, v[i][b])) } }
}
/// the sum over the inputs that are complete after r rounds: a zero input contributes nothing
pub open spec fn fsum(k: ChildData, v: Seq<U256>, r: int) -> G1Projective decreases r {
    if r <= 0 { gbase(k) } else { let i = (r - 1) / 33; let b = (r - 1) % 33;
        if b == 32 { if v[i] != zero32_s() { g1_add(fsum(k, v, r - 1), facc(k, v, r - 1)) } else { fsum(k, v, r - 1) } } else { fsum(k, v, r - 1) } }
}
/// the stored public inputs
pub open spec fn vsig(a: &VerificationAccount) -> Seq<U256> { Seq::new(14, |i: int| sig_at(a.public_input@, i)) }
pub uninterp spec fn arr32(s: Seq<u8>) -> U256;
#[verifier::external_body] pub broadcast proof fn ax_arr32(s: Seq<u8>) requires s.len() == 32 ensures (#[trigger] arr32(s))@ == s {}
pub open spec fn sig_at(d: Seq<u8>, i: int) -> U256 { arr32(win(d, i, 32)) }
pub struct InputRef(pub U256);
impl InputRef { #[verifier::external_body] pub fn skip_mr(&self) -> (r: U256) ensures r == self.0 { unimplemented!() } }
impl VerificationAccount {
    #[verifier::external_body] pub fn public_input_at(&self, i: usize) -> (r: InputRef) ensures i < MAX_PUBLIC_INPUTS_COUNT, r.0 == sig_at(self.public_input@, i as int) { unimplemented!() }
    /// writes of the scratch memory are saved to the account
    #[verifier::external_body] pub fn serialize_rams(&mut self) -> (r: Result<(), ProgramError>) ensures r is Ok, *final(self) == (VerificationAccount { ram_fq: Ram { slots: old(self).ram_fq.slots, dirty: Ghost(false) }, ..*old(self) }) { unimplemented!() }
}
pub open spec fn point_at(m: Map<int, Fq>, o: int, p: G1Projective) -> bool { m.contains_key(o) && m.contains_key(o + 1) && m.contains_key(o + 2) && m[o] == p.x && m[o + 1] == p.y && m[o + 2] == p.z }
/// scratch memory between two steps: the sum in 0..3, the accumulator in 3..6
pub open spec fn scratch(a: &VerificationAccount, k: ChildData, r: int) -> bool {
    (r >= 33 ==> point_at(a.ram_fq.slots@, 0, fsum(k, vsig(a), r))) && (r % 33 != 0 ==> point_at(a.ram_fq.slots@, 3, facc(k, vsig(a), r)))
}
pub open spec fn frame_ram(o: &VerificationAccount, n: &VerificationAccount) -> bool { *n == (VerificationAccount { ram_fq: n.ram_fq, ..*o }) }
pub proof fn lemma_fsum_base(k: ChildData, v: Seq<U256>, r: int) requires 0 <= r <= 32 ensures fsum(k, v, r) == gbase(k) decreases r { if r > 0 { lemma_fsum_base(k, v, r - 1); } }
//@fn elusiv/src/proof/verifier.rs write_g1_projective
//@props V13
//@sig fn write_g1_projective(ram: &mut Ram, g1p: &G1Projective, offset: usize)
//@spec
    requires offset <= 3
    ensures point_at(final(ram).slots@, offset as int, *g1p), final(ram).dirty@, forall|i: int| !(offset <= i < offset + 3) ==> (#[trigger] final(ram).slots@.contains_key(i) == old(ram).slots@.contains_key(i)) && final(ram).slots@[i] == old(ram).slots@[i]
//@end
//@fn elusiv/src/proof/verifier.rs prepare_public_inputs_partial
//@props V13
//@rw read_g1_p!\(storage\.ram_fq, (\d)\) => { let p0 = storage.ram_fq.read(\1); let p1 = storage.ram_fq.read(\1 + 1); let p2 = storage.ram_fq.read(\1 + 2); G1Projective::new(p0, p1, p2) }
//@rw storage\.get_public_input\( => storage.public_input_at(
//@rw (\w+) \+= acc; => \1.add_assign(acc);
//@rw \[0; 32\] => zero32()
//@sig fn prepare_public_inputs_partial(round: usize, rounds: usize, storage: &mut VerificationAccount, vkey: &VerifyingKey) -> Option<G1Affine>
//@desugar 1
//@ret r
//@spec
    requires 1 <= vkey.public_inputs_count <= 14, round + rounds <= 33 * vkey.public_inputs_count, round < 33 * vkey.public_inputs_count, scratch(old(storage), vkey.data, round as int)
    ensures frame_ram(old(storage), final(storage)),
        round + rounds < 33 * vkey.public_inputs_count ==> scratch(final(storage), vkey.data, round + rounds),
        round + rounds == 33 * vkey.public_inputs_count ==> r == Some(g1_affine(fsum(vkey.data, vsig(old(storage)), round + rounds))),
//@beforeloop 1
    let ghost v = vsig(storage); let ghost k = vkey.data; let ghost n = vkey.public_inputs_count as int;
//@loop 1
    invariant frame_ram(old(storage), storage), v == vsig(storage), k == vkey.data, n == vkey.public_inputs_count, 1 <= n <= 14, round_end == round + rounds <= 33 * n, round <= round_next <= round_end,
        round_next < 33 * n, input_index == round_next / 33, public_input == v[input_index as int],
        round_next >= 33 ==> point_at(storage.ram_fq.slots@, 0, fsum(k, v, round_next as int)),
        round_next % 33 != 0 ==> acc == facc(k, v, round_next as int),
    decreases round_end - round_next
//@looptop 1
    let ghost r0 = round_next - 1;
    proof { if r0 < 33 { lemma_fsum_base(k, v, r0); } }
//@end

// --- the Miller loop and the final exponentiation: their rounds (generated by elusiv_computations!) are uninterpreted ---
//@const elusiv/src/proof/verifier.rs COMBINED_MILLER_LOOP_IXS
//@const elusiv/src/proof/verifier.rs FINAL_EXPONENTIATION_IXS
//@const elusiv/src/processor/proof.rs COMPUTE_VERIFICATION_IX_COUNT
pub uninterp spec fn ml(i: int) -> u8;
pub uninterp spec fn fe(i: int) -> u8;
pub open spec fn mst(k: int) -> int decreases k { if k <= 0 { 0 } else { mst(k - 1) + ml(k - 1) } }
pub open spec fn fst(k: int) -> int decreases k { if k <= 0 { 0 } else { fst(k - 1) + fe(k - 1) } }
pub proof fn lemma_mst(k: int) requires 0 <= k ensures 0 <= mst(k) <= 255 * k decreases k { if k > 0 { lemma_mst(k - 1); } }
pub proof fn lemma_fst(k: int) requires 0 <= k ensures 0 <= fst(k) <= 255 * k decreases k { if k > 0 { lemma_fst(k - 1); } }
//@note INSTRUCTION_ROUNDS and TOTAL_ROUNDS of the two computations (macro elusiv_computations): the rounds of the instructions add up to the total (proved of the tables in unit tablesv)
#[verifier::external_body] pub fn miller_rounds(i: usize) -> (r: u8) ensures i < COMBINED_MILLER_LOOP_IXS, r == ml(i as int) { unimplemented!() }
#[verifier::external_body] pub fn miller_total() -> (r: u32) ensures r == mst(COMBINED_MILLER_LOOP_IXS as int) { unimplemented!() }
#[verifier::external_body] pub fn final_rounds(i: usize) -> (r: u8) ensures i < FINAL_EXPONENTIATION_IXS, r == fe(i as int) { unimplemented!() }
#[verifier::external_body] pub fn final_total() -> (r: u32) ensures r == fst(FINAL_EXPONENTIATION_IXS as int) { unimplemented!() }
//@note combined_miller_loop_partial and final_exponentiation_partial compute their round and touch the scratch memory and their operands only: proved in unit pairing
#[verifier::external_body] pub fn combined_miller_loop_partial(round: usize, s: &mut VerificationAccount, k: &VerifyingKey, a: &G1Affine, b: &G2Affine, c: &G1Affine, pi: &G1Affine, r: &mut G2HomProjective, coeff: &mut usize, alt_b: &mut G2A) -> (res: Result<Option<Fq12>, ElusivError>)
    ensures *final(s) == (VerificationAccount { ram_fq: final(s).ram_fq, mlog: final(s).mlog, ..*old(s) }),
        res is Ok ==> final(s).mlog@ == old(s).mlog@.push(MRound { n: round as int, a: *a, b: *b, c: *c, pi: *pi,
            i: MState { ram: old(s).ram_fq.slots@, r: *old(r), coeff: *old(coeff) as int, alt_b: *old(alt_b) }, o: MState { ram: final(s).ram_fq.slots@, r: *final(r), coeff: *final(coeff) as int, alt_b: *final(alt_b) }, out: res->Ok_0 }) { unimplemented!() }
#[verifier::external_body] pub fn final_exponentiation_partial(round: usize, s: &mut VerificationAccount, f: &Fq12) -> (res: Result<Option<Fq12>, ElusivError>)
    ensures *final(s) == (VerificationAccount { ram_fq: final(s).ram_fq, flog: final(s).flog, ..*old(s) }),
        res is Ok ==> final(s).flog@ == old(s).flog@.push(FRound { n: round as int, f: *f, i: old(s).ram_fq.slots@, o: final(s).ram_fq.slots@, out: res->Ok_0 }) { unimplemented!() }
//@note usize_as_u32_safe is proved in unit basics
#[verifier::external_body] pub fn usize_as_u32_safe(x: usize) -> (r: u32) ensures r == x { unimplemented!() }
#[verifier::external_body] pub fn usize_as_u8_safe(x: usize) -> (r: u8) ensures r == x { unimplemented!() }

pub open spec fn sched(a: &VerificationAccount) -> Seq<u32> { Seq::new(a.prepare_inputs_instructions_count as nat, |i: int| a.prepare_inputs_instructions@[i] as u32) }
/// the Miller loop has run exactly the rounds 0..n in order, on the stored proof and prepared inputs, each on what its predecessor left
pub open spec fn mrun(a: &VerificationAccount, l: Seq<MRound>, n: int) -> bool {
    l.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).n == i && Some(G1A(l[i].a)) == a.a.val@ && Some(G2A(l[i].b)) == a.b.val@ && Some(G1A(l[i].c)) == a.c.val@ && Some(G1A(l[i].pi)) == a.prepared_inputs.val@ && (i > 0 ==> l[i].i == l[i - 1].o)
}
pub open spec fn frun(a: &VerificationAccount, l: Seq<FRound>, n: int) -> bool {
    l.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).n == i && Some(Wrap(l[i].f)) == a.f.val@ && (i > 0 ==> l[i].i == l[i - 1].o)
}
pub open spec fn prepared(a: &VerificationAccount, k: VerifyingKey) -> bool { a.prepared_inputs.val@ == Some(G1A(g1_affine(fsum(k.data, vsig(a), 33 * k.public_inputs_count)))) }
pub open spec fn proof_set(a: &VerificationAccount) -> bool { a.state == VerificationState::ProofSetup && a.a.val@ is Some && a.b.val@ is Some && a.c.val@ is Some }
/// progress of the computation
pub open spec fn progress(a: &VerificationAccount, k: VerifyingKey) -> bool {
    match a.step {
        VerificationStep::PublicInputPreparation => a.instruction < a.prepare_inputs_instructions_count && a.round == start(sched(a), a.instruction as int) && a.round < 33 * k.public_inputs_count
            && scratch(a, k.data, a.round as int) && a.mlog@.len() == 0 && a.flog@.len() == 0,
        VerificationStep::CombinedMillerLoop => prepared(a, k) && a.instruction < COMBINED_MILLER_LOOP_IXS && a.round == mst(a.instruction as int) && a.flog@.len() == 0
            && (if a.round == 0 { a.mlog@.len() == 0 } else { proof_set(a) && mrun(a, a.mlog@, a.round as int)
                && a.r.val@ is Some && a.alt_b.val@ is Some && a.mlog@.last().o == (MState { ram: a.ram_fq.slots@, r: a.r.val@->Some_0, coeff: a.coeff_index as int, alt_b: a.alt_b.val@->Some_0 }) }),
        VerificationStep::FinalExponentiation => prepared(a, k) && proof_set(a) && a.instruction < FINAL_EXPONENTIATION_IXS && a.round == fst(a.instruction as int)
            && frun(a, a.flog@, a.round as int) && (a.round > 0 ==> a.flog@.last().o == a.ram_fq.slots@)
            && mrun(a, a.mlog@, mst(COMBINED_MILLER_LOOP_IXS as int)) && a.mlog@.len() > 0 && a.mlog@.last().out is Some && a.f.val@ == Some(Wrap(a.mlog@.last().out->Some_0)),
    }
}
/// what every step of the computation relies on and keeps
pub open spec fn base(a: &VerificationAccount, k: VerifyingKey) -> bool {
    1 <= k.public_inputs_count <= 14 && (a.state == VerificationState::ProofSetup ==> proof_set(a)) && a.prepare_inputs_instructions_count <= MAX_PREPARE_INPUTS_INSTRUCTIONS && start(sched(a), a.prepare_inputs_instructions_count as int) == 33 * k.public_inputs_count
}
pub open spec fn cinv(a: &VerificationAccount, k: VerifyingKey) -> bool { base(a, k) && !a.ram_fq.dirty@ && progress(a, k) }
/// every round of every phase has run and the result is the verdict
pub open spec fn decided(a: &VerificationAccount, k: VerifyingKey, v: bool) -> bool {
    &&& prepared(a, k) && proof_set(a) && mrun(a, a.mlog@, mst(COMBINED_MILLER_LOOP_IXS as int)) && a.mlog@.len() > 0 && a.mlog@.last().out is Some
    &&& a.flog@.len() == fst(FINAL_EXPONENTIATION_IXS as int) > 0 && (forall|i: int| 0 <= i < a.flog@.len() ==> (#[trigger] a.flog@[i]).n == i && a.flog@[i].f == a.mlog@.last().out->Some_0 && (i > 0 ==> a.flog@[i].i == a.flog@[i - 1].o))
    &&& a.flog@.last().out is Some && v == (alphabeta(k.data) == a.flog@.last().out->Some_0)
}
/// the computation changes its own fields only
pub open spec fn own(o: &VerificationAccount, n: &VerificationAccount) -> bool {
    *n == (VerificationAccount { instruction: n.instruction, round: n.round, step: n.step, coeff_index: n.coeff_index, prepared_inputs: n.prepared_inputs, r: n.r, f: n.f, alt_b: n.alt_b, ram_fq: n.ram_fq, mlog: n.mlog, flog: n.flog, ..*o })
}
pub proof fn lemma_start_mono(s: Seq<u32>, a: int, b: int) requires 0 <= a <= b ensures start(s, a) <= start(s, b) decreases b - a { if a < b { lemma_start_mono(s, a, b - 1); } }
//@fn elusiv/src/proof/verifier.rs prepare_public_inputs
//@props V13
//@ret r
//@spec
    requires cinv(old(verification_account), *vkey), old(verification_account).step is PublicInputPreparation, instruction == old(verification_account).instruction, round == old(verification_account).round
    ensures own(old(verification_account), final(verification_account)), r is Ok, base(final(verification_account), *vkey), progress(final(verification_account), *vkey)
//@top
    proof { lemma_start_mono(sched(verification_account), instruction as int + 1, verification_account.prepare_inputs_instructions_count as int); assert(start(sched(verification_account), instruction as int + 1) == round + sched(verification_account)[instruction as int]); }
    let ghost a0 = *verification_account;
//@bottom
//@end
//@fn elusiv/src/proof/verifier.rs combined_miller_loop
//@props V13
//@rw CombinedMillerLoop::INSTRUCTION_ROUNDS\[(\w+)\] => miller_rounds(\1)
//@rw CombinedMillerLoop::TOTAL_ROUNDS => miller_total()
//@desugar 1
//@ret r
//@spec
    requires cinv(old(verification_account), *vkey), old(verification_account).step is CombinedMillerLoop, proof_set(old(verification_account)), instruction == old(verification_account).instruction, round == old(verification_account).round
    ensures own(old(verification_account), final(verification_account)), r is Ok ==> base(final(verification_account), *vkey) && progress(final(verification_account), *vkey)
//@top
    let ghost a0 = *verification_account;
    proof { lemma_mst(instruction as int + 1); assert(mst(instruction as int + 1) == mst(instruction as int) + ml(instruction as int)); }
//@loop 1
    invariant a0 == *old(verification_account), cinv(&a0, *vkey), proof_set(&a0), a0.step is CombinedMillerLoop, a0.round == round, instruction == a0.instruction, *verification_account == (VerificationAccount { ram_fq: verification_account.ram_fq, mlog: verification_account.mlog, ..a0 }), round <= round_next <= round_end, round_end == round + rounds,
        mrun(verification_account, verification_account.mlog@, round_next as int), round_next > round ==> result == verification_account.mlog@.last().out, round_next == round ==> result is None,
        round_next > 0 ==> verification_account.mlog@.last().o == (MState { ram: verification_account.ram_fq.slots@, r, coeff: coeff_index as int, alt_b }),
        Some(G1A(a)) == a0.a.val@, Some(G2A(b)) == a0.b.val@, Some(G1A(c)) == a0.c.val@, Some(G1A(prepared_inputs)) == a0.prepared_inputs.val@,
    decreases round_end - round_next
//@end
//@fn elusiv/src/proof/verifier.rs final_exponentiation
//@props V13
//@rw FinalExponentiation::INSTRUCTION_ROUNDS\[(\w+)\] => final_rounds(\1)
//@rw FinalExponentiation::TOTAL_ROUNDS => final_total()
//@rw FinalExponentiation::IX_COUNT => FINAL_EXPONENTIATION_IXS
//@desugar 1
//@ret r
//@spec
    requires cinv(old(verification_account), *vkey), old(verification_account).step is FinalExponentiation, instruction == old(verification_account).instruction, round == old(verification_account).round
    ensures own(old(verification_account), final(verification_account)), base(final(verification_account), *vkey),
        r is Ok && r->Ok_0 is None ==> progress(final(verification_account), *vkey),
        r is Ok && r->Ok_0 is Some ==> decided(final(verification_account), *vkey, r->Ok_0->Some_0),
//@top
    let ghost a0 = *verification_account;
    proof { lemma_fst(instruction as int + 1); assert(fst(instruction as int + 1) == fst(instruction as int) + fe(instruction as int)); }
//@loop 1
    invariant a0 == *old(verification_account), cinv(&a0, *vkey), a0.step is FinalExponentiation, a0.round == round, instruction == a0.instruction, *verification_account == (VerificationAccount { ram_fq: verification_account.ram_fq, flog: verification_account.flog, ..a0 }), round <= round_next <= round_end, round_end == round + rounds,
        frun(verification_account, verification_account.flog@, round_next as int), round_next > round ==> result == verification_account.flog@.last().out, round_next == round ==> result is None,
        round_next > 0 ==> verification_account.flog@.last().o == verification_account.ram_fq.slots@,
        Some(Wrap(f)) == a0.f.val@,
    decreases round_end - round_next
//@end
//@fn elusiv/src/proof/verifier.rs verify_partial
//@props V13 V01
//@ret r
//@spec
    requires cinv(old(verification_account), *vkey)
    ensures own(old(verification_account), final(verification_account)), base(final(verification_account), *vkey),
        r is Ok && r->Ok_0 is None ==> cinv(final(verification_account), *vkey),
        r is Ok && r->Ok_0 is Some ==> decided(final(verification_account), *vkey, r->Ok_0->Some_0),
        r == Err::<Option<bool>, ElusivError>(ElusivError::InvalidAccountState) && !(old(verification_account).state == VerificationState::ProofSetup) ==> *final(verification_account) == *old(verification_account)
//@end
//@fn elusiv/src/processor/proof.rs compute_verification as compute_child
//@props V13 V01
//@closure 1
//@sig fn compute_child(verification_account: &mut VerificationAccount, vkey_account: &VKeyAccount, instruction_index: u16, data: ChildData) -> Result<Option<bool>, ElusivError>
//@ret r
//@spec
    requires cinv(old(verification_account), the_key(vkey_account)), data == key_child(vkey_account, 0)
    ensures own(old(verification_account), final(verification_account)),
        r is Ok && r->Ok_0 is None ==> cinv(final(verification_account), the_key(vkey_account)),
        r is Ok && r->Ok_0 is Some ==> decided(final(verification_account), the_key(vkey_account), r->Ok_0->Some_0),
//@end
//@fn elusiv/src/processor/proof.rs compute_verification
//@props V01
//@closure_call 1 CHILD
//@rw vkey_account\s*\.execute_on_child_account_mut\((\w+), CHILD\)\? => { let child = vkey_account.child(\1)?; compute_child(verification_account, vkey_account, instruction_index, child) }
//@rw instructions::load_current_index_checked => load_current_index_checked
//@rw let instruction_index = if cfg!\(test\) \{[^}]*\} else \{(.*?)\}; => let instruction_index = {\1};
//@ret r
//@spec
    requires vinv(old(verification_account)), old(verification_account).is_verified is None ==> cinv(old(verification_account), the_key(vkey_account))
    ensures
        r is Ok ==> vkey_account.version != 0 && vkey_id == old(verification_account).vkey_id,
        r is Ok ==> old(verification_account).is_verified is None && (old(verification_account).state == VerificationState::None || old(verification_account).state == VerificationState::ProofSetup),
        r is Ok ==> own(old(verification_account), &VerificationAccount { is_verified: ElusivOption::None, ..*final(verification_account) }),
        r is Ok ==> vinv(final(verification_account)) && (final(verification_account).is_verified is None ==> cinv(final(verification_account), the_key(vkey_account))),
        r is Ok && final(verification_account).is_verified == ElusivOption::Some(true) ==> decided(final(verification_account), the_key(vkey_account), true),
//@end

// --- the stages around the computation keep its progress ---------------------------------------
pub proof fn lemma_start_ext(s: Seq<u32>, t: Seq<u32>, k: int) requires 0 <= k <= s.len(), s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == t[i] ensures start(s, k) == start(t, k) decreases k { if k > 0 { lemma_start_ext(s, t, k - 1); } }
/// init_verification leaves a computation at its first round
pub proof fn lemma_opened(o: VerificationAccount, n: VerificationAccount, k: VerifyingKey, vkey_id: u32, request: ProofRequest, t: Seq<u32>, d: VerificationAccountData, ins: Seq<u32>)
    requires fresh(&o), only_set(&o, &n, vkey_id, request, t, d), request is Send, schedule_of(unwrapped(signals(&request->Send_0)), ins), fits(ins), stored(&n, signals(&request->Send_0), ins), k.public_inputs_count == 14
    ensures cinv(&n, k), forall|i: int| 0 <= i < 14 ==> #[trigger] vsig(&n)[i] == signals(&request->Send_0)[i].0
{
    broadcast use ax_arr32;
    let s = sched(&n);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == ins[i] by { assert(n.prepare_inputs_instructions@[i] == ins[i] as u16); assert(ins[i] <= 462); }
    lemma_start_ext(s, ins, ins.len() as int);
    assert forall|i: int| 0 <= i < 14 implies #[trigger] vsig(&n)[i] == signals(&request->Send_0)[i].0 by { assert(win(n.public_input@, i, 32) == signals(&request->Send_0)[i].0@); assert(arr32(win(n.public_input@, i, 32))@ =~= signals(&request->Send_0)[i].0@); assert(arr32(win(n.public_input@, i, 32)) =~= signals(&request->Send_0)[i].0); }
}
/// the fee transfer and the proof setup keep it
pub proof fn lemma_stages(o: VerificationAccount, n: VerificationAccount, k: VerifyingKey)
    requires cinv(&o, k), o.state != VerificationState::ProofSetup,
        n == (VerificationAccount { state: n.state, other_data: n.other_data, ..o }) && n.state == VerificationState::FeeTransferred
        || n == (VerificationAccount { state: n.state, a: n.a, b: n.b, c: n.c, ..o }) && proof_set(&n),
    ensures cinv(&n, k)
{ assert(sched(&n) =~= sched(&o)); assert(vsig(&n) =~= vsig(&o)); }
