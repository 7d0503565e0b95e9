// the rounds of the pairing computation against the unsplit algorithm
pub open spec fn n4(a: int, b: int, c: int, d: int) -> int { a + (b + (c + d * 0x1_0000_0000_0000_0000) * 0x1_0000_0000_0000_0000) * 0x1_0000_0000_0000_0000 }
pub use ElusivError::*;
//@note ark_ff / ark_bn254: the operations of the fields Fq2, Fq6, Fq12 are uninterpreted; assumed are the commutativity of + and *, square(x) = x * x, double(x) = x + x
//@py fieldops Fq2 Fq6 Fq12
//@py pairing rac/elusiv
impl Fq6 { pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> (r: Self) ensures r == (Fq6 { c0, c1, c2 }) { Fq6 { c0, c1, c2 } } }
/// the element of the base field with the given value modulo its order
pub uninterp spec fn fq(n: int) -> Fq;
pub uninterp spec fn mulfp(a: Fq2, b: Fq) -> Fq2;
pub uninterp spec fn nr6(a: Fq6) -> Fq6;
pub uninterp spec fn nonres() -> Fq2;
pub uninterp spec fn twx() -> Fq2;
pub uninterp spec fn twy() -> Fq2;
pub uninterp spec fn conj(a: Fq12) -> Fq12;
pub uninterp spec fn cysq(a: Fq12) -> Fq12;
pub open spec fn two_inv() -> Fq { fq(two_inv_limbs() * qri()) }
pub open spec fn coeff_b() -> Fq2 { Fq2 { c0: fq(coeff_b0()), c1: fq(coeff_b1()) } }
#[verifier::external_body] pub fn x_two_inv() -> (r: Fq) ensures r == two_inv() { unimplemented!() }
#[verifier::external_body] pub fn x_coeff_b() -> (r: Fq2) ensures r == coeff_b() { unimplemented!() }
#[verifier::external_body] pub fn x_twx() -> (r: Fq2) ensures r == twx() { unimplemented!() }
#[verifier::external_body] pub fn x_twy() -> (r: Fq2) ensures r == twy() { unimplemented!() }
#[verifier::external_body] pub fn x_nonres() -> (r: Fq2) ensures r == nonres() { unimplemented!() }
#[verifier::external_body] pub fn x_nr6(a: &Fq6) -> (r: Fq6) ensures r == nr6(*a) { unimplemented!() }
impl Fq2 { #[verifier::external_body] pub fn mul_assign_by_fp(&mut self, f: &Fq) ensures *final(self) == mulfp(*old(self), *f) { unimplemented!() } }
impl Fq12 {
    pub fn new(c0: Fq6, c1: Fq6) -> (r: Self) ensures r == (Fq12 { c0, c1 }) { Fq12 { c0, c1 } }
    #[verifier::external_body] pub fn conjugate(&mut self) ensures *final(self) == conj(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn cyclotomic_square(&self) -> (r: Self) ensures r == cysq(*self) { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct G1Affine { pub x: Fq, pub y: Fq, pub infinity: bool }
#[derive(Clone, Copy)] pub struct G2Affine { pub x: Fq2, pub y: Fq2, pub infinity: bool }
#[derive(Clone, Copy)] pub struct G2HomProjective { pub x: Fq2, pub y: Fq2, pub z: Fq2 }
pub open spec fn g2neg(b: G2Affine) -> G2Affine { if b.infinity { b } else { G2Affine { y: fq2_neg(b.y), ..b } } }
impl G1Affine { pub fn is_zero(&self) -> (r: bool) ensures r == self.infinity { self.infinity } }
impl G2Affine {
    pub fn new(x: Fq2, y: Fq2, infinity: bool) -> (r: Self) ensures r == (G2Affine { x, y, infinity }) { G2Affine { x, y, infinity } }
    #[verifier::external_body] pub fn neg(self) -> (r: Self) ensures r == g2neg(self) { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct G2A(pub G2Affine);
impl G2A {
//@fn elusiv/src/fields.rs in "impl G2A" set
//@props V12
//@spec
    ensures final(self).0 == v
//@end
//@fn elusiv/src/fields.rs in "impl G2A" get
//@props V12
//@ret r
//@spec
    ensures *r == self.0
//@end
}
pub type Coefficients = (Fq2, Fq2, Fq2);
pub trait OrErr: Sized { type T; spec fn okv(self) -> Option<Self::T>; fn or_err(self, e: ElusivError) -> (r: Result<Self::T, ElusivError>) ensures r is Ok <==> self.okv() is Some, r is Ok ==> self.okv() == Some(r->Ok_0); }
impl<X> OrErr for Result<X, ElusivError> { type T = X; open spec fn okv(self) -> Option<X> { match self { Ok(x) => Some(x), Err(_) => None } } fn or_err(self, e: ElusivError) -> (r: Result<X, ElusivError>) { match self { Ok(x) => Ok(x), Err(_) => Err(e) } } }
//@note scratch memory (LazyRAM): read, write and the frames are proved in unit lazy; the sizes are those of the account, every access is proved in range
pub struct Ram<T> { pub m: Ghost<Map<int, T>>, pub fr: Ghost<int>, pub cap: Ghost<int> }
impl<T> Ram<T> {
    pub open spec fn at(&self, i: int) -> T { self.m@[self.fr@ + i] }
    pub open spec fn room(&self, n: int) -> bool { 0 <= self.fr@ && self.fr@ + n <= self.cap@ }
    /// the frame and the cells below it are untouched
    pub open spec fn kept(&self, o: &Self) -> bool { self.fr@ == o.fr@ && self.cap@ == o.cap@ && forall|i: int| i < o.fr@ ==> #[trigger] self.m@[i] == o.m@[i] }
    #[verifier::external_body] pub fn read(&mut self, i: usize) -> (r: T) requires old(self).room(i + 1) ensures *final(self) == *old(self), r == old(self).at(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, v: T, i: usize) requires old(self).room(i + 1) ensures final(self).m@ == old(self).m@.insert(old(self).fr@ + i, v), final(self).fr == old(self).fr, final(self).cap == old(self).cap { unimplemented!() }
    #[verifier::external_body] pub fn inc_frame(&mut self, n: usize) ensures final(self).fr@ == old(self).fr@ + n, final(self).m == old(self).m, final(self).cap == old(self).cap { unimplemented!() }
    #[verifier::external_body] pub fn dec_frame(&mut self, n: usize) requires old(self).fr@ >= n ensures final(self).fr@ == old(self).fr@ - n, final(self).m == old(self).m, final(self).cap == old(self).cap { unimplemented!() }
}
pub struct Rest { x: u64 }
#[derive(Clone, Copy)] pub struct G1A(pub G1Affine);
#[derive(Clone, Copy)] pub struct Wrap<N>(pub N);
//@note Lazy values of the account: proved in unit lazy
#[verifier::reject_recursive_types(N)]
pub struct LazyF<N> { pub val: Ghost<Option<N>> }
impl<N> LazyF<N> {
    #[verifier::external_body] pub fn set(&mut self, v: N) ensures final(self).val@ == Some(v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&mut self) -> (r: N) ensures *final(self) == *old(self), old(self).val@ is Some ==> r == old(self).val@->Some_0 { unimplemented!() }
}
//@py pairing_model
pub open spec fn kept(n: &VerificationAccount, o: &VerificationAccount) -> bool { n.ram_fq2.kept(&o.ram_fq2) && n.ram_fq6.kept(&o.ram_fq6) && n.ram_fq12.kept(&o.ram_fq12) && n.core == o.core }
pub open spec fn room(s: &VerificationAccount, n2: int, n6: int, n12: int) -> bool { s.ram_fq2.room(n2) && s.ram_fq6.room(n6) && s.ram_fq12.room(n12) }
//@fn elusiv/src/proof/verifier.rs new_coeffs
//@props V12
//@ret r
//@spec
    ensures r == (c0, c1, c2)
//@end
//@fn elusiv/src/proof/verifier.rs frobenius_map_fq2_one
//@props V12
//@ret r
//@spec
    ensures r == fq2_frob(f, 1)
//@end
//@fn elusiv/src/proof/verifier.rs mul_base_field_by_nonresidue
//@props V12
//@rw Fp12ParamsWrapper::<Fq12Parameters>::mul_base_field_by_nonresidue => x_nr6
//@ret r
//@spec
    ensures r == nr6(v)
//@end
//@fn elusiv/src/proof/verifier.rs sub_and_mul_base_field_by_nonresidue
//@props V12
//@ret r
//@spec
    ensures r == fq6_sub(x, nr6(y))
//@end
/// f * (c0 + c1 v)
pub open spec fn mul01(f: Fq6, c0: Fq2, c1: Fq2) -> Fq6 {
    let v0 = fq2_mul(f.c0, c0); let v1 = fq2_mul(f.c1, c1);
    Fq6 { c0: fq2_add(fq2_mul(fq2_sub(fq2_mul(fq2_add(f.c1, f.c2), c1), v1), nonres()), v0),
        c1: fq2_sub(fq2_sub(fq2_mul(fq2_add(f.c0, f.c1), fq2_add(c0, c1)), v0), v1),
        c2: fq2_add(fq2_sub(fq2_mul(fq2_add(f.c0, f.c2), c0), v0), v1) }
}
//@fn elusiv/src/proof/verifier.rs mul_fq6_by_c0_c1_0
//@props V12
//@rw Fp6ParamsWrapper::<Fq6Parameters>::NONRESIDUE => x_nonres()
//@ret r
//@spec
    ensures r == mul01(f, *c0, *c1)
//@end
//@fn elusiv/src/proof/verifier.rs mul_by_fp
//@props V12
//@ret r
//@spec
    ensures r == mulfp(*v, fp)
//@end
//@fn elusiv/src/proof/verifier.rs conjugate
//@props V12
//@ret r
//@spec
    ensures r == conj(f)
//@end
//@fn elusiv/src/proof/verifier.rs frobenius_map
//@props V12
//@ret r
//@spec
    ensures r == fq12_frob(f, u as int)
//@end

// --- doubling and addition of the point of the second group, with the coefficients of the line --------------------------------
pub open spec fn sq2(a: Fq2) -> Fq2 { fq2_mul(a, a) }
pub open spec fn dbl2(a: Fq2) -> Fq2 { fq2_add(a, a) }
pub open spec fn d_a(r: G2HomProjective) -> Fq2 { mulfp(fq2_mul(r.x, r.y), two_inv()) }
pub open spec fn d_b(r: G2HomProjective) -> Fq2 { sq2(r.y) }
pub open spec fn d_e(r: G2HomProjective) -> Fq2 { fq2_mul(coeff_b(), fq2_add(dbl2(sq2(r.z)), sq2(r.z))) }
pub open spec fn d_f(r: G2HomProjective) -> Fq2 { fq2_add(dbl2(d_e(r)), d_e(r)) }
pub open spec fn d_g(r: G2HomProjective) -> Fq2 { mulfp(fq2_add(d_b(r), d_f(r)), two_inv()) }
pub open spec fn d_h(r: G2HomProjective) -> Fq2 { fq2_sub(sq2(fq2_add(r.y, r.z)), fq2_add(d_b(r), sq2(r.z))) }
/// doubling (ark_ec, models/bn/g2.rs, doubling_step)
pub open spec fn dbl(r: G2HomProjective) -> (G2HomProjective, Coefficients) {
    let e2 = sq2(d_e(r)); let j = sq2(r.x);
    (G2HomProjective { x: fq2_mul(d_a(r), fq2_sub(d_b(r), d_f(r))), y: fq2_sub(sq2(d_g(r)), fq2_add(dbl2(e2), e2)), z: fq2_mul(d_b(r), d_h(r)) },
        (fq2_neg(d_h(r)), fq2_add(dbl2(j), j), fq2_sub(d_e(r), d_b(r))))
}
/// scratch memory before the given round of a doubling
pub open spec fn dbl_inv(k: int, s: &VerificationAccount, r: G2HomProjective) -> bool {
    k >= 1 ==> { let m = s.ram_fq2; m.at(0) == d_a(r) && m.at(1) == d_b(r) && m.at(2) == d_e(r) && m.at(3) == d_f(r) && m.at(4) == d_g(r) && m.at(5) == d_h(r) && m.at(6) == sq2(d_e(r)) }
}
//@fn expanded:rac/elusiv doubling_step_partial
//@props V12 V13
//@rw \bTWO_INV\b => x_two_inv()
//@rw \bCOEFF_B\b => x_coeff_b()
//@ret res
//@spec
    requires round < 2, room(old(storage), 7, 0, 0), dbl_inv(round as int, old(storage), *old(r))
    ensures res is Ok, kept(final(storage), old(storage)),
        round == 0 ==> res->Ok_0 is None && *final(r) == *old(r) && dbl_inv(1, final(storage), *final(r)),
        round == 1 ==> *final(r) == dbl(*old(r)).0 && res->Ok_0 == Some(dbl(*old(r)).1)
//@end
pub open spec fn a_th(r: G2HomProjective, q: G2Affine) -> Fq2 { fq2_sub(r.y, fq2_mul(q.y, r.z)) }
pub open spec fn a_la(r: G2HomProjective, q: G2Affine) -> Fq2 { fq2_sub(r.x, fq2_mul(q.x, r.z)) }
pub open spec fn a_e(r: G2HomProjective, q: G2Affine) -> Fq2 { fq2_mul(a_la(r, q), sq2(a_la(r, q))) }
pub open spec fn a_f(r: G2HomProjective, q: G2Affine) -> Fq2 { fq2_mul(r.z, sq2(a_th(r, q))) }
pub open spec fn a_g(r: G2HomProjective, q: G2Affine) -> Fq2 { fq2_mul(r.x, sq2(a_la(r, q))) }
/// addition (ark_ec, models/bn/g2.rs, addition_step)
pub open spec fn add(r: G2HomProjective, q: G2Affine) -> (G2HomProjective, Coefficients) {
    let th = a_th(r, q); let la = a_la(r, q); let e = a_e(r, q); let g = a_g(r, q);
    let h = fq2_add(e, fq2_sub(a_f(r, q), dbl2(g)));
    (G2HomProjective { x: fq2_mul(la, h), y: fq2_sub(fq2_mul(th, fq2_sub(g, h)), fq2_mul(e, r.y)), z: fq2_mul(r.z, e) },
        (la, fq2_neg(th), fq2_sub(fq2_mul(th, q.x), fq2_mul(la, q.y))))
}
pub open spec fn add_inv(k: int, s: &VerificationAccount, r: G2HomProjective, q: G2Affine) -> bool {
    k >= 1 ==> { let m = s.ram_fq2; m.at(0) == a_th(r, q) && m.at(1) == a_la(r, q) && m.at(2) == a_e(r, q) && m.at(3) == a_f(r, q) && m.at(4) == a_g(r, q) }
}
//@fn expanded:rac/elusiv addition_step_partial
//@props V12 V13
//@ret res
//@spec
    requires round < 2, room(old(storage), 5, 0, 0), add_inv(round as int, old(storage), *old(r), *q)
    ensures res is Ok, kept(final(storage), old(storage)),
        round == 0 ==> res->Ok_0 is None && *final(r) == *old(r) && add_inv(1, final(storage), *final(r), *q),
        round == 1 ==> *final(r) == add(*old(r), *q).0 && res->Ok_0 == Some(add(*old(r), *q).1)
//@end
/// the image of a point under the twisted Frobenius endomorphism (ark_ec, models/bn/g2.rs, mul_by_char)
pub open spec fn mulchar(q: G2Affine) -> G2Affine { G2Affine { x: fq2_mul(fq2_frob(q.x, 1), twx()), y: fq2_mul(fq2_frob(q.y, 1), twy()), infinity: q.infinity } }
pub open spec fn char_inv(k: int, s: &VerificationAccount, q: G2Affine) -> bool { k >= 1 ==> s.ram_fq2.at(0) == mulchar(q).x }
//@fn expanded:rac/elusiv mul_by_characteristics_partial
//@props V12 V13
//@rw \bTWIST_MUL_BY_Q_X\b => x_twx()
//@rw \bTWIST_MUL_BY_Q_Y\b => x_twy()
//@ret res
//@spec
    requires round < 2, room(old(storage), 1, 0, 0), char_inv(round as int, old(storage), *r)
    ensures res is Ok, kept(final(storage), old(storage)),
        round == 0 ==> res->Ok_0 is None && char_inv(1, final(storage), *r),
        round == 1 ==> res->Ok_0 == Some(mulchar(*r))
//@end

// --- evaluation of the line -----------------------------------------------------------------------------------------------
/// f * (c0 + (d0 + d1 v) w) (r1cs-std, fields/fp12.rs, mul_by_034)
pub open spec fn m_a(c0: Fq2, f: Fq12) -> Fq6 { Fq6 { c0: fq2_mul(f.c0.c0, c0), c1: fq2_mul(f.c0.c1, c0), c2: fq2_mul(f.c0.c2, c0) } }
pub open spec fn m034(c0: Fq2, d0: Fq2, d1: Fq2, f: Fq12) -> Fq12 {
    let a = m_a(c0, f); let b = mul01(f.c1, d0, d1); let e = mul01(fq6_add(f.c0, f.c1), fq2_add(c0, d0), d1);
    Fq12 { c0: fq6_add(nr6(b), a), c1: fq6_sub(e, fq6_add(a, b)) }
}
pub open spec fn m034_inv(k: int, s: &VerificationAccount, c0: Fq2, d0: Fq2, d1: Fq2, f: Fq12) -> bool { (k >= 1 ==> s.ram_fq6.at(0) == m_a(c0, f)) && (k >= 2 ==> s.ram_fq6.at(1) == mul01(f.c1, d0, d1)) }
//@fn expanded:rac/elusiv mul_by_034_partial
//@props V12 V13
//@ret res
//@spec
    requires round < 3, room(old(storage), 0, 2, 0), m034_inv(round as int, old(storage), *c0, *d0, *d1, f)
    ensures res is Ok, kept(final(storage), old(storage)),
        round < 2 ==> res->Ok_0 is None && m034_inv(round + 1, final(storage), *c0, *d0, *d1, f),
        round == 2 ==> res->Ok_0 == Some(m034(*c0, *d0, *d1, f))
//@end
pub struct VerifyingKey { x: u64 }
pub uninterp spec fn gam(k: VerifyingKey, i: int, j: int) -> Fq2;
pub uninterp spec fn del(k: VerifyingKey, i: int, j: int) -> Fq2;
/// coefficients in a verifying key
pub const KEY_COEFFS: usize = 91;
impl VerifyingKey {
    #[verifier::external_body] pub fn gamma_g2_neg_pc(&self, index: usize, inner_index: usize) -> (r: Fq2) requires index < KEY_COEFFS, inner_index < 3 ensures r == gam(*self, index as int, inner_index as int) { unimplemented!() }
    #[verifier::external_body] pub fn delta_g2_neg_pc(&self, index: usize, inner_index: usize) -> (r: Fq2) requires index < KEY_COEFFS, inner_index < 3 ensures r == del(*self, index as int, inner_index as int) { unimplemented!() }
}
/// the line with the given coefficients at p, multiplied into f (ark_ec, models/bn/mod.rs, ell); the point at infinity contributes nothing
pub open spec fn ell1(p: G1Affine, c: Coefficients, f: Fq12) -> Fq12 { if p.infinity { f } else { m034(mulfp(c.0, p.y), mulfp(c.1, p.x), c.2, f) } }
/// the operands of the Miller loop
pub struct In { pub k: VerifyingKey, pub a: G1Affine, pub b: G2Affine, pub c: G1Affine, pub p: G1Affine }
pub open spec fn gam3(k: VerifyingKey, j: int) -> Coefficients { (gam(k, j, 0), gam(k, j, 1), gam(k, j, 2)) }
pub open spec fn del3(k: VerifyingKey, j: int) -> Coefficients { (del(k, j, 0), del(k, j, 1), del(k, j, 2)) }
pub open spec fn ell2(i: In, co: Coefficients, j: int, f: Fq12) -> Fq12 { ell1(i.p, gam3(i.k, j), ell1(i.a, co, f)) }
pub open spec fn ell(i: In, co: Coefficients, j: int, f: Fq12) -> Fq12 { ell1(i.c, del3(i.k, j), ell2(i, co, j, f)) }
/// scratch memory while one of the three lines is evaluated at p, its first cells holding the scaled coefficients
pub open spec fn line_inv(k: int, s: &VerificationAccount, p: G1Affine, c: Coefficients, f: Fq12) -> bool {
    s.ram_fq2.at(0) == mulfp(c.0, p.y) && s.ram_fq2.at(1) == mulfp(c.1, p.x) && s.ram_fq12.at(0) == f && (!p.infinity ==> m034_inv(k, s, mulfp(c.0, p.y), mulfp(c.1, p.x), c.2, f))
}
pub open spec fn ell_inv(k: int, s: &VerificationAccount, i: In, co: Coefficients, j: int, f: Fq12) -> bool {
    if k <= 0 { true } else if k < 4 { line_inv(k - 1, s, i.a, co, f) }
    else if k == 4 { s.ram_fq12.at(0) == ell1(i.a, co, f) } else if k < 8 { line_inv(k - 5, s, i.p, gam3(i.k, j), ell1(i.a, co, f)) }
    else if k == 8 { s.ram_fq12.at(0) == ell2(i, co, j, f) } else if k < 12 { line_inv(k - 9, s, i.c, del3(i.k, j), ell2(i, co, j, f)) }
    else { s.ram_fq12.at(0) == ell(i, co, j, f) }
}
//@fn expanded:rac/elusiv combined_ell_partial
//@props V12 V13
//@rw \.or\(\s*Err\(PartialComputationError\)\s*\) => .or_err(PartialComputationError)
//@ret res
//@spec
    requires round < 13, coeff_index < KEY_COEFFS, room(old(storage), 2, 2, 1), ell_inv(round as int, old(storage), In { k: *vkey, a: *a, b: arbitrary(), c: *c, p: *prepared_inputs }, (*c0, *c1, *c2), coeff_index as int, f)
    ensures res is Ok, kept(final(storage), old(storage)),
        round < 12 ==> res->Ok_0 is None && ell_inv(round + 1, final(storage), In { k: *vkey, a: *a, b: arbitrary(), c: *c, p: *prepared_inputs }, (*c0, *c1, *c2), coeff_index as int, f),
        round == 12 ==> res->Ok_0 == Some(ell(In { k: *vkey, a: *a, b: arbitrary(), c: *c, p: *prepared_inputs }, (*c0, *c1, *c2), coeff_index as int, f))
//@end

// --- the Miller loop ------------------------------------------------------------------------------------------------------
/// the multiple of the point reached after the first n digits: doubled for each, plus or minus one for the digits 1 and 2
pub open spec fn digval(d: spec_fn(int) -> u8, start: int, n: int) -> int decreases n { if n <= 0 { start } else { let v = 2 * digval(d, start, n - 1); if d(n - 1) == 0 { v } else if d(n - 1) == 1 { v + 1 } else { v - 1 } } }
/// the digits are those of 6x + 2, the order of the optimal ate pairing (x the parameter of the curve); the leading one is implicit
pub proof fn ate_is_6x_plus_2() ensures digval(|i: int| ate(i), 1, ATE_LEN as int) == n4(0x9d797039be763ba8, 1, 0, 0), 6 * 0x44e992b44a6909f1 + 2 == n4(0x9d797039be763ba8, 1, 0, 0)
{ assert(digval(|i: int| ate(i), 1, ATE_LEN as int) == n4(0x9d797039be763ba8, 1, 0, 0) && 6 * 0x44e992b44a6909f1 + 2 == n4(0x9d797039be763ba8, 1, 0, 0)) by(compute_only); }
pub open spec fn nz(n: int) -> int decreases n { if n <= 0 { 0 } else { nz(n - 1) + if ate(n - 1) > 0 { 1int } else { 0 } } }
pub proof fn lemma_nz() ensures ATE_LEN == 64, ATE_LEN + nz(ATE_LEN as int) + 2 <= KEY_COEFFS { assert(ATE_LEN == 64 && ATE_LEN + nz(ATE_LEN as int) + 2 <= KEY_COEFFS) by(compute_only); }
pub proof fn lemma_nz_mono(a: int, b: int) requires 0 <= a <= b ensures 0 <= nz(a) <= nz(b) decreases b { if b > a { lemma_nz_mono(a, b - 1); } else if a > 0 { lemma_nz_mono(a - 1, a - 1); } }
/// the state of the loop: the point, the accumulated value, the coefficients of the last line, the number of lines so far, the second operand of the additions
pub struct MS { pub r: G2HomProjective, pub f: Fq12, pub c: Coefficients, pub j: int, pub alt: G2Affine }
pub open spec fn m0(i: In) -> MS { MS { r: G2HomProjective { x: i.b.x, y: i.b.y, z: fq2_one() }, f: fq12_one(), c: (fq2_zero(), fq2_zero(), fq2_zero()), j: 0, alt: g2neg(i.b) } }
pub open spec fn s_sq(s: MS) -> MS { MS { f: fq12_mul(s.f, s.f), ..s } }
pub open spec fn s_dbl(s: MS) -> MS { MS { r: dbl(s.r).0, c: dbl(s.r).1, ..s } }
pub open spec fn s_add(s: MS, q: G2Affine) -> MS { MS { r: add(s.r, q).0, c: add(s.r, q).1, ..s } }
pub open spec fn s_ell(i: In, s: MS) -> MS { MS { f: ell(i, s.c, s.j, s.f), j: s.j + 1, ..s } }
/// one iteration: square, double, line; for a digit that is not zero also an addition and its line
pub open spec fn iter_a(n: int, s: MS) -> MS { if n > 0 { s_sq(s) } else { s } }
pub open spec fn iter_b(n: int, s: MS) -> MS { s_dbl(iter_a(n, s)) }
pub open spec fn iter_c(i: In, n: int, s: MS) -> MS { s_ell(i, iter_b(n, s)) }
pub open spec fn addend(i: In, n: int, s: MS) -> G2Affine { if ate(n) == 1 { i.b } else { s.alt } }
pub open spec fn iter_d(i: In, n: int, s: MS) -> MS { let t = iter_c(i, n, s); if ate(n) > 0 { s_add(t, addend(i, n, s)) } else { t } }
pub open spec fn iter_e(i: In, n: int, s: MS) -> MS { let t = iter_d(i, n, s); if ate(n) > 0 { s_ell(i, t) } else { t } }
/// after n iterations
pub open spec fn miller_iter(i: In, n: int) -> MS decreases n { if n <= 0 { m0(i) } else { iter_e(i, n - 1, miller_iter(i, n - 1)) } }
/// the end of the loop: additions of the first and of the negated second image under Frobenius
pub open spec fn end_a(i: In) -> MS { MS { alt: mulchar(i.b), ..miller_iter(i, ATE_LEN as int) } }
pub open spec fn end_b(i: In) -> MS { s_add(end_a(i), mulchar(i.b)) }
pub open spec fn end_c(i: In) -> MS { s_ell(i, end_b(i)) }
pub open spec fn q2(i: In) -> G2Affine { let v = mulchar(mulchar(i.b)); G2Affine { y: fq2_neg(v.y), ..v } }
pub open spec fn end_d(i: In) -> MS { MS { alt: q2(i), ..end_c(i) } }
pub open spec fn end_e(i: In) -> MS { s_add(end_d(i), q2(i)) }
/// the unsplit Miller loop over the three pairs (ark_ec, models/bn/mod.rs, miller_loop)
pub open spec fn miller(i: In) -> Fq12 { s_ell(i, end_e(i)).f }
/// the state before round t of iteration n
pub open spec fn iter_at(i: In, n: int, t: int, s: MS) -> MS { if t <= 0 { s } else if t < 3 { iter_a(n, s) } else if t < 16 { iter_b(n, s) } else if t < 18 { iter_c(i, n, s) } else if t < 31 { iter_d(i, n, s) } else { iter_e(i, n, s) } }
pub open spec fn end_at(i: In, t: int) -> MS { if t < 2 { miller_iter(i, ATE_LEN as int) } else if t < 4 { end_a(i) } else if t < 17 { end_b(i) } else if t < 19 { end_c(i) } else if t < 21 { end_d(i) } else if t < 34 { end_e(i) } else { s_ell(i, end_e(i)) } }
pub open spec fn at_round(i: In, k: int) -> MS { if k <= 1 { m0(i) } else if k < 1985 { iter_at(i, (k - 1) / 31, (k - 1) % 31, miller_iter(i, (k - 1) / 31)) } else { end_at(i, k - 1985) } }
/// what the running sub-computation has left in scratch memory (its frame lies above the loop's own cells)
pub open spec fn inner(i: In, k: int, s: &VerificationAccount) -> bool {
    let m = at_round(i, k);
    if k <= 1 { true } else if k < 1985 { let n = (k - 1) / 31; let t = (k - 1) % 31;
        if t < 3 { dbl_inv(t - 1, s, m.r) } else if t < 16 { ell_inv(t - 3, s, i, m.c, m.j, m.f) }
        else if ate(n) == 0 { true } else if t < 18 { add_inv(t - 16, s, m.r, addend(i, n, miller_iter(i, n))) } else { ell_inv(t - 18, s, i, m.c, m.j, m.f) } }
    else { let t = k - 1985;
        if t < 2 { char_inv(t, s, i.b) } else if t < 4 { add_inv(t - 2, s, m.r, mulchar(i.b)) } else if t < 17 { ell_inv(t - 4, s, i, m.c, m.j, m.f) }
        else if t < 19 { char_inv(t - 17, s, mulchar(i.b)) } else if t < 21 { add_inv(t - 19, s, m.r, q2(i)) } else if t < 34 { ell_inv(t - 21, s, i, m.c, m.j, m.f) } else { true } }
}
pub open spec fn framed(s: &VerificationAccount, n2: int, n12: int) -> VerificationAccount {
    VerificationAccount { ram_fq2: Ram { m: s.ram_fq2.m, fr: Ghost(s.ram_fq2.fr@ + n2), cap: s.ram_fq2.cap }, ram_fq12: Ram { m: s.ram_fq12.m, fr: Ghost(s.ram_fq12.fr@ + n12), cap: s.ram_fq12.cap }, ..*s }
}
/// before round k of the Miller loop: the stored state is that of the unsplit algorithm
pub open spec fn miller_inv(i: In, k: int, s: &VerificationAccount, r: G2HomProjective, j: int, alt: G2Affine) -> bool {
    if k == 0 { j == 0 } else { let m = at_round(i, k);
        &&& r == m.r && j == m.j && alt == m.alt && s.ram_fq12.at(0) == m.f
        &&& k < 2019 ==> s.ram_fq2.at(0) == m.c.0 && s.ram_fq2.at(1) == m.c.1 && s.ram_fq2.at(2) == m.c.2 && inner(i, k, &framed(s, 3, 1)) }
}
pub proof fn lemma_lines(i: In, n: int) requires 0 <= n <= ATE_LEN ensures miller_iter(i, n).j == n + nz(n), miller_iter(i, n).alt == g2neg(i.b), n < ATE_LEN ==> n + nz(n) + 2 < KEY_COEFFS, n + nz(n) + 2 <= KEY_COEFFS decreases n
{ lemma_nz(); lemma_nz_mono(n, ATE_LEN as int); if n > 0 { lemma_lines(i, n - 1); } }
//@fn expanded:rac/elusiv combined_miller_loop_partial
//@props V12 V13
//@rw \.or\(\s*Err\(PartialComputationError\)\s*\) => .or_err(PartialComputationError)
//@rw <\[_\]>::into_vec\(#\[rustc_box\]\s*::alloc::boxed::Box::new\(\[[\d\s,]*\]\)\)\[i\] => ate_at(i)
//@rw \((\d+)usize\.\.(\d+)usize\)\.contains\(&round\) => \1 <= round && round < \2
//@rw \b_ = (?=\w+\.) => 
//@rw j\.add_assign\(1\) => *j = *j + 1
//@ret res
//@top
    let ghost i0 = In { k: *vkey, a: *a, b: *b, c: *c, p: *prepared_inputs };
    proof {
        lemma_nz();
        if 1 <= round < 1985 { let n = (round - 1) / 31; lemma_lines(i0, n); lemma_lines(i0, n + 1); } else { lemma_lines(i0, ATE_LEN as int); }
        if 1 <= round < 1984 { let n = (round - 1) / 31; let t = (round - 1) % 31; if t == 30 { assert(round / 31 == n + 1 && round % 31 == 0); assert(miller_iter(i0, n + 1) == iter_e(i0, n, miller_iter(i0, n))); } else { assert(round / 31 == n && round % 31 == t + 1); } }
    }
//@spec
    requires round < 2020, old(storage).ram_fq2.room(CAP_FQ2 as int), old(storage).ram_fq6.room(CAP_FQ6 as int), old(storage).ram_fq12.room(CAP_FQ12 as int), miller_inv(In { k: *vkey, a: *a, b: *b, c: *c, p: *prepared_inputs }, round as int, old(storage), *old(r), *old(j) as int, old(alt_b).0)
    ensures res is Ok, kept(final(storage), old(storage)),
        round < 2019 ==> res->Ok_0 is None && miller_inv(In { k: *vkey, a: *a, b: *b, c: *c, p: *prepared_inputs }, round + 1, final(storage), *final(r), *final(j) as int, final(alt_b).0),
        round == 2019 ==> res->Ok_0 == Some(miller(In { k: *vkey, a: *a, b: *b, c: *c, p: *prepared_inputs }))
//@end

// --- the final exponentiation ---------------------------------------------------------------------------------------------
/// inverse by the norm (ark_ff, quadratic_extension.rs, inverse)
pub open spec fn norm(f: Fq12) -> Fq6 { fq6_sub(fq6_mul(f.c0, f.c0), nr6(fq6_mul(f.c1, f.c1))) }
pub open spec fn inv12(f: Fq12) -> Fq12 { let v = fq6_inv(norm(f))->Some_0; Fq12 { c0: fq6_mul(f.c0, v), c1: fq6_neg(fq6_mul(f.c1, v)) } }
pub open spec fn inverse_inv(k: int, s: &VerificationAccount, f: Fq12) -> bool {
    let m = s.ram_fq6; (1 <= k <= 2 ==> m.at(0) == fq6_mul(f.c1, f.c1)) && (k == 2 ==> m.at(1) == fq6_mul(f.c0, f.c0)) && (k >= 3 ==> fq6_inv(norm(f)) == Some(m.at(0)))
}
//@fn expanded:rac/elusiv inverse_fq12_partial
//@props V12 V13
//@ret res
//@spec
    requires round < 4, room(old(storage), 0, 2, 0), inverse_inv(round as int, old(storage), f)
    ensures kept(final(storage), old(storage)), final(storage).ram_fq12 == old(storage).ram_fq12, res is Err ==> fq6_inv(norm(f)) is None,
        res is Ok && round < 3 ==> res->Ok_0 is None && inverse_inv(round + 1, final(storage), f),
        res is Ok && round == 3 ==> res->Ok_0 == Some(inv12(f))
//@end
/// the power of fe after n steps: two for each digit, square and multiply
pub open spec fn epow(fe: Fq12, n: int) -> Fq12 decreases n {
    if n <= 0 { fq12_one() } else { let p = epow(fe, n - 1); let i = (n - 1) / 2;
        if (n - 1) % 2 == 0 { if i > 0 { cysq(p) } else { p } } else if naf(i) == 0 { p } else if naf(i) == 1 { fq12_mul(p, fe) } else { fq12_mul(p, conj(fe)) } }
}
/// the digits are those of the curve's parameter x, and none is lost: the first is not doubled
pub proof fn naf_is_x() ensures digval(|i: int| naf(i), 0, NAF_LEN as int) == 0x44e992b44a6909f1, NAF_LEN == 63, naf(0) == 1
{ assert(digval(|i: int| naf(i), 0, NAF_LEN as int) == 0x44e992b44a6909f1 && NAF_LEN == 63 && naf(0) == 1) by(compute_only); }
/// fe to the power of -x (ark_ec, models/bn/mod.rs, exp_by_neg_x; conjugation inverts in the cyclotomic subgroup)
pub open spec fn negx(fe: Fq12) -> Fq12 { conj(epow(fe, 126)) }
pub open spec fn exp_inv(k: int, s: &VerificationAccount, fe: Fq12) -> bool {
    let m = s.ram_fq12; (1 <= k <= 126 ==> m.at(0) == conj(fe) && m.at(1) == epow(fe, k - 1)) && (k >= 127 ==> m.at(0) == epow(fe, 126))
}
//@fn expanded:rac/elusiv exp_by_neg_x_partial
//@props V12 V13
//@rw <\[_\]>::into_vec\(#\[rustc_box\]\s*::alloc::boxed::Box::new\(\[[\d\s,]*\]\)\)\[i\] => naf_at(i)
//@rw \((\d+)usize\.\.(\d+)usize\)\.contains\(&round\) => \1 <= round && round < \2
//@ret res
//@spec
    requires round < 128, room(old(storage), 0, 0, 2), exp_inv(round as int, old(storage), fe)
    ensures res is Ok, kept(final(storage), old(storage)),
        round < 127 ==> res->Ok_0 is None && exp_inv(round + 1, final(storage), fe),
        round == 127 ==> res->Ok_0 == Some(negx(fe))
//@end
// the intermediate values of the unsplit algorithm (ark_ec, models/bn/mod.rs, final_exponentiation)
pub open spec fn f_r1(f: Fq12) -> Fq12 { fq12_mul(conj(f), inv12(f)) }
pub open spec fn f_r(f: Fq12) -> Fq12 { fq12_mul(fq12_frob(f_r1(f), 2), f_r1(f)) }
pub open spec fn f_y0(f: Fq12) -> Fq12 { negx(f_r(f)) }
pub open spec fn f_y1(f: Fq12) -> Fq12 { cysq(f_y0(f)) }
pub open spec fn f_y3(f: Fq12) -> Fq12 { fq12_mul(cysq(f_y1(f)), f_y1(f)) }
pub open spec fn f_y4(f: Fq12) -> Fq12 { negx(f_y3(f)) }
pub open spec fn f_y6(f: Fq12) -> Fq12 { negx(cysq(f_y4(f))) }
pub open spec fn f_y7(f: Fq12) -> Fq12 { fq12_mul(conj(f_y6(f)), f_y4(f)) }
pub open spec fn f_y8(f: Fq12) -> Fq12 { fq12_mul(f_y7(f), conj(f_y3(f))) }
pub open spec fn f_y9(f: Fq12) -> Fq12 { fq12_mul(f_y8(f), f_y1(f)) }
pub open spec fn f_y11(f: Fq12) -> Fq12 { fq12_mul(fq12_mul(f_y8(f), f_y4(f)), f_r(f)) }
pub open spec fn f_y13(f: Fq12) -> Fq12 { fq12_mul(fq12_frob(f_y9(f), 1), f_y11(f)) }
pub open spec fn f_y14(f: Fq12) -> Fq12 { fq12_mul(fq12_frob(f_y8(f), 2), f_y13(f)) }
pub open spec fn f_y15(f: Fq12) -> Fq12 { fq12_mul(conj(f_r(f)), f_y9(f)) }
pub open spec fn fexp(f: Fq12) -> Fq12 { fq12_mul(fq12_frob(f_y15(f), 3), f_y14(f)) }
/// before round k of the final exponentiation
pub open spec fn fe_inv(k: int, s: &VerificationAccount, f: Fq12) -> bool {
    let m = s.ram_fq12;
    &&& k >= 1 ==> m.at(0) == (if k < 6 { conj(f) } else if k == 6 { f_r1(f) } else if k == 7 { fq12_frob(f_r1(f), 2) } else if k < 405 { f_r(f) } else if k == 405 { conj(f_r(f)) } else if k == 406 { f_y15(f) } else { fq12_frob(f_y15(f), 3) })
    &&& k >= 1 && k < 406 ==> m.at(1) == (if k < 5 { f } else if k == 5 { inv12(f) } else if k < 8 { f_r1(f) } else if k < 136 { f_r(f) } else if k == 136 { f_y0(f) } else if k < 399 { f_y1(f) } else { f_y9(f) })
    &&& k >= 137 ==> m.at(2) == (if k == 137 { cysq(f_y1(f)) } else if k < 396 { f_y3(f) } else if k < 398 { conj(f_y3(f)) } else if k < 404 { f_y8(f) } else if k == 404 { fq12_frob(f_y8(f), 2) } else { f_y14(f) })
    &&& k >= 138 && k < 405 ==> m.at(3) == (if k < 266 { f_y3(f) } else if k < 400 { f_y4(f) } else if k == 400 { fq12_mul(f_y8(f), f_y4(f)) } else if k < 403 { f_y11(f) } else { f_y13(f) })
    &&& k >= 267 && k < 398 ==> m.at(4) == (if k < 395 { cysq(f_y4(f)) } else if k == 395 { f_y6(f) } else if k == 396 { conj(f_y6(f)) } else { f_y7(f) })
    &&& k == 402 ==> m.at(4) == fq12_frob(f_y9(f), 1)
    &&& 1 <= k <= 4 ==> inverse_inv(k - 1, &framed(s, 0, 2), f)
    &&& 8 <= k <= 135 ==> exp_inv(k - 8, &framed(s, 0, 2), f_r(f))
    &&& 138 <= k <= 265 ==> exp_inv(k - 138, &framed(s, 0, 4), f_y3(f))
    &&& 267 <= k <= 394 ==> exp_inv(k - 267, &framed(s, 0, 5), cysq(f_y4(f)))
}
//@fn expanded:rac/elusiv final_exponentiation_partial
//@props V12 V13
//@rw \.or\(\s*Err\(PartialComputationError\)\s*\) => .or_err(PartialComputationError)
//@ret res
//@spec
    requires round < 408, old(storage).ram_fq2.room(CAP_FQ2 as int), old(storage).ram_fq6.room(CAP_FQ6 as int), old(storage).ram_fq12.room(CAP_FQ12 as int), fe_inv(round as int, old(storage), *f)
    ensures res is Err ==> fq6_inv(norm(*f)) is None,
        res is Ok ==> kept(final(storage), old(storage)),
        res is Ok && round < 407 ==> res->Ok_0 is None && fe_inv(round + 1, final(storage), *f),
        res is Ok && round == 407 ==> res->Ok_0 == Some(fexp(*f))
//@end
