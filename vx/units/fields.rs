//@include common.rs
verus! {
pub type U256 = [u8; 32];
//@include le.inc.rs
pub open spec fn le_n(s: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { le_n(s, n - 1) + s[n - 1] * p256(n - 1) } }
pub open spec fn p256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * p256(n - 1) } }
pub open spec fn p64(n: int) -> int decreases n { if n <= 0 { 1 } else { 0x1_0000_0000_0000_0000 * p64(n - 1) } }
pub open spec fn limbs(l: Seq<u64>) -> int { l[0] + l[1] * p64(1) + l[2] * p64(2) + l[3] * p64(3) }
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>) ensures le(a + b) == le(a) + p256(a.len() as int) * le(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let a1 = a.subrange(1, a.len() as int);
        assert((a + b).subrange(1, (a + b).len() as int) =~= a1 + b);
        lemma_cat(a1, b);
        assert(256 * (le(a1) + p256(a1.len() as int) * le(b)) == 256 * le(a1) + (256 * p256(a1.len() as int)) * le(b)) by(nonlinear_arith);
    }
}
pub proof fn lemma_zero(n: nat) ensures le(Seq::new(n, |i: int| 0u8)) == 0 decreases n
{ if n > 0 { let s = Seq::new(n, |i: int| 0u8); assert(s.subrange(1, n as int) =~= Seq::new((n - 1) as nat, |i: int| 0u8)); lemma_zero((n - 1) as nat); } }
pub proof fn lemma_p() ensures p256(8) == 0x1_0000_0000_0000_0000, p256(0) == 1, p64(0) == 1, p64(1) == 0x1_0000_0000_0000_0000, p256(16) == p64(2), p256(24) == p64(3), p256(32) == p64(4),
    p64(2) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000, p64(3) == 0x1_0000_0000_0000_0000 * p64(2)
{ reveal_with_fuel(p256, 40); reveal_with_fuel(p64, 6); }
/// four chunks of eight bytes
pub open spec fn chunk(s: Seq<u8>, o: int) -> Seq<u8> { s.subrange(o, o + 8) }
pub proof fn lemma_chunks(s: Seq<u8>) requires s.len() >= 32
    ensures le(s.subrange(0, 32)) == le(chunk(s, 0)) + le(chunk(s, 8)) * p64(1) + le(chunk(s, 16)) * p64(2) + le(chunk(s, 24)) * p64(3)
{
    lemma_p();
    let a = chunk(s, 0); let b = chunk(s, 8); let c = chunk(s, 16); let d = chunk(s, 24);
    lemma_cat(a, b); lemma_cat(a + b, c); lemma_cat(a + b + c, d);
    assert(a + b + c + d =~= s.subrange(0, 32));
    assert(p64(1) * le(b) == le(b) * p64(1) && p64(2) * le(c) == le(c) * p64(2) && p64(3) * le(d) == le(d) * p64(3)) by(nonlinear_arith);
}
//@note u64::from_le_bytes / to_le_bytes (core): inverse functions of the little endian value of eight bytes
#[verifier::external_body] pub fn from_le8(b: [u8; 8]) -> (r: u64) ensures r == le(b@) { u64::from_le_bytes(b) }
#[verifier::external_body] pub fn to_le8(x: u64) -> (r: [u8; 8]) ensures le(r@) == x { x.to_le_bytes() }
#[verifier::external_body] pub fn to_le8v(x: u64) -> (r: Vec<u8>) ensures le(r@) == x, r@.len() == 8 { x.to_le_bytes().to_vec() }
pub struct IoError { x: u8 }
//@note io::Write of a Vec<u8> appends the bytes and never fails
pub struct Writer { pub v: Vec<u8> }
impl Writer { #[verifier::external_body] pub fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), IoError>) ensures r is Ok, final(self).v@ == old(self).v@ + b@ { unimplemented!() } }
//@macro elusiv/src/fields.rs u64_array
//@note BigInteger256 (ark_ff, external): four 64-bit limbs, least significant first; its Ord compares the numbers; Fr::into_repr/from_repr are uninterpreted
#[derive(Clone, Copy)] pub struct BigInteger256(pub [u64; 4]);
#[derive(Clone, Copy)] pub struct Fr(pub BigInteger256);
pub struct Wrap<N>(pub N);
pub open spec fn num(b: BigInteger256) -> int { limbs(b.0@) }
#[derive(PartialEq, Eq, Clone, Copy, Structural)] pub enum Ordering { Less, Equal, Greater }
pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub uninterp spec fn repr(f: Fr) -> BigInteger256;
pub uninterp spec fn mont(b: BigInteger256) -> Fr;
impl BigInteger256 {
    #[verifier::external_body] pub fn lt_s(&self, o: &BigInteger256) -> (r: bool) ensures r == (num(*self) < num(*o)) { unimplemented!() }
    #[verifier::external_body] pub fn cmp(&self, o: &BigInteger256) -> (r: Ordering) ensures r == ord(num(*self), num(*o)) { unimplemented!() }
    #[verifier::external_body] pub fn partial_cmp(&self, o: &BigInteger256) -> (r: Option<Ordering>) ensures r == Some(ord(num(*self), num(*o))) { unimplemented!() }
    #[verifier::external_body] pub fn from(v: u64) -> (r: BigInteger256) ensures num(r) == v { unimplemented!() }
}
impl Fr {
    #[verifier::external_body] pub fn new(b: BigInteger256) -> (r: Fr) ensures r.0 == b { unimplemented!() }
    #[verifier::external_body] pub fn into_repr(&self) -> (r: BigInteger256) ensures r == repr(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_repr(b: BigInteger256) -> (r: Option<Fr>) ensures r is Some <==> num(b) < modulus(), r is Some ==> r->Some_0 == mont(b) && repr(r->Some_0) == b { unimplemented!() }
}
/// order of the BN254 scalar field
pub open spec fn modulus() -> int { 0x30644e72e131a029b85045b68181585d_u128 as int * (p64(2)) + 0x2833e84879b9709143e1f593f0000001_u128 as int }
//@py modulus_const
//@fn elusiv/src/fields.rs is_element_scalar_field
//@rw (\w+) < (SCALAR_MODULUS_RAW) => \1.lt_s(&scalar_modulus_raw())
//@ret r
//@spec
    ensures r == (num(e) < modulus())
//@top
    proof { lemma_p(); assert(num(BigInteger256(smr())) == modulus()) by { reveal_with_fuel(p64, 6); } }
//@end
//@fn elusiv/src/fields.rs scalar_skip_mr
//@ret r
//@spec
    ensures r.0 == e
//@end
//@fn elusiv/src/fields.rs u64_limb
//@rw u64::from_le_bytes\( => from_le8(
//@ret r
//@spec
    requires offset + 8 <= slice@.len() <= usize::MAX
    ensures r == le(chunk(slice@, offset as int))
//@top
    assert([slice[offset as int], slice[offset + 1], slice[offset + 2], slice[offset + 3], slice[offset + 4], slice[offset + 5], slice[offset + 6], slice[offset + 7]]@ =~= chunk(slice@, offset as int));
//@end
//@fn elusiv/src/fields.rs le_u256
//@ret r
//@spec
    requires 32 <= slice@.len() <= usize::MAX
    ensures num(r) == le(slice@.subrange(0, 32))
//@top
    proof { lemma_chunks(slice@); }
//@end
//@fn elusiv/src/types.rs u256_to_le_limbs
//@rw u64::from_le_bytes\( => from_le8(
//@ret r
//@spec
    ensures limbs(r@) == le(v@)
//@top
    proof {
        lemma_chunks(v@); assert(v@.subrange(0, 32) =~= v@);
        assert([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]@ =~= chunk(v@, 0));
        assert([v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]]@ =~= chunk(v@, 8));
        assert([v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]]@ =~= chunk(v@, 16));
        assert([v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]]@ =~= chunk(v@, 24));
    }
//@end
//@fn elusiv/src/fields.rs u256_to_big_uint
//@ret r
//@spec
    ensures num(r) == le(v@)
//@end
//@fn elusiv/src/fields.rs u256_to_fr_skip_mr
//@ret r
//@spec
    ensures num(r.0) == le(v@)
//@end
pub proof fn lemma_bytes_of_limbs(o: Seq<u8>, l: Seq<u64>, b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>)
    requires b0.len() == 8, b1.len() == 8, b2.len() == 8, b3.len() == 8, le(b0) == l[0], le(b1) == l[1], le(b2) == l[2], le(b3) == l[3]
    ensures le(b0 + b1 + b2 + b3) == limbs(l)
{
    lemma_p(); lemma_cat(b0, b1); lemma_cat(b0 + b1, b2); lemma_cat(b0 + b1 + b2, b3);
    assert(p64(1) * le(b1) == le(b1) * p64(1) && p64(2) * le(b2) == le(b2) * p64(2) && p64(3) * le(b3) == le(b3) * p64(3)) by(nonlinear_arith);
}
pub open spec fn written(o: Seq<u8>, n: Seq<u8>, k: int) -> bool { n.len() == o.len() + 32 && n.subrange(0, o.len() as int) == o && le(n.subrange(o.len() as int, n.len() as int)) == k }
impl Wrap<BigInteger256> {
//@fn elusiv/src/fields.rs in "impl BorshSerialize for Wrap<BigInteger256>" serialize
//@sig fn serialize(&self, writer: &mut Writer) -> Result<(), IoError>
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => &to_le8v(\1)
//@ret r
//@spec
    ensures r is Ok, written(old(writer).v@, final(writer).v@, num(self.0))
//@top
    proof { lemma_w(); }
//@end
}
/// four appended chunks are one written number
pub proof fn lemma_w()
    ensures forall|o: Seq<u8>, b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>, l: [u64; 4]| b0.len() == 8 && b1.len() == 8 && b2.len() == 8 && b3.len() == 8
        && le(b0) == l@[0] && le(b1) == l@[1] && le(b2) == l@[2] && le(b3) == l@[3] ==> #[trigger] written(o, o + b0 + b1 + b2 + b3, limbs(#[trigger] l@))
{
    assert forall|o: Seq<u8>, b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>, l: [u64; 4]| b0.len() == 8 && b1.len() == 8 && b2.len() == 8 && b3.len() == 8
        && le(b0) == l@[0] && le(b1) == l@[1] && le(b2) == l@[2] && le(b3) == l@[3] implies #[trigger] written(o, o + b0 + b1 + b2 + b3, limbs(#[trigger] l@)) by {
        lemma_bytes_of_limbs(o, l@, b0, b1, b2, b3);
        let n = o + b0 + b1 + b2 + b3;
        assert(n.subrange(0, o.len() as int) =~= o);
        assert(n.subrange(o.len() as int, n.len() as int) =~= b0 + b1 + b2 + b3);
    }
}
impl Wrap<Fr> {
//@fn elusiv/src/fields.rs in "impl BorshSerialize for Wrap<Fr>" serialize
//@sig fn serialize(&self, writer: &mut Writer) -> Result<(), IoError>
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => &to_le8v(\1)
//@ret r
//@spec
    ensures r is Ok, written(old(writer).v@, final(writer).v@, num(self.0.0))
//@top
    proof { lemma_w(); }
//@end
}
pub fn ser_big(w: &Wrap<BigInteger256>) -> (r: Result<Vec<u8>, IoError>) ensures r is Ok, r->Ok_0@.len() == 32, le(r->Ok_0@) == num(w.0)
{ let mut o = Writer { v: Vec::new() }; w.serialize(&mut o)?; assert(o.v@.subrange(0, 32) =~= o.v@); Ok(o.v) }
pub fn ser_fr(w: &Wrap<Fr>) -> (r: Result<Vec<u8>, IoError>) ensures r is Ok, r->Ok_0@.len() == 32, le(r->Ok_0@) == num(w.0.0)
{ let mut o = Writer { v: Vec::new() }; w.serialize(&mut o)?; assert(o.v@.subrange(0, 32) =~= o.v@); Ok(o.v) }
//@fn elusiv/src/bytes.rs slice_to_array
//@sig pub fn slice_to_array<const SIZE: usize>(s: &Vec<u8>) -> [u8; SIZE]
//@rw \[N::default\(\); SIZE\] => zeroed::<SIZE>()
//@rw (\w+)\[\.\.(\w+)\]\.copy_from_slice\(&(\w+)\[\.\.(\w+)\]\) => copy_prefix(&mut \1, \2, &\3, \4)
//@ret r
//@spec
    ensures SIZE <= s@.len(), r@ == s@.subrange(0, SIZE as int)
//@after copy_prefix[^;]*;
    assert(a@ =~= s@.subrange(0, SIZE as int));
//@end
#[verifier::external_body] pub fn zeroed<const SIZE: usize>() -> (r: [u8; SIZE]) ensures r@ == Seq::new(SIZE as nat, |i: int| 0u8) { [0; SIZE] }
//@note slice copy_from_slice (core): copies, panics when the lengths differ
#[verifier::external_body] pub fn copy_prefix<const SIZE: usize>(a: &mut [u8; SIZE], n: usize, s: &Vec<u8>, m: usize)
    ensures n == m, n <= SIZE, m <= s@.len(), final(a)@ == s@.subrange(0, n as int) + old(a)@.subrange(n as int, SIZE as int) { unimplemented!() }
//@fn elusiv/src/fields.rs fr_to_u256_le
//@rw <Wrap<Fr>>::try_to_vec\( => ser_fr(
//@rw slice_to_array::<u8, => slice_to_array::<
//@ret r
//@spec
    ensures le(r@) == num(fr.0)
//@bottom
//@before slice_to_array
    assert(s@.subrange(0, 32) =~= s@);
//@end
//@fn elusiv/src/fields.rs big_uint_to_u256
//@rw <Wrap<BigInteger256>>::try_to_vec\( => ser_big(
//@rw slice_to_array::<u8, => slice_to_array::<
//@ret r
//@spec
    ensures le(r@) == num(*v)
//@before slice_to_array
    assert(s@.subrange(0, 32) =~= s@);
//@end
//@fn elusiv/src/fields.rs fr_to_u256_le_repr
//@rw u64::to_le_bytes\( => to_le8(
//@desugar 1
//@desugar 2
//@ret r
//@spec
    ensures le(r@) == num(repr(*fr))
//@loop 1
    invariant i_end == 4, 0 <= i_next <= 4, forall|x: int| 0 <= x < i_next ==> le(#[trigger] chunk(v@, x * 8)) == b@[x],
    decreases i_end - i_next
//@looptop 1
    let ghost v0 = v@;
//@loop 2
    invariant j_end == 8, 0 <= j_next <= 8, 0 <= i < 4, v@.len() == 32,
        forall|y: int| 0 <= y < 32 && !(i * 8 <= y < i * 8 + j_next) ==> v@[y] == v0[y],
        forall|y: int| 0 <= y < j_next ==> #[trigger] v@[i * 8 + y] == b@[y],
    decreases j_end - j_next
//@afterloop 2
    proof {
        assert forall|y: int| 0 <= y < 8 implies chunk(v@, i * 8)[y] == b@[y] by { assert(v@[i * 8 + y] == b@[y]); }
        assert(chunk(v@, i * 8) =~= b@);
        assert forall|x: int| 0 <= x < i implies le(#[trigger] chunk(v@, x * 8)) == le(chunk(v0, x * 8)) by { assert(chunk(v@, x * 8) =~= chunk(v0, x * 8)); }
    }
//@afterloop 1
    proof { lemma_chunks(v@); assert(v@.subrange(0, 32) =~= v@); let g = v@; assert(le(chunk(g, (0 * 8) as int)) == b@[0] && le(chunk(g, (1 * 8) as int)) == b@[1] && le(chunk(g, (2 * 8) as int)) == b@[2] && le(chunk(g, (3 * 8) as int)) == b@[3]); }
//@end
//@fn elusiv/src/fields.rs u64_to_scalar
//@ret r
//@spec
    ensures num(repr(r)) == v
//@end
//@fn elusiv/src/fields.rs u64_to_scalar_skip_mr
//@ret r
//@spec
    ensures num(r.0) == v
//@end
//@fn elusiv/src/fields.rs u64_to_u256_skip_mr
//@rw \b(\w+)\.to_le_bytes\(\) => to_le8v(\1)
//@rw = \[0; 32\] => = zeroed::<32>()
//@rw (\w+)\[\.\.(\w+)\]\.copy_from_slice\(&(\w+)\[\.\.\]\) => copy_prefix(&mut \1, \2, &\3, \3.len())
//@ret r
//@spec
    ensures le(r@) == v
//@after copy_prefix[^;]*;
    proof { let vb = v@; lemma_cat(vb, Seq::new(24, |i: int| 0u8)); lemma_zero(24); assert(u@ =~= vb + Seq::new(24, |i: int| 0u8)); assert(p256(8) * 0 == 0); }
//@end
pub struct RawU256(pub U256);
impl RawU256 {
//@fn elusiv/src/types.rs in "impl RawU256" reduce
//@ret r
//@spec
    ensures le(self.0@) < modulus(), exists|f: Fr| #[trigger] num(repr(f)) == le(self.0@) && le(r@) == num(f.0)
//@end
//@fn elusiv/src/types.rs in "impl RawU256" skip_mr
//@ret r
//@spec
    ensures r == self.0
//@end
}
pub struct OrdU256(pub U256);
impl OrdU256 {
//@fn elusiv/src/types.rs in "impl PartialOrd for OrdU256" partial_cmp
//@rw std::cmp::Ordering => Ordering
//@sig fn partial_cmp(&self, other: &Self) -> Option<Ordering>
//@ret r
//@spec
    ensures r == Some(ord(le(self.0@), le(other.0@)))
//@end
//@fn elusiv/src/types.rs in "impl Ord for OrdU256" cmp
//@sig fn cmp(&self, other: &Self) -> Ordering
//@ret r
//@spec
    ensures r == ord(le(self.0@), le(other.0@))
//@end
}
fn main(){}
}
