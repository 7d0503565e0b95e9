//@include common.rs
verus! {
//@include codec.inc.rs
#[verifier::external_body] pub fn le_bytes(x: u8) -> (r: &'static [u8]) ensures r@ == x.ser() { unimplemented!() }
#[verifier::external_body] pub fn le64(x: u64) -> (r: &'static [u8]) ensures r@ == x.ser() { unimplemented!() }
#[verifier::external_body] fn from_le8_(x: [u8; 8]) -> (r: u64) ensures r == le_de(x@) { unimplemented!() }
pub fn from_le8(x: [u8; 8]) -> (r: u64) ensures forall|s: Seq<u8>| s.len() == 8 && (forall|i: int| 0 <= i < 8 ==> s[i] == x@[i]) ==> r == #[trigger] le_de(s)
{ proof { assert forall|s: Seq<u8>| s.len() == 8 && (forall|i: int| 0 <= i < 8 ==> s[i] == x@[i]) implies le_de(x@) == #[trigger] le_de(s) by { assert(s =~= x@); } } from_le8_(x) }
pub fn big(x: [u64; 4]) -> (r: BigInteger256) ensures r.0 == x, forall|s: Seq<u64>| s.len() == 4 && s[0] == x@[0] && s[1] == x@[1] && s[2] == x@[2] && s[3] == x@[3] ==> x == #[trigger] arr::<u64, 4>(s)
{ proof { arr_same(x); assert forall|s: Seq<u64>| s.len() == 4 && s[0] == x@[0] && s[1] == x@[1] && s[2] == x@[2] && s[3] == x@[3] implies x == #[trigger] arr::<u64, 4>(s) by { assert(s =~= x@); } } BigInteger256(x) }
#[verifier::external_body] pub fn zeros(n: usize) -> (r: &'static [u8]) ensures r@ == zeros_s(n as int) { unimplemented!() }
pub open spec fn zeros_s(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub fn one(x: u8) -> (r: &'static [u8]) ensures r@ == seq![x] { one_(x) }
#[verifier::external_body] fn one_(x: u8) -> (r: &'static [u8]) ensures r@ == seq![x] { unimplemented!() }
// indexing aborts out of range
pub fn at(s: &[u8], i: usize) -> (r: u8) ensures i < s@.len(), r == s@[i as int] { if i < s.len() { s[i] } else { abort() } }
pub fn from(s: &[u8], i: usize) -> (r: &[u8]) ensures i <= s@.len(), r@ == s@.skip(i as int) { if i <= s.len() { let r = &s[i..]; assert(r@ =~= s@.skip(i as int)); r } else { abort() } }
pub fn upto(s: &[u8], i: usize) -> (r: &[u8]) ensures i <= s@.len(), r@ == s@.take(i as int) { if i <= s.len() { let r = &s[..i]; assert(r@ =~= s@.take(i as int)); r } else { abort() } }

impl<E: Sized_, const N: usize> Sized_ for [E; N] {
    //@py array_size rac/elusiv_types
    open spec fn fixed() -> bool { E::fixed() }
    open spec fn fine(self) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] self@[i].fine() }
    proof fn fits(self) { arr_same(self); fits_all(self@); }
    proof fn nonneg() { E::nonneg(); assert(E::sz() * N >= 0) by(nonlinear_arith) requires E::sz() >= 0, N >= 0; }
}

// ------------------------------------------------------------------ ElusivOption
pub enum ElusivOption<N> { Some(N), None }
impl<T: Sized_> Enc for ElusivOption<T> {
    open spec fn enc(self) -> bool { self matches ElusivOption::Some(x) ==> x.enc() }
    open spec fn ser(self) -> Seq<u8> { match self { ElusivOption::Some(x) => seq![1u8] + x.ser(), ElusivOption::None => seq![0u8] + zeros_s(T::sz()) } }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> {
        if b.len() == 0 { None } else if b[0] == 0 { if b.len() >= 1 + T::sz() { Some((ElusivOption::None, 1 + T::sz())) } else { None } }
        else { match T::de(b.skip(1)) { None => None, Some((x, n)) => Some((ElusivOption::Some(x), 1 + n)) } }
    }
    proof fn round(self, rest: Seq<u8>) { T::nonneg(); let s = self.ser() + rest; assert(s[0] == self.ser()[0]); if let ElusivOption::Some(x) = self { x.round(rest); assert(s.skip(1) =~= x.ser() + rest); } }
    proof fn used(b: Seq<u8>) { T::nonneg(); if b.len() > 0 { T::used(b.skip(1)); } }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t)[0] == b[0]); assert((b + t).skip(1) =~= b.skip(1) + t); if b[0] != 0 { T::local(b.skip(1), t); } }
}
impl<T: Sized_ + Codec> Codec for ElusivOption<T> {
//@fn shared/elusiv-types/src/bytes.rs in "impl<T: BorshSerDeSized> BorshSerialize for ElusivOption<T>" serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &\[1\] => one(1)
//@rw &\[0\] => one(0)
//@rw &vec!\[0; T::SIZE\] => zeros(T::size())
//@top
    broadcast use b_assoc; proof { T::nonneg(); }
//@end
//@fn shared/elusiv-types/src/bytes.rs in "impl<T: BorshSerDeSized> BorshDeserialize for ElusivOption<T>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw buf\[0\] => at(buf, 0)
//@rw &buf\[<ElusivOption<T>>::SIZE\.\.\] => from(buf, <ElusivOption<T>>::size())
//@rw &buf\[1\.\.\] => from(buf, 1)
//@top
    broadcast use b_used, b_skip; proof { T::nonneg(); }
//@end
}
impl<T: Sized_> Sized_ for ElusivOption<T> {
    //@py size_line rac/elusiv_types ElusivOption
    open spec fn fixed() -> bool { T::fixed() }
    open spec fn fine(self) -> bool { self matches ElusivOption::Some(x) ==> x.fine() }
    proof fn fits(self) { T::nonneg(); if let ElusivOption::Some(x) = self { x.fits(); } }
    proof fn nonneg() { T::nonneg(); }
}

// ------------------------------------------------------------------ fields and points
#[derive(Clone, Copy)]
pub struct BigInteger256(pub [u64; 4]);
impl Enc for BigInteger256 {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { self.0@[0].ser() + (self.0@[1].ser() + (self.0@[2].ser() + self.0@[3].ser())) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 32 { Some((BigInteger256(arr::<u64, 4>(limbs(b))), 32int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) {
        broadcast use b_assoc;
        let a = self.0@; arr_same(self.0); let s = self.ser() + rest;
        le_axiom(a[0] as int, 8); le_axiom(a[1] as int, 8); le_axiom(a[2] as int, 8); le_axiom(a[3] as int, 8);
        assert(s.subrange(0, 8) =~= a[0].ser()); assert(s.subrange(8, 16) =~= a[1].ser()); assert(s.subrange(16, 24) =~= a[2].ser()); assert(s.subrange(24, 32) =~= a[3].ser());
        assert(limbs(s) =~= a);
    }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { let s = b + t; assert(s.subrange(0, 8) =~= b.subrange(0, 8)); assert(s.subrange(8, 16) =~= b.subrange(8, 16)); assert(s.subrange(16, 24) =~= b.subrange(16, 24)); assert(s.subrange(24, 32) =~= b.subrange(24, 32)); }
}
impl Sized_ for BigInteger256 {
    open spec fn sz() -> int { 32 }
    open spec fn fixed() -> bool { true }
    open spec fn fine(self) -> bool { true }
    proof fn fits(self) { let a = self.0@; le_axiom(a[0] as int, 8); le_axiom(a[1] as int, 8); le_axiom(a[2] as int, 8); le_axiom(a[3] as int, 8); }
    proof fn nonneg() { }
}
pub open spec fn limbs(b: Seq<u8>) -> Seq<u64> { seq![le_de(b.subrange(0, 8)) as u64, le_de(b.subrange(8, 16)) as u64, le_de(b.subrange(16, 24)) as u64, le_de(b.subrange(24, 32)) as u64] }
//@py enc_models field.models rac/elusiv

impl Fr { pub fn new(e: BigInteger256) -> (r: Fr) ensures r.0 == e { Fr(e) } }
impl Fq { pub fn new(e: BigInteger256) -> (r: Fq) ensures r.0 == e { Fq(e) } }
impl Fq2 { pub fn new(c0: Fq, c1: Fq) -> (r: Fq2) ensures r.c0 == c0, r.c1 == c1 { Fq2 { c0, c1 } } }
impl Fq6 { pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> (r: Fq6) ensures r.c0 == c0, r.c1 == c1, r.c2 == c2 { Fq6 { c0, c1, c2 } } }
impl Fq12 { pub fn new(c0: Fq6, c1: Fq6) -> (r: Fq12) ensures r.c0 == c0, r.c1 == c1 { Fq12 { c0, c1 } } }
impl G1Affine { pub fn new(x: Fq, y: Fq, infinity: bool) -> (r: G1Affine) ensures r.x == x, r.y == y, r.infinity == infinity { G1Affine { x, y, infinity } } }
impl G2Affine { pub fn new(x: Fq2, y: Fq2, infinity: bool) -> (r: G2Affine) ensures r.x == x, r.y == y, r.infinity == infinity { G2Affine { x, y, infinity } } }
//@fn expanded:rac/elusiv base_skip_mr
//@props E01
//@ret r
//@spec
    ensures r.0 == e
//@end
//@fn expanded:rac/elusiv scalar_skip_mr
//@props E01
//@ret r
//@spec
    ensures r.0 == e
//@end
//@fn expanded:rac/elusiv u64_limb
//@props E01
//@ret r
//@rw u64::from_le_bytes => from_le8
//@rw slice\[([^\]]*)\] => at(slice, \1)
//@spec
    requires offset <= 64
    ensures offset + 8 <= slice@.len(), r == le_de(slice@.subrange(offset as int, offset + 8)) as u64
//@bottom
//@end
//@fn expanded:rac/elusiv le_u256
//@props E01
//@ret r
//@rw BigInteger256\( => big(
//@spec
    ensures 32 <= slice@.len(), BigInteger256::de(slice@) == Some((r, 32int))
//@end
//@fn expanded:rac/elusiv write_base_montgomery
//@props E01
//@sig fn write_base_montgomery<W: Write>(v: Fq, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); }
//@spec
    ensures r is Ok ==> final(writer).out() == old(writer).out() + v.ser()
//@end
impl Codec for Wrap<BigInteger256> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<BigInteger256>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc;
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<BigInteger256>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero;
//@end
}
impl Codec for Wrap<Fr> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<Fr>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fr::ser_); reveal(Fr::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<Fr>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fr::de_); }
//@end
}
impl Codec for Wrap<Fq> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<Fq>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<Fq>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); }
//@end
}
impl Codec for Wrap<Fq2> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<Fq2>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(Fq2::ser_); reveal(Fq2::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<Fq2>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(Fq2::de_); }
//@end
}
impl Codec for Wrap<Fq6> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<Fq6>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(Fq2::ser_); reveal(Fq2::enc_); reveal(Fq6::ser_); reveal(Fq6::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<Fq6>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(Fq2::de_); reveal(Fq6::de_); }
//@end
}
impl Codec for Wrap<Fq12> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<Fq12>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(Fq2::ser_); reveal(Fq2::enc_); reveal(Fq6::ser_); reveal(Fq6::enc_); reveal(Fq12::ser_); reveal(Fq12::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<Fq12>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(Fq2::de_); reveal(Fq6::de_); reveal(Fq12::de_); }
//@end
}
impl Codec for G1A {
//@fn expanded:rac/elusiv in "impl BorshSerialize for G1A" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(G1Affine::ser_); reveal(G1Affine::enc_); reveal(G1A::ser_); reveal(G1A::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for G1A" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(G1Affine::de_); reveal(G1A::de_); }
//@end
}
impl Codec for Wrap<G1A> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<G1A>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(G1Affine::ser_); reveal(G1Affine::enc_); reveal(G1A::ser_); reveal(G1A::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<G1A>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(G1Affine::de_); reveal(G1A::de_); }
//@end
}
impl Codec for G2A {
//@fn expanded:rac/elusiv in "impl BorshSerialize for G2A" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(Fq2::ser_); reveal(Fq2::enc_); reveal(G2Affine::ser_); reveal(G2Affine::enc_); reveal(G2A::ser_); reveal(G2A::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for G2A" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(Fq2::de_); reveal(G2Affine::de_); reveal(G2A::de_); }
//@end
}
impl Codec for Wrap<G2A> {
//@fn expanded:rac/elusiv in "impl BorshSerialize for Wrap<G2A>" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(Fq2::ser_); reveal(Fq2::enc_); reveal(G2Affine::ser_); reveal(G2Affine::enc_); reveal(G2A::ser_); reveal(G2A::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for Wrap<G2A>" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(Fq2::de_); reveal(G2Affine::de_); reveal(G2A::de_); }
//@end
}
impl Codec for G2HomProjective {
//@fn expanded:rac/elusiv in "impl BorshSerialize for G2HomProjective" serialize as serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw &u64::to_le_bytes\(([^()]*)\)\[\.\.\] => le64(\1)
//@top
    broadcast use b_assoc; proof { reveal(Fq::ser_); reveal(Fq::enc_); reveal(Fq2::ser_); reveal(Fq2::enc_); reveal(G2HomProjective::ser_); reveal(G2HomProjective::enc_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for G2HomProjective" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw &buf\[(\d+)\.\.\] => from(buf, \1)
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@top
    broadcast use b_used, b_skip, b_zero; proof { reveal(Fq::de_); reveal(Fq2::de_); reveal(G2HomProjective::de_); }
//@end
}

// ------------------------------------------------------------------ three field elements as bytes
//@note one byte is its own little-endian encoding
#[verifier::external_body] pub proof fn le_one(s: Seq<u8>) requires s.len() == 1 ensures le_de(s) == s[0] { }
pub proof fn byte(x: u8) ensures x.ser() == seq![x] { le_one(seq![x]); le_axiom2(seq![x]); }
pub proof fn bytes_ser(s: Seq<u8>) ensures ser_all(s) == s decreases s.len() { if s.len() > 0 { bytes_ser(s.skip(1)); byte(s[0]); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= seq![]); } }
pub proof fn bytes_de(b: Seq<u8>, n: nat) ensures de_all::<u8>(b, n) == (if b.len() >= n { Some((b.take(n as int), n as int)) } else { None }) decreases n
{
    if n > 0 {
        if b.len() >= 1 { le_one(b.take(1)); let c = b.skip(1); bytes_de(c, (n - 1) as nat); if b.len() >= n { assert(seq![b[0]] + c.take(n - 1) =~= b.take(n as int)); } }
    } else { assert(b.take(0) =~= seq![]); }
}
pub proof fn u256_de(b: Seq<u8>) ensures U256::de(b) is Some <==> b.len() >= 32, b.len() >= 32 ==> U256::de(b)->Some_0.0@ == b.take(32) && U256::de(b)->Some_0.1 == 32
{ bytes_de(b, 32); if b.len() >= 32 { arr_axiom::<u8, 32>(b.take(32)); } }
pub proof fn fr_de(b: Seq<u8>) ensures Fr::de(b) == (if b.len() >= 32 { Some((Fr(BigInteger256(arr::<u64, 4>(limbs(b)))), 32int)) } else { None }) { reveal(Fr::de_); }
//@note try_to_vec gives what serialize writes (borsh)
#[verifier::external_body] pub fn to_vec<T: Codec>(x: &T) -> (r: &'static [u8]) requires x.enc() ensures r@ == x.ser() { unimplemented!() }
//@note copy_from_slice copies
#[verifier::external_body] pub fn first32(s: &[u8]) -> (r: [u8; 32]) ensures s@.len() >= 32, r@ == s@.take(32) { unimplemented!() }
//@fn expanded:rac/elusiv fr_to_u256_le
//@props E01
//@ret r
//@rw <Wrap<Fr>>::try_to_vec\((.*?)\)\.(?:unwrap|ok_or_abort)\(\); => to_vec(\1);
//@rw slice_to_array::<u8, 32>\(&s\) => first32(s)
//@spec
    ensures r@ == fr.ser()
//@top
    proof { reveal(Fr::enc_); reveal(Fr::ser_); Wrap(*fr).0.0.fits(); let s = fr.ser(); assert(s.take(32) =~= s); }
//@end
//@fn expanded:rac/elusiv u256_to_le_limbs
//@props E01
//@ret r
//@rw u64::from_le_bytes => from_le8
//@spec
    ensures r@ == limbs(v@)
//@end
//@fn expanded:rac/elusiv u256_to_fr_skip_mr
//@props E01
//@ret r
//@spec
    ensures r.0 == BigInteger256(arr::<u64, 4>(limbs(v@)))
//@top
    proof { assert forall|a: [u64; 4]| true implies #[trigger] arr::<u64, 4>(a@) == a by { arr_same(a); } }
//@end
impl Codec for BinarySpongeHashingState {
//@fn expanded:rac/elusiv in "impl BorshSerialize for BinarySpongeHashingState" serialize
//@props E01
//@sig fn serialize<W: Write>(&self, writer: &mut W) -> Result<(), IoError>
//@ret r
//@rw \[(fr_to_u256_le.*)\]\.serialize\(writer\) => { let a = [\1]; proof { three(a, self.0); } a.serialize(writer) }
//@top
    proof { reveal(BinarySpongeHashingState::ser_); }
//@end
//@fn expanded:rac/elusiv in "impl BorshDeserialize for BinarySpongeHashingState" deserialize
//@props E01
//@sig fn deserialize(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw Ok\(BinarySpongeHashingState\((\[.*\])\)\) => { let a = \1; proof { arr_same(a); assert(a@ =~= de3(b0)); } Ok(BinarySpongeHashingState(a)) }
//@top
    let ghost b0 = buf@; proof { reveal(BinarySpongeHashingState::de_); three_de(b0); }
//@end
}
pub proof fn three(a: [U256; 3], f: [Fr; 3]) requires forall|i: int| 0 <= i < 3 ==> #[trigger] a@[i]@ == f@[i].ser() ensures a.enc(), a.ser() == f.ser()
{
    assert forall|i: int| 0 <= i < 3 implies a@[i].ser() == #[trigger] f@[i].ser() && a@[i].enc() by { bytes_ser(a@[i]@); }
    reveal_with_fuel(ser_all, 4);
    assert(a@.skip(1)[0] == a@[1]); assert(a@.skip(1).skip(1)[0] == a@[2]); assert(f@.skip(1)[0] == f@[1]); assert(f@.skip(1).skip(1)[0] == f@[2]);
}
pub open spec fn de3(b: Seq<u8>) -> Seq<Fr> { seq![Fr(BigInteger256(arr::<u64, 4>(limbs(b)))), Fr(BigInteger256(arr::<u64, 4>(limbs(b.skip(32))))), Fr(BigInteger256(arr::<u64, 4>(limbs(b.skip(64)))))] }
pub proof fn three_de(b: Seq<u8>) ensures
    <[U256; 3]>::de(b) is Some <==> b.len() >= 96, <[Fr; 3]>::de(b) is Some <==> b.len() >= 96,
    b.len() >= 96 ==> <[U256; 3]>::de(b)->Some_0.1 == 96 && <[Fr; 3]>::de(b) == Some((arr::<Fr, 3>(de3(b)), 96int)),
    b.len() >= 96 ==> ({ let v = <[U256; 3]>::de(b)->Some_0.0@; v[0]@ == b.take(32) && v[1]@ == b.skip(32).take(32) && v[2]@ == b.skip(64).take(32) && limbs(v[0]@) == limbs(b) && limbs(v[1]@) == limbs(b.skip(32)) && limbs(v[2]@) == limbs(b.skip(64)) }),
{
    let c = b.skip(32); let d = c.skip(32);
    if b.len() >= 64 { assert(d =~= b.skip(64)); }
    u256_de(b); u256_de(c); u256_de(d); fr_de(b); fr_de(c); fr_de(d);
    reveal_with_fuel(de_all, 4);
    if b.len() >= 96 {
        limbs32(b); limbs32(c); limbs32(d);
        let e = seq![U256::de(b)->Some_0.0, U256::de(c)->Some_0.0, U256::de(d)->Some_0.0];
        assert(de_all::<U256>(b, 3)->Some_0.0 =~= e); arr_axiom::<U256, 3>(e);
        assert(de_all::<Fr>(b, 3)->Some_0.0 =~= de3(b));
    }
}
pub proof fn limbs32(b: Seq<u8>) requires b.len() >= 32 ensures limbs(b.take(32)) == limbs(b)
{ let t = b.take(32); assert(t.subrange(0, 8) =~= b.subrange(0, 8)); assert(t.subrange(8, 16) =~= b.subrange(8, 16)); assert(t.subrange(16, 24) =~= b.subrange(16, 24)); assert(t.subrange(24, 32) =~= b.subrange(24, 32)); }

//@py codecs codec.fine rac/elusiv_types rac/elusiv racw/elusiv_warden_network
//@py read_types rac/elusiv racw/elusiv_warden_network

// ------------------------------------------------------------------ requests read back from their account
pub fn minus(a: usize, b: usize) -> (r: usize) ensures b <= a, r == a - b { if b <= a { a - b } else { abort() } }
pub fn dz<T: Codec>(b: &[u8]) -> (r: Result<T, IoError>) ensures r is Ok <==> T::de(b@) is Some, r is Ok ==> r->Ok_0 == T::de(b@)->Some_0.0 { let mut c = b; T::deserialize(&mut c) }
impl ProofRequest {
    /// the space that a request of this kind takes after its tag
    pub open spec fn space(t: u8) -> int { if t == 0 { SendPublicInputs::sz() } else { MigratePublicInputs::sz() } }
//@fn expanded:rac/elusiv in "impl elusiv_types::bytes::BorshSerDeSizedEnum for ProofRequest" len
//@props E01
//@ret r
//@rw ::core::panicking::panic\("[^"]*"\) => abort()
//@rw <(\w+)>::SIZE => <\1>::size()
//@spec
    ensures variant_index <= 1, r == Self::space(variant_index)
//@end
//@fn shared/elusiv-types/src/bytes.rs in "pub trait BorshSerDeSizedEnum: BorshSerDeSized" deserialize_enum_full
//@props E01
//@sig fn deserialize_enum_full(buf: &mut &[u8]) -> Result<Self, IoError>
//@ret r
//@rw Self::len\(buf\[0\]\) => Self::len(at(buf, 0))
//@rw Self::deserialize\(&mut &buf\[\.\.len\]\) => dz::<Self>(upto(buf, len))
//@rw &buf\[Self::SIZE - len\.\.\] => from(buf, minus(Self::size(), len))
//@spec
    ensures old(buf)@.len() >= 1, old(buf)@.len() >= 1 + Self::space(old(buf)@[0]),
        r is Ok <==> Self::de(old(buf)@.take(1 + Self::space(old(buf)@[0]))) is Some,
        r is Ok ==> r->Ok_0 == Self::de(old(buf)@.take(1 + Self::space(old(buf)@[0])))->Some_0.0
//@top
    proof { assert(SendPublicInputs::sz() < 100000); assert(MigratePublicInputs::sz() < 100000); }
//@end
}
/// the request that was written into the account comes back, whatever bytes follow it
pub proof fn request_back(x: ProofRequest, pad: Seq<u8>)
    requires x.fine(), x.ser().len() + pad.len() >= ProofRequest::sz()
    ensures ({ let b = x.ser() + pad; let n = 1 + ProofRequest::space(b[0]); 1 <= n <= b.len() && ProofRequest::de(b.take(n)) == Some((x, x.ser().len() as int)) })
{
    let b = x.ser() + pad;
    reveal(ProofRequest::ser_); x.fits(); SendPublicInputs::nonneg(); MigratePublicInputs::nonneg();
    byte(0u8); byte(1u8);
    match x { ProofRequest::Send(y) => { reveal(ProofRequest::ser_0); y.fits(); assert(b[0] == 0u8.ser()[0]); } ProofRequest::Migrate(y) => { reveal(ProofRequest::ser_1); y.fits(); assert(b[0] == 1u8.ser()[0]); } }
    let n = 1 + ProofRequest::space(b[0]);
    let q = pad.take(n - x.ser().len());
    assert(b.take(n) =~= x.ser() + q);
    x.round(q);
}
/// instruction data: what try_from_slice makes of it (the decoded value if the bytes are all used, else a rejection)
pub open spec fn whole<T: Enc>(b: Seq<u8>) -> Option<T> { match T::de(b) { Some((x, n)) => if n == b.len() { Some(x) } else { None }, None => None } }
/// encoding and decoding are inverse on the bytes that encode a value; neither a byte more nor a byte less decodes
pub proof fn instruction_data<T: Enc>(x: T, t: Seq<u8>, k: int)
    requires x.enc()
    ensures whole::<T>(x.ser()) == Some(x), t.len() > 0 ==> whole::<T>(x.ser() + t) is None, 0 <= k < x.ser().len() ==> whole::<T>(x.ser().take(k)) is None
{
    let s = x.ser(); assert(s + seq![] =~= s);
    x.round(seq![]); x.round(t);
    if 0 <= k < s.len() { let p = s.take(k); T::used(p); if T::de(p) is Some { T::local(p, s.skip(k)); assert(p + s.skip(k) =~= s); } }
}
/// two values with the same bytes are the same
pub proof fn injective<T: Enc>(x: T, y: T) requires x.enc(), y.enc(), x.ser() == y.ser() ensures x == y { x.round(seq![]); y.round(seq![]); }
/// a stored field reads back as what was written, whatever follows in the account
pub proof fn stored<T: Sized_>(x: T, rest: Seq<u8>) requires x.fine() ensures x.ser().len() <= T::sz(), T::de(x.ser() + rest) is Some, T::de(x.ser() + rest)->Some_0.0 == x { x.fits(); x.round(rest); }
/// the number of inputs that name a root
pub open spec fn roots(s: Seq<InputCommitment>) -> int decreases s.len() { if s.len() == 0 { 0 } else { (if s[0].root is Some { 1int } else { 0int }) + roots(s.skip(1)) } }
pub proof fn inputs_len(s: Seq<InputCommitment>) ensures enc_all(s), ser_all(s).len() == 33 * s.len() + 32 * roots(s) decreases s.len()
{
    reveal(InputCommitment::enc_); reveal(InputCommitment::ser_);
    if s.len() > 0 {
        let t = s.skip(1); inputs_len(t);
        let x = s[0]; x.nullifier_hash.fits(); if let Some(r) = x.root { r.fits(); }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].enc() by { if i > 0 { assert(t[i - 1].enc()); } }
    }
}
fn main(){}
}
