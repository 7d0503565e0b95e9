//@note Write: write_all appends the bytes it is given, or fails
pub struct IoError { pub x: u8 }
impl IoError { #[verifier::external_body] pub fn new() -> IoError { unimplemented!() } }
pub trait Write { spec fn out(&self) -> Seq<u8>; fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self).out() == old(self).out() + b@; }

/// An encoding. `ser` are the bytes of a value, `de` what a prefix of a byte string decodes to and how many bytes
/// that takes, `enc` tells the values that can be encoded (lengths of vectors fit 32 bits).
pub trait Enc: Sized {
    spec fn enc(self) -> bool;
    spec fn ser(self) -> Seq<u8>;
    spec fn de(b: Seq<u8>) -> Option<(Self, int)>;
    /// decoding the encoded value, whatever follows, gives the value back and takes exactly its bytes
    proof fn round(self, rest: Seq<u8>) requires self.enc() ensures Self::de(self.ser() + rest) == Some((self, self.ser().len() as int));
    proof fn used(b: Seq<u8>) ensures Self::de(b) is Some ==> 0 <= Self::de(b)->Some_0.1 <= b.len();
    /// bytes after those that were decoded do not matter
    proof fn local(b: Seq<u8>, t: Seq<u8>) requires Self::de(b) is Some ensures Self::de(b + t) == Self::de(b);
}
pub trait Codec: Enc {
    fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) requires self.enc() ensures r is Ok ==> final(writer).out() == old(writer).out() + self.ser();
    fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) ensures
        r is Ok <==> Self::de(old(buf)@) is Some,
        r is Ok ==> r->Ok_0 == Self::de(old(buf)@)->Some_0.0 && (*final(buf))@ == old(buf)@.skip(Self::de(old(buf)@)->Some_0.1);
}
/// A type with a declared size. `fine` are the values that may be stored.
pub trait Sized_: Enc {
    spec fn sz() -> int;
    spec fn fixed() -> bool;
    spec fn fine(self) -> bool;
    proof fn fits(self) requires self.fine() ensures self.enc(), self.ser().len() <= Self::sz(), Self::fixed() ==> self.ser().len() == Self::sz();
    proof fn nonneg() ensures 0 <= Self::sz();
    /// the constant SIZE
    #[verifier::external_body] fn size() -> (r: usize) ensures r == Self::sz() { unimplemented!() }
}
pub broadcast proof fn b_used<T: Enc>(b: Seq<u8>) ensures #[trigger] T::de(b) is Some ==> 0 <= T::de(b)->Some_0.1 <= b.len() { T::used(b); }
pub broadcast proof fn b_skip(b: Seq<u8>, m: int, n: int) requires 0 <= m, 0 <= n, m + n <= b.len() ensures #[trigger] b.skip(m).skip(n) == b.skip(m + n) { assert(b.skip(m).skip(n) =~= b.skip(m + n)); }
pub broadcast proof fn b_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn b_drop(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] (a + b).skip(a.len() as int) == b { assert((a + b).skip(a.len() as int) =~= b); }
pub broadcast proof fn b_ext(b: Seq<u8>, t: Seq<u8>, n: int) requires 0 <= n <= b.len() ensures #[trigger] (b + t).skip(n) == b.skip(n) + t { assert((b + t).skip(n) =~= b.skip(n) + t); }
pub broadcast proof fn b_zero(b: Seq<u8>) ensures #[trigger] b.skip(0) == b { assert(b.skip(0) =~= b); }
pub open spec fn max(a: int, b: int) -> int { if a < b { b } else { a } }

//@note the encodings of integers, bool, Vec, Option, arrays and Ipv4Addr are those borsh documents (external crate): little-endian integers, 32-bit lengths, one tag byte
pub uninterp spec fn le_ser(x: int, n: int) -> Seq<u8>;
pub uninterp spec fn le_de(s: Seq<u8>) -> int;
/// to_le_bytes and from_le_bytes are inverse
#[verifier::external_body] pub proof fn le_axiom(x: int, n: int) requires 0 <= x < pow256(n) ensures le_ser(x, n).len() == n, le_de(le_ser(x, n)) == x { }
#[verifier::external_body] pub proof fn le_axiom2(s: Seq<u8>) requires pow256(s.len() as int) > 0 ensures 0 <= le_de(s) < pow256(s.len() as int), le_ser(le_de(s), s.len() as int) == s { }
pub open spec fn pow256(n: int) -> int { if n == 1 { 0x100 } else if n == 2 { 0x1_0000 } else if n == 4 { 0x1_0000_0000 } else if n == 8 { 0x1_0000_0000_0000_0000 } else if n == 16 { 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int } else { 0 } }
impl Enc for u8 {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { le_ser(self as int, 1) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 1 { Some((le_de(b.take(1)) as u8, 1int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) { le_axiom(self as int, 1); assert((self.ser() + rest).take(1) =~= self.ser()); }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t).take(1) =~= b.take(1)); }
}
impl Codec for u8 {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for u16 {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { le_ser(self as int, 2) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 2 { Some((le_de(b.take(2)) as u16, 2int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) { le_axiom(self as int, 2); assert((self.ser() + rest).take(2) =~= self.ser()); }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t).take(2) =~= b.take(2)); }
}
impl Codec for u16 {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for u32 {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { le_ser(self as int, 4) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 4 { Some((le_de(b.take(4)) as u32, 4int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) { le_axiom(self as int, 4); assert((self.ser() + rest).take(4) =~= self.ser()); }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t).take(4) =~= b.take(4)); }
}
impl Codec for u32 {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for u64 {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { le_ser(self as int, 8) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 8 { Some((le_de(b.take(8)) as u64, 8int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) { le_axiom(self as int, 8); assert((self.ser() + rest).take(8) =~= self.ser()); }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t).take(8) =~= b.take(8)); }
}
impl Codec for u64 {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for u128 {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { le_ser(self as int, 16) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 16 { Some((le_de(b.take(16)) as u128, 16int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) { le_axiom(self as int, 16); assert((self.ser() + rest).take(16) =~= self.ser()); }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t).take(16) =~= b.take(16)); }
}
impl Codec for u128 {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for bool {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { seq![if self { 1u8 } else { 0u8 }] }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() >= 1 && b[0] <= 1 { Some((b[0] == 1, 1int)) } else { None } }
    proof fn round(self, rest: Seq<u8>) { assert((self.ser() + rest)[0] == self.ser()[0]); }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t)[0] == b[0]); }
}
impl Codec for bool {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for () {
    open spec fn enc(self) -> bool { true }
    open spec fn ser(self) -> Seq<u8> { seq![] }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { Some(((), 0int)) }
    proof fn round(self, rest: Seq<u8>) { }
    proof fn used(b: Seq<u8>) { }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { }
}
impl Codec for () {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
/// several values one after the other
pub open spec fn enc_all<T: Enc>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].enc() }
pub open spec fn ser_all<T: Enc>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { s[0].ser() + ser_all(s.skip(1)) } }
pub open spec fn de_all<T: Enc>(b: Seq<u8>, n: nat) -> Option<(Seq<T>, int)> decreases n {
    if n == 0 { Some((seq![], 0int)) } else { match T::de(b) { None => None, Some((x, k)) => match de_all::<T>(b.skip(k), (n - 1) as nat) { None => None, Some((xs, m)) => Some((seq![x] + xs, k + m)) } } }
}
pub proof fn round_all<T: Enc>(s: Seq<T>, rest: Seq<u8>) requires enc_all(s) ensures de_all::<T>(ser_all(s) + rest, s.len()) == Some((s, ser_all(s).len() as int)) decreases s.len()
{
    broadcast use b_assoc, b_drop;
    if s.len() == 0 { assert(s =~= seq![]); } else {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i].enc() by { assert(s[i + 1].enc()); }
        assert(s[0].enc());
        s[0].round(ser_all(t) + rest); round_all(t, rest);
        assert(seq![s[0]] + t =~= s);
        assert(ser_all(s) + rest == s[0].ser() + (ser_all(t) + rest));
    }
}
pub proof fn used_all<T: Enc>(b: Seq<u8>, n: nat) ensures de_all::<T>(b, n) is Some ==> 0 <= de_all::<T>(b, n)->Some_0.1 <= b.len() && de_all::<T>(b, n)->Some_0.0.len() == n decreases n
{ if n > 0 { T::used(b); if T::de(b) is Some { used_all::<T>(b.skip(T::de(b)->Some_0.1), (n - 1) as nat); } } }
pub proof fn local_all<T: Enc>(b: Seq<u8>, n: nat, t: Seq<u8>) requires de_all::<T>(b, n) is Some ensures de_all::<T>(b + t, n) == de_all::<T>(b, n) decreases n
{ if n > 0 { T::used(b); T::local(b, t); let k = T::de(b)->Some_0.1; local_all::<T>(b.skip(k), (n - 1) as nat, t); assert((b + t).skip(k) =~= b.skip(k) + t); } }
pub proof fn fits_all<T: Sized_>(s: Seq<T>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].fine() ensures enc_all(s), ser_all(s).len() <= T::sz() * s.len(), T::fixed() ==> ser_all(s).len() == T::sz() * s.len() decreases s.len()
{
    T::nonneg();
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i].fine() by { assert(s[i + 1].fine()); }
        fits_all(t); s[0].fits();
        assert(T::sz() * s.len() == T::sz() + T::sz() * t.len()) by(nonlinear_arith) requires t.len() == s.len() - 1;
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].enc() by { s[i].fits(); }
    }
}
/// a vector is the sequence of its elements
pub struct Vec<T> { pub s: Seq<T> }
impl<T: Enc> Enc for Vec<T> {
    open spec fn enc(self) -> bool { self.s.len() < 0x1_0000_0000 && enc_all(self.s) }
    open spec fn ser(self) -> Seq<u8> { (self.s.len() as u32).ser() + ser_all(self.s) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { match u32::de(b) { None => None, Some((n, k)) => match de_all::<T>(b.skip(k), n as nat) { None => None, Some((s, m)) => Some((Vec { s }, k + m)) } } }
    proof fn round(self, rest: Seq<u8>) { broadcast use b_assoc, b_drop; (self.s.len() as u32).round(ser_all(self.s) + rest); round_all(self.s, rest); }
    proof fn used(b: Seq<u8>) { u32::used(b); if u32::de(b) is Some { used_all::<T>(b.skip(4), u32::de(b)->Some_0.0 as nat); } }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { u32::used(b); u32::local(b, t); assert((b + t).skip(4) =~= b.skip(4) + t); local_all::<T>(b.skip(4), u32::de(b)->Some_0.0 as nat, t); }
}
impl<T: Codec> Codec for Vec<T> {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl<T: Enc> Enc for Option<T> {
    open spec fn enc(self) -> bool { self matches Some(x) ==> x.enc() }
    open spec fn ser(self) -> Seq<u8> { match self { None => seq![0u8], Some(x) => seq![1u8] + x.ser() } }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { if b.len() == 0 { None } else if b[0] == 0 { Some((None, 1int)) } else if b[0] == 1 { match T::de(b.skip(1)) { None => None, Some((x, n)) => Some((Some(x), 1 + n)) } } else { None } }
    proof fn round(self, rest: Seq<u8>) { broadcast use b_assoc; if let Some(x) = self { x.round(rest); assert((self.ser() + rest).skip(1) =~= x.ser() + rest); } assert((self.ser() + rest)[0] == self.ser()[0]); }
    proof fn used(b: Seq<u8>) { if b.len() > 0 { T::used(b.skip(1)); } }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { assert((b + t)[0] == b[0]); assert((b + t).skip(1) =~= b.skip(1) + t); if b[0] == 1 { T::local(b.skip(1), t); } }
}
impl<T: Codec> Codec for Option<T> {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
//@note an array is determined by its elements, and there is one for every sequence of its length
pub uninterp spec fn arr<T, const N: usize>(s: Seq<T>) -> [T; N];
#[verifier::external_body] pub proof fn arr_axiom<T, const N: usize>(s: Seq<T>) requires s.len() == N ensures arr::<T, N>(s)@ == s { }
#[verifier::external_body] pub proof fn arr_same<T, const N: usize>(a: [T; N]) ensures a@.len() == N, arr::<T, N>(a@) == a { }
impl<T: Enc, const N: usize> Enc for [T; N] {
    open spec fn enc(self) -> bool { enc_all(self@) }
    open spec fn ser(self) -> Seq<u8> { ser_all(self@) }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { match de_all::<T>(b, N as nat) { None => None, Some((s, n)) => Some((arr::<T, N>(s), n)) } }
    proof fn round(self, rest: Seq<u8>) { arr_same(self); round_all(self@, rest); }
    proof fn used(b: Seq<u8>) { used_all::<T>(b, N as nat); }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { local_all::<T>(b, N as nat, t); }
}
impl<T: Codec, const N: usize> Codec for [T; N] {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
pub struct Pubkey { pub b: [u8; 32] }
pub struct Ipv4Addr { pub b: [u8; 4] }
impl Enc for Pubkey {
    open spec fn enc(self) -> bool { self.b.enc() }
    open spec fn ser(self) -> Seq<u8> { self.b.ser() }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { match <[u8; 32]>::de(b) { None => None, Some((x, n)) => Some((Pubkey { b: x }, n)) } }
    proof fn round(self, rest: Seq<u8>) { self.b.round(rest); }
    proof fn used(b: Seq<u8>) { <[u8; 32]>::used(b); }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { <[u8; 32]>::local(b, t); }
}
impl Codec for Pubkey {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
impl Enc for Ipv4Addr {
    open spec fn enc(self) -> bool { self.b.enc() }
    open spec fn ser(self) -> Seq<u8> { self.b.ser() }
    open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { match <[u8; 4]>::de(b) { None => None, Some((x, n)) => Some((Ipv4Addr { b: x }, n)) } }
    proof fn round(self, rest: Seq<u8>) { self.b.round(rest); }
    proof fn used(b: Seq<u8>) { <[u8; 4]>::used(b); }
    proof fn local(b: Seq<u8>, t: Seq<u8>) { <[u8; 4]>::local(b, t); }
}
impl Codec for Ipv4Addr {
    #[verifier::external_body] fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>) { unimplemented!() }
}
