//@include common.rs
verus! {
pub struct IoError { pub x: u8 }
pub struct Key { pub b: [u8; 32] }
pub struct AccountInfo<'t> { pub x: &'t u8 }
//@note what the derived encoding of a stored type satisfies: a value that may be stored takes at most its declared size, exactly that for a type of fixed size, and is decoded from its bytes (proved of every type under E01)
//@note array lengths are between 1 and 2^20
//@note declared sizes of account fields are between 1 and 2^20 (checked of every type under E01)
pub trait Stored: Sized {
    spec fn ser(self) -> Seq<u8>;
    spec fn de(b: Seq<u8>) -> Option<Self>;
    spec fn fine(self) -> bool;
    spec fn fixed() -> bool;
    spec fn sz() -> int;
    proof fn fits(self) requires self.fine() ensures self.ser().len() <= Self::sz(), Self::fixed() ==> self.ser().len() == Self::sz() && Self::de(self.ser()) == Some(self);
    fn try_from_slice(b: &[u8]) -> (r: Result<Self, IoError>) ensures r is Ok <==> Self::de(b@) is Some, r is Ok ==> Self::de(b@) == Some(r->Ok_0);
}
#[verifier::external_body] pub proof fn size_of<T: Stored>() ensures 1 <= T::sz() < 0x10_0000 { }
//@note BorshSerialize::serialize into a mutable slice writes the bytes at its start, or fails when they do not fit
#[verifier::external_body] pub fn put<T: Stored>(value: &T, d: &mut [u8]) ensures value.ser().len() <= old(d)@.len(), final(d)@ == value.ser() + old(d)@.skip(value.ser().len() as int) { unimplemented!() }
//@note split_at_mut gives the two parts
#[verifier::external_body] pub fn split<'a>(d: &'a mut [u8], n: usize) -> (r: (&'a mut [u8], &'a mut [u8])) ensures n <= old(d)@.len(), old(d)@ == r.0@ + r.1@, r.0@.len() == n, final(d)@ == final(r.0)@ + final(r.1)@, r.0@ == old(d)@.take(n as int), r.1@ == old(d)@.skip(n as int) { unimplemented!() }
/// a part of an account that is loaded lazily (E03)
pub struct Part<'a> { pub d: &'a mut [u8] }
impl<'a> Part<'a> { pub fn new(d: &'a mut [u8]) -> (r: Self) ensures r.d@ == old(d)@, final(d)@ == final(r.d)@ { Part { d } } }
// indexing aborts out of range
pub fn sub<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8]) ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int) { if !(a <= b && b <= s.len()) { abort() } &s[a..b] }
pub fn sub_mut<'a>(s: &'a mut [u8], a: usize, b: usize) -> (r: &'a mut [u8])
    ensures a <= b <= old(s)@.len(), r@ == old(s)@.subrange(a as int, b as int), final(s)@ == old(s)@.subrange(0, a as int) + final(r)@ + old(s)@.subrange(b as int, old(s)@.len() as int)
{ if !(a <= b && b <= s.len()) { abort() } &mut s[a..b] }
pub fn vget<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i >= v.len() { abort() } &v[i] }
pub fn nones<N>(n: usize) -> (r: Vec<Option<N>>) ensures r@.len() == n {
    let mut v: Vec<Option<N>> = Vec::new(); let mut i = 0usize;
    while i < n invariant v@.len() == i, i <= n decreases n - i { v.push(None); i = i + 1; }
    v
}
pub fn prod(a: usize, b: usize) -> (r: usize) requires a < 0x10_0000, b < 0x10_0000 ensures r == a * b, r < 0x100_0000_0000 { proof { assert(a * b < 0x100_0000_0000) by (nonlinear_arith) requires 0 <= a < 0x10_0000, 0 <= b < 0x10_0000; } a * b }
pub open spec fn chunk(d: Seq<u8>, i: int, n: int) -> Seq<u8> { d.subrange(i * n, (i + 1) * n) }
pub proof fn idx(i: int, n: int) requires 0 <= i < 0x1_0000_0000, 0 <= n < 0x10_0000 ensures 0 <= i * n <= (i + 1) * n <= 0x1000_0000_0000_0000, (i + 1) * n == i * n + n
{
    assert(0 <= i * n) by (nonlinear_arith) requires i >= 0, n >= 0;
    assert(i * n <= 0x1_0000_0000 * 0x10_0000) by (nonlinear_arith) requires 0 <= i < 0x1_0000_0000, 0 <= n < 0x10_0000;
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
}
/// writing x at the start of entry i changes that entry and no other
pub proof fn entry(d: Seq<u8>, e: Seq<u8>, i: int, n: int, x: Seq<u8>)
    requires 0 <= i, 0 <= n, (i + 1) * n <= d.len(), x.len() <= n, e =~= d.subrange(0, i * n) + (x + d.subrange(i * n, i * n + n).skip(x.len() as int)) + d.subrange(i * n + n, d.len() as int)
    ensures e.len() == d.len(), x.len() == n ==> chunk(e, i, n) == x, forall|j: int| 0 <= j && j != i && (j + 1) * n <= d.len() ==> #[trigger] chunk(e, j, n) == chunk(d, j, n)
{
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n >= 0;
    if x.len() == n { assert(chunk(e, i, n) =~= x); }
    assert forall|j: int| 0 <= j && j != i && (j + 1) * n <= d.len() implies #[trigger] chunk(e, j, n) == chunk(d, j, n) by {
        assert((j + 1) * n == j * n + n) by (nonlinear_arith);
        assert(j * n >= 0) by (nonlinear_arith) requires j >= 0, n >= 0;
        if j < i { assert((j + 1) * n <= i * n) by (nonlinear_arith) requires j + 1 <= i, n >= 0; }
        else { assert((i + 1) * n <= j * n) by (nonlinear_arith) requires i + 1 <= j, n >= 0; }
        assert(chunk(e, j, n) =~= chunk(d, j, n));
    }
}
/// the entries below c are those that c entries of n bytes hold
pub proof fn kids(n: int, c: int, i: int) requires 0 <= n, 0 <= c, 0 <= i ensures n > 0 && (i + 1) * n <= n * c ==> i < c, forall|j: int| 0 <= j < c ==> #[trigger] ((j + 1) * n) <= n * c
{
    if i >= c { assert((i + 1) * n > n * c || n == 0) by (nonlinear_arith) requires i >= c, n >= 0; }
    assert forall|j: int| 0 <= j < c implies #[trigger] ((j + 1) * n) <= n * c by { assert((j + 1) * n <= n * c) by (nonlinear_arith) requires j + 1 <= c, n >= 0; }
}
//@py layouts rac/elusiv racw/elusiv_warden_network
fn main(){}
}
