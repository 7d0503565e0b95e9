/// a borsh type of fixed size: its encoding is injective and has exactly SIZE bytes
pub trait Bytes: Sized {
    const SIZE: usize;
    spec fn enc(&self) -> Seq<u8>;
    proof fn enc_len(&self) ensures self.enc().len() == Self::SIZE;
    proof fn size_ok() ensures 2 <= Self::SIZE <= 0x1000;
    proof fn enc_inj(&self, o: &Self) requires self.enc() == o.enc() ensures *self == *o;
    fn try_to_vec(v: &Self) -> (r: Result<Vec<u8>, ()>) ensures r is Ok, r->Ok_0@ == v.enc();
}
//@note BorshSerialize of [u8; 32] writes the 32 bytes (borsh, external)
pub type U256 = [u8; 32];
impl Bytes for U256 {
    const SIZE: usize = 32;
    open spec fn enc(&self) -> Seq<u8> { self@ }
    proof fn enc_len(&self) {}
    proof fn size_ok() {}
    proof fn enc_inj(&self, o: &Self) { assert(*self =~= *o); }
    #[verifier::external_body] fn try_to_vec(v: &Self) -> (r: Result<Vec<u8>, ()>) { unimplemented!() }
}
/// the i-th aligned value of size s
pub open spec fn win(d: Seq<u8>, i: int, s: int) -> Seq<u8> { d.subrange(i * s, (i + 1) * s) }
pub proof fn win_fits(i: int, s: int, n: int) requires 0 <= i < n, s >= 0 ensures 0 <= i * s, i * s + s <= n * s, (i + 1) * s == i * s + s, 0 <= n * s
{ assert((i + 1) * s == i * s + s && i * s + s <= n * s && 0 <= i * s && 0 <= n * s) by(nonlinear_arith) requires 0 <= i < n, s >= 0; }
pub open spec fn prefix_req(d: &[u8], n: usize) -> bool { n <= d@.len() }
#[verifier::external_body] pub fn prefix(d: &Vec<u8>, n: usize) -> (r: &[u8]) ensures n <= d@.len(), r@ == d@.subrange(0, n as int) { unimplemented!() }

//@fn elusiv/src/bytes.rs find
//@sig pub fn find<N: Bytes>(v: &N, data: &[u8], length: usize) -> Option<usize>
//@ret r
//@desugar 1
//@desugar 2
//@spec
    requires length * N::SIZE <= data@.len()
    ensures
        r matches Some(i) ==> i < length && win(data@, i as int, N::SIZE as int) == v.enc() && forall|k: int| 0 <= k < i ==> #[trigger] win(data@, k, N::SIZE as int) != v.enc(),
        r is None ==> forall|k: int| 0 <= k < length ==> #[trigger] win(data@, k, N::SIZE as int) != v.enc(),
//@top
    let data_len = data.len();
    proof { v.enc_len(); N::size_ok(); assert(length <= length * N::SIZE) by(nonlinear_arith) requires N::SIZE >= 2; assert(length * N::SIZE <= usize::MAX); }
//@loop 1
    invariant
        i_end == length, i_next <= length, data@.len() <= usize::MAX, offset == i_next * N::SIZE, length * N::SIZE <= data@.len(), 2 <= N::SIZE <= 0x1000,
        bytes@ == v.enc(), v.enc().len() == N::SIZE, last_index == N::SIZE - 1,
        forall|k: int| 0 <= k < i_next ==> #[trigger] win(data@, k, N::SIZE as int) != v.enc(),
    decreases i_end - i_next
//@looptop 1
    proof { win_fits(i as int, N::SIZE as int, length as int); }
    let ghost w = win(data@, i as int, N::SIZE as int);
    assert(w.len() == N::SIZE);
    assert(forall|x: int| 0 <= x < N::SIZE ==> w[x] == data@[offset + x]);
//@loopend 1
    proof { assert(w != v.enc()); }
//@loop 2
    invariant_except_break
        j_next < N::SIZE, forall|x: int| 0 <= x < j_next ==> w[x] == v.enc()[x],
    invariant
        j_end == N::SIZE, 1 <= j_next <= N::SIZE, w == win(data@, i as int, N::SIZE as int), w.len() == N::SIZE,
        i < length, offset + N::SIZE <= data@.len() <= usize::MAX, 2 <= N::SIZE <= 0x1000, last_index == N::SIZE - 1,
        bytes@ == v.enc(), v.enc().len() == N::SIZE,
        forall|x: int| 0 <= x < N::SIZE ==> w[x] == data@[offset + x],
        forall|k: int| 0 <= k < i ==> #[trigger] win(data@, k, N::SIZE as int) != v.enc(),
    ensures w != v.enc(),
    decreases j_end - j_next
//@looptop 2
    assert(j == last_index && w[j as int] == v.enc()[j as int] ==> w =~= v.enc());
//@end
//@fn elusiv/src/bytes.rs contains
//@sig pub fn contains<N: Bytes>(v: &N, data: &[u8]) -> bool
//@ret r
//@spec
    ensures r == exists|k: int| 0 <= k < (data@.len() as int) / (N::SIZE as int) && #[trigger] win(data@, k, N::SIZE as int) == v.enc()
//@top
    proof {
        v.enc_len(); N::size_ok();
        let l = data@.len() as int; let s = N::SIZE as int;
        assert((l / s) * s <= l && 0 <= l / s) by(nonlinear_arith) requires s >= 2, l >= 0;
    }
//@end
pub proof fn lemma_pre(raw: Seq<u8>, n: int, c: int, s: int) requires 0 <= n <= c < 0x1_0000, 2 <= s <= 0x1000, raw.len() == c * s
    ensures 0 <= n * s <= raw.len() <= usize::MAX, raw.subrange(0, n * s).len() as int / s == n,
        forall|k: int| 0 <= k < n ==> #[trigger] win(raw.subrange(0, n * s), k, s) == win(raw, k, s),
        forall|k: int| 0 <= k < n ==> #[trigger] win(raw, k, s) == win(raw.subrange(0, n * s), k, s)
{
    assert(n * s <= c * s && 0 <= n * s && c * s <= 0x1_0000 * 0x1000) by(nonlinear_arith) requires 0 <= n <= c < 0x1_0000, 2 <= s <= 0x1000;
    lemma_div_multiples_vanish(n, s);
    assert(n * s == s * n) by(nonlinear_arith);
    assert forall|k: int| 0 <= k < n implies #[trigger] win(raw.subrange(0, n * s), k, s) == win(raw, k, s) by {
        win_fits(k, s, n);
        assert(win(raw.subrange(0, n * s), k, s) =~= win(raw, k, s));
    }
}
