//@include common.rs
verus! {
// Poseidon over the numbers of the field elements' Montgomery representation, and the constants that are its values
pub type U256 = [u8; 32];
pub open spec fn n4(a: int, b: int, c: int, d: int) -> int { a + (b + (c + d * 0x1_0000_0000_0000_0000) * 0x1_0000_0000_0000_0000) * 0x1_0000_0000_0000_0000 }
/// the number of little-endian bytes i..
pub open spec fn le(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i >= s.len() || i < 0 { 0 } else { s[i] + 256 * le(s, i + 1) } }
/// the modulus of the scalar field
pub open spec fn pp() -> int { n4(4891460686036598785, 2896914383306846353, 13281191951274694749, 3486998266802970665) }
/// the inverse of 2^256
pub open spec fn ri() -> int { n4(15878460856400419150, 652729105989627015, 14422230132535614813, 1579630222805128476) }
//@note ark_ff: an element is the four limbs of its Montgomery representation; +, *, square compute modulo the modulus of ark_bn254::Fr, * with one factor 2^-256; Fr::new takes the limbs as they are, zero is 0
#[derive(Clone, Copy)]
pub struct Fr { pub l: [u64; 4] }
pub open spec fn rv(f: Fr) -> int { n4(f.l[0] as int, f.l[1] as int, f.l[2] as int, f.l[3] as int) }
pub fn fnew(l: [u64; 4]) -> (r: Fr) ensures r.l == l { Fr { l } }
pub open spec fn addm(m: Mx, a: int, b: int) -> int { (a + b) % m.p }
pub open spec fn mulm(m: Mx, a: int, b: int) -> int { a * b * m.ri % m.p }
#[verifier::external_body] pub fn fadd(a: Fr, b: Fr) -> (r: Fr) ensures rv(r) == addm(mx(), rv(a), rv(b)) { unimplemented!() }
#[verifier::external_body] pub fn fmul(a: Fr, b: Fr) -> (r: Fr) ensures rv(r) == mulm(mx(), rv(a), rv(b)) { unimplemented!() }
impl Fr {
    #[verifier::external_body] pub fn square(&self) -> (r: Fr) ensures rv(r) == mulm(mx(), rv(*self), rv(*self)) { unimplemented!() }
    pub fn zero() -> (r: Fr) ensures rv(r) == 0 { Fr { l: [0, 0, 0, 0] } }
}
//@const elusiv/src/state/storage.rs MT_HEIGHT
//@const elusiv/src/commitment/poseidon_hash.rs TOTAL_POSEIDON_ROUNDS
//@py poseidon
// the algorithm: add the round's constants, raise to the fifth power (every element in the first and last four rounds, otherwise the first), mix
pub open spec fn fifth(m: Mx, x: int) -> int { let y = mulm(m, x, x); mulm(m, mulm(m, y, y), x) }
pub open spec fn mixm(m: Mx, x: int, y: int, z: int, a: int, b: int, d: int) -> int { addm(m, addm(m, addm(m, 0, mulm(m, x, a)), mulm(m, y, b)), mulm(m, z, d)) }
pub open spec fn prnd(m: Mx, r: int, s: (int, int, int)) -> (int, int, int) {
    let k = rc(r);
    let a = fifth(m, addm(m, s.0, k.0)); let b1 = addm(m, s.1, k.1); let d1 = addm(m, s.2, k.2);
    let b = if 4 <= r < 61 { b1 } else { fifth(m, b1) }; let d = if 4 <= r < 61 { d1 } else { fifth(m, d1) };
    (mixm(m, m.m0, m.m1, m.m2, a, b, d), mixm(m, m.m3, m.m4, m.m5, a, b, d), mixm(m, m.m6, m.m7, m.m8, a, b, d))
}
pub open spec fn prounds(m: Mx, n: nat, s: (int, int, int)) -> (int, int, int) decreases n { if n == 0 { s } else { prnd(m, n - 1, prounds(m, (n - 1) as nat, s)) } }
/// the Poseidon hash of two elements
pub open spec fn hash2(a: int, b: int) -> int { prounds(mx(), 65, (0, a, b)).0 }
pub struct BinarySpongeHashingState(pub [Fr; 3]);
pub open spec fn sv(s: BinarySpongeHashingState) -> (int, int, int) { (rv(s.0[0]), rv(s.0[1]), rv(s.0[2])) }
//@fn elusiv/src/commitment/poseidon_constants.rs constants
//@props M03 H01
//@rw Fr::new\(BigInteger256\((\[[^\]]*\])\)\) => fnew(\1)
//@ret r
//@spec
    ensures round < POSEIDON_TABLE, (rv(r[0]), rv(r[1]), rv(r[2])) == rc(round as int)
//@end
impl BinarySpongeHashingState {
//@fn elusiv/src/commitment/poseidon_hash.rs in "impl BinarySpongeHashingState" new
//@props M03 H01
//@ret s
//@spec
    ensures sv(s) == (if invert { (0, rv(r), rv(l)) } else { (0, rv(l), rv(r)) })
//@end
//@fn elusiv/src/commitment/poseidon_hash.rs in "impl BinarySpongeHashingState" result
//@props M03 H01
//@ret r
//@spec
    ensures rv(r) == sv(*self).0
//@end
}
//@fn expanded:rac/elusiv binary_poseidon_hash_partial
//@props M03 H01
//@rw !\((\w+)\.\.(\w+)\)\.contains\(&round\) => !(\1 <= round && round < \2)
//@rw MATRIX\[([^\]]*)\] \* (\w+\[\d\]) => fmul(x_matrix(\1), \2)
//@rw (\w+\[\d\]) \+= ([^;]*); => \1 = fadd(\1, \2);
//@rw (\w+\[\d\]) \*= &?(\w+); => \1 = fmul(\1, \2);
//@rw (\}|;)\s*;(?=\s) => \1
//@ret r
//@spec
    ensures round < POSEIDON_TABLE, sv(*final(hashing_state)) == prnd(mx(), round as int, sv(*old(hashing_state)))
//@end
//@fn elusiv/src/commitment/poseidon_hash.rs full_poseidon2_hash
//@props M03 H01
//@desugar 1
//@ret r
//@spec
    ensures rv(r) == hash2(rv(a), rv(b))
//@loop 1
    invariant round_end == TOTAL_POSEIDON_ROUNDS, round_next <= round_end, sv(state) == prounds(mx(), round_next as nat, (0, rv(a), rv(b)))
    decreases round_end - round_next
//@end
fn main(){}
}
