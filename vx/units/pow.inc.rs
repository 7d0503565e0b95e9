pub fn two_pow_fn(e: u32) -> (r: usize)
    ensures r == pow2(e as nat), e < 64
{
    let mut r: usize = 1; let mut i: u32 = 0;
    proof { lemma2_to64(); lemma2_to64_rest(); }
    while i < e invariant 0 <= i <= e, r == pow2(i as nat), i < 64, pow2(64) == 0x10000000000000000 decreases e - i {
        proof { lemma_pow2_unfold((i + 1) as nat); if i == 63 { assert(pow2(64) == 2 * r); } }
        if r > usize::MAX / 2 { abort() }
        proof { if i == 63 { assert(false); } }
        r = r * 2; i = i + 1;
    }
    r
}
