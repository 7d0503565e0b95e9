/// the number a byte string stands for, least significant byte first
pub open spec fn le(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * le(s.subrange(1, s.len() as int)) } }
/// equal numbers of the same length are the same bytes
pub proof fn lemma_le_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), le(a) == le(b) ensures a == b decreases a.len()
{
    if a.len() > 0 {
        let a1 = a.subrange(1, a.len() as int); let b1 = b.subrange(1, b.len() as int);
        assert(a[0] == b[0] && le(a1) == le(b1));
        lemma_le_inj(a1, b1);
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a1[i - 1] == a[i] && b1[i - 1] == b[i]); } }
    }
    assert(a =~= b);
}
