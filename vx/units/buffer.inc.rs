//@include base.inc.rs
//@include bytes.inc.rs

pub trait RawBuf: Sized {
    type N: Bytes;
    const CAPACITY: usize;
    spec fn l(&self) -> int;
    spec fn p(&self) -> int;
    spec fn raw(&self) -> Seq<u8>;
    proof fn lem(&self) ensures 2 <= Self::CAPACITY < 0x1_0000, self.raw().len() == Self::CAPACITY * Self::N::SIZE;
    fn len(&self) -> (r: usize) ensures r == self.l();
    fn set_len(&mut self, len: usize) ensures final(self).l() == len, final(self).p() == old(self).p(), final(self).raw() == old(self).raw();
    fn ptr(&self) -> (r: usize) ensures r == self.p();
    fn set_ptr(&mut self, ptr: usize) ensures final(self).p() == ptr, final(self).l() == old(self).l(), final(self).raw() == old(self).raw();
    fn set_value(&mut self, index: usize, value: &Self::N)
        ensures index < Self::CAPACITY, final(self).l() == old(self).l(), final(self).p() == old(self).p(), final(self).raw().len() == old(self).raw().len(),
            win(final(self).raw(), index as int, Self::N::SIZE as int) == value.enc(),
            forall|k: int| 0 <= k < Self::CAPACITY && k != index ==> #[trigger] win(final(self).raw(), k, Self::N::SIZE as int) == win(old(self).raw(), k, Self::N::SIZE as int);
    fn contains(&self, value: &Self::N) -> (r: bool)
        requires self.l() <= Self::CAPACITY
        ensures r == exists|k: int| 0 <= k < self.l() && #[trigger] win(self.raw(), k, Self::N::SIZE as int) == value.enc();
    fn find_position(&self, value: &Self::N) -> (r: Option<usize>)
        requires self.l() <= Self::CAPACITY
        ensures r matches Some(i) ==> i < self.l() && win(self.raw(), i as int, Self::N::SIZE as int) == value.enc(),
            r is None ==> forall|k: int| 0 <= k < self.l() ==> #[trigger] win(self.raw(), k, Self::N::SIZE as int) != value.enc();
}
pub open spec fn slot<B: RawBuf>(b: &B, k: int) -> Seq<u8> { win(b.raw(), k, B::N::SIZE as int) }
/// representation invariant (holds for a zeroed account)
pub open spec fn binv<B: RawBuf>(b: &B) -> bool { 0 <= b.l() <= B::CAPACITY && 0 <= b.p() < B::CAPACITY && (b.l() < B::CAPACITY ==> b.p() == b.l()) }
/// position of the i-th oldest value
pub open spec fn pos<B: RawBuf>(b: &B, i: int) -> int { if b.l() < B::CAPACITY { i } else if b.p() + i < B::CAPACITY { b.p() + i } else { b.p() + i - B::CAPACITY } }
/// the values held, oldest first
pub open spec fn held<B: RawBuf>(b: &B) -> Seq<Seq<u8>> { Seq::new(b.l() as nat, |i: int| slot(b, pos(b, i))) }
pub proof fn lemma_held<B: RawBuf>(b: &B, v: Seq<u8>) requires binv(b) ensures held(b).contains(v) <==> exists|k: int| 0 <= k < b.l() && #[trigger] win(b.raw(), k, B::N::SIZE as int) == v
{
    if held(b).contains(v) { let i = choose|i: int| 0 <= i < b.l() && held(b)[i] == v; assert(slot(b, pos(b, i)) == v && 0 <= pos(b, i) < b.l()); }
    if exists|k: int| 0 <= k < b.l() && #[trigger] win(b.raw(), k, B::N::SIZE as int) == v {
        let k = choose|k: int| 0 <= k < b.l() && #[trigger] win(b.raw(), k, B::N::SIZE as int) == v;
        let i = if b.l() < B::CAPACITY { k } else if k >= b.p() { k - b.p() } else { k - b.p() + B::CAPACITY };
        assert(pos(b, i) == k && held(b)[i] == v);
    }
}
pub trait RingBuffer: RawBuf {
//@fn elusiv/src/buffer.rs in "trait RingBuffer" push
//@rw \bmin\( => cmp_min(
//@rw value: &N => value: &Self::N
//@sig fn push(&mut self, value: &Self::N)
//@spec
    requires binv(old(self))
    ensures binv(final(self)),
        held(final(self)) == (if held(old(self)).len() < Self::CAPACITY { held(old(self)).push(value.enc()) } else { held(old(self)).subrange(1, Self::CAPACITY as int).push(value.enc()) })
//@top
    proof { self.lem(); lemma_small_mod(self.p() as nat, Self::CAPACITY as nat); if self.p() + 1 < Self::CAPACITY { lemma_small_mod((self.p() + 1) as nat, Self::CAPACITY as nat); } else { lemma_mod_self_0(Self::CAPACITY as int); } }
    let ghost b0 = *self;
//@bottom
    ;
    proof {
        let exp = if held(&b0).len() < Self::CAPACITY { held(&b0).push(value.enc()) } else { held(&b0).subrange(1, Self::CAPACITY as int).push(value.enc()) };
        assert(binv(self));
        assert(held(self).len() == exp.len());
        assert forall|i: int| 0 <= i < held(self).len() implies held(self)[i] == exp[i] by {
            let k = pos(self, i);
            assert(0 <= k < Self::CAPACITY);
            if k == b0.p() { assert(slot(self, k) == value.enc()); } else { assert(slot(self, k) == slot(&b0, k)); }
        }
        assert(held(self) =~= exp);
    }
//@end
//@fn elusiv/src/buffer.rs in "trait RingBuffer" try_insert
//@sig fn try_insert(&mut self, value: &Self::N) -> Result<(), ElusivError>
//@ret r
//@spec
    requires binv(old(self))
    ensures
        r is Err <==> held(old(self)).contains(value.enc()),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> binv(final(self)) && held(final(self)) == (if held(old(self)).len() < Self::CAPACITY { held(old(self)).push(value.enc()) } else { held(old(self)).subrange(1, Self::CAPACITY as int).push(value.enc()) }),
//@top
    proof { lemma_held(self, value.enc()); }
//@end
}
//@py buffer_instances
