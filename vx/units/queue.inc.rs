/// the abstract content of a ring: the elements from head (inclusive) to tail (exclusive)
pub open spec fn ring_len(h: int, t: int, n: int) -> int { if t >= h { t - h } else { n - h + t } }
pub open spec fn ring_view<N>(d: Seq<N>, h: int, t: int) -> Seq<N> {
    Seq::new(ring_len(h, t, d.len() as int) as nat, |i: int| d[(h + i) % (d.len() as int)])
}

proof fn mod_small(a: int, n: int) requires 0 <= a < 2 * n, n > 0 ensures a % n == (if a < n { a } else { a - n }) {
    if a < n { lemma_small_mod(a as nat, n as nat); } else { lemma_mod_add_multiples_vanish(a - n, n); lemma_small_mod((a - n) as nat, n as nat); }
}


pub trait RingBase: Sized {
    type N: Eqv;
    spec fn h(&self) -> int;
    spec fn t(&self) -> int;
    spec fn d(&self) -> Seq<Self::N>;
    const CAPACITY: u32;
    const SIZE: u32;
    proof fn lem(&self) ensures 2 <= Self::SIZE < 0x4000_0000, Self::CAPACITY + 1 == Self::SIZE, self.d().len() == Self::SIZE;

    fn get_head(&self) -> (r: u32) ensures r == self.h();
    fn set_head(&mut self, value: &u32) ensures final(self).h() == *value, final(self).t() == old(self).t(), final(self).d() == old(self).d();
    fn get_tail(&self) -> (r: u32) ensures r == self.t();
    fn set_tail(&mut self, value: &u32) ensures final(self).t() == *value, final(self).h() == old(self).h(), final(self).d() == old(self).d();
    fn get_data(&self, index: usize) -> (r: Self::N) ensures index < self.d().len(), r == self.d()[index as int];
    fn set_data(&mut self, index: usize, value: &Self::N) ensures index < old(self).d().len(),
        final(self).d() == old(self).d().update(index as int, *value), final(self).h() == old(self).h(), final(self).t() == old(self).t();

}
/// representation invariant: both indexes are slots
pub open spec fn qinv<Q: RingBase>(q: &Q) -> bool { 0 <= q.h() < Q::SIZE && 0 <= q.t() < Q::SIZE }
pub open spec fn qview<Q: RingBase>(q: &Q) -> Seq<Q::N> { ring_view(q.d(), q.h(), q.t()) }

pub trait RingQueue: RingBase {
//@fn elusiv/src/state/queue.rs in "trait RingQueue" enqueue
//@ret r
//@spec
    requires qinv(old(self))
    ensures
        r is Ok <==> qview(old(self)).len() + 1 < Self::SIZE,
        r is Ok ==> qinv(final(self)) && qview(final(self)) == qview(old(self)).push(value),
        r is Err ==> *final(self) == *old(self)
//@top
    proof { self.lem(); mod_small(self.t() + 1, Self::SIZE as int); }
    let ghost q0 = *self;
//@before Ok\(\(\)\)\s*$
    proof {
        self.lem();
        let n = Self::SIZE as int;
        assert forall|i: int| 0 <= i < ring_len(self.h(), self.t(), n) implies qview(self)[i] == qview(&q0).push(value)[i] by {
            mod_small(self.h() + i, n);
        }
        assert(qview(self) =~= qview(&q0).push(value));
    }
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" len
//@ret r
//@spec
    requires qinv(self)
    ensures r == qview(self).len(), r < Self::SIZE
//@top
    proof { self.lem(); }
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" is_empty
//@ret r
//@spec
    requires qinv(self)
    ensures r == (qview(self).len() == 0)
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" empty_slots
//@ret r
//@spec
    requires qinv(self)
    ensures r == Self::CAPACITY - qview(self).len()
//@top
    proof { self.lem(); }
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" view
//@ret r
//@spec
    requires qinv(self)
    ensures
        r is Ok <==> offset < qview(self).len(),
        r is Ok ==> r->Ok_0 == qview(self)[offset as int]
//@top
    proof { self.lem(); if offset < Self::SIZE { mod_small(self.h() + offset, Self::SIZE as int); } }
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" view_first
//@ret r
//@spec
    requires qinv(self)
    ensures
        r is Ok <==> 0 < qview(self).len(),
        r is Ok ==> r->Ok_0 == qview(self)[0]
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" dequeue_first
//@ret r
//@spec
    requires qinv(old(self))
    ensures
        r is Ok <==> 0 < qview(old(self)).len(),
        r is Ok ==> r->Ok_0 == qview(old(self))[0] && qinv(final(self)) && qview(final(self)) == qview(old(self)).subrange(1, qview(old(self)).len() as int),
        r is Err ==> *final(self) == *old(self)
//@top
    proof { self.lem(); mod_small(self.h() + 1, Self::SIZE as int); mod_small(self.h(), Self::SIZE as int); }
    let ghost q0 = *self;
//@before Ok\(value\)\s*$
    proof { self.lem(); lemma_drop(q0.d(), q0.h(), q0.t(), self.h(), 1); }
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" remove
//@ret r
//@spec
    requires qinv(old(self))
    ensures
        r is Ok <==> count <= qview(old(self)).len(),
        r is Ok ==> qinv(final(self)) && qview(final(self)) == qview(old(self)).subrange(count as int, qview(old(self)).len() as int),
        r is Err ==> *final(self) == *old(self)
//@top
    proof { self.lem(); if count < Self::SIZE { mod_small(self.h() + count, Self::SIZE as int); } }
    let ghost q0 = *self;
//@before Ok\(\(\)\)\s*$
    proof { self.lem(); lemma_drop(q0.d(), q0.h(), q0.t(), self.h(), count as int); }
//@end
//@fn elusiv/src/state/queue.rs in "trait RingQueue" contains
//@rw self\.get_data\(ptr as usize\) == \*value => self.get_data(ptr as usize).eqv(value)
//@ret r
//@spec
    requires qinv(self)
    ensures r == qview(self).contains(*value)
//@top
    proof { self.lem(); }
    let ghost n = Self::SIZE as int;
    let ghost mut k = 0int;
//@loop 1
    invariant
        qinv(self), n == Self::SIZE, 2 <= n < 0x4000_0000, self.d().len() == n, tail == self.t(),
        0 <= k <= qview(self).len(), 0 <= ptr < n,
        ptr == (if self.h() + k < n { self.h() + k } else { self.h() + k - n }),
        forall|i: int| 0 <= i < k ==> qview(self)[i] != *value,
    decreases qview(self).len() - k
//@looptop 1
    proof { mod_small(self.h() + k, n); mod_small(ptr + 1, n); assert(k < qview(self).len()); assert(qview(self)[k] == self.d()[ptr as int]); }
//@loopend 1
    proof { k = k + 1; }
//@end
}

proof fn lemma_drop<N>(d: Seq<N>, h: int, t: int, h2: int, c: int)
    requires 0 <= h < d.len(), 0 <= t < d.len(), 0 <= c <= ring_len(h, t, d.len() as int), 0 <= h2 < d.len(), h2 == (if h + c < d.len() { h + c } else { h + c - d.len() })
    ensures ring_view(d, h2, t) == ring_view(d, h, t).subrange(c, ring_len(h, t, d.len() as int))
{
    let n = d.len() as int;
    assert(ring_len(h2, t, n) == ring_len(h, t, n) - c);
    assert forall|i: int| 0 <= i < ring_len(h2, t, n) implies ring_view(d, h2, t)[i] == ring_view(d, h, t)[i + c] by {
        mod_small(h2 + i, n); mod_small(h + c + i, n);
    }
    assert(ring_view(d, h2, t) =~= ring_view(d, h, t).subrange(c, ring_len(h, t, n)));
}

