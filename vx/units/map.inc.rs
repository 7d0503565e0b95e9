//@include pow.inc.rs
//@note ElusivMap: keys are compared by their number (E02); a lazily loaded field is its value (E03)
pub trait ElusivMapKey: Sized { spec fn num(&self) -> int; }
pub trait ElusivMapValue: Sized {}
pub struct ElusivMapPtr(pub u16);
impl Copy for ElusivMapPtr {}
impl Clone for ElusivMapPtr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub fn ptr_ne(a: ElusivMapPtr, b: ElusivMapPtr) -> (r: bool) ensures r == (a != b) { a.0 != b.0 }
pub enum ElusivMapError<V: ElusivMapValue> { Duplicate(V), KeyTooLarge, KeyNotFound }
pub enum Ordering { Less, Equal, Greater }
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body] pub fn key_cmp<K: ElusivMapKey>(a: &K, b: &K) -> (r: Ordering) ensures r == ord_of(a.num(), b.num()) { unimplemented!() }
#[verifier::external_body] pub fn key_gt<K: ElusivMapKey>(a: &K, b: &K) -> (r: bool) ensures r == (a.num() > b.num()) { unimplemented!() }
pub fn u32_cmp(a: u32, b: &u32) -> (r: Ordering) ensures r == ord_of(a as int, *b as int) { if a < *b { Ordering::Less } else if a == *b { Ordering::Equal } else { Ordering::Greater } }
pub fn u32_of(b: bool) -> (r: u32) ensures r == (if b { 1int } else { 0 }) { if b { 1 } else { 0 } }
pub fn to_u16(x: u32) -> (r: u16) ensures r == x { if x > 65535 { abort() } x as u16 }
#[verifier::external_body] pub fn val_clone<V: ElusivMapValue>(v: &V) -> (r: V) { unimplemented!() }
#[verifier::external_body] pub fn val_default<V: ElusivMapValue>() -> (r: V) { unimplemented!() }

pub struct Lazy<T> { pub v: T }
impl<T> Lazy<T> {
    #[verifier::external_body] pub fn get(&mut self) -> (r: T) ensures r == old(self).v, *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, v: T) ensures final(self).v == v { unimplemented!() }
}
pub struct LazyArray<T, const N: usize> { pub d: Ghost<Seq<T>>, pub v: Vec<T> }
impl<T, const N: usize> LazyArray<T, N> {
    #[verifier::external_body] pub fn get(&mut self, i: usize) -> (r: T) ensures i < N, r == old(self).d@[i as int], *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, i: usize, v: T) requires old(self).d@.len() == N ensures i < N, final(self).d@ == old(self).d@.update(i as int, v) { unimplemented!() }
}
pub struct JITArray<T, const N: usize> { pub d: Ghost<Seq<T>>, pub v: Vec<T> }
impl<T, const N: usize> JITArray<T, N> {
    #[verifier::external_body] pub fn get(&mut self, i: usize) -> (r: T) ensures i < N, r == old(self).d@[i as int], *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, i: usize, v: &T) requires old(self).d@.len() == N ensures i < N, final(self).d@ == old(self).d@.update(i as int, *v) { unimplemented!() }
}
//@const elusiv/src/map.rs MID_PTR_HEIGHT
//@py ints elusiv/src/map.rs MID_PTR_COUNT SUBSECTIONS
pub struct ElusivMap<K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> {
    pub len: Lazy<u32>,
    pub min_ptr: Lazy<ElusivMapPtr>,
    pub max_ptr: Lazy<ElusivMapPtr>,
    pub mid_ptr: LazyArray<ElusivMapPtr, MID_PTR_COUNT>,
    pub next: JITArray<ElusivMapPtr, CAPACITY>,
    pub prev: JITArray<ElusivMapPtr, CAPACITY>,
    pub keys: JITArray<K, CAPACITY>,
    pub values: JITArray<V, CAPACITY>,
    pub s: Ghost<Seq<int>>,
}
/// position of the k-th cached ptr
#[verifier::opaque]
pub open spec fn cm(k: int, len: int) -> int { ((1 + k) * len) / (SUBSECTIONS as int) }
proof fn lemma_cm(k: int, len: int) requires 0 <= k < MID_PTR_COUNT, len >= 0
    ensures 0 <= cm(k, len), cm(k, len) <= cm(k, len + 1) <= cm(k, len) + 1, len > 0 ==> cm(k, len) < len, len >= 32 ==> cm(k, len) < len - 1,
        (1 + k) * len <= 16 * len, (1 + k) * len >= 0, SUBSECTIONS == 16
{
    reveal(cm);
    assert((1 + k) * (len + 1) == (1 + k) * len + (1 + k)) by(nonlinear_arith);
    assert((1 + k) * len <= 15 * len) by(nonlinear_arith) requires 0 <= k < 15, len >= 0;
    assert((1 + k) * len >= 0) by(nonlinear_arith) requires 0 <= k < 15, len >= 0;
}
impl<K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<K, V, CAPACITY> {
    pub open spec fn nx(&self, p: int) -> int { self.next.d@[p].0 as int }
    pub open spec fn pv(&self, p: int) -> int { self.prev.d@[p].0 as int }
    /// sizes fixed by the layout
    pub open spec fn shape(&self) -> bool {
        32 <= CAPACITY <= 0x10000 && self.mid_ptr.d@.len() == MID_PTR_COUNT && self.next.d@.len() == CAPACITY && self.prev.d@.len() == CAPACITY
        && self.keys.d@.len() == CAPACITY && self.values.d@.len() == CAPACITY
    }
    pub open spec fn chain(&self, n: Seq<int>) -> bool { chained(self.next.d@, self.prev.d@, n, CAPACITY as int) }
    pub open spec fn mids(&self, n: Seq<int>) -> bool { midsat(self.mid_ptr.d@, n) }
    pub open spec fn ends(&self, n: Seq<int>) -> bool {
        if n.len() == 0 { self.min_ptr.v.0 == 0 && self.max_ptr.v.0 == 0 } else { self.min_ptr.v.0 == n[0] && self.max_ptr.v.0 == n.last() }
    }
    pub open spec fn linv(&self) -> bool {
        self.shape() && self.len.v == self.s@.len() && (forall|i: int| 0 <= i < self.s@.len() ==> #[trigger] self.s@[i] < self.s@.len())
        && self.chain(self.s@) && self.mids(self.s@) && self.ends(self.s@)
    }
    /// the keys in the order of the chain
    pub open spec fn ks(&self) -> Seq<int> { Seq::new(self.s@.len(), |i: int| self.keys.d@[self.s@[i]].num()) }
    pub open spec fn wf(&self) -> bool { self.linv() && inc(self.ks()) }
    pub open spec fn full(&self) -> bool { self.s@.len() == CAPACITY }
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" compute_mid
//@props N01
//@ret r
//@spec
    requires mid_ptr_index < MID_PTR_COUNT, len <= 0x10000
    ensures r == cm(mid_ptr_index as int, len as int)
//@top
    proof { lemma_cm(mid_ptr_index as int, len as int); reveal(cm); }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" get_next_ptr
//@props N01
//@desugar 1
//@ret r
//@spec
    requires old(self).linv(), exists|j: int| 0 <= j && j + offset < old(self).s@.len() && #[trigger] old(self).s@[j] == base_ptr.0
    ensures *final(self) == *old(self),
        forall|j: int| 0 <= j && j + offset < old(self).s@.len() && #[trigger] old(self).s@[j] == base_ptr.0 ==> r.0 == old(self).s@[j + offset]
//@top
    let ghost j0 = choose|j: int| 0 <= j && j + offset < old(self).s@.len() && #[trigger] old(self).s@[j] == base_ptr.0;
//@loop 1
    invariant __next <= __end, __end == offset, *self == *old(self), self.linv(), 0 <= j0, j0 + offset < self.s@.len(), self.s@[j0] == base_ptr.0, ptr.0 == self.s@[j0 + __next]
    decreases __end - __next
//@looptop 1
    proof { assert(lk(self.next.d@, self.prev.d@, self.s@, j0 + __next - 1)); }
//@afterloop 1
    proof { assert forall|j: int| 0 <= j && j + offset < old(self).s@.len() && #[trigger] old(self).s@[j] == base_ptr.0 implies ptr.0 == old(self).s@[j + offset] by { if j != j0 { assert(ne(self.s@, j, j0)); } } }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" key
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), ptr.0 < CAPACITY, r == old(self).keys.d@[ptr.0 as int]
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" value
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), ptr.0 < CAPACITY, r == old(self).values.d@[ptr.0 as int]
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" set
//@props N01
//@spec
    requires old(self).shape()
    ensures ptr.0 < CAPACITY, final(self).keys.d@ == old(self).keys.d@.update(ptr.0 as int, *key), final(self).values.d@ == old(self).values.d@.update(ptr.0 as int, *value),
        *final(self) == (ElusivMap { keys: final(self).keys, values: final(self).values, ..*old(self) })
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" get_prev
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), ptr.0 < CAPACITY, r.0 == old(self).pv(ptr.0 as int)
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" get_next
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), ptr.0 < CAPACITY, r.0 == old(self).nx(ptr.0 as int)
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" link_ptrs
//@props N01
//@spec
    requires old(self).shape()
    ensures a.0 < CAPACITY, b.0 < CAPACITY, final(self).next.d@ == old(self).next.d@.update(a.0 as int, *b), final(self).prev.d@ == old(self).prev.d@.update(b.0 as int, *a),
        *final(self) == (ElusivMap { next: final(self).next, prev: final(self).prev, ..*old(self) })
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" min
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), old(self).wf() && old(self).s@.len() > 0 ==> r.num() == old(self).ks()[0]
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" min_value
//@props N01
//@spec
    ensures *final(self) == *old(self)
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" max
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), old(self).wf() && old(self).s@.len() > 0 ==> r.num() == old(self).ks().last()
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" max_value
//@props N01
//@spec
    ensures *final(self) == *old(self)
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" is_empty
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), old(self).linv() ==> r == (old(self).s@.len() == 0)
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" is_full
//@props N01
//@ret r
//@spec
    ensures *final(self) == *old(self), r == (old(self).len.v == CAPACITY), old(self).linv() ==> r == old(self).full()
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" get_ptr
//@props N01
//@rw index\.cmp\(&mid\) => u32_cmp(index, &mid)
//@rw two_pow!\( => two_pow_fn(
//@desugar 1
//@ret r
//@spec
    requires old(self).linv(), 0 <= base_ptr_offset, base_ptr_offset + offset < old(self).s@.len(), base_ptr.0 == old(self).s@[base_ptr_offset as int]
    ensures *final(self) == *old(self), r.0 == old(self).s@[base_ptr_offset + offset]
//@top
    let ghost mut w: int = 8;
    proof { reveal(midsat); }
//@loop 1
    invariant 1 <= i_next <= i_end + 1, i_end == MID_PTR_HEIGHT, *self == *old(self), self.linv(), len == self.s@.len(), index == base_ptr_offset + offset, index < len,
        w == (if i_next == 1 { 8int } else if i_next == 2 { 4 } else if i_next == 3 { 2 } else { 1 }),
        w - 1 <= mid_ptr_index <= 15 - w,
        mid_ptr_index - w >= 0 ==> index > cm(mid_ptr_index - w, len as int),
        mid_ptr_index + w <= 14 ==> index < cm(mid_ptr_index + w, len as int),
    decreases i_end + 1 - i_next
//@looptop 1
    proof { reveal(midsat); lemma2_to64(); w = w / 2; }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" binary_search
//@props N01
//@rw key\.cmp\( => key_cmp(key, 
//@rw \*key > self => key_gt(key, &self
//@rw key_gt\(key, &self\.key\(&mid_ptr\) => key_gt(key, &self.key(&mid_ptr))
//@ret r
//@spec
    requires old(self).wf()
    ensures *final(self) == *old(self),
        r is Ok ==> r->Ok_0 <= old(self).s@.len() && (old(self).full() ==> r->Ok_0 < old(self).s@.len()) && splits(old(self).ks(), key.num(), r->Ok_0 as int),
        r is Err && r->Err_0 is Duplicate ==> old(self).ks().contains(key.num()),
        r is Err && !(r->Err_0 is Duplicate) ==> r->Err_0 is KeyTooLarge && old(self).full() && key.num() > old(self).ks().last()
//@loop 1
    invariant *self == *old(self), self.wf(), 0 <= low <= high <= self.s@.len(), self.s@.len() > 0, low < self.s@.len(), low_ptr.0 == self.s@[low as int],
        key.num() < k.last(), key.num() > k[0], k == self.ks(), inc(k), k.len() == self.s@.len(),
        forall|i: int| 0 <= i < low ==> #[trigger] k[i] < key.num(),
        forall|i: int| high <= i < k.len() ==> #[trigger] k[i] > key.num(),
        (low == 0 && high == self.s@.len()) || (mid < self.s@.len() && mid_ptr.0 == self.s@[mid as int] && (mid == high || mid + 1 == low))
    decreases high - low
//@top
    let ghost k = self.ks();
    proof {
        assert forall|i: int| 0 < i < k.len() implies k[0] < #[trigger] k[i] by { assert(lt(k, 0, i)); }
        assert forall|i: int| 0 <= i < k.len() - 1 implies #[trigger] k[i] < k.last() by { assert(lt(k, i, k.len() - 1)); }
        if k.len() > 0 { assert(k.contains(k[0])); assert(k.contains(k.last())) by { assert(k[k.len() - 1] == k.last()); } }
    }
//@before match key_cmp\(key,\s*&self\.key
    proof {
        assert(k[mid as int] == self.keys.d@[self.s@[mid as int]].num()); assert(k.contains(k[mid as int]));
        assert forall|i: int| mid < i < k.len() implies #[trigger] k[i] > k[mid as int] by { assert(lt(k, mid as int, i)); }
        assert forall|i: int| 0 <= i < mid implies #[trigger] k[i] < k[mid as int] by { assert(lt(k, i, mid as int)); }
        if mid + 1 < k.len() { assert(lk(self.next.d@, self.prev.d@, self.s@, mid as int)); }
    }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" update_mid_ptrs
//@props N01
//@rw u32::from\( => u32_of(
//@desugar 1
//@spec
    requires old(self).shape(), old(self).len.v == old(self).s@.len(), old(self).mids(old(self).s@), insertion_index <= old(self).s@.len(),
        old(self).full() ==> insertion_index < old(self).s@.len(), old(self).s@.len() <= CAPACITY,
        old(self).chain(old(self).ns(insertion_index as int)), old(self).s@.len() == 0 ==> old(self).prev.d@[0].0 == 0
    ensures final(self).mids(old(self).ns(insertion_index as int)), final(self).shape(), *final(self) == (ElusivMap { mid_ptr: final(self).mid_ptr, ..*old(self) })
//@loop 1
    invariant i_next <= i_end, i_end == MID_PTR_COUNT, self.shape(), *self == (ElusivMap { mid_ptr: self.mid_ptr, ..*old(self) }),
        len == self.s@.len(), len == self.len.v, is_full == self.full(), new_len == n.len(), n == self.ns(insertion_index as int), self.chain(n), insertion_index <= len,
        is_full ==> insertion_index < len, len <= CAPACITY, len == 0 ==> self.prev.d@[0].0 == 0, 32 <= CAPACITY <= 0x10000,
        old(self).mids(self.s@),
        forall|k: int| i_next <= k < MID_PTR_COUNT ==> #[trigger] self.mid_ptr.d@[k] == old(self).mid_ptr.d@[k],
        forall|k: int| 0 <= k < i_next ==> (#[trigger] self.mid_ptr.d@[k]).0 == n[cm(k, n.len() as int)]
    decreases i_end - i_next
//@looptop 1
    proof {
        reveal(midsat);
        let k = i as int; lemma_cm(k, len as int); lemma_cm(k, new_len as int);
        let c = cm(k, len as int);
        assert(self.mid_ptr.d@[k] == old(self).mid_ptr.d@[k]);
        if len > 0 {
            assert(old(self).mid_ptr.d@[k].0 == self.s@[c]);
            if insertion_index <= c { assert(n[c + 1] == self.s@[c]); assert(lk(self.next.d@, self.prev.d@, n, c)); }
            else { assert(n[c] == self.s@[c]); if c + 1 < n.len() { assert(lk(self.next.d@, self.prev.d@, n, c)); } }
        } else { assert(old(self).mid_ptr.d@[k].0 == 0); assert(n =~= seq![0int]); }
    }
//@beforeloop 1
    let ghost n = self.ns(insertion_index as int);
    proof { reveal(midsat); }
//@end
    /// the chain after an insertion at index
    pub open spec fn ns(&self, index: int) -> Seq<int> {
        if self.full() { self.s@.drop_last().insert(index, self.s@.last()) } else { self.s@.insert(index, self.s@.len() as int) }
    }
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" insert_at
//@props N01
//@attr #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@rw u32::from\( => u32_of(
//@rw self\.len\.get\(\)\.try_into\(\)\.ok_or_abort\(\) => to_u16(self.len.get())
//@rw if next != new_ptr => if ptr_ne(next, new_ptr)
//@ret r
//@spec
    requires old(self).wf(), splits(old(self).ks(), key.num(), index as int), old(self).full() ==> index < old(self).s@.len()
    ensures r is Ok, final(self).wf(),
        !old(self).full() ==> r->Ok_0 is None && final(self).ks() == old(self).ks().insert(index as int, key.num()),
        old(self).full() ==> r->Ok_0 is Some && r->Ok_0->Some_0.0.num() == old(self).ks().last() && final(self).ks() == old(self).ks().drop_last().insert(index as int, key.num())
//@top
    let ghost s0 = self.s@; let ghost k0 = self.ks(); let ghost n = self.ns(index as int); let ghost nx = self.next.d@; let ghost pv = self.prev.d@;
    let ghost t = if self.full() { s0.drop_last() } else { s0 }; let ghost p = if self.full() { s0.last() } else { s0.len() as int };
    proof {
        lemma_rest(nx, pv, s0, CAPACITY as int, t, p);
        if s0.len() > 1 { assert(lk(nx, pv, s0, s0.len() - 2)); }
        if 0 < index < s0.len() { assert(lk(nx, pv, s0, index - 1)); }
    }
//@before self\.update_mid_ptrs
    proof {
        if t.len() > 0 && index < t.len() { assert(t[index as int] != p); }
        assert forall|q: int| 0 <= q < CAPACITY && q != p && !(index > 0 && q == t[index - 1]) implies (#[trigger] self.next.d@[q]).0 == nx[q].0 by { }
        assert forall|q: int| 0 <= q < CAPACITY && q != p && !(index < t.len() && q == t[index as int]) implies (#[trigger] self.prev.d@[q]).0 == pv[q].0 by { }
        lemma_chain_insert(nx, pv, t, CAPACITY as int, index as int, p, self.next.d@, self.prev.d@);
    }
//@after self\.update_mid_ptrs\(index\);
    proof {
        self.s@ = n;
        let kt = if k0.len() == CAPACITY { k0.drop_last() } else { k0 };
        lemma_rest_inc(k0, key.num(), index as int);
        assert(self.ks() =~= kt.insert(index as int, key.num()));
    }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" try_insert
//@props N01
//@rw value\.clone\(\) => val_clone(value)
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(),
        // a present value is rejected, nothing changes
        r is Err <==> old(self).ks().contains(key.num()),
        r is Err ==> r->Err_0 is Duplicate && *final(self) == *old(self),
        // while there is room every new value is kept
        r is Ok && !old(self).full() ==> r->Ok_0 is None && final(self).s@.len() == old(self).s@.len() + 1 && adds(old(self).ks(), final(self).ks(), key.num()),
        // a full set keeps the smallest and hands back what it does not keep
        r is Ok && old(self).full() ==> r->Ok_0 is Some && final(self).s@.len() == old(self).s@.len() && swaps(old(self).ks(), final(self).ks(), key.num(), r->Ok_0->Some_0.0.num()),
//@top
    let ghost k0 = self.ks(); let ghost x = key.num();
    proof { lemma_search(k0, x); }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" contains
//@props N01
//@ret r
//@spec
    requires old(self).wf()
    ensures *final(self) == *old(self), r is Some <==> old(self).ks().contains(key.num())
//@top
    proof { lemma_search(self.ks(), key.num()); }
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap" reset
//@props N01
//@desugar 1
//@spec
    requires old(self).shape()
    ensures final(self).wf(), final(self).s@.len() == 0, final(self).ks() =~= Seq::<int>::empty()
//@top
    proof { self.s@ = Seq::empty(); reveal(midsat); }
//@loop 1
    invariant i_next <= i_end, i_end == MID_PTR_COUNT, self.shape(), self.s@.len() == 0, self.len.v == 0, self.min_ptr.v.0 == 0, self.max_ptr.v.0 == 0,
        forall|k: int| 0 <= k < i_next ==> (#[trigger] self.mid_ptr.d@[k]).0 == 0
    decreases i_end - i_next
//@end
//@fn elusiv/src/map.rs in "impl<'a, K: ElusivMapKey, V: ElusivMapValue + Default" try_insert_default
//@props N01
//@rw V::default\(\) => val_default::<V>()
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(),
        r is Err <==> old(self).ks().contains(key.num()),
        r is Err ==> r->Err_0 is Duplicate && *final(self) == *old(self),
        r is Ok && !old(self).full() ==> r->Ok_0 is None && final(self).s@.len() == old(self).s@.len() + 1 && adds(old(self).ks(), final(self).ks(), key.num()),
        r is Ok && old(self).full() ==> r->Ok_0 is Some && final(self).s@.len() == old(self).s@.len() && swaps(old(self).ks(), final(self).ks(), key.num(), r->Ok_0->Some_0.0.num()),
//@end
}
/// the cached ptrs are the slots at their positions
#[verifier::opaque]
pub open spec fn midsat(m: Seq<ElusivMapPtr>, n: Seq<int>) -> bool {
    if n.len() == 0 { forall|k: int| 0 <= k < MID_PTR_COUNT ==> (#[trigger] m[k]).0 == 0 }
    else { forall|k: int| 0 <= k < MID_PTR_COUNT ==> (#[trigger] m[k]).0 == n[cm(k, n.len() as int)] }
}
/// slots in the order of a chain: slots are distinct and each links to the next and back
pub open spec fn chained(nx: Seq<ElusivMapPtr>, pv: Seq<ElusivMapPtr>, n: Seq<int>, cap: int) -> bool {
    n.len() <= cap
    && (forall|i: int| 0 <= i < n.len() ==> 0 <= #[trigger] n[i] < cap)
    && (forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j ==> #[trigger] ne(n, i, j))
    && (forall|i: int| 0 <= i < n.len() - 1 ==> #[trigger] lk(nx, pv, n, i))
}
/// the i-th and the following slot are linked
pub open spec fn lk(nx: Seq<ElusivMapPtr>, pv: Seq<ElusivMapPtr>, n: Seq<int>, i: int) -> bool { nx[n[i]].0 == n[i + 1] && pv[n[i + 1]].0 == n[i] }
pub open spec fn ne(n: Seq<int>, i: int, j: int) -> bool { n[i] != n[j] }
pub open spec fn inc(k: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] lt(k, i, j) }
pub open spec fn lt(k: Seq<int>, i: int, j: int) -> bool { k[i] < k[j] }
/// the chain without its last slot when it is full
proof fn lemma_rest(nx: Seq<ElusivMapPtr>, pv: Seq<ElusivMapPtr>, s0: Seq<int>, cap: int, t: Seq<int>, p: int)
    requires chained(nx, pv, s0, cap), forall|i: int| 0 <= i < s0.len() ==> #[trigger] s0[i] < s0.len(), cap > 0,
        t == (if s0.len() == cap { s0.drop_last() } else { s0 }), p == (if s0.len() == cap { s0.last() } else { s0.len() as int })
    ensures chained(nx, pv, t, cap), without(t, p), forall|i: int| 0 <= i < t.len() ==> t[i] == s0[i]
{
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies #[trigger] ne(t, i, j) by { assert(ne(s0, i, j)); }
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] lk(nx, pv, t, i) by { assert(lk(nx, pv, s0, i)); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != p by { if s0.len() == cap { assert(ne(s0, i, s0.len() - 1)); } }
}
pub open spec fn without(t: Seq<int>, p: int) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != p }
proof fn lemma_rest_inc(k0: Seq<int>, x: int, p: int) requires inc(k0), splits(k0, x, p)
    ensures inc(k0.insert(p, x)), p < k0.len() ==> inc(k0.drop_last().insert(p, x))
{
    lemma_inc_insert(k0, x, p);
    if p < k0.len() {
        let kt = k0.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < kt.len() implies #[trigger] lt(kt, i, j) by { assert(lt(k0, i, j)); }
        assert(splits(kt, x, p));
        lemma_inc_insert(kt, x, p);
    }
}
proof fn lemma_inc_insert(k: Seq<int>, x: int, p: int) requires inc(k), splits(k, x, p) ensures inc(k.insert(p, x))
{
    let m = k.insert(p, x);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] lt(m, i, j) by {
        let a = if i < p { i } else { i - 1 }; let b = if j < p { j } else { j - 1 };
        if i != p && j != p { assert(lt(k, a, b)); }
        else if i == p { assert(k[b] > x); } else { assert(k[a] < x); }
    }
}
proof fn lemma_chain_insert(nx: Seq<ElusivMapPtr>, pv: Seq<ElusivMapPtr>, t: Seq<int>, cap: int, index: int, p: int, nx2: Seq<ElusivMapPtr>, pv2: Seq<ElusivMapPtr>)
    requires chained(nx, pv, t, cap), t.len() < cap, 0 <= p < cap, 0 <= index <= t.len(), without(t, p),
        index > 0 ==> nx2[t[index - 1]].0 == p && pv2[p].0 == t[index - 1],
        index < t.len() ==> nx2[p].0 == t[index] && pv2[t[index]].0 == p,
        forall|q: int| 0 <= q < cap && q != p && !(index > 0 && q == t[index - 1]) ==> (#[trigger] nx2[q]).0 == nx[q].0,
        forall|q: int| 0 <= q < cap && q != p && !(index < t.len() && q == t[index]) ==> (#[trigger] pv2[q]).0 == pv[q].0,
    ensures chained(nx2, pv2, t.insert(index, p), cap)
{
    let n = t.insert(index, p);
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies #[trigger] ne(n, i, j) by {
        let a = if i < index { i } else { i - 1 }; let b = if j < index { j } else { j - 1 };
        if i != index && j != index { assert(ne(t, a, b)); } else if i == index { assert(t[b] != p); } else { assert(t[a] != p); }
    }
    assert forall|i: int| 0 <= i < n.len() - 1 implies #[trigger] lk(nx2, pv2, n, i) by {
        if i + 1 < index {
            assert(lk(nx, pv, t, i)); assert(ne(t, i, index - 1)); assert(t[i] != p); assert(t[i + 1] != p);
            if index < t.len() { assert(ne(t, i + 1, index)); }
        } else if i > index {
            assert(lk(nx, pv, t, i - 1)); assert(t[i - 1] != p); assert(t[i] != p); assert(ne(t, i, index));
            if index > 0 { assert(ne(t, i - 1, index - 1)); }
        }
    }
}
pub open spec fn splits(k: Seq<int>, x: int, p: int) -> bool {
    0 <= p <= k.len() && (forall|i: int| 0 <= i < p ==> #[trigger] k[i] < x) && (forall|i: int| p <= i < k.len() ==> #[trigger] k[i] > x)
}
pub open spec fn adds(a: Seq<int>, b: Seq<int>, x: int) -> bool { inc(b) && forall|y: int| b.contains(y) <==> a.contains(y) || y == x }
/// x is added and the largest of all handed back
pub open spec fn swaps(a: Seq<int>, b: Seq<int>, x: int, out: int) -> bool {
    inc(b) && out == (if x > a.last() { x } else { a.last() }) && forall|y: int| b.contains(y) <==> (a.contains(y) || y == x) && y != out
}
/// what a position found, or not, means for the set
proof fn lemma_search(k: Seq<int>, x: int) requires inc(k)
    ensures forall|p: int| #[trigger] splits(k, x, p) ==> !k.contains(x),
        forall|p: int| #[trigger] splits(k, x, p) ==> adds(k, k.insert(p, x), x),
        forall|p: int| #[trigger] splits(k, x, p) && p < k.len() ==> swaps(k, k.drop_last().insert(p, x), x, k.last()),
        k.len() > 0 && x > k.last() ==> !k.contains(x) && swaps(k, k, x, x)
{
    assert forall|p: int| #[trigger] splits(k, x, p) implies adds(k, k.insert(p, x), x) && !k.contains(x) by {
        lemma_inc_insert(k, x, p); lemma_insert_contains(k, x, p);
    }
    assert forall|p: int| #[trigger] splits(k, x, p) && p < k.len() implies swaps(k, k.drop_last().insert(p, x), x, k.last()) by {
        let d = k.drop_last(); let m = k.last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] lt(d, i, j) by { assert(lt(k, i, j)); }
        assert(splits(d, x, p));
        lemma_inc_insert(d, x, p); lemma_insert_contains(d, x, p);
        assert forall|y: int| k.contains(y) <==> d.contains(y) || y == m by {
            if k.contains(y) { let i = choose|i: int| 0 <= i < k.len() && k[i] == y; if i < d.len() { assert(d[i] == y); } }
            if d.contains(y) { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(k[i] == y); }
            if y == m { assert(k[k.len() - 1] == y); }
        }
        assert(!d.contains(m)) by { if d.contains(m) { let i = choose|i: int| 0 <= i < d.len() && d[i] == m; assert(lt(k, i, k.len() - 1)); } }
        assert(k[k.len() - 1] > x);
    }
    if k.len() > 0 && x > k.last() {
        assert(splits(k, x, k.len() as int)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] < x by { if i < k.len() - 1 { assert(lt(k, i, k.len() - 1)); } } }
    }
}
proof fn lemma_insert_contains(k: Seq<int>, x: int, p: int) requires splits(k, x, p)
    ensures !k.contains(x), forall|y: int| k.insert(p, x).contains(y) <==> k.contains(y) || y == x
{
    let m = k.insert(p, x);
    assert forall|y: int| m.contains(y) <==> k.contains(y) || y == x by {
        if m.contains(y) { let i = choose|i: int| 0 <= i < m.len() && m[i] == y; if i < p { assert(k[i] == y); } else if i > p { assert(k[i - 1] == y); } }
        if k.contains(y) { let i = choose|i: int| 0 <= i < k.len() && k[i] == y; if i < p { assert(m[i] == y); } else { assert(m[i + 1] == y); } }
        if y == x { assert(m[p] == x); }
    }
}
