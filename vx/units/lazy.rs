//@include common.rs
use std::marker::PhantomData;
verus! {
/// what the derived serialization of a stored type satisfies (proved for the types themselves under E01): a value takes SIZE bytes and is decoded from them
pub trait BorshSerDeSized: Sized {
    const SIZE: usize;
    spec fn ser(self) -> Seq<u8>;
    spec fn de(b: Seq<u8>) -> Option<Self>;
    proof fn roundtrip(self) ensures self.ser().len() == Self::SIZE, Self::de(self.ser()) == Some(self);
    fn try_from_slice(b: &[u8]) -> (r: Result<Self, Error>) ensures r is Ok <==> Self::de(b@) is Some, r is Ok ==> Self::de(b@) == Some(r->Ok_0);
    fn ser_into(&self, b: &mut [u8]) -> (r: Result<(), Error>)
        ensures r is Ok <==> old(b)@.len() >= Self::SIZE, final(b)@.len() == old(b)@.len(),
            r is Ok ==> final(b)@ == self.ser() + old(b)@.skip(Self::SIZE as int);
}
pub struct Error { x: u8 }
pub trait SizedType { const SIZE: usize; }
pub open spec fn chunk(d: Seq<u8>, i: int, n: int) -> Seq<u8> { d.subrange(i * n, (i + 1) * n) }
pub proof fn chunk_range(i: int, n: int, s: int) requires 0 <= i < s, 0 <= n ensures 0 <= i * n <= (i + 1) * n <= s * n, (i + 1) * n - i * n == n, n * s == s * n, (i + 1) * n == i * n + n {
    assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n >= 0;
    assert((i + 1) * n <= s * n) by (nonlinear_arith) requires i + 1 <= s, n >= 0;
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    assert(n * s == s * n) by (nonlinear_arith);
}
/// replacing the bytes of slot i replaces slot i and no other
pub proof fn chunk_upd(d: Seq<u8>, e: Seq<u8>, i: int, n: int, s: int, x: Seq<u8>)
    requires 0 <= i < s, 0 <= n, d.len() == s * n, x.len() == n, e == d.subrange(0, i * n) + x + d.subrange((i + 1) * n, d.len() as int)
    ensures e.len() == d.len(), chunk(e, i, n) == x, forall|j: int| 0 <= j < s && j != i ==> #[trigger] chunk(e, j, n) == chunk(d, j, n),
        forall|k: int| 0 <= k < d.len() && !(i * n <= k < (i + 1) * n) ==> e[k] == d[k]
{
    chunk_range(i, n, s);
    assert(chunk(e, i, n) =~= x);
    assert forall|j: int| 0 <= j < s && j != i implies #[trigger] chunk(e, j, n) == chunk(d, j, n) by {
        chunk_range(j, n, s);
        if j < i { assert((j + 1) * n <= i * n) by (nonlinear_arith) requires j + 1 <= i, n >= 0; }
        else { assert((i + 1) * n <= j * n) by (nonlinear_arith) requires i + 1 <= j, n >= 0; }
        assert(chunk(e, j, n) =~= chunk(d, j, n));
    }
}
pub fn nones<N>(n: usize) -> (r: Vec<Option<N>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None {
    let mut v: Vec<Option<N>> = Vec::new(); let mut i = 0usize;
    while i < n invariant v@.len() == i, i <= n, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]) is None decreases n - i { v.push(None); i = i + 1; }
    v
}
pub fn falses(n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> !#[trigger] r@[i] {
    let mut v: Vec<bool> = Vec::new(); let mut i = 0usize;
    while i < n invariant v@.len() == i, i <= n, forall|j: int| 0 <= j < i ==> !#[trigger] v@[j] decreases n - i { v.push(false); i = i + 1; }
    v
}
pub trait VecExt<T> { spec fn vx(&self) -> Seq<T>; fn extend_with(&mut self, o: Vec<T>) ensures final(self).vx() == old(self).vx() + o@; }
impl<T> VecExt<T> for Vec<T> { open spec fn vx(&self) -> Seq<T> { self@ } fn extend_with(&mut self, o: Vec<T>) { let mut o = o; self.append(&mut o); } }

// ------------------------------------------------------------------ the scratch memory
pub trait RAM<N>: Sized {
    /// the values by absolute slot, None where the slot holds no readable value
    spec fn vals(&self) -> Seq<Option<N>>;
    spec fn fr(&self) -> int;
    spec fn ok(&self) -> bool;
    fn write(&mut self, value: N, index: usize)
        requires old(self).ok(), old(self).fr() + index <= usize::MAX
        ensures final(self).ok(), final(self).fr() == old(self).fr(), old(self).fr() + index < old(self).vals().len(), final(self).vals() == old(self).vals().update(old(self).fr() + index, Some(value));
    fn read(&mut self, index: usize) -> (r: N)
        requires old(self).ok(), old(self).fr() + index <= usize::MAX
        ensures final(self).ok(), final(self).fr() == old(self).fr(), old(self).fr() + index < old(self).vals().len(), old(self).vals()[old(self).fr() + index] == Some(r), final(self).vals() == old(self).vals();
    fn set_frame(&mut self, frame: usize)
        ensures final(self).fr() == frame, final(self).vals() == old(self).vals(), old(self).ok() ==> final(self).ok();
    fn get_frame(&mut self) -> (r: usize)
        ensures r == old(self).fr(), *final(self) == *old(self);
//@fn shared/elusiv-computation/src/lib.rs in "trait RAM" inc_frame
//@spec
    requires old(self).ok(), old(self).fr() + frame <= usize::MAX
    ensures final(self).ok(), final(self).fr() == old(self).fr() + frame, final(self).vals() == old(self).vals()
//@end
//@fn shared/elusiv-computation/src/lib.rs in "trait RAM" dec_frame
//@spec
    requires old(self).ok(), frame <= old(self).fr()
    ensures final(self).ok(), final(self).fr() == old(self).fr() - frame, final(self).vals() == old(self).vals()
//@end
}
pub struct Wrap<N>(pub N);
pub open spec fn unwrap_s<N>(o: Option<Wrap<N>>) -> Option<N> { match o { Some(Wrap(n)) => Some(n), None => None } }
//@item elusiv/src/state/proof.rs "struct LazyRAM" pub
impl<'a, N: Clone + Copy, const SIZE: usize> LazyRAM<'a, N, SIZE> where Wrap<N>: BorshSerDeSized {
    pub closed spec fn src(&self) -> Seq<u8> { self.source@ }
    pub closed spec fn saved(&self, i: int) -> Option<N> { unwrap_s(Wrap::<N>::de(chunk(self.source@, i, <Wrap<N>>::SIZE as int))) }
    pub closed spec fn val(&self, i: int) -> Option<N> { if i < self.data@.len() && self.data@[i] is Some { self.data@[i] } else { self.saved(i) } }
    /// slot i was written since the memory was opened
    pub closed spec fn changed(&self, i: int) -> bool { 0 <= i < self.changes@.len() && self.changes@[i] }
}
impl<'a, N: Clone + Copy, const SIZE: usize> RAM<N> for LazyRAM<'a, N, SIZE>
where
    Wrap<N>: BorshSerDeSized,
{
    closed spec fn vals(&self) -> Seq<Option<N>> { Seq::new(SIZE as nat, |i: int| self.val(i)) }
    closed spec fn fr(&self) -> int { self.frame as int }
    closed spec fn ok(&self) -> bool {
        &&& self.source@.len() == <Wrap<N>>::SIZE * SIZE <= usize::MAX &&& self.data@.len() == self.changes@.len() &&& self.data@.len() <= SIZE
        &&& forall|i: int| 0 <= i < self.changes@.len() && #[trigger] self.changes@[i] ==> self.data@[i] is Some
        &&& forall|i: int| 0 <= i < self.data@.len() && #[trigger] self.data@[i] is Some && !self.changes@[i] ==> self.saved(i) == self.data@[i]
    }
//@fn elusiv/src/state/proof.rs in "RAM<N> for LazyRAM<'a, N, SIZE>" write
//@props E03
//@spec
    ensures forall|i: int| #![trigger final(self).changed(i)] #![trigger old(self).changed(i)] final(self).changed(i) == (old(self).changed(i) || i == old(self).fr() + index), final(self).src() == old(self).src()
//@bottom
    proof { assert(self.vals() =~= old(self).vals().update(old(self).fr() + index, Some(value))); }
//@end
//@fn elusiv/src/state/proof.rs in "RAM<N> for LazyRAM<'a, N, SIZE>" read
//@props E03
//@ret r
//@spec
    ensures forall|i: int| #![trigger final(self).changed(i)] #![trigger old(self).changed(i)] final(self).changed(i) == old(self).changed(i), final(self).src() == old(self).src()
//@rw let v = <Wrap<N>>::try_from_slice\(data\) => proof { chunk_range(i as int, <Wrap<N>>::SIZE as int, SIZE as int); assert(<Wrap<N>>::SIZE * SIZE == SIZE * <Wrap<N>>::SIZE) by (nonlinear_arith); } let v = <Wrap<N>>::try_from_slice(data)
//@before match
    proof { chunk_range(i as int, <Wrap<N>>::SIZE as int, SIZE as int); assert(self.vals() =~= old(self).vals()); }
    let ghost s1 = *self;
//@before self\.data\[i\]\.ok_or_abort
    proof { assert(self.vals() =~= s1.vals()); }
//@end
//@fn elusiv/src/state/proof.rs in "RAM<N> for LazyRAM<'a, N, SIZE>" set_frame
//@props E03
//@spec
    ensures final(self).src() == old(self).src(), forall|i: int| #![trigger final(self).changed(i)] #![trigger old(self).changed(i)] final(self).changed(i) == old(self).changed(i)
//@bottom
    ; proof { assert(self.vals() =~= old(self).vals()); }
//@end
//@fn elusiv/src/state/proof.rs in "RAM<N> for LazyRAM<'a, N, SIZE>" get_frame
//@props E03
//@ret r
//@end
}
impl<'a, N: Clone + Copy, const SIZE: usize> SizedType for LazyRAM<'a, N, SIZE> where Wrap<N>: BorshSerDeSized {
//@const elusiv/src/state/proof.rs in "impl<'a, N: Clone + Copy, const SIZE: usize> SizedType for LazyRAM<'a, N, SIZE>" SIZE
}
impl<'a, N: Clone + Copy, const SIZE: usize> LazyRAM<'a, N, SIZE>
where
    Wrap<N>: BorshSerDeSized,
{
//@fn elusiv/src/state/proof.rs in "impl<'a, N: Clone + Copy, const SIZE: usize> LazyRAM<'a, N, SIZE>" new
//@props E03
//@ret r
//@spec
    requires <Wrap<N>>::SIZE * SIZE <= usize::MAX
    ensures old(source)@.len() == <Wrap<N>>::SIZE * SIZE, r.ok(), r.fr() == 0, r.src() == old(source)@, forall|i: int| !#[trigger] r.changed(i), final(source)@ == final(r.source)@,
        r.vals() == Seq::new(SIZE as nat, |i: int| unwrap_s(Wrap::<N>::de(chunk(old(source)@, i, <Wrap<N>>::SIZE as int))))
//@rw vec!\[\] => Vec::new()
//@end
//@fn elusiv/src/state/proof.rs in "impl<'a, N: Clone + Copy, const SIZE: usize> LazyRAM<'a, N, SIZE>" check_vector_size
//@props E03
//@spec
    requires old(self).ok()
    ensures final(self).ok(), index < SIZE, final(self).data@.len() == final(self).changes@.len(), index < final(self).data@.len(), final(self).vals() == old(self).vals(), final(self).fr() == old(self).fr(), final(self).src() == old(self).src(),
        forall|i: int| #![trigger final(self).changed(i)] #![trigger old(self).changed(i)] final(self).changed(i) == old(self).changed(i)
//@rw \.extend\(vec!\[None; (\w+)\]\) => .extend_with(nones(\1))
//@rw \.extend\(vec!\[false; (\w+)\]\) => .extend_with(falses(\1))
//@bottom
        proof { assert(self.vals() =~= old(self).vals()); }
//@end
//@fn elusiv/src/state/proof.rs in "impl<'a, N: Clone + Copy, const SIZE: usize> LazyRAM<'a, N, SIZE>" serialize
//@props E03
//@ret r
//@spec
    requires old(self).ok()
    ensures final(self).ok(), r is Ok, final(self).vals() == old(self).vals(), final(self).fr() == old(self).fr(),
        forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).saved(i) == (if old(self).changed(i) { old(self).val(i) } else { old(self).saved(i) }),
        forall|i: int| 0 <= i < SIZE && !old(self).changed(i) ==> #[trigger] chunk(final(self).src(), i, <Wrap<N>>::SIZE as int) == chunk(old(self).src(), i, <Wrap<N>>::SIZE as int),
//@rw BorshSerialize::serialize\(&Wrap\(value\), &mut slice\) => Wrap(value).ser_into(slice)
//@rw Result<\(\), std::io::Error> => Result<(), Error>
//@sig pub fn serialize(&mut self) -> Result<(), Error>
//@desugar 1
//@loop 1
    invariant
        i_next <= it1@.len(), it1@ == s0.changes@, self.ok(), self.changes@ == s0.changes@, self.data@ == s0.data@, self.frame == s0.frame, s0.ok(), s0 == *old(self),
        forall|i: int| 0 <= i < SIZE ==> #[trigger] chunk(self.source@, i, <Wrap<N>>::SIZE as int) == (if i < i_next && s0.changed(i) { Wrap(s0.data@[i]->Some_0).ser() } else { chunk(s0.source@, i, <Wrap<N>>::SIZE as int) }),
    decreases it1.len() - i_next
//@looptop 1
    let ghost src = self.source@; let ghost sz = <Wrap<N>>::SIZE as int;
    proof { chunk_range(i as int, sz, SIZE as int); if self.data@[i as int] is Some { Wrap(self.data@[i as int]->Some_0).roundtrip(); } }
//@loopend 1
    proof {
        if change {
            let x = Wrap(s0.data@[i as int]->Some_0).ser();
            assert(self.source@ =~= src.subrange(0, i * sz) + x + src.subrange((i + 1) * sz, src.len() as int));
            chunk_upd(src, self.source@, i as int, sz, SIZE as int, x);
        }
    }
//@top
    let ghost s0 = *self;
//@before Ok\(\(\)\)
    proof {
        assert forall|i: int| 0 <= i < SIZE implies #[trigger] self.saved(i) == (if s0.changed(i) { s0.val(i) } else { s0.saved(i) }) by {
            assert(chunk(self.source@, i, <Wrap<N>>::SIZE as int) == (if s0.changed(i) { Wrap(s0.data@[i]->Some_0).ser() } else { chunk(s0.source@, i, <Wrap<N>>::SIZE as int) }));
            if s0.changed(i) { Wrap(s0.data@[i]->Some_0).roundtrip(); }
        }
        assert(self.vals() =~= s0.vals());
    }
//@end
}

// ------------------------------------------------------------------ cached account fields
// indexing aborts outside the vector or slice
pub fn vget<T>(v: &Vec<T>, i: usize) -> (r: &T) ensures i < v@.len(), *r == v@[i as int] { if i >= v.len() { abort() } &v[i] }
pub fn vput<T>(v: &mut Vec<T>, i: usize, x: T) ensures i < old(v)@.len(), final(v)@ == old(v)@.update(i as int, x) { if i >= v.len() { abort() } v[i] = x; }
pub fn sub_in<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8]) ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int) { if !(a <= b && b <= s.len()) { abort() } &s[a..b] }
pub fn sub_mut<'a>(s: &'a mut [u8], a: usize, b: usize) -> (r: &'a mut [u8])
    ensures a <= b <= old(s)@.len(), r@ == old(s)@.subrange(a as int, b as int), final(s)@ == old(s)@.subrange(0, a as int) + final(r)@ + old(s)@.subrange(b as int, old(s)@.len() as int)
{ if !(a <= b && b <= s.len()) { abort() } &mut s[a..b] }
pub trait LazyField<'a>: SizedType + Sized {
    spec fn wf(&self) -> bool;
    spec fn bytes(&self) -> Seq<u8>;
    fn new(data: &'a mut [u8]) -> (r: Self) ensures r.bytes() == old(data)@;
    fn serialize(&mut self) requires old(self).wf() ensures final(self).wf();
}
//@item elusiv/src/types.rs "struct Lazy" pub
impl<'a, N: BorshSerDeSized + Copy> Lazy<'a, N> {
    pub open spec fn stored(&self) -> Option<N> { N::de(self.data@) }
    /// the value of the field: the last one set, else the stored one
    pub open spec fn val(&self) -> Option<N> { if self.value is Some { self.value } else { self.stored() } }
}
impl<'a, N: BorshSerDeSized + Copy> SizedType for Lazy<'a, N> {
//@const elusiv/src/types.rs in "SizedType for Lazy<'a, N>" SIZE
}
impl<'a, N: BorshSerDeSized + Copy> LazyField<'a> for Lazy<'a, N> {
    open spec fn wf(&self) -> bool {
        &&& self.data@.len() == N::SIZE &&& self.modified ==> self.value is Some
        &&& !self.modified && self.value is Some ==> self.value == self.stored()
    }
    open spec fn bytes(&self) -> Seq<u8> { self.data@ }
//@fn elusiv/src/types.rs in "LazyField<'a> for Lazy<'a, N>" new
//@props E03
//@ret r
//@spec
    ensures r.val() == N::de(old(data)@), old(data)@.len() == N::SIZE ==> r.wf(), final(data)@ == final(r.data)@
//@end
//@fn elusiv/src/types.rs in "LazyField<'a> for Lazy<'a, N>" serialize
//@props E03
//@rw BorshSerialize::serialize\(&(.*?), &mut slice\) => \1.ser_into(slice)
//@spec
    ensures final(self).val() == old(self).val(), final(self).stored() == old(self).val(), !old(self).modified ==> final(self).data@ == old(self).data@,
        old(self).modified ==> final(self).data@ == old(self).value->Some_0.ser()
//@top
    proof { if self.value is Some { self.value->Some_0.roundtrip(); } }
    let ghost d0 = self.data@;
//@after serialize\(.*?;|ser_into\(.*?;
    proof { assert(self.data@ =~= self.value->Some_0.ser()); }
//@end
}
impl<'a, N: BorshSerDeSized + Copy> Lazy<'a, N> {
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Copy> Lazy<'a, N>" get
//@props E03
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), old(self).val() == Some(r), final(self).val() == old(self).val(), final(self).data@ == old(self).data@
//@end
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Copy> Lazy<'a, N>" set
//@props E03
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).val() == Some(value), final(self).data@ == value.ser(), final(self).stored() == Some(value)
//@top
    proof { value.roundtrip(); }
//@end
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Copy> Lazy<'a, N>" set_no_serialization
//@props E03
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).val() == Some(value), final(self).data@ == old(self).data@
//@end
}
//@item elusiv/src/types.rs "struct LazyArray" pub
impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> LazyArray<'a, N, SIZE> {
    pub open spec fn stored(&self, i: int) -> Option<N> { N::de(chunk(self.data@, i, N::SIZE as int)) }
    pub open spec fn val(&self, i: int) -> Option<N> { if self.values@[i] is Some { self.values@[i] } else { self.stored(i) } }
}
impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> SizedType for LazyArray<'a, N, SIZE> {
//@const elusiv/src/types.rs in "SizedType for LazyArray<'a, N, SIZE>" SIZE
}
impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> LazyField<'a> for LazyArray<'a, N, SIZE> {
    open spec fn wf(&self) -> bool {
        &&& self.data@.len() == N::SIZE * SIZE <= usize::MAX &&& self.values@.len() == SIZE
        &&& !self.modified ==> forall|i: int| 0 <= i < SIZE && (#[trigger] self.values@[i]) is Some ==> self.values@[i] == self.stored(i)
    }
    open spec fn bytes(&self) -> Seq<u8> { self.data@ }
//@fn elusiv/src/types.rs in "LazyField<'a> for LazyArray<'a, N, SIZE>" new
//@props E03
//@rw vec!\[None; SIZE\] => nones(SIZE)
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < SIZE ==> #[trigger] r.val(i) == N::de(chunk(old(data)@, i, N::SIZE as int)), old(data)@.len() == N::SIZE * SIZE <= usize::MAX ==> r.wf(), final(data)@ == final(r.data)@
//@end
//@fn elusiv/src/types.rs in "LazyField<'a> for LazyArray<'a, N, SIZE>" serialize
//@props E03
//@rw BorshSerialize::serialize\(&(.*?), &mut slice\) => \1.ser_into(slice)
//@spec
    ensures final(self).values@ == old(self).values@, !old(self).modified ==> final(self).data@ == old(self).data@,
        forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).stored(i) == old(self).val(i),
        forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).val(i) == old(self).val(i),
        forall|i: int| 0 <= i < SIZE && old(self).values@[i] is None ==> #[trigger] chunk(final(self).data@, i, N::SIZE as int) == chunk(old(self).data@, i, N::SIZE as int)
//@top
    let ghost s0 = *self;
//@desugar 1
//@loop 1
    invariant
        i_next <= SIZE, i_end == SIZE, self.wf(), self.values@ == s0.values@, self.modified, s0.modified, s0.wf(), s0 == *old(self),
        forall|i: int| 0 <= i < SIZE ==> #[trigger] chunk(self.data@, i, N::SIZE as int) == (if i < i_next && s0.values@[i] is Some { s0.values@[i]->Some_0.ser() } else { chunk(s0.data@, i, N::SIZE as int) }),
    decreases SIZE - i_next
//@looptop 1
    let ghost d = self.data@; let ghost sz = N::SIZE as int;
    proof { chunk_range(i as int, sz, SIZE as int); if self.values@[i as int] is Some { self.values@[i as int]->Some_0.roundtrip(); } }
//@loopend 1
    proof {
        if s0.values@[i as int] is Some {
            let x = s0.values@[i as int]->Some_0.ser();
            assert(self.data@ =~= d.subrange(0, i * sz) + x + d.subrange((i + 1) * sz, d.len() as int));
            chunk_upd(d, self.data@, i as int, sz, SIZE as int, x);
        }
    }
//@afterloop 1
    proof {
        assert forall|i: int| 0 <= i < SIZE implies #[trigger] self.stored(i) == s0.val(i) by {
            assert(chunk(self.data@, i, N::SIZE as int) == (if s0.values@[i] is Some { s0.values@[i]->Some_0.ser() } else { chunk(s0.data@, i, N::SIZE as int) }));
            if s0.values@[i] is Some { s0.values@[i]->Some_0.roundtrip(); }
        }
    }
//@end
}
impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> LazyArray<'a, N, SIZE> {
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> LazyArray<'a, N, SIZE>" get
//@props E03
//@rw &self\.values\[index\] => vget(&self.values, index)
//@ret r
//@spec
    requires old(self).wf()
    ensures index < SIZE, final(self).wf(), old(self).val(index as int) == Some(r), forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).val(i) == old(self).val(i), final(self).data@ == old(self).data@
//@before let offset
    proof { chunk_range(index as int, N::SIZE as int, SIZE as int); }
//@end
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> LazyArray<'a, N, SIZE>" set
//@props E03
//@rw self\.values\[index\] = (.*?); => vput(&mut self.values, index, \1);
//@spec
    requires old(self).wf()
    ensures index < SIZE, final(self).wf(), forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).stored(i) == (if i == index { Some(value) } else { old(self).val(i) }),
        forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).val(i) == (if i == index { Some(value) } else { old(self).val(i) })
//@end
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Copy, const SIZE: usize> LazyArray<'a, N, SIZE>" set_no_serialization
//@props E03
//@rw self\.values\[index\] = (.*?); => vput(&mut self.values, index, \1);
//@spec
    requires old(self).wf()
    ensures index < SIZE, final(self).wf(), final(self).data@ == old(self).data@, forall|i: int| 0 <= i < SIZE ==> #[trigger] final(self).val(i) == (if i == index { Some(value) } else { old(self).val(i) })
//@end
}
//@item elusiv/src/types.rs "struct JITArray" pub
impl<'a, N: BorshSerDeSized + Clone, const CAPACITY: usize> JITArray<'a, N, CAPACITY> {
    pub open spec fn val(&self, i: int) -> Option<N> { N::de(chunk(self.data@, i, N::SIZE as int)) }
}
impl<'a, N: BorshSerDeSized + Clone, const CAPACITY: usize> SizedType for JITArray<'a, N, CAPACITY> {
//@const elusiv/src/types.rs in "SizedType for JITArray<'a, N, CAPACITY>" SIZE
}
impl<'a, N: BorshSerDeSized + Clone, const CAPACITY: usize> LazyField<'a> for JITArray<'a, N, CAPACITY> {
    open spec fn wf(&self) -> bool { self.data@.len() == N::SIZE * CAPACITY <= usize::MAX }
    open spec fn bytes(&self) -> Seq<u8> { self.data@ }
//@fn elusiv/src/types.rs in "LazyField<'a> for JITArray<'a, N, CAPACITY>" new
//@props E03
//@ret r
//@spec
    ensures forall|i: int| 0 <= i < CAPACITY ==> #[trigger] r.val(i) == N::de(chunk(old(data)@, i, N::SIZE as int)), old(data)@.len() == N::SIZE * CAPACITY <= usize::MAX ==> r.wf(), final(data)@ == final(r.data)@
//@end
//@fn elusiv/src/types.rs in "LazyField<'a> for JITArray<'a, N, CAPACITY>" serialize
//@props E03
//@end
}
impl<'a, N: BorshSerDeSized + Clone, const CAPACITY: usize> JITArray<'a, N, CAPACITY> {
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Clone, const CAPACITY: usize> JITArray<'a, N, CAPACITY>" get
//@props E03
//@rw &self\.data\[(.*?)\.\.(.*?)\] => sub_in(self.data, \1, \2)
//@ret r
//@spec
    requires index < usize::MAX, (index + 1) * N::SIZE <= usize::MAX
    ensures (index + 1) * N::SIZE <= old(self).data@.len(), old(self).val(index as int) == Some(r), final(self).data@ == old(self).data@
//@top
    proof { chunk_range(index as int, N::SIZE as int, index + 1); }
//@end
//@fn elusiv/src/types.rs in "impl<'a, N: BorshSerDeSized + Clone, const CAPACITY: usize> JITArray<'a, N, CAPACITY>" set
//@props E03
//@rw BorshSerialize::serialize\((\w+), &mut slice\) => \1.ser_into(slice)
//@rw &mut self\.data\[(.*?)\.\.(.*?)\] => sub_mut(self.data, \1, \2)
//@spec
    requires old(self).wf(), (index + 1) * N::SIZE <= usize::MAX
    ensures final(self).wf(), (index + 1) * N::SIZE <= old(self).data@.len(), chunk(final(self).data@, index as int, N::SIZE as int) == value.ser(), final(self).val(index as int) == Some(*value),
        forall|i: int| 0 <= i < CAPACITY && i != index ==> #[trigger] final(self).val(i) == old(self).val(i)
//@top
    proof { chunk_range(index as int, N::SIZE as int, index + 1); value.roundtrip(); }
    let ghost d = self.data@;
//@after ser_into\(.*?;
    proof {
        let sz = N::SIZE as int;
        assert(self.data@ =~= d.subrange(0, index * sz) + value.ser() + d.subrange((index + 1) * sz, d.len() as int));
        assert(chunk(self.data@, index as int, sz) =~= value.ser());
        if index < CAPACITY { chunk_upd(d, self.data@, index as int, sz, CAPACITY as int, value.ser()); }
        else { assert forall|j: int| 0 <= j < CAPACITY implies chunk(self.data@, j, sz) == chunk(d, j, sz) by { chunk_range(j, sz, CAPACITY as int); assert((j + 1) * sz <= index * sz) by (nonlinear_arith) requires j + 1 <= index, sz >= 0; assert(chunk(self.data@, j, sz) =~= chunk(d, j, sz)); } }
    }
//@end
}
fn main() {}
}
