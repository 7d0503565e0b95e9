//--- iterator adapters over the waiting values, with the closures of the source as verified functions
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" try_insert_nullifier_hash as pred_equal
//@props N02
//@xclosure 1
//@sig pub fn try_insert_nullifier_hash(value: &OrdU256, nullifier_hash: OrdU256) -> bool
//@ret r
//@spec
    ensures r == (value.num() == nullifier_hash.num())
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" can_insert_nullifier_hash as pred_equal_can
//@props N02
//@xclosure 1
//@sig pub fn can_insert_nullifier_hash(value: &OrdU256, nullifier_hash: OrdU256) -> bool
//@ret r
//@spec
    ensures r == (value.num() == nullifier_hash.num())
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" try_insert_nullifier_hash as pred_swap
//@props N02
//@xclosure 2
//@sig pub fn try_insert_nullifier_hash(value: &OrdU256, target: &u8, account_index: usize, nullifier_hash: OrdU256) -> bool
//@ret r
//@spec
    ensures r == (*target == account_index && nullifier_hash.num() < value.num())
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" move_nullifier_hashes_to_next_account as fold_target
//@props N02
//@xclosure 1
//@sig pub fn move_nullifier_hashes_to_next_account(min: u8, t: &u8) -> u8
//@rw (?:std::)?(?:cmp::|\b)(min|max)\( => cmp_\1_u8(
//@ret r
//@spec
    ensures r == (if min <= *t { min } else { *t })
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" move_nullifier_hashes_to_next_account as pred_target
//@props N02
//@xclosure 2
//@sig pub fn move_nullifier_hashes_to_next_account(t: &u8, target: u8) -> bool
//@ret r
//@spec
    ensures r == (*t == target)
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" move_nullifier_hashes_to_next_account as map_target
//@props N02
//@xclosure 5
//@sig pub fn move_nullifier_hashes_to_next_account(v: OrdU256, target: u8) -> Moved
//@ret r
//@spec
    ensures r == (v, target)
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" sort_all_moved_values as sort_order
//@props N02
//@xclosure 1
//@sig pub fn sort_all_moved_values(a: &OrdU256, b: &OrdU256) -> Ordering
//@rw b\.cmp\(a\) => key_cmp(b, a)
//@rw a\.cmp\(b\) => key_cmp(a, b)
//@ret r
//@spec
    ensures r == ord_of(b.num(), a.num())
//@end
pub fn any_equal(m: &Vec<Moved>, h: OrdU256) -> (r: bool) ensures r == has_val(mv(m@), h.num()) {
    let mut i: usize = 0; let ghost s = mv(m@);
    while i < m.len() invariant i <= m@.len(), s == mv(m@), forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).0 != h.num() decreases m@.len() - i
    { if pred_equal(&m[i].0, h) { assert(s[i as int].0 == h.num()); return true; } i += 1; }
    false
}
pub fn any_equal_can(m: &Vec<Moved>, h: OrdU256) -> (r: bool) ensures r == has_val(mv(m@), h.num()) {
    let mut i: usize = 0; let ghost s = mv(m@);
    while i < m.len() invariant i <= m@.len(), s == mv(m@), forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).0 != h.num() decreases m@.len() - i
    { if pred_equal_can(&m[i].0, h) { assert(s[i as int].0 == h.num()); return true; } i += 1; }
    false
}
pub fn position_swap(m: &Vec<Moved>, account_index: usize, h: OrdU256) -> (r: Option<usize>)
    ensures r is Some ==> r->Some_0 < m@.len() && swaps_with(mv(m@)[r->Some_0 as int], account_index as int, h.num())
            && forall|k: int| 0 <= k < r->Some_0 ==> !#[trigger] swaps_with(mv(m@)[k], account_index as int, h.num()),
        r is None ==> forall|k: int| 0 <= k < m@.len() ==> !#[trigger] swaps_with(mv(m@)[k], account_index as int, h.num())
{
    let mut i: usize = 0; let ghost s = mv(m@);
    while i < m.len() invariant i <= m@.len(), s == mv(m@), forall|k: int| 0 <= k < i ==> !#[trigger] swaps_with(s[k], account_index as int, h.num()) decreases m@.len() - i
    { if pred_swap(&m[i].0, &m[i].1, account_index, h) { assert(s[i as int] == pr(m@[i as int])); return Some(i); } assert(s[i as int] == pr(m@[i as int])); i += 1; }
    None
}
pub fn fold_targets(m: &Vec<Moved>, init: u8) -> (r: u8)
    ensures forall|k: int| 0 <= k < m@.len() ==> r <= (#[trigger] mv(m@)[k]).1, r == init || exists|k: int| 0 <= k < m@.len() && (#[trigger] mv(m@)[k]).1 == r, r <= init
{
    let mut i: usize = 0; let mut a = init; let ghost s = mv(m@);
    while i < m.len() invariant i <= m@.len(), s == mv(m@), a <= init, forall|k: int| 0 <= k < i ==> a <= (#[trigger] s[k]).1, a == init || exists|k: int| 0 <= k < i && (#[trigger] s[k]).1 == a decreases m@.len() - i
    { assert(s[i as int] == pr(m@[i as int])); a = fold_target(a, &m[i].1); i += 1; }
    a
}
/// Iterator::partition: both parts in the order of the source
pub fn partition_target(m: Vec<Moved>, target: u8) -> (r: (Vec<Moved>, Vec<Moved>))
    ensures parts(mv(m@), target as int, mv(r.0@), mv(r.1@))
{
    let mut a: Vec<Moved> = Vec::new(); let mut b: Vec<Moved> = Vec::new(); let mut i: usize = 0;
    proof { lemma_parts_empty(target as int); assert(mv(m@).subrange(0, 0) =~= Seq::empty()); assert(mv(a@) =~= Seq::empty()); assert(mv(b@) =~= Seq::empty()); }
    while i < m.len() invariant i <= m@.len(), parts(mv(m@).subrange(0, i as int), target as int, mv(a@), mv(b@)) decreases m@.len() - i
    {
        let e = m[i];
        proof {
            let s = mv(m@).subrange(0, i as int);
            assert(mv(m@).subrange(0, i + 1) =~= s.push(pr(e))); assert(mv(a@.push(e)) =~= mv(a@).push(pr(e))); assert(mv(b@.push(e)) =~= mv(b@).push(pr(e)));
            lemma_parts_push(s, target as int, mv(a@), mv(b@), pr(e));
        }
        if pred_target(&e.1, target) { a.push(e); } else { b.push(e); }
        i += 1;
    }
    proof { assert(mv(m@).subrange(0, m@.len() as int) =~= mv(m@)); }
    (a, b)
}
pub fn extend_moved(m: &mut Vec<Moved>, v: Vec<OrdU256>, target: u8) ensures mv(final(m)@) == mv(old(m)@) + tagged(nums(v@), target as int) {
    let mut i: usize = 0;
    proof { assert(mv(m@) =~= mv(old(m)@) + tagged(nums(v@).subrange(0, 0), target as int)); }
    while i < v.len() invariant i <= v@.len(), mv(m@) == mv(old(m)@) + tagged(nums(v@).subrange(0, i as int), target as int) decreases v@.len() - i
    {
        let e = map_target(v[i], target);
        proof { assert(mv(m@.push(e)) =~= mv(m@).push(pr(e))); assert(tagged(nums(v@).subrange(0, i + 1), target as int) =~= tagged(nums(v@).subrange(0, i as int), target as int).push(pr(e))); assert(mv(m@).push(pr(e)) =~= mv(old(m)@) + tagged(nums(v@).subrange(0, i + 1), target as int)); }
        m.push(e); i += 1;
    }
    proof { assert(nums(v@).subrange(0, v@.len() as int) =~= nums(v@)); }
}
//@note slice::sort_by (alloc): a permutation in which no element is followed by one that the given order puts before it
#[verifier::external_body] pub fn sort_moved(m: &mut Vec<Moved>) ensures mv(final(m)@).to_multiset() == mv(old(m)@).to_multiset(), falling(mv(final(m)@)) { m.sort_by(|(a, _), (b, _)| unimplemented!()) }
pub fn swap_value(m: &mut Vec<Moved>, i: usize, h: &mut OrdU256) requires i < old(m)@.len() ensures *final(h) == old(m)@[i as int].0, final(m)@ == old(m)@.update(i as int, (*old(h), old(m)@[i as int].1)) {
    let e = m[i]; let x = *h; *h = e.0; m.set(i, (x, e.1));
}
proof fn lemma_parts_empty(t: int) ensures parts(Seq::empty(), t, Seq::empty(), Seq::empty())
{ let e = Seq::<(int, int)>::empty(); e.to_multiset_ensures(); assert(e.to_multiset() =~= e.to_multiset().add(e.to_multiset())) by { assert(e.to_multiset().len() == 0); } }
proof fn lemma_parts_push(m: Seq<(int, int)>, t: int, a: Seq<(int, int)>, b: Seq<(int, int)>, e: (int, int)) requires parts(m, t, a, b)
    ensures e.1 == t ==> parts(m.push(e), t, a.push(e), b), e.1 != t ==> parts(m.push(e), t, a, b.push(e))
{
    let m2 = m.push(e);
    m.to_multiset_ensures(); a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(m2.to_multiset() =~= m.to_multiset().insert(e)); assert(a.push(e).to_multiset() =~= a.to_multiset().insert(e)); assert(b.push(e).to_multiset() =~= b.to_multiset().insert(e));
    assert(m2.to_multiset() =~= a.push(e).to_multiset().add(b.to_multiset())); assert(m2.to_multiset() =~= a.to_multiset().add(b.push(e).to_multiset()));
    if strict(m2) {
        assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] gt(m, i, j) by { assert(gt(m2, i, j)); }
        if m.len() > 0 { assert(gt(m2, m.len() - 1, m.len() as int)); }
        let a2 = a.push(e); let b2 = b.push(e);
        assert forall|i: int, j: int| 0 <= i < j < a2.len() implies #[trigger] gt(a2, i, j) by { if j < a.len() { assert(gt(a, i, j)); } else if i < a.len() - 1 { assert(gt(a, i, a.len() - 1)); } }
        assert forall|i: int, j: int| 0 <= i < j < b2.len() implies #[trigger] gt(b2, i, j) by { if j < b.len() { assert(gt(b, i, j)); } else if i < b.len() - 1 { assert(gt(b, i, b.len() - 1)); } }
    }
}
//--- the tree's nullifier set
pub proof fn lemma_consts() ensures C() == 65536, N() == 16, JOIN_SPLIT_MAX_N_ARITY == 4, NULLIFIERS_COUNT == caps(N()) {}
/// members lie between the first and the last
pub proof fn lemma_ends(a: Seq<int>) requires inc(a), a.len() > 0
    ensures a.contains(a[0]), a.contains(a.last()), a[0] <= a.last(), forall|y: int| #[trigger] a.contains(y) ==> a[0] <= y <= a.last()
{
    assert(a[a.len() - 1] == a.last());
    assert forall|y: int| #[trigger] a.contains(y) implies a[0] <= y <= a.last() by { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; if i > 0 { assert(lt(a, 0, i)); } if i < a.len() - 1 { assert(lt(a, i, a.len() - 1)); } }
    if a.len() > 1 { assert(lt(a, 0, a.len() - 1)); }
}
/// the ends of a set after an insertion
pub proof fn lemma_adds_ends(a: Seq<int>, b: Seq<int>, x: int) requires inc(a), adds(a, b, x)
    ensures b.len() > 0, b.contains(x), b[0] == (if a.len() > 0 && a[0] < x { a[0] } else { x }), b.last() == (if a.len() > 0 && a.last() > x { a.last() } else { x })
{
    assert(b.contains(x)); lemma_ends(b);
    if a.len() > 0 { lemma_ends(a); assert(b.contains(a[0])); assert(b.contains(a.last())); }
    assert(b.contains(b[0])); assert(b.contains(b.last()));
}
pub proof fn lemma_swaps_ends(a: Seq<int>, b: Seq<int>, x: int, out: int) requires inc(a), swaps(a, b, x, out), a.len() >= 2, a.len() == b.len(), x < a.last()
    ensures b.contains(x), out == a.last(), b[0] == (if a[0] < x { a[0] } else { x }), b.last() < out, !b.contains(out)
{
    lemma_ends(a); lemma_ends(b); assert(lt(a, 0, a.len() - 1));
    assert(b.contains(x)); assert(b.contains(a[0])); assert(b.contains(b[0])); assert(b.contains(b.last()));
}
pub proof fn lemma_tsum_same(k: Seq<Seq<int>>, k2: Seq<Seq<int>>, i: int) requires forall|j: int| 0 <= j < i ==> (#[trigger] k2[j]).len() == k[j].len() ensures tsum(k2, i) == tsum(k, i) decreases i
{ if i > 0 { lemma_tsum_same(k, k2, i - 1); } }
pub proof fn lemma_tsum_upd(k: Seq<Seq<int>>, p: int, b: Seq<int>, i: int) requires 0 <= p < k.len(), i <= k.len()
    ensures tsum(k.update(p, b), i) == tsum(k, i) + (if i > p { b.len() - k[p].len() } else { 0 }) decreases i
{ if i > 0 { lemma_tsum_upd(k, p, b, i - 1); } }
pub proof fn lemma_tsum_bound(k: Seq<Seq<int>>, i: int, full: int, mx: Seq<Option<int>>) requires kids_ok(k, full, mx), 0 <= i <= N()
    ensures 0 <= tsum(k, i) <= caps(i) decreases i
{ lemma_consts(); if i > 0 { lemma_tsum_bound(k, i - 1, full, mx); assert(ok_kid(k, i - 1, full, mx)); } }
pub proof fn lemma_tsum_mono(k: Seq<Seq<int>>, i: int, j: int) requires 0 <= i <= j ensures tsum(k, i) <= tsum(k, j) decreases j
{ if i < j { lemma_tsum_mono(k, i, j - 1); } }
pub proof fn lemma_tsum_tail(k: Seq<Seq<int>>, i: int, full: int, mx: Seq<Option<int>>) requires kids_ok(k, full, mx), 0 <= full < i <= N() ensures tsum(k, i) == tsum(k, full + 1) decreases i
{ if i > full + 1 { lemma_tsum_tail(k, i - 1, full, mx); assert(ok_kid(k, i - 1, full, mx)); } }
//--- counting the waiting values
pub proof fn lemma_wle_bound(m: Seq<(int, int)>, i: int) ensures 0 <= wle(m, i) <= m.len()
{
    let s = m.to_multiset(); let p = |e: (int, int)| e.1 <= i; let q = |e: (int, int)| !(e.1 <= i);
    m.to_multiset_ensures();
    assert(s =~= s.filter(p).add(s.filter(q)));
}
pub proof fn lemma_wle_push(m: Seq<(int, int)>, e: (int, int), i: int) ensures wle(m.push(e), i) == wle(m, i) + (if e.1 <= i { 1int } else { 0 })
{
    let s = m.to_multiset(); let p = |e: (int, int)| e.1 <= i;
    m.to_multiset_ensures();
    assert(m.push(e).to_multiset() =~= s.insert(e));
    if p(e) { assert(s.insert(e).filter(p) =~= s.filter(p).insert(e)); } else { assert(s.insert(e).filter(p) =~= s.filter(p)); }
}
/// the value of a waiting entry does not matter
pub proof fn lemma_wle_update(m: Seq<(int, int)>, k: int, e: (int, int), i: int) requires 0 <= k < m.len(), e.1 == m[k].1 ensures wle(m.update(k, e), i) == wle(m, i)
    decreases m.len()
{
    let l = m.len() - 1; let d = m.drop_last();
    assert(m =~= d.push(m.last()));
    if k == l { assert(m.update(k, e) =~= d.push(e)); lemma_wle_push(d, e, i); lemma_wle_push(d, m.last(), i); }
    else { assert(m.update(k, e) =~= d.update(k, e).push(m.last())); lemma_wle_push(d.update(k, e), m.last(), i); lemma_wle_push(d, m.last(), i); lemma_wle_update(d, k, e, i); }
}
pub proof fn lemma_wle_all(m: Seq<(int, int)>, i: int)
    ensures (forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).1 <= i) ==> wle(m, i) == m.len(), (forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).1 > i) ==> wle(m, i) == 0
    decreases m.len()
{
    if m.len() == 0 { lemma_wle_bound(m, i); }
    else { let d = m.drop_last(); assert(m =~= d.push(m.last())); lemma_wle_push(d, m.last(), i); lemma_wle_all(d, i); assert(m[m.len() - 1] == m.last()); assert(forall|k: int| 0 <= k < d.len() ==> d[k] == m[k]); }
}
pub proof fn lemma_wle_add(a: Seq<(int, int)>, b: Seq<(int, int)>, i: int) ensures wle(a + b, i) == wle(a, i) + wle(b, i) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); lemma_wle_bound(b, i); }
    else { let d = b.drop_last(); assert(b =~= d.push(b.last())); assert(a + b =~= (a + d).push(b.last())); lemma_wle_push(a + d, b.last(), i); lemma_wle_push(d, b.last(), i); lemma_wle_add(a, d, i); }
}
pub proof fn lemma_wle_parts(m: Seq<(int, int)>, t: int, a: Seq<(int, int)>, b: Seq<(int, int)>, i: int) requires parts(m, t, a, b)
    ensures wle(m, i) == wle(a, i) + wle(b, i)
{
    let p = |e: (int, int)| e.1 <= i; let x = a.to_multiset(); let y = b.to_multiset();
    assert(x.add(y).filter(p) =~= x.filter(p).add(y.filter(p)));
}
/// a permutation waits for the same
pub proof fn lemma_perm(m: Seq<(int, int)>, s: Seq<(int, int)>) requires m.to_multiset() == s.to_multiset()
    ensures m.len() == s.len(), forall|i: int| wle(m, i) == wle(s, i), forall|y: int| has_val(m, y) <==> has_val(s, y), forall|e: (int, int)| m.contains(e) <==> s.contains(e)
{
    m.to_multiset_ensures(); s.to_multiset_ensures();
    assert forall|e: (int, int)| m.contains(e) <==> s.contains(e) by { assert(m.contains(e) <==> m.to_multiset().count(e) > 0); assert(s.contains(e) <==> s.to_multiset().count(e) > 0); }
    assert forall|y: int| has_val(m, y) <==> has_val(s, y) by {
        if has_val(m, y) { let k = choose|k: int| 0 <= k < m.len() && (#[trigger] m[k]).0 == y; assert(m.contains(m[k])); let l = choose|l: int| 0 <= l < s.len() && s[l] == m[k]; assert(s[l].0 == y); }
        if has_val(s, y) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == y; assert(s.contains(s[k])); let l = choose|l: int| 0 <= l < m.len() && m[l] == s[k]; assert(m[l].0 == y); }
    }
}
//--- an insertion, abstractly
pub proof fn lemma_nonempty(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, j: int) requires ninv0(k, m, n, mx), 0 <= j < full_of(n)
    ensures j < N(), k[j].len() > 0, ok_kid(k, j, full_of(n), mx), mx[j] == Some(k[j].last()), inc(k[j])
{
    lemma_consts();
    assert(filled(k, m, j)); assert(ok_kid(k, j, full_of(n), mx));
    lemma_tsum_bound(k, j, full_of(n), mx); lemma_wle_bound(m, j);
}
/// the child found takes the value, all waiting values for other children are on the right side of it
pub proof fn lemma_found(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, i: int, x: int)
    requires ninv0(k, m, n, mx), n < caps(N()), found(mx, full_of(n), i, x)
    ensures i < N(), above(k, i, x), under(k, i + 1, x), i < full_of(n) ==> k[i].len() > 0 && x <= k[i].last(), i == full_of(n) ==> k[i].len() < C(),
        forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 < i ==> m[q].0 < x, forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 > i ==> x < m[q].0,
        !has_val(m, x) ==> forall|j: int| 0 <= j < N() && j != i ==> !(#[trigger] k[j]).contains(x)
{
    lemma_consts();
    let full = full_of(n);
    assert forall|j: int| 0 <= j < i && k[j].len() > 0 implies (#[trigger] k[j]).last() < x by { assert(ok_kid(k, j, full, mx)); assert(mx[j] is Some); }
    if i < full { lemma_nonempty(k, m, n, mx, i); }
    assert forall|j: int| i + 1 <= j < N() && k[j].len() > 0 implies x < (#[trigger] k[j])[0] by { assert(ok_kid(k, j, full, mx)); }
    if i == full {
        assert(ok_kid(k, full, full, mx));
        lemma_tsum_mono(k, full + 1, N());
        assert(tsum(k, full + 1) == tsum(k, full) + k[full].len());
        lemma_tsum_bound(k, full, full, mx);
        if full > 0 { assert(filled(k, m, full - 1)); assert(tsum(k, full - 1 + 1) == tsum(k, full)); lemma_wle_bound(m, full - 1); }
        assert(n < caps(full) + C());
    }
    assert forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 < i implies m[q].0 < x by { let t = m[q].1; assert(ok_wait(k, m[q], full)); lemma_nonempty(k, m, n, mx, t); lemma_ends(k[t]); assert(k[t].last() < x); assert(m[q].0 < k[t][0]); }
    assert forall|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 > i implies x < m[q].0 by { assert(ok_wait(k, m[q], full)); assert(k[i].last() < m[q].0); }
    assert forall|j: int| 0 <= j < N() && j != i implies !(#[trigger] k[j]).contains(x) by {
        assert(ok_kid(k, j, full, mx)); if k[j].len() > 0 { lemma_ends(k[j]); if k[j].contains(x) { if j < i { assert(k[j].last() < x); } else { assert(x < k[j][0]); } } }
    }
}
/// a waiting value above x for the same child takes its place
pub proof fn lemma_swap(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, i: int, x: int, p: int)
    requires ninv(k, m, n, mx), n < caps(N()), found(mx, full_of(n), i, x), !has_val(m, x), 0 <= p < m.len(), swaps_with(m[p], i, x), forall|q: int| 0 <= q < p ==> !#[trigger] swaps_with(m[q], i, x)
    ensures ninv0(k, m.update(p, (x, i)), n, mx), fits(k, m.update(p, (x, i)), full_of(n), i, m[p].0),
        !k[i].contains(x), forall|y: int| spent_in(k, m.update(p, (x, i)), y) || y == m[p].0 <==> spent_in(k, m, y) || y == x, !spent_in(k, m, x)
{
    lemma_consts(); lemma_found(k, m, n, mx, i, x);
    let full = full_of(n); let m1 = m.update(p, (x, i)); let y = m[p].0;
    assert(ok_wait(k, m[p], full)); assert(ok_kid(k, i, full, mx));
    assert forall|q: int| 0 <= q < m1.len() implies ok_wait(k, #[trigger] m1[q], full) by {
        if q == p { assert forall|j: int| i <= j < N() && k[j].len() > 0 implies x < (#[trigger] k[j])[0] by { assert(y < k[j][0]); } }
        else { assert(m1[q] == m[q]); }
    }
    assert forall|a: int, b: int| 0 <= a < m1.len() && 0 <= b < m1.len() && a != b implies #[trigger] nev(m1, a, b) by { assert(nev(m, a, b)); assert(m[a].0 != x && m[b].0 != x); }
    assert forall|j: int| 0 <= j < full implies #[trigger] filled(k, m1, j) by { assert(filled(k, m, j)); lemma_wle_update(m, p, (x, i), j); }
    if i < full { lemma_ends(k[i]); assert(y < k[i][0]); }
    assert forall|q: int| 0 <= q < m1.len() implies #[trigger] sided(m1[q], i, y) by {
        if q != p {
            assert(m1[q] == m[q]); assert(m[q].0 != x); assert(ok_wait(k, m[q], full));
            if m[q].1 < i { let t = m[q].1; lemma_nonempty(k, m, n, mx, t); lemma_ends(k[t]); assert(m[q].0 < k[t][0]); assert(k[t].last() < y); }
            else if m[q].1 == i { if q > p { assert(gt(m, p, q)); } else { assert(!swaps_with(m[q], i, x)); assert(gt(m, q, p)); } }
            else { assert(k[i].last() < m[q].0); }
        }
    }
    if k[i].len() > 0 { lemma_ends(k[i]); assert(y < k[i][0]); }
    assert forall|z: int| spent_in(k, m1, z) || z == y <==> spent_in(k, m, z) || z == x by {
        if has_val(m1, z) { let q = choose|q: int| 0 <= q < m1.len() && (#[trigger] m1[q]).0 == z; if q != p { assert(m[q].0 == z); } }
        if has_val(m, z) { let q = choose|q: int| 0 <= q < m.len() && (#[trigger] m[q]).0 == z; if q != p { assert(m1[q].0 == z); } }
        if z == x { assert(m1[p].0 == x); }
        if z == y { assert(m[p].0 == y); }
    }
}
pub proof fn lemma_noswap(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, i: int, x: int)
    requires ninv(k, m, n, mx), n < caps(N()), found(mx, full_of(n), i, x), !has_val(m, x), forall|q: int| 0 <= q < m.len() ==> !#[trigger] swaps_with(m[q], i, x)
    ensures fits(k, m, full_of(n), i, x), !k[i].contains(x) ==> !spent_in(k, m, x)
{
    lemma_consts(); lemma_found(k, m, n, mx, i, x);
    assert forall|q: int| 0 <= q < m.len() implies #[trigger] sided(m[q], i, x) by { assert(m[q].0 != x); assert(!swaps_with(m[q], i, x)); }
}
pub proof fn lemma_put_kept(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, i: int, y: int, b: Seq<int>, mx2: Seq<Option<int>>)
    requires ninv0(k, m, n, mx), n < caps(N()), fits(k, m, full_of(n), i, y), adds(k[i], b, y), b.len() == k[i].len() + 1, k[i].len() < C(), !k[i].contains(y),
        mx.len() == N(), mx2 == mx.update(i, Some(b.last()))
    ensures ninv0(put(k, i, b), m, n + 1, mx2), forall|z: int| spent_in(put(k, i, b), m, z) <==> spent_in(k, m, z) || z == y
{
    lemma_consts();
    let full = full_of(n); let full2 = full_of(n + 1); let a = k[i]; let k2 = put(k, i, b);
    assert(ok_kid(k, i, full, mx)); lemma_adds_ends(a, b, y); if a.len() > 0 { lemma_ends(a); }
    assert forall|j: int| 0 <= j < N() implies #[trigger] ok_kid(k2, j, full2, mx2) by {
        assert(ok_kid(k, j, full, mx));
        if j != i && k[j].len() > 0 {
            assert forall|l: int| j + 1 <= l < N() && k2[l].len() > 0 implies k[j].last() < (#[trigger] k2[l])[0] by { if l == i { assert(k[j].last() < y); if a.len() > 0 { assert(k[j].last() < k[i][0]); } } else { assert(k[j].last() < k[l][0]); } }
        }
        if j == i { assert forall|l: int| i + 1 <= l < N() && k2[l].len() > 0 implies b.last() < (#[trigger] k2[l])[0] by { assert(y < k[l][0]); if a.len() > 0 { assert(a.last() < k[l][0]); } } }
    }
    assert forall|q: int| 0 <= q < m.len() implies ok_wait(k2, #[trigger] m[q], full2) by { lemma_wait_put(k, m[q], full, i, y, b); }
    lemma_put_count(k, m, n, mx, i, b, m, k2);
    lemma_spent_put(k, m, i, y, b);
}
pub proof fn lemma_wait_put(k: Seq<Seq<int>>, e: (int, int), full: int, i: int, y: int, b: Seq<int>)
    requires k.len() == N(), ok_wait(k, e, full), sided(e, i, y), 0 <= i < N(), b.len() > 0, b[0] == y || (k[i].len() > 0 && b[0] == k[i][0]), b.last() == y || (k[i].len() > 0 && b.last() <= k[i].last())
    ensures ok_wait(put(k, i, b), e, full)
{
    let k2 = put(k, i, b);
    assert forall|j: int| 0 <= j < e.1 && k2[j].len() > 0 implies (#[trigger] k2[j]).last() < e.0 by { if j == i { if k[i].len() > 0 { assert(k[i].last() < e.0); } } else { assert(k[j].last() < e.0); } }
    assert forall|j: int| e.1 <= j < N() && k2[j].len() > 0 implies e.0 < (#[trigger] k2[j])[0] by { if j == i { if k[i].len() > 0 { assert(e.0 < k[i][0]); } } else { assert(e.0 < k[j][0]); } }
}
pub proof fn lemma_spent_put(k: Seq<Seq<int>>, m: Seq<(int, int)>, i: int, y: int, b: Seq<int>) requires 0 <= i < k.len(), forall|z: int| b.contains(z) <==> k[i].contains(z) || z == y
    ensures forall|z: int| spent_in(put(k, i, b), m, z) <==> spent_in(k, m, z) || z == y
{
    let k2 = put(k, i, b);
    assert forall|z: int| spent_in(k2, m, z) <==> spent_in(k, m, z) || z == y by {
        if exists|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).contains(z) { let j = choose|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).contains(z); if j != i { assert(k[j].contains(z)); } else if z != y { assert(k[i].contains(z)); } }
        if exists|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(z) { let j = choose|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(z); assert(k2[j].contains(z)); }
        if z == y { assert(k2[i].contains(y)); }
    }
}
/// counts after one more value, in child i or (with m2 = m and another one waiting) after it
pub proof fn lemma_put_count(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, i: int, b: Seq<int>, m2: Seq<(int, int)>, k2: Seq<Seq<int>>)
    requires ninv0(k, m, n, mx), n < caps(N()), 0 <= i <= full_of(n), i < N(), k2 == put(k, i, b),
        (m2 == m && b.len() == k[i].len() + 1) || (m2.len() == m.len() + 1 && m2 == m.push(m2.last()) && m2.last().1 == i + 1 && i + 1 <= full_of(n) && b.len() == k[i].len())
    ensures tsum(k2, N()) + m2.len() == n + 1, forall|j: int| 0 <= j < full_of(n + 1) ==> #[trigger] filled(k2, m2, j)
{
    lemma_consts();
    let full = full_of(n);
    lemma_tsum_upd(k, i, b, N());
    if m2 != m { assert(m2.len() == m.len() + 1); }
    assert forall|j: int| 0 <= j < full_of(n + 1) implies #[trigger] filled(k2, m2, j) by {
        lemma_tsum_upd(k, i, b, j + 1);
        if m2.len() == m.len() + 1 { lemma_wle_push(m, m2.last(), j); }
        if j < full { assert(filled(k, m, j)); }
        else {
            // the last child has just been filled: all values are up to it
            assert(j == full && n + 1 == caps(full + 1));
            lemma_tsum_tail2(k, full, mx);
            assert forall|q: int| 0 <= q < m.len() implies (#[trigger] m[q]).1 <= full by { assert(ok_wait(k, m[q], full)); }
            lemma_wle_all(m, full);
        }
    }
}
pub proof fn lemma_tsum_tail2(k: Seq<Seq<int>>, full: int, mx: Seq<Option<int>>) requires kids_ok(k, full, mx), 0 <= full < N() ensures tsum(k, N()) == tsum(k, full + 1)
{ lemma_consts(); lemma_tsum_tail(k, N(), full, mx); }
/// a full child keeps its size: its largest value waits for the next child
pub proof fn lemma_put_evict(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, i: int, y: int, b: Seq<int>, out: int, mx2: Seq<Option<int>>)
    requires ninv0(k, m, n, mx), n < caps(N()), fits(k, m, full_of(n), i, y), swaps(k[i], b, y, out), b.len() == k[i].len(), k[i].len() == C(), !k[i].contains(y),
        mx.len() == N(), mx2 == mx.update(i, Some(b.last())), m.len() < JOIN_SPLIT_MAX_N_ARITY
    ensures ninv0(put(k, i, b), m.push((out, i + 1)), n + 1, mx2), forall|z: int| spent_in(put(k, i, b), m.push((out, i + 1)), z) <==> spent_in(k, m, z) || z == y
{
    lemma_consts();
    let full = full_of(n); let full2 = full_of(n + 1); let a = k[i]; let k2 = put(k, i, b); let m2 = m.push((out, i + 1));
    assert(ok_kid(k, i, full, mx)); lemma_ends(a); assert(i < full);
    assert(y < a.last()) by { if y == a.last() { assert(a.contains(y)); } }
    lemma_swaps_ends(a, b, y, out); lemma_ends(b);
    assert forall|j: int| 0 <= j < N() implies #[trigger] ok_kid(k2, j, full2, mx2) by {
        assert(ok_kid(k, j, full, mx));
        if j != i && k[j].len() > 0 {
            assert forall|l: int| j + 1 <= l < N() && k2[l].len() > 0 implies k[j].last() < (#[trigger] k2[l])[0] by { if l == i { assert(k[j].last() < y); assert(k[j].last() < k[i][0]); } else { assert(k[j].last() < k[l][0]); } }
        }
        if j == i { assert forall|l: int| i + 1 <= l < N() && k2[l].len() > 0 implies b.last() < (#[trigger] k2[l])[0] by { assert(a.last() < k[l][0]); } }
    }
    assert forall|q: int| 0 <= q < m2.len() implies ok_wait(k2, #[trigger] m2[q], full2) by {
        if q < m.len() { assert(m2[q] == m[q]); lemma_wait_put(k, m[q], full, i, y, b); }
        else {
            assert forall|j: int| 0 <= j < i + 1 && k2[j].len() > 0 implies (#[trigger] k2[j]).last() < out by { if j < i { assert(k[j].last() < y); } }
            assert forall|j: int| i + 1 <= j < N() && k2[j].len() > 0 implies out < (#[trigger] k2[j])[0] by { assert(a.last() < k[j][0]); }
        }
    }
    assert forall|p: int, q: int| 0 <= p < m2.len() && 0 <= q < m2.len() && p != q implies #[trigger] nev(m2, p, q) by {
        if p < m.len() && q < m.len() { assert(nev(m, p, q)); }
        else { let r = if p < m.len() { p } else { q }; assert(m2[r] == m[r]); assert(sided(m[r], i, y)); assert(ok_wait(k, m[r], full)); if m[r].1 > i { assert(k[i].last() < m[r].0); } }
    }
    assert(m2.last() == (out, i + 1)); assert(m2 =~= m.push(m2.last()));
    lemma_put_count(k, m, n, mx, i, b, m2, k2);
    assert forall|z: int| spent_in(k2, m2, z) <==> spent_in(k, m, z) || z == y by {
        if exists|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).contains(z) { let j = choose|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).contains(z); if j != i { assert(k[j].contains(z)); } else if z != y { assert(k[i].contains(z)); } }
        if exists|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(z) { let j = choose|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(z); if z != out || j != i { assert(k2[j].contains(z)); } else { assert(m2[m.len() as int].0 == z); } }
        if z == y { assert(k2[i].contains(y)); }
        if has_val(m, z) { let q = choose|q: int| 0 <= q < m.len() && (#[trigger] m[q]).0 == z; assert(m2[q].0 == z); }
        if has_val(m2, z) { let q = choose|q: int| 0 <= q < m2.len() && (#[trigger] m2[q]).0 == z; if q < m.len() { assert(m[q].0 == z); } else { assert(k[i].contains(out)); } }
    }
}
/// sorting the waiting values restores their order
pub proof fn lemma_sorted(k: Seq<Seq<int>>, m: Seq<(int, int)>, s: Seq<(int, int)>, n: int, mx: Seq<Option<int>>)
    requires ninv0(k, m, n, mx), s.to_multiset() == m.to_multiset(), falling(s)
    ensures ninv(k, s, n, mx), forall|z: int| spent_in(k, s, z) <==> spent_in(k, m, z)
{
    lemma_perm(s, m);
    let full = full_of(n);
    assert forall|i: int| 0 <= i < s.len() implies ok_wait(k, #[trigger] s[i], full) by { assert(s.contains(s[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == s[i]; assert(ok_wait(k, m[j], full)); }
    lemma_differ(m, s);
    assert forall|j: int| 0 <= j < full implies #[trigger] filled(k, s, j) by { assert(filled(k, m, j)); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] gt(s, i, j) by { assert(ge(s, i, j)); assert(nev(s, i, j)); }
}
/// a permutation of entries with distinct values has distinct values
pub proof fn lemma_differ(m: Seq<(int, int)>, s: Seq<(int, int)>) requires differ(m), s.to_multiset() == m.to_multiset() ensures differ(s)
{
    m.to_multiset_ensures(); s.to_multiset_ensures(); lemma_perm(m, s);
    assert(m.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { assert(nev(m, i, j)); } }
    m.lemma_multiset_has_no_duplicates(); 
    s.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies #[trigger] nev(s, i, j) by {
        assert(s.contains(s[i]) && s.contains(s[j]) && s[i] != s[j]);
        let a = choose|a: int| 0 <= a < m.len() && m[a] == s[i]; let b = choose|b: int| 0 <= b < m.len() && m[b] == s[j];
        assert(a != b); assert(nev(m, a, b));
    }
}
//--- moving the waiting values on, abstractly
/// the first child that values wait for: all others wait above it, and it has room if it is the last one in use
pub proof fn lemma_min(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, t: int, a: Seq<(int, int)>, b: Seq<(int, int)>)
    requires ninv(k, m, n, mx), m.len() > 0, min_target(m, t), parts(m, t, a, b), exists|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 == t
    ensures 1 <= t <= full_of(n), t < N(), a.len() > 0, strict(a), strict(b), caps(t) <= tsum(k, t), wle(m, t - 1) == 0, ok_kid(k, t, full_of(n), mx),
        forall|q: int| 0 <= q < a.len() ==> ok_wait(k, #[trigger] a[q], full_of(n)),
        forall|q: int| 0 <= q < b.len() ==> ok_wait(k, #[trigger] b[q], full_of(n)) && b[q].1 > t,
        forall|p: int, q: int| 0 <= p < a.len() && 0 <= q < b.len() ==> #[trigger] below(a, b, p, q),
        (t == full_of(n) || t == N() - 1) ==> k[t].len() + a.len() <= C()
{
    lemma_consts();
    let full = full_of(n);
    let q0 = choose|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 == t; assert(ok_wait(k, m[q0], full));
    assert(ok_kid(k, t, full, mx));
    lemma_part_members(m, t, a, b);
    assert forall|q: int| 0 <= q < a.len() implies ok_wait(k, #[trigger] a[q], full) by { assert(m.contains(a[q])); let j = choose|j: int| 0 <= j < m.len() && m[j] == a[q]; assert(ok_wait(k, m[j], full)); }
    assert forall|q: int| 0 <= q < b.len() implies ok_wait(k, #[trigger] b[q], full) && b[q].1 > t by { assert(m.contains(b[q])); let j = choose|j: int| 0 <= j < m.len() && m[j] == b[q]; assert(ok_wait(k, m[j], full)); assert(t <= m[j].1); }
    assert(a.len() > 0) by { assert(m.contains(m[q0])); if a.len() == 0 { let j = choose|j: int| 0 <= j < b.len() && b[j] == m[q0]; assert(b[j].1 != t); } }
    lemma_wle_all(m, t - 1);
    assert(filled(k, m, t - 1)); 
    assert(tsum(k, t - 1 + 1) == tsum(k, t));
    assert forall|p: int, q: int| 0 <= p < a.len() && 0 <= q < b.len() implies #[trigger] below(a, b, p, q) by {
        assert(ok_wait(k, a[p], full)); assert(ok_wait(k, b[q], full)); lemma_nonempty(k, m, n, mx, t); lemma_ends(k[t]);
        assert(a[p].0 < k[t][0]); assert(k[t].last() < b[q].0);
    }
    if t == full || t == N() - 1 {
        if b.len() > 0 { assert(ok_wait(k, b[0], full)); assert(b[0].1 > t); }
        lemma_tsum_mono(k, t + 1, N());
        assert(tsum(k, t + 1) == tsum(k, t) + k[t].len());
    }
}
pub proof fn lemma_part_members(m: Seq<(int, int)>, t: int, a: Seq<(int, int)>, b: Seq<(int, int)>) requires parts(m, t, a, b)
    ensures forall|e: (int, int)| #[trigger] m.contains(e) <==> a.contains(e) || b.contains(e), forall|q: int| 0 <= q < a.len() ==> m.contains(#[trigger] a[q]), forall|q: int| 0 <= q < b.len() ==> m.contains(#[trigger] b[q])
{
    m.to_multiset_ensures(); a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|e: (int, int)| #[trigger] m.contains(e) <==> a.contains(e) || b.contains(e) by {
        assert(m.contains(e) <==> m.to_multiset().count(e) > 0); assert(a.contains(e) <==> a.to_multiset().count(e) > 0); assert(b.contains(e) <==> b.to_multiset().count(e) > 0);
    }
    assert forall|q: int| 0 <= q < a.len() implies m.contains(#[trigger] a[q]) by { assert(a.contains(a[q])); }
    assert forall|q: int| 0 <= q < b.len() implies m.contains(#[trigger] b[q]) by { assert(b.contains(b[q])); }
}
/// where the members of the changed child lie
pub proof fn lemma_belongs(k: Seq<Seq<int>>, n: int, mx: Seq<Option<int>>, t: int, a: Seq<(int, int)>, y: int)
    requires kids_ok(k, full_of(n), mx), 0 <= t < N(), belongs(y, k[t], vals(a)), forall|q: int| 0 <= q < a.len() ==> ok_wait(k, #[trigger] a[q], full_of(n)) && a[q].1 == t
    ensures above(k, t, y), under(k, t + 1, y)
{
    let full = full_of(n);
    assert(ok_kid(k, t, full, mx));
    if k[t].contains(y) {
        lemma_ends(k[t]);
        assert forall|j: int| 0 <= j < t && k[j].len() > 0 implies (#[trigger] k[j]).last() < y by { assert(ok_kid(k, j, full, mx)); assert(k[j].last() < k[t][0]); }
        assert forall|j: int| t + 1 <= j < N() && k[j].len() > 0 implies y < (#[trigger] k[j])[0] by { assert(k[t].last() < k[j][0]); }
    } else { let q = choose|q: int| 0 <= q < a.len() && vals(a)[q] == y; assert(ok_wait(k, a[q], full)); }
}
pub proof fn lemma_move(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>, t: int, a: Seq<(int, int)>, r: Seq<(int, int)>, b: Seq<int>, ev: Seq<int>, mx2: Seq<Option<int>>)
    requires ninv(k, m, n, mx), m.len() > 0, min_target(m, t), parts(m, t, a, r), exists|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 == t,
        moved(k[t], vals(a), b, ev), mx.len() == N(), mx2 == mx.update(t, Some(b.last()))
    ensures b.len() > 0, ninv0(put(k, t, b), r + tagged(ev, t + 1), n, mx2), ev.len() == 0 ==> ninv(put(k, t, b), r, n, mx2) && r + tagged(ev, t + 1) == r,
        forall|z: int| spent_in(put(k, t, b), r + tagged(ev, t + 1), z) <==> spent_in(k, m, z)
{
    lemma_consts(); lemma_min(k, m, n, mx, t, a, r);
    let full = full_of(n); let k2 = put(k, t, b); let g = tagged(ev, t + 1); let m2 = r + g; let c = k[t];
    assert(vals(a).len() == a.len()); 
    if b.len() == 0 { assert(ev.len() == 0); assert(false); }
    lemma_ends(b);
    assert(belongs(b[0], c, vals(a))); assert(belongs(b.last(), c, vals(a)));
    lemma_belongs(k, n, mx, t, a, b[0]); lemma_belongs(k, n, mx, t, a, b.last());
    assert forall|q: int| 0 <= q < ev.len() implies above(k, t, #[trigger] ev[q]) && under(k, t + 1, ev[q]) && belongs(ev[q], c, vals(a)) by { assert(ev.contains(ev[q])); lemma_belongs(k, n, mx, t, a, ev[q]); }
    assert forall|j: int| 0 <= j < N() implies #[trigger] ok_kid(k2, j, full, mx2) by {
        assert(ok_kid(k, j, full, mx));
        if j != t && k[j].len() > 0 {
            assert forall|l: int| j + 1 <= l < N() && k2[l].len() > 0 implies k[j].last() < (#[trigger] k2[l])[0] by { if l == t { assert(k[j].last() < b[0]); } else { assert(k[j].last() < k[l][0]); } }
        }
        if j == t { assert forall|l: int| t + 1 <= l < N() && k2[l].len() > 0 implies b.last() < (#[trigger] k2[l])[0] by { assert(b.last() < k[l][0]); } }
    }
    // those that wait on
    assert forall|q: int| 0 <= q < r.len() implies (ok_wait(k2, #[trigger] r[q], full) && (forall|y: int| #[trigger] belongs(y, c, vals(a)) ==> y < r[q].0)) by {
        let e = r[q]; assert(ok_wait(k, e, full)); assert(e.1 > t);
        lemma_nonempty(k, m, n, mx, t); lemma_ends(c); assert(c.last() < e.0);
        assert forall|y: int| #[trigger] belongs(y, c, vals(a)) implies y < e.0 by { if vals(a).contains(y) { let p = choose|p: int| 0 <= p < a.len() && vals(a)[p] == y; assert(below(a, r, p, q)); } }
        assert forall|j: int| 0 <= j < e.1 && k2[j].len() > 0 implies (#[trigger] k2[j]).last() < e.0 by { if j != t { assert(k[j].last() < e.0); } }
        assert forall|j: int| e.1 <= j < N() && k2[j].len() > 0 implies e.0 < (#[trigger] k2[j])[0] by { assert(e.0 < k[j][0]); }
    }
    if ev.len() > 0 { assert(t < full && t + 1 < N()); }
    assert forall|q: int| 0 <= q < m2.len() implies ok_wait(k2, #[trigger] m2[q], full) by {
        if q < r.len() { assert(m2[q] == r[q]); assert(ok_wait(k2, r[q], full)); }
        else {
            let y = ev[q - r.len()]; assert(m2[q] == (y, t + 1)); assert(above(k, t, y) && under(k, t + 1, y)); assert(b.last() < y);
            assert forall|j: int| 0 <= j < t + 1 && k2[j].len() > 0 implies (#[trigger] k2[j]).last() < y by { if j != t { assert(k[j].last() < y); } }
            assert forall|j: int| t + 1 <= j < N() && k2[j].len() > 0 implies y < (#[trigger] k2[j])[0] by { assert(y < k[j][0]); }
        }
    }
    assert forall|p: int, q: int| 0 <= p < m2.len() && 0 <= q < m2.len() && p != q implies #[trigger] nev(m2, p, q) by {
        let x = r.len();
        if p < x && q < x { assert(m2[p] == r[p] && m2[q] == r[q]); if p < q { assert(gt(r, p, q)); } else { assert(gt(r, q, p)); } }
        else if p >= x && q >= x { if p < q { assert(lt(ev, q - x, p - x)); } else { assert(lt(ev, p - x, q - x)); } }
        else if p < x { assert(ok_wait(k2, r[p], full)); assert(belongs(ev[q - x], c, vals(a))); }
        else { assert(ok_wait(k2, r[q], full)); assert(belongs(ev[p - x], c, vals(a))); }
    }
    lemma_tsum_upd(k, t, b, N());
    assert forall|j: int| 0 <= j < full implies #[trigger] filled(k2, m2, j) by {
        assert(filled(k, m, j));
        lemma_tsum_upd(k, t, b, j + 1); lemma_wle_add(r, g, j); lemma_wle_parts(m, t, a, r, j); lemma_wle_all(a, j); lemma_wle_all(g, j); lemma_wle_bound(m2, j); lemma_wle_all(r, j);
        if j < t { lemma_wle_all(m, j); }
        else if j == t { assert(tsum(k, t + 1) == tsum(k, t) + c.len()); }
    }
    if ev.len() == 0 { assert(m2 =~= r); }
    assert forall|z: int| spent_in(k2, m2, z) <==> spent_in(k, m, z) by {
        lemma_part_members(m, t, a, r);
        if exists|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).contains(z) {
            let j = choose|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).contains(z);
            if j != t { assert(k[j].contains(z)); } else { lemma_belongs_spent(k, m, t, a, z); }
        }
        if has_val(m2, z) {
            let q = choose|q: int| 0 <= q < m2.len() && (#[trigger] m2[q]).0 == z;
            if q < r.len() { assert(m.contains(r[q])); let p = choose|p: int| 0 <= p < m.len() && m[p] == r[q]; assert(m[p].0 == z); }
            else { assert(ev.contains(ev[q - r.len()])); assert(belongs(z, c, vals(a))); lemma_belongs_spent(k, m, t, a, z); }
        }
        if exists|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(z) {
            let j = choose|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(z);
            if j != t { assert(k2[j].contains(z)); } else { lemma_kept(k, t, vals(a), b, ev, r, z); }
        }
        if has_val(m, z) {
            let q = choose|q: int| 0 <= q < m.len() && (#[trigger] m[q]).0 == z; assert(m.contains(m[q]));
            if a.contains(m[q]) { let p = choose|p: int| 0 <= p < a.len() && a[p] == m[q]; assert(vals(a)[p] == z); lemma_kept(k, t, vals(a), b, ev, r, z); }
            else { let p = choose|p: int| 0 <= p < r.len() && r[p] == m[q]; assert(m2[p].0 == z); }
        }
    }
}
pub proof fn lemma_belongs_spent(k: Seq<Seq<int>>, m: Seq<(int, int)>, t: int, a: Seq<(int, int)>, z: int)
    requires 0 <= t < k.len(), belongs(z, k[t], vals(a)), forall|q: int| 0 <= q < a.len() ==> m.contains(#[trigger] a[q]) ensures spent_in(k, m, z)
{
    if !k[t].contains(z) { let q = choose|q: int| 0 <= q < a.len() && vals(a)[q] == z; assert(m.contains(a[q])); let p = choose|p: int| 0 <= p < m.len() && m[p] == a[q]; assert(m[p].0 == z); }
}
pub proof fn lemma_kept(k: Seq<Seq<int>>, t: int, vs: Seq<int>, b: Seq<int>, ev: Seq<int>, r: Seq<(int, int)>, z: int)
    requires 0 <= t < k.len(), moved(k[t], vs, b, ev), belongs(z, k[t], vs) ensures spent_in(put(k, t, b), r + tagged(ev, t + 1), z)
{
    if b.contains(z) { assert(put(k, t, b)[t].contains(z)); }
    else { let q = choose|q: int| 0 <= q < ev.len() && ev[q] == z; assert((r + tagged(ev, t + 1))[r.len() + q].0 == z); }
}
//--- one insertion into a child, as the closures of the source do it
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" can_insert_nullifier_hash as contained_in
//@props N02
//@xclosure 2
//@sig pub fn can_insert_nullifier_hash(data: NullifierMap, nullifier_hash: OrdU256) -> bool
//@rw NullifierMap::new\(data\) => data
//@ret r
//@spec
    requires data.wf()
    ensures r == data.ks().contains(nullifier_hash.num())
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" try_insert_nullifier_hash as insert_into
//@props N02
//@xclosure 3
//@sig pub fn try_insert_nullifier_hash(data: &mut NullifierMap, nullifier_hash: OrdU256) -> (Result<Option<(OrdU256, ())>, ElusivError>, OrdU256)
//@rw NullifierMap::new\(data\) => data
//@rw let mut (\w+) = data; => let \1 = data;
//@rw (\w+)\s*\.try_insert_default\((\w+)\)\s*\.map_err\(\|_\| ([\w:]+)\) => insert_err(\1.try_insert_default(\2), \3)
//@ret r
//@spec
    requires old(data).wf()
    ensures final(data).wf(), r.0 is Ok ==> inserted(old(data).ks(), final(data).ks(), nullifier_hash.num(), r.0->Ok_0), holds_max(final(data).ks(), r.1),
        r.0 is Err <==> old(data).ks().contains(nullifier_hash.num())
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" move_nullifier_hashes_to_next_account as move_into
//@props N02
//@xclosure 3
//@sig pub fn move_nullifier_hashes_to_next_account(data: &mut NullifierMap, values: Vec<Moved>) -> Result<(Vec<OrdU256>, OrdU256), ElusivError>
//@rw NullifierMap::new\(data\) => data
//@rw let mut (\w+) = data; => let \1 = data;
//@rw (\w+)\s*\.try_insert_default\((\w+)\)\s*\.map_err\(\|_\| ([\w:]+)\) => insert_err(\1.try_insert_default(\2), \3)
//@rw for \((\w+), _\) in (\w+) => for &(\1, _) in &\2
//@rw Vec::new\(\) => Vec::<OrdU256>::new()
//@desugar 1
//@ret r
//@spec
    requires old(data).wf(), strict(mv(values@)), old(data).ks().len() > 0 ==> forall|q: int| 0 <= q < values@.len() ==> (#[trigger] mv(values@)[q]).0 < old(data).ks()[0]
    ensures final(data).wf(), r is Ok ==> moved(old(data).ks(), vals(mv(values@)), final(data).ks(), nums(r->Ok_0.0@)) && holds_max(final(data).ks(), r->Ok_0.1)
//@top
    let ghost a = data.ks(); let ghost w = mv(values@);
    proof { assert(vals(w.subrange(0, 0)) =~= Seq::empty()); lemma_moved_none(a); }
//@loop 1
    invariant it1_i_next <= values@.len(), *it1 == values, w == mv(values@), map.wf(), strict(w), a.len() > 0 ==> forall|q: int| 0 <= q < w.len() ==> (#[trigger] w[q]).0 < a[0], a.len() <= C(), inc(a),
        moved(a, vals(w.subrange(0, it1_i_next as int)), map.ks(), nums(max_values@))
    decreases values@.len() - it1_i_next
//@looptop 1
    let ghost c = map.ks(); let ghost ev = nums(max_values@); let ghost i = it1_i; let ghost vs = vals(w.subrange(0, i as int));
    proof {
        assert(vals(w.subrange(0, i + 1)) =~= vs.push(w[i as int].0));
        assert forall|y: int| belongs(y, a, vs) implies w[i as int].0 < y by {
            if a.contains(y) { lemma_ends(a); } else { let q = choose|q: int| 0 <= q < vs.len() && vs[q] == y; assert(gt(w, q, i as int)); }
        }
        lemma_move_step(a, vs, c, ev, w[i as int].0);
    }
//@loopend 1
    proof { assert(nums(max_values@) =~= (if res is Some { ev.push(res->Some_0.0.num()) } else { ev })); }
//@afterloop 1
    proof { assert(w.subrange(0, w.len() as int) =~= w); }
//@end
pub proof fn lemma_moved_none(a: Seq<int>) requires inc(a), a.len() <= C() ensures moved(a, Seq::empty(), a, Seq::empty())
{ let e = Seq::<int>::empty(); assert forall|y: int| !e.contains(y) by { } }
/// one more value, below all so far
pub proof fn lemma_move_step(a: Seq<int>, vs: Seq<int>, b: Seq<int>, ev: Seq<int>, x: int)
    requires moved(a, vs, b, ev), forall|y: int| belongs(y, a, vs) ==> x < y
    ensures !b.contains(x),
        b.len() < C() ==> forall|b2: Seq<int>| #[trigger] adds(b, b2, x) && b2.len() == b.len() + 1 ==> moved(a, vs.push(x), b2, ev),
        b.len() == C() ==> forall|b2: Seq<int>, out: int| #[trigger] swaps(b, b2, x, out) && b2.len() == b.len() ==> moved(a, vs.push(x), b2, ev.push(out))
{
    lemma_consts();
    let vs2 = vs.push(x);
    assert forall|y: int| vs2.contains(y) <==> vs.contains(y) || y == x by {
        if vs2.contains(y) { let q = choose|q: int| 0 <= q < vs2.len() && vs2[q] == y; if q < vs.len() { assert(vs[q] == y); } }
        if vs.contains(y) { let q = choose|q: int| 0 <= q < vs.len() && vs[q] == y; assert(vs2[q] == y); }
        if y == x { assert(vs2[vs.len() as int] == y); }
    }
    assert forall|y: int| b.contains(y) implies x < y by { assert(belongs(y, a, vs)); }
    assert forall|y: int| ev.contains(y) implies x < y by { assert(belongs(y, a, vs)); }
    if b.len() < C() {
        assert(ev.len() == 0);
    } else {
        lemma_ends(b);
        assert forall|b2: Seq<int>, out: int| #[trigger] swaps(b, b2, x, out) && b2.len() == b.len() implies moved(a, vs2, b2, ev.push(out)) by {
            let ev2 = ev.push(out);
            lemma_swaps_ends(b, b2, x, out);
            assert forall|i: int, j: int| 0 <= i < j < ev2.len() implies #[trigger] lt(ev2, j, i) by { if j < ev.len() { assert(lt(ev, j, i)); } else { assert(b.last() < ev[i]); } }
            assert forall|i: int| 0 <= i < ev2.len() implies b2.last() < #[trigger] ev2[i] by { if i < ev.len() { assert(b.last() < ev[i]); } }
            assert forall|y: int| ev2.contains(y) <==> ev.contains(y) || y == out by {
                if ev2.contains(y) { let q = choose|q: int| 0 <= q < ev2.len() && ev2[q] == y; if q < ev.len() { assert(ev[q] == y); } }
                if ev.contains(y) { let q = choose|q: int| 0 <= q < ev.len() && ev[q] == y; assert(ev2[q] == y); }
                if y == out { assert(ev2[ev.len() as int] == y); }
            }
            assert(b.contains(out));
        }
    }
}

/// an unused account: nothing is spent
pub proof fn lemma_initial(k: Seq<Seq<int>>, mx: Seq<Option<int>>) requires k.len() == N(), forall|i: int| 0 <= i < N() ==> (#[trigger] k[i]).len() == 0
    ensures ninv(k, Seq::empty(), 0, mx), forall|y: int| !spent_in(k, Seq::empty(), y)
{
    lemma_consts();
    lemma_empty_sum(k, N());
    assert forall|i: int| 0 <= i < N() implies #[trigger] ok_kid(k, i, full_of(0), mx) by { assert(k[i].len() == 0); }
    assert forall|y: int| !spent_in(k, Seq::empty(), y) by { if exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).contains(y) { let i = choose|i: int| 0 <= i < k.len() && (#[trigger] k[i]).contains(y); assert(k[i].len() == 0); } }
}
pub proof fn lemma_empty_sum(k: Seq<Seq<int>>, i: int) requires 0 <= i <= k.len(), forall|j: int| 0 <= j < k.len() ==> (#[trigger] k[j]).len() == 0 ensures tsum(k, i) == 0 decreases i
{ if i > 0 { lemma_empty_sum(k, i - 1); } }
