//@include le.inc.rs
//@trust map.inc.rs
//@py nullifier_counts
pub struct OrdU256(pub U256);
impl Copy for OrdU256 {}
impl Clone for OrdU256 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ElusivMapKey for OrdU256 { open spec fn num(&self) -> int { le(self.0@) } }
impl ElusivMapValue for () {}
pub type NullifierMap = ElusivMap<OrdU256, (), NULLIFIERS_PER_ACCOUNT>;
//@note OrdU256: its comparison operators compare the numbers (proved in unit fields)
impl vstd::std_specs::cmp::PartialEqSpecImpl for OrdU256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OrdU256) -> bool { self.num() == o.num() } }
impl PartialEq for OrdU256 { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for OrdU256 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &OrdU256) -> Option<core::cmp::Ordering> { Some(if self.num() < o.num() { core::cmp::Ordering::Less } else if self.num() == o.num() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
impl PartialOrd for OrdU256 { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() } }
pub fn cmp_max_u8(a: u8, b: u8) -> (r: u8) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn cmp_min_u8(a: u8, b: u8) -> (r: u8) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn to_u8(n: usize) -> (r: u8) ensures r == n { if n > 255 { abort() } n as u8 }
#[verifier::external_body] pub fn opt_value(o: ElusivOption<U256>) -> (r: Option<U256>) ensures r == (match o { ElusivOption::Some(v) => Some(v), ElusivOption::None => None }) { unimplemented!() }
pub fn insert_err(r: Result<Option<(OrdU256, ())>, ElusivMapError<()>>, e: ElusivError) -> (o: Result<Option<(OrdU256, ())>, ElusivError>)
    ensures r is Ok <==> o is Ok, r is Ok ==> o->Ok_0 == r->Ok_0, r is Err ==> o->Err_0 == e
{ match r { Ok(v) => Ok(v), Err(_) => Err(e) } }
//@py nullifier_model

pub type Moved = (OrdU256, u8);
pub open spec fn pr(e: Moved) -> (int, int) { (e.0.num(), e.1 as int) }
pub open spec fn mv(m: Seq<Moved>) -> Seq<(int, int)> { Seq::new(m.len(), |i: int| pr(m[i])) }
pub open spec fn nums(v: Seq<OrdU256>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].num()) }
pub open spec fn tagged(v: Seq<int>, t: int) -> Seq<(int, int)> { Seq::new(v.len(), |i: int| (v[i], t)) }
pub open spec fn has_val(m: Seq<(int, int)>, x: int) -> bool { exists|k: int| 0 <= k < m.len() && (#[trigger] m[k]).0 == x }
pub open spec fn swaps_with(e: (int, int), i: int, x: int) -> bool { e.1 == i && x < e.0 }
pub open spec fn falling(m: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] ge(m, i, j) }
pub open spec fn ge(m: Seq<(int, int)>, i: int, j: int) -> bool { m[i].0 >= m[j].0 }
pub open spec fn strict(m: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] gt(m, i, j) }
pub open spec fn gt(m: Seq<(int, int)>, i: int, j: int) -> bool { m[i].0 > m[j].0 }
pub open spec fn parts(m: Seq<(int, int)>, t: int, a: Seq<(int, int)>, b: Seq<(int, int)>) -> bool {
    (forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).1 == t) && (forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).1 != t)
    && m.to_multiset() == a.to_multiset().add(b.to_multiset()) && m.len() == a.len() + b.len()
    && (strict(m) ==> strict(a) && strict(b) && (a.len() > 0 ==> a.last().0 >= m.last().0) && (b.len() > 0 ==> b.last().0 >= m.last().0))
}
pub open spec fn C() -> int { NULLIFIERS_PER_ACCOUNT as int }
pub open spec fn N() -> int { NCHILD as int }
/// number of waiting values with a target up to i
pub open spec fn wle(m: Seq<(int, int)>, i: int) -> int { m.to_multiset().filter(|e: (int, int)| e.1 <= i).len() as int }
pub open spec fn tsum(k: Seq<Seq<int>>, i: int) -> int decreases i { if i <= 0 { 0 } else { tsum(k, i - 1) + k[i - 1].len() } }
/// every value of a child is below all of the next ones, and y fits between child i - 1 and i
pub open spec fn above(k: Seq<Seq<int>>, i: int, y: int) -> bool { forall|j: int| 0 <= j < i && k[j].len() > 0 ==> (#[trigger] k[j]).last() < y }
pub open spec fn under(k: Seq<Seq<int>>, i: int, y: int) -> bool { forall|j: int| i <= j < N() && k[j].len() > 0 ==> y < (#[trigger] k[j])[0] }
pub open spec fn ok_kid(k: Seq<Seq<int>>, i: int, full: int, mx: Seq<Option<int>>) -> bool {
    inc(k[i]) && k[i].len() <= C() && (i > full ==> k[i].len() == 0) && (k[i].len() > 0 ==> under(k, i + 1, k[i].last()) && mx[i] == Some(k[i].last()))
}
pub open spec fn ok_wait(k: Seq<Seq<int>>, e: (int, int), full: int) -> bool { 1 <= e.1 <= full && e.1 < N() && above(k, e.1, e.0) && under(k, e.1, e.0) }
pub open spec fn kids_ok(k: Seq<Seq<int>>, full: int, mx: Seq<Option<int>>) -> bool { k.len() == N() && forall|i: int| 0 <= i < N() ==> #[trigger] ok_kid(k, i, full, mx) }
pub open spec fn waits_ok(k: Seq<Seq<int>>, m: Seq<(int, int)>, full: int) -> bool { forall|i: int| 0 <= i < m.len() ==> ok_wait(k, #[trigger] m[i], full) }
pub open spec fn differ(m: Seq<(int, int)>) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j ==> #[trigger] nev(m, i, j) }
pub open spec fn nev(m: Seq<(int, int)>, i: int, j: int) -> bool { m[i].0 != m[j].0 }
pub open spec fn filled(k: Seq<Seq<int>>, m: Seq<(int, int)>, i: int) -> bool { tsum(k, i + 1) + wle(m, i) >= caps(i + 1) }
/// everything but the order of the waiting values
pub open spec fn ninv0(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>) -> bool {
    0 <= n <= caps(N()) && kids_ok(k, full_of(n), mx) && waits_ok(k, m, full_of(n)) && differ(m) && m.len() <= JOIN_SPLIT_MAX_N_ARITY
    && tsum(k, N()) + m.len() == n && forall|i: int| 0 <= i < full_of(n) ==> #[trigger] filled(k, m, i)
}
pub open spec fn ninv(k: Seq<Seq<int>>, m: Seq<(int, int)>, n: int, mx: Seq<Option<int>>) -> bool { ninv0(k, m, n, mx) && strict(m) }
/// the spent values: those in a child and those waiting to be moved
pub open spec fn spent_in(k: Seq<Seq<int>>, m: Seq<(int, int)>, y: int) -> bool { (exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).contains(y)) || has_val(m, y) }
pub open spec fn found(mx: Seq<Option<int>>, full: int, i: int, x: int) -> bool {
    0 <= i <= full && (forall|j: int| 0 <= j < i ==> (#[trigger] mx[j]) is Some && mx[j]->Some_0 < x) && (i < full ==> mx[i] is Some && x <= mx[i]->Some_0)
}
/// y can be put into child i, among the waiting values m
pub open spec fn fits(k: Seq<Seq<int>>, m: Seq<(int, int)>, full: int, i: int, y: int) -> bool {
    0 <= i < N() && i <= full && above(k, i, y) && under(k, i + 1, y) && (i < full ==> k[i].len() > 0 && y <= k[i].last()) && (i == full ==> k[i].len() < C())
    && (forall|q: int| 0 <= q < m.len() ==> #[trigger] sided(m[q], i, y))
}
pub open spec fn sided(e: (int, int), i: int, y: int) -> bool { if e.1 <= i { e.0 < y } else { y < e.0 } }
/// the set with y in child i, all else as before
pub open spec fn put(k: Seq<Seq<int>>, i: int, b: Seq<int>) -> Seq<Seq<int>> { k.update(i, b) }
pub open spec fn min_target(m: Seq<(int, int)>, t: int) -> bool { forall|q: int| 0 <= q < m.len() ==> t <= (#[trigger] m[q]).1 }
pub open spec fn down(v: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] lt(v, j, i) }
pub open spec fn vals(m: Seq<(int, int)>) -> Seq<int> { Seq::new(m.len(), |i: int| m[i].0) }
/// b and the handed back values ev are a and the added values vs; b holds the smaller ones and as many as possible
pub open spec fn moved(a: Seq<int>, vs: Seq<int>, b: Seq<int>, ev: Seq<int>) -> bool {
    inc(b) && b.len() <= C() && b.len() + ev.len() == a.len() + vs.len() && (ev.len() > 0 ==> b.len() == C()) && down(ev)
    && (forall|y: int| b.contains(y) || ev.contains(y) <==> a.contains(y) || vs.contains(y))
    && (forall|i: int| 0 <= i < ev.len() ==> b.last() < #[trigger] ev[i])
}
pub open spec fn belongs(y: int, a: Seq<int>, vs: Seq<int>) -> bool { a.contains(y) || vs.contains(y) }
pub open spec fn below(a: Seq<(int, int)>, b: Seq<(int, int)>, p: int, q: int) -> bool { a[p].0 < b[q].0 }
pub open spec fn inserted(a: Seq<int>, b: Seq<int>, x: int, out: Option<(OrdU256, ())>) -> bool {
    !a.contains(x) && inc(b) && if a.len() == C() { out is Some && b.len() == a.len() && swaps(a, b, x, out->Some_0.0.num()) } else { out is None && b.len() == a.len() + 1 && adds(a, b, x) }
}
pub open spec fn holds_max(b: Seq<int>, m: OrdU256) -> bool { b.len() > 0 ==> m.num() == b.last() }
//--- the account
//@note child accounts of the nullifier account: an optional map per slot, reached only through execute_on_child_account_mut (G02); NullifierMap::new(data) is the map stored in the child's data and what the closure leaves is written back
impl NullifierAccount {
    #[verifier::external_body] pub fn child_map(&self, i: usize) -> (r: Result<NullifierMap, ProgramError>) ensures r is Ok ==> i < self.children@.len() && self.children@[i as int] == Some(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn child_put(&mut self, i: usize, m: NullifierMap) ensures final(self).children@ == old(self).children@.update(i as int, Some(m)), *final(self) == (NullifierAccount { children: final(self).children, ..*old(self) }) { unimplemented!() }
    pub open spec fn kids(&self) -> Seq<Seq<int>> { Seq::new(N() as nat, |i: int| match self.children@[i] { Some(m) => m.ks(), None => Seq::empty() }) }
    pub open spec fn waits(&self) -> Seq<(int, int)> { Seq::new(self.moved_values_count as nat, |i: int| (le(self.moved_values@[i]@), self.moved_values_target@[i] as int)) }
    pub open spec fn maxs(&self) -> Seq<Option<int>> { Seq::new(N() as nat, |i: int| match self.max_values@[i] { ElusivOption::Some(v) => Some(le(v@)), ElusivOption::None => None }) }
    pub open spec fn n(&self) -> int { self.nullifier_hash_count as int }
    pub open spec fn wf(&self) -> bool {
        self.children@.len() == N() && (forall|i: int| 0 <= i < N() && self.children@[i] is Some ==> (#[trigger] self.children@[i])->Some_0.wf()) && self.moved_values_count <= JOIN_SPLIT_MAX_N_ARITY
        && ninv(self.kids(), self.waits(), self.n(), self.maxs())
    }
    /// the spent nullifier-hashes
    pub open spec fn spent(&self) -> ISet<U256> { ISet::new(|h: U256| spent_in(self.kids(), self.waits(), le(h@))) }
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" find_child_account_index
//@props N02
//@rw self\.get_max_values\((\w+)\)\.option\(\) => opt_value(self.get_max_values(\1))
//@desugar 1
//@ret r
//@spec
    ensures found(self.maxs(), full_of(self.n()), r as int, le(nullifier_hash@))
//@loop 1
    invariant i_next <= i_end, i_end == full_of(self.n()), i_next <= N(), forall|j: int| 0 <= j < i_next ==> (#[trigger] self.maxs()[j]) is Some && self.maxs()[j]->Some_0 < le(nullifier_hash@)
    decreases i_end - i_next
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" get_all_moved_values
//@props N02
//@xclosure_call 1 MOVED
//@rw \(0\.\.count\)\s*\.map\(MOVED\)\s*\.collect\(\) => self.collect_moved(count)
//@ret r
//@spec
    ensures mv(r@) == self.waits(), r@.len() == self.moved_values_count
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" get_all_moved_values as moved_at
//@props N02
//@xclosure 1
//@sig fn get_all_moved_values(&self, i: usize) -> Moved
//@ret r
//@spec
    ensures pr(r) == (le(self.moved_values@[i as int]@), self.moved_values_target@[i as int] as int)
//@end
    fn collect_moved(&self, count: usize) -> (r: Vec<Moved>) ensures r@.len() == count, forall|k: int| 0 <= k < count ==> pr(#[trigger] r@[k]) == (le(self.moved_values@[k]@), self.moved_values_target@[k] as int) {
        let mut v: Vec<Moved> = Vec::new(); let mut i: usize = 0;
        while i < count invariant i <= count, v@.len() == i, forall|k: int| 0 <= k < i ==> pr(#[trigger] v@[k]) == (le(self.moved_values@[k]@), self.moved_values_target@[k] as int) decreases count - i
        { let e = self.moved_at(i); v.push(e); i += 1; }
        v
    }
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" set_all_moved_values
//@props N02
//@rw moved_values\.len\(\)\.try_into\(\)\.\w+\(\) => to_u8(moved_values.len())
//@rw \(OrdU256\((\w+)\), (\w+)\)\) in => __e) in
//@rw moved_values\.iter\(\)\.enumerate\(\) \{ => moved_values.iter().enumerate() { let (value, target) = (&__e.0.0, &__e.1);
//@desugar 1
//@sig fn set_all_moved_values(&mut self, moved_values: &Vec<Moved>)
//@spec
    ensures moved_values@.len() <= JOIN_SPLIT_MAX_N_ARITY, final(self).waits() == mv(moved_values@), final(self).moved_values_count == moved_values@.len(),
        *final(self) == (NullifierAccount { moved_values_count: final(self).moved_values_count, moved_values: final(self).moved_values, moved_values_target: final(self).moved_values_target, ..*old(self) })
//@loop 1
    invariant i_next <= moved_values@.len(), it1 == moved_values, moved_values@.len() <= JOIN_SPLIT_MAX_N_ARITY, self.moved_values_count == moved_values@.len(),
        *self == (NullifierAccount { moved_values_count: self.moved_values_count, moved_values: self.moved_values, moved_values_target: self.moved_values_target, ..*old(self) }),
        forall|k: int| 0 <= k < i_next ==> pr(#[trigger] moved_values@[k]) == (le(self.moved_values@[k]@), self.moved_values_target@[k] as int)
    decreases moved_values@.len() - i_next
//@bottom
    proof { assert(self.waits() =~= mv(moved_values@)); }
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" is_moved_nullifier_empty
//@props N02
//@ret r
//@spec
    ensures r == (self.waits().len() == 0)
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" sort_all_moved_values
//@props N02
//@xclosure_call 1 ORDER
//@rw moved_values\.sort_by\(ORDER\) => sort_moved(moved_values)
//@sig fn sort_all_moved_values(moved_values: &mut Vec<Moved>)
//@spec
    ensures mv(final(moved_values)@).to_multiset() == mv(old(moved_values)@).to_multiset(), falling(mv(final(moved_values)@))
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" can_insert_nullifier_hash
//@props N02
//@xclosure_call 1 EQUAL
//@xclosure_call 2 CONTAINS
//@rw moved_values\s*\.iter\(\)\s*\.any\(EQUAL\) => any_equal_can(&moved_values, nullifier_hash)
//@rw self\.execute_on_child_account_mut\((\w+), CONTAINS\) => (match self.child_map(\1) { Ok(m) => Ok(contained_in(m, nullifier_hash)), Err(e) => Err(e) })
//@ret r
//@spec
    requires self.wf()
    ensures r is Ok ==> r->Ok_0 == !self.spent().contains(nullifier_hash)
//@before let account_index
    let ghost x = le(nullifier_hash@); let ghost k = self.kids(); let ghost m = self.waits(); let ghost h0 = nullifier_hash;
    proof { lemma_consts(); }
//@before let contains
    proof {
        lemma_found(k, m, self.n(), self.maxs(), account_index as int, x);
        if spent_in(k, m, x) { let j = choose|j: int| 0 <= j < k.len() && (#[trigger] k[j]).contains(x); assert(j == account_index); }
        assert(k[account_index as int].contains(x) ==> spent_in(k, m, x));
        assert(self.spent().contains(h0) == spent_in(k, m, x));
    }
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" try_insert_nullifier_hash
//@props N02
//@attr #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@xclosure_call 1 EQUAL
//@xclosure_call 2 SWAP
//@xclosure_call 3 INSERT
//@rw moved_values\s*\.iter\(\)\s*\.any\(EQUAL\) => any_equal(&moved_values, nullifier_hash)
//@rw moved_values\s*\.iter\(\)\s*\.position\(SWAP\) => position_swap(&moved_values, account_index, nullifier_hash)
//@rw (?:std::)?mem::swap\(&mut moved_values\[(\w+)\]\.0, &mut nullifier_hash\) => { proof { at@ = \1 as int; } swap_value(&mut moved_values, \1, &mut nullifier_hash) }
//@rw self\.execute_on_child_account_mut\((\w+), INSERT\)\? => { let mut __m = self.child_map(\1)?; let __r = insert_into(&mut __m, nullifier_hash); self.child_put(\1, __m); proof { if __r.0 is Ok { evicted@ = __r.0->Ok_0; } } __r }
//@ret r
//@spec
    requires old(self).wf()
    ensures r is Ok ==> final(self).wf() && !old(self).spent().contains(nullifier_hash) && final(self).spent() == old(self).spent().insert(nullifier_hash)
//@before let account_index
    let ghost x = le(nullifier_hash@); let ghost k = self.kids(); let ghost m = self.waits(); let ghost h0 = nullifier_hash; let ghost n = self.n(); let ghost mx = self.maxs(); let ghost s0 = *self;
    let mut at: Ghost<int> = Ghost(0);
    proof { lemma_consts(); }
//@before let \(insertion
    let ghost m1 = mv(moved_values@); let ghost y = nullifier_hash.num(); let ghost i = account_index as int; let ghost v1 = moved_values@;
    let mut evicted: Ghost<Option<(OrdU256, ())>> = Ghost(None);
    proof {
        lemma_found(k, m, n, mx, i, x);
        if moved_values_modified { let p = at@; assert(m1 =~= m.update(p, (x, i))); lemma_swap(k, m, n, mx, i, x, p); }
        else { lemma_noswap(k, m, n, mx, i, x); }
    }
//@before Ok\(\(\)\)\s*\}?\s*$
    proof {
        let b = self.children@[i]->Some_0.ks(); let k2 = put(k, i, b); let mx2 = mx.update(i, Some(b.last())); let a = k[i];
        assert(b.len() > 0); assert(self.kids() =~= k2); assert(self.maxs() =~= mx2); assert(self.n() == n + 1);
        assert(evicted@ is Some <==> a.len() == C());
        let m2 = if a.len() == C() { m1.push((evicted@->Some_0.0.num(), i + 1)) } else { m1 };
        let w = self.waits();
        if a.len() == C() { assert(mv(v1.push((evicted@->Some_0.0, (i + 1) as u8))) =~= m2); }
        if moved_values_modified { lemma_perm(w, m2); }
        if a.len() == C() { lemma_put_evict(k, m1, n, mx, i, y, b, evicted@->Some_0.0.num(), mx2); }
        else { lemma_put_kept(k, m1, n, mx, i, y, b, mx2); }
        if moved_values_modified { lemma_sorted(k2, m2, w, n + 1, mx2); } else { assert(w == m2); }
        assert forall|h: U256| self.spent().contains(h) <==> s0.spent().contains(h) || h == h0 by { if le(h@) == x { lemma_le_inj(h@, h0@); assert(h =~= h0); } }
        assert(self.spent() =~= s0.spent().insert(h0));
    }
//@end
//@fn elusiv/src/state/nullifier.rs in "impl<'a, 'b, 'c> NullifierAccount" move_nullifier_hashes_to_next_account
//@props N02
//@attr #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@xclosure_call 1 MIN
//@xclosure_call 2 TARGET
//@xclosure_call 3 INSERT
//@xclosure_call 5 TAG
//@rw moved_values\s*\.iter\(\)\s*\.fold\(([\w:]+), MIN\) => fold_targets(&moved_values, \1)
//@rw let \((\w+), mut (\w+)\): \(_, Vec<_>\) =\s*moved_values\.into_iter\(\)\.partition\(TARGET\); => let __p = partition_target(moved_values, target); let \1 = __p.0; let mut \2 = __p.1;
//@rw self\.execute_on_child_account_mut\(target as usize, INSERT\)\?\?; => { let mut __m = self.child_map(target as usize)?; let __r = move_into(&mut __m, values); self.child_put(target as usize, __m); __r }?;
//@rw moved_values\.extend\(max_values\.into_iter\(\)\.map\(TAG\)\) => extend_moved(&mut moved_values, max_values, target)
//@ret r
//@spec
    requires old(self).wf()
    ensures r is Ok ==> final(self).wf() && final(self).spent() == old(self).spent(), old(self).waits().len() == 0 ==> r is Err
//@top
    let ghost k = self.kids(); let ghost m = self.waits(); let ghost n = self.n(); let ghost mx = self.maxs(); let ghost s0 = *self;
    proof { lemma_consts(); }
//@before let \(max_values
    let ghost t = target as int; let ghost a = mv(values@); let ghost r0 = mv(moved_values@);
    proof {
        assert(m.len() > 0); assert(ok_wait(k, m[0], full_of(n)));
        assert(exists|q: int| 0 <= q < m.len() && (#[trigger] m[q]).1 == t);
        lemma_min(k, m, n, mx, t, a, r0);
        assert forall|q: int| 0 <= q < a.len() && k[t].len() > 0 implies (#[trigger] a[q]).0 < k[t][0] by { assert(ok_wait(k, a[q], full_of(n))); }
        assert(k[t].len() > 0 ==> forall|q: int| 0 <= q < a.len() ==> (#[trigger] a[q]).0 < k[t][0]);
    }
//@after __r \}\?;
    let ghost ev = nums(max_values@);
//@before Ok\(\(\)\)\s*\}?\s*$
    proof {
        let b = self.children@[t]->Some_0.ks(); let k2 = put(k, t, b); let mx2 = mx.update(t, Some(b.last())); let m2 = r0 + tagged(ev, t + 1);
        lemma_move(k, m, n, mx, t, a, r0, b, ev, mx2);
        assert(self.kids() =~= k2); assert(self.maxs() =~= mx2);
        let w = self.waits();
        if ev.len() > 0 { lemma_perm(w, m2); lemma_sorted(k2, m2, w, n, mx2); } else { assert(w == m2); }
        assert(self.spent() =~= s0.spent());
    }
//@end
}
