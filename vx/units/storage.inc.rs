//@include base.inc.rs
//@include bytes.inc.rs
//@include pow.inc.rs
//@py ints elusiv/src/state/storage.rs MT_HEIGHT MT_SIZE MT_COMMITMENT_COUNT HISTORY_ARRAY_SIZE VALUES_PER_STORAGE_SUB_ACCOUNT ACCOUNTS_COUNT
impl Eqv for U256 { #[verifier::external_body] fn eqv(&self, o: &Self) -> (r: bool) { self == o } }

//@note EMPTY_TREE: the table is an uninterpreted function of the level here (its values are proved to be the hashes of empty subtrees in unit poseidon)
pub uninterp spec fn empty(i: int) -> U256;
#[verifier::external_body] pub fn empty_tree_at(i: usize) -> (r: U256) ensures i <= MT_HEIGHT, r == empty(i as int) { unimplemented!() }

//@note child accounts of a parent: an optional payload per slot, reached only through execute_on_child_account (G02); a closure that reads or writes the range a..b of the payload is child_read/child_write(a, b)
pub struct StorageAccount {
    pub next_commitment_ptr: u32, pub trees_count: u32, pub archived_count: u32, pub mt_roots_count: u32,
    pub active_mt_root_history: Vec<u8>,
    pub children: Ghost<Seq<Option<Seq<u8>>>>,
}
/// sizes fixed by the generated account and by StorageChildAccount::INNER_SIZE
pub open spec fn swf(s: &StorageAccount) -> bool {
    s.active_mt_root_history@.len() == HISTORY_ARRAY_SIZE * 32 && s.children@.len() == ACCOUNTS_COUNT
    && forall|i: int| 0 <= i < ACCOUNTS_COUNT && (#[trigger] s.children@[i]) is Some ==> s.children@[i]->Some_0.len() == VALUES_PER_STORAGE_SUB_ACCOUNT * 32
}
pub open spec fn splice(d: Seq<u8>, a: int, v: Seq<u8>) -> Seq<u8> { d.subrange(0, a) + v + d.subrange(a + v.len(), d.len() as int) }
impl StorageAccount {
    #[verifier::external_body] pub fn get_next_commitment_ptr(&self) -> (r: u32) ensures r == self.next_commitment_ptr { unimplemented!() }
    #[verifier::external_body] pub fn set_next_commitment_ptr(&mut self, v: &u32) ensures *final(self) == (StorageAccount { next_commitment_ptr: *v, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn get_mt_roots_count(&self) -> (r: u32) ensures r == self.mt_roots_count { unimplemented!() }
    #[verifier::external_body] pub fn set_mt_roots_count(&mut self, v: &u32) ensures *final(self) == (StorageAccount { mt_roots_count: *v, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn get_trees_count(&self) -> (r: u32) ensures r == self.trees_count { unimplemented!() }
    #[verifier::external_body] pub fn set_trees_count(&mut self, v: &u32) ensures *final(self) == (StorageAccount { trees_count: *v, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn child_read(&self, i: usize, a: usize, b: usize) -> (r: Result<Result<U256, ProgramError>, ProgramError>)
        requires swf(self)
        ensures r is Ok <==> i < ACCOUNTS_COUNT && self.children@[i as int] is Some,
            r is Ok ==> a <= b <= VALUES_PER_STORAGE_SUB_ACCOUNT * 32,
            r is Ok && b == a + 32 ==> r->Ok_0 is Ok && r->Ok_0->Ok_0@ == self.children@[i as int]->Some_0.subrange(a as int, b as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn child_write(&mut self, i: usize, a: usize, b: usize, v: &U256) -> (r: Result<Result<(), ProgramError>, ProgramError>)
        requires swf(old(self)), b == a + 32
        ensures r is Ok <==> i < ACCOUNTS_COUNT && old(self).children@[i as int] is Some,
            r is Err ==> *final(self) == *old(self),
            r is Ok ==> r->Ok_0 is Ok && b <= VALUES_PER_STORAGE_SUB_ACCOUNT * 32
                && final(self).children@ == old(self).children@.update(i as int, Some(splice(old(self).children@[i as int]->Some_0, a as int, v@)))
                && *final(self) == (StorageAccount { children: final(self).children, ..*old(self) })
    { unimplemented!() }
}
pub open spec fn node_ok(i: int, l: int) -> bool { 0 <= l <= MT_HEIGHT && 0 <= i < pow2(l as nat) }
/// index of a node in the flattened tree, its child account and offset
pub open spec fn flat(i: int, l: int) -> int { pow2(l as nat) - 1 + i }
pub open spec fn acc_of(i: int, l: int) -> int { flat(i, l) / (VALUES_PER_STORAGE_SUB_ACCOUNT as int) }
pub open spec fn off_of(i: int, l: int) -> int { (flat(i, l) % (VALUES_PER_STORAGE_SUB_ACCOUNT as int)) * 32 }
pub open spec fn present(s: &StorageAccount, i: int, l: int) -> bool { s.children@[acc_of(i, l)] is Some }
pub open spec fn stored(s: &StorageAccount, i: int, l: int) -> Seq<u8> { s.children@[acc_of(i, l)]->Some_0.subrange(off_of(i, l), off_of(i, l) + 32) }
/// a leaf has been inserted under the node
pub open spec fn has_leaf(s: &StorageAccount, i: int, l: int) -> bool { i * pow2((MT_HEIGHT - l) as nat) < s.next_commitment_ptr }
pub open spec fn node_val(s: &StorageAccount, i: int, l: int) -> Seq<u8> { if has_leaf(s, i, l) { stored(s, i, l) } else { empty(MT_HEIGHT - l)@ } }
pub proof fn lemma_slot(i: int, l: int) requires node_ok(i, l)
    ensures 0 <= flat(i, l) < MT_SIZE, 0 <= acc_of(i, l) < ACCOUNTS_COUNT, 0 <= off_of(i, l), off_of(i, l) + 32 <= VALUES_PER_STORAGE_SUB_ACCOUNT * 32
{
    lemma2_to64(); lemma_pow2_pos(l as nat);
    if l < MT_HEIGHT { lemma_pow2_strictly_increases(l as nat, MT_HEIGHT as nat); }
    let v = VALUES_PER_STORAGE_SUB_ACCOUNT as int;
    lemma_fundamental_div_mod(flat(i, l), v); lemma_mod_bound(flat(i, l), v);
}
/// no two nodes share a slot
pub proof fn lemma_distinct(i: int, l: int, j: int, m: int) requires node_ok(i, l), node_ok(j, m), !(i == j && l == m)
    ensures flat(i, l) != flat(j, m), acc_of(i, l) != acc_of(j, m) || off_of(i, l) + 32 <= off_of(j, m) || off_of(j, m) + 32 <= off_of(i, l)
{
    lemma_slot(i, l); lemma_slot(j, m);
    if l < m { lemma_pow2_unfold((l + 1) as nat); if l + 1 < m { lemma_pow2_strictly_increases((l + 1) as nat, m as nat); } }
    if m < l { lemma_pow2_unfold((m + 1) as nat); if m + 1 < l { lemma_pow2_strictly_increases((m + 1) as nat, l as nat); } }
    assert(flat(i, l) != flat(j, m));
    let v = VALUES_PER_STORAGE_SUB_ACCOUNT as int;
    lemma_fundamental_div_mod(flat(i, l), v); lemma_fundamental_div_mod(flat(j, m), v);
}
//@fn elusiv/src/state/storage.rs mt_array_index
//@props M02
//@rw two_pow!\( => two_pow_fn(
//@ret r
//@spec
    requires level <= MT_HEIGHT
    ensures index < pow2(level as nat), r == flat(index as int, level as int), r < MT_SIZE
//@top
    proof { lemma2_to64(); if level < MT_HEIGHT { lemma_pow2_strictly_increases(level as nat, MT_HEIGHT as nat); } }
//@end
//@fn elusiv/src/state/storage.rs use_default_value
//@props M02
//@ret r
//@spec
    requires level <= MT_HEIGHT
    ensures r == !(index * pow2((MT_HEIGHT - level) as nat) < next_leaf_ptr)
//@top
    proof {
        let k = (MT_HEIGHT - level) as nat;
        lemma2_to64(); lemma_pow2_pos(k);
        if k < MT_HEIGHT { lemma_pow2_strictly_increases(k, MT_HEIGHT as nat); }
        if next_leaf_ptr > 0 {
            let x = (next_leaf_ptr - 1) as usize; let d = pow2(k) as int;
            vstd::bits::lemma_usize_shr_is_div(x, k as usize);
            lemma_fundamental_div_mod(x as int, d); lemma_mod_bound(x as int, d);
            let q = x as int / d;
            assert(index > q ==> index * d >= (q + 1) * d) by(nonlinear_arith) requires d > 0;
            assert(index <= q ==> index * d <= q * d) by(nonlinear_arith) requires d > 0;
            assert((q + 1) * d == d * q + d) by(nonlinear_arith);
            assert(q * d == d * q) by(nonlinear_arith);
        } else { assert(index * pow2(k) >= 0) by(nonlinear_arith); }
    }
//@end
impl StorageAccount {
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" account_and_local_index
//@props M02
//@ret r
//@spec
    ensures r.0 == index as int / (VALUES_PER_STORAGE_SUB_ACCOUNT as int), r.1 == index as int % (VALUES_PER_STORAGE_SUB_ACCOUNT as int)
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" get_node
//@props M02
//@rw EMPTY_TREE\[(.*?)\]\s*\) => empty_tree_at(\1))
//@rw self\.execute_on_child_account\((\w+), \|data\| \{\s*U256::try_from_slice\(\s*&data\[([^\[\]]*?)\.\.([^\[\]]*?)\],?\s*\)\s*\}\) => self.child_read(\1, \2, \3)
//@ret r
//@spec
    requires swf(self)
    ensures level <= MT_HEIGHT,
        r is Ok ==> r->Ok_0@ == node_val(self, index as int, level as int),
        !has_leaf(self, index as int, level as int) ==> r is Ok,
        has_leaf(self, index as int, level as int) ==> node_ok(index as int, level as int) && (r is Ok <==> present(self, index as int, level as int)),
//@before let \(account_index, local_index\)
    proof { if node_ok(index as int, level as int) { lemma_slot(index as int, level as int); } }
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" set_node
//@props M02
//@rw self\.execute_on_child_account_mut\((\w+), \|data\| \{\s*let mut slice = &mut data\[([^\[\]]*?)\.\.([^\[\]]*?)\];\s*BorshSerialize::serialize\((\w+), &mut slice\)\s*\}\) => self.child_write(\1, \2, \3, \4)
//@ret r
//@spec
    requires swf(old(self))
    ensures node_ok(index as int, level as int),
        r is Ok <==> present(old(self), index as int, level as int),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> swf(final(self)) && *final(self) == (StorageAccount { children: final(self).children, ..*old(self) })
            && stored(final(self), index as int, level as int) == value@
            && (forall|i: int| 0 <= i < ACCOUNTS_COUNT ==> (#[trigger] final(self).children@[i] is Some <==> old(self).children@[i] is Some))
            && forall|j: int, m: int| node_ok(j, m) && !(j == index && m == level) ==> #[trigger] stored(final(self), j, m) == stored(old(self), j, m)
//@top
    let ghost s0 = *self;
//@before self\.child_write
    proof { lemma_slot(index as int, level as int); }
//@before Ok\(\(\)\)\s*$
    proof {
        let i = index as int; let l = level as int;
        assert(stored(self, i, l) =~= value@);
        assert forall|j: int, m: int| node_ok(j, m) && !(j == index && m == level) implies #[trigger] stored(self, j, m) == stored(&s0, j, m) by {
            lemma_slot(j, m); lemma_distinct(i, l, j, m);
            assert(stored(self, j, m) =~= stored(&s0, j, m));
        }
    }
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" get_root
//@props M02 M04
//@ret r
//@spec
    requires swf(self)
    ensures r is Ok ==> r->Ok_0@ == node_val(self, 0, 0), r is Err <==> has_leaf(self, 0, 0) && !present(self, 0, 0)
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" is_root_valid
//@props M04
//@rw \bmin\( => cmp_min(
//@rw \*root == current_root => root.eqv(&current_root)
//@rw &self\.active_mt_root_history\[\s*\.\.([^\]]*)\] => prefix(&self.active_mt_root_history, \1)
//@ret r
//@spec
    requires swf(self)
    ensures
        !has_leaf(self, 0, 0) || present(self, 0, 0) ==> r == (root@ == node_val(self, 0, 0)),
        has_leaf(self, 0, 0) && !present(self, 0, 0) ==> r == exists|k: int| 0 <= k < (if self.mt_roots_count < HISTORY_ARRAY_SIZE { self.mt_roots_count as int } else { HISTORY_ARRAY_SIZE as int }) && #[trigger] win(self.active_mt_root_history@, k, 32) == root@
//@top
    proof {
        let n = if self.mt_roots_count < HISTORY_ARRAY_SIZE { self.mt_roots_count as int } else { HISTORY_ARRAY_SIZE as int };
        lemma_pre(self.active_mt_root_history@, n, HISTORY_ARRAY_SIZE as int, 32);
        assert forall|a: U256, b: U256| a@ == b@ implies a == b by { assert(a =~= b); }
    }
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" is_full
//@props G04
//@ret r
//@spec
    ensures r == (self.next_commitment_ptr >= pow2(MT_HEIGHT as nat))
//@top
    proof { lemma2_to64(); }
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" reset
//@props G04 M04
//@desugar 1
//@spec
    requires swf(old(self))
    ensures swf(final(self)), final(self).next_commitment_ptr == 0, final(self).mt_roots_count == 0,
        final(self).trees_count == old(self).trees_count, final(self).archived_count == old(self).archived_count, final(self).children == old(self).children,
        forall|i: int| 0 <= i < HISTORY_ARRAY_SIZE * 32 ==> #[trigger] final(self).active_mt_root_history@[i] == 0
//@loop 1
    invariant
        i_next <= i_end, i_end == self.active_mt_root_history@.len(), swf(self), self.next_commitment_ptr == 0, self.mt_roots_count == 0,
        self.trees_count == s0.trees_count, self.archived_count == s0.archived_count, self.children == s0.children,
        forall|j: int| 0 <= j < i_next ==> #[trigger] self.active_mt_root_history@[j] == 0,
    decreases i_end - i_next
//@top
    let ghost s0 = *self;
//@end
//@fn elusiv/src/state/storage.rs in "impl<'a, 'b, 't> StorageAccount" get_mt_opening
//@props M02
//@desugar 1
//@ret r
//@spec
    requires swf(self), index <= pow2(MT_HEIGHT as nat)
    ensures r is Ok ==> forall|k: int| 0 <= k < MT_HEIGHT ==> #[trigger] r->Ok_0[k]@ == node_val(self, sib(index as int / (pow2(k as nat) as int)), MT_HEIGHT - k)
//@top
    let ghost index0 = index as int;
    proof { lemma2_to64(); lemma_div_basics(index0); }
//@loop 1
    invariant
        i_end == MT_HEIGHT, 0 <= i_next <= MT_HEIGHT, swf(self), index == index0 / (pow2(i_next as nat) as int), 0 <= index0 <= 0x100000,
        forall|k: int| 0 <= k < i_next ==> #[trigger] opening[k]@ == node_val(self, sib(index0 / (pow2(k as nat) as int)), MT_HEIGHT - k),
    decreases i_end - i_next
//@looptop 1
    proof {
        lemma_pow2_pos(i as nat); lemma_pow2_unfold((i + 1) as nat);
        lemma_div_denominator(index0, pow2(i as nat) as int, 2);
        assert(pow2(i as nat) * 2 == pow2((i + 1) as nat));
        let ix = index;
        assert(ix >> 1usize == ix / 2) by(bit_vector);
        assert(0 <= index0 / (pow2(i as nat) as int) <= index0) by(nonlinear_arith) requires pow2(i as nat) >= 1, index0 >= 0;
    }
//@end
}
pub open spec fn sib(i: int) -> int { if i % 2 == 0 { i + 1 } else { i - 1 } }
