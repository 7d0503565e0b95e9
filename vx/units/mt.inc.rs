/// first slot in the hash tree of the batch's nodes f levels above the leaves
pub open spec fn hbase(r: nat, f: int) -> int { 2 * pow2(r) - 2 * pow2((r - f) as nat) }
/// nodes written by finalization step f
pub open spec fn wnode(a: &CommitmentHashingAccount, f: int, j: int, m: int) -> bool {
    let r = rt(a);
    (m == MT_H - f && a.ordering as int / (pow2(f as nat) as int) <= j < a.ordering as int / (pow2(f as nat) as int) + pow2((r - f) as nat))
    || (f == r && 0 <= m < MT_H - r && j == a.ordering as int / (pow2((MT_H - m) as nat) as int))
}
pub open spec fn same_children(s: &StorageAccount, t: &StorageAccount) -> bool { forall|i: int| 0 <= i < ACCOUNTS_COUNT ==> (#[trigger] t.children@[i] is Some <==> s.children@[i] is Some) }
/// effect of finalization step f on the tree: exactly the batch's nodes of level f (and, in the last step, the path to the root)
pub open spec fn upd(a: &CommitmentHashingAccount, s: &StorageAccount, t: &StorageAccount, f: int) -> bool {
    let r = rt(a); let ord = a.ordering as int;
    &&& swf(t) &&& same_children(s, t)
    &&& *t == (StorageAccount { children: t.children, next_commitment_ptr: t.next_commitment_ptr, mt_roots_count: t.mt_roots_count, active_mt_root_history: t.active_mt_root_history, ..*s })
    &&& forall|i: int| 0 <= i < pow2((r - f) as nat) ==> stored(t, ord / (pow2(f as nat) as int) + i, MT_H - f) == (#[trigger] a.hash_tree[hbase(r, f) + i])@
    &&& (f == r ==> forall|i: int| 0 <= i < MT_H - r ==> stored(t, ord / (pow2((r + i + 1) as nat) as int), MT_H - r - i - 1) == (#[trigger] a.above_hashes[i])@)
    &&& forall|j: int, m: int| node_ok(j, m) && !wnode(a, f, j, m) ==> #[trigger] stored(t, j, m) == stored(s, j, m)
    &&& (f < r ==> t.next_commitment_ptr == s.next_commitment_ptr && t.mt_roots_count == s.mt_roots_count && t.active_mt_root_history == s.active_mt_root_history)
    &&& (f == r ==> t.next_commitment_ptr == ord + pow2(r) && t.mt_roots_count == s.mt_roots_count + 1
        && win(t.active_mt_root_history@, s.mt_roots_count as int % (HISTORY_ARRAY_SIZE as int), 32) == node_val(t, 0, 0)
        && forall|k: int| 0 <= k < HISTORY_ARRAY_SIZE && k != s.mt_roots_count as int % (HISTORY_ARRAY_SIZE as int) ==> #[trigger] win(t.active_mt_root_history@, k, 32) == win(s.active_mt_root_history@, k, 32))
}
impl StorageAccount {
    #[verifier::external_body] pub fn set_active_mt_root_history(&mut self, i: usize, v: &U256)
        requires swf(old(self))
        ensures i < HISTORY_ARRAY_SIZE, *final(self) == (StorageAccount { active_mt_root_history: final(self).active_mt_root_history, ..*old(self) }),
            final(self).active_mt_root_history@.len() == old(self).active_mt_root_history@.len(),
            win(final(self).active_mt_root_history@, i as int, 32) == v@,
            forall|k: int| 0 <= k < HISTORY_ARRAY_SIZE && k != i ==> #[trigger] win(final(self).active_mt_root_history@, k, 32) == win(old(self).active_mt_root_history@, k, 32) { unimplemented!() }
}
pub proof fn lemma_split(x: int, k: nat, y: nat) requires x >= 0 ensures x / (pow2(k + y) as int) == (x / (pow2(k) as int)) / (pow2(y) as int), pow2(k + y) == pow2(k) * pow2(y)
{ lemma_pow2_pos(k); lemma_pow2_pos(y); lemma_pow2_adds(k, y); lemma_div_denominator(x, pow2(k) as int, pow2(y) as int); }
impl CommitmentHashingAccount {
//@fn elusiv/src/state/commitment.rs in "impl<'a> CommitmentHashingAccount" update_mt
//@props M01 M04
//@rw two_pow!\( => two_pow_fn(
//@rw \bMT_HEIGHT\b => MT_H
//@desugar 1
//@desugar 2
//@desugar 3
//@spec
    requires swf(old(storage_account)), self.batching_rate <= 20, finalization_ix <= self.batching_rate, self.ordering + pow2(rt(self)) <= pow2(20),
        old(storage_account).mt_roots_count < u32::MAX
    ensures upd(self, old(storage_account), final(storage_account), finalization_ix as int)
//@top
    let ghost s0 = *storage_account; let ghost mut sd = s0;
    let ghost r = rt(self); let ghost f = finalization_ix as int; let ghost ord0 = self.ordering as int;
    proof { lemma_rate(r); lemma_rate((r - f) as nat); lemma_rate(f as nat); assert(pow2(0) == 1) by { lemma2_to64(); } }
//@loop 1
    invariant
        i_lo == ht_level + 1, i_lo <= i_next <= batching_rate + 1, batching_rate == r <= 20, nodes_below == 2 * pow2(r) - pow2(i_next as nat), pow2(i_next as nat) >= 1, 1 <= pow2(r) <= 0x100000,
    decreases i_next
//@looptop 1
    proof { lemma_rate(i as nat); }
//@before let mt_level
    proof {
        assert(nodes_below == hbase(r, f));
        lemma_shr(self.ordering, f as nat);
    }
//@loop 2
    invariant
        batching_rate == self.batching_rate, batching_rate <= 20, r == batching_rate, f == finalization_ix <= r, i_end == ht_level_size, ht_level_size == pow2((r - f) as nat), i_next <= i_end, mt_level == MT_H - f, nodes_below == hbase(r, f), ordering == ord0 / (pow2(f as nat) as int), ord0 == self.ordering,
        ht_level_size <= 0x100000, nodes_below <= 0x200000, ord0 <= 0x100000, ordering <= ord0,
        swf(storage_account), same_children(&s0, storage_account), *storage_account == (StorageAccount { children: storage_account.children, ..s0 }),
        forall|k: int| 0 <= k < i_next ==> stored(storage_account, ordering + k, mt_level as int) == (#[trigger] self.hash_tree[nodes_below + k])@,
        forall|j: int| ordering <= j < ordering + i_next ==> #[trigger] node_ok(j, mt_level as int),
        forall|j: int, m: int| node_ok(j, m) && !(m == mt_level && ordering <= j < ordering + i_next) ==> #[trigger] stored(storage_account, j, m) == stored(&s0, j, m),
    decreases i_end - i_next
//@beforeloop 2
    proof {
        lemma_pow2_pos(f as nat);
        assert(ord0 / (pow2(f as nat) as int) <= ord0) by(nonlinear_arith) requires ord0 >= 0, pow2(f as nat) >= 1;
    }
//@looptop 2
    let ghost sb = *storage_account;
//@loopend 2
    proof {
        assert forall|k: int| 0 <= k < i_next implies stored(storage_account, ordering + k, mt_level as int) == (#[trigger] self.hash_tree[nodes_below + k])@ by {
            if k < i { assert(stored(&sb, ordering + k, mt_level as int) == self.hash_tree[nodes_below + k]@); assert(node_ok(ordering + k, mt_level as int)); }
        }
    }
//@loop 3
    invariant
        batching_rate == self.batching_rate, batching_rate <= 20, r == batching_rate, f == finalization_ix == r, i_end == MT_H - r, i_next <= i_end, ord0 == self.ordering, ordering == ord0,
        swf(storage_account), same_children(&s0, storage_account), *storage_account == (StorageAccount { children: storage_account.children, ..s0 }),
        stored(storage_account, ord0 / (pow2(r) as int), MT_H - r) == self.hash_tree[hbase(r, f)]@, node_ok(ord0 / (pow2(r) as int), MT_H - r),
        forall|k: int| 0 <= k < i_next ==> stored(storage_account, ord0 / (pow2((r + k + 1) as nat) as int), MT_H - r - k - 1) == (#[trigger] self.above_hashes[k])@,
        forall|k: int| 0 <= k < i_next ==> node_ok(#[trigger] (ord0 / (pow2((r + k + 1) as nat) as int)), MT_H - r - k - 1),
        forall|j: int, m: int| node_ok(j, m) && !(m == MT_H - r && j == ord0 / (pow2(r) as int)) && !(MT_H - r - i_next <= m < MT_H - r && j == ord0 / (pow2((MT_H - m) as nat) as int)) ==> #[trigger] stored(storage_account, j, m) == stored(&s0, j, m),
    decreases i_end - i_next
//@beforeloop 3
    proof { assert(self.hash_tree[hbase(r, f) + 0] == self.hash_tree[hbase(r, f)]); assert(stored(storage_account, ord0 / (pow2(r) as int) + 0, MT_H - r) == self.hash_tree[hbase(r, f) + 0]@); assert(node_ok(ord0 / (pow2(r) as int) + 0, MT_H - r)); }
//@looptop 3
    let ghost sc = *storage_account;
    proof {
        lemma_shr(self.ordering, (r + i + 1) as nat);
        let o = self.ordering; let k = (r + i + 1) as u32; let ku = k as usize; let ou = o as usize;
        assert(ou >> ku == (o >> ku) as usize) by(bit_vector) requires ou == o as usize, ku < 32;
    }
//@loopend 3
    proof {
        assert forall|k: int| 0 <= k < i_next implies stored(storage_account, ord0 / (pow2((r + k + 1) as nat) as int), MT_H - r - k - 1) == (#[trigger] self.above_hashes[k])@ by {
            if k < i { assert(stored(&sc, ord0 / (pow2((r + k + 1) as nat) as int), MT_H - r - k - 1) == self.above_hashes[k]@); assert(node_ok(ord0 / (pow2((r + k + 1) as nat) as int), MT_H - r - k - 1)); }
        }
    }
//@afterloop 3
    proof { sd = *storage_account; }
//@bottom
    proof {
        if f == r {
            assert forall|j: int, m: int| stored(storage_account, j, m) == stored(&sd, j, m) by {}
            assert forall|i: int| 0 <= i < pow2((r - f) as nat) implies stored(storage_account, ord0 / (pow2(f as nat) as int) + i, MT_H - f) == (#[trigger] self.hash_tree[hbase(r, f) + i])@ by { assert(i == 0); }
            assert forall|i: int| 0 <= i < MT_H - r implies stored(storage_account, ord0 / (pow2((r + i + 1) as nat) as int), MT_H - r - i - 1) == (#[trigger] self.above_hashes[i])@ by {}
            assert(has_leaf(storage_account, 0, 0)) by { assert(0 * pow2(20) == 0) by(nonlinear_arith); }
            assert forall|j: int, m: int| node_ok(j, m) && !wnode(self, f, j, m) implies #[trigger] stored(storage_account, j, m) == stored(&s0, j, m) by { assert((r - f) as nat == 0); assert(pow2((r - f) as nat) == 1); assert(stored(&sd, j, m) == stored(&s0, j, m)); }
            assert(same_children(&s0, storage_account));
        }
    }
//@end
}
