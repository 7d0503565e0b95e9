pub open spec fn rt(a: &CommitmentHashingAccount) -> nat { a.batching_rate as nat }
/// number of hashes below and including the root of the batch's subtree
pub open spec fn st(r: nat) -> int { pow2(r) - 1 }
pub open spec fn hcount(r: nat) -> int { pow2(r) - 1 + MT_H - r }
/// operands of the h-th hash: children in the subtree of the batch first, then the path to the root with its siblings
pub open spec fn lhs(a: &CommitmentHashingAccount, h: int) -> U256 {
    if h < st(rt(a)) { a.hash_tree[2 * h] } else if h == st(rt(a)) { a.hash_tree[pow2(rt(a) + 1) - 2] } else { a.above_hashes[h - st(rt(a)) - 1] }
}
pub open spec fn rhs(a: &CommitmentHashingAccount, h: int) -> U256 { if h < st(rt(a)) { a.hash_tree[2 * h + 1] } else { a.siblings[rt(a) + h - st(rt(a))] } }
pub open spec fn swapped(a: &CommitmentHashingAccount, h: int) -> bool { h >= st(rt(a)) && (a.ordering as int / (pow2((rt(a) + h - st(rt(a))) as nat) as int)) % 2 == 1 }
pub open spec fn start(a: &CommitmentHashingAccount, h: int) -> BinarySpongeHashingState { hstate(fr_of(lhs(a, h)), fr_of(rhs(a, h)), swapped(a, h)) }
pub open spec fn out(a: &CommitmentHashingAccount, h: int) -> U256 { if h < st(rt(a)) { a.hash_tree[pow2(rt(a)) + h] } else { a.above_hashes[h - st(rt(a))] } }
pub open spec fn done(a: &CommitmentHashingAccount, h: int) -> bool { out(a, h) == u_of(rounds_of(TOTAL_POSEIDON_ROUNDS as nat, start(a, h)).0[0]) }
pub proof fn lemma_rate(r: nat) requires r <= 20 ensures 1 <= pow2(r) <= 0x100000, pow2(r + 1) == 2 * pow2(r), pow2(20) == 0x100000
{ lemma2_to64(); lemma_pow2_pos(r); lemma_pow2_unfold((r + 1) as nat); if r < 20 { lemma_pow2_strictly_increases(r, 20); } }
pub proof fn lemma_shr(x: u32, k: nat) requires k < 32 ensures x >> (k as usize) == x as int / (pow2(k) as int), x >> (k as u32) == x as int / (pow2(k) as int)
{ let a = k as u32; let b = k as usize; assert(x >> a == x >> b) by(bit_vector) requires a == b as u32, b < 32, a < 32; vstd::bits::lemma_u32_shr_is_div(x, a); }
pub uninterp spec fn ctable(r: nat) -> Seq<u8>;
pub open spec fn psum(t: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(t, n - 1) + t[n - 1] } }
//@note the schedules generated by elusiv_hash_compute_units and their accessors: the steps add up to 65 rounds per hash (proved of the tables in unit tables)
#[verifier::external_body] pub proof fn table_ok(r: nat) requires r <= MAX_COMMITMENT_BATCHING_RATE ensures psum(ctable(r), ctable(r).len() as int) == hcount(r) * (TOTAL_POSEIDON_ROUNDS as int), ctable(r).len() < 0x1000 {}
#[verifier::external_body] pub fn commitment_hash_computation_instructions(batching_rate: u32) -> (r: Vec<u8>) ensures batching_rate <= MAX_COMMITMENT_BATCHING_RATE, r@ == ctable(batching_rate as nat) { unimplemented!() }
#[verifier::external_body] pub fn commitment_hash_computation_rounds(batching_rate: u32) -> (r: u32) ensures batching_rate <= MAX_COMMITMENT_BATCHING_RATE, r == hcount(batching_rate as nat) * (TOTAL_POSEIDON_ROUNDS as int) { unimplemented!() }
pub proof fn lemma_psum(t: Seq<u8>, i: int, n: int) requires 0 <= i <= n ensures 0 <= psum(t, i) <= psum(t, n), psum(t, n) <= 255 * n decreases n { if i < n { lemma_psum(t, i, n - 1); } else if n > 0 { lemma_psum(t, n - 1, n - 1); } }
/// progress invariant of an active computation: it is at the recorded round, every earlier hash is finished and stored, and the state is the partially hashed next one
pub open spec fn progress(a: &CommitmentHashingAccount) -> bool {
    let r = rt(a);
    &&& a.instruction <= ctable(r).len() && a.round == psum(ctable(r), a.instruction as int)
    &&& forall|h: int| 0 <= h < a.round as int / 65 ==> #[trigger] done(a, h)
    &&& (a.round < hcount(r) * 65 ==> a.state == rounds_of((a.round % 65) as nat, start(a, a.round as int / 65)))
}
pub open spec fn ainv(a: &CommitmentHashingAccount) -> bool {
    &&& a.batching_rate <= 20
    &&& (a.is_active && a.batching_rate <= MAX_COMMITMENT_BATCHING_RATE ==> progress(a))
    &&& (!a.is_active && a.setup ==> a.instruction == 0 && a.round == 0 && a.finalization_ix == 0)
}
//@fn elusiv/src/commitment/mod.rs hash_count_per_batch
//@props H01
//@rw two_pow!\( => two_pow_fn(
//@rw \bMT_HEIGHT\b => MT_H
//@ret r
//@spec
    requires batching_rate <= 20
    ensures r == hcount(batching_rate as nat)
//@top
    proof { lemma_rate(batching_rate as nat); }
//@end
impl CommitmentHashingAccount {
//@fn elusiv/src/state/commitment.rs in "impl<'a> CommitmentHashingAccount" setup
//@props M01 Q03
//@rw for \(i, sibling\) in siblings\.iter\(\)\.enumerate\(\) \{ => for i in 0..siblings.len() { let sibling = &siblings[i];
//@desugar 1
//@ret r
//@spec
    ensures r is Ok <==> !old(self).is_active,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> siblings@.len() <= MT_H && final(self).setup && final(self).instruction == 0 && final(self).round == 0 && final(self).ordering == ordering && final(self).finalization_ix == 0
            && (forall|k: int| 0 <= k < siblings@.len() ==> #[trigger] final(self).siblings[k] == siblings@[k])
            && *final(self) == (CommitmentHashingAccount { setup: true, instruction: 0, round: 0, ordering: ordering, finalization_ix: 0, siblings: final(self).siblings, ..*old(self) })
//@loop 1
    invariant
        i_end == siblings@.len(), i_next <= i_end, i_next <= MT_H,
        forall|k: int| 0 <= k < i_next ==> #[trigger] self.siblings[k] == siblings@[k],
        *self == (CommitmentHashingAccount { setup: true, instruction: 0, round: 0, ordering: ordering, finalization_ix: 0, siblings: self.siblings, ..*old(self) }),
    decreases i_end - i_next
//@end
//@fn elusiv/src/state/commitment.rs in "impl<'a> CommitmentHashingAccount" restart
//@props M01
//@rw self\.set_state\(&self\.next_hashing_state\(0\)\) => let first_state = self.next_hashing_state(0); self.set_state(&first_state)
//@ret r
//@spec
    requires old(self).batching_rate <= 20
    ensures r is Ok <==> old(self).is_active,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).is_active && final(self).setup && final(self).instruction == 0 && final(self).round == 0 && final(self).ordering == ordering && final(self).finalization_ix == 0
            && (forall|k: int| 0 <= k < siblings@.len() ==> #[trigger] final(self).siblings[k] == siblings@[k])
            && final(self).state == start(final(self), 0)
            && *final(self) == (CommitmentHashingAccount { setup: true, instruction: 0, round: 0, ordering: ordering, finalization_ix: 0, siblings: final(self).siblings, state: final(self).state, ..*old(self) })
//@top
    proof { lemma_rate(self.batching_rate as nat); }
//@bottom
//@end
//@fn elusiv/src/state/commitment.rs in "impl<'a> CommitmentHashingAccount" reset
//@props Q03
//@rw for \(i, commitment\) in commitments\.iter\(\)\.enumerate\(\) \{ => for i in 0..commitments.len() { let commitment = &commitments[i];
//@rw self\.set_state\(&self\.next_hashing_state\(0\)\) => let first_state = self.next_hashing_state(0); self.set_state(&first_state)
//@desugar 1
//@ret r
//@spec
    requires batching_rate <= 20
    ensures r is Ok <==> !old(self).is_active && old(self).setup,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).is_active && final(self).batching_rate == batching_rate && final(self).fee_version == fee_version
            && (forall|k: int| 0 <= k < commitments@.len() ==> #[trigger] final(self).hash_tree[k] == commitments@[k])
            && final(self).state == start(final(self), 0)
            && *final(self) == (CommitmentHashingAccount { is_active: true, batching_rate: batching_rate, fee_version: fee_version, hash_tree: final(self).hash_tree, state: final(self).state, ..*old(self) })
//@loop 1
    invariant
        i_end == commitments@.len(), i_next <= i_end, i_end <= MAX_HT_SIZE,
        forall|k: int| 0 <= k < i_next ==> #[trigger] self.hash_tree[k] == commitments@[k],
        *self == (CommitmentHashingAccount { is_active: true, batching_rate: batching_rate, fee_version: fee_version, hash_tree: self.hash_tree, ..*old(self) }),
    decreases i_end - i_next
//@afterloop 1
    proof { lemma_rate(batching_rate as nat); }
//@end
//@fn elusiv/src/state/commitment.rs in "impl<'a> CommitmentHashingAccount" next_hashing_state
//@props M01 H01
//@rw two_pow!\( => two_pow_fn(
//@desugar 1
//@ret s
//@spec
    requires self.batching_rate <= 20, hash_index < hcount(rt(self))
    ensures s == start(self, hash_index as int)
//@top
    proof { lemma_rate(rt(self)); }
//@loop 1
    invariant
        batching_rate == self.batching_rate, batching_rate <= 20, ht_layer_lo == 0, ht_layer_next <= batching_rate, commitment_count == pow2(rt(self)), 1 <= pow2(rt(self)) <= 0x100000,
        nodes_below == pow2(rt(self)) - pow2(ht_layer_next as nat), nodes_below <= hash_index < st(rt(self)), sub_tree_size == st(rt(self)),
    decreases ht_layer_next
//@looptop 1
    proof { lemma_rate(ht_layer as nat); }
//@before let ordering = self\.get_ordering\(\) >> batching_rate
    proof { lemma_shr(self.ordering, rt(self)); let o = self.ordering >> self.batching_rate; assert(o & 1 == o % 2) by(bit_vector); assert(o & 1 == 1 <==> o % 2 == 1); }
//@before let ordering = self\.get_ordering\(\) >> \(index
    proof { lemma_shr(self.ordering, (index + batching_rate) as nat); let o = self.ordering >> ((index + batching_rate) as usize); assert(o & 1 == o % 2) by(bit_vector); }
//@end
//@fn elusiv/src/state/commitment.rs in "impl<'a> CommitmentHashingAccount" save_finished_hash
//@props M01 H01
//@rw two_pow!\( => two_pow_fn(
//@spec
    requires old(self).batching_rate <= 20, hash_index < hcount(rt(old(self)))
    ensures out(final(self), hash_index as int) == u_of(state.0[0]),
        *final(self) == (CommitmentHashingAccount { hash_tree: final(self).hash_tree, above_hashes: final(self).above_hashes, ..*old(self) }),
        hash_index < st(rt(old(self))) ==> final(self).above_hashes == old(self).above_hashes && final(self).hash_tree@ == old(self).hash_tree@.update(pow2(rt(old(self))) + hash_index, u_of(state.0[0])) && pow2(rt(old(self))) + hash_index < MAX_HT_SIZE,
        hash_index >= st(rt(old(self))) ==> final(self).hash_tree == old(self).hash_tree && final(self).above_hashes@ == old(self).above_hashes@.update(hash_index - st(rt(old(self))), u_of(state.0[0])),
//@top
    proof { lemma_rate(rt(self)); }
//@end
}
/// finishing hash h leaves the operands of all hashes up to h+1 .. untouched, and so the finished ones
pub proof fn lemma_save(a: &CommitmentHashingAccount, b: &CommitmentHashingAccount, h: int, v: U256)
    requires a.batching_rate <= MAX_COMMITMENT_BATCHING_RATE, 0 <= h < hcount(rt(a)),
        *b == (CommitmentHashingAccount { hash_tree: b.hash_tree, above_hashes: b.above_hashes, ..*a }),
        h < st(rt(a)) ==> b.above_hashes == a.above_hashes && b.hash_tree@ == a.hash_tree@.update(pow2(rt(a)) + h, v),
        h >= st(rt(a)) ==> b.hash_tree == a.hash_tree && b.above_hashes@ == a.above_hashes@.update(h - st(rt(a)), v),
    ensures start(b, h) == start(a, h), forall|g: int| 0 <= g < h && done(a, g) ==> #[trigger] done(b, g)
{
    lemma_rate(rt(a));
    let n = pow2(rt(a)) as int;
    assert forall|g: int| 0 <= g <= h implies #[trigger] start(b, g) == start(a, g) by {
        if g < st(rt(a)) { assert(2 * g + 1 < n + h); assert(n + h < MAX_HT_SIZE || h >= st(rt(a)) || true); 
            assert(b.hash_tree@[2 * g] == a.hash_tree@[2 * g]); assert(b.hash_tree@[2 * g + 1] == a.hash_tree@[2 * g + 1]); }
        else { assert(h >= st(rt(a))); if g > st(rt(a)) { assert(b.above_hashes@[g - st(rt(a)) - 1] == a.above_hashes@[g - st(rt(a)) - 1]); } }
    }
    assert forall|g: int| 0 <= g < h && done(a, g) implies #[trigger] done(b, g) by {
        assert(start(b, g) == start(a, g));
        assert(out(b, g) == out(a, g)) by {
            if g < st(rt(a)) { assert(b.hash_tree@[n + g] == a.hash_tree@[n + g]); } else { assert(b.above_hashes@[g - st(rt(a))] == a.above_hashes@[g - st(rt(a))]); }
        }
    }
}
pub proof fn lemma_round_div(x: int) requires x >= 0
    ensures x % 65 < 64 ==> (x + 1) / 65 == x / 65 && (x + 1) % 65 == x % 65 + 1, x % 65 == 64 ==> (x + 1) / 65 == x / 65 + 1 && (x + 1) % 65 == 0
{}
//@fn elusiv/src/commitment/mod.rs compute_commitment_hash_partial
//@props H01 M01
//@desugar 1
//@ret r
//@spec
    requires ainv(old(hashing_account)), old(hashing_account).is_active
    ensures
        r is Err ==> *final(hashing_account) == *old(hashing_account),
        r is Ok ==> ainv(final(hashing_account)) && old(hashing_account).batching_rate <= MAX_COMMITMENT_BATCHING_RATE
            && old(hashing_account).instruction < ctable(rt(old(hashing_account))).len()
            && final(hashing_account).instruction == old(hashing_account).instruction + 1
            && *final(hashing_account) == (CommitmentHashingAccount { instruction: final(hashing_account).instruction, round: final(hashing_account).round, state: final(hashing_account).state, hash_tree: final(hashing_account).hash_tree, above_hashes: final(hashing_account).above_hashes, ..*old(hashing_account) })
            && (forall|i: int| 0 <= i < pow2(rt(old(hashing_account))) ==> #[trigger] final(hashing_account).hash_tree[i] == old(hashing_account).hash_tree[i]),
        old(hashing_account).batching_rate <= MAX_COMMITMENT_BATCHING_RATE ==> (r is Err <==> old(hashing_account).instruction >= ctable(rt(old(hashing_account))).len()),
//@top
    let ghost a0 = *hashing_account;
    let ghost rr = rt(hashing_account);
    proof {
        lemma_rate(rr);
        if rr <= MAX_COMMITMENT_BATCHING_RATE {
            table_ok(rr);
            let n = ctable(rr).len() as int;
            lemma_psum(ctable(rr), a0.instruction as int, n);
            if a0.instruction < n { lemma_psum(ctable(rr), a0.instruction + 1, n); }
        }
    }
//@loop 1
    invariant
        rr == rt(&a0), rr <= MAX_COMMITMENT_BATCHING_RATE, 1 <= pow2(rr) <= 0x100000, batching_rate == rr, round_end == start_round + rounds, start_round <= round_next <= round_end,
        round_end <= hcount(rr) * 65, hcount(rr) <= 0x100014, instruction == a0.instruction, start_round == a0.round,
        al == *hashing_account, *hashing_account == (CommitmentHashingAccount { hash_tree: hashing_account.hash_tree, above_hashes: hashing_account.above_hashes, ..a0 }),
        forall|h: int| 0 <= h < round_next as int / 65 ==> #[trigger] done(hashing_account, h),
        round_next < hcount(rr) * 65 ==> state == rounds_of((round_next % 65) as nat, start(hashing_account, round_next as int / 65)),
        forall|i: int| 0 <= i < pow2(rr) ==> #[trigger] hashing_account.hash_tree[i] == a0.hash_tree[i],
    decreases round_end - round_next
//@looptop 1
    let ghost ab = *hashing_account;
    proof { lemma_round_div(round as int); lemma_rate(rr); }
    let ghost s0 = state;
//@before if round % TOTAL
    assert(state == rounds_of((round % 65 + 1) as nat, start(hashing_account, round as int / 65)));
//@after hashing_account\.save_finished_hash\(hash_index as usize, &state\);
    proof {
        lemma_save(&ab, hashing_account, hash_index as int, u_of(state.0[0]));
        assert(done(hashing_account, hash_index as int));
    }
//@beforeloop 1
    let ghost mut al = *hashing_account;
//@loopend 1
    proof { al = *hashing_account; }
//@before Ok\(\(\)\)\s*$
    proof {
        assert forall|h: int| start(hashing_account, h) == start(&al, h) by {}
        assert forall|h: int| 0 <= h < hashing_account.round as int / 65 implies #[trigger] done(hashing_account, h) by { assert(done(&al, h)); }
        assert(psum(ctable(rr), instruction as int + 1) == start_round + rounds);
        assert(progress(hashing_account));
    }
//@end
