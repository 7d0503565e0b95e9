pub open spec fn all_done(a: &CommitmentHashingAccount) -> bool { forall|h: int| 0 <= h < hcount(rt(a)) ==> #[trigger] done(a, h) }
pub open spec fn step_ok(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>, f: int) -> bool { upd(a, &ss[f], &ss[f + 1], f) }
/// the whole finalization of a batch: all its steps, in order, on the tree
pub open spec fn finalized(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>) -> bool {
    let r = rt(a);
    &&& r <= MAX_COMMITMENT_BATCHING_RATE &&& all_done(a) &&& a.ordering as int % (pow2(r) as int) == 0 &&& a.ordering + pow2(r) <= pow2(20)
    &&& ss.len() == r + 2 &&& (forall|f: int| 0 <= f <= r ==> #[trigger] step_ok(a, ss, f))
    &&& swf(&ss[0]) &&& ss[0].next_commitment_ptr == a.ordering
    &&& forall|k: int| r <= k < MT_H ==> (#[trigger] a.siblings[k])@ == node_val(&ss[0], sib(a.ordering as int / (pow2(k as nat) as int)), MT_H - k)
}
/// a node above at least one leaf of the batch
pub open spec fn meets(a: &CommitmentHashingAccount, j: int, l: int) -> bool { j * pow2((MT_H - l) as nat) < a.ordering + pow2(rt(a)) && a.ordering < (j + 1) * pow2((MT_H - l) as nat) }
proof fn lemma_keep(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>, f: int, g: int, j: int, m: int)
    requires finalized(a, ss), 0 <= f <= g <= rt(a) + 1, node_ok(j, m), forall|k: int| f <= k < g ==> !#[trigger] wnode(a, k, j, m)
    ensures stored(&ss[g], j, m) == stored(&ss[f], j, m)
    decreases g - f
{ if f < g { lemma_keep(a, ss, f, g - 1, j, m); assert(step_ok(a, ss, g - 1)); assert(!wnode(a, g - 1, j, m)); } }
proof fn lemma_final(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>, f: int, i: int)
    requires finalized(a, ss), 0 <= f <= rt(a), 0 <= i < pow2((rt(a) - f) as nat), node_ok(a.ordering as int / (pow2(f as nat) as int) + i, MT_H - f)
    ensures stored(&ss[rt(a) as int + 1], a.ordering as int / (pow2(f as nat) as int) + i, MT_H - f) == a.hash_tree[hbase(rt(a), f) + i]@
{
    let j = a.ordering as int / (pow2(f as nat) as int) + i;
    assert(step_ok(a, ss, f));
    assert(stored(&ss[f + 1], j, MT_H - f) == a.hash_tree[hbase(rt(a), f) + i]@);
    assert forall|k: int| f + 1 <= k < rt(a) + 1 implies !#[trigger] wnode(a, k, j, MT_H - f) by {}
    lemma_keep(a, ss, f + 1, rt(a) as int + 1, j, MT_H - f);
}
proof fn lemma_align(o: int, r: nat, f: nat) requires 0 <= o, f <= r, o % (pow2(r) as int) == 0
    ensures o == (o / (pow2(f) as int)) * pow2(f), pow2(r) == pow2(f) * pow2((r - f) as nat)
{
    lemma_pow2_pos(f); lemma_pow2_pos((r - f) as nat); lemma_pow2_adds(f, (r - f) as nat);
    let q = o / (pow2(r) as int);
    lemma_pow2_pos(r); lemma_fundamental_div_mod(o, pow2(r) as int);
    let c = pow2((r - f) as nat) as int; let b = pow2(f) as int;
    assert(o == b * (c * q)) by(nonlinear_arith) requires o == pow2(r) * q, pow2(r) == b * c;
    lemma_div_multiples_vanish(c * q, b);
    assert((c * q) * b == b * (c * q)) by(nonlinear_arith);
}
proof fn lemma_in(x: int, i: int, b: int, p: int, o: int, n: int) requires p >= 1, o == b * p, x == b + i
    ensures (x * p < o + n && o < (x + 1) * p) ==> i >= 0 && i * p < n, i >= 0 && i * p < n ==> (x * p < o + n && o < (x + 1) * p)
{
    assert(x * p == o + i * p && (x + 1) * p == o + i * p + p) by(nonlinear_arith) requires x == b + i, o == b * p;
    assert(i < 0 ==> i * p + p <= 0) by(nonlinear_arith) requires p >= 1;
    assert(i >= 0 ==> i * p >= 0) by(nonlinear_arith) requires p >= 1;
}
proof fn lemma_lt_scale(i: int, c: int, p: int) requires p >= 1 ensures i < c <==> i * p < c * p
{ assert(i < c ==> i * p < c * p) by(nonlinear_arith) requires p >= 1; assert(i >= c ==> i * p >= c * p) by(nonlinear_arith) requires p >= 1; }
/// position of the node above the batch
proof fn lemma_meets_low(a: &CommitmentHashingAccount, j: int, l: int)
    requires rt(a) <= 20, a.ordering as int % (pow2(rt(a)) as int) == 0, MT_H - rt(a) <= l <= MT_H
    ensures meets(a, j, l) <==> a.ordering as int / (pow2((MT_H - l) as nat) as int) <= j < a.ordering as int / (pow2((MT_H - l) as nat) as int) + pow2((rt(a) - (MT_H - l)) as nat)
{
    let f = (MT_H - l) as nat; let r = rt(a); let o = a.ordering as int;
    lemma_align(o, r, f); lemma_pow2_pos(f);
    let b = o / (pow2(f) as int); let c = pow2((r - f) as nat) as int; let p = pow2(f) as int;
    lemma_in(j, j - b, b, p, o, pow2(r) as int);
    lemma_lt_scale(j - b, c, p);
    assert(c * p == pow2(r)) by(nonlinear_arith) requires pow2(r) == pow2(f) * pow2((r - f) as nat), c == pow2((r - f) as nat), p == pow2(f);
}
proof fn lemma_meets_high(a: &CommitmentHashingAccount, j: int, l: int)
    requires rt(a) <= 20, a.ordering as int % (pow2(rt(a)) as int) == 0, 0 <= l <= MT_H - rt(a)
    ensures meets(a, j, l) <==> j == a.ordering as int / (pow2((MT_H - l) as nat) as int)
{
    let k = (MT_H - l) as nat; let r = rt(a); let o = a.ordering as int;
    lemma_pow2_pos(k); lemma_pow2_pos(r); lemma_pow2_pos((k - r) as nat); lemma_pow2_adds(r, (k - r) as nat);
    let p = pow2(k) as int; let n = pow2(r) as int; let c = pow2((k - r) as nat) as int;
    let q = o / n; lemma_fundamental_div_mod(o, n);
    lemma_fundamental_div_mod(o, p); lemma_mod_bound(o, p);
    let d = o / p;
    assert(j * p == n * (j * c)) by(nonlinear_arith) requires p == n * c;
    // j*p < o + n  <=>  j*c < q + 1
    if meets(a, j, l) {
        assert(n * (j * c) < n * q + n);
        assert(j * c < q + 1) by(nonlinear_arith) requires n * (j * c) < n * q + n, n >= 1;
        assert(n * (j * c) <= n * q) by(nonlinear_arith) requires j * c <= q, n >= 1;
        assert(j * p <= o && o < (j + 1) * p);
        assert(d == j) by(nonlinear_arith) requires o == p * d + o % p, 0 <= o % p < p, j * p <= o, o < (j + 1) * p, p >= 1;
    }
    if j == d {
        assert(j * p == p * d) by(nonlinear_arith) requires j == d;
        assert((j + 1) * p == p * d + p) by(nonlinear_arith) requires j == d;
    }
}
/// a finished batch is hashed bottom up: every node on or below its path is the hash of its children
pub proof fn lemma_tree(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>, j: int, l: int, x: U256, y: U256)
    requires finalized(a, ss), node_ok(j, l), l < MT_H, meets(a, j, l),
        x@ == node_val(&ss[rt(a) as int + 1], 2 * j, l + 1), y@ == node_val(&ss[rt(a) as int + 1], 2 * j + 1, l + 1)
    ensures node_val(&ss[rt(a) as int + 1], j, l) == h2(x, y)@
{
    let t = &ss[rt(a) as int + 1]; let r = rt(a); let o = a.ordering as int; let k = (MT_H - l) as nat;
    lemma_rate(r); lemma_rate(k); lemma_rate((k - 1) as nat); lemma_rate(l as nat); lemma_rate((l + 1) as nat);
    lemma_pow2_adds(l as nat, k); lemma_pow2_adds((l + 1) as nat, (k - 1) as nat);
    assert(step_ok(a, ss, r as int));
    assert(has_leaf(t, j, l));
    let p = pow2(k) as int; let p2 = pow2((k - 1) as nat) as int;
    assert((2 * j) * p2 == j * p && (2 * j + 1) * p2 == j * p + p2 && (2 * j + 2) * p2 == j * p + p && (j + 1) * p == j * p + p) by(nonlinear_arith) requires p == 2 * p2;
    assert(0 <= 2 * j && 2 * j + 1 < pow2((l + 1) as nat));
    if k <= r {
        let f = k as int;
        lemma_meets_low(a, j, l);
        let i = j - o / (pow2(k) as int);
        lemma_rate((r - f) as nat); lemma_rate((r - f + 1) as nat);
        lemma_final(a, ss, f, i);
        let h = hbase(r, f) + i - pow2(r);
        assert(pow2(r) >= 2 * pow2((r - f) as nat)) by { lemma_pow2_adds((r - f + 1) as nat, (f - 1) as nat); lemma_pow2_pos((f - 1) as nat);
            let u = pow2((r - f + 1) as nat) as int; let w = pow2((f - 1) as nat) as int;
            assert(u * w >= u) by(nonlinear_arith) requires w >= 1, u >= 0; }
        assert(0 <= h < st(r));
        assert(done(a, h));
        assert(2 * h == hbase(r, f - 1) + 2 * i) by { assert(((r - f) + 1) as nat == (r - (f - 1)) as nat); }
        lemma_align(o, r, k); lemma_align(o, r, (k - 1) as nat);
        assert(o / p2 == 2 * (o / p)) by(nonlinear_arith) requires o == (o / p) * p, o == (o / p2) * p2, p == 2 * p2, p2 >= 1;
        lemma_final(a, ss, f - 1, 2 * i); lemma_final(a, ss, f - 1, 2 * i + 1);
        lemma_meets_low(a, 2 * j, l + 1); lemma_meets_low(a, 2 * j + 1, l + 1);
        assert(has_leaf(t, 2 * j, l + 1)); assert(has_leaf(t, 2 * j + 1, l + 1));
        assert(x =~= a.hash_tree[2 * h]); assert(y =~= a.hash_tree[2 * h + 1]);
    } else {
        lemma_meets_high(a, j, l);
        let c = o / p2; let i = k - r - 1; let h = st(r) + i;
        lemma_div_denominator(o, p2, 2);
        assert(p2 * 2 == p);
        assert(c / 2 == j);
        assert(pow2(0) == 1) by { lemma2_to64(); }
        assert(a.above_hashes[i]@ == stored(t, j, l)) by { assert((r + i + 1) as nat == k); }
        assert(done(a, h));
        assert(out(a, h) == a.above_hashes[i]);
        assert((r + h - st(r)) as nat == (k - 1) as nat);
        // the child on the path
        assert(stored(t, c, l + 1) == lhs(a, h)@) by {
            if i == 0 { lemma_final(a, ss, r as int, 0); assert((r - r) as nat == 0); assert(hbase(r, r as int) == pow2(r + 1) - 2); }
            else { assert(a.above_hashes[i - 1]@ == stored(t, c, l + 1)) by { assert((r + (i - 1) + 1) as nat == (k - 1) as nat); } }
        }
        lemma_meets_high(a, c, l + 1);
        assert(has_leaf(t, c, l + 1));
        // its sibling
        let s = sib(c);
        lemma_meets_high(a, s, l + 1);
        assert(a.siblings[r + i]@ == node_val(&ss[0], s, l + 1)) by { assert((r + i) as nat == (k - 1) as nat); }
        lemma_frame(a, ss, s, l + 1);
        assert(rhs(a, h)@ == node_val(t, s, l + 1));
        if c % 2 == 1 { assert(2 * j + 1 == c && s == 2 * j); assert(y =~= lhs(a, h)); assert(x =~= rhs(a, h)); assert(swapped(a, h)); }
        else { assert(2 * j == c && s == 2 * j + 1); assert(x =~= lhs(a, h)); assert(y =~= rhs(a, h)); assert(!swapped(a, h)); }
    }
}
/// no node apart from the batch's leaves and the nodes above them changes
pub proof fn lemma_frame(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>, j: int, l: int)
    requires finalized(a, ss), node_ok(j, l), !meets(a, j, l)
    ensures node_val(&ss[rt(a) as int + 1], j, l) == node_val(&ss[0], j, l)
{
    let t = &ss[rt(a) as int + 1]; let r = rt(a); let o = a.ordering as int; let k = (MT_H - l) as nat;
    lemma_rate(r); lemma_pow2_pos(k);
    assert(step_ok(a, ss, r as int));
    assert forall|f: int| 0 <= f < r + 1 implies !#[trigger] wnode(a, f, j, l) by {
        if l == MT_H - f { lemma_meets_low(a, j, l); }
        if f == r && l < MT_H - r { lemma_meets_high(a, j, l); }
    }
    lemma_keep(a, ss, 0, r as int + 1, j, l);
    let p = pow2(k) as int;
    assert((j + 1) * p == j * p + p) by(nonlinear_arith);
    if k <= r { lemma_align(o, r, k); } 
    // not in reach of the batch: entirely before it or entirely after it
    assert(has_leaf(t, j, l) <==> has_leaf(&ss[0], j, l)) by {
        if o <= j * p && j * p < o + pow2(r) { assert(o < (j + 1) * p); }
    }
}
/// the leaves of the batch, in order
pub proof fn lemma_leaves(a: &CommitmentHashingAccount, ss: Seq<StorageAccount>, i: int)
    requires finalized(a, ss), 0 <= i < pow2(rt(a))
    ensures node_val(&ss[rt(a) as int + 1], a.ordering + i, MT_H as int) == a.hash_tree[i]@, ss[rt(a) as int + 1].next_commitment_ptr == a.ordering + pow2(rt(a))
{
    let r = rt(a);
    lemma_rate(r); assert(pow2(0) == 1) by { lemma2_to64(); }
    assert(step_ok(a, ss, r as int));
    assert(a.ordering as int / 1 == a.ordering);
    assert(hbase(r, 0) == 0);
    lemma_final(a, ss, 0, i);
    assert((a.ordering + i) * pow2(0) == a.ordering + i) by(nonlinear_arith) requires pow2(0) == 1;
}
/// the roots of the active tree since its last rotation, and the ring that remembers the last of them
pub open spec fn remembers(s: &StorageAccount, roots: Seq<Seq<u8>>) -> bool {
    &&& s.mt_roots_count == roots.len()
    &&& forall|k: int| 0 <= k < roots.len() && k >= roots.len() - HISTORY_ARRAY_SIZE ==> win(s.active_mt_root_history@, k % (HISTORY_ARRAY_SIZE as int), 32) == #[trigger] roots[k]
}
pub open spec fn recent(roots: Seq<Seq<u8>>, x: Seq<u8>) -> bool { exists|k: int| 0 <= k < roots.len() && k >= roots.len() - HISTORY_ARRAY_SIZE && #[trigger] roots[k] == x }
proof fn lemma_ring(k: int, j: int, n: int) requires 0 <= k, 0 <= j, k < j < k + n ensures k % n != j % n
{
    lemma_fundamental_div_mod(k, n); lemma_fundamental_div_mod(j, n);
    if k % n == j % n { let a = k / n; let b = j / n; assert(n * (b - a) == j - k) by(nonlinear_arith) requires k == n * a + k % n, j == n * b + j % n, k % n == j % n;
        assert(false) by(nonlinear_arith) requires n * (b - a) == j - k, 0 < j - k < n; }
}
pub proof fn lemma_history_step(a: &CommitmentHashingAccount, s: &StorageAccount, t: &StorageAccount, roots: Seq<Seq<u8>>)
    requires upd(a, s, t, rt(a) as int), remembers(s, roots), s.mt_roots_count < u32::MAX
    ensures remembers(t, roots.push(node_val(t, 0, 0)))
{
    let n = HISTORY_ARRAY_SIZE as int; let c = roots.len() as int; let rs = roots.push(node_val(t, 0, 0));
    assert forall|k: int| 0 <= k < rs.len() && k >= rs.len() - HISTORY_ARRAY_SIZE implies win(t.active_mt_root_history@, k % n, 32) == #[trigger] rs[k] by {
        lemma_mod_bound(k, n);
        if k < c { lemma_ring(k, c, n); assert(rs[k] == roots[k]); }
    }
}
/// without the nodes at hand exactly the last roots are accepted; with them exactly the current one
pub proof fn lemma_history_accept(s: &StorageAccount, roots: Seq<Seq<u8>>, x: Seq<u8>)
    requires remembers(s, roots)
    ensures recent(roots, x) <==> exists|k: int| 0 <= k < (if s.mt_roots_count < HISTORY_ARRAY_SIZE { s.mt_roots_count as int } else { HISTORY_ARRAY_SIZE as int }) && #[trigger] win(s.active_mt_root_history@, k, 32) == x
{
    let n = HISTORY_ARRAY_SIZE as int; let c = roots.len() as int;
    let m = if c < n { c } else { n };
    if recent(roots, x) {
        let k = choose|k: int| 0 <= k < c && k >= c - n && #[trigger] roots[k] == x;
        lemma_mod_bound(k, n); if c < n { lemma_small_mod(k as nat, n as nat); }
        assert(win(s.active_mt_root_history@, k % n, 32) == x);
    }
    if exists|k: int| 0 <= k < m && #[trigger] win(s.active_mt_root_history@, k, 32) == x {
        let k = choose|k: int| 0 <= k < m && #[trigger] win(s.active_mt_root_history@, k, 32) == x;
        if c <= n { lemma_small_mod(k as nat, n as nat); assert(roots[k] == x); }
        else {
            // the index in the last n with this residue
            let b = c - n; lemma_fundamental_div_mod(b, n); lemma_mod_bound(b, n);
            let q = if k >= b % n { b / n } else { b / n + 1 };
            let i = n * q + k;
            assert(i >= b && i < c) by(nonlinear_arith) requires i == n * q + k, b == n * (b / n) + b % n, c == b + n, 0 <= k < n, 0 <= b % n < n, k >= b % n ==> q == b / n, k < b % n ==> q == b / n + 1;
            lemma_mod_multiples_vanish(q, k, n); lemma_small_mod(k as nat, n as nat);
            assert(i % n == k);
            assert(roots[i] == x);
        }
    }
}
