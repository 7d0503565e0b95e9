//! executable contracts of data structures, formulas and codecs, evaluated by direct calls
use crate::env::*;
use crate::{acct, ck, say, Case, Rng, Tr, R};
use elusiv::buffer::RingBuffer;
use elusiv::commitment::poseidon_hash::full_poseidon2_hash;
use elusiv::fields::*;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::metadata::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::token::*;
use elusiv::types::*;
use elusiv_types::accounts::*;
use std::collections::{BTreeMap, VecDeque};

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![
        ("Q01", vec![("commitment-queue", q01_c as Case), ("metadata-queue", q01_m)]),
        ("Q02", vec![("base-buffer", q02_b as Case), ("commitment-buffer", q02_c), ("find", q02_f)]),
        ("M02", vec![("slots", m02_slots as Case), ("nodes", m02_nodes), ("opening", m02_opening)]),
        ("M03", vec![("empty-tree", m03 as Case)]),
        ("M04", vec![("root-validity", m04 as Case), ("history", m04_history)]),
        ("F01", vec![("formulas", f01 as Case), ("basis-points", f01_bp)]),
        ("F02", vec![("acceptance", f02 as Case)]),
        ("F03", vec![("arithmetic", f03 as Case), ("limits", f03_lim)]),
        ("F04", vec![("lamports-to-token", f04 as Case), ("feeds", f04_feed)]),
        ("G05", vec![("append", g05 as Case)]),
        ("E02", vec![("limbs", e02 as Case), ("order", e02_ord), ("field-element", e02_fe)]),
    ]
}

fn req(r: &mut Rng) -> CommitmentHashRequest {
    CommitmentHashRequest { commitment: r.scalar(), fee_version: r.below(3) as u32, min_batching_rate: r.below(5) as u32 }
}

fn queue_ops<Q: RingQueue>(q: &mut Q, slots: usize, r: &mut Rng, t: &mut Tr, gen: &mut dyn FnMut(&mut Rng) -> Q::N, start: usize) -> R
where
    Q::N: std::fmt::Debug,
{
    let mut m: VecDeque<Q::N> = VecDeque::new();
    // rotate the indexes to an arbitrary position first
    for _ in 0..start {
        let v = gen(r);
        ck!(q.enqueue(v.clone()).is_ok(), "enqueue-refused", "enqueue into an empty queue is refused");
        let got = q.dequeue_first();
        ck!(got.as_ref().ok() == Some(&v), "fifo-order", "enqueue {v:?}, dequeue gives {got:?}");
    }
    say!(t, "indexes rotated by {start}");
    let bias = r.below(3);
    for step in 0..r.range(1, 700) {
        let op = r.below(20);
        let full = m.len() + 1 == slots;
        if op < 6 + 6 * bias.min(1) || (op < 17 && bias == 2) {
            let v = gen(r);
            let ok = q.enqueue(v.clone()).is_ok();
            ck!(ok != full, "enqueue-capacity", "step {step}: enqueue with {} of {} slots used returns ok={ok}", m.len(), slots);
            if ok {
                m.push_back(v);
            }
            if full {
                t.mark();
            }
        } else if op < 17 {
            let got = q.dequeue_first();
            let want = m.pop_front();
            ck!(got.as_ref().ok() == want.as_ref(), "dequeue", "step {step}: dequeue gives {got:?}, expected {want:?}");
        } else if op == 17 {
            let c = r.below(m.len() as u64 + 3) as u32;
            let ok = q.remove(c).is_ok();
            ck!(ok == (c as usize <= m.len()), "remove", "step {step}: remove({c}) of {} elements returns ok={ok}", m.len());
            if ok {
                m.drain(..c as usize);
            }
        } else if op == 18 {
            let v = if m.is_empty() || r.chance(1, 2) { gen(r) } else { m[r.below(m.len() as u64) as usize].clone() };
            ck!(q.contains(&v) == m.contains(&v), "contains", "step {step}: contains({v:?}) is {}", q.contains(&v));
        } else {
            for i in [0, r.below(m.len() as u64 + 2) as usize, m.len(), slots - 1, slots] {
                let g = q.view(i);
                ck!(g.as_ref().ok() == m.get(i), "view", "step {step}: view({i}) is {g:?}, expected {:?}", m.get(i));
            }
        }
        ck!(q.len() as usize == m.len(), "len", "step {step}: len {} expected {}", q.len(), m.len());
        ck!(q.is_empty() == m.is_empty(), "is-empty", "step {step}: is_empty {}", q.is_empty());
        ck!(q.empty_slots() as usize == slots - 1 - m.len(), "empty-slots", "step {step}: empty_slots {}", q.empty_slots());
        ck!(q.view_first().ok().as_ref() == m.front(), "view-first", "step {step}: view_first");
    }
    for i in 0..m.len() {
        ck!(q.view(i).ok().as_ref() == m.get(i), "content", "element {i} differs");
    }
    t.mark();
    say!(t, "{} elements at the end", m.len());
    Ok(())
}

fn q01_c(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<CommitmentQueueAccount>(None).1;
    let mut a = acct!(d, CommitmentQueueAccount);
    let mut q = CommitmentQueue::new(&mut a);
    let s = r.below(2 * COMMITMENT_QUEUE_LEN as u64) as usize;
    queue_ops(&mut q, COMMITMENT_QUEUE_LEN, r, t, &mut |r| req(r), s)
}
fn q01_m(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<MetadataQueueAccount>(None).1;
    let mut a = acct!(d, MetadataQueueAccount);
    let mut q = MetadataQueue::new(&mut a);
    let s = r.below(2 * COMMITMENT_QUEUE_LEN as u64) as usize;
    queue_ops(&mut q, COMMITMENT_QUEUE_LEN, r, t, &mut |r| { let mut m = [0u8; 17]; for x in m.iter_mut() { *x = r.below(256) as u8 } m }, s)
}

/// values that share bytes with each other, so that partial comparisons show
fn near(r: &mut Rng, pool: &mut Vec<U256>) -> U256 {
    let v = if !pool.is_empty() && r.chance(2, 3) {
        let mut v = r.pick(pool);
        match r.below(4) {
            0 => v[r.below(32) as usize] ^= 1 << r.below(8),
            1 => v[31] ^= 1,
            2 => v[0] ^= 1,
            _ => {}
        }
        v
    } else if r.chance(1, 4) {
        let mut v = [0; 32];
        v[r.below(32) as usize] = r.below(3) as u8;
        v
    } else {
        r.bytes32()
    };
    pool.push(v);
    v
}

fn buffer_ops<'a, B: RingBuffer<'a, U256>>(b: &mut B, cap: usize, r: &mut Rng, t: &mut Tr) -> R {
    let mut m: VecDeque<U256> = VecDeque::new();
    let mut pool = vec![];
    let n = r.range(1, 420);
    for step in 0..n {
        let v = near(r, &mut pool);
        ck!(b.contains(&v) == m.contains(&v), "contains", "step {step}: contains is {} for a value that is {}held", b.contains(&v), if m.contains(&v) { "" } else { "not " });
        ck!(b.find_position(&v).is_some() == m.contains(&v), "find-position", "step {step}: find_position is {:?}", b.find_position(&v));
        let ok = b.try_insert(&v).is_ok();
        ck!(ok != m.contains(&v), "insert-duplicate", "step {step}: try_insert ok={ok} for a value that is {}held", if m.contains(&v) { "" } else { "not " });
        if ok {
            m.push_back(v);
            if m.len() > cap {
                m.pop_front();
                t.mark();
            }
        }
        ck!(b.len() == m.len(), "len", "step {step}: len {} expected {}", b.len(), m.len());
        if step % 16 == 0 {
            for x in m.iter() {
                ck!(b.contains(x), "lost", "step {step}: a recently accepted value is not held");
            }
        }
    }
    let mut pos: Vec<usize> = vec![];
    for x in m.iter() {
        let p = b.find_position(x);
        ck!(p.is_some(), "lost", "a recently accepted value has no position");
        pos.push(p.unwrap());
    }
    pos.sort();
    pos.dedup();
    ck!(pos.len() == m.len() && pos.iter().all(|p| *p < m.len()), "positions", "positions of the {} held values are {:?}", m.len(), pos);
    say!(t, "{n} offered, {} held", m.len());
    Ok(())
}
fn q02_b(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<BaseCommitmentBufferAccount>(None).1;
    let mut a = acct!(d, BaseCommitmentBufferAccount);
    buffer_ops(&mut a, COMMITMENT_BUFFER_LEN as usize, r, t)
}
fn q02_c(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<CommitmentBufferAccount>(None).1;
    let mut a = acct!(d, CommitmentBufferAccount);
    buffer_ops(&mut a, COMMITMENT_BUFFER_LEN as usize, r, t)
}
fn q02_f(r: &mut Rng, t: &mut Tr) -> R {
    // byte strings over a tiny alphabet: matches at unaligned offsets are frequent
    let n = r.below(9) as usize;
    let alpha = r.range(1, 2);
    let data: Vec<u8> = (0..n * 32).map(|_| if r.chance(1, 12) { r.below(alpha + 1) as u8 } else { 0 }).collect();
    let mut v = [0u8; 32];
    if n > 0 && r.chance(3, 4) {
        let o = r.below((n * 32 - 31) as u64) as usize;
        v.copy_from_slice(&data[o..o + 32]);
    }
    let want = (0..n).find(|i| data[i * 32..i * 32 + 32] == v);
    let got = elusiv::bytes::find(&v, &data, n);
    ck!(got == want, "find", "find({v:?}) in {data:?} gives {got:?}, expected {want:?}");
    ck!(elusiv::bytes::contains(&v, &data) == want.is_some(), "contains", "contains({v:?}) in {data:?}");
    if want.is_some() {
        t.mark();
    }
    say!(t, "{data:?} {v:?}");
    Ok(())
}

// ---------------------------------------------------------------- storage
pub struct Tree {
    pub data: Vec<u8>,
    pub kids: Vec<Child>,
}
pub const KIDS: usize = 25;
impl Tree {
    pub fn new() -> Self {
        Tree { data: blank::<StorageAccount>(None).1, kids: (0..KIDS).map(|_| Child::new(<StorageChildAccount as SizedAccount>::SIZE)).collect() }
    }
    pub fn with<T>(&mut self, f: impl FnOnce(&mut StorageAccount) -> T) -> T {
        let infos: Vec<_> = self.kids.iter_mut().map(|k| k.info()).collect();
        let refs: Vec<_> = infos.iter().map(Some).collect();
        let mut s = StorageAccount::new_with_child_accounts(&mut self.data, refs).unwrap();
        f(&mut s)
    }
    pub fn zero_dirty(&mut self) {
        self.data = blank::<StorageAccount>(None).1;
    }
}
fn leaf_ptr(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => r.below(4) as u32,
        1 => (1u32 << 20) - r.below(4) as u32,
        2 => (1u32 << r.below(20)).saturating_sub(r.below(3) as u32),
        _ => r.below((1 << 20) + 1) as u32,
    }
}
fn node(r: &mut Rng) -> (usize, usize) {
    let level = r.below(21) as usize;
    let n = 1u64 << level;
    let i = match r.below(3) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    (i as usize, level)
}
fn m02_slots(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    let mut model: BTreeMap<(usize, usize), U256> = BTreeMap::new();
    tr.with(|s| {
        s.set_next_commitment_ptr(&(1 << 20));
        let mut nodes = vec![];
        for _ in 0..r.range(2, 60) {
            let n = if r.chance(1, 3) && !nodes.is_empty() {
                // a neighbour in storage or in the tree
                let (i, l): (usize, usize) = r.pick(&nodes);
                match r.below(5) {
                    0 if i + 1 < 1 << l => (i + 1, l),
                    1 if i > 0 => (i - 1, l),
                    2 if l < 20 => (2 * i, l + 1),
                    3 if l < 20 => (0, l + 1),
                    _ => (i, l),
                }
            } else if r.chance(1, 4) {
                // around the border of two child accounts
                let a = r.range(1, 24) as usize * VALUES_PER_STORAGE_SUB_ACCOUNT + r.below(3) as usize - 1;
                let l = (usize::BITS - 1 - (a + 1).leading_zeros()) as usize;
                (a + 1 - (1 << l), l)
            } else {
                node(r)
            };
            nodes.push(n);
            let v = r.bytes32();
            let res = guarded(|| s.set_node(&v, n.0, n.1));
            ck!(matches!(res, Ok(Ok(()))), "set-node", "writing node {n:?} fails: {res:?}");
            model.insert(n, v);
        }
        for (n, v) in &model {
            let g = guarded(|| s.get_node(n.0, n.1));
            ck!(matches!(&g, Ok(Ok(x)) if x == v), "slot-shared", "node {n:?} was written {v:?} and reads {g:?} after writing {:?}", model.keys().collect::<Vec<_>>());
        }
        for _ in 0..20 {
            let n = node(r);
            if !model.contains_key(&n) {
                let g = guarded(|| s.get_node(n.0, n.1));
                ck!(matches!(&g, Ok(Ok(x)) if *x == [0; 32]), "other-node-changed", "node {n:?} was never written and reads {g:?} after writing {:?}", model.keys().collect::<Vec<_>>());
            }
        }
        t.mark();
        say!(t, "nodes {:?}", model.keys().collect::<Vec<_>>());
        Ok(())
    })
}
/// first leaf under the node
fn first_leaf(i: usize, l: usize) -> u64 {
    (i as u64) << (20 - l)
}
fn m02_nodes(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    tr.with(|s| {
        let p = leaf_ptr(r);
        s.set_next_commitment_ptr(&p);
        say!(t, "{p} leaves");
        for _ in 0..60 {
            let l = r.below(21) as usize;
            let near = (p as i64 >> (20 - l)) + r.below(5) as i64 - 2;
            let i = if r.chance(2, 3) { near.clamp(0, (1 << l) - 1) as usize } else { r.below(1 << l) as usize };
            let v = r.bytes32();
            s.set_node(&v, i, l).unwrap();
            let used = first_leaf(i, l) < p as u64;
            let want = if used { v } else { EMPTY_TREE[20 - l] };
            let g = guarded(|| s.get_node(i, l));
            ck!(matches!(&g, Ok(Ok(x)) if *x == want), "default-value", "with {p} leaves node {:?} (leaves inserted under it: {used}) reads {g:?}, stored {v:?}", (i, l));
            if used {
                t.mark()
            }
        }
        Ok(())
    })
}
fn m02_opening(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    tr.with(|s| {
        let p = leaf_ptr(r);
        s.set_next_commitment_ptr(&p);
        let leaf = if r.chance(1, 2) { (p as usize).min((1 << 20) - 1) } else { r.below(1 << 20) as usize };
        let mut want = vec![];
        for k in 0..20 {
            let i = (leaf >> k) ^ 1;
            let v = r.bytes32();
            s.set_node(&v, i, 20 - k).unwrap();
            want.push(if first_leaf(i, 20 - k) < p as u64 { v } else { EMPTY_TREE[k] });
        }
        // the nodes on the path itself hold something else
        for k in 0..20 {
            s.set_node(&r.bytes32(), leaf >> k, 20 - k).unwrap();
        }
        let g = guarded(|| s.get_mt_opening(leaf));
        ck!(matches!(&g, Ok(Ok(x)) if x[..] == want[..]), "opening", "opening of leaf {leaf} with {p} leaves differs from its siblings: {g:?}");
        t.mark();
        say!(t, "{p} leaves, leaf {leaf}");
        Ok(())
    })
}
fn m03(r: &mut Rng, t: &mut Tr) -> R {
    let _ = r;
    for i in 0..20 {
        let a = u256_to_fr_skip_mr(&EMPTY_TREE[i]);
        let h = fr_to_u256_le(&full_poseidon2_hash(a, a));
        ck!(h == EMPTY_TREE[i + 1], "empty-tree", "EMPTY_TREE[{}] is not the hash of two EMPTY_TREE[{i}]", i + 1);
    }
    ck!(EMPTY_TREE[0] == crate::p_commit::h2(&[0; 32], &[0; 32]), "empty-leaf", "EMPTY_TREE[0] is not the hash of two zeros");
    ck!(ZERO_COMMITMENT == crate::p_commit::h2(&EMPTY_TREE[0], &[0; 32]), "zero-commitment-hash", "ZERO_COMMITMENT is not the hash of the zero base commitment and zero");
    ck!(RawU256::new(ZERO_COMMITMENT_RAW).reduce() == ZERO_COMMITMENT, "zero-commitment", "ZERO_COMMITMENT is not ZERO_COMMITMENT_RAW in Montgomery form");
    t.mark();
    say!(t, "20 levels");
    Ok(())
}
fn m04(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    tr.with(|s| {
        // a tree with history, possibly rotated, and roots that are not (or no longer) valid
        let mut old = vec![];
        let rounds = r.range(1, 4);
        for _ in 0..rounds {
            if r.chance(1, 2) {
                s.reset();
            }
            let p = leaf_ptr(r).max(1);
            s.set_next_commitment_ptr(&p);
            let root = r.bytes32();
            s.set_node(&root, 0, 0).unwrap();
            s.set_active_mt_root_history(r.below(HISTORY_ARRAY_SIZE as u64) as usize, &root);
            s.set_mt_roots_count(&(s.get_mt_roots_count() + 1));
            old.push(root);
        }
        if r.chance(1, 3) {
            s.reset();
        }
        let empty = s.get_next_commitment_ptr() == 0;
        let cur = if empty { EMPTY_TREE[20] } else { *old.last().unwrap() };
        say!(t, "{rounds} roots, empty now: {empty}, current root {cur:?}");
        ck!(s.is_root_valid(&cur), "current-root-refused", "the current root is refused (empty tree: {empty})");
        for o in old.iter().chain([[0u8; 32], EMPTY_TREE[20], EMPTY_TREE[19], r.bytes32()].iter()) {
            if *o != cur {
                ck!(!s.is_root_valid(o), "stale-root-accepted", "{o:?} is accepted, the current root is {cur:?} (empty tree: {empty})");
                t.mark();
            }
        }
        Ok(())
    })
}

/// finished batches move their roots into the active tree; afterwards roots are checked where no
/// stored node is at hand
fn m04_history(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    let n = if r.chance(1, 4) { r.range(90, 215) } else { r.range(1, 12) };
    let mixed = r.chance(1, 2);
    let rate0 = r.below(5) as u32;
    let reset_at = if r.chance(1, 3) { r.below(n) } else { n };
    let (mut roots, mut stale) = (vec![], vec![]);
    let mut ptr = 0u32;
    let hlen = <CommitmentHashingAccount as SizedAccount>::SIZE;
    let ht = 32 * 31;
    for k in 0..n {
        if k == reset_at {
            tr.with(|s| s.reset());
            stale.append(&mut roots);
            ptr = 0;
        }
        let rate = if mixed { r.below(5) as u32 } else { rate0 };
        let rate = if ptr % (1 << rate) == 0 { rate } else { 0 };
        let root = r.scalar();
        let (_, mut d) = blank::<CommitmentHashingAccount>(None);
        let o = hlen - ht - 32 * 20 + 32 * (19 - rate as usize);
        d[o..o + 32].copy_from_slice(&root);
        let mut h = acct!(d, CommitmentHashingAccount);
        h.set_batching_rate(&rate);
        h.set_ordering(&ptr);
        tr.with(|s| {
            for i in 0..=rate {
                h.update_mt(s, i);
            }
        });
        ptr += 1 << rate;
        roots.push(root);
    }
    say!(t, "{n} batches of rate {rate0} (mixed {mixed}), tree replaced after {reset_at}");
    let s = StorageAccount::new_with_child_accounts(&mut tr.data, vec![None; KIDS]).unwrap();
    let valid = |x: &U256| s.is_root_valid(x);
    if let Some(cur) = roots.last() {
        ck!(valid(cur), "current-root-refused", "the current root is refused after {} batches", roots.len());
    }
    for (i, x) in roots.iter().enumerate() {
        let age = roots.len() - 1 - i;
        ck!(valid(x) == (age < 100), "history", "the root {age} batches ago: accepted {}", valid(x));
    }
    for x in stale.iter().chain([[0u8; 32], r.scalar()].iter()) {
        ck!(!valid(x), "stale-root-accepted", "{x:?} was never a root of the active tree and is accepted (after {} batches)", roots.len());
    }
    t.mark();
    Ok(())
}

// ---------------------------------------------------------------- metadata
fn g05(r: &mut Rng, t: &mut Tr) -> R {
    const PER: usize = 1 << 16;
    let mut kids: Vec<Child> = (0..16).map(|_| Child::new(PER * 17 + 1)).collect();
    let before_p;
    let mut model = BTreeMap::new();
    {
        let infos: Vec<_> = kids.iter_mut().map(|k| k.info()).collect();
        let refs: Vec<_> = infos.iter().map(Some).collect();
        let mut d = blank::<MetadataAccount>(None).1;
        let mut a = MetadataAccount::new_with_child_accounts(&mut d, refs).unwrap();
        let mut p = match r.below(3) {
            0 => 0,
            1 => (r.range(1, 16) as u32 * PER as u32).saturating_sub(r.below(6) as u32),
            _ => r.below(1 << 20) as u32,
        };
        a.set_next_metadata_ptr(&p);
        before_p = p;
        for _ in 0..r.range(1, 20) {
            let mut m = [0u8; 17];
            for x in m.iter_mut() {
                *x = 1 + r.below(255) as u8
            }
            let res = guarded(|| a.add_commitment_metadata(&m));
            let ok = matches!(res, Ok(Ok(())));
            ck!(ok == (p < 1 << 20), "append", "appending at position {p} gives {res:?}");
            if !ok {
                break;
            }
            model.insert(p, m);
            p += 1;
            ck!(a.get_next_metadata_ptr() == p, "counter", "position counter {} expected {p}", a.get_next_metadata_ptr());
        }
    }
    for (p, m) in &model {
        let (c, o) = (*p as usize / PER, 1 + (*p as usize % PER) * 17);
        ck!(kids[c].data[o..o + 17] == m[..], "position", "metadata of commitment {p} is not at its position");
        kids[c].data[o..o + 17].fill(0);
    }
    for (c, k) in kids.iter().enumerate() {
        ck!(k.data[0] == 1 && k.data[1..].iter().all(|b| *b == 0), "other-position-changed", "appending {:?} changed something else in child account {c}", model.keys().collect::<Vec<_>>());
    }
    t.mark();
    say!(t, "{} entries from {before_p}", model.len());
    Ok(())
}

// ---------------------------------------------------------------- fees
pub fn fee_table(r: &mut Rng, realistic: bool) -> ProgramFee {
    let x = |r: &mut Rng, hi: u64| -> u64 {
        match r.below(4) {
            0 => 0,
            1 if !realistic => r.edge64(),
            _ => r.below(hi),
        }
    };
    ProgramFee {
        lamports_per_tx: Lamports(x(r, 20_000)),
        base_commitment_network_fee: BasisPointFee(x(r, 10_001)),
        proof_network_fee: BasisPointFee(x(r, 10_001)),
        base_commitment_subvention: Lamports(x(r, 40_000)),
        proof_subvention: Lamports(x(r, 2_000_000)),
        warden_hash_tx_reward: Lamports(x(r, 5_000)),
        warden_proof_reward: Lamports(x(r, 500_000)),
        proof_base_tx_count: if r.chance(1, 8) { x(r, 400) } else { ProgramFee::proof_base_tx_count() },
    }
}
pub fn dump(f: &ProgramFee) -> String {
    format!(
        "fee(per_tx {}, bc_net {}, proof_net {}, bc_subv {}, proof_subv {}, hash_reward {}, proof_reward {}, txs {})",
        f.lamports_per_tx.0, f.base_commitment_network_fee.0, f.proof_network_fee.0, f.base_commitment_subvention.0, f.proof_subvention.0, f.warden_hash_tx_reward.0, f.warden_proof_reward.0, f.proof_base_tx_count
    )
}
/// number of instructions of a batch, per batching rate (the circuit of 65-round Poseidon hashes
/// split into the scheduled instructions)
pub const IXS: [i128; 5] = [24, 24, 25, 29, 37];
pub const BC_TXS: i128 = 2;
pub fn o_hash(f: &ProgramFee) -> i128 {
    f.lamports_per_tx.0 as i128 + f.warden_hash_tx_reward.0 as i128
}
pub fn o_commit(f: &ProgramFee, rate: usize) -> i128 {
    let t = IXS[rate] * o_hash(f);
    let n = 1i128 << rate;
    (t + n - 1) / n
}
pub fn o_base(f: &ProgramFee) -> i128 {
    BC_TXS * o_hash(f) + f.lamports_per_tx.0 as i128
}
fn f01(r: &mut Rng, t: &mut Tr) -> R {
    let real = r.chance(1, 2);
    let f = fee_table(r, real);
    say!(t, "{}", dump(&f));
    if !matches!(guarded(|| f.is_valid()), Ok(true)) {
        return Ok(());
    }
    t.mark();
    ck!(f.hash_tx_compensation().0 as i128 == o_hash(&f), "hash-compensation", "hash_tx_compensation is {}, per_tx + reward is {}", f.hash_tx_compensation().0, o_hash(&f));
    ck!(f.base_commitment_hash_computation_fee().0 as i128 == o_base(&f), "base-commitment-fee", "base_commitment_hash_computation_fee is {}, the formula gives {}", f.base_commitment_hash_computation_fee().0, o_base(&f));
    for rate in 0..5 {
        let g = f.commitment_hash_computation_fee(rate).0 as i128;
        ck!(g == o_commit(&f, rate as usize), "commitment-fee", "commitment_hash_computation_fee({rate}) is {g}, the formula gives {}", o_commit(&f, rate as usize));
    }
    let n = if r.chance(1, 2) { r.below(60) } else { r.below(200) } as usize;
    let g = f.proof_verification_computation_fee(n).0 as i128;
    let o_proof = (n as i128 + f.proof_base_tx_count as i128) * f.lamports_per_tx.0 as i128 + f.warden_proof_reward.0 as i128;
    ck!(g == o_proof, "proof-fee", "proof_verification_computation_fee({n}) is {g}, the formula gives {o_proof}");
    let amount = if r.chance(1, 2) { r.edge64() } else { r.below(2_000_000_000_000_001) };
    let rate = r.below(5) as usize;
    let net = f.proof_network_fee.0 as i128 * amount as i128 / 10_000;
    let want = o_proof + o_commit(&f, rate) + net - f.proof_subvention.0 as i128;
    let got = guarded(|| f.proof_verification_fee(n, rate as u32, amount, 0, &TokenPrice::new_lamports()));
    match got {
        Ok(Ok(x)) => ck!(x.amount() as i128 == want, "verification-fee", "proof_verification_fee({n}, {rate}, {amount}) is {}, the formula gives {want}", x.amount()),
        _ => ck!(want < 0 || o_proof + o_commit(&f, rate) + net > u64::MAX as i128, "verification-fee-refused", "proof_verification_fee({n}, {rate}, {amount}) fails, the formula gives {want}"),
    }
    Ok(())
}
fn f01_bp(r: &mut Rng, t: &mut Tr) -> R {
    // basis points an accepted table can carry, amounts up to the largest token maximum
    let mut f = ProgramFee::new(5000, 0, 0, 0, 0, 0, 0).unwrap();
    f.base_commitment_network_fee = BasisPointFee(if r.chance(1, 2) { r.below(10_001) } else { r.edge64() });
    let ok = matches!(guarded(|| f.is_valid()), Ok(true));
    let amount = match r.below(3) {
        0 => r.pick(&TOKENS.iter().map(|t| t.max).collect::<Vec<_>>()) - r.below(3),
        1 => r.below(2_000_000_000_000_001),
        _ => r.edge64(),
    };
    let bp = f.base_commitment_network_fee.0;
    say!(t, "{bp} basis points of {amount}, accepted {ok}");
    if ok {
        t.mark();
        let g = f.base_commitment_network_fee.calc(amount) as i128;
        let want = bp as i128 * amount as i128 / 10_000;
        ck!(g == want, "basis-points", "{bp} basis points of {amount}: {g}, the formula gives {want}");
    }
    for _ in 0..8 {
        let (a, b) = (r.edge64(), r.edge64().max(1));
        if (a as u128) + (b as u128) <= u64::MAX as u128 {
            let g = elusiv::bytes::div_ceiling_u64(a, b);
            ck!(g as u128 == (a as u128 + b as u128 - 1) / b as u128, "div-ceiling", "div_ceiling({a}, {b}) = {g}");
        }
    }
    Ok(())
}
fn f02(r: &mut Rng, t: &mut Tr) -> R {
    let real = r.chance(3, 4);
    let mut f = fee_table(r, real);
    // subsidies close to what is charged
    let rate = r.below(5) as usize;
    if r.chance(3, 4) {
        let x = o_commit(&f, rate) + r.below(5) as i128 - 2;
        f.base_commitment_subvention = Lamports(x.clamp(0, u64::MAX as i128) as u64);
    } else {
        f.base_commitment_subvention = Lamports(0)
    }
    if r.chance(1, 2) {
        let x = f.proof_base_tx_count as i128 * f.lamports_per_tx.0 as i128 + o_commit(&f, rate) + r.below(5) as i128 - 2;
        f.proof_subvention = Lamports(x.clamp(0, u64::MAX as i128) as u64);
        f.base_commitment_subvention = Lamports(0);
    } else if r.chance(1, 2) {
        f.proof_subvention = Lamports(0);
    }
    say!(t, "{}", dump(&f));
    let v = guarded(|| f.is_valid());
    if !matches!(v, Ok(true)) {
        return Ok(());
    }
    t.mark();
    for rate in 0..5 {
        let c = o_commit(&f, rate);
        ck!(f.base_commitment_subvention.0 as i128 <= o_base(&f) + c, "deposit-subvention-charged", "accepted, but the deposit subvention {} exceeds the fee {} it is deducted from (rate {rate})", f.base_commitment_subvention.0, o_base(&f) + c);
        ck!(f.base_commitment_subvention.0 as i128 <= c, "deposit-subvention", "accepted, but the deposit subvention {} exceeds the commitment fee {c} at batching rate {rate}", f.base_commitment_subvention.0);
        let p = f.proof_base_tx_count as i128 * f.lamports_per_tx.0 as i128 + c;
        ck!(f.proof_subvention.0 as i128 <= p, "proof-subvention", "accepted, but the proof subvention {} exceeds the computation fees {p} at batching rate {rate}", f.proof_subvention.0);
    }
    ck!(f.proof_base_tx_count == (215 + 17 + 2) as u64 || f.proof_base_tx_count == ProgramFee::proof_base_tx_count(), "tx-count", "accepted with {} proof transactions", f.proof_base_tx_count);
    let n = ProgramFee::new(f.lamports_per_tx.0, f.base_commitment_network_fee.0, f.proof_network_fee.0, f.base_commitment_subvention.0, f.proof_subvention.0, f.warden_hash_tx_reward.0, f.warden_proof_reward.0);
    ck!(n.as_ref() == Some(&f), "new", "ProgramFee::new does not return the accepted table");
    Ok(())
}

// ---------------------------------------------------------------- tokens
fn tok(r: &mut Rng) -> (u16, u64) {
    (if r.chance(1, 3) { 0 } else { r.below(4) as u16 }, r.edge64())
}
fn f03(r: &mut Rng, t: &mut Tr) -> R {
    let (ia, a) = tok(r);
    let (mut ib, mut b) = tok(r);
    if r.chance(2, 3) {
        ib = ia
    }
    if r.chance(1, 4) {
        b = u64::MAX - a
    }
    if r.chance(1, 4) {
        b = a
    }
    b = b.wrapping_add(r.below(3)).wrapping_sub(1);
    say!(t, "{a} of {ia}, {b} of {ib}");
    let (x, y) = (Token::new(ia, a), Token::new(ib, b));
    ck!(x.token_id() == ia && x.amount() == a, "new", "Token::new({ia}, {a}) is {} of {}", x.amount(), x.token_id());
    let sum = (x + y).ok().map(|z| (z.token_id(), z.amount()));
    let want = if ia == ib { a.checked_add(b).map(|s| (ia, s)) } else { None };
    ck!(sum == want, "add", "{a} of {ia} + {b} of {ib} gives {sum:?}, expected {want:?}");
    let dif = (x - y).ok().map(|z| (z.token_id(), z.amount()));
    let want = if ia == ib { a.checked_sub(b).map(|s| (ia, s)) } else { None };
    ck!(dif == want, "sub", "{a} of {ia} - {b} of {ib} gives {dif:?}, expected {want:?}");
    let l = (Lamports(a) + Lamports(b)).ok().map(|z| z.0);
    ck!(l == a.checked_add(b), "add-lamports", "{a} + {b} lamports gives {l:?}");
    ck!(x.into_lamports().ok().map(|l| l.0) == if ia == 0 { Some(a) } else { None }, "into-lamports", "{a} of {ia} into lamports");
    t.mark();
    Ok(())
}
fn f03_lim(r: &mut Rng, t: &mut Tr) -> R {
    let id = r.below(TOKENS.len() as u64 + 3) as u16;
    let a = if (id as usize) < TOKENS.len() {
        let k = TOKENS[id as usize];
        match r.below(4) {
            0 => k.min.wrapping_add(r.below(3)).wrapping_sub(1),
            1 => k.max.wrapping_add(r.below(3)).wrapping_sub(1),
            2 => r.range(k.min, k.max),
            _ => r.edge64(),
        }
    } else {
        r.edge64()
    };
    say!(t, "{a} of token {id}");
    let want = (id as usize) < TOKENS.len() && a >= TOKENS[id as usize].min && a <= TOKENS[id as usize].max;
    let g = guarded(|| Token::new_checked(id, a));
    let ok = matches!(&g, Ok(Ok(x)) if x.token_id() == id && x.amount() == a);
    ck!(ok == want, "limits", "Token::new_checked({id}, {a}) accepted: {ok}, expected {want}");
    t.mark();
    Ok(())
}
fn f04(r: &mut Rng, t: &mut Tr) -> R {
    let id = r.below(TOKENS.len() as u64) as u16;
    let lam = match r.below(3) {
        0 => r.below(10_000_000),
        1 => r.below(100_000_000_000),
        _ => r.edge64() >> 1,
    };
    let price = |r: &mut Rng| -> Price {
        let e = match r.below(4) {
            0 => -8,
            1 => -(r.range(3, 12) as i32),
            2 => -5,
            _ => -(r.below(18) as i32),
        };
        let p = match r.below(8) {
            0 => -(r.below(100_000) as i64),
            1 => 0,
            2 => r.range(1, 100) as i64,
            3 => (r.edge64() >> 1) as i64,
            _ => r.range(1_000, 100_000_000_000) as i64,
        };
        Price { price: p, conf: r.below(3), expo: e }
    };
    let (s, k) = (price(r), price(r));
    say!(t, "{lam} lamports at {:?} into token {id} at {:?}", (s.price, s.expo), (k.price, k.expo));
    let g = guarded(|| {
        let p = TokenPrice::new_from_sol_price(s.clone(), k.clone(), id).ok()?;
        Lamports(lam).into_token(&p, id).ok()
    });
    let g = match g {
        Ok(x) => x,
        Err(_) => None,
    };
    if id == 0 {
        ck!(g.map(|x| (x.token_id(), x.amount())) == Some((0, lam)), "lamports-unchanged", "lamports converted into SOL change");
        t.mark();
        return Ok(());
    }
    if let Some(x) = g {
        t.mark();
        ck!(x.token_id() == id, "wrong-token", "converted into token {}", x.token_id());
        ck!((s.price > 0) == (k.price > 0) || lam == 0 || x.amount() == 0, "non-positive-price", "{lam} lamports convert to {} at prices {} and {}", x.amount(), s.price, k.price);
        if s.price > 0 && k.price > 0 {
            // lam * sol/1e9 / token * 10^decimals in real arithmetic, relative tolerance for the
            // feed library's normalisation to 27 bits plus one unit of its intermediate precision
            let d = TOKENS[id as usize].decimals as f64;
            let e = lam as f64 * s.price as f64 * 10f64.powi(s.expo) / 1e9 / (k.price as f64 * 10f64.powi(k.expo)) * 10f64.powf(d);
            let got = x.amount() as f64;
            let tol = e * 1e-6 + 1.0 + 10f64.powf(d) / lam.max(1) as f64 * e * 1e-9;
            // the library truncates small intermediate values towards zero: never above the exact one
            ck!(got <= e + tol, "price-too-high", "{lam} lamports give {got}, the quoted prices give {e}");
            let norm_ok = lam > 1000 && s.price > 1000 && k.price > 1000 && k.price < 1 << 40 && s.price < 1 << 40;
            if norm_ok && e > 1000.0 && s.expo >= -10 && k.expo >= -10 {
                ck!(got >= e - tol - e * 1e-3, "price-too-low", "{lam} lamports give {got}, the quoted prices give {e}");
            }
        }
    }
    Ok(())
}
fn f04_feed(r: &mut Rng, t: &mut Tr) -> R {
    // TokenPrice::new reads exactly the feeds of SOL and of the token
    let id = 1 + r.below(TOKENS.len() as u64 - 1) as u16;
    let mk = |price: i64, expo: i32, trading: bool| -> Vec<u8> {
        use pyth_sdk_solana::state::*;
        let mut a = PriceAccount { magic: MAGIC, ver: VERSION_2, atype: AccountType::Price as u32, expo, ..Default::default() };
        a.agg.price = price;
        a.agg.conf = 1;
        a.agg.status = if trading { pyth_sdk_solana::PriceStatus::Trading } else { pyth_sdk_solana::PriceStatus::Unknown };
        a.prev_price = price + 7;
        bytemuck::bytes_of(&a).to_vec()
    };
    let (ps, pt) = (r.range(100_000, 9_000_000_000) as i64, r.range(100_000, 9_000_000_000) as i64);
    let (ts, tt) = (r.chance(9, 10), r.chance(9, 10));
    let (mut ks, mut kt) = (TOKENS[0].pyth_usd_price_key, TOKENS[id as usize].pyth_usd_price_key);
    let swap = r.below(6);
    match swap {
        0 => std::mem::swap(&mut ks, &mut kt),
        1 => ks = r.key(),
        2 => kt = r.key(),
        _ => {}
    }
    let right = ks == TOKENS[0].pyth_usd_price_key && kt == TOKENS[id as usize].pyth_usd_price_key;
    let (mut ds, mut dt) = (mk(ps, -8, ts), mk(pt, -8, tt));
    let o = r.key();
    let (mut l1, mut l2) = (1, 1);
    use solana_program::account_info::AccountInfo;
    let a = AccountInfo::new(&ks, false, false, &mut l1, &mut ds, &o, false, 0);
    let b = AccountInfo::new(&kt, false, false, &mut l2, &mut dt, &o, false, 0);
    let g = guarded(|| TokenPrice::new(&a, &b, id).ok());
    say!(t, "token {id} prices {ps} {pt} trading {ts} {tt} keys right {right}");
    match g {
        Ok(Some(p)) => {
            ck!(right, "wrong-feed", "a price is read from an account that is not the token's feed");
            ck!(ts && tt, "stale-price", "a price is returned although the feed is not trading");
            ck!(p.token_id == id, "token", "token {} expected {id}", p.token_id);
            let s = p.lamports_usd.price as f64 * 10f64.powi(p.lamports_usd.expo);
            let k = p.token_usd.price as f64 * 10f64.powi(p.token_usd.expo);
            let (es, ek) = (ps as f64 * 1e-8 * 10f64.powi(-(TOKENS[0].price_base_exp as i32)), pt as f64 * 1e-8 * 10f64.powi(-(TOKENS[id as usize].price_base_exp as i32)));
            ck!((s / es - 1.0).abs() < 1e-3 && (k / ek - 1.0).abs() < 1e-3, "wrong-price", "prices {s} and {k}, the feeds say {es} and {ek}");
            t.mark();
        }
        _ => ck!(!right || !ts || !tt, "feed-refused", "the right feeds are refused"),
    }
    Ok(())
}

// ---------------------------------------------------------------- scalars
pub const MODULUS: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
pub fn cmp_le(a: &[u8; 32], b: &[u8; 32]) -> std::cmp::Ordering {
    for i in (0..32).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
fn limbs_bytes(l: [u64; 4]) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&l[i].to_le_bytes())
    }
    b
}
/// values around the modulus and around limb borders
pub fn edge256(r: &mut Rng) -> [u8; 32] {
    match r.below(6) {
        0 => {
            let mut m = MODULUS;
            let k = r.below(4) as usize;
            m[k] = m[k].wrapping_add(r.below(3)).wrapping_sub(1);
            limbs_bytes(m)
        }
        1 => {
            let mut m = limbs_bytes(MODULUS);
            m[r.below(32) as usize] ^= 1 << r.below(8);
            m
        }
        2 => limbs_bytes([r.edge64(), r.edge64(), r.edge64(), r.edge64()]),
        3 => {
            let mut m = [0; 32];
            m[r.below(32) as usize] = r.below(256) as u8;
            m
        }
        4 => r.scalar(),
        _ => r.bytes32(),
    }
}
fn e02(r: &mut Rng, t: &mut Tr) -> R {
    let v = edge256(r);
    say!(t, "{v:?}");
    t.mark();
    let b = u256_to_big_uint(&v);
    ck!(limbs_bytes(b.0) == v, "bytes-to-limbs", "u256_to_big_uint({v:?}) is {:?}", b.0);
    ck!(big_uint_to_u256(&b) == v, "limbs-to-bytes", "big_uint_to_u256 does not give the bytes back");
    ck!(limbs_bytes(u256_to_le_limbs(v)) == v, "le-limbs", "u256_to_le_limbs({v:?})");
    let s = split_u256_into_limbs(v);
    let mut lo = [0; 32];
    lo[..16].copy_from_slice(&v[..16]);
    let mut hi = [0; 32];
    hi[..16].copy_from_slice(&v[16..]);
    ck!(s == [lo, hi], "split", "split_u256_into_limbs({v:?}) is {s:?}");
    let x = r.edge64();
    let mut w = [0; 32];
    w[..8].copy_from_slice(&x.to_le_bytes());
    ck!(u64_to_u256_skip_mr(x) == w, "u64-raw", "u64_to_u256_skip_mr({x}) is {:?}", u64_to_u256_skip_mr(x));
    use ark_ff::PrimeField;
    let f = u64_to_scalar(x);
    ck!(f.into_repr().0 == [x, 0, 0, 0], "u64-scalar", "u64_to_scalar({x}) is {:?}", f.into_repr().0);
    ck!(fr_to_u256_le_repr(&f) == w, "scalar-repr", "fr_to_u256_le_repr of {x}");
    if cmp_le(&v, &limbs_bytes(MODULUS)).is_lt() {
        let fr = u256_to_fr_skip_mr(&v);
        ck!(fr_to_u256_le(&fr) == v, "montgomery-bytes", "fr_to_u256_le(u256_to_fr_skip_mr({v:?})) differs");
        let red = RawU256::new(v).reduce();
        let back = fr_to_u256_le_repr(&u256_to_fr_skip_mr(&red));
        ck!(back == v, "reduce", "reducing {v:?} and converting back gives {back:?}");
    }
    ck!(RawU256::new(v).skip_mr() == v && *RawU256::new(v).skip_mr_ref() == v, "raw", "skip_mr changes the bytes");
    Ok(())
}
fn e02_ord(r: &mut Rng, t: &mut Tr) -> R {
    let a = edge256(r);
    let mut b = if r.chance(1, 2) { a } else { edge256(r) };
    if r.chance(1, 2) {
        b[r.below(32) as usize] ^= 1 << r.below(8);
    }
    say!(t, "{a:?} {b:?}");
    t.mark();
    let w = cmp_le(&a, &b);
    ck!(OrdU256(a).cmp(&OrdU256(b)) == w, "order", "{a:?} compares {:?} to {b:?}", OrdU256(a).cmp(&OrdU256(b)));
    ck!(OrdU256(a).partial_cmp(&OrdU256(b)) == Some(w), "partial-order", "{a:?} compares {:?} to {b:?}", OrdU256(a).partial_cmp(&OrdU256(b)));
    Ok(())
}
fn e02_fe(r: &mut Rng, t: &mut Tr) -> R {
    let a = edge256(r);
    say!(t, "{a:?}");
    t.mark();
    let w = cmp_le(&a, &limbs_bytes(MODULUS)).is_lt();
    let g = is_element_scalar_field(u256_to_big_uint(&a));
    ck!(g == w, "field-element", "{a:?} is classified as field element: {g}");
    Ok(())
}
