//! executable contracts of deposits, batch formation, batch hashing and tree updates
use crate::env::*;
use crate::p_state::*;
use crate::svm::*;
use crate::{acct, ck, say, Case, Rng, Tr, R};
use borsh::BorshSerialize;
use elusiv::buffer::RingBuffer;
use elusiv::commitment::poseidon_hash::full_poseidon2_hash;
use elusiv::fields::*;
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::token::*;
use elusiv::types::*;
use elusiv_types::accounts::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![
        ("Q03", vec![("next-batch", q03_next as Case), ("start", q03_start)]),
        ("M01", vec![("one-batch", m01_one as Case), ("batches", m01_many), ("rotation", m01_rotation)]),
        ("H01", vec![("deposit-hash", h01_base as Case), ("batch-hash", h01_batch)]),
        ("G04", vec![("reset", g04 as Case)]),
        ("D01", vec![("accepted-deposit", d01 as Case)]),
        ("D02", vec![("refused-deposit", d02 as Case)]),
        ("D03", vec![("finalize-deposit", d03 as Case)]),
        ("C01", vec![("step-reward", c01 as Case)]),
    ]
}

/// the poseidon hash of two stored nodes
pub fn h2(a: &U256, b: &U256) -> U256 {
    fr_to_u256_le(&full_poseidon2_hash(u256_to_fr_skip_mr(a), u256_to_fr_skip_mr(b)))
}

/// a queue account whose ring starts at `start`
fn fill<Q: RingQueue>(q: &mut Q, start: usize, vals: &[Q::N], junk: &Q::N) {
    for _ in 0..start {
        q.enqueue(junk.clone()).unwrap();
        q.dequeue_first().unwrap();
    }
    for v in vals {
        q.enqueue(v.clone()).unwrap();
    }
}
fn drain<Q: RingQueue>(q: &Q) -> Vec<Q::N> {
    (0..q.len() as usize).map(|i| q.view(i).unwrap()).collect()
}

fn requests(r: &mut Rng, n: usize, max_rate: u32) -> Vec<CommitmentHashRequest> {
    let cap = r.below(max_rate as u64 + 1);
    let versions = if r.chance(1, 3) { 2 } else { 1 };
    let base = r.below(1000) as u32;
    let mut v = base + if versions == 2 { r.below(3) as u32 } else { 0 };
    (0..n)
        .map(|i| {
            if versions == 2 && r.chance(1, 8) && i > 0 {
                v = base + r.below(3) as u32
            }
            CommitmentHashRequest { commitment: r.scalar(), fee_version: v, min_batching_rate: if r.chance(1, 2) { 0 } else { r.below(cap + 1) as u32 } }
        })
        .collect()
}
/// Ok((n, rate)) of the batch at the head of the queue
fn o_batch(q: &[CommitmentHashRequest]) -> Option<(usize, u32)> {
    let mut n = 0;
    let mut rate = 0;
    let mut want = 1;
    while n < want {
        let x = q.get(n)?;
        if x.fee_version != q[0].fee_version {
            return None;
        }
        rate = rate.max(x.min_batching_rate);
        want = 1usize << rate;
        n += 1;
    }
    Some((n, rate))
}
fn o_largest(q: &[CommitmentHashRequest], n: usize, rate: u32) -> bool {
    n == 1 << rate && q.len() >= n && q[..n].iter().map(|x| x.min_batching_rate).max() == Some(rate) && q[..n].iter().all(|x| x.fee_version == q[0].fee_version)
}

fn q03_next(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<CommitmentQueueAccount>(None).1;
    let mut a = acct!(d, CommitmentQueueAccount);
    let mut q = CommitmentQueue::new(&mut a);
    let n = r.below(40) as usize;
    let v = requests(r, n, 4);
    let start = r.below(240) as usize;
    fill(&mut q, start, &v, &v.get(0).cloned().unwrap_or_default());
    say!(t, "queue of {} from slot {start}: (rate, version) {:?}", n, v.iter().map(|x| (x.min_batching_rate, x.fee_version)).collect::<Vec<_>>());
    let g = guarded(|| q.next_batch());
    let want = o_batch(&v);
    match (&g, want) {
        (Ok(Ok((b, rate))), Some((wn, wr))) => {
            ck!(*rate == wr && b[..] == v[..wn], "batch-contents", "the batch has rate {rate} and {} commitments, expected rate {wr} and the first {wn}", b.len());
            ck!(o_largest(&v, wn, wr), "oracle", "inconsistent oracle");
            t.mark();
        }
        (Ok(Ok((b, rate))), None) => ck!(false, "batch-formed", "a batch of {} at rate {rate} is formed", b.len()),
        (_, Some(w)) => ck!(false, "batch-refused", "the batch {w:?} is refused: {g:?}"),
        _ => {}
    }
    ck!(drain(&q) == v, "view-only", "forming a batch changes the queue");
    Ok(())
}

/// metadata account memory with its children
pub struct Meta {
    pub data: Vec<u8>,
    pub kids: Vec<Child>,
    pub present: Vec<bool>,
}
impl Meta {
    pub fn new(present: Vec<bool>) -> Self {
        Meta { data: blank::<MetadataAccount>(None).1, kids: (0..16).map(|i| Child::new(if present[i] { <MetadataChildAccount as SizedAccount>::SIZE } else { 2 })).collect(), present }
    }
    pub fn with<T>(&mut self, f: impl FnOnce(&mut MetadataAccount) -> T) -> T {
        let p = self.present.clone();
        let infos: Vec<_> = self.kids.iter_mut().map(|k| k.info()).collect();
        let refs: Vec<_> = infos.iter().zip(p).map(|(i, p)| p.then_some(i)).collect();
        let mut s = MetadataAccount::new_with_child_accounts(&mut self.data, refs).unwrap();
        f(&mut s)
    }
    pub fn entry(&self, i: usize) -> [u8; 17] {
        let (c, l) = (i / 65536, i % 65536);
        self.kids[c].data[1 + l * 17..1 + l * 17 + 17].try_into().unwrap()
    }
}

fn q03_start(r: &mut Rng, t: &mut Tr) -> R {
    let mut dq = blank::<CommitmentQueueAccount>(None).1;
    let mut dm = blank::<MetadataQueueAccount>(None).1;
    let mut dh = blank::<CommitmentHashingAccount>(None).1;
    let n = r.below(24) as usize;
    let v = requests(r, n, 4);
    let m: Vec<CommitmentMetadata> = (0..n).map(|_| { let b = r.bytes32(); b[..17].try_into().unwrap() }).collect();
    let start = r.below(240) as usize;
    fill(&mut CommitmentQueue::new(&mut acct!(dq, CommitmentQueueAccount)), start, &v, &Default::default());
    let mcut = if r.chance(1, 10) { r.below(n as u64 + 1) as usize } else { n };
    fill(&mut MetadataQueue::new(&mut acct!(dm, MetadataQueueAccount)), start, &m[..mcut], &[0; 17]);
    let want = o_batch(&v);
    // the metadata position, sometimes around the border of two child accounts or at the end
    let mp = match r.below(4) {
        0 => 65536 * r.range(1, 15) as u32 - r.below(20) as u32,
        1 => (1 << 20) - r.below(20) as u32,
        _ => r.below(1 << 20) as u32,
    };
    let present: Vec<bool> = (0..16).map(|i| if i == (mp as usize) >> 16 { r.chance(9, 10) } else if i == (mp as usize + 20) >> 16 { r.chance(2, 3) } else { false }).collect();
    let mut meta = Meta::new(present.clone());
    meta.with(|a| a.set_next_metadata_ptr(&mp));
    let (active, setup) = (r.chance(1, 8), r.chance(7, 8));
    let rate = want.map(|w| w.1).unwrap_or(0);
    let ord = match r.below(4) {
        // around the end of the tree
        0 => ((1u32 << 20) + 16 - r.below(34) as u32) >> rate << rate,
        _ => (r.below(1 << 20) as u32) >> rate << rate,
    };
    {
        let mut h = acct!(dh, CommitmentHashingAccount);
        if setup {
            h.setup(ord, &[[0; 32]; 20]).unwrap();
        }
        h.set_is_active(&active);
    }
    let can_fail = r.chance(1, 2);
    say!(t, "queue {:?}, {} metadata, metadata position {mp} with child accounts {present:?}, hashing account active {active} setup {setup} position {ord}, failure tolerated {can_fail}", v.iter().map(|x| (x.min_batching_rate, x.fee_version)).collect::<Vec<_>>(), mcut);
    let before: Vec<Vec<u8>> = meta.kids.iter().map(|k| k.data.clone()).collect();
    let g = {
        let mut q = acct!(dq, CommitmentQueueAccount);
        let mut mq = acct!(dm, MetadataQueueAccount);
        let mut h = acct!(dh, CommitmentHashingAccount);
        guarded(|| meta.with(|ma| init_commitment_hash(&mut q, &mut mq, &mut h, ma, can_fail)))
    };
    let mut q = acct!(dq, CommitmentQueueAccount);
    let mut mq = acct!(dm, MetadataQueueAccount);
    let q = drain(&CommitmentQueue::new(&mut q));
    let mq = drain(&MetadataQueue::new(&mut mq));
    let mut dh2 = dh.clone();
    let h = acct!(dh2, CommitmentHashingAccount);
    let room = want.map(|w| {
        w.0 <= mcut && ord as usize + w.0 <= 1 << 20 && (mp as usize..mp as usize + w.0).all(|i| i < 1 << 20 && present[i >> 16])
    });
    let may = !active && setup && room == Some(true);
    match g {
        Ok(Ok(())) => {
            let started = !active && h.get_is_active();
            say!(t, "succeeds, started {started}");
            if !started {
                ck!(can_fail, "silent-failure", "the start fails without an error");
                ck!(q == v && mq == m[..mcut], "consumed-without-start", "no batch was started, but {} of {} commitments and {} of {} metadata are left in the queues", q.len(), v.len(), mq.len(), mcut);
                ck!(!may, "start-refused", "a batch that can be started is not");
                let np = meta.with(|a| a.get_next_metadata_ptr());
                // entries at and after the position are not stored metadata
                let first = mp as usize >> 16;
                let kept = meta.kids.iter().zip(&before).enumerate().all(|(i, (k, b))| i > first || if i < first { k.data == *b } else { let e = 1 + (mp as usize & 65535) * 17; k.data.len() < e || k.data[..e] == b[..e] });
                ck!(np == mp && kept, "metadata-without-start", "no batch was started, but the metadata position is {np} (was {mp}) or stored metadata changed");
            } else {
                let Some((n, rate)) = want else {
                    ck!(false, "no-batch", "a batch is started although none can be formed");
                    return Ok(());
                };
                ck!(may, "started", "a batch is started that must not be");
                ck!(q == v[n..] && mq == m[n..mcut], "consumed", "{} commitments and {} metadata are left in the queues, expected {} and {}", q.len(), mq.len(), v.len() - n, mcut - n);
                for i in 0..n {
                    ck!(meta.entry(mp as usize + i) == m[i], "metadata", "metadata {i} is stored as {:?}, expected {:?}", meta.entry(mp as usize + i), m[i]);
                    ck!(h.get_hash_tree(i) == v[i].commitment, "commitments", "commitment {i} differs in the hashing account");
                }
                let np = meta.with(|a| a.get_next_metadata_ptr());
                ck!(np as usize == mp as usize + n, "metadata-position", "the metadata position is {np}, expected {}", mp as usize + n);
                ck!(h.get_batching_rate() == rate && h.get_fee_version() == v[0].fee_version && h.get_ordering() == ord && h.get_instruction() == 0 && h.get_finalization_ix() == 0, "hashing-account", "rate {} version {} position {} instruction {}", h.get_batching_rate(), h.get_fee_version(), h.get_ordering(), h.get_instruction());
                t.mark();
            }
        }
        Ok(Err(_)) | Err(_) => {
            say!(t, "fails");
            // an error or abort rolls the transaction back
            ck!(!may, "start-refused", "a batch that can be started is refused");
            t.mark();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tree updates
fn aligned(r: &mut Rng, rate: u32) -> u32 {
    let n = 1u64 << (20 - rate);
    (match r.below(5) {
        0 => 0,
        1 => n - 1,
        2 => ((1u64 << r.below(21 - rate as u64)) - 1).min(n - 1),
        3 => (1u64 << r.below(20 - rate as u64)).min(n - 1),
        _ => r.below(n),
    } as u32)
        << rate
}
struct Batch {
    q: Vec<u8>,
    m: Vec<u8>,
    h: Vec<u8>,
    meta: Meta,
}
impl Batch {
    fn new(r: &mut Rng) -> Self {
        let mut p = vec![false; 16];
        p[0] = true;
        let mut h = blank::<CommitmentHashingAccount>(None).1;
        // leftovers of earlier batches
        if r.chance(3, 4) {
            let mut a = acct!(h, CommitmentHashingAccount);
            for i in 0..31 {
                a.set_hash_tree(i, &r.scalar())
            }
            a.set_finalization_ix(&(r.below(6) as u32));
            a.set_batching_rate(&(r.below(5) as u32));
            a.set_instruction(&(r.below(38) as u32));
        }
        Batch { q: blank::<CommitmentQueueAccount>(None).1, m: blank::<MetadataQueueAccount>(None).1, h, meta: Meta::new(p) }
    }
    /// enqueues 2^rate commitments, starts and computes the batch
    fn hash(&mut self, tr: &mut Tree, r: &mut Rng, rate: u32, t: &mut Tr) -> Result<Vec<U256>, crate::Viol> {
        let n = 1usize << rate;
        let big = r.below(n as u64) as usize;
        let rates: Vec<u32> = (0..n).map(|i| if i == big { rate } else { r.below(rate as u64 + 1) as u32 }).collect();
        // the first that raises the batch to `rate` has to come before the batch would be complete
        let mut v: Vec<CommitmentHashRequest> = rates.iter().map(|x| CommitmentHashRequest { commitment: r.scalar(), fee_version: 7, min_batching_rate: *x }).collect();
        if o_batch(&v) != Some((n, rate)) {
            v[0].min_batching_rate = rate;
        }
        let mut q = acct!(self.q, CommitmentQueueAccount);
        let mut m = acct!(self.m, MetadataQueueAccount);
        {
            let mut q = CommitmentQueue::new(&mut q);
            let mut m = MetadataQueue::new(&mut m);
            for x in &v {
                q.enqueue(x.clone()).unwrap();
                m.enqueue([1; 17]).unwrap();
            }
        }
        let mut h = acct!(self.h, CommitmentHashingAccount);
        let g = guarded(|| tr.with(|s| init_commitment_hash_setup(&mut h, s, false)));
        ck!(matches!(g, Ok(Ok(()))), "setup", "the setup of a batch fails: {g:?}");
        let g = guarded(|| self.meta.with(|ma| init_commitment_hash(&mut q, &mut m, &mut h, ma, false)));
        ck!(matches!(g, Ok(Ok(()))), "start", "the start of a batch fails: {g:?}");
        let mut k = 0;
        loop {
            let g = guarded(|| elusiv::commitment::compute_commitment_hash_partial(&mut h));
            if !matches!(g, Ok(Ok(()))) {
                break;
            }
            k += 1;
            ck!(k <= 200, "no-end", "the computation does not end");
        }
        say!(t, "batch of rate {rate} hashed in {k} steps");
        Ok(v.iter().map(|x| x.commitment).collect())
    }
    fn finalize(&mut self, tr: &mut Tree, rate: u32) -> R {
        let mut h = acct!(self.h, CommitmentHashingAccount);
        for i in 0..=rate {
            let g = guarded(|| tr.with(|s| finalize_commitment_hash(&mut h, s)));
            ck!(matches!(g, Ok(Ok(()))), "finalize", "finalization step {i} fails: {g:?}");
        }
        Ok(())
    }
}
/// expected nodes after a batch of commitments at position p, from the siblings as read before
fn expected(c: &[U256], p: u32, rate: u32, mut sib: impl FnMut(usize, usize) -> U256) -> BTreeMap<(usize, usize), U256> {
    let mut m = BTreeMap::new();
    let mut layer: Vec<U256> = c.to_vec();
    let mut first = p as usize;
    let mut level = 20;
    for (i, x) in layer.iter().enumerate() {
        m.insert((first + i, level), *x);
    }
    let _ = rate;
    while level > 0 {
        if layer.len() == 1 {
            let s = sib(first ^ 1, level);
            layer = vec![if first & 1 == 0 { h2(&layer[0], &s) } else { h2(&s, &layer[0]) }];
        } else {
            layer = layer.chunks(2).map(|x| h2(&x[0], &x[1])).collect();
        }
        first /= 2;
        level -= 1;
        for (i, x) in layer.iter().enumerate() {
            m.insert((first + i, level), *x);
        }
    }
    m
}

fn m01_one(r: &mut Rng, t: &mut Tr) -> R {
    let rate = r.below(5) as u32;
    let p = aligned(r, rate);
    let mut tr = Tree::new();
    let junk = r.chance(1, 2);
    let mut sibs: BTreeMap<(usize, usize), U256> = BTreeMap::new();
    tr.with(|s| {
        for l in 1..=20usize {
            let i = (p as usize >> (20 - l)) ^ 1;
            if i & 1 == 0 || junk {
                // stored left siblings; to the right possibly leftovers of an earlier tree
                let v = r.scalar();
                s.set_node(&v, i, l).unwrap();
                if i & 1 == 0 {
                    sibs.insert((i, l), v);
                }
            }
            if i & 1 == 1 {
                sibs.insert((i, l), EMPTY_TREE[20 - l]);
            }
        }
        s.set_next_commitment_ptr(&p);
        s.set_mt_roots_count(&(r.below(1000) as u32));
    });
    say!(t, "rate {rate} at position {p}, leftovers {junk}");
    let mut b = Batch::new(r);
    let c = b.hash(&mut tr, r, rate, t)?;
    let before: Vec<Vec<u8>> = tr.kids.iter().map(|k| k.data.clone()).collect();
    b.finalize(&mut tr, rate)?;
    let e = expected(&c, p, rate, |i, l| if l >= 20 - rate as usize && l > 20 - rate as usize { [0; 32] } else { sibs[&(i, l)] });
    tr.with(|s| {
        let np = s.get_next_commitment_ptr();
        ck!(np == p + (1 << rate), "next-position", "the next position is {np}, expected {}", p + (1 << rate));
        for ((i, l), v) in e.iter().rev() {
            let g = guarded(|| s.get_node(*i, *l));
            ck!(matches!(&g, Ok(Ok(x)) if x == v), "node", "node {i} of level {l} reads {g:?}, expected {v:?} (batch rate {rate} at position {p})");
        }
        for ((i, l), v) in &sibs {
            if !e.contains_key(&(*i, *l)) {
                let g = guarded(|| s.get_node(*i, *l));
                ck!(matches!(&g, Ok(Ok(x)) if x == v), "sibling-changed", "the sibling {i} of level {l} reads {g:?}, expected {v:?}");
            }
        }
        let root = e[&(0, 0)];
        ck!(matches!(guarded(|| s.is_root_valid(&root)), Ok(true)), "root-invalid", "the new root is not accepted");
        Ok(())
    })?;
    let changed: usize = tr.kids.iter().zip(&before).map(|(k, b)| if k.data == *b { 0 } else { k.data[1..].chunks(32).zip(b[1..].chunks(32)).filter(|(x, y)| x != y).count() }).sum();
    ck!(changed <= e.len(), "other-nodes", "{changed} stored nodes change, expected {}", e.len());
    t.mark();
    Ok(())
}
/// several batches into one tree, against a full model of the tree
fn m01_many(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    let mut model: BTreeMap<(usize, usize), U256> = BTreeMap::new();
    let mut p: u32 = 0;
    let mut b = Batch::new(r);
    for _ in 0..r.range(2, 5) {
        let mut rate = r.below(5) as u32;
        while p % (1 << rate) != 0 {
            rate -= 1;
        }
        let c = b.hash(&mut tr, r, rate, t)?;
        b.finalize(&mut tr, rate)?;
        let e = expected(&c, p, rate, |i, l| model.get(&(i, l)).cloned().unwrap_or(EMPTY_TREE[20 - l]));
        model.extend(e);
        p += 1 << rate;
        tr.with(|s| {
            ck!(s.get_next_commitment_ptr() == p, "next-position", "the next position is {}, expected {p}", s.get_next_commitment_ptr());
            for ((i, l), v) in &model {
                let g = guarded(|| s.get_node(*i, *l));
                ck!(matches!(&g, Ok(Ok(x)) if x == v), "node", "node {i} of level {l} reads {g:?}, expected {v:?} (last batch rate {rate}, next position {p})");
            }
            Ok(())
        })?;
    }
    t.mark();
    Ok(())
}

/// a batch is still being hashed when the tree is replaced
fn m01_rotation(r: &mut Rng, t: &mut Tr) -> R {
    let rate = r.below(5) as u32;
    let n = 1u32 << rate;
    // the last place, or the one before it
    let p = (1u32 << 20) - n * r.range(1, 2) as u32;
    let mut tr = Tree::new();
    let tree = r.below(1000) as u32;
    tr.with(|s| {
        s.set_next_commitment_ptr(&p);
        s.set_trees_count(&tree);
    });
    let mut b = Batch::new(r);
    let c = b.hash(&mut tr, r, rate, t)?;
    // the next batch in the queue
    let next = r.below(5) as u32;
    let v: Vec<CommitmentHashRequest> = (0..1 << next).map(|_| CommitmentHashRequest { commitment: r.scalar(), fee_version: 1, min_batching_rate: next }).collect();
    let mut q = acct!(b.q, CommitmentQueueAccount);
    for x in &v {
        CommitmentQueue::new(&mut q).enqueue(*x).unwrap();
    }
    let (_, mut dn) = blank::<NullifierAccount>(Some(tree));
    let mut na = <NullifierAccount as ProgramAccount>::new(&mut dn).unwrap();
    let g = guarded(|| tr.with(|s| reset_active_merkle_tree(s, &mut q, &mut na, tree)));
    let replaced = matches!(g, Ok(Ok(())));
    say!(t, "batch of rate {rate} at position {p} is hashed, next batch of rate {next}, tree replaced {replaced}");
    let mut h = acct!(b.h, CommitmentHashingAccount);
    let mut fin = 0;
    while fin < 6 && matches!(guarded(|| tr.with(|s| finalize_commitment_hash(&mut h, s))), Ok(Ok(()))) {
        fin += 1;
    }
    let np = tr.with(|s| s.get_next_commitment_ptr());
    if !replaced {
        ck!(fin == rate + 1 && np == p + n, "not-finalized", "{fin} finalization steps succeed, next position {np}");
        return Ok(());
    }
    ck!(np == 0 || fin == rate + 1 && np == n, "rotated-while-hashing", "the batch of rate {rate} for position {p} of tree {tree} is finalized after the tree was replaced: the next position of the empty new tree becomes {np}");
    if fin <= rate {
        // the computation may be restarted for the new tree
        let g = guarded(|| tr.with(|s| init_commitment_hash_setup(&mut h, s, false)));
        say!(t, "restart {g:?}");
        while matches!(guarded(|| elusiv::commitment::compute_commitment_hash_partial(&mut h)), Ok(Ok(()))) {}
        fin = 0;
        while fin < 6 && matches!(guarded(|| tr.with(|s| finalize_commitment_hash(&mut h, s))), Ok(Ok(()))) {
            fin += 1;
        }
    }
    if fin == rate + 1 {
        let e = expected(&c, 0, rate, |_, l| EMPTY_TREE[20 - l]);
        tr.with(|s| {
            ck!(s.get_next_commitment_ptr() == n, "next-position-new-tree", "the next position of the new tree is {}, expected {n}", s.get_next_commitment_ptr());
            for ((i, l), v) in &e {
                let g = guarded(|| s.get_node(*i, *l));
                ck!(matches!(&g, Ok(Ok(x)) if x == v), "node-new-tree", "node {i} of level {l} of the new tree reads {g:?}, expected {v:?}");
            }
            Ok(())
        })?;
    }
    t.mark();
    Ok(())
}

// ---------------------------------------------------------------- hash computations
pub fn metadata(r: &mut Rng) -> CommitmentMetadata {
    r.bytes32()[..17].try_into().unwrap()
}
pub fn deposit_hash(base: &U256, amount: u64, token: u16, recent: u32) -> U256 {
    let b = u256_to_fr_skip_mr(&RawU256::new(*base).reduce());
    let mut x = [0u8; 32];
    x[..8].copy_from_slice(&amount.to_le_bytes());
    x[8..16].copy_from_slice(&(token as u64 + ((recent as u64) << 16)).to_le_bytes());
    let y = u256_to_fr_skip_mr(&RawU256::new(x).reduce());
    fr_to_u256_le(&full_poseidon2_hash(b, y))
}
fn bc_request(r: &mut Rng) -> BaseCommitmentHashRequest {
    BaseCommitmentHashRequest {
        base_commitment: RawU256::new(r.scalar()),
        recent_commitment_index: r.next() as u32,
        amount: r.edge64(),
        token_id: r.below(6) as u16,
        commitment: RawU256::new(r.scalar()),
        fee_version: r.next() as u32,
        min_batching_rate: r.below(5) as u32,
    }
}
fn h01_base(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<BaseCommitmentHashingAccount>(Some(0)).1;
    let mut a = acct!(d, BaseCommitmentHashingAccount);
    let q = bc_request(r);
    let before = guarded(|| compute_base_commitment_hash(&mut a, 0));
    ck!(!matches!(before, Ok(Ok(()))), "inactive", "a computation that was not started makes a step");
    a.setup(q.clone(), metadata(r), r.bytes32()).unwrap();
    say!(t, "deposit of {} of token {} recent index {}", q.amount, q.token_id, q.recent_commitment_index);
    ck!(a.get_is_active() && a.get_instruction() == 0, "setup", "the computation does not start at its first step");
    for k in 0..BC_TXS as u32 {
        let g = guarded(|| compute_base_commitment_hash(&mut a, 0));
        ck!(matches!(g, Ok(Ok(()))) && a.get_instruction() == k + 1, "step", "step {k} gives {g:?}, counter {}", a.get_instruction());
        if r.chance(1, 2) {
            // the computation survives in account data only
            a.set_instruction(&(k + 1));
            drop(a);
            a = acct!(d, BaseCommitmentHashingAccount);
        }
    }
    let res = fr_to_u256_le(&a.get_state().result());
    let want = deposit_hash(&q.base_commitment.skip_mr(), q.amount, q.token_id, q.recent_commitment_index);
    ck!(res == want, "hash", "the computed hash is {res:?}, expected {want:?}");
    for _ in 0..2 {
        let g = guarded(|| compute_base_commitment_hash(&mut a, 0));
        ck!(!matches!(g, Ok(Ok(()))), "step-after-end", "a step after the last one succeeds");
    }
    ck!(fr_to_u256_le(&a.get_state().result()) == want && a.get_instruction() == 2, "changed-after-end", "a refused step changes the result");
    t.mark();
    Ok(())
}
fn h01_batch(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    let mut b = Batch::new(r);
    {
        let mut h = acct!(b.h, CommitmentHashingAccount);
        h.set_finalization_ix(&0);
        h.set_instruction(&0);
        h.set_batching_rate(&0);
    }
    let mut p = 0u32;
    // model of the state machine
    let (mut active, mut setup) = (false, false);
    let (mut done, mut fin, mut rate) = (0i128, 0u32, 0u32);
    let mut queued: Vec<CommitmentHashRequest> = vec![];
    let mut cur: Vec<U256> = vec![];
    let mut model: BTreeMap<(usize, usize), U256> = BTreeMap::new();
    let steps = r.range(30, 160);
    let hurry = r.below(4);
    for k in 0..steps {
        let kind = if r.below(4) < hurry {
            // the operation that makes progress
            if !active && !setup { 1 } else if !active { if queued.is_empty() { 0 } else { 2 } } else if done < IXS[rate as usize] { 3 } else { 4 }
        } else {
            r.below(5)
        };
        let mut q = acct!(b.q, CommitmentQueueAccount);
        let mut m = acct!(b.m, MetadataQueueAccount);
        let mut h = acct!(b.h, CommitmentHashingAccount);
        match kind {
            0 => {
                if queued.len() < 32 {
                    let want = r.below(5) as u32;
                    let n = 1 << want;
                    if queued.is_empty() && p % n == 0 && !active {
                        for i in 0..n {
                            let x = CommitmentHashRequest { commitment: r.scalar(), fee_version: 3, min_batching_rate: if i == 0 { want } else { 0 } };
                            CommitmentQueue::new(&mut q).enqueue(x).unwrap();
                            MetadataQueue::new(&mut m).enqueue([2; 17]).unwrap();
                            queued.push(x);
                        }
                        say!(t, "{k}: queue a batch of rate {want}");
                    }
                }
            }
            1 => {
                let g = guarded(|| tr.with(|s| init_commitment_hash_setup(&mut h, s, false)));
                let ok = matches!(g, Ok(Ok(())));
                say!(t, "{k}: setup -> {ok}");
                ck!(ok == !active, "setup", "setup while active={active} returns ok={ok}");
                if ok {
                    setup = true;
                    done = 0;
                    fin = 0;
                }
            }
            2 => {
                let g = guarded(|| b.meta.with(|ma| init_commitment_hash(&mut q, &mut m, &mut h, ma, false)));
                let ok = matches!(g, Ok(Ok(())));
                say!(t, "{k}: start -> {ok}");
                ck!(ok == (!active && setup && !queued.is_empty()), "start", "start while active={active} setup={setup} with {} queued returns ok={ok}", queued.len());
                if ok {
                    active = true;
                    rate = queued[0].min_batching_rate;
                    cur = queued.iter().map(|x| x.commitment).collect();
                    queued.clear();
                }
                if !ok {
                    // rolled back
                    continue;
                }
            }
            3 => {
                let mut x = b.h.clone();
                let mut h = acct!(x, CommitmentHashingAccount);
                // compute_commitment_hash guards activity; the partial function guards the step count
                if !active {
                    continue;
                }
                let g = guarded(|| elusiv::commitment::compute_commitment_hash_partial(&mut h));
                let ok = matches!(g, Ok(Ok(())));
                ck!(ok == (done < IXS[rate as usize]), "step", "step {done} of {} (rate {rate}) returns ok={ok}", IXS[rate as usize]);
                if ok {
                    done += 1;
                    ck!(h.get_instruction() as i128 == done, "step-counter", "the step counter is {}, expected {done}", h.get_instruction());
                    b.h = x;
                }
                continue;
            }
            _ => {
                let before = tr.with(|s| s.get_next_commitment_ptr());
                let g = guarded(|| tr.with(|s| finalize_commitment_hash(&mut h, s)));
                let ok = matches!(g, Ok(Ok(())));
                let may = active && done >= IXS[rate as usize] && fin <= rate;
                say!(t, "{k}: finalize -> {ok} (active {active} steps {done} rate {rate} finalized {fin})");
                ck!(ok == may, if ok { "finalized-early" } else { "finalize-refused" }, "finalization with active={active}, {done} of {} steps done, {fin} finalization steps done returns ok={ok}", IXS[rate as usize]);
                if ok {
                    fin += 1;
                    ck!(h.get_finalization_ix() == fin, "finalization-counter", "the finalization counter is {}, expected {fin}", h.get_finalization_ix());
                    if fin == rate + 1 {
                        active = false;
                        setup = false;
                        let e = expected(&cur, p, rate, |i, l| model.get(&(i, l)).cloned().unwrap_or(EMPTY_TREE[20 - l]));
                        model.extend(e);
                        p += 1 << rate;
                        tr.with(|s| {
                            for ((i, l), v) in &model {
                                let g = guarded(|| s.get_node(*i, *l));
                                ck!(matches!(&g, Ok(Ok(x)) if x == v), "result", "after the last finalization node {i} of level {l} reads {g:?}, expected {v:?}");
                            }
                            Ok(())
                        })?;
                        t.mark();
                    } else {
                        ck!(tr.with(|s| s.get_next_commitment_ptr()) == before, "early-position", "the next position moves before the last finalization step");
                    }
                    ck!(h.get_is_active() == active && h.get_setup() == setup, "activity", "active {} setup {} expected {active} {setup}", h.get_is_active(), h.get_setup());
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tree rotation
fn g04(r: &mut Rng, t: &mut Tr) -> R {
    let mut tr = Tree::new();
    let n = r.below(20) as usize;
    let v = requests(r, n, 4);
    let mut dq = blank::<CommitmentQueueAccount>(None).1;
    fill(&mut CommitmentQueue::new(&mut acct!(dq, CommitmentQueueAccount)), 0, &v, &Default::default());
    let p = match r.below(4) {
        0 => 1 << 20,
        1 => (1u32 << 20) - r.below(34) as u32,
        2 => r.below(3) as u32,
        _ => r.below(1 << 20) as u32,
    };
    let tree = r.edge64() as u32;
    let root = r.scalar();
    tr.with(|s| {
        s.set_node(&root, 0, 0).unwrap();
        s.set_next_commitment_ptr(&p);
        s.set_mt_roots_count(&(r.next() as u32));
        s.set_trees_count(&tree);
        for i in 0..HISTORY_ARRAY_SIZE {
            s.set_active_mt_root_history(i, &r.scalar());
        }
    });
    let idx = if r.chance(3, 4) { tree } else { tree.wrapping_add(r.below(3) as u32).wrapping_sub(1) };
    let (_, mut dn) = blank::<NullifierAccount>(Some(idx));
    let next = o_batch(&v);
    let full = p == 1 << 20 || next.map(|b| p as usize + b.0 >= 1 << 20).unwrap_or(false);
    say!(t, "tree {tree} position {p}, asked for tree {idx}, next batch {next:?}");
    let g = {
        let mut q = acct!(dq, CommitmentQueueAccount);
        let mut na = <NullifierAccount as ProgramAccount>::new(&mut dn).unwrap();
        guarded(|| tr.with(|s| reset_active_merkle_tree(s, &mut q, &mut na, idx)))
    };
    let ok = matches!(g, Ok(Ok(())));
    // the last supported tree count cannot be passed
    if ok {
        ck!(idx == tree, "wrong-tree", "tree {tree} is active, tree {idx} was closed");
        ck!(full, "closed-early", "the tree at position {p} is closed although the next batch {next:?} fits");
        ck!(tree != u32::MAX, "tree-count-wraps", "the tree count wraps");
        tr.with(|s| {
            ck!(s.get_trees_count() == tree + 1, "tree-count", "the tree count is {}", s.get_trees_count());
            ck!(s.get_next_commitment_ptr() == 0 && s.get_mt_roots_count() == 0, "not-empty", "the new tree starts at position {}", s.get_next_commitment_ptr());
            for l in 0..=20usize {
                let i = r.below(1 << l) as usize;
                ck!(s.get_node(i, l).ok() == Some(EMPTY_TREE[20 - l]), "stale-node", "node {i} of level {l} of the new tree is not empty");
            }
            Ok(())
        })?;
        let na = <NullifierAccount as ProgramAccount>::new(&mut dn).unwrap();
        ck!(na.get_root() == root, "closing-root", "the closed tree's root is recorded as {:?}, expected {root:?}", na.get_root());
        t.mark();
    } else {
        ck!(idx != tree || !full || tree == u32::MAX, "close-refused", "the full tree at position {p} cannot be closed: {g:?}");
    }
    let mut q = acct!(dq, CommitmentQueueAccount);
    if ok {
        ck!(drain(&CommitmentQueue::new(&mut q)) == v, "queue-changed", "closing the tree changes the queue");
    }
    Ok(())
}

// ---------------------------------------------------------------- deposits through the real entrypoint
pub fn w(k: Pubkey) -> AccountMeta {
    meta(k, false, true)
}
pub fn ro(k: Pubkey) -> AccountMeta {
    meta(k, false, false)
}
pub fn sg(k: Pubkey) -> AccountMeta {
    meta(k, true, false)
}
pub fn sw(k: Pubkey) -> AccountMeta {
    meta(k, true, true)
}
pub fn ix(accounts: Vec<AccountMeta>, data: ElusivInstruction) -> Instruction {
    Instruction { program_id: elusiv::id(), accounts, data: data.try_to_vec().unwrap() }
}
pub fn run(wd: &mut World, i: &[Instruction], idx: usize) -> Res {
    wd.exec(elusiv::entrypoint::process_instruction, i, idx)
}
pub fn pyth(price: i64, expo: i32, trading: bool) -> Vec<u8> {
    use pyth_sdk_solana::state::*;
    let mut a = PriceAccount { magic: MAGIC, ver: VERSION_2, atype: AccountType::Price as u32, expo, ..Default::default() };
    a.agg.price = price;
    a.agg.conf = 1;
    a.agg.status = if trading { pyth_sdk_solana::PriceStatus::Trading } else { pyth_sdk_solana::PriceStatus::Unknown };
    bytemuck::bytes_of(&a).to_vec()
}
pub fn ata(k: &Pubkey, token: u16) -> Pubkey {
    if token == 0 { *k } else { spl_associated_token_account::get_associated_token_address(k, &TOKENS[token as usize].mint) }
}
/// bytes of an account written through its accessors
pub fn edit<T: PDAAccount>(wd: &mut World, off: PDAOffset, f: impl FnOnce(&mut Vec<u8>)) {
    let k = T::find(off).0;
    f(&mut wd.accs.get_mut(&k).unwrap().data)
}

/// the program's accounts, prices and two users
pub struct Net {
    pub w: World,
    pub token: u16,
    pub pool: Pubkey,
    pub collector: Pubkey,
    pub sender: Pubkey,
    pub payer: Pubkey,
    pub fee: ProgramFee,
    pub version: u32,
    pub rate: u32,
    pub prices: (i64, i64),
}
/// an independent price conversion: lamports -> token units, by the real conversion of prices
pub fn price_of(n: &Net) -> TokenPrice {
    use pyth_sdk_solana::state::Price as _P;
    let _ = std::marker::PhantomData::<_P>;
    if n.token == 0 {
        return TokenPrice::new_lamports();
    }
    use solana_program::account_info::AccountInfo;
    let (ka, kb) = (TOKENS[0].pyth_usd_price_key, TOKENS[n.token as usize].pyth_usd_price_key);
    let (mut da, mut db) = (pyth(n.prices.0, -8, true), pyth(n.prices.1, -8, true));
    let o = Pubkey::default();
    let (mut la, mut lb) = (1, 1);
    let a = AccountInfo::new(&ka, false, false, &mut la, &mut da, &o, false, 0);
    let b = AccountInfo::new(&kb, false, false, &mut lb, &mut db, &o, false, 0);
    TokenPrice::new(&a, &b, n.token).unwrap_or_else(|_| panic!("prices"))
}
pub fn into_token(n: &Net, lamports: u64) -> u64 {
    Lamports(lamports).into_token(&price_of(n), n.token).map(|t| t.amount()).unwrap_or_else(|_| panic!("conversion"))
}
pub fn net(r: &mut Rng) -> Net {
    let mut wd = World::new(elusiv::id());
    let token = if r.chance(1, 2) { 0 } else { r.below(TOKENS.len() as u64) as u16 };
    let pool = put::<PoolAccount>(&mut wd, None);
    let collector = put::<FeeCollectorAccount>(&mut wd, None);
    put::<GovernorAccount>(&mut wd, None);
    put::<StorageAccount>(&mut wd, None);
    put::<BaseCommitmentBufferAccount>(&mut wd, None);
    put::<CommitmentBufferAccount>(&mut wd, None);
    put::<CommitmentQueueAccount>(&mut wd, None);
    put::<MetadataQueueAccount>(&mut wd, None);
    let (sender, payer) = (r.key(), if r.chance(1, 10) { None } else { Some(r.key()) });
    let payer = payer.unwrap_or(sender);
    for k in [&pool, &collector] {
        wd.accs.get_mut(k).unwrap().lamports += 1 << 45;
    }
    wd.sys(sender, 1 << 50);
    wd.sys(payer, 1 << 50);
    if token > 0 {
        for k in [pool, collector, sender, payer] {
            let a = ata(&k, token);
            wd.put(a, rent(165), token_account_data(&TOKENS[token as usize].mint, &k, 1 << 55), spl_token::ID);
        }
    }
    wd.sys(solana_program::system_program::ID, 1);
    wd.sys(spl_token::ID, 1);
    let prices = (r.range(500_000_000, 20_000_000_000) as i64, r.range(10_000_000, 9_000_000_000) as i64);
    let o = r.key();
    wd.put(TOKENS[0].pyth_usd_price_key, 1, pyth(prices.0, -8, true), o);
    if token > 0 {
        wd.put(TOKENS[token as usize].pyth_usd_price_key, 1, pyth(prices.1, -8, true), o);
    }
    let fee = loop {
        let f = fee_table(r, true);
        if f.is_valid() {
            break f;
        }
    };
    let (version, rate) = (r.below(50) as u32, r.below(5) as u32);
    edit::<GovernorAccount>(&mut wd, None, |d| {
        let mut g = acct!(d, GovernorAccount);
        g.set_fee_version(&version);
        g.set_program_fee(&fee);
        g.set_commitment_batching_rate(&rate);
    });
    let fa = put::<FeeAccount>(&mut wd, Some(version));
    {
        let d = &mut wd.accs.get_mut(&fa).unwrap().data;
        acct!(d, FeeAccount).set_program_fee(&fee);
    }
    Net { w: wd, token, pool, collector, sender, payer, fee, version, rate, prices }
}
pub struct Dep {
    pub idx: u32,
    pub req: BaseCommitmentHashRequest,
    pub meta: CommitmentMetadata,
    pub hash: Pubkey,
}
pub fn amount(r: &mut Rng, token: u16) -> u64 {
    let t = TOKENS[token as usize];
    match r.below(4) {
        0 => t.min + r.below(3),
        1 => t.max - r.below(3),
        _ => r.range(t.min, t.max),
    }
}
fn deposit(n: &mut Net, r: &mut Rng) -> Dep {
    let ptr = match r.below(3) {
        0 => r.below(200) as u32,
        1 => (1 << 20) - r.below(3) as u32,
        _ => r.below(1 << 20) as u32,
    };
    edit::<StorageAccount>(&mut n.w, None, |d| StorageAccount::new_with_child_accounts(d, vec![None; 25]).unwrap().set_next_commitment_ptr(&ptr));
    let back = match r.below(3) {
        0 => 0,
        1 => 127,
        _ => r.below(128) as u32,
    };
    let idx = r.below(1000) as u32;
    Dep {
        idx,
        req: BaseCommitmentHashRequest {
            base_commitment: RawU256::new(r.scalar()),
            recent_commitment_index: ptr.saturating_sub(back),
            amount: amount(r, n.token),
            token_id: n.token,
            commitment: RawU256::new(r.scalar()),
            fee_version: n.version,
            min_batching_rate: n.rate,
        },
        meta: metadata(r),
        hash: BaseCommitmentHashingAccount::find(Some(idx)).0,
    }
}
fn store_ix(n: &Net, d: &Dep, bump: Option<u8>) -> Instruction {
    let tp = if n.token == 0 { solana_program::system_program::ID } else { spl_token::ID };
    ix(
        vec![
            if n.sender == n.payer { sw(n.sender) } else if n.token == 0 { sw(n.sender) } else { sg(n.sender) },
            w(ata(&n.sender, n.token)),
            sw(n.payer),
            w(ata(&n.payer, n.token)),
            w(n.pool),
            w(ata(&n.pool, n.token)),
            w(n.collector),
            w(ata(&n.collector, n.token)),
            ro(TOKENS[0].pyth_usd_price_key),
            ro(TOKENS[n.token as usize].pyth_usd_price_key),
            ro(GovernorAccount::find(None).0),
            ro(StorageAccount::find(None).0),
            w(d.hash),
            w(BaseCommitmentBufferAccount::find(None).0),
            ro(tp),
            ro(solana_program::system_program::ID),
        ],
        ElusivInstruction::StoreBaseCommitment { hash_account_index: d.idx, hash_account_bump: bump.unwrap_or(BaseCommitmentHashingAccount::find(Some(d.idx)).1), request: d.req.clone(), metadata: d.meta },
    )
}
/// balances of everyone in the currency of the deposit and in lamports
pub fn balances(n: &Net, keys: &[Pubkey]) -> Vec<(i128, i128)> {
    keys.iter().map(|k| (n.w.lamports(k) as i128, if n.token == 0 { 0 } else { n.w.token_amount(&ata(k, n.token)) as i128 })).collect()
}
fn buffer_has(n: &Net, v: &U256) -> bool {
    let mut d = n.w.data(&BaseCommitmentBufferAccount::find(None).0);
    acct!(d, BaseCommitmentBufferAccount).find_position(v).is_some()
}

fn d01(r: &mut Rng, t: &mut Tr) -> R {
    let mut n = net(r);
    let d = deposit(&mut n, r);
    let keys = [n.sender, n.payer, n.pool, n.collector, d.hash];
    let b = balances(&n, &keys);
    let before = n.w.clone();
    let i = store_ix(&n, &d, None);
    say!(t, "token {} amount {} rate {} {} prices {:?} recent {} same payer {}", n.token, d.req.amount, n.rate, dump(&n.fee), n.prices, d.req.recent_commitment_index, n.sender == n.payer);
    let g = run(&mut n.w, &[i], 0);
    let (cf, subv) = (o_base(&n.fee) + o_commit(&n.fee, n.rate as usize), n.fee.base_commitment_subvention.0 as i128);
    let (cft, subvt) = (into_token(&n, cf as u64) as i128, into_token(&n, subv as u64) as i128);
    let netf = d.req.amount as i128 * n.fee.base_commitment_network_fee.0 as i128 / 10_000;
    if subvt > cft {
        return Ok(());
    }
    ck!(g.is_ok(), "refused", "a valid deposit is refused: {g:?}");
    let a = balances(&n, &keys);
    let rent_h = rent(<BaseCommitmentHashingAccount as SizedAccount>::SIZE) as i128;
    let amt = d.req.amount as i128;
    let same = n.sender == n.payer;
    // expected changes: (lamports, tokens)
    let mut e: BTreeMap<Pubkey, (i128, i128)> = BTreeMap::new();
    let mut add = |k: Pubkey, l: i128, tk: i128| {
        let x = e.entry(k).or_default();
        if n.token == 0 {
            x.0 += l + tk
        } else {
            x.0 += l;
            x.1 += tk;
        }
    };
    add(n.sender, 0, -(cft - subvt) - netf - amt);
    add(n.payer, -cf - rent_h, cft - subvt + subvt);
    add(n.pool, cf, amt);
    add(n.collector, 0, netf - subvt);
    add(d.hash, rent_h, 0);
    for (i, k) in keys.iter().enumerate() {
        if i == 1 && same {
            continue;
        }
        let got = (a[i].0 - b[i].0, a[i].1 - b[i].1);
        ck!(got == e[k], "amounts", "{} gains (lamports, tokens) {got:?}, expected {:?}", ["sender", "fee payer", "pool", "fee collector", "hashing account"][i], e[k]);
    }
    // the recorded computation
    let mut hd = n.w.data(&d.hash);
    ck!(n.w.accs[&d.hash].owner == elusiv::id(), "owner", "the hashing account is not owned by the program");
    let mut h = acct!(hd, BaseCommitmentHashingAccount);
    let q = &d.req;
    ck!(
        h.get_is_active() && h.get_instruction() == 0 && h.get_fee_version() == q.fee_version && h.get_fee_payer() == n.payer.to_bytes() && h.get_min_batching_rate() == q.min_batching_rate && h.get_metadata() == d.meta,
        "record",
        "recorded: active {} step {} version {} rate {}",
        h.get_is_active(),
        h.get_instruction(),
        h.get_fee_version(),
        h.get_min_batching_rate()
    );
    for _ in 0..2 {
        let g = guarded(|| compute_base_commitment_hash(&mut h, 0));
        ck!(matches!(g, Ok(Ok(()))), "record-compute", "the recorded computation cannot run: {g:?}");
    }
    let c = fr_to_u256_le(&h.get_state().result());
    ck!(c == deposit_hash(&q.base_commitment.skip_mr(), q.amount, q.token_id, q.recent_commitment_index), "record-hash", "the recorded computation is not that of the request");
    ck!(buffer_has(&n, &q.base_commitment.skip_mr()), "recent", "the base commitment is not added to the recent ones");
    // nothing else changes
    for (k, x) in &before.accs {
        if !keys.contains(k) && !keys.iter().any(|y| ata(y, n.token) == *k) && *k != BaseCommitmentBufferAccount::find(None).0 {
            ck!(n.w.accs[k] == *x, "other-account", "the account {k} changes");
        }
    }
    t.mark();
    Ok(())
}

fn d02(r: &mut Rng, t: &mut Tr) -> R {
    let mut n = net(r);
    let mut d = deposit(&mut n, r);
    let tk = TOKENS[n.token as usize];
    let big = |r: &mut Rng| -> U256 {
        // the modulus, just above, or far above
        let mut m = [0u8; 32];
        for i in 0..4 {
            m[i * 8..i * 8 + 8].copy_from_slice(&MODULUS[i].to_le_bytes());
        }
        match r.below(4) {
            0 => m,
            1 => { m[0] += r.range(1, 200) as u8; m }
            2 => [255; 32],
            _ => { let mut b = r.bytes32(); b[31] = 0x31 + r.below(200) as u8; b }
        }
    };
    let ptr = StorageAccount::new_with_child_accounts(&mut n.w.data(&StorageAccount::find(None).0), vec![None; 25]).unwrap().get_next_commitment_ptr();
    let kind = r.below(14);
    match kind {
        0 => d.req.amount = tk.min - r.range(1, tk.min.max(1)).min(tk.min),
        1 => d.req.amount = tk.max + r.range(1, 1000),
        2 => d.req.amount = r.range(tk.max + 1, u64::MAX),
        3 => d.req.base_commitment = RawU256::new(big(r)),
        4 => d.req.commitment = RawU256::new(big(r)),
        5 => d.req.base_commitment = RawU256::new(zero_base()),
        6 => {
            // recently used: at any place of the buffer
            let len = r.range(1, 200);
            let pos = r.below(len.min(128));
            let v = d.req.base_commitment.skip_mr();
            edit::<BaseCommitmentBufferAccount>(&mut n.w, None, |x| {
                let mut b = acct!(x, BaseCommitmentBufferAccount);
                for i in 0..len {
                    if i + 1 + pos == len { b.push(&v) } else { b.push(&r.scalar()) }
                }
            });
        }
        7 => d.req.recent_commitment_index = ptr.wrapping_add(r.range(1, 3) as u32),
        8 => {
            if ptr < 128 {
                return Ok(());
            }
            d.req.recent_commitment_index = ptr - 128 - (r.below(3) as u32).min(ptr - 128);
        }
        9 => d.req.fee_version = n.version.wrapping_add(r.range(1, u32::MAX as u64) as u32),
        10 => d.req.min_batching_rate = (n.rate + r.range(1, 4) as u32) % 5,
        11 => d.req.token_id = TOKENS.len() as u16 + r.below(100) as u16,
        12 => d.req.min_batching_rate = n.rate.wrapping_add(r.range(1, u32::MAX as u64) as u32),
        _ => d.req.recent_commitment_index = r.range(ptr as u64 + 1, u32::MAX as u64) as u32,
    }
    let what = ["amount too low", "amount too high", "amount far too high", "base commitment not a field element", "commitment not a field element", "zero base commitment", "recently used", "recent index ahead", "recent index too old", "fee version", "batching rate", "unknown token", "batching rate", "recent index far ahead"][kind as usize];
    if kind == 0 && tk.min == 0 {
        return Ok(());
    }
    say!(t, "{what}: token {} amount {} recent {} of {ptr} version {} rate {}", d.req.token_id, d.req.amount, d.req.recent_commitment_index, d.req.fee_version, d.req.min_batching_rate);
    let i = store_ix(&n, &d, None);
    let g = run(&mut n.w, &[i], 0);
    ck!(g.is_err(), "accepted", "a deposit with {what} is accepted");
    t.mark();
    Ok(())
}
/// the base commitment of the zero commitment, as clients submit it
fn zero_base() -> U256 {
    let limbs: [u64; 4] = [3162363550698150530, 9486080942857866267, 15374008727889305678, 621823773387469172];
    let f = ark_bn254::Fr::new(ark_ff::BigInteger256(limbs));
    let mut b = [0u8; 32];
    for (i, l) in ark_ff::PrimeField::into_repr(&f).0.iter().enumerate() {
        b[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
    }
    assert!(deposit_hash(&b, 0, 0, 0) == ZERO_COMMITMENT, "the zero base commitment does not hash to the zero commitment");
    b
}

fn d03(r: &mut Rng, t: &mut Tr) -> R {
    let mut n = net(r);
    // a hashing account in an arbitrary state
    let idx = r.below(100) as u32;
    let hk = put::<BaseCommitmentHashingAccount>(&mut n.w, Some(idx));
    let mut q = bc_request(r);
    q.fee_version = n.version;
    let m = metadata(r);
    let steps = if r.chance(2, 3) { 2 } else { r.below(2) };
    let active = r.chance(7, 8);
    {
        let d = &mut n.w.accs.get_mut(&hk).unwrap().data;
        let mut h = acct!(d, BaseCommitmentHashingAccount);
        h.setup(q.clone(), m, n.payer.to_bytes()).unwrap();
        for _ in 0..steps {
            compute_base_commitment_hash(&mut h, 0).unwrap();
        }
        h.set_is_active(&active);
    }
    let used = if r.chance(1, 6) { r.range(237, 239) } else { r.below(5) } as usize;
    let mused = if r.chance(1, 8) { 239 } else { used };
    edit::<CommitmentQueueAccount>(&mut n.w, None, |d| fill(&mut CommitmentQueue::new(&mut acct!(d, CommitmentQueueAccount)), 3, &vec![Default::default(); used], &Default::default()));
    edit::<MetadataQueueAccount>(&mut n.w, None, |d| fill(&mut MetadataQueue::new(&mut acct!(d, MetadataQueueAccount)), 3, &vec![[0; 17]; mused], &[0; 17]));
    let rich = r.chance(9, 10);
    if !rich {
        n.w.accs.get_mut(&n.pool).unwrap().lamports = rent(<PoolAccount as SizedAccount>::SIZE) + r.below(5000);
    }
    // another fee version whose account exists
    let other = n.version + 1;
    let fa = put::<FeeAccount>(&mut n.w, Some(other));
    acct!(n.w.accs.get_mut(&fa).unwrap().data, FeeAccount).set_program_fee(&n.fee);
    let version = if r.chance(5, 6) { n.version } else { other };
    let who = if r.chance(5, 6) { n.payer } else { n.sender };
    let keys = [n.payer, n.sender, n.pool, hk];
    let b = balances(&n, &keys);
    let i = ix(
        vec![w(who), w(n.pool), ro(FeeAccount::find(Some(version)).0), w(hk), w(CommitmentQueueAccount::find(None).0), w(MetadataQueueAccount::find(None).0)],
        ElusivInstruction::FinalizeBaseCommitmentHash { hash_account_index: idx, fee_version: version },
    );
    say!(t, "{steps} steps, active {active}, queue {used}/{mused}, version {version} of {}, own payer {}, pool rich {rich}, {}", n.version, who == n.payer, dump(&n.fee));
    let g = run(&mut n.w, &[i.clone()], 0);
    let may = steps == 2 && active && version == n.version && who == n.payer && used < 239 && mused < 239;
    match g {
        Ok(_) => {
            ck!(may, "finalized", "a deposit is finalized with {steps} steps, active {active}, version ok {}, payer ok {}, queues {used}/{mused}", version == n.version, who == n.payer);
            let a = balances(&n, &keys);
            let fee = o_base(&n.fee);
            ck!(a[2].0 - b[2].0 == -fee, "pool-pays", "the pool pays {}, expected {fee}", b[2].0 - a[2].0);
            ck!(a[3].0 == 0, "not-closed", "the hashing account keeps {} lamports", a[3].0);
            ck!(a[0].0 - b[0].0 == fee + b[3].0, "payer-gets", "the fee payer gets {}, expected {fee} and the account's {}", a[0].0 - b[0].0, b[3].0);
            let mut cd = n.w.data(&CommitmentQueueAccount::find(None).0);
            let mut md = n.w.data(&MetadataQueueAccount::find(None).0);
            let c = drain(&CommitmentQueue::new(&mut acct!(cd, CommitmentQueueAccount)));
            let mm = drain(&MetadataQueue::new(&mut acct!(md, MetadataQueueAccount)));
            let want = CommitmentHashRequest { commitment: deposit_hash(&q.base_commitment.skip_mr(), q.amount, q.token_id, q.recent_commitment_index), fee_version: q.fee_version, min_batching_rate: q.min_batching_rate };
            ck!(c.len() == used + 1 && mm.len() == mused + 1 && c[used] == want && mm[mused] == m, "queued", "{} commitments and {} metadata are queued, last {:?}, expected {want:?}", c.len(), mm.len(), c.last());
            let again = run(&mut n.w, &[i], 0);
            ck!(again.is_err(), "twice", "the deposit is finalized twice");
            t.mark();
        }
        Err(e) => ck!(!may || !rich, "refused", "a finished deposit is refused: {e:?}"),
    }
    Ok(())
}

fn c01(r: &mut Rng, t: &mut Tr) -> R {
    let mut n = net(r);
    let hk = put::<CommitmentHashingAccount>(&mut n.w, None);
    let rate = r.below(5) as u32;
    let active = r.chance(7, 8);
    let step = match r.below(3) {
        0 => IXS[rate as usize] as u32,
        1 => IXS[rate as usize] as u32 - 1,
        _ => r.below(IXS[rate as usize] as u64) as u32,
    };
    {
        let d = &mut n.w.accs.get_mut(&hk).unwrap().data;
        let mut h = acct!(d, CommitmentHashingAccount);
        h.setup(0, &[[0; 32]; 20]).unwrap();
        let mut c = [[0u8; 32]; 16];
        c.iter_mut().for_each(|x| *x = r.scalar());
        h.reset(rate, n.version, &c).unwrap();
        for _ in 0..step {
            elusiv::commitment::compute_commitment_hash_partial(&mut h).unwrap();
        }
        h.set_is_active(&active);
    }
    let other = n.version + 1;
    let fa = put::<FeeAccount>(&mut n.w, Some(other));
    let mut f2 = n.fee.clone();
    f2.lamports_per_tx = Lamports(n.fee.lamports_per_tx.0 + 1000);
    acct!(n.w.accs.get_mut(&fa).unwrap().data, FeeAccount).set_program_fee(&f2);
    let version = if r.chance(5, 6) { n.version } else { other };
    say!(t, "rate {rate} step {step} active {active} version ok {} {}", version == n.version, dump(&n.fee));
    for k in 0..r.range(1, 3) as u32 {
        let at = step + k;
        let b = (n.w.lamports(&n.payer), n.w.lamports(&n.pool));
        let i = ix(vec![sw(n.payer), ro(FeeAccount::find(Some(version)).0), w(n.pool), w(hk)], ElusivInstruction::ComputeCommitmentHash { fee_version: version, nonce: r.next() as u32 });
        let g = run(&mut n.w, &[i], 0);
        let may = active && version == n.version && (at as i128) < IXS[rate as usize];
        let mut hd = n.w.data(&hk);
        let h = acct!(hd, CommitmentHashingAccount);
        let a = (n.w.lamports(&n.payer), n.w.lamports(&n.pool));
        if g.is_ok() {
            ck!(may, "step", "step {at} of {} succeeds, active {active}, version ok {}", IXS[rate as usize], version == n.version);
            let rw = o_hash(&n.fee) as u64;
            ck!(a.0 == b.0 + rw && a.1 + rw == b.1, "reward", "the step pays {}, expected {rw}", a.0 as i128 - b.0 as i128);
            ck!(h.get_instruction() == at + 1, "counter", "the step counter is {}, expected {}", h.get_instruction(), at + 1);
            t.mark();
        } else {
            ck!(!may, "refused", "step {at} is refused: {g:?}");
            ck!(a == b, "paid", "a refused step pays");
            break;
        }
    }
    Ok(())
}
