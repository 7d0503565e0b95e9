//! executable contracts of the nullifier sets
use crate::env::*;
use crate::p_proof::{full_child, NCHILD};
use crate::{ck, say, Case, Rng, Tr, R};
use elusiv::map::*;
use elusiv::state::nullifier::*;
use elusiv::types::*;
use elusiv_types::accounts::*;
use elusiv_types::ElusivOption;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![
        ("N01", vec![("small", n01_small as Case), ("full", n01_full)]),
        ("N02", vec![("tree", n02 as Case)]),
    ]
}

fn key(r: &mut Rng, space: u64) -> OrdU256 {
    let mut x = [0u8; 32];
    if space == 0 {
        return OrdU256(r.scalar());
    }
    x[r.pick(&[0usize, 0, 31])] = r.below(space.min(31)) as u8;
    x[8] = r.below(1 + space / 31) as u8;
    OrdU256(x)
}
type Out = Result<Option<OrdU256>, String>;
fn expect(m: &mut BTreeSet<OrdU256>, cap: usize, k: &OrdU256) -> Out {
    if m.contains(k) {
        return Err("duplicate".into());
    }
    if m.len() < cap {
        m.insert(*k);
        return Ok(None);
    }
    let max = *m.iter().next_back().unwrap();
    if *k > max {
        return Ok(Some(*k));
    }
    m.remove(&max);
    m.insert(*k);
    Ok(Some(max))
}
fn got<V: ElusivMapValue>(x: Result<Result<Option<(OrdU256, V)>, ElusivMapError<V>>, String>) -> Out {
    match x {
        Err(e) => Err(format!("abort: {e}")),
        Ok(Ok(x)) => Ok(x.map(|x| x.0)),
        Ok(Err(ElusivMapError::Duplicate(_))) => Err("duplicate".into()),
        Ok(Err(_)) => Err("other error".into()),
    }
}
fn check_all<const C: usize>(m: &mut NMap<C>, model: &BTreeSet<OrdU256>, probe: &[OrdU256], after: &str) -> R {
    if let (Some(a), Some(b)) = (model.iter().next(), model.iter().next_back()) {
        let g = (m.min(), m.max());
        ck!(g == (*a, *b), "min-max", "{after}: minimum and maximum are {g:?}, expected {a:?} {b:?}");
    }
    for p in probe {
        let g = guarded(|| m.contains(p).is_some());
        ck!(g == Ok(model.contains(p)), "lookup", "{after}: lookup of {p:?} gives {g:?}, expected {} ({} values)", model.contains(p), model.len());
    }
    ck!(m.is_full() == (model.len() == C) && m.is_empty() == model.is_empty(), "size", "{after}: full {} empty {}", m.is_full(), m.is_empty());
    Ok(())
}
type NMap<'a, const C: usize> = ElusivSet<'a, OrdU256, C>;
fn small<const C: usize>(r: &mut Rng, t: &mut Tr) -> R {
    // len, minimum and maximum pointers, 15 cached pointers, next, previous, keys
    let mut d = vec![0u8; 4 + 2 + 2 + 30 + C * 36];
    let dirty = r.chance(1, 2);
    if dirty {
        // contents of an earlier use
        let mut m = NMap::<C>::new(&mut d);
        for _ in 0..r.below(C as u64 + 9) {
            let _ = m.try_insert_default(key(r, 0));
        }
        drop(m);
        if r.chance(1, 4) {
            for _ in 0..40 {
                // arbitrary bytes; pointers stay inside of the set
                let i = r.below(4 + 4 + 30) as usize;
                d[i] = if i % 2 == 0 && C >= 256 { r.below(256) as u8 } else { 0 };
            }
        }
        NMap::<C>::new(&mut d).reset();
    }
    let space = r.pick(&[0, 0, 40, 400, 2000]);
    let shape = r.below(4);
    say!(t, "capacity {C}, dirty {dirty}, key space {space}, shape {shape}");
    let mut model = BTreeSet::new();
    let mut recent = vec![];
    let mut base = [0u8; 32];
    for step in 0..r.range(1, 3 * C as u64 / 2) {
        let k = match shape {
            // ascending or descending
            1 | 2 => {
                let x = if shape == 1 { step } else { 4 * C as u64 - step };
                base[..8].copy_from_slice(&(3 * x + r.below(4)).to_le_bytes());
                OrdU256(base)
            }
            // below the maximum
            3 if model.len() == C => {
                let mut x: OrdU256 = *model.iter().next_back().unwrap();
                x.0[0] = x.0[0].wrapping_sub(1 + r.below(3) as u8);
                x
            }
            _ => key(r, space),
        };
        let mut m = NMap::<C>::new(&mut d);
        let before = model.clone();
        let e = expect(&mut model, C, &k);
        let g = got(guarded(|| m.try_insert_default(k)));
        ck!(g == e, "insert", "step {step}: inserting {k:?} into {} values gives {g:?}, expected {e:?}", before.len());
        recent.push(k);
        drop(m);
        let mut m = NMap::<C>::new(&mut d);
        let probe: Vec<_> = (0..3).map(|_| if r.chance(1, 2) { r.pick(&recent) } else { key(r, space) }).chain([k]).collect();
        check_all::<C>(&mut m, &model, &probe, &format!("step {step}"))?;
        if let Ok(Some(x)) = g {
            t.mark();
            check_all::<C>(&mut m, &model, &[x], &format!("step {step}, handed back"))?;
        }
    }
    let all: Vec<_> = model.iter().cloned().collect();
    let mut m = NMap::<C>::new(&mut d);
    check_all::<C>(&mut m, &model, &all, "at the end")?;
    if model.len() > 20 {
        t.mark();
    }
    Ok(())
}
fn n01_small(r: &mut Rng, t: &mut Tr) -> R {
    match r.below(3) {
        0 => small::<64>(r, t),
        1 => small::<100>(r, t),
        _ => small::<512>(r, t),
    }
}
/// the values of a child account, by slot
pub fn dump_child(d: &mut [u8]) -> Vec<OrdU256> {
    let n = u32::from_le_bytes(d[1..5].try_into().unwrap());
    let mut m = NullifierMap::new(&mut d[1..]);
    (0..n).map(|i| m.key(&ElusivMapPtr(i as u16))).collect()
}
fn full_model() -> &'static Vec<OrdU256> {
    static F: std::sync::OnceLock<Vec<OrdU256>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut v = dump_child(&mut full_child().0.clone());
        v.sort();
        v
    })
}
fn second_child() -> &'static (Vec<u8>, U256) {
    static F: std::sync::OnceLock<(Vec<u8>, U256)> = std::sync::OnceLock::new();
    F.get_or_init(|| crate::p_proof::make_full(0x20))
}
fn nudge(k: OrdU256, r: &mut Rng) -> OrdU256 {
    let mut x = k;
    let i = r.below(3) as usize;
    x.0[i] = x.0[i].wrapping_add(1 + r.below(250) as u8);
    x
}
/// around and beyond the full capacity of the real set
fn n01_full(r: &mut Rng, t: &mut Tr) -> R {
    const C: usize = NULLIFIERS_PER_ACCOUNT;
    let mut d = full_child().0.clone();
    let mut model: BTreeSet<OrdU256> = full_model().iter().cloned().collect();
    let mut probes = vec![];
    let mut m = NullifierMap::new(&mut d[1..]);
    let kind = r.below(3);
    for step in 0..r.range(2, 40) {
        let n = full_model().len();
        let k = match (kind, r.below(8)) {
            (0, _) => nudge(*model.iter().next_back().unwrap(), r),
            (_, 0) => r.pick(full_model()),
            (_, 1) => OrdU256([0xff; 32]),
            (_, 2) => nudge(*model.iter().next().unwrap(), r),
            // around the cached positions
            (_, 3) => nudge(full_model()[(r.below(16) as usize * n / 16 + r.below(3) as usize).saturating_sub(1)], r),
            (_, 4) => nudge(full_model()[n - 1 - r.below(20) as usize], r),
            _ => nudge(r.pick(full_model()), r),
        };
        let e = expect(&mut model, C, &k);
        let g = got(guarded(|| m.try_insert_default(k)));
        say!(t, "insert {k:?}: {e:?}");
        ck!(g == e, "insert", "step {step}: inserting {k:?} into a full set gives {g:?}, expected {e:?}");
        probes.push(k);
        probes.push(full_model()[n - 1 - r.below(60) as usize]);
        probes.push(r.pick(full_model()));
        probes.push(full_model()[r.below(16) as usize * n / 16]);
        check_all::<C>(&mut m, &model, &probes[probes.len().saturating_sub(8)..], &format!("step {step}"))?;
    }
    check_all::<C>(&mut m, &model, &probes, "at the end")?;
    drop(m);
    let mut a = dump_child(&mut d);
    a.sort();
    ck!(a.iter().eq(model.iter()), "contents", "the stored values differ from those of the set");
    t.mark();
    Ok(())
}

struct Nul {
    d: Vec<u8>,
    kids: Vec<Option<Child>>,
}
impl Nul {
    fn with<T>(&mut self, f: impl FnOnce(&mut NullifierAccount) -> T) -> T {
        let infos: Vec<_> = self.kids.iter_mut().map(|k| k.as_mut().map(|k| k.info())).collect();
        let refs: Vec<_> = infos.iter().map(|i| i.as_ref()).collect();
        let mut a = NullifierAccount::new_with_child_accounts(&mut self.d, refs).unwrap();
        f(&mut a)
    }
}
impl Nul {
    /// values waiting to be moved: the account ends with their number, four values and four targets
    fn moved(&self) -> Vec<U256> {
        let at = self.d.len() - 4 - 128 - 1;
        (0..self.d[at] as usize).map(|i| self.d[at + 1 + i * 32..at + 33 + i * 32].try_into().unwrap()).collect()
    }
}
/// a tree with full and partly filled child accounts
fn n02(r: &mut Rng, t: &mut Tr) -> R {
    let mut d = blank::<NullifierAccount>(Some(3)).1;
    let full = r.below(3) as usize;
    let mut kids: Vec<Option<Child>> = (0..16).map(|i| if i <= full + 1 { Some(Child::new(NCHILD)) } else { None }).collect();
    let mut model: BTreeSet<OrdU256> = BTreeSet::new();
    {
        let mut a = <NullifierAccount as ProgramAccount>::new(&mut d).unwrap();
        for i in 0..16 {
            if kids[i].is_some() {
                a.set_child_pubkey(i, ElusivOption::Some(Pubkey::new_unique()));
            }
        }
        for i in 0..full {
            // the values of the second child account lie above those of the first
            let (mut c, max) = if i == 0 { full_child().clone() } else { second_child().clone() };
            model.extend(dump_child(&mut c));
            kids[i].as_mut().unwrap().data = c;
            a.set_max_values(i, &ElusivOption::Some(max));
        }
        a.set_nullifier_hash_count(&(65536 * full as u32));
    }
    let mut n = Nul { d, kids };
    let all: Vec<OrdU256> = model.iter().cloned().collect();
    let mut mine: Vec<OrdU256> = vec![];
    let mut count = 65536 * full as u32;
    let space = r.pick(&[40u64, 400, 100000]);
    say!(t, "{full} full child accounts, key space {space}");
    let top = if full == 0 { 0 } else { full_child().1[31] + if full == 2 { 0x20 } else { 0 } };
    let gen = |r: &mut Rng, mine: &Vec<OrdU256>, n: &mut Nul| -> OrdU256 {
        match r.below(12) {
            0 | 1 if !mine.is_empty() => r.pick(mine),
            2 | 3 if !all.is_empty() => nudge(r.pick(&all), r),
            4 if !all.is_empty() => r.pick(&all),
            5 | 6 if !all.is_empty() => {
                // around a maximum
                let x = n.with(|a| a.get_max_values(r.below(full as u64) as usize)).option().unwrap();
                if r.chance(1, 2) { OrdU256(x) } else { nudge(OrdU256(x), r) }
            }
            7 if !all.is_empty() => {
                // the largest values of a full account
                let b = if full == 2 && r.chance(1, 2) { 65535 } else { all.len() - 1 };
                all[b - r.below(8) as usize]
            }
            8 => {
                let mut k = key(r, space);
                k.0[31] = k.0[31].wrapping_add(top);
                k
            }
            _ => key(r, space),
        }
    };
    for step in 0..r.range(1, if full == 0 { 150 } else { 45 }) {
        let pending = n.moved().len();
        if pending > 0 && r.chance(1, 3) {
            let g = guarded(|| n.with(|a| a.move_nullifier_hashes_to_next_account()));
            say!(t, "move {pending}");
            ck!(matches!(g, Ok(Ok(()))), "move-refused", "step {step}: moving {pending} values fails: {g:?}");
            t.mark();
        } else {
            let k = gen(r, &mine, &mut n);
            let spent = model.contains(&k);
            let can = guarded(|| n.with(|a| a.can_insert_nullifier_hash(k.0)));
            ck!(matches!(can, Ok(Ok(x)) if x != spent), "admission", "step {step}: {k:?} is spent: {spent}, the check before a verification gives {can:?}");
            let saved = (n.d.clone(), if pending >= 4 || spent { None } else { Some(()) });
            // an aborted insertion is rolled back; leave it out when the queue of moved values is full
            if pending >= 4 && !spent {
                continue;
            }
            let g = guarded(|| n.with(|a| a.try_insert_nullifier_hash(k.0)));
            say!(t, "insert {k:?} spent {spent}, {pending} waiting");
            ck!(matches!(g, Ok(Ok(()))) == !spent, if spent { "double-spend" } else { "insert-refused" }, "step {step}: inserting {k:?}, spent {spent}, {pending} waiting to be moved: {g:?}");
            if spent {
                ck!(n.d == saved.0, "refused-but-changed", "a refused insertion changes the account");
            } else {
                model.insert(k);
                mine.push(k);
                count += 1;
            }
        }
        let c = n.with(|a| a.get_nullifier_hash_count());
        ck!(c == count, "count", "step {step}: {c} nullifier hashes are counted, expected {count}");
        for _ in 0..3 {
            let k = gen(r, &mine, &mut n);
            let can = guarded(|| n.with(|a| a.can_insert_nullifier_hash(k.0)));
            ck!(matches!(can, Ok(Ok(x)) if x != model.contains(&k)), "spent-set", "step {step}: {k:?} is spent: {}, reported: {can:?}", model.contains(&k));
        }
    }
    if r.chance(1, 2) {
        for _ in 0..20 {
            if n.moved().len() == 0 {
                break;
            }
            let g = guarded(|| n.with(|a| a.move_nullifier_hashes_to_next_account()));
            ck!(matches!(g, Ok(Ok(()))), "move-refused", "moving the remaining values fails: {g:?}");
        }
    }
    // nothing is lost or doubled, and every value is where a lookup searches it
    let mut seen: BTreeSet<OrdU256> = BTreeSet::new();
    let waiting = n.moved();
    for k in &waiting {
        ck!(seen.insert(OrdU256(*k)), "doubled", "{k:?} waits twice");
    }
    for i in 0..16 {
        let Some(c) = n.kids[i].as_mut() else { continue };
        for k in dump_child(&mut c.data) {
            ck!(seen.insert(k), "doubled", "{k:?} is stored twice (child account {i})");
            if r.chance(1, 16) || mine.contains(&k) {
                let at = n.with(|a| a.find_child_account_index(&k.0));
                ck!(at == i, "misplaced", "{k:?} is in child account {i}, a lookup searches {at}");
            }
        }
    }
    ck!(seen == model, "contents", "the stored values differ from the spent set: missing {:?}, extra {:?}", model.difference(&seen).next(), seen.difference(&model).next());
    if mine.len() > 1 {
        t.mark();
    }
    Ok(())
}
