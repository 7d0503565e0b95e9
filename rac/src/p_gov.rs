//! executable contracts of verifying keys, child accounts, account checks, fee versions, encodings and scratch memory
use crate::env::*;
use crate::p_commit::*;
use crate::p_proof::*;
use crate::p_state::*;
use crate::svm::*;
use crate::{acct, ck, say, Case, Rng, Tr, R};
use ark_bn254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine};
use ark_ff::BigInteger256;
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::fields::*;
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::*;
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::storage::*;
use elusiv::proof::verifier::VerificationStep;
use elusiv::state::commitment::{BaseCommitmentHashingAccount, CommitmentHashingAccount};
use elusiv::state::vkey::*;
use elusiv::token::*;
use elusiv::types::*;
use elusiv_computation::RAM;
use elusiv_types::accounts::*;
use elusiv_types::bytes::*;
use solana_program::pubkey::Pubkey;

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![
        ("G01", vec![("vkey-history", g01 as Case)]),
        ("G02", vec![("register", g02 as Case), ("child-access", g02_access)]),
        ("G03", vec![("roles", g03 as Case), ("positions", g03_positions)]),
        ("G06", vec![("fee-version", g06 as Case)]),
        ("E01", vec![("stored-types", e01 as Case), ("instructions", e01_ix)]),
        ("E04", vec![("fields", e04 as Case)]),
        ("E03", vec![("scratch", e03 as Case), ("fields", e03_fields)]),
    ]
}

use crate::p_proof::SYS;

// ---- G01

struct Vk {
    authority: Option<Pubkey>,
    frozen: bool,
    version: u32,
    inputs: u32,
    kids: [Option<Pubkey>; 2],
}
fn vk_read(w: &World, k: &Pubkey) -> Vk {
    let mut d = w.data(k);
    let a = <VKeyAccount as ProgramAccount>::new(&mut d).unwrap();
    Vk { authority: a.get_authority().option(), frozen: a.get_is_frozen(), version: a.get_version(), inputs: a.get_public_inputs_count(), kids: [a.get_child_pubkey(0), a.get_child_pubkey(1)] }
}

fn g01(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = World::new(elusiv::id());
    let w0 = &mut w_;
    let users: Vec<Pubkey> = (0..3).map(|_| r.key()).collect();
    for u in &users {
        w0.sys(*u, 1 << 50);
    }
    w0.sys(SYS, 1);
    let (k, _) = VKeyAccount::find(Some(0));
    let inputs = 0u32;
    let auth0 = if r.chance(1, 5) { None } else { Some(users[0]) };
    let g = run(w0, &[ix(vec![sw(users[0]), w(k), ro(SYS)], ElusivInstruction::CreateVkeyAccount { vkey_id: 0, public_inputs_count: inputs, deploy_authority: auth0.into() })], 0);
    ck!(g.is_ok(), "create-refused", "creating the verifying key account is refused: {g:?}");
    let m = vk_read(w0, &k);
    ck!(m.authority == auth0 && !m.frozen && m.version == 0 && m.inputs == inputs && m.kids == [None, None], "create", "the new account is not as requested");
    let g = run(&mut w0.clone(), &[ix(vec![sw(users[1]), w(k), ro(SYS)], ElusivInstruction::CreateVkeyAccount { vkey_id: 0, public_inputs_count: inputs, deploy_authority: Some(users[1]).into() })], 0);
    ck!(g.is_err(), "create-twice", "an existing verifying key account is created again");
    let bad = VKeyAccount::find(Some(1)).0;
    let g = run(&mut w0.clone(), &[ix(vec![sw(users[1]), w(bad), ro(SYS)], ElusivInstruction::CreateVkeyAccount { vkey_id: 1, public_inputs_count: inputs, deploy_authority: Some(users[1]).into() })], 0);
    ck!(g.is_err(), "create-other-id", "a verifying key with an unsupported id is created");
    let src = VerifyingKey::source_size(inputs as usize);
    let mut m = vk_read(w0, &k);
    for _ in 0..r.range(6, 30) {
        let signer = if r.chance(4, 5) { m.authority.unwrap_or(users[0]) } else { r.pick(&users) };
        let signed = r.chance(9, 10);
        let s = |wr: bool| solana_program::instruction::AccountMeta { pubkey: signer, is_signer: signed, is_writable: wr };
        let allowed = !m.frozen && signed && m.authority.map_or(true, |a| a == signer);
        let before = w0.clone();
        let op = r.below(20);
        let (name, ok, g): (&str, bool, Res) = match op {
            0..=4 => {
                let c = if r.chance(1, 6) && m.kids[0].is_some() { m.kids[0].unwrap() } else { r.key() };
                let fresh = !w0.accs.contains_key(&c);
                let mut fit = true;
                if fresh {
                    let mut d = vec![0u8; src + 1];
                    let mut owner = elusiv::id();
                    let mut l = rent(src + 1);
                    match r.below(12) {
                        0 => { d.pop(); fit = false }
                        1 => { d.push(0); fit = false }
                        2 => { d[0] = 1; fit = false }
                        3 => { owner = r.key(); fit = false }
                        4 => { l -= 1; fit = false }
                        _ => {
                            let x = r.below(src as u64) as usize;
                            d[1 + x] = r.next() as u8;
                        }
                    }
                    w0.put(c, l, d, owner);
                } else {
                    fit = false;
                }
                let b = w0.clone();
                let g = run(w0, &[ix(vec![s(false), w(k), w(c)], ElusivInstruction::CreateNewVkeyVersion { vkey_id: 0 })], 0);
                let ok = allowed && fit && m.kids[1].is_none();
                if g.is_ok() && ok {
                    m.kids[1] = Some(c);
                    let mut e = b.accs[&c].clone();
                    e.data[0] = 1;
                    ck!(w0.accs[&c] == e, "new-version-data", "registering the pending key changes more than its in-use mark");
                }
                ("new version", ok, g)
            }
            5..=9 => {
                let max = (src as u64 + 963) / 964;
                let pos = if r.chance(1, 8) { max as u32 + r.below(2) as u32 } else { r.below(max) as u32 };
                let len = if r.chance(1, 10) { 963 } else { 964 };
                let p: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
                let mut acc = vec![s(false), w(k)];
                for c in m.kids.iter().flatten() {
                    acc.push(w(*c));
                }
                let b = w0.clone();
                let g = run(w0, &[ix(acc, ElusivInstruction::SetVkeyData { vkey_id: 0, data_position: pos, packet: VKeyAccountDataPacket(p.clone()) })], 0);
                let start = pos as usize * 964;
                let n = 964.min(src.saturating_sub(start));
                let ok = allowed && m.kids[1].is_some() && start < src && p.len() >= n;
                if g.is_ok() && ok {
                    let c = m.kids[1].unwrap();
                    let mut e = b;
                    e.accs.get_mut(&c).unwrap().data[1 + start..1 + start + n].copy_from_slice(&p[..n]);
                    ck!(w0.accs == e.accs, "set-data-range", "the packet at position {pos} changes something other than bytes {start}..{} of the pending key", start + n);
                }
                ("set data", ok, g)
            }
            10..=14 => {
                let old = if r.chance(1, 10) { r.key() } else { m.kids[0].unwrap_or(users[2]) };
                let b = w0.clone();
                let g = run(w0, &[ix(vec![s(true), w(k), w(old), ro(SYS)], ElusivInstruction::UpdateVkeyVersion { vkey_id: 0 })], 0);
                let ok = allowed && m.kids[1].is_some() && (m.kids[0].is_none() || m.kids[0] == Some(old));
                if g.is_ok() && ok {
                    let v = vk_read(w0, &k);
                    ck!(v.kids == [m.kids[1], None] && v.version == m.version + 1, "activate", "after activation the keys are {:?} at version {}, expected {:?} at version {}", v.kids, v.version, [m.kids[1], None], m.version + 1);
                    if let Some(c) = m.kids[0] {
                        ck!(w0.lamports(&c) == 0 && w0.lamports(&signer) == b.lamports(&signer) + b.lamports(&c), "activate-refund", "the replaced key account is not closed to the signer");
                    }
                    m.kids = [m.kids[1], None];
                    m.version += 1;
                    t.mark();
                }
                ("activate", ok, g)
            }
            15..=17 => {
                let a = r.pick(&users);
                let g = run(w0, &[ix(vec![s(false), w(k)], ElusivInstruction::ChangeVkeyAuthority { vkey_id: 0, authority: a })], 0);
                if g.is_ok() && allowed {
                    m.authority = Some(a);
                }
                ("change authority", allowed, g)
            }
            _ => {
                if r.chance(2, 3) {
                    continue;
                }
                let g = run(w0, &[ix(vec![s(false), w(k)], ElusivInstruction::FreezeVkey { vkey_id: 0 })], 0);
                if g.is_ok() && allowed {
                    m.frozen = true;
                }
                ("freeze", allowed, g)
            }
        };
        say!(t, "{name} by {} signed {signed} frozen {} version {} keys {:?}: {}", users.iter().position(|u| *u == signer).map(|x| x as i32).unwrap_or(-1), m.frozen, m.version, m.kids.map(|x| x.is_some()), if g.is_ok() { "accepted" } else { "refused" });
        if ok {
            ck!(g.is_ok(), &format!("{}-refused", name.replace(' ', "-")), "{name} by the authority is refused: {g:?}");
        } else {
            ck!(g.is_err(), &format!("{}-accepted", name.replace(' ', "-")), "{name} is accepted although it must not be");
            for (k2, a) in &before.accs {
                ck!(w0.accs.get(k2) == Some(a), "refused-changes", "a refused instruction changes {k2}");
            }
        }
        let v = vk_read(w0, &k);
        ck!(v.authority == m.authority && v.frozen == m.frozen && v.version == m.version && v.inputs == m.inputs && v.kids == m.kids, "state", "after {name}: authority {:?} frozen {} version {} keys {:?}, expected {:?} {} {} {:?}", v.authority, v.frozen, v.version, v.kids, m.authority, m.frozen, m.version, m.kids);
    }
    Ok(())
}

// ---- G02

fn g02(r: &mut Rng, t: &mut Tr) -> R {
    let kind = r.below(3);
    let mut w0 = World::new(elusiv::id());
    let mt = r.below(5) as u32;
    let (parent, slots, size, own) = match kind {
        0 => (put::<StorageAccount>(&mut w0, None), 25usize, <StorageChildAccount as SizedAccount>::SIZE, 25),
        1 => (put::<MetadataAccount>(&mut w0, None), 16, <MetadataChildAccount as SizedAccount>::SIZE, 16),
        _ => (put::<NullifierAccount>(&mut w0, Some(mt)), 16, <NullifierChildAccount as SizedAccount>::SIZE, 16),
    };
    let _ = own;
    let read = |w: &World| -> Vec<Option<Pubkey>> {
        let mut d = w.data(&parent);
        match kind {
            0 => {
                let a = <StorageAccount as ProgramAccount>::new(&mut d).unwrap();
                (0..slots).map(|i| a.get_child_pubkey(i)).collect()
            }
            1 => {
                let a = <MetadataAccount as ProgramAccount>::new(&mut d).unwrap();
                (0..slots).map(|i| a.get_child_pubkey(i)).collect()
            }
            _ => {
                let a = <NullifierAccount as ProgramAccount>::new(&mut d).unwrap();
                (0..slots).map(|i| a.get_child_pubkey(i)).collect()
            }
        }
    };
    let mut model: Vec<Option<Pubkey>> = vec![None; slots];
    for _ in 0..r.range(2, 5) {
        let i = if r.chance(1, 10) { slots + r.below(3) as usize } else if r.chance(1, 3) { model.iter().position(|x| x.is_some()).unwrap_or(0) } else { r.below(slots as u64) as usize };
        let c = if r.chance(1, 6) { model.iter().flatten().next().cloned().unwrap_or(r.key()) } else { r.key() };
        let mut fit = true;
        let mut why = "a fitting account";
        if !w0.accs.contains_key(&c) {
            let mut d = vec![0u8; size];
            for _ in 0..50 {
                let p = 1 + r.below(size as u64 - 1) as usize;
                d[p] = r.next() as u8;
            }
            let (mut owner, mut l) = (elusiv::id(), rent(size));
            match r.below(12) {
                0 => { d.pop(); fit = false; why = "one byte too small" }
                1 => { d.push(0); fit = false; why = "one byte too large" }
                2 => { d[0] = 1; fit = false; why = "already in use" }
                3 => { owner = r.key(); fit = false; why = "owned by another program" }
                4 => { owner = SYS; fit = false; why = "owned by the system program" }
                5 => { l -= 1; fit = false; why = "not rent exempt" }
                _ => {}
            }
            w0.put(c, l, d, owner);
        } else {
            fit = false;
            why = "a registered child"
        }
        let b = w0.clone();
        let ci = i as u32;
        let data = match kind {
            0 => ElusivInstruction::EnableStorageChildAccount { child_index: ci },
            1 => ElusivInstruction::EnableMetadataChildAccount { child_index: ci },
            _ => ElusivInstruction::EnableNullifierChildAccount { mt_index: mt, child_index: ci },
        };
        let g = run(&mut w0, &[ix(vec![w(parent), w(c)], data)], 0);
        let ok = fit && i < slots && model[i].is_none();
        say!(t, "{} slot {i} of {slots} ({}), {why}: {}", ["storage", "metadata", "nullifier"][kind as usize], if i < slots && model[i].is_some() { "taken" } else { "free" }, if g.is_ok() { "accepted" } else { "refused" });
        ck!(g.is_ok() == ok, if ok { "refused" } else { "accepted" }, "registering {why} in slot {i}: {g:?}");
        if ok {
            model[i] = Some(c);
            t.mark();
            ck!(w0.accs[&c].data[0] == 1, "not-marked", "the child is not marked as used");
            if kind < 2 {
                ck!(w0.accs[&c].data[1..] == b.accs[&c].data[1..], "payload", "registering changes the payload");
            } else {
                let mut d = w0.accs[&c].data.clone();
                let v = crate::p_map::dump_child(&mut d);
                ck!(v.is_empty(), "dirty-set", "a registered nullifier child starts with {} values", v.len());
            }
        } else {
            for (k, a) in &b.accs {
                ck!(&w0.accs[k] == a, "refused-changes", "a refused registration changes {k}");
            }
        }
        ck!(read(&w0) == model, "slots", "the child slots are {:?}", read(&w0).iter().map(|x| x.is_some()).collect::<Vec<_>>());
    }
    Ok(())
}

fn g02_access(r: &mut Rng, t: &mut Tr) -> R {
    // accounts passed with a parent instruction: only registered ones are reachable, each in its slot
    use solana_program::account_info::AccountInfo;
    let mut d = blank::<MetadataAccount>(None).1;
    let n = r.range(0, 6) as usize;
    let mut reg: Vec<(usize, Pubkey)> = vec![];
    {
        let mut a = <MetadataAccount as ProgramAccount>::new(&mut d).unwrap();
        for _ in 0..n {
            let s = r.below(16) as usize;
            if reg.iter().any(|x| x.0 == s) {
                continue;
            }
            let k = r.key();
            a.set_child_pubkey(s, ElusivOption::Some(k));
            reg.push((s, k));
        }
    }
    reg.sort_by_key(|x| x.0);
    let writable = r.chance(1, 2);
    // a subsequence in slot order followed by foreign accounts
    let mut pass: Vec<(Option<usize>, Pubkey, bool, Pubkey)> = vec![];
    for (s, k) in &reg {
        if r.chance(4, 5) {
            pass.push((Some(*s), *k, !r.chance(1, 12), if r.chance(1, 15) { r.key() } else { elusiv::id() }));
        }
    }
    for _ in 0..r.below(3) {
        pass.push((None, r.key(), r.chance(1, 2), r.key()));
    }
    let mut lam = vec![1u64; pass.len()];
    let mut mem: Vec<Vec<u8>> = pass.iter().map(|_| (0..20).map(|_| r.next() as u8).collect()).collect();
    let mem0 = mem.clone();
    let infos: Vec<AccountInfo> = pass.iter().zip(lam.iter_mut()).zip(mem.iter_mut()).map(|((p, l), m)| AccountInfo::new(&p.1, false, p.2, l, m, &p.3, false, 0)).collect();
    let a = <MetadataAccount as ProgramAccount>::new(&mut d).unwrap();
    let mut it = infos.iter();
    let g = MetadataAccount::find_child_accounts(&a, &elusiv::id(), writable, &mut it);
    let bad = pass.iter().any(|p| p.0.is_some() && (p.3 != elusiv::id() || (writable && !p.2)));
    say!(t, "slots {:?} passed {:?} writable {writable}", reg.iter().map(|x| x.0).collect::<Vec<_>>(), pass.iter().map(|p| (p.0, p.2, p.3 == elusiv::id())).collect::<Vec<_>>());
    if bad {
        ck!(g.is_err(), "bad-child", "a child that is foreign or not writable is accepted");
        return Ok(());
    }
    let Ok(g) = g else { ck!(false, "refused", "registered children are refused"); unreachable!() };
    t.mark();
    ck!(g.len() == 16, "count", "{} children", g.len());
    for s in 0..16 {
        let want = pass.iter().find(|p| p.0 == Some(s)).map(|p| p.1);
        ck!(g[s].map(|x| *x.key) == want, "slot", "slot {s} refers to {:?}, expected {want:?}", g[s].map(|x| *x.key));
    }
    let rest: Vec<Pubkey> = it.map(|x| *x.key).collect();
    ck!(rest == pass.iter().filter(|p| p.0.is_none()).map(|p| p.1).collect::<Vec<_>>(), "rest", "the accounts after the children are not all left over");
    drop(a);
    let a = MetadataAccount::new_with_child_accounts(&mut d, g).unwrap();
    for s in 0..16 {
        let x = r.next() as u8;
        let at = r.below(19) as usize;
        let res = a.execute_on_child_account_mut(s, |m| {
            m[at] = x;
            m.len()
        });
        let p = pass.iter().position(|p| p.0 == Some(s));
        ck!(res.is_ok() == p.is_some(), "access", "access to slot {s}: {res:?}");
        if let Some(p) = p {
            let now = infos[p].data.borrow().to_vec();
            let mut e = mem0[p].clone();
            e[1 + at] = x;
            ck!(now == e && res == Ok(19), "payload", "writing byte {at} of child {s} does not change exactly that payload byte");
            ck!(a.execute_on_child_account(s, |m| m.to_vec()) == Ok(e[1..].to_vec()), "read", "reading child {s} gives something else");
        }
    }
    Ok(())
}

// ---- G03

fn scenarios() -> Vec<(&'static str, Case)> {
    let mut v: Vec<(&'static str, Case)> = vec![];
    for (p, cs) in crate::p_commit::props().into_iter().chain(crate::p_proof::props()) {
        if matches!(p, "D01" | "D03" | "C01" | "G04" | "M01" | "V01" | "V02" | "V03" | "V05" | "V06" | "V07" | "V08" | "V09" | "V11" | "V13") {
            v.extend(cs.into_iter().filter(|c| !matches!(c.0, "batches" | "rotation")));
        }
    }
    v.push(("vkey-history", g01));
    v.push(("register", g02));
    v.push(("fee-version", g06));
    v
}

fn sizes() -> Vec<usize> {
    use elusiv::state::commitment::*;
    vec![
        <PoolAccount as SizedAccount>::SIZE,
        <FeeCollectorAccount as SizedAccount>::SIZE,
        <GovernorAccount as SizedAccount>::SIZE,
        <StorageAccount as SizedAccount>::SIZE,
        <CommitmentBufferAccount as SizedAccount>::SIZE,
        <BaseCommitmentBufferAccount as SizedAccount>::SIZE,
        <CommitmentQueueAccount as SizedAccount>::SIZE,
        <CommitmentHashingAccount as SizedAccount>::SIZE,
        <BaseCommitmentHashingAccount as SizedAccount>::SIZE,
        <MetadataQueueAccount as SizedAccount>::SIZE,
        <MetadataAccount as SizedAccount>::SIZE,
        <NullifierAccount as SizedAccount>::SIZE,
        <VerificationAccount as SizedAccount>::SIZE,
        <FeeAccount as SizedAccount>::SIZE,
        <VKeyAccount as SizedAccount>::SIZE,
    ]
}

/// another derived address of the same role: (address, bump)
fn sibling(r: &mut Rng, k: &Pubkey, len: usize, keys: &[Pubkey]) -> Option<(Pubkey, u8)> {
    macro_rules! by_offset { ($($t:ty),*) => { $( if len == <$t as SizedAccount>::SIZE {
        let i = (0..8u32).find(|i| <$t>::find(Some(*i)).0 == *k)?;
        let j = (i + 1 + r.below(4) as u32) % 8;
        return Some(<$t>::find(Some(j)));
    } )* } }
    by_offset!(NullifierAccount, FeeAccount, VKeyAccount, elusiv::state::commitment::BaseCommitmentHashingAccount);
    if len == <VerificationAccount as SizedAccount>::SIZE {
        for q in keys {
            for i in 0..8u32 {
                if VerificationAccount::find_with_pubkey(*q, Some(i)).0 == *k {
                    return Some(if r.chance(1, 2) { VerificationAccount::find_with_pubkey(*q, Some((i + 1) % 8)) } else { VerificationAccount::find_with_pubkey(r.key(), Some(i)) });
                }
            }
        }
    }
    None
}

/// every recorded accepted instruction is refused once one of its accounts is another one
fn g03(r: &mut Rng, t: &mut Tr) -> R {
    let sc = scenarios();
    let (name, f) = r.pick(&sc);
    let seed = r.next();
    record(true);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut Rng(seed), &mut Tr::default())));
    let rec = record(false);
    if rec.is_empty() {
        return Ok(());
    }
    let sizes = sizes();
    for _ in 0..12 {
        let (wd, tx, idx) = r.pick(&rec);
        let ins = &tx[idx];
        let tag = ins.data[0];
        let i = r.below(ins.accounts.len() as u64) as usize;
        let m = ins.accounts[i].clone();
        let Some(acc) = wd.accs.get(&m.pubkey).cloned() else { continue };
        let mut tx2 = tx.clone();
        let mut w2 = wd.clone();
        let typed = acc.owner == elusiv::id() && sizes.contains(&acc.data.len());
        let (what, key) = match r.below(5) {
            3 if m.pubkey == IXS || m.pubkey == spl_token::ID => {
                // a system account that is not the one
                let k = r.key();
                if m.pubkey == IXS {
                    // with the same content
                    let mut p = w2.clone();
                    let _ = run(&mut p, &tx2, idx);
                    w2.accs.insert(k, p.accs[&IXS].clone());
                } else {
                    w2.accs.insert(k, acc.clone());
                }
                tx2[idx].accounts[i].pubkey = k;
                ("replaced by a copy of the system account", "other-system-account")
            }
            4 if typed => {
                let keys: Vec<Pubkey> = ins.accounts.iter().map(|a| a.pubkey).collect();
                let Some((k, bump)) = sibling(r, &m.pubkey, acc.data.len(), &keys) else { continue };
                let mut c = acc.clone();
                c.data[0] = bump;
                w2.accs.insert(k, c);
                tx2[idx].accounts[i].pubkey = k;
                ("replaced by the account of another index or owner", "other-index")
            }
            0 if m.is_signer => {
                for a in tx2[idx].accounts.iter_mut().filter(|a| a.pubkey == m.pubkey) {
                    a.is_signer = false;
                }
                ("without its signature", "missing-signature")
            }
            2 if typed => {
                // a copy of the account at another address
                let k = r.key();
                w2.accs.insert(k, acc.clone());
                tx2[idx].accounts[i].pubkey = k;
                // the program's own accounts at other derived addresses
                ("replaced by a copy at another address", "other-address")
            }
            0 if typed => {
                // nothing has been created at the derived address
                w2.sys(m.pubkey, 0);
                ("not created", "not-created")
            }
            1 if typed => {
                let others: Vec<Pubkey> = ins.accounts.iter().filter(|a| a.pubkey != m.pubkey && wd.accs.get(&a.pubkey).map_or(false, |x| x.owner == elusiv::id())).map(|a| a.pubkey).collect();
                if others.is_empty() {
                    continue;
                }
                tx2[idx].accounts[i].pubkey = r.pick(&others);
                ("replaced by another account of the program", "swapped-role")
            }
            _ => continue,
        };
        let before = w2.clone();
        let g = run(&mut w2, &tx2, idx);
        say!(t, "{name}: instruction {tag} account {i} {what}");
        t.mark();
        ck!(g.is_err(), key, "instruction {tag} accepts account {i} {what}");
        for (k, a) in &before.accs {
            ck!(*k == IXS || &w2.accs[k] == a, "refused-changes", "a refused instruction changes {k}");
        }
    }
    Ok(())
}
use crate::p_proof::IXS;

/// instructions over several accounts of the same role: every account only in its own position
fn g03_positions(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    let good = init_ix(&v);
    let n0 = NullifierAccount::find(Some(v.ti[0])).0;
    let n1 = NullifierAccount::find(Some(v.ti[1])).0;
    let kids = |k: usize| children(&v.n.w, v.ti[k]);
    let tail = [vec![n0], kids(0), vec![n1], kids(1)];
    let at = good.accounts.iter().position(|a| a.pubkey == n0 && !a.is_signer).unwrap();
    let perms: [[usize; 2]; 3] = [[1, 0], [0, 0], [1, 1]];
    for p in perms {
        let mut i = good.clone();
        i.accounts.truncate(at);
        for k in p {
            for x in tail[2 * k].iter().chain(&tail[2 * k + 1]) {
                i.accounts.push(ro(*x));
            }
        }
        let mut w2 = v.n.w.clone();
        say!(t, "verification with the nullifier accounts of the trees at positions {p:?}");
        t.mark();
        ck!(run(&mut w2, &[i], 0).is_err(), "position", "a verification over the trees {:?} is opened with the nullifier accounts of positions {p:?}", v.ti);
    }
    drive(&mut v, 3, true)?;
    let rt = rent_token(&v);
    let tx = final_tx(&v, send_data(&v), rt);
    must(run(&mut v.n.w, &tx, 0), "send-refused")?;
    let mut o = v.clone();
    o.ti = [v.ti[1], v.ti[0]];
    t.mark();
    let i = insert_ix(&o);
    ck!(run(&mut o.n.w, &[i], 0).is_err(), "tree", "nullifier hashes are inserted into the account of the other tree");
    // the state of somebody else's verification
    let mut o = v.clone();
    let (k, bump) = VerificationAccount::find_with_pubkey(r.key(), Some(v.i as u32));
    let mut c = o.n.w.accs[&v.acc].clone();
    c.data[0] = bump;
    o.n.w.accs.insert(k, c);
    let mut i = insert_ix(&o);
    i.accounts[1].pubkey = k;
    ck!(run(&mut o.n.w, &[i], 0).is_err(), "owner", "the verification account of somebody else is accepted");
    let i = insert_ix(&v);
    must(run(&mut v.n.w, &[i], 0), "insert-refused")?;
    Ok(())
}

// ---- G06

fn g06(r: &mut Rng, t: &mut Tr) -> R {
    let mut w0 = World::new(elusiv::id());
    let payer = r.key();
    w0.sys(payer, 1 << 50);
    w0.sys(SYS, 1);
    let gov = put::<GovernorAccount>(&mut w0, None);
    let cur = r.below(4) as u32;
    let old = fee_table(r, true);
    edit::<GovernorAccount>(&mut w0, None, |d| {
        let mut g = acct!(d, GovernorAccount);
        g.set_fee_version(&cur);
        g.set_program_fee(&old);
    });
    for _ in 0..3 {
        let v = if r.chance(2, 3) { cur } else { r.below(6) as u32 };
        let fee = { let x = r.chance(2, 3); fee_table(r, x) };
        let k = if r.chance(1, 10) { FeeAccount::find(Some(v + 1)).0 } else { FeeAccount::find(Some(v)).0 };
        let exists = w0.lamports(&k) > 0;
        let b = w0.clone();
        let g = run(&mut w0, &[ix(vec![sw(payer), w(gov), w(k), ro(SYS)], ElusivInstruction::InitNewFeeVersion { fee_version: v, program_fee: fee.clone() })], 0);
        let ok = v == cur && !exists && fee.is_valid() && k == FeeAccount::find(Some(v)).0;
        say!(t, "governor at {cur}, version {v}, existing {exists}, valid {} ({}): {}", fee.is_valid(), dump(&fee), if g.is_ok() { "accepted" } else { "refused" });
        ck!(g.is_ok() == ok, if ok { "refused" } else { "accepted" }, "setting up fee version {v}: {g:?}");
        if ok {
            t.mark();
            let mut d = w0.data(&k);
            ck!(d.len() == <FeeAccount as SizedAccount>::SIZE && w0.accs[&k].owner == elusiv::id(), "account", "the fee account has {} bytes", d.len());
            let f = acct!(d, FeeAccount).get_program_fee();
            let mut d = w0.data(&gov);
            let mut e = b.data(&gov);
            let gf = acct!(d, GovernorAccount).get_program_fee();
            ck!(dump(&f) == dump(&fee) && dump(&gf) == dump(&fee), "tables", "stored {}, governing {}, expected {}", dump(&f), dump(&gf), dump(&fee));
            acct!(e, GovernorAccount).set_program_fee(&fee);
            ck!(d == e, "governor", "more than the governing fee changes");
        } else {
            for (k, a) in &b.accs {
                ck!(&w0.accs[k] == a, "refused-changes", "a refused instruction changes {k}");
            }
        }
    }
    Ok(())
}

// ---- E01

fn trip<T: BorshSerDeSized + PartialEq>(name: &str, v: &T, exact: bool, r: &mut Rng, t: &mut Tr) -> R {
    let b = v.try_to_vec().unwrap();
    say!(t, "{name}: {} bytes, declared {}", b.len(), T::SIZE);
    ck!(b.len() <= T::SIZE && (!exact || b.len() == T::SIZE), "size", "a value of {name} takes {} bytes, its declared size is {}", b.len(), T::SIZE);
    let mut p = b.clone();
    while p.len() < T::SIZE + 8 {
        p.push(if exact { r.next() as u8 } else { 0 });
    }
    let mut s = &p[..];
    let Ok(w) = T::deserialize(&mut s) else { ck!(false, "reject", "the encoding of a value of {name} is rejected"); unreachable!() };
    ck!(w == *v, "round-trip", "a value of {name} decodes to another value");
    if exact {
        ck!(s.len() == p.len() - T::SIZE, "consumed", "decoding {name} consumes {} bytes", p.len() - s.len());
    }
    t.mark();
    Ok(())
}
fn js(r: &mut Rng) -> JoinSplitPublicInputs {
    let n = r.range(1, 4) as usize;
    let second = r.below(4) as usize;
    JoinSplitPublicInputs {
        input_commitments: (0..n).map(|i| InputCommitment { root: if i == 0 || i == second { Some(RawU256::new(r.bytes32())) } else { None }, nullifier_hash: RawU256::new(r.bytes32()) }).collect(),
        output_commitment: RawU256::new(r.bytes32()),
        recent_commitment_index: r.edge64() as u32,
        fee_version: r.edge64() as u32,
        amount: r.edge64(),
        fee: r.edge64(),
        optional_fee: OptionalFee { collector: r.key(), amount: r.edge64() },
        token_id: r.edge64() as u16,
        metadata: metadata(r),
    }
}
fn big(r: &mut Rng) -> BigInteger256 {
    BigInteger256([r.edge64(), r.edge64(), r.edge64(), r.edge64()])
}
fn opt_raw(r: &mut Rng) -> ElusivOption<RawU256> {
    if r.chance(1, 2) { ElusivOption::None } else { ElusivOption::Some(RawU256::new(r.bytes32())) }
}
fn fq(r: &mut Rng) -> Fq {
    base_skip_mr(BigInteger256([r.edge64(), r.next(), r.edge64(), r.next() >> r.range(3, 40)]))
}
fn fr(r: &mut Rng) -> Fr {
    scalar_skip_mr(BigInteger256([r.edge64(), r.next(), r.edge64(), r.next() >> r.range(3, 40)]))
}
fn fq2(r: &mut Rng) -> Fq2 {
    Fq2::new(fq(r), fq(r))
}
fn fq6(r: &mut Rng) -> Fq6 {
    Fq6::new(fq2(r), fq2(r), fq2(r))
}
fn fq12(r: &mut Rng) -> Fq12 {
    Fq12::new(fq6(r), fq6(r))
}
fn e01(r: &mut Rng, t: &mut Tr) -> R {
    match r.below(13) {
        0 => {
            let x = Wrap(fq(r));
            trip("Wrap<Fq>", &x, true, r, t)?;
            trip("Wrap<Fr>", &Wrap(fr(r)), true, r, t)?;
            trip("Wrap<BigInteger256>", &Wrap(big(r)), true, r, t)
        }
        1 => trip("Wrap<Fq2>", &Wrap(fq2(r)), true, r, t),
        2 => trip("Wrap<Fq6>", &Wrap(fq6(r)), true, r, t),
        3 => trip("Wrap<Fq12>", &Wrap(fq12(r)), true, r, t),
        4 => {
            let g = G1A(G1Affine::new(fq(r), fq(r), r.chance(1, 3)));
            trip("G1A", &g, true, r, t)?;
            trip("Wrap<G1A>", &Wrap(g), true, r, t)
        }
        5 => {
            let g = G2A(G2Affine::new(fq2(r), fq2(r), r.chance(1, 3)));
            trip("G2A", &g, true, r, t)?;
            trip("Wrap<G2A>", &Wrap(g), true, r, t)
        }
        6 => {
            let g = G2HomProjective { x: fq2(r), y: fq2(r), z: fq2(r) };
            let b = g.try_to_vec().unwrap();
            let h = G2HomProjective::deserialize(&mut &b[..]).unwrap();
            say!(t, "G2HomProjective: {} bytes", b.len());
            t.mark();
            ck!(b.len() == G2HomProjective::SIZE && h.x == g.x && h.y == g.y && h.z == g.z, "round-trip", "a homogeneous point does not round-trip");
            Ok(())
        }
        7 => {
            let p = Proof { a: G1A(G1Affine::new(fq(r), fq(r), false)), b: G2A(G2Affine::new(fq2(r), fq2(r), true)), c: G1A(G1Affine::new(fq(r), fq(r), r.chance(1, 2))) };
            trip("Proof", &p, true, r, t)
        }
        8 => {
            let q = BaseCommitmentHashRequest { base_commitment: RawU256::new(r.bytes32()), recent_commitment_index: r.edge64() as u32, amount: r.edge64(), token_id: r.edge64() as u16, commitment: RawU256::new(r.bytes32()), fee_version: r.edge64() as u32, min_batching_rate: r.edge64() as u32 };
            trip("BaseCommitmentHashRequest", &q, true, r, t)?;
            let q = CommitmentHashRequest { commitment: r.bytes32(), fee_version: r.edge64() as u32, min_batching_rate: r.edge64() as u32 };
            trip("CommitmentHashRequest", &q, true, r, t)
        }
        9 => {
            trip("OptionalFee", &OptionalFee { collector: r.key(), amount: r.edge64() }, true, r, t)?;
            trip("OrdU256", &OrdU256(r.bytes32()), true, r, t)?;
            trip("RawU256", &RawU256::new(r.bytes32()), true, r, t)?;
            let f = { let x = r.chance(1, 2); fee_table(r, x) };
            trip("ProgramFee", &f, true, r, t)?;
            trip("Lamports", &Lamports(r.edge64()), true, r, t)
        }
        10 => {
            let d = VerificationAccountData {
                fee_payer: RawU256::new(r.bytes32()),
                fee_payer_account: RawU256::new(r.bytes32()),
                recipient_wallet: opt_raw(r),
                skip_nullifier_pda: r.chance(1, 2),
                min_batching_rate: r.edge64() as u32,
                token_id: r.edge64() as u16,
                subvention: r.edge64(),
                network_fee: r.edge64(),
                commitment_hash_fee: Lamports(r.edge64()),
                commitment_hash_fee_token: r.edge64(),
                proof_verification_fee: r.edge64(),
                associated_token_account_rent: r.edge64(),
            };
            trip("VerificationAccountData", &d, true, r, t)
        }
        11 => {
            let j = js(r);
            trip("JoinSplitPublicInputs", &j, false, r, t)?;
            let s = SendPublicInputs { join_split: j.clone(), recipient_is_associated_token_account: r.chance(1, 2), solana_pay_transfer: r.chance(1, 2), hashed_inputs: r.bytes32() };
            trip("SendPublicInputs", &s, false, r, t)?;
            let m = MigratePublicInputs { join_split: j, current_nsmt_root: RawU256::new(r.bytes32()), next_nsmt_root: RawU256::new(r.bytes32()) };
            trip("MigratePublicInputs", &m, false, r, t)?;
            // as stored in the verification account
            let q = if r.chance(1, 2) { ProofRequest::Send(s) } else { ProofRequest::Migrate(m) };
            let mut d = vec![0u8; <VerificationAccount as SizedAccount>::SIZE];
            let mut v = VerificationAccount::new(&mut d).unwrap();
            let other = VerificationAccountData { fee_payer: RawU256::new(r.bytes32()), ..Default::default() };
            v.set_other_data(&other);
            v.set_request(&q);
            let back = v.get_request();
            ck!(back.try_to_vec().unwrap() == q.try_to_vec().unwrap(), "stored-request", "a stored proof request is read back differently");
            ck!(v.get_other_data() == other, "stored-request-overlap", "storing a proof request changes its neighbours");
            Ok(())
        }
        _ => {
            for x in [ElusivOption::None, ElusivOption::Some(r.key())] {
                let b = x.try_to_vec().unwrap();
                let mut s = &b[..];
                let y = ElusivOption::<Pubkey>::deserialize(&mut s).unwrap();
                ck!(b.len() == 33 && s.is_empty() && x.option() == y.option(), "round-trip", "an optional key does not round-trip");
            }
            for x in [ElusivOption::None, ElusivOption::Some(r.chance(1, 2))] {
                let b = x.try_to_vec().unwrap();
                let mut s = &b[..];
                let y = ElusivOption::<bool>::deserialize(&mut s).unwrap();
                ck!(b.len() == 2 && s.is_empty() && x.option() == y.option(), "round-trip", "an optional flag does not round-trip");
            }
            trip("u128", &(((r.edge64() as u128) << 64) | r.edge64() as u128), true, r, t)?;
            trip("u64", &r.edge64(), true, r, t)?;
            trip("u32", &(r.edge64() as u32), true, r, t)?;
            trip("u16", &(r.edge64() as u16), true, r, t)?;
            trip("bool", &r.chance(1, 2), true, r, t)?;
            trip("Pubkey", &r.key(), true, r, t)?;
            trip("[u64; 5]", &[r.edge64(), 1, r.edge64(), 3, r.edge64()], true, r, t)?;
            trip("Ipv4Addr", &std::net::Ipv4Addr::from(r.next() as u32), true, r, t)
        }
    }
}
/// instruction data that the program accepts is the encoding of exactly one instruction
fn e01_ix(r: &mut Rng, t: &mut Tr) -> R {
    let v = vnet(r);
    let mut list = vec![init_ix(&v), fee_ix(&v), proof_ix(&v), insert_ix(&v), pay_ix(&v)];
    let sd = send_data(&v);
    list.push(send_ix(&v, sd));
    for i in &list {
        let Ok(x) = ElusivInstruction::try_from_slice(&i.data) else { ck!(false, "reject", "an encoded instruction is rejected"); unreachable!() };
        ck!(x.try_to_vec().unwrap() == i.data, "round-trip", "an instruction does not round-trip");
        let mut long = i.data.clone();
        long.push(r.next() as u8);
        ck!(ElusivInstruction::try_from_slice(&long).is_err(), "trailing", "trailing instruction bytes are ignored");
        let cut = r.below(i.data.len() as u64) as usize;
        let short = guarded(|| ElusivInstruction::try_from_slice(&i.data[..cut]).is_ok());
        ck!(short != Ok(true), "truncated", "an instruction cut to {cut} bytes is accepted");
        say!(t, "tag {} of {} bytes, cut to {cut}", i.data[0], i.data.len());
    }
    t.mark();
    Ok(())
}

// ---- E04

/// a history of writes to the fields of an account, against the last value written to each
macro_rules! fields {
    ($r:ident, $t:ident, $T:ident, $size:expr, [$(($g:ident, $s:ident, $gen:expr)),* $(,)?], [$(($ga:ident, $sa:ident, $len:expr, $gena:expr)),* $(,)?]) => {{
        let size: usize = $size;
        let name = stringify!($T);
        for d in [0, 1, size - 1, size + 1, size + 7, $r.below(2 * size as u64) as usize] {
            let mut b = vec![0u8; d];
            let ok = <$T as ProgramAccount>::new(&mut b).is_ok();
            ck!(ok == (d == size), "length", "{name} of {size} bytes is built from {d} bytes: {ok}");
        }
        let mut data = vec![0u8; size];
        let mut model: std::collections::BTreeMap<(&str, usize), Vec<u8>> = Default::default();
        for _ in 0..$r.range(3, 12) {
            let before = data.clone();
            let Ok(mut a) = <$T as ProgramAccount>::new(&mut data) else { ck!(false, "length", "{name} is not built from its size"); unreachable!() };
            let mut wrote: usize = 0;
            let n = (&[$(stringify!($s)),*] as &[&str]).len() + (&[$(stringify!($sa)),*] as &[&str]).len();
            let pick = $r.below(n as u64) as usize;
            let mut k = 0;
            $(
                if k == pick {
                    let v = ($gen)($r);
                    a.$s(&v);
                    say!($t, "{name}.{}", stringify!($s));
                    wrote = v.try_to_vec().unwrap().len();
                    model.insert((stringify!($g), 0), v.try_to_vec().unwrap());
                }
                k += 1;
            )*
            $(
                if k == pick {
                    let v = ($gena)($r);
                    let i = if $r.chance(1, 3) { $len - 1 } else { $r.below($len as u64) as usize };
                    a.$sa(i, &v);
                    say!($t, "{name}.{}({i})", stringify!($sa));
                    wrote = v.try_to_vec().unwrap().len();
                    model.insert((stringify!($ga), i), v.try_to_vec().unwrap());
                }
                k += 1;
            )*
            let _ = k;
            drop(a);
            let at: Vec<usize> = (0..size).filter(|i| before[*i] != data[*i]).collect();
            ck!(at.is_empty() || at[at.len() - 1] - at[0] < wrote, "frame", "a write of {wrote} bytes to {name} changes bytes {} to {}", at[0], at[at.len() - 1]);
            let Ok(a) = <$T as ProgramAccount>::new(&mut data) else { ck!(false, "length", "{name} is not built from its size"); unreachable!() };
            for ((g, i), want) in &model {
                $( if *g == stringify!($g) { let got = guarded(|| a.$g().try_to_vec().unwrap()); ck!(got.as_ref().ok() == Some(want), "read-back", "{name}.{g} reads {got:?}, written was {want:?}"); } )*
                $( if *g == stringify!($ga) { let got = guarded(|| a.$ga(*i).try_to_vec().unwrap()); ck!(got.as_ref().ok() == Some(want), "read-back", "{name}.{g}({i}) reads {got:?}, written was {want:?}"); } )*
                let _ = i;
            }
        }
        $t.mark();
        Ok(())
    }};
}
trait Kids {
    fn kid(&self, i: usize) -> ElusivOption<Pubkey>;
    fn set_kid(&mut self, i: usize, k: &ElusivOption<Pubkey>);
}
impl<'a, 'b, 't, T: ParentAccount<'a, 'b, 't>> Kids for T
where
    'b: 'a,
    't: 'b,
{
    fn kid(&self, i: usize) -> ElusivOption<Pubkey> {
        self.get_child_pubkey(i).into()
    }
    fn set_kid(&mut self, i: usize, k: &ElusivOption<Pubkey>) {
        self.set_child_pubkey(i, *k)
    }
}
fn e04(r: &mut Rng, t: &mut Tr) -> R {
    let n32 = |r: &mut Rng| r.edge64() as u32;
    let n16 = |r: &mut Rng| r.edge64() as u16;
    let raw = |r: &mut Rng| RawU256::new(r.bytes32());
    let b32 = |r: &mut Rng| r.bytes32();
    let flag = |r: &mut Rng| r.chance(1, 2);
    let key = |r: &mut Rng| if r.chance(1, 3) { ElusivOption::None } else { ElusivOption::Some(r.key()) };
    match r.below(7) {
        0 => fields!(r, t, CommitmentHashingAccount, CommitmentHashingAccount::SIZE,
            [(get_instruction, set_instruction, n32), (get_fee_version, set_fee_version, n32), (get_is_active, set_is_active, flag), (get_setup, set_setup, flag), (get_finalization_ix, set_finalization_ix, n32), (get_batching_rate, set_batching_rate, n32), (get_ordering, set_ordering, n32)],
            [(get_siblings, set_siblings, MT_HEIGHT as usize, b32), (get_hash_tree, set_hash_tree, elusiv::commitment::MAX_HT_SIZE, b32)]),
        1 => fields!(r, t, VKeyAccount, VKeyAccount::SIZE,
            [(get_public_inputs_count, set_public_inputs_count, n32), (get_authority, set_authority, |r: &mut Rng| if r.chance(1, 2) { ElusivOption::None } else { ElusivOption::Some(r.key()) }), (get_is_frozen, set_is_frozen, flag), (get_version, set_version, n32)], [(kid, set_kid, 2usize, key)]),
        2 => fields!(r, t, StorageAccount, StorageAccount::SIZE,
            [(get_next_commitment_ptr, set_next_commitment_ptr, n32), (get_trees_count, set_trees_count, n32), (get_mt_roots_count, set_mt_roots_count, n32)],
            [(get_active_mt_root_history, set_active_mt_root_history, HISTORY_ARRAY_SIZE, b32), (kid, set_kid, <StorageAccount as ParentAccount>::COUNT, key)]),
        3 => fields!(r, t, NullifierAccount, NullifierAccount::SIZE,
            [(get_root, set_root, b32), (get_nullifier_hash_count, set_nullifier_hash_count, n32)],
            [(get_max_values, set_max_values, <NullifierAccount as ParentAccount>::COUNT, |r: &mut Rng| if r.chance(1, 2) { ElusivOption::None } else { ElusivOption::Some(r.bytes32()) }), (kid, set_kid, <NullifierAccount as ParentAccount>::COUNT, key)]),
        4 => fields!(r, t, VerificationAccount, VerificationAccount::SIZE,
            [(get_prepare_inputs_instructions_count, set_prepare_inputs_instructions_count, n32), (get_vkey_id, set_vkey_id, n32), (get_is_verified, set_is_verified, |r: &mut Rng| match r.below(3) { 0 => ElusivOption::None, 1 => ElusivOption::Some(true), _ => ElusivOption::Some(false) }),
             (get_state, set_state, |r: &mut Rng| match r.below(4) { 0 => VerificationState::None, 1 => VerificationState::Finalized, 2 => VerificationState::Closed, _ => VerificationState::FeeTransferred }), (get_step, set_step, |r: &mut Rng| match r.below(3) { 0 => VerificationStep::PublicInputPreparation, 1 => VerificationStep::CombinedMillerLoop, _ => VerificationStep::FinalExponentiation })],
            [(get_prepare_inputs_instructions, set_prepare_inputs_instructions, 1usize, n16), (get_public_input, set_public_input, 14usize, raw), (get_tree_indices, set_tree_indices, MAX_MT_COUNT, n32)]),
        5 => fields!(r, t, GovernorAccount, GovernorAccount::SIZE,
            [(get_fee_version, set_fee_version, n32), (get_commitment_batching_rate, set_commitment_batching_rate, n32), (get_program_fee, set_program_fee, |r: &mut Rng| fee_table(r, false))], []),
        _ => fields!(r, t, BaseCommitmentHashingAccount, BaseCommitmentHashingAccount::SIZE,
            [(get_instruction, set_instruction, n32), (get_fee_version, set_fee_version, n32), (get_fee_payer, set_fee_payer, b32), (get_is_active, set_is_active, flag), (get_min_batching_rate, set_min_batching_rate, n32)], []),
    }
}

// ---- E03

fn e03(r: &mut Rng, t: &mut Tr) -> R {
    match r.below(3) {
        0 => ram::<Fq, 6>(r, t, fq),
        1 => ram::<Fq2, 10>(r, t, fq2),
        _ => ram::<Fq6, 3>(r, t, fq6),
    }?;
    if r.chance(1, 3) { ram::<Fq12, 7>(r, t, fq12) } else { ram::<G2A, 1>(r, t, |r| G2A(G2Affine::new(fq2(r), fq2(r), false))) }
}
fn ram<N: Copy + PartialEq, const S: usize>(r: &mut Rng, t: &mut Tr, gen: fn(&mut Rng) -> N) -> R
where
    Wrap<N>: BorshSerDeSized,
{
    let sz = <Wrap<N> as BorshSerDeSized>::SIZE;
    let mut mem = vec![0u8; sz * S];
    let mut model: Vec<N> = (0..S).map(|_| gen(r)).collect();
    for (i, v) in model.iter().enumerate() {
        let b = Wrap(*v).try_to_vec().unwrap();
        ck!(b.len() <= sz, "slot-size", "a value of {} bytes is kept in slots of {sz} bytes", b.len());
        mem[i * sz..i * sz + b.len()].copy_from_slice(&b);
    }
    for tx in 0..r.range(1, 4) {
        let saved = mem.clone();
        let old = model.clone();
        let mut written = vec![false; S];
        let mut ram = LazyRAM::<N, S>::new(&mut mem);
        let mut frame = 0usize;
        let mut ops = vec![];
        for _ in 0..r.range(1, 14) {
            match r.below(8) {
                0 => {
                    frame = r.below(S as u64 + 1) as usize;
                    ram.set_frame(frame);
                    ck!(ram.get_frame() == frame, "frame", "the frame is not the one set");
                    ops.push(format!("frame {frame}"));
                }
                1 => {
                    let k = r.below(2) as usize;
                    if frame + k <= S {
                        ram.inc_frame(k);
                        frame += k;
                        ops.push(format!("inc {k}"));
                    }
                }
                2..=4 => {
                    let i = r.below(S as u64 + 1) as usize;
                    let v = gen(r);
                    let g = guarded(|| ram.write(v, i));
                    ck!(g.is_ok() == (frame + i < S), "write-bounds", "writing slot {} of {S}: {g:?}", frame + i);
                    if g.is_ok() {
                        model[frame + i] = v;
                        written[frame + i] = true;
                        t.mark();
                    }
                    ops.push(format!("write {}", frame + i));
                }
                5 if r.chance(1, 2) => {
                    ck!(ram.serialize().is_ok(), "save", "saving fails");
                    ops.push("save".into());
                }
                _ => {
                    let i = r.below(S as u64 + 1) as usize;
                    let g = guarded(|| ram.read(i));
                    ck!(g.is_ok() == (frame + i < S), "read-bounds", "reading slot {} of {S} {}", frame + i, if g.is_ok() { "succeeds" } else { "fails" });
                    if let Ok(v) = g {
                        ck!(v == model[frame + i], "read", "slot {} is read as another value", frame + i);
                    }
                    ops.push(format!("read {}", frame + i));
                }
            }
        }
        say!(t, "{S} slots of {sz} bytes, transaction {tx}: {}", ops.join(", "));
        if r.chance(1, 8) {
            // a failed transaction saves nothing
            mem = saved;
            model = old;
            continue;
        }
        ck!(ram.serialize().is_ok(), "save", "saving fails");
        drop(ram);
        for i in 0..S {
            let now = &mem[i * sz..(i + 1) * sz];
            if written[i] {
                ck!(now == &Wrap(model[i]).try_to_vec().unwrap()[..], "saved", "the saved slot {i} is not the value written last");
            } else {
                ck!(now == &saved[i * sz..(i + 1) * sz], "saved-other", "saving changes slot {i}, which was not written");
            }
        }
    }
    Ok(())
}

/// cached fields and arrays of accounts: the value set last is read, and after saving it is the stored one
fn e03_fields(r: &mut Rng, t: &mut Tr) -> R {
    match r.below(4) {
        0 => field(r, t, |r| r.next()),
        1 => field(r, t, |r| OrdU256(r.bytes32())),
        2 => field(r, t, |r| r.next() as u16),
        _ => field(r, t, |r| r.chance(1, 2)),
    }
}
fn field<N: BorshSerDeSized + Copy + PartialEq>(r: &mut Rng, t: &mut Tr, gen: fn(&mut Rng) -> N) -> R {
    const S: usize = 6;
    let sz = N::SIZE;
    let enc = |v: &N| {
        let mut b = v.try_to_vec().unwrap();
        b.resize(sz, 0);
        b
    };
    // stored values (fixed-size encodings only are stored in cached fields)
    let gen = |r: &mut Rng| loop {
        let v = gen(r);
        if v.try_to_vec().unwrap().len() == sz {
            return v;
        }
    };
    let (mut one, mut arr, mut jit) = (vec![], vec![], vec![]);
    let mut m1 = gen(r);
    let mut ma: Vec<N> = (0..S).map(|_| gen(r)).collect();
    let mut mj: Vec<N> = (0..S).map(|_| gen(r)).collect();
    one.extend(enc(&m1));
    ma.iter().for_each(|v| arr.extend(enc(v)));
    mj.iter().for_each(|v| jit.extend(enc(v)));
    ck!(Lazy::<N>::SIZE == sz && LazyArray::<N, S>::SIZE == sz * S && JITArray::<N, S>::SIZE == sz * S, "field-size", "a cached field declares another size than its values take");
    for tx in 0..r.range(1, 3) {
        let mut ops = vec![];
        {
            let mut f = Lazy::<N>::new(&mut one);
            let mut a = LazyArray::<N, S>::new(&mut arr);
            let mut j = JITArray::<N, S>::new(&mut jit);
            for _ in 0..r.range(1, 16) {
                let i = r.below(S as u64 + 1) as usize;
                let v = gen(r);
                match r.below(9) {
                    0 => {
                        f.set(v);
                        m1 = v;
                        ops.push("set".to_string());
                    }
                    1 => {
                        f.set_no_serialization(v);
                        m1 = v;
                        ops.push("set (unsaved)".to_string());
                    }
                    2 => {
                        ck!(f.get() == m1, "field", "the field is read as another value than the last one set");
                        ops.push("get".to_string());
                    }
                    k @ (3 | 4) => {
                        let g = guarded(|| if k == 3 { a.set(i, v) } else { a.set_no_serialization(i, v) });
                        ck!(g.is_ok() == (i < S), "array-bounds", "setting element {i} of {S}: {g:?}");
                        if g.is_ok() {
                            ma[i] = v;
                        }
                        ops.push(format!("array[{i}] set{}", if k == 3 { "" } else { " (unsaved)" }));
                    }
                    5 => {
                        let g = guarded(|| a.get(i));
                        ck!(g.is_ok() == (i < S), "array-bounds", "reading element {i} of {S}");
                        if let Ok(x) = g {
                            ck!(x == ma[i], "array", "element {i} is read as another value than the last one set");
                        }
                        ops.push(format!("array[{i}] get"));
                    }
                    6 | 7 => {
                        let g = guarded(|| j.set(i, &v));
                        ck!(g.is_ok() == (i < S), "array-bounds", "setting element {i} of {S}: {g:?}");
                        if g.is_ok() {
                            mj[i] = v;
                        }
                        ops.push(format!("direct[{i}] set"));
                    }
                    _ => {
                        let g = guarded(|| j.get(i));
                        ck!(g.is_ok() == (i < S), "array-bounds", "reading element {i} of {S}");
                        if let Ok(x) = g {
                            ck!(x == mj[i], "array", "element {i} is read as another value than the last one set");
                        }
                        ops.push(format!("direct[{i}] get"));
                    }
                }
            }
            f.serialize();
            a.serialize();
        }
        say!(t, "{sz} byte values, transaction {tx}: {}", ops.join(", "));
        ck!(one == enc(&m1), "field-saved", "the saved field is not the value set last");
        for i in 0..S {
            ck!(arr[i * sz..(i + 1) * sz] == enc(&ma[i]), "array-saved", "the saved element {i} is not the value set last");
            ck!(jit[i * sz..(i + 1) * sz] == enc(&mj[i]), "array-saved", "the saved element {i} is not the value set last");
        }
    }
    t.mark();
    Ok(())
}
