//! executable contracts of the warden network program
use crate::svm::*;
use crate::{acct, ck, say, Case, Rng, Tr, R};
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv_types::accounts::*;
use elusiv_types::{ElusivOption, TOKENS};
use elusiv_warden_network::apa::*;
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as Ix;
use elusiv_warden_network::network::*;
use elusiv_warden_network::processor::{unix_timestamp_to_day_and_year, METADATA_ATTESTER_AUTHORITY};
use elusiv_warden_network::warden::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![
        ("W01", vec![("register", w01 as Case)]),
        ("W02", vec![("authority", w02 as Case)]),
        ("W03", vec![("track", w03 as Case), ("made-by", w03_made_by as Case)]),
        ("W04", vec![("calendar", w04 as Case)]),
        ("W05", vec![("genesis", w05 as Case)]),
        ("W06", vec![("propose", w06 as Case)]),
    ]
}

const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
fn ixs() -> Pubkey {
    solana_program::sysvar::instructions::ID
}
fn me() -> Pubkey {
    elusiv_warden_network::id()
}
fn ser<T: BorshSerialize>(x: &T) -> Vec<u8> {
    x.try_to_vec().unwrap()
}
fn sw(k: Pubkey) -> AccountMeta {
    meta(k, true, true)
}
fn s(k: Pubkey) -> AccountMeta {
    meta(k, true, false)
}
fn w(k: Pubkey) -> AccountMeta {
    meta(k, false, true)
}
fn ro(k: Pubkey) -> AccountMeta {
    meta(k, false, false)
}
fn ix(a: Vec<AccountMeta>, i: Ix) -> Instruction {
    Instruction { program_id: me(), accounts: a, data: ser(&i) }
}
fn run(w: &mut World, tx: &[Instruction], i: usize) -> Res {
    w.exec(elusiv_warden_network::process_instruction, tx, i)
}
fn pda<T: PDAAccount>(off: PDAOffset) -> Pubkey {
    T::find(off).0
}
fn pda_pk<T: PDAAccount>(k: Pubkey, off: PDAOffset) -> Pubkey {
    T::find_with_pubkey(k, off).0
}
fn put<T: SizedAccount + PDAAccount>(w: &mut World, off: PDAOffset) -> Pubkey {
    let (k, b) = T::find(off);
    let mut d = vec![0u8; T::SIZE];
    d[0] = b;
    w.put(k, rent(d.len()), d, me());
    k
}
fn put_pk<T: SizedAccount + PDAAccount>(w: &mut World, pk: Pubkey, off: PDAOffset) -> Pubkey {
    let (k, b) = T::find_with_pubkey(pk, off);
    let mut d = vec![0u8; T::SIZE];
    d[0] = b;
    w.put(k, rent(d.len()), d, me());
    k
}
fn fresh() -> World {
    let mut w = World::new(me());
    w.sys(SYS, 1);
    put::<WardensAccount>(&mut w, None);
    put::<BasicWardenNetworkAccount>(&mut w, None);
    put::<ApaWardenNetworkAccount>(&mut w, None);
    put::<ApaProposalsAccount>(&mut w, None);
    w
}
fn string<const N: usize>(r: &mut Rng) -> FixedLenString<N> {
    let len = r.below(N as u64 + 1);
    let mut b = len.to_le_bytes().to_vec();
    b.extend((0..N).map(|i| if (i as u64) < len { r.next() as u8 } else { 0 }));
    FixedLenString::try_from_slice(&b).unwrap()
}
fn region(r: &mut Rng) -> WardenRegion {
    use WardenRegion::*;
    r.pick(&[Africa, America, Antarctica, Asia, Australia, Europe, Other])
}
fn timezone(r: &mut Rng) -> Timezone {
    Timezone { area: r.below(3) as u8, location: if r.chance(1, 2) { string(r) } else { FixedLenString::try_from_slice(&[0; 22]).unwrap() } }
}
fn config(r: &mut Rng, key: Pubkey) -> ElusivBasicWardenConfig {
    let mut tokens = [false; TOKENS.len()];
    for x in tokens.iter_mut() {
        *x = r.chance(1, 2)
    }
    ElusivBasicWardenConfig {
        ident: string(r),
        key,
        operator: if r.chance(1, 2) { Some(r.key()).into() } else { None.into() },
        addr: std::net::Ipv4Addr::from(r.next() as u32),
        rpc_port: r.next() as u16,
        tls_mode: match r.below(3) {
            0 => TlsMode::NoTls,
            1 => TlsMode::Optional,
            _ => TlsMode::Required,
        },
        uses_proxy: r.chance(1, 2),
        jurisdiction: r.next() as u16,
        timezone: timezone(r),
        region: region(r),
        version: [r.next() as u16, r.next() as u16, 1],
        platform: string(r),
        warden_features: WardenFeatures { apa: r.chance(1, 2), attestation: r.chance(1, 2) },
        basic_warden_features: BasicWardenFeatures { rpc: r.chance(1, 2), relay: r.chance(1, 2), instant_relay: r.chance(1, 2) },
        tokens,
    }
}

// ---- W01

/// the fields of the two network accounts are private: they are read and written by their
/// documented layout (declaration order, packed)
pub struct Net<'a>(&'a mut [u8]);
const T: usize = TOKENS.len();
impl<'a> Net<'a> {
    fn at(d: &'a mut Vec<u8>) -> Self {
        let n = 4 + 512 * (4 + 3 + T + 1);
        let l = d.len();
        Net(&mut d[l - n..])
    }
    fn count(&self) -> u32 {
        u32::from_le_bytes(self.0[..4].try_into().unwrap())
    }
    fn entry(&self, i: usize) -> (u32, Vec<u8>, Vec<bool>, Vec<u8>) {
        let d = &self.0[4..];
        (
            u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap()),
            d[2048 + 3 * i..2048 + 3 * i + 3].to_vec(),
            d[3584 + T * i..3584 + T * i + T].iter().map(|x| *x == 1).collect(),
            vec![d[3584 + 512 * T + i]],
        )
    }
    fn set_count(&mut self, n: u32) {
        self.0[..4].copy_from_slice(&n.to_le_bytes())
    }
    fn set_member(&mut self, i: usize, id: u32) {
        self.0[4 + 4 * i..8 + 4 * i].copy_from_slice(&id.to_le_bytes())
    }
    fn set_region(&mut self, i: usize, r: WardenRegion) {
        self.0[4 + 3584 + 512 * T + i] = r as u8
    }
}
/// count, and per slot (member, features, tokens, region)
fn network(w: &World) -> (u32, Vec<(u32, Vec<u8>, Vec<bool>, Vec<u8>)>) {
    let mut d = w.data(&pda::<BasicWardenNetworkAccount>(None));
    let a = Net::at(&mut d);
    (a.count(), (0..512).map(|i| a.entry(i)).collect())
}
fn next_id(w: &World) -> u32 {
    let mut d = w.data(&pda::<WardensAccount>(None));
    acct!(d, WardensAccount).get_next_warden_id()
}
fn warden(w: &World, id: u32) -> Option<ElusivBasicWarden> {
    let mut d = w.data(&pda::<BasicWardenAccount>(Some(id)));
    if d.is_empty() {
        return None;
    }
    Some(acct!(d, BasicWardenAccount).get_warden())
}

fn w01(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = {
        let mut w_ = fresh();
        if r.chance(1, 2) {
            // an aged network: ids and slots need not be equal
            let n = r.pick(&[0u32, 5, 509, 510, 511, 512]);
            let mut d = w_.data(&pda::<BasicWardenNetworkAccount>(None));
            {
                let mut a = Net::at(&mut d);
                a.set_count(n);
                for i in 0..n as usize {
                    a.set_member(i, r.below(1000) as u32);
                    a.set_region(i, region(r));
                }
            }
            w_.accs.get_mut(&pda::<BasicWardenNetworkAccount>(None)).unwrap().data = d;
            let id = r.pick(&[n, n + 7, u32::MAX, u32::MAX - 1, 1 << 31]);
            let mut d = w_.data(&pda::<WardensAccount>(None));
            acct!(d, WardensAccount).set_next_warden_id(&id);
            w_.accs.get_mut(&pda::<WardensAccount>(None)).unwrap().data = d;
        }
        w_
    };
    let w0 = &mut w_;
    let mut done: Vec<Pubkey> = vec![];
    for _ in 0..r.range(2, 8) {
        let now = 1_600_000_000 + r.below(100_000_000) as i64;
        w0.now = now;
        let key = if r.chance(1, 6) && !done.is_empty() { r.pick(&done) } else { r.key() };
        if !w0.accs.contains_key(&key) {
            w0.sys(key, 1 << 50);
        }
        let next = next_id(w0);
        let (n, entries) = network(w0);
        let id = match r.below(6) {
            0 => next.wrapping_add(1),
            1 => next.wrapping_sub(1),
            _ => next,
        };
        let ck_ = if r.chance(1, 7) { r.key() } else { key };
        let cfg = config(r, ck_);
        let signed = r.chance(9, 10);
        let acc_id = if r.chance(1, 10) { id.wrapping_add(1) } else { id };
        let map_key = if r.chance(1, 10) { r.key() } else { key };
        let before = w0.clone();
        let g = run(
            w0,
            &[ix(
                vec![meta(key, signed, true), w(pda::<BasicWardenAccount>(Some(acc_id))), w(pda_pk::<BasicWardenMapAccount>(map_key, None)), w(pda::<WardensAccount>(None)), w(pda::<BasicWardenNetworkAccount>(None)), ro(SYS)],
                Ix::RegisterBasicWarden { warden_id: id, config: cfg.clone() },
            )],
            0,
        );
        let ok = signed && id == next && cfg.key == key && acc_id == id && map_key == key && n < 512 && next < u32::MAX && !done.contains(&key);
        say!(t, "register id {id} of {next}, slot {n}: {}", g.is_ok());
        t.mark();
        ck!(g.is_ok() == ok, if ok { "refused" } else { "accepted" }, "registration of id {id} (next {next}, {n} members, signed {signed}, key matches {}) gives {g:?}", cfg.key == key);
        if !ok {
            ck!(w0.accs.iter().all(|(k, a)| before.accs.get(k).map_or(a.data.is_empty(), |b| a == b)), "rejected-change", "a refused registration changes an account");
            continue;
        }
        done.push(key);
        ck!(next_id(w0) == next + 1, "counter", "the id counter goes from {next} to {}", next_id(w0));
        let (n1, e1) = network(w0);
        ck!(n1 == n + 1, "count", "the number of members goes from {n} to {n1}");
        for i in 0..512usize {
            if i == n as usize {
                let want = (id, ser(&cfg.basic_warden_features), cfg.tokens.to_vec(), ser(&cfg.region));
                ck!(e1[i] == want, "slot", "the new entry in slot {i} is {:?}, not {want:?}", e1[i]);
            } else {
                ck!(e1[i] == entries[i], "other-slot", "the registration in slot {n} changes slot {i}");
            }
        }
        let want = ElusivBasicWarden { config: cfg.clone(), lut: SYS, asn: None.into(), is_operator_confirmed: false, is_metadata_valid: None.into(), is_active: false, join_timestamp: now as u64, activation_timestamp: now as u64 };
        let got = warden(w0, id);
        ck!(got.as_ref().map(ser) == Some(ser(&want)), "record", "the stored warden record differs from the registered one");
        let mut d = w0.data(&pda_pk::<BasicWardenMapAccount>(key, None));
        ck!(!d.is_empty() && acct!(d, BasicWardenMapAccount).get_warden_id() == id, "map", "the key does not map to the new id");
        let touched = [key, pda::<BasicWardenAccount>(Some(id)), pda_pk::<BasicWardenMapAccount>(key, None), pda::<WardensAccount>(None), pda::<BasicWardenNetworkAccount>(None)];
        ck!(before.accs.iter().all(|(k, a)| touched.contains(k) || w0.accs[k] == *a), "frame", "registration changes an unrelated account");
    }
    Ok(())
}

// ---- W02

fn set_warden(w: &mut World, id: u32, x: &ElusivBasicWarden) {
    let k = pda::<BasicWardenAccount>(Some(id));
    let mut d = w.data(&k);
    acct!(d, BasicWardenAccount).set_warden(x);
    w.accs.get_mut(&k).unwrap().data = d;
}

fn w02(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = fresh();
    let w0 = &mut w_;
    let n = r.range(2, 4) as u32;
    let keys: Vec<Pubkey> = (0..n).map(|_| r.key()).collect();
    let ops: Vec<Pubkey> = (0..2).map(|_| r.key()).collect();
    for k in keys.iter().chain(&ops) {
        w0.sys(*k, 1 << 50);
    }
    w0.sys(SYS, 1 << 50);
    let mut d = w0.data(&pda::<BasicWardenNetworkAccount>(None));
    {
        let mut a = Net::at(&mut d);
        a.set_count(n);
        for i in 0..n {
            put::<BasicWardenAccount>(w0, Some(i));
            let mut c = config(r, keys[i as usize]);
            c.operator = match r.below(3) {
                0 => None.into(),
                _ => Some(r.pick(&ops)).into(),
            };
            a.set_member(i as usize, i);
            a.set_region(i as usize, c.region);
            let x = ElusivBasicWarden { config: c, lut: r.key(), asn: None.into(), is_operator_confirmed: false, is_metadata_valid: None.into(), is_active: r.chance(1, 2), join_timestamp: r.below(1000), activation_timestamp: r.below(1000) };
            set_warden(w0, i, &x);
        }
    }
    w0.accs.get_mut(&pda::<BasicWardenNetworkAccount>(None)).unwrap().data = d;
    for _ in 0..r.range(4, 14) {
        w0.now = 1_600_000_000 + r.below(100_000_000) as i64;
        let id = r.below(n as u64) as u32;
        let acc = if r.chance(1, 12) { (id + 1) % n } else { id };
        let wk = pda::<BasicWardenAccount>(Some(acc));
        let signed = r.chance(9, 10);
        let mut x = warden(w0, id).unwrap();
        let before = w0.clone();
        let mut exp = w0.clone();
        let sg = |k: Pubkey, wr: bool| meta(k, signed, wr);
        let (name, mut ok, i): (&str, bool, Instruction) = match r.below(6) {
            0 => {
                let k = if r.chance(3, 4) { x.config.key } else { r.pick(&keys) };
                let v = r.chance(1, 2);
                let ok = k == x.config.key;
                if v != x.is_active {
                    x.activation_timestamp = w0.now as u64;
                }
                x.is_active = v;
                ("state", ok, ix(vec![sg(k, false), w(wk)], Ix::UpdateBasicWardenState { warden_id: id, is_active: v }))
            }
            1 => {
                let k = if r.chance(3, 4) { x.config.key } else { r.pick(&keys) };
                let l = r.key();
                let ok = k == x.config.key;
                x.lut = l;
                ("lut", ok, ix(vec![sg(k, false), w(wk), ro(l)], Ix::UpdateBasicWardenLut { warden_id: id }))
            }
            2 => {
                let k = r.pick(&ops);
                let ok = x.config.operator.option().map_or(true, |o| o == k);
                x.is_operator_confirmed = true;
                x.config.operator = Some(k).into();
                ("operator", ok, ix(vec![sg(k, false), w(wk)], Ix::ConfirmBasicWardenOperation { warden_id: id }))
            }
            3 => {
                let k = if r.chance(3, 4) { METADATA_ATTESTER_AUTHORITY } else { r.pick(&keys) };
                let a = r.pick(&keys);
                let ak = pda_pk::<BasicWardenAttesterMapAccount>(a, None);
                let ok = k == METADATA_ATTESTER_AUTHORITY && w0.data(&ak).is_empty();
                if ok {
                    put_pk::<BasicWardenAttesterMapAccount>(&mut exp, a, None);
                    let mut d = exp.data(&ak);
                    acct!(d, BasicWardenAttesterMapAccount).set_warden_id(&id);
                    exp.accs.get_mut(&ak).unwrap().data = d;
                }
                x.config.warden_features.attestation = true;
                ("add attester", ok, ix(vec![sg(k, true), w(ak), w(wk), ro(SYS)], Ix::AddMetadataAttester { warden_id: id, attester: a }))
            }
            4 => {
                let k = if r.chance(3, 4) { METADATA_ATTESTER_AUTHORITY } else { r.pick(&keys) };
                let a = r.pick(&keys);
                let ak = pda_pk::<BasicWardenAttesterMapAccount>(a, None);
                let ok = k == METADATA_ATTESTER_AUTHORITY && !w0.data(&ak).is_empty();
                if ok {
                    exp.accs.get_mut(&ak).unwrap().data = vec![];
                }
                x.config.warden_features.attestation = false;
                ("revoke attester", ok, ix(vec![sg(k, true), ro(a), w(ak), w(wk), ro(SYS)], Ix::RevokeMetadataAttester { warden_id: id }))
            }
            _ => {
                let aid = r.below(n as u64) as u32;
                let aw = warden(w0, aid).unwrap();
                let k = if r.chance(4, 5) { aw.config.key } else { r.pick(&keys) };
                let aacc = if r.chance(1, 12) { (aid + 1) % n } else { aid };
                let mi = if r.chance(1, 8) { r.pick(&[0, 1, 511, 512, u32::MAX]) } else { id };
                let tz = if r.chance(1, 2) { x.config.timezone.clone() } else { timezone(r) };
                let rg = if r.chance(1, 2) { x.config.region } else { region(r) };
                let px = if r.chance(1, 2) { x.config.uses_proxy } else { r.chance(1, 2) };
                let asn = if r.chance(1, 2) { None } else { Some(r.next() as u32) };
                
                say!(t, "attester {aid} account {aacc} role {} key ok {} member {mi}", aw.config.warden_features.attestation, k == aw.config.key);
                let ok = k == aw.config.key && aw.config.warden_features.attestation && aacc == aid && mi == id && aid != id;
                let valid = tz == x.config.timezone && rg == x.config.region && px == x.config.uses_proxy;
                x.asn = asn.into();
                x.config.timezone = tz.clone();
                x.config.region = rg;
                x.config.uses_proxy = px;
                x.is_metadata_valid = Some(valid).into();
                if ok {
                    let nk = pda::<BasicWardenNetworkAccount>(None);
                    let mut d = exp.data(&nk);
                    Net::at(&mut d).set_region(id as usize, rg);
                    exp.accs.get_mut(&nk).unwrap().data = d;
                }
                if aid == id {
                    // the same account twice: outside of the contract
                    continue;
                }
                (
                    "metadata",
                    ok,
                    ix(
                        vec![sg(k, false), ro(pda::<BasicWardenAccount>(Some(aacc))), w(wk), w(pda::<BasicWardenNetworkAccount>(None))],
                        Ix::AttestBasicWardenMetadata { attester_warden_id: aid, warden_id: id, member_index: mi, asn, timezone: tz, region: rg, uses_proxy: px },
                    ),
                )
            }
        };
        ok = ok && signed && acc == id;
        let g = run(w0, &[i], 0);
        say!(t, "{name} of {id}: {}", g.is_ok());
        t.mark();
        if g.is_ok() && !ok {
            ck!(false, "unauthorized", "{name} of warden {id} is accepted without its authority or for another account (signed {signed}, account of {acc})");
        }
        ck!(g.is_ok() == ok, "refused", "{name} of warden {id} with the right authority is refused: {g:?}");
        if !ok {
            exp = before.clone();
        } else {
            set_warden(&mut exp, id, &x);
        }
        for (k, a) in &w0.accs {
            let e = exp.accs.get(k).map(|a| a.data.clone()).unwrap_or_default();
            ck!(a.data == e, if *k == wk { "record" } else { "frame" }, "after {name} of warden {id} (accepted {}), account {k} is not what its arguments say{}", g.is_ok(), if *k == wk { format!(": {:?} instead of {:?}", first_diff(&a.data, &e), x.is_active) } else { String::new() });
        }
    }
    Ok(())
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("byte {i} is {} not {}", a[i], b[i]),
        None => format!("length {} vs {}", a.len(), b.len()),
    }
}

// ---- W03 / W04

/// days since 1970-01-01 of a date (proleptic Gregorian)
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn calendar(ts: u64) -> Option<(u32, u16)> {
    let d = (ts / 86400) as i64;
    for y in 2000..2100i64 {
        let (a, b) = (days(y, 1, 1), days(y + 1, 1, 1));
        if a <= d && d < b {
            return Some(((d - a) as u32 + 1, y as u16));
        }
    }
    None
}
fn w04(r: &mut Rng, t: &mut Tr) -> R {
    let base = 946_684_800u64;
    let off = r.below(86400);
    for day in 0..36525u64 {
        for sec in [0, off, 86399] {
            let ts = base + day * 86400 + sec;
            let (g, e) = (unix_timestamp_to_day_and_year(ts), calendar_fast(day));
            ck!(g == Some(e), "day", "second {ts} is mapped to {g:?}, not to {e:?}");
        }
    }
    for ts in [0, base - 1, base + 36525 * 86400, u64::MAX, r.below(base), base + 36525 * 86400 + r.next() / 2] {
        let g = unix_timestamp_to_day_and_year(ts);
        ck!(g.is_none(), "range", "second {ts} is mapped to {g:?}");
    }
    for _ in 0..50 {
        let ts = base + r.below(36525 * 86400);
        ck!(unix_timestamp_to_day_and_year(ts) == calendar(ts), "day", "second {ts} is mapped to {:?}, not to {:?}", unix_timestamp_to_day_and_year(ts), calendar(ts));
    }
    say!(t, "all days, second {off}");
    t.mark();
    Ok(())
}
fn calendar_fast(day: u64) -> (u32, u16) {
    thread_local!(static TAB: Vec<(u32, u16)> = (0..36525u64).map(|d| calendar(946_684_800 + d * 86400).unwrap()).collect());
    TAB.with(|t| t[day as usize])
}

fn w03(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = fresh();
    let w0 = &mut w_;
    let (wk, payer) = (r.key(), r.key());
    w0.sys(wk, 1 << 40);
    w0.sys(payer, 1 << 50);
    let year = r.range(2000, 2099) as u16;
    let y0 = days(year as i64, 1, 1) * 86400;
    let y1 = days(year as i64 + 1, 1, 1) * 86400;
    let stats = pda_pk::<BasicWardenStatsAccount>(wk, Some(year as u32));
    let g = run(w0, &[ix(vec![ro(wk), sw(payer), w(stats), ro(SYS)], Ix::OpenBasicWardenStatsAccount { year })], 0);
    ck!(g.is_ok(), "open", "the statistics account cannot be opened: {g:?}");
    type S = (u32, Vec<u32>);
    let read = |w: &World| -> (u16, u64, [S; 3]) {
        let mut d = w.data(&stats);
        let a = acct!(d, BasicWardenStatsAccount);
        let f = |s: WardenStatistics| (s.total, s.activity.to_vec());
        (a.get_year(), a.get_last_activity_timestamp(), [f(a.get_store()), f(a.get_send()), f(a.get_migrate())])
    };
    let m = read(w0);
    ck!(m.0 == year && m.1 == 0 && m.2.iter().all(|s| s.0 == 0 && s.1.iter().all(|x| *x == 0)), "open", "a new statistics account is not empty or of another year");
    if r.chance(1, 4) {
        let mut d = w0.data(&stats);
        {
            let mut a = acct!(d, BasicWardenStatsAccount);
            let mut act = [0u32; 366];
            for x in act.iter_mut() {
                *x = if r.chance(1, 3) { u32::MAX } else { r.next() as u32 };
            }
            let st = WardenStatistics { activity: act, total: if r.chance(1, 3) { u32::MAX } else { r.next() as u32 } };
            a.set_store(&st);
            let st = WardenStatistics { activity: act, total: r.next() as u32 };
            a.set_send(&st);
        }
        w0.accs.get_mut(&stats).unwrap().data = d;
    }
    const ELUSIV: [u8; 32] = [0; 32];
    let _ = ELUSIV;
    let elusiv = elusiv_program();
    let mut m = read(w0);
    for _ in 0..r.range(3, 12) {
        w0.now = match r.below(5) {
            0 => y0 + r.below(86400) as i64,
            1 => y1 - 1 - r.below(86400) as i64,
            2 => y0 + r.below((y1 - y0) as u64) as i64,
            3 => y0 + 59 * 86400 + r.below(2 * 86400) as i64,
            _ => {
                if r.chance(1, 3) {
                    y1 + r.below(86400) as i64
                } else if r.chance(1, 2) {
                    y0 - 1 - r.below(86400) as i64
                } else {
                    y0 + r.below((y1 - y0) as u64) as i64
                }
            }
        };
        let cal = calendar(w0.now as u64);
        let kind = r.below(3) as usize;
        let (idb, at) = [(2u8, 0usize), (13, 1), (14, 3)][kind];
        let byte = if r.chance(1, 6) { r.next() as u8 } else { idb };
        let prog = if r.chance(1, 8) { r.key() } else { elusiv };
        let mut accs: Vec<AccountMeta> = (0..6).map(|_| ro(Pubkey::new_unique())).collect();
        // the payer of the tracked instruction (account 0) and the account the program compares are the
        // same here: case made-by tells them apart
        if r.chance(5, 6) {
            accs[at].pubkey = wk;
            accs[0].pubkey = wk
        } else if r.chance(1, 2) {
            accs[4 + r.below(2) as usize].pubkey = wk
        }
        if r.chance(1, 10) {
            accs.truncate(r.below(4) as usize)
        }
        let mut data = vec![byte];
        data.extend((0..r.below(6)).map(|_| r.next() as u8));
        if r.chance(1, 20) {
            data.clear()
        }
        let prev = Instruction { program_id: prog, accounts: accs.clone(), data: data.clone() };
        let can_fail = r.chance(1, 2);
        let yr = if r.chance(1, 12) { year.wrapping_add(1) } else { year };
        let tr = ix(vec![ro(wk), w(stats), ro(ixs())], Ix::TrackBasicWardenStats { year: yr, can_fail });
        let (tx, i) = match r.below(8) {
            0 => (vec![tr], 0),
            1 => (vec![tr, prev], 0),
            2 => (vec![prev, Instruction { program_id: r.key(), accounts: vec![], data: vec![idb] }, tr], 2),
            3 => (vec![Instruction { program_id: r.key(), accounts: vec![], data: vec![0] }, prev, tr], 2),
            _ => (vec![prev, tr], 1),
        };
        let p = if i == 0 { None } else { Some(&tx[i - 1]) };
        let k = p.and_then(|p| p.data.first().copied()).and_then(|b| [2u8, 13, 14].iter().position(|x| *x == b));
        let counted = yr == year
            && cal.map_or(false, |c| c.1 == year)
            && k.map_or(false, |k| p.unwrap().program_id == elusiv && p.unwrap().accounts.get([0usize, 1, 3][k]).map_or(false, |a| a.pubkey == wk));
        let slot = if k == Some(0) { 0usize } else { 1 };
        let day = cal.map_or(0, |c| c.0 as usize - 1);
        let room = !counted || (m.2[slot].0 < u32::MAX && m.2[slot].1[day] < u32::MAX);
        let g = run(w0, &tx, i);
        say!(t, "track {:?} of {year}, previous byte {:?}: counted {} ok {}", cal, p.map(|p| p.data.first().copied()), counted && room, g.is_ok());
        let a = read(w0);
        if counted && room {
            t.mark();
            ck!(g.is_ok(), "refused", "a trackable instruction on day {} of {year} is refused: {g:?}", day + 1);
            m.1 = w0.now as u64;
            m.2[slot].0 += 1;
            m.2[slot].1[day] += 1;
            ck!(a.2[slot].0 == m.2[slot].0, "total", "the total is {} after counting, not {}", a.2[slot].0, m.2[slot].0);
            ck!(a.2[slot].1[day] == m.2[slot].1[day], "day-count", "the count of day {} of {year} is {}, not {}", day + 1, a.2[slot].1[day], m.2[slot].1[day]);
            ck!(a.1 == m.1, "last-activity", "the last activity is {}, not {}", a.1, m.1);
        } else if can_fail {
            ck!(g.is_err(), "accepted", "tracking that must not fail silently accepts an instruction it cannot count");
        }
        ck!(a == m, if counted && room { "other-count" } else { "not-counted" }, "counts change that should not (counted {})", counted && room);
    }
    Ok(())
}
/// whose instruction is counted: the one whose payer the warden is (account 0 of every trackable instruction)
fn w03_made_by(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = fresh();
    let w0 = &mut w_;
    let (wk, payer) = (r.key(), r.key());
    w0.sys(wk, 1 << 40);
    w0.sys(payer, 1 << 50);
    let year = r.range(2000, 2099) as u16;
    let (y0, y1) = (days(year as i64, 1, 1) * 86400, days(year as i64 + 1, 1, 1) * 86400);
    w0.now = y0 + r.below((y1 - y0) as u64) as i64;
    let stats = pda_pk::<BasicWardenStatsAccount>(wk, Some(year as u32));
    let g = run(w0, &[ix(vec![ro(wk), sw(payer), w(stats), ro(SYS)], Ix::OpenBasicWardenStatsAccount { year })], 0);
    ck!(g.is_ok(), "open", "the statistics account cannot be opened: {g:?}");
    // (instruction, position of the recipient)
    let (name, byte, recipient) = r.pick(&[("store", 2u8, usize::MAX), ("lamports", 13, 1), ("token", 14, 3)]);
    let mut accs: Vec<AccountMeta> = (0..12).map(|_| ro(Pubkey::new_unique())).collect();
    let maker = recipient == usize::MAX || r.chance(1, 2);
    accs[if maker { 0 } else { recipient }].pubkey = wk;
    let prev = Instruction { program_id: elusiv_program(), accounts: accs, data: vec![byte, 0] };
    let tr = ix(vec![ro(wk), w(stats), ro(ixs())], Ix::TrackBasicWardenStats { year, can_fail: true });
    let g = run(w0, &[prev, tr], 1);
    say!(t, "{name}: the warden is the {} ok {}", if maker { "payer" } else { "recipient" }, g.is_ok());
    t.mark();
    if maker {
        ck!(g.is_ok(), &format!("{name} of the warden not counted"), "the {name} instruction paid for by the warden is not counted: {g:?}");
    } else {
        ck!(g.is_err(), &format!("{name} of another counted"), "the {name} instruction of another payer counts for the warden because the warden is its recipient");
    }
    Ok(())
}
fn elusiv_program() -> Pubkey {
    use std::str::FromStr;
    let t = std::fs::read_to_string("/repo/Id.toml").unwrap();
    let s = t.split("[[program_id]]").find(|s| s.contains("\"elusiv\"")).unwrap();
    let l = s.lines().find(|l| l.trim().starts_with("testnet")).unwrap();
    Pubkey::from_str(l.split('"').nth(1).unwrap()).unwrap()
}

// ---- W05

fn w05(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = fresh();
    let w0 = &mut w_;
    let n = 8u32;
    // wardens whose ids are not their slots
    let shift = r.pick(&[0u32, 0, 3, 100]);
    let ids: Vec<u32> = (0..n).map(|i| i + shift).collect();
    let keys: Vec<Pubkey> = (0..n).map(|_| r.key()).collect();
    let ex: Vec<Pubkey> = (0..n).map(|_| r.key()).collect();
    for i in 0..n as usize {
        w0.sys(keys[i], 1 << 50);
        w0.sys(ex[i], 1 << 30);
        let k = put_pk::<BasicWardenMapAccount>(w0, keys[i], None);
        let mut d = w0.data(&k);
        acct!(d, BasicWardenMapAccount).set_warden_id(&ids[i]);
        w0.accs.get_mut(&k).unwrap().data = d;
    }
    let nk = pda::<ApaWardenNetworkAccount>(None);
    // (warden, quote start, quote end, confirmed) by slot
    let mut slots: Vec<(u32, Vec<u8>, Option<Vec<u8>>, bool)> = vec![];
    let quote = |r: &mut Rng, k: Option<Pubkey>| -> [u8; 558] {
        let mut b = [0u8; 558];
        for x in b.iter_mut() {
            *x = r.next() as u8;
        }
        if let Some(k) = k {
            b[400..432].copy_from_slice(&k.to_bytes());
        }
        b
    };
    let steps = r.range(10, 60);
    let mut order: Vec<usize> = (0..n as usize).collect();
    for i in 0..n as usize {
        let j = r.below(n as u64) as usize;
        order.swap(i, j);
    }
    let mut complete_order = order.clone();
    if r.chance(1, 2) {
        complete_order.reverse();
    }
    for step in 0..steps {
        let phase_app = slots.len() < 6 || slots.iter().take(6).any(|s| s.2.is_none());
        let guided = r.chance(3, 4);
        let op = if guided {
            if slots.len() < 6 && r.chance(2, 3) {
                0
            } else if phase_app {
                1
            } else {
                2
            }
        } else {
            r.below(3)
        };
        let signed = r.chance(14, 15);
        let mut who = r.below(n as u64) as usize;
        let before = w0.clone();
        match op {
            0 => {
                if guided {
                    who = order.iter().copied().find(|i| !slots.iter().any(|s| s.0 == ids[*i])).unwrap_or(who);
                }
                let id = if r.chance(1, 12) { ids[who] + 1 } else { ids[who] };
                let q = quote(r, Some(ex[who]));
                let g = run(
                    w0,
                    &[ix(
                        vec![meta(keys[who], signed, true), ro(pda_pk::<BasicWardenMapAccount>(keys[who], None)), w(pda::<ApaWardenAccount>(Some(id))), w(nk), ro(SYS)],
                        Ix::StartApaGenesisWardenApplication { warden_id: id, quote_start: QuoteStart(q) },
                    )],
                    0,
                );
                let ok = signed && id == ids[who] && slots.len() < 6 && !slots.iter().any(|s| s.0 == id);
                say!(t, "{step}: start {who}: {}", g.is_ok());
                ck!(g.is_ok() == ok, if ok { "start-refused" } else { "start-accepted" }, "application of warden {} with {} of 6 slots taken gives {g:?}", ids[who], slots.len());
                if ok {
                    let mut d = w0.data(&pda::<ApaWardenAccount>(Some(id)));
                    ck!(!d.is_empty(), "slot-record", "no record of the application");
                    let a = acct!(d, ApaWardenAccount);
                    ck!(a.get_warden_id() == id && a.get_network_member_index() == slots.len() as u32, "slot-record", "the application in slot {} is recorded as warden {} slot {}", slots.len(), a.get_warden_id(), a.get_network_member_index());
                    slots.push((id, q.to_vec(), None, false));
                }
            }
            1 => {
                if guided {
                    who = complete_order.iter().copied().find(|i| slots.iter().any(|s| s.0 == ids[*i] && s.2.is_none())).unwrap_or(who);
                }
                let id = if r.chance(1, 12) { ids[who] + 1 } else { ids[who] };
                let q = quote(r, None);
                let g = run(
                    w0,
                    &[ix(vec![meta(keys[who], signed, false), ro(pda_pk::<BasicWardenMapAccount>(keys[who], None)), w(nk)], Ix::CompleteApaGenesisWardenApplication { warden_id: id, quote_end: QuoteEnd(q) })],
                    0,
                );
                let slot = slots.iter().position(|s| s.0 == ids[who]);
                let ok = signed && id == ids[who] && phase_app && slot.is_some();
                say!(t, "{step}: complete {who} (slot {slot:?}): {}", g.is_ok());
                ck!(g.is_ok() == ok, if ok { "complete-refused" } else { "complete-accepted" }, "completion of warden {} in slot {slot:?} gives {g:?}", ids[who]);
                if ok {
                    slots[slot.unwrap()].2 = Some(q.to_vec());
                }
            }
            _ => {
                let msg = solana_program::hash::hashv(&slots.iter().filter(|s| s.2.is_some()).flat_map(|s| vec![s.1.as_slice(), s.2.as_ref().unwrap().as_slice()]).collect::<Vec<_>>()).to_bytes();
                let mut m = msg;
                if r.chance(1, 8) {
                    m[r.below(32) as usize] ^= 1 << r.below(8);
                }
                let i = if guided { slots.iter().position(|s| !s.3).unwrap_or(0) } else { r.below(6) as usize };
                let Some(sl) = slots.get(i).cloned() else { continue };
                let id = sl.0;
                let own = ex[ids.iter().position(|x| *x == id).unwrap()];
                let k = if r.chance(1, 6) { r.pick(&ex) } else { own };
                let g = run(w0, &[ix(vec![meta(k, signed, false), ro(pda::<ApaWardenAccount>(Some(id))), w(nk)], Ix::ConfirmApaGenesisNetwork { warden_id: id, confirmation_message: m })], 0);
                let ok = signed && !phase_app && !sl.3 && k == own && m == msg;
                if ok {
                    t.mark();
                }
                say!(t, "{step}: confirm slot {i}: {}", g.is_ok());
                ck!(g.is_ok() == ok, if ok { "confirm-refused" } else { "confirm-accepted" }, "confirmation of slot {i} (application phase {phase_app}, confirmed {}, own key {}, right message {}) gives {g:?}", sl.3, k == own, m == msg);
                if ok {
                    slots[i].3 = true;
                }
            }
        }
        let mut d = w0.data(&nk);
        let l = d.len();
        let f = d[l - (4 + 33 + 6 * (4 + 558 + 559 + 32 + 1))..].to_vec();
        let a = acct!(d, ApaWardenNetworkAccount);
        let u32at = |o: usize| u32::from_le_bytes(f[o..o + 4].try_into().unwrap());
        ck!(u32at(0) as usize == slots.len(), "count", "{} applications recorded as {}", slots.len(), u32at(0));
        let (om, os, oe) = (37, 37 + 24, 37 + 24 + 558 * 6);
        let ok_ = oe + 559 * 6;
        let oc = ok_ + 32 * 6;
        for i in 0..6usize {
            let e = &f[oe + 559 * i..oe + 559 * (i + 1)];
            let got = (u32at(om + 4 * i), f[os + 558 * i..os + 558 * (i + 1)].to_vec(), if e[0] == 1 { Some(e[1..].to_vec()) } else { None }, f[oc + i] == 1);
            let want = slots.get(i).cloned().unwrap_or((0, vec![0; 558], None, false));
            ck!(got.0 == want.0, "member", "slot {i} belongs to warden {}, not {}", got.0, want.0);
            ck!(got.1 == want.1, "quote-start", "the quote start of slot {i} is not the one of its application");
            ck!(got.2 == want.2, "quote-end", "the quote end of slot {i} is not the one of its warden (present {}, expected {})", got.2.is_some(), want.2.is_some());
            ck!(got.3 == want.3, "confirmation", "slot {i} confirmed is {}, not {}", got.3, want.3);
            if let Some(s) = slots.get(i) {
                ck!(f[ok_ + 32 * i..ok_ + 32 * (i + 1)] == ex[ids.iter().position(|x| *x == s.0).unwrap()].to_bytes(), "exchange-key", "slot {i} holds another exchange key");
            }
        }
        let app = slots.len() < 6 || slots.iter().any(|s| s.2.is_none());
        let all = !app && slots.iter().all(|s| s.3);
        ck!(a.is_application_phase() == app && a.is_confirmed() == all && a.is_confirmation_phase() == (!app && !all), "phase", "the phase of the network is wrong with {} applications", slots.len());
        ck!(before.accs.iter().all(|(k, x)| *k == nk || keys.contains(k) || w0.accs[k] == *x || x.data.is_empty()), "frame", "an unrelated account changes");
    }
    Ok(())
}

// ---- W06

fn mint(r: &mut Rng, freeze: Option<Pubkey>) -> Vec<u8> {
    use solana_program::program_option::COption;
    use solana_program::program_pack::Pack;
    let m = spl_token::state::Mint { mint_authority: if r.chance(1, 2) { COption::None } else { COption::Some(r.key()) }, supply: r.next(), decimals: 6, is_initialized: r.chance(9, 10), freeze_authority: freeze.map_or(COption::None, COption::Some) };
    let mut d = vec![0; spl_token::state::Mint::LEN];
    m.pack_into_slice(&mut d);
    d
}
fn w06(r: &mut Rng, t: &mut Tr) -> R {
    let mut w_ = fresh();
    let w0 = &mut w_;
    let users: Vec<Pubkey> = (0..3).map(|_| r.key()).collect();
    for u in &users {
        w0.sys(*u, 1 << 50);
    }
    let pk = pda::<ApaProposalsAccount>(None);
    let mut count = if r.chance(1, 4) { r.pick(&[7u32, u32::MAX, u32::MAX - 1]) } else { 0 };
    let mut d = w0.data(&pk);
    acct!(d, ApaProposalsAccount).set_number_of_proposals(&count);
    w0.accs.get_mut(&pk).unwrap().data = d;
    for _ in 0..r.range(2, 9) {
        w0.now = 1_600_000_000 + r.below(100_000_000) as i64;
        let u = r.pick(&users);
        let role = r.chance(2, 3);
        let tok: Option<u16> = if r.chance(1, 4) { None } else { Some(r.below(TOKENS.len() as u64 + 2) as u16) };
        let freeze = match r.below(5) {
            0 => None,
            1 => Some(r.pick(&users)),
            _ => Some(u),
        };
        let real_mint = tok.filter(|x| (*x as usize) < TOKENS.len()).map(|x| TOKENS[x as usize].mint);
        let mk = if r.chance(1, 5) { r.key() } else { real_mint.filter(|m| *m != SYS).unwrap_or_else(|| r.key()) };
        let mut md = mint(r, freeze);
        let init = md[45] == 1;
        let mut short = false;
        if r.chance(1, 15) {
            md.pop();
            short = true;
        }
        w0.put(mk, rent(82), md, spl_token::ID);
        let id = if r.chance(1, 8) { count.wrapping_add(1) } else { count };
        let target = r.key();
        let p = ApaProposal {
            proponent: r.key(),
            proponent_role: if role { ApaProponentRole::TokenFreezingAuthority } else { ApaProponentRole::Default },
            timestamp: r.next(),
            target,
            level: match r.below(3) {
                0 => ApaLevel::Flag1,
                1 => ApaLevel::Flag2,
                _ => ApaLevel::Outcast,
            },
            token_constraint: tok.into(),
            reason: string(r),
        };
        let mut want = ser(&p);
        want[..32].copy_from_slice(&u.to_bytes());
        want[33..41].copy_from_slice(&(w0.now as u64).to_le_bytes());
        let signed = r.chance(14, 15);
        let ak = pda::<ApaProposalAccount>(Some(id));
        let g = run(w0, &[ix(vec![meta(u, signed, true), w(ak), w(pk), w(pda_pk::<ApaTargetMapAccount>(target, None)), ro(mk), ro(SYS)], Ix::ProposeApaProposal { proposal_id: id, proposal: p })], 0);
        let tok_ok = tok.map_or(true, |x| (x as usize) < TOKENS.len());
        let auth = !role || (tok.map_or(false, |x| x > 0) && real_mint == Some(mk) && init && !short && freeze == Some(u));
        let ok = signed && id == count && tok_ok && auth && count < u32::MAX;
        say!(t, "propose {id} of {count}, role {role}, token {tok:?}: {}", g.is_ok());
        t.mark();
        if g.is_ok() && !auth {
            ck!(false, "role", "a proposal claims the freezing authority (token {tok:?}) and is accepted although the signer is not shown to hold it");
        }
        ck!(g.is_ok() == ok, if ok { "refused" } else { "accepted" }, "proposal {id} of {count} (role {role}, token {tok:?}) gives {g:?}");
        if ok {
            count += 1;
            let d = w0.data(&ak);
            let mut d2 = d.clone();
            let _ = &mut d2;
            ck!(d.len() >= want.len() && d[d.len() - want.len()..] == want[..], "stored", "the stored proposal is not the given one");
        }
        let mut d = w0.data(&pk);
        let n = acct!(d, ApaProposalsAccount).get_number_of_proposals();
        ck!(n == count, "number", "the number of proposals is {n}, not {count}");
    }
    Ok(())
}
#[allow(unused)]
fn unused(_: ElusivOption<u8>) {}
